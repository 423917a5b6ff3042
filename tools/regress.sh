#!/bin/bash
# Development aid: regress.sh ID [bad|ok]: mutants of mutants/ID.* ; bad ones must alarm, ok ones must not
cd /verif/mutants
if [ -n "$Q" ]; then # only what is unexpected
for id in "$@"; do
[ -f $id.bad ] && python3 ../tools/mut.py $id $( [ $id = C20 ] && echo cmd/readability/readability.go || echo readability.go ) < $id.bad | grep -E '^MUT.*exit 0$|^!!' | sed "s/^/MISSED $id /"
[ -f $id.ok ] && python3 ../tools/mut.py ${OKIDS:-$id} $( [ $id = C20 ] && echo cmd/readability/readability.go || echo readability.go ) < $id.ok | cut -c1-${W:-220} | grep -B30 -E '^MUT.*exit [12]$|^!!|^    ' | grep -v 'exit 0$' | sed "s/^/ALARM $id /"
done
exit 0
fi
for id in "$@"; do
[ -f $id.bad ] && { echo "== $id bad (expect exit 1)"; python3 ../tools/mut.py $id $( [ $id = C20 ] && echo cmd/readability/readability.go || echo readability.go ) < $id.bad | cut -c1-${W:-160} | { [ -n "$V" ] && cat || grep -v '^   '; }; }
[ -f $id.ok ] && { echo "== $id ok (expect exit 0)"; python3 ../tools/mut.py ${OKIDS:-$id} $( [ $id = C20 ] && echo cmd/readability/readability.go || echo readability.go ) < $id.ok | cut -c1-${W:-220}; }
done
true
