package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: every operation that can panic or end the process (dereference, index, slice, type
// assertion, division, map write, call of a function value, MustCompile, panic, log.Fatal)
// is an obligation under the path condition of the place where it stands, in every calling
// context from the entry points. An obligation is met if the path condition entails it, or
// by one of the reasons below; otherwise it is reported if it is of a kind for which the
// analysis knows everything a guard could say (unmet "hard" obligations), and noted if not.

func init() { checks["C01"] = checkC01 }

var c01dbg = os.Getenv("C01DBG") != ""

type c01res struct {
	why  string // "" = met
	hard bool
}

var met = c01res{}

func soft(f string, a ...any) c01res { return c01res{fmt.Sprintf(f, a...), false} }
func hard(f string, a ...any) c01res { return c01res{fmt.Sprintf(f, a...), true} }

func worse(a, b c01res) c01res {
	if a.hard || b.why == "" {
		return a
	}
	if b.hard || a.why == "" {
		return b
	}
	return a
}

type c01memo struct {
	e *Exec
	l *Term
}

var c01nilMemo = map[c01memo]c01res{}

// c01nilElems: no nil is put into a list of nodes.
func (c *Ctx) c01nilElems(r *run, l *Term, g int, lp []*LoopInst) c01res {
	k := c01memo{r.e, l}
	if l.op != "loopvar" {
		return c.c01elems(r, l, "", g, lp, map[*Term]bool{})
	}
	if res, ok := c01nilMemo[k]; ok {
		return res
	}
	c01nilMemo[k] = met // while in progress
	res := c.c01elems(r, l, "", g, lp, map[*Term]bool{})
	c01nilMemo[k] = res
	return res
}

func checkC01(c *Ctx) {
	c.rule("a dereferenced pointer, called function value, receiver or written map is not nil on any path: literal nil does not reach it, and a link of the tree that may be missing (parent, sibling, body, head, score record, ...), a map entry or the result of a failed call is used only under a test that excludes it")
	c.rule("an index or slice bound is within the list or string: entailed by the comparisons on the path, by the number of groups of the regular expression, by the contract of the library function that made the list, or by the direction of the counter")
	c.rule("type assertions without ok, integer divisions, explicit panics, process exits and MustCompile of computed patterns do not occur where their condition can fail")
	runs := []*run{
		c.exec(c.P.fn("New"), true, nil),
		c.exec(c.P.method("Readability", "Parse"), true, nil),
		c.exec(c.P.fn("IsProbablyReaderable"), true, nil),
	}
	done := map[*ssa.Function]bool{}
	for _, r := range runs {
		c.c01run(r, false)
		for _, ev := range r.e.events {
			for a := ev.act; a != nil; a = a.parent {
				done[a.fn] = true
			}
		}
	}
	// the primitives and recursive functions, on their own
	var fns []*ssa.Function
	for _, f := range c.P.funcs {
		if f.Blocks == nil || f.Synthetic != "" || f.Name() == "init" || !c.P.inLib(f) || done[f] && !c.selfRec(f) || f.Parent() != nil || len(f.FreeVars) > 0 {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if c01dbg {
			fmt.Println("--", f)
		}
		if n, ok := c.P.primName(f); ok && (mutPrims[n] || strings.HasSuffix(n, "Attribute")) {
			continue // on every shape of the tree, with its panics: C03 and C22
		}
		c.c01run(c.exec(f, true, nil), true)
		c.count("functions analysed on their own", 1)
	}
}

func (c *Ctx) c01run(r *run, sym bool) {
	e := r.e
	seen := map[string]int{}
	noted := map[string]bool{}
	report := func(ev *Event, res c01res) {
		if res.why == "" {
			c.count("obligations met", 1)
			return
		}
		pos := c.P.instrPos(ev.instr)
		if c01dbg {
			seen[fmt.Sprintf("%s %s hard=%v %s", pos, ev.name, res.hard, res.why)]++
		}
		if sym && res.hard && (ev.kind == "panic" || (ev.name == "index" || ev.name == "slice") && paramList(ev.args[0])) {
			res.hard = false
		}
		what := ev.name
		if i := strings.IndexByte(what, ':'); i > 0 {
			what = what[:i]
		}
		if res.hard {
			where := pos
			c.bad("panic-free", where, what+" "+res.why, "%s: %s", what, res.why)
			return
		}
		c.count("obligations left open", 1)
		if k := pos + what; !noted[k] {
			noted[k] = true
			c.notes = append(c.notes, fmt.Sprintf("open: %s %s %s", pos, what, res.why))
		}
	}
	for _, ev := range e.events {
		switch ev.kind {
		case "ob":
			c.count("obligations", 1)
			report(ev, c.c01ob(r, ev))
		case "panic", "exit":
			c.count("obligations", 1)
			res := met
			if e.feasible(ev.cond, nil, ev.loops) {
				res = hard("%s is reached", ev.kind)
				if ev.kind == "exit" {
					res = hard("%s is reached", ev.name)
				}
			}
			report(ev, res)
		}
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(seen[k], k)
	}
}

func (c *Ctx) c01ob(r *run, ev *Event) c01res {
	e, w, b := r.e, r.e.w, r.e.w.b
	switch {
	case ev.name == "nil-deref" || ev.name == "nil-iface" || ev.name == "nil-call" || ev.name == "nil-map":
		return c.c01nil(r, ev, ev.args[0])
	case strings.HasPrefix(ev.name, "nil-recv"):
		if len(ev.args) == 0 {
			return met
		}
		res := c.c01nil(r, ev, ev.args[0])
		switch strings.TrimPrefix(ev.name, "nil-recv:") {
		case "AppendChild", "RemoveChild", "ReplaceChild":
			if strings.HasSuffix(ev.name, ":ReplaceChild") && len(ev.args) == 3 {
				res = worse(res, c.c01replace(r, ev))
			}
			for _, a := range ev.args[1:] {
				res = worse(res, c.c01nil(r, ev, a))
			}
		}
		return res
	case ev.name == "index":
		return c.c01index(r, ev)
	case ev.name == "slice":
		return c.c01slice(r, ev)
	case ev.name == "type-assert":
		if ok, _ := e.entails(ev.cond, w.asBool(ev.args[0]), nil, ev.loops); !ok {
			return hard("the dynamic type of %s is not known to be the asserted one", w.showd(ev.args[1], 3))
		}
	case ev.name == "div-zero":
		y := ev.args[0]
		if ok, _ := e.entails(ev.cond, b.Not(w.asBool(w.eq(y, w.int(0)))), nil, ev.loops); !ok {
			return hard("the divisor %s may be zero", w.showd(y, 3))
		}
	case ev.name == "makeslice":
		n := ev.args[0]
		if k, co := lin(n); nonNegLin(k, co) {
			return met
		}
		if ok, _ := e.entails(ev.cond, b.Not(w.asBool(w.lt(n, w.int(0), true))), nil, ev.loops); !ok {
			if e.mentions(n, func(t *Term) bool { return t.op == "fld" && strings.HasPrefix(t.aux, "F:Options.") }) || n.isInt() {
				return hard("the size %s may be negative", w.showd(n, 3))
			}
			return soft("the size %s", w.showd(n, 3))
		}
	case ev.name == "mustcompile":
		if e.feasible(ev.cond, nil, ev.loops) {
			return hard("a computed pattern %s may not compile", w.showd(ev.args[0], 3))
		}
	}
	return met
}

// c01replace: ReplaceChild panics unless the replaced node is a child of the receiver.
func (c *Ctx) c01replace(r *run, ev *Event) c01res {
	e := r.e
	res := met
	for _, n := range e.altsUnder(ev.args[0], ev.cond, ev.loops...) {
		for _, o := range e.altsUnder(ev.args[2], n.g, ev.loops...) {
			if n.t.op == "fld" && n.t.aux == clsParent && same(n.t.args[0], o.t) {
				continue
			}
			if l, _, ok := elemOf(o.t); ok && l.op == "fld" && (l.aux == "F:Node.Children" || l.aux == "F:Node.ChildNodes") && same(l.args[0], n.t) {
				continue
			}
			if o.t.op == "newnode" && !e.hasParent(o.t, 0) {
				res = worse(res, hard("ReplaceChild is to replace the new node %s, which is not in the tree", e.w.showd(o.t, 2)))
				continue
			}
			if n.t.op == "fld" && n.t.aux == clsParent && o.t.op != "newnode" && n.t.args[0].op == o.t.op && o.t.op == "idx" {
				res = worse(res, hard("ReplaceChild is called on the parent of %s to replace %s", e.w.showd(n.t.args[0], 2), e.w.showd(o.t, 2)))
				continue
			}
			res = worse(res, soft("ReplaceChild(%s)", e.w.showd(o.t, 2)))
		}
	}
	return res
}

// paramList: a list handed in, or a list of a node handed in.
func paramList(x *Term) bool {
	switch x.op {
	case "param":
		return true
	case "fld", "subslice":
		return paramList(x.args[0])
	case "ite", "append":
		for _, a := range x.args {
			if paramList(a) {
				return true
			}
		}
	}
	return false
}

// nil ------------------------------------------------------------------------------------

var c01link = map[string]string{
	"F:Node.ParentNode": "parent", "F:Node.NextSibling": "sibling", "F:Node.PreviousSibling": "sibling",
	"F:Node.NextElementSibling": "sibling", "F:Node.PreviousElementSibling": "sibling",
	"F:Node.ReadabilityNode": "score", "F:Node.ReadabilityDataTable": "mark", "F:Node.style": "mark",
	"F:Node.Body": "part", "F:Node.head": "part", "F:Node.DocumentElement": "part",
	"F:html.Node.Parent": "parent", "F:html.Node.FirstChild": "sibling", "F:html.Node.LastChild": "sibling",
	"F:html.Node.NextSibling": "sibling", "F:html.Node.PrevSibling": "sibling",
	"F:Options.html2text": "option", "F:Options.allowedVideoRegex": "option",
}

func (c *Ctx) c01nil(r *run, ev *Event, x *Term) c01res {
	res := met
	for _, a := range r.e.altsUnder(x, ev.cond, ev.loops...) {
		res = worse(res, c.c01maybeNil(r, a.t, a.g, ev.loops, map[*Term]bool{}))
	}
	return res
}

func (c *Ctx) c01maybeNil(r *run, t *Term, g int, lp []*LoopInst, hyp map[*Term]bool) c01res {
	e, w, b := r.e, r.e.w, r.e.w.b
	if hyp[t] {
		return met
	}
	switch t.op {
	case "nil":
		if e.feasible(g, nil, lp) {
			return hard("a nil value reaches the use")
		}
		return met
	case "new", "newnode", "iface", "clo", "fn", "makemap", "faddr", "iaddr", "gaddr", "param", "re", "slicelit", "css", "htmldoc", "sortarg", "newdoc":
		return met
	case "idx":
		if l := t.args[0]; builtList(l, 0) && t.typ != nil {
			if _, ok := t.typ.Underlying().(*types.Pointer); ok {
				return c.c01nilElems(r, l, g, lp)
			}
		}
		return c.c01shrunk(r, t, g, lp)
	case "fld":
		switch t.aux {
		case "F:Readability.doc", "F:Readability.options", "F:Options.serializer", "F:Options.visibilityChecker":
			return met
		}
	}
	if i := strings.LastIndexByte(t.op, '.'); strings.HasPrefix(t.op, "call:") && i > 0 && strings.HasPrefix(t.op[i+1:], "New") && !strings.Contains(t.aux, "#") {
		return met // constructors without an error result
	}
	if strings.HasPrefix(t.op, "call:reflect.") || t.op == "call:(*net/url.URL).ResolveReference" || t.op == "call:(*net/url.URL).JoinPath" {
		return met
	}
	nilc := e.isNil(t)
	if ok, _ := e.entails(g, b.Not(nilc), nil, lp); ok {
		return met
	}
	// the same read at another moment
	s := func(a *Term) (bool, bool) {
		if a.op == "EQ" && a.args[1].op == "nil" && same(a.args[0], t) {
			return true, true
		}
		return false, false
	}
	if !e.feasible(g, s, lp) {
		return met
	}
	switch t.op {
	case "ite":
		res := met
		for _, a := range e.altsUnder(t, g, lp...) {
			res = worse(res, c.c01maybeNil(r, a.t, a.g, lp, hyp))
		}
		return res
	case "loopvar":
		return c.c01loopvar(r, t, hyp)
	case "cell":
		return c.c01cell(r, t, hyp)
	case "fld":
		kind, ok := c01link[t.aux]
		if !ok {
			return soft("%s", w.showd(t, 3))
		}
		switch kind {
		case "parent":
			if e.hasParent(t.args[0], 0) {
				return met
			}
			if x, ok := c.c01linkvar(r, t, hyp); ok && !x.hard {
				return x
			}
		}
		if l, _, ok := elemOf(t.args[0]); ok && builtList(l, 0) {
			if res := c.c01elems(r, l, t.aux, g, lp, map[*Term]bool{}); res.why != "" {
				return res
			}
			return met
		}
		if l, _, ok := elemOf(t.args[0]); ok && !e.treeList(l, 0) {
			return soft("%s", w.showd(t, 3))
		}
		if !hyp[t.args[0]] && e.murky(t.args[0], 0) && !(kind == "score" && e.otherNode(t.args[0], 0)) {
			return soft("%s", w.showd(t, 3))
		}
		return hard("%s may be missing and no test on the path excludes it", w.showd(t, 3))
	case "lookup":
		return hard("the map entry %s may be missing", w.showd(t, 3))
	}
	if t.op == "call:net/url.Parse" || t.op == "call:(*net/url.URL).Parse" || t.op == "call:net/url.ParseRequestURI" {
		fail := func(a *Term) (bool, bool) {
			if a.op == "EQ" && a.args[1].op == "nil" && a.args[0].op == t.op && same(a.args[0].args[0], t.args[0]) {
				return strings.HasSuffix(a.args[0].aux, "#0"), true
			}
			return false, false
		}
		if e.feasible(g, fail, lp) {
			return hard("the result of %s is used although the call may have failed", w.showd(t, 3))
		}
		return met
	}
	return soft("%s", w.showd(t, 3))
}

// c01shrunk: a list of a node, read before a loop over it, whose last positions become nil
// when a node or attribute is taken out of it in a round.
func (c *Ctx) c01shrunk(r *run, t *Term, g int, lp []*LoopInst) c01res {
	e, b := r.e, r.e.w.b
	l := t.args[0]
	if l.op != "fld" || l.aux != "F:Node.Children" && l.aux != "F:Node.ChildNodes" && l.aux != "F:Node.Attributes" || !c.nilTail() {
		return met
	}
	v, _, ok := splitVar(t.args[1])
	if !ok {
		return met
	}
	L, _ := v.obj.(*LoopInst)
	if L == nil || L.external != "" || !containsLoop(lp, L) {
		return met
	}
	live := false
	e.w.subterms(l, func(x *Term) bool {
		live = live || x.op == "mloop" && strings.HasPrefix(x.aux, fmt.Sprintf("%d:", L.id))
		return true
	})
	p := L.phiOf(v)
	if live || p == nil || L.next[p] != e.w.add(v, e.w.int(1)) {
		return met
	}
	nilT := func(a *Term) (bool, bool) {
		if a.op == "EQ" && a.args[1].op == "nil" && same(a.args[0], t) {
			return true, true
		}
		return false, false
	}
	if !e.feasible(g, nilT, lp) {
		return met
	}
	for _, ev := range e.byKind("prim") {
		if !containsLoop(ev.loops, L) {
			continue
		}
		out := false
		switch ev.name {
		case "RemoveChild":
			out = l.aux != "F:Node.Attributes" && same(ev.args[0], l.args[0]) && same(ev.args[1], t)
		case "AppendChild":
			out = l.aux != "F:Node.Attributes" && same(ev.args[1], t) && !same(ev.args[0], l.args[0])
		case "RemoveAttribute":
			out = l.aux == "F:Node.Attributes" && same(ev.args[0], l.args[0])
		}
		if out && e.feasible(b.And(ev.cond, L.back), nil, ev.loops) {
			return hard("%s is read while %s takes elements out of the list: its last positions are nil then", e.w.showd(t, 2), ev.name)
		}
	}
	return met
}

// nilTail: taking an element out of a list writes nil into it.
func (c *Ctx) nilTail() bool {
	for _, f := range c.P.funcs {
		if !c.P.inLib(f) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if k, ok := x.Val.(*ssa.Const); ok && k.IsNil() {
						if _, ok := x.Addr.(*ssa.IndexAddr); ok {
							return true
						}
					}
				case *ssa.Call:
					if g := x.Call.StaticCallee(); g != nil && g.Origin() != nil && g.Origin().String() == "slices.Delete" {
						return true
					}
				}
			}
		}
	}
	return false
}

// c01loopvar: a loop variable is never nil if it is not at the start and no round makes it so.
func (c *Ctx) c01loopvar(r *run, v *Term, hyp map[*Term]bool) c01res {
	e := r.e
	L, _ := v.obj.(*LoopInst)
	if L == nil || L.external != "" {
		return soft("%s", e.w.showd(v, 3))
	}
	p := L.phiOf(v)
	if p == nil || L.init[p] == nil || L.next[p] == nil {
		return soft("%s", e.w.showd(v, 3))
	}
	h := map[*Term]bool{v: true}
	for k := range hyp {
		h[k] = true
	}
	in := append(append([]*LoopInst(nil), L.outer...), L)
	res := met
	for _, a := range e.altsUnder(L.init[p], L.entry, L.outer...) {
		x := c.c01maybeNil(r, a.t, a.g, L.outer, h)
		if a.t.op == "nil" && x.hard && !e.staysNil(L, v, L.next[p], in) {
			x = soft("nil if the loop has no round")
		}
		res = worse(res, x)
	}
	for _, a := range e.altsUnder(L.next[p], e.w.b.And(L.entry, L.back), in...) {
		res = worse(res, c.c01maybeNil(r, a.t, a.g, in, h))
	}
	return res
}

// c01linkvar: the link of a loop variable is there if the first node has it and each round
// goes on with a node that has it.
func (c *Ctx) c01linkvar(r *run, t *Term, hyp map[*Term]bool) (c01res, bool) {
	e := r.e
	v := t.args[0]
	L, _ := v.obj.(*LoopInst)
	if v.op != "loopvar" || L == nil || L.external != "" || len(hyp) > 4 {
		return met, false
	}
	p := L.phiOf(v)
	if p == nil || L.init[p] == nil || L.next[p] == nil {
		return met, false
	}
	h := map[*Term]bool{t: true}
	for k := range hyp {
		h[k] = true
	}
	of := func(n *Term) *Term {
		x := e.w.mk(t.op, t.aux, append([]*Term{n}, t.args[1:]...)...)
		x.typ = t.typ
		return x
	}
	res := met
	for _, a := range e.altsUnder(L.init[p], L.entry, L.outer...) {
		res = worse(res, c.c01maybeNil(r, of(a.t), a.g, L.outer, h))
	}
	in := append(append([]*LoopInst(nil), L.outer...), L)
	for _, a := range e.altsUnder(L.next[p], e.w.b.And(L.entry, L.back), in...) {
		res = worse(res, c.c01maybeNil(r, of(a.t), a.g, in, h))
	}
	return res, true
}

// staysNil: a round can leave the variable nil.
func (e *Exec) staysNil(L *LoopInst, v, next *Term, lp []*LoopInst) bool {
	s := func(a *Term) (bool, bool) {
		if a.op == "EQ" && a.args[1].op == "nil" && a.args[0] == v {
			return true, true
		}
		return false, false
	}
	for _, a := range e.altsUnder(next, e.w.b.And(L.entry, L.back), lp...) {
		if (a.t == v || a.t.op == "nil") && e.feasible(a.g, s, lp) {
			return true
		}
	}
	return false
}

// c01elems: every node put into a list has the link when it is put there.
func (c *Ctx) c01elems(r *run, l *Term, cls string, g0 int, lp0 []*LoopInst, seen map[*Term]bool) c01res {
	e := r.e
	if seen[l] {
		return met
	}
	seen[l] = true
	var list func(t *Term, g int, lp []*LoopInst) c01res
	elem := func(x *Term, g int, lp []*LoopInst) c01res {
		res := met
		for _, a := range e.altsUnder(x, g, lp...) {
			if cls == "" {
				if a.t.op == "nil" {
					res = worse(res, soft("a place in a list filled later?"))
					continue
				}
				if res = worse(res, c.c01maybeNil(r, a.t, a.g, lp, map[*Term]bool{})); res.hard {
					res.why = "put into a list: " + strings.TrimPrefix(res.why, "put into a list: ")
				}
				continue
			}
			if a.t.op == "nil" {
				continue // not a node
			}
			isLink := func(y *Term) bool { return y.op == "fld" && y.aux == cls && same(y.args[0], a.t) }
			s := func(y *Term) (bool, bool) {
				if y.op == "EQ" && y.args[1].op == "nil" && isLink(y.args[0]) {
					return true, true
				}
				return false, false
			}
			if !e.feasible(a.g, s, lp) {
				continue
			}
			set := bFalse
			for _, ev := range e.events {
				if ev.kind == "store" && ev.name == cls && len(ev.args) == 2 && ev.args[0].op == "faddr" && same(ev.args[0].args[0], a.t) && ev.args[1].op != "nil" {
					set = e.w.b.Or(set, ev.cond)
				}
			}
			if ok, _ := e.entails(a.g, set, s, lp); ok {
				continue
			}
			if cls == clsParent && e.hasParent(a.t, 0) {
				continue
			}
			if l2, _, ok := elemOf(a.t); ok && builtList(l2, 0) {
				res = worse(res, c.c01elems(r, l2, cls, a.g, lp, seen))
				continue
			}
			if a.t.op == "cell" || e.murky(a.t, 0) {
				res = worse(res, soft("%s of the list", e.w.showd(a.t, 3)))
				continue
			}
			res = worse(res, hard("%s.%s may be missing where the node is put into the list", e.w.showd(a.t, 3), strings.TrimPrefix(cls, "F:Node.")))
		}
		return res
	}
	list = func(t *Term, g int, lp []*LoopInst) c01res {
		res := met
		switch t.op {
		case "nil":
		case "slicelit":
			for _, x := range t.args {
				res = worse(res, elem(x, g, lp))
			}
		case "append":
			for _, x := range t.args {
				res = worse(res, list(x, g, lp))
			}
		case "subslice":
			return list(t.args[0], g, lp)
		case "ite":
			for _, a := range e.altsUnder(t, g, lp...) {
				res = worse(res, list(a.t, a.g, lp))
			}
		case "loopvar":
			return c.c01elems(r, t, cls, g, lp, seen)
		default:
			if cls == "" && e.treeList(t, 0) {
				return met
			}
			return soft("the list %s", e.w.showd(t, 2))
		}
		return res
	}
	if l.op != "loopvar" {
		return list(l, g0, lp0)
	}
	L, _ := l.obj.(*LoopInst)
	if L == nil || L.external != "" {
		return soft("the list %s", e.w.showd(l, 2))
	}
	p := L.phiOf(l)
	if p == nil || L.init[p] == nil || L.next[p] == nil {
		return soft("the list %s", e.w.showd(l, 2))
	}
	in := append(append([]*LoopInst(nil), L.outer...), L)
	return worse(list(L.init[p], L.entry, L.outer), list(L.next[p], e.w.b.And(L.entry, L.back), in))
}

// c01cell: the same for a variable that a function literal shares.
func (c *Ctx) c01cell(r *run, v *Term, hyp map[*Term]bool) c01res {
	e := r.e
	unknown := soft("the shared variable %s", e.w.showd(v, 2))
	if len(v.args) < 2 || v.args[1].op != "mloop" {
		return unknown
	}
	var L *LoopInst
	for _, l := range e.allLoop {
		if e.mloop(l, v.aux) == v.args[1] {
			L = l
		}
	}
	if L == nil || L.memInit[v.aux] == nil || L.memNext[v.aux] == nil || v.typ == nil {
		return unknown
	}
	h := map[*Term]bool{v: true}
	for k := range hyp {
		h[k] = true
	}
	in := append(append([]*LoopInst(nil), L.outer...), L)
	init := e.loadAddr(&State{cond: bTrue, mem: map[string]*Term{v.aux: L.memInit[v.aux]}}, v.args[0], v.typ)
	next := e.nextHeap(L, v)
	if init == nil || next == nil {
		return unknown
	}
	res := met
	for _, a := range e.altsUnder(init, L.entry, L.outer...) {
		res = worse(res, c.c01maybeNil(r, a.t, a.g, L.outer, h))
	}
	for _, a := range e.altsUnder(next, e.w.b.And(L.entry, L.back), in...) {
		res = worse(res, c.c01maybeNil(r, a.t, a.g, in, h))
	}
	return res
}

// otherNode: a node that need not come from the list of candidates.
func (e *Exec) otherNode(n *Term, d int) bool {
	switch {
	case d > 5:
		return false
	case n.op == "cell" || n.op == "fld":
		return true
	case n.op == "ite":
		for _, a := range n.args {
			if e.otherNode(a, d+1) {
				return true
			}
		}
	case n.op == "loopvar":
		L, _ := n.obj.(*LoopInst)
		if L == nil || L.external != "" {
			return false
		}
		p := L.phiOf(n)
		if p == nil || L.init[p] == nil || L.next[p] == nil {
			return false
		}
		for _, x := range []*Term{L.init[p], L.next[p]} {
			_, as := x.alts()
			for _, a := range as {
				if a != n && e.otherNode(a, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// murky: a node about which the analysis does not know enough to say that a link of it may
// be missing: shared variables, results of recursive calls, candidates picked from a list
// and carried through loops.
func (e *Exec) murky(n *Term, d int) bool {
	switch {
	case d > 5 || n.op == "cell" || strings.HasPrefix(n.op, "call:"):
		return true
	case n.op == "ite":
		for _, a := range n.args {
			if e.murky(a, d+1) {
				return true
			}
		}
	case n.op == "loopvar":
		L, _ := n.obj.(*LoopInst)
		if L == nil || L.external != "" {
			return true
		}
		p := L.phiOf(n)
		if p == nil || L.init[p] == nil || L.next[p] == nil {
			return true
		}
		for _, x := range []*Term{L.init[p], L.next[p]} {
			_, as := x.alts()
			for _, a := range as {
				if a == n {
					continue
				}
				if l, _, ok := elemOf(a); ok && builtList(l, 0) || e.murky(a, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// hasParent: the node was found inside the tree, so that it has a parent.
func (e *Exec) hasParent(n *Term, d int) bool {
	if d > 8 {
		return false
	}
	switch n.op {
	case "idx":
		l := n.args[0]
		return e.treeList(l, 0)
	case "fld":
		switch c01link[n.aux] {
		case "sibling":
			return true
		}
	case "newnode":
		// put into the tree by a ReplaceChild or AppendChild
		for _, ev := range e.events {
			if ev.kind == "prim" && (ev.name == "AppendChild" || ev.name == "ReplaceChild") {
				for _, a := range ev.args[1:] {
					if a == n {
						return true
					}
				}
			}
		}
	case "ite":
		for _, a := range n.args {
			if !e.hasParent(a, d+1) {
				return false
			}
		}
		return true
	case "loopvar":
		L, _ := n.obj.(*LoopInst)
		if L == nil || L.external != "" {
			return false
		}
		p := L.phiOf(n)
		if p == nil || L.init[p] == nil || L.next[p] == nil {
			return false
		}
		for _, x := range []*Term{L.init[p], L.next[p]} {
			_, as := x.alts()
			for _, a := range as {
				if a != n && a.op != "nil" && !e.hasParent(a, d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func (e *Exec) treeList(l *Term, d int) bool {
	switch {
	case d > 6:
		return false
	case l.op == "query" || l.op == "cssall":
		return true
	case l.op == "fld":
		return l.aux == "F:Node.Children" || l.aux == "F:Node.ChildNodes"
	case l.op == "append" || l.op == "ite":
		for _, a := range l.args {
			if !e.treeList(a, d+1) {
				return false
			}
		}
		return len(l.args) > 0
	case l.op == "subslice":
		return e.treeList(l.args[0], d+1)
	case l.op == "loopvar":
		L, _ := l.obj.(*LoopInst)
		if L == nil || L.external != "" {
			return false
		}
		p := L.phiOf(l)
		if p == nil || L.init[p] == nil || L.next[p] == nil {
			return false
		}
		for _, x := range []*Term{L.init[p], L.next[p]} {
			_, as := x.alts()
			for _, a := range as {
				if a != l && !e.treeList(a, d+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

// builtList: a list put together element by element.
func builtList(l *Term, d int) bool {
	switch l.op {
	case "append", "slicelit":
		return true
	case "ite":
		for _, a := range l.args {
			if !builtList(a, d+1) && a.op != "nil" {
				return false
			}
		}
		return true
	case "subslice":
		return builtList(l.args[0], d+1)
	case "loopvar":
		L, _ := l.obj.(*LoopInst)
		if L == nil || L.external != "" || d > 4 {
			return false
		}
		p := L.phiOf(l)
		if p == nil || L.next[p] == nil {
			return false
		}
		_, as := L.next[p].alts()
		for _, a := range as {
			if a != l && !builtList(a, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// lengths --------------------------------------------------------------------------------

// nonNegLin: k + sum of coefficients times terms is never negative.
func nonNegLin(k int64, co map[*Term]int64) bool {
	for t, n := range co {
		lb, ok := lowerBound(t)
		if n < 0 || !ok {
			return false
		}
		k += n * lb
	}
	return k >= 0
}

func linSub(a, b *Term) (int64, map[*Term]int64) {
	k, co := lin(a)
	k2, co2 := lin(b)
	for t, n := range co2 {
		co[t] -= n
		if co[t] == 0 {
			delete(co, t)
		}
	}
	return k - k2, co
}

// lenScen: the list or string x has n elements.
func (e *Exec) lenScen(x *Term, n int64) Scen {
	w := e.w
	isLen := func(t *Term) bool { return t.op == "len" && same(t.args[0], x) }
	return func(a *Term) (bool, bool) {
		switch a.op {
		case "LT", "EQ":
			l, r := a.args[0], a.args[1]
			if a.op == "EQ" && same(l, x) {
				switch {
				case r.op == "nil":
					if n > 0 {
						return false, true
					}
				case r.isStr():
					if int64(len(r.aux)) != n {
						return false, true
					}
					if n == 0 {
						return true, true
					}
				}
				return false, false
			}
			k, co := linSub(l, r)
			if len(co) != 1 {
				return false, false
			}
			for t, m := range co {
				if isLen(t) {
					k += m * n
					if a.op == "LT" {
						return k < 0, true
					}
					return k == 0, true
				}
			}
		default:
			switch strings.TrimPrefix(a.op, "call:") {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
				if len(a.args) == 2 && same(a.args[0], x) && a.args[1].isStr() && int64(len(a.args[1].aux)) > n {
					return false, true
				}
			case "(*regexp.Regexp).MatchString":
				if len(a.args) == 2 && same(a.args[1], x) && a.args[0].op == "re" {
					if m, ok := minMatch(a.args[0].aux); ok && m > n {
						return false, true
					}
				}
			}
		}
		_ = w
		return false, false
	}
}

// minMatch: least length of a match of a pattern.
func minMatch(pat string) (int64, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0, false
	}
	var rec func(r *syntax.Regexp) int64
	rec = func(r *syntax.Regexp) int64 {
		switch r.Op {
		case syntax.OpLiteral:
			return int64(len(r.Rune))
		case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
			return 1
		case syntax.OpCapture, syntax.OpPlus:
			return rec(r.Sub[0])
		case syntax.OpRepeat:
			return int64(r.Min) * rec(r.Sub[0])
		case syntax.OpConcat:
			var n int64
			for _, s := range r.Sub {
				n += rec(s)
			}
			return n
		case syntax.OpAlternate:
			m := rec(r.Sub[0])
			for _, s := range r.Sub[1:] {
				m = min(m, rec(s))
			}
			return m
		}
		return 0
	}
	return rec(re), true
}

func reGroups(pat string) (int64, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return 0, false
	}
	return int64(re.MaxCap()), true
}

// reImplies: every string p matches is also matched by q, shown by a literal that a match
// of p contains and that is all q needs.
func reImplies(p, q string) bool {
	if p == q {
		return true
	}
	rp, err1 := syntax.Parse(p, syntax.Perl)
	rq, err2 := syntax.Parse(q, syntax.Perl)
	if err1 != nil || err2 != nil {
		return false
	}
	lits := func(r *syntax.Regexp) (out []*syntax.Regexp, rest bool) {
		subs := []*syntax.Regexp{r}
		if r.Op == syntax.OpConcat {
			subs = r.Sub
		}
		for _, s := range subs {
			switch s.Op {
			case syntax.OpLiteral:
				out = append(out, s)
			case syntax.OpStar, syntax.OpQuest, syntax.OpEmptyMatch:
			default:
				rest = true
			}
		}
		return out, rest
	}
	lq, rest := lits(rq)
	if rest || len(lq) != 1 {
		return false
	}
	lp, _ := lits(rp)
	for _, l := range lp {
		if l.Flags&syntax.FoldCase != 0 && lq[0].Flags&syntax.FoldCase == 0 {
			continue
		}
		if lq[0].Flags&syntax.FoldCase != 0 {
			if strings.Contains(strings.ToLower(string(l.Rune)), strings.ToLower(string(lq[0].Rune))) {
				return true
			}
		} else if strings.Contains(string(l.Rune), string(lq[0].Rune)) {
			return true
		}
	}
	return false
}

// atLeast: the list or string x has at least n elements whenever g.
func (c *Ctx) atLeast(r *run, x *Term, n int64, g int, lp []*LoopInst, d int) c01res {
	e, w := r.e, r.e.w
	if n <= 0 {
		return met
	}
	if d > 6 {
		return soft("%s is long enough?", w.showd(x, 2))
	}
	switch {
	case x.op == "ite":
		ok := true
		for _, a := range e.altsUnder(x, g, lp...) {
			if c.atLeast(r, a.t, n, a.g, lp, d+1).why != "" {
				ok = false
			}
		}
		if ok {
			return met
		}
	case x.isStr():
		if int64(len(x.aux)) >= n || !e.feasible(g, nil, lp) {
			return met
		}
	case x.op == "call:strings.Split" || x.op == "call:strings.SplitN" || x.op == "call:strings.SplitAfter":
		neg := x.op != "call:strings.SplitN" || x.args[2].isInt() && x.args[2].intVal() != 0
		if n == 1 && x.args[1].isStr() && x.args[1].aux != "" && neg {
			return met
		}
		if n == 2 && x.args[1].isStr() && x.args[1].aux != "" && (x.op != "call:strings.SplitN" || x.args[2].isInt() && (x.args[2].intVal() < 0 || x.args[2].intVal() > 1)) {
			// two parts if the separator occurs
			s := func(a *Term) (bool, bool) {
				if a.op == "call:strings.Contains" && same(a.args[0], x.args[0]) && a.args[1].isStr() && strings.Contains(a.args[1].aux, x.args[1].aux) {
					return false, true
				}
				return false, false
			}
			if !e.feasible(g, s, lp) {
				return met
			}
		}
	case x.op == "idx" && (x.args[0].op == "call:(*regexp.Regexp).FindAllStringSubmatch" || x.args[0].op == "call:(*regexp.Regexp).FindAllStringSubmatchIndex"):
		f := x.args[0]
		if f.args[0].op == "re" {
			if k, ok := reGroups(f.args[0].aux); ok {
				k++
				if strings.HasSuffix(f.op, "Index") {
					k *= 2
				}
				if n <= k {
					return met
				}
				return hard("a match of /%s/ has %d parts, not %d", f.args[0].aux, k, n)
			}
		}
	case x.op == "idx" && x.args[0].op == "call:(*regexp.Regexp).FindAllStringIndex":
		if n <= 2 {
			return met
		}
	}
	if (x.op == "call:(*regexp.Regexp).FindStringSubmatch" || x.op == "call:(*regexp.Regexp).FindStringIndex") && x.args[1].op == "rematch" && x.args[0].op == "re" && x.args[1].args[0] == x.args[0] {
		// a match of the pattern, matched again
		k, ok := reGroups(x.args[0].aux)
		if strings.HasSuffix(x.op, "Index") {
			k = 1
		}
		if ok && n <= k+1 {
			return met
		}
	}
	one := int64(-1) // length if there is a match at all; -1: any
	if strings.HasPrefix(x.op, "call:(*regexp.Regexp).Find") && x.args[0].op == "re" {
		switch strings.TrimPrefix(x.op, "call:(*regexp.Regexp).") {
		case "FindStringSubmatch":
			k, _ := reGroups(x.args[0].aux)
			one = k + 1
		case "FindStringSubmatchIndex":
			k, _ := reGroups(x.args[0].aux)
			one = 2 * (k + 1)
		case "FindStringIndex":
			one = 2
		case "FindAllString", "FindAllStringSubmatch", "FindAllStringIndex", "FindAllStringSubmatchIndex":
			if n == 1 {
				one = 1
			}
		}
		if one >= 0 {
			if n > one {
				return hard("a match of /%s/ has %d parts, not %d", x.args[0].aux, one, n)
			}
			n = 1
		}
	}
	if k, co := lin(w.length(x)); nonNegLin(k-n, co) {
		return met
	}
	for l := int64(0); l < n; l++ {
		sc := []Scen{e.lenScen(x, l)}
		if one >= 0 && l == 0 {
			// no match: no pattern at least as strict matches
			sc = append(sc, func(a *Term) (bool, bool) {
				if a.op == "call:(*regexp.Regexp).MatchString" && a.args[0].op == "re" && same(a.args[1], x.args[1]) && reImplies(a.args[0].aux, x.args[0].aux) {
					return false, true
				}
				return false, false
			})
			f := x
			sc = append(sc, func(a *Term) (bool, bool) {
				// other searches of the same pattern in the same text
				if (a.op == "LT" || a.op == "EQ") && strings.Contains(w.showd(a, 3), "Find") {
					for _, y := range a.args {
						t := y
						if t.op == "len" {
							t = t.args[0]
						}
						if strings.HasPrefix(t.op, "call:(*regexp.Regexp).Find") && t.args[0].op == "re" && reImplies(t.args[0].aux, f.args[0].aux) && same(t.args[1], f.args[1]) {
							if y.op == "len" {
								return e.lenScen(t, 0)(a)
							}
							if a.op == "EQ" && a.args[1].op == "nil" {
								return true, true
							}
						}
					}
				}
				return false, false
			})
		}
		recs := false
		if x.op == "query" && l == 0 {
			// a recursive predicate about the root: taken to say that the element is there
			root := x.args[0]
			sc = append(sc, func(a *Term) (bool, bool) {
				t := a
				if t.op == "EQ" || t.op == "LT" {
					t = t.args[0]
				}
				if strings.HasPrefix(t.op, "call:rec:") && e.mentions(t, func(y *Term) bool { return same(y, root) }) {
					recs = true
					return false, true
				}
				return false, false
			})
		}
		if !e.feasible(g, scens(sc...), lp) {
			if recs {
				c.count("lengths vouched for by a recursive predicate", 1)
			}
			continue
		}
		if e.condMentions(g, func(y *Term) bool {
			// an unknown predicate about the list on the path
			return y.op != "EQ" && y.op != "LT" && y.op != "len" && !isMem(y) && y != x && strings.HasPrefix(y.op, "call:") && x.op != "call" && y.op != x.op && hasArg(y, x)
		}) {
			return soft("%s is long enough?", w.showd(x, 2))
		}
		for _, L := range lp {
			for p, t := range L.init {
				if v := L.vars[p]; v != nil && isInteger(p.Type()) && e.mentions(t, func(y *Term) bool { return y.op == "len" && same(y.args[0], x) }) {
					return soft("%s is counted by %s", w.showd(x, 2), w.showd(v, 2))
				}
			}
		}
		switch x.op {
		case "cell", "append", "ite", "makeslice":
			return soft("%s is long enough?", w.showd(x, 2))
		case "loopvar":
			if !e.emptyAtFirst(x) {
				return soft("%s is long enough?", w.showd(x, 2))
			}
		}
		if strings.HasPrefix(x.op, "call:") && !strings.HasPrefix(x.op, "call:strings.") && !strings.HasPrefix(x.op, "call:(*regexp.") {
			return soft("%s is long enough?", w.showd(x, 2))
		}
		return hard("%s may have only %d element(s)", w.showd(x, 3), l)
	}
	return met
}

// emptyAtFirst: a list that is empty when the loop starts, of a loop that can end before it
// has got anything.
func (e *Exec) emptyAtFirst(x *Term) bool {
	L, _ := x.obj.(*LoopInst)
	if L == nil || L.external != "" {
		return false
	}
	p := L.phiOf(x)
	if p == nil || L.init[p] == nil {
		return false
	}
	empty := false
	_, as := L.init[p].alts()
	for _, a := range as {
		if a.op == "nil" || a.op == "slicelit" && len(a.args) == 0 || a.op == "loopvar" && a != x && e.emptyAtFirst(a) {
			empty = true
		}
	}
	if !empty {
		return false
	}
	val := func(t *Term) (int64, bool) {
		k, co := lin(t)
		for v, n := range co {
			if v.op != "loopvar" || v.obj != x.obj {
				return 0, false
			}
			q := L.phiOf(v)
			if q == nil || L.init[q] == nil || !L.init[q].isInt() {
				return 0, false
			}
			k += n * L.init[q].intVal()
		}
		return k, true
	}
	s := func(a *Term) (bool, bool) {
		if a.op != "LT" && a.op != "EQ" {
			return false, false
		}
		l, ok1 := val(a.args[0])
		r, ok2 := val(a.args[1])
		if !ok1 || !ok2 {
			return false, false
		}
		if a.op == "LT" {
			return l < r, true
		}
		return l == r, true
	}
	return e.feasible(e.w.b.And(L.entry, L.exitAny), s, append(append([]*LoopInst(nil), L.outer...), L))
}

func hasArg(y, x *Term) bool {
	for _, a := range y.args {
		if same(a, x) {
			return true
		}
	}
	return false
}

func (c *Ctx) c01index(r *run, ev *Event) c01res {
	e, w, b := r.e, r.e.w, r.e.w.b
	x := ev.args[0]
	res := met
	for _, i := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
		in := b.And(b.Not(w.asBool(w.lt(i.t, w.int(0), true))), w.asBool(w.lt(i.t, w.length(x), true)))
		if ok, _ := e.entails(i.g, in, nil, ev.loops); ok {
			continue
		}
		for _, y := range e.altsUnder(x, i.g, ev.loops...) {
			res = worse(res, c.c01at(r, ev, y.t, i.t, y.g))
		}
	}
	return res
}

func (c *Ctx) c01at(r *run, ev *Event, x, i *Term, g int) c01res {
	e, w, b := r.e, r.e.w, r.e.w.b
	ln := w.length(x)
	if i.isInt() {
		if i.intVal() < 0 {
			return hard("negative index")
		}
		return c.atLeast(r, x, i.intVal()+1, g, ev.loops, 0)
	}
	// len(x)-k
	k, co := lin(i)
	if len(co) == 1 {
		for t, n := range co {
			if t.op == "len" && n == 1 && same(t.args[0], x) {
				if k >= 0 {
					return hard("the index %s lies behind the end", w.showd(i, 3))
				}
				return c.atLeast(r, x, -k, g, ev.loops, 0)
			}
		}
	}
	low := false
	if k, co := lin(i); nonNegLin(k, co) {
		low = true
	} else if ok, _ := e.entails(g, b.Not(w.asBool(w.lt(i, w.int(0), true))), nil, ev.loops); ok {
		low = true
	}
	if dk, dco := linSub(ln, i); low && nonNegLin(dk-1, dco) {
		return met
	}
	if v, kk, ok := splitVar(i); ok {
		// a counter going down from the end
		if L, _ := v.obj.(*LoopInst); L != nil && L.external == "" {
			if p := L.phiOf(v); p != nil && L.init[p] != nil && L.next[p] != nil {
				down := true
				_, as := L.next[p].alts()
				for _, a := range as {
					ak, aco := linSub(a, v)
					if len(aco) != 0 || ak > 0 {
						down = false
					}
				}
				ik, ico := lin(L.init[p])
				fromEnd := len(ico) == 1
				for t, n := range ico {
					if t.op != "len" || n != 1 || !same(t.args[0], x) {
						fromEnd = false
					}
				}
				if zk, zco := linSub(L.init[p], ln); len(zco) == 0 {
					fromEnd, ik = true, zk
				}
				if down && fromEnd {
					if ik+kk > -1 {
						return hard("the counter starts behind the end of %s", w.showd(x, 3))
					}
					if low {
						return met
					}
				}
			}
		}
		// at the end of the list
		cmp := false
		s := func(a *Term) (bool, bool) {
			if a.op != "LT" && a.op != "EQ" {
				return false, false
			}
			ak, aco := linSub(a.args[0], a.args[1])
			if len(aco) != 2 {
				return false, false
			}
			nv, nl := int64(0), int64(0)
			for t, n := range aco {
				if t == v {
					nv = n
				} else if t.op == "len" && same(t.args[0], x) {
					nl = n
				}
			}
			if nv*nl != -1 {
				return false, false
			}
			cmp = true
			// v = len - kk
			val := ak - nv*kk
			if a.op == "LT" {
				return val < 0, true
			}
			return val == 0, true
		}
		if !e.feasible(g, s, ev.loops) {
			if low {
				return met
			}
		} else if cmp {
			return hard("the index %s reaches the length of %s", w.showd(i, 2), w.showd(x, 3))
		}
	}
	return soft("%s[%s]", w.showd(x, 2), w.showd(i, 2))
}

func (c *Ctx) c01slice(r *run, ev *Event) c01res {
	e, w, b := r.e, r.e.w, r.e.w.b
	res := met
	for _, y := range e.altsUnder(ev.args[0], ev.cond, ev.loops...) {
		for _, l := range e.altsUnder(ev.args[1], y.g, ev.loops...) {
			for _, h := range e.altsUnder(ev.args[2], l.g, ev.loops...) {
				x, lo, hi := y.t, l.t, h.t
				in := b.And(b.Not(w.asBool(w.lt(lo, w.int(0), true))), b.And(b.Not(w.asBool(w.lt(hi, lo, true))), b.Not(w.asBool(w.lt(w.length(x), hi, true)))))
				if ok, _ := e.entails(h.g, in, nil, ev.loops); ok {
					continue
				}
				res = worse(res, c.c01bounds(r, ev, x, lo, hi, h.g))
			}
		}
	}
	return res
}

// c01bounds: 0 <= lo <= hi <= len(x)
func (c *Ctx) c01bounds(r *run, ev *Event, x, lo, hi *Term, g int) c01res {
	e, w := r.e, r.e.w
	ln := w.length(x)
	isLen := func(t *Term) bool { return t == ln || t.op == "len" && same(t.args[0], x) }
	bound := func(t *Term) c01res { // 0 <= t <= len(x)
		if isLen(t) || t.isInt() && t.intVal() == 0 {
			return met
		}
		if t.isInt() {
			if t.intVal() < 0 {
				return hard("negative slice bound")
			}
			return c.atLeast(r, x, t.intVal(), g, ev.loops, 0)
		}
		k, co := lin(t)
		if dk, dco := linSub(ln, t); nonNegLin(k, co) && nonNegLin(dk, dco) {
			return met
		}
		if len(co) == 1 {
			for v, n := range co {
				if n != 1 {
					continue
				}
				if isLen(v) {
					if k > 0 {
						return hard("slice bound %s lies behind the end", w.showd(t, 3))
					}
					return c.atLeast(r, x, -k, g, ev.loops, 0)
				}
				if search := strings.TrimPrefix(v.op, "call:strings."); search != v.op && (strings.HasPrefix(search, "Index") || strings.HasPrefix(search, "LastIndex")) {
					if !same(v.args[0], ev.args[0]) && !same(e.simp(v.args[0], g), x) {
						return soft("the position of %s in another text", w.showd(v, 3))
					}
					width := int64(1)
					if v.args[1].isStr() && !strings.HasSuffix(search, "Any") {
						width = int64(len(v.args[1].aux))
					}
					if k > width {
						return hard("slice bound %s may lie behind the end", w.showd(t, 3))
					}
					if k >= 1 {
						return met
					}
					// found at all, and not too near to the start
					for p := int64(-1); p+k < 0; p++ {
						s := func(a *Term) (bool, bool) {
							if a.op == "EQ" || a.op == "LT" {
								ak, aco := linSub(a.args[0], a.args[1])
								if n, ok := aco[v]; ok && len(aco) == 1 {
									if a.op == "LT" {
										return ak+n*p < 0, true
									}
									return ak+n*p == 0, true
								}
								for y, n := range aco {
									if len(aco) == 1 && y.op == v.op && same(y, v) {
										if a.op == "LT" {
											return ak+n*p < 0, true
										}
										return ak+n*p == 0, true
									}
								}
							}
							if p >= 0 || !v.args[1].isStr() {
								return false, false
							}
							switch a.op {
							case "call:strings.Contains", "call:strings.HasPrefix", "call:strings.HasSuffix":
								if (same(a.args[0], x) || same(a.args[0], v.args[0])) && a.args[1].isStr() && strings.Contains(a.args[1].aux, v.args[1].aux) {
									return false, true
								}
							}
							return false, false
						}
						if e.feasible(g, s, ev.loops) {
							return hard("%s may be %d, which makes the bound negative", w.showd(v, 3), p)
						}
					}
					return met
				}
			}
		}
		return soft("%s[:%s]", w.showd(x, 2), w.showd(t, 2))
	}
	res := worse(bound(lo), bound(hi))
	if res.why != "" {
		return res
	}
	// lo <= hi
	if lo.isInt() && lo.intVal() == 0 || isLen(hi) {
		return met
	}
	if k, co := linSub(hi, lo); nonNegLin(k, co) {
		return met
	}
	if ok, _ := e.entails(g, e.w.b.Not(w.asBool(w.lt(hi, lo, true))), nil, ev.loops); ok {
		return met
	}
	if lo.isInt() {
		k, co := lin(hi)
		if len(co) == 1 {
			for v, n := range co {
				if isLen(v) && n == 1 {
					return c.atLeast(r, x, lo.intVal()-k, g, ev.loops, 0)
				}
			}
		}
	}
	return soft("%s <= %s?", w.showd(lo, 2), w.showd(hi, 2))
}

var _ = types.Typ
var _ ssa.Instruction
