package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() { checks["C19"] = checkC19 }

func checkC19(c *Ctx) {
	c.rule("a removal that happens only while conditional cleaning is active is infeasible for a table marked as data table, for an element with a data table among its ancestors at any depth, and for one with a code element among its four nearest ancestors")
	c.rule("such a removal is infeasible once an attribute of an embed inside (or the content of an object) matched the allowed-video pattern, unless the class weight is negative")
	c.rule("a removal that depends on the pattern of unlikely names is infeasible for body and a elements, for names that also match the pattern of possible candidates, and for elements with a table or code element among their four nearest ancestors")
	c.rule("the data table mark of every table of the article gets the stated verdict under every combination of role, datatable, summary, caption, header elements, nested tables, rows and columns, before the first conditional removal")
	a := c.attempts()
	if a.loop == nil || len(a.article) == 0 {
		c.bad("anchor", "Parse", "article", "the extraction attempts were not found")
		return
	}
	first := c19clean(c, a)
	c19unlikely(c, a)
	c19marks(c, a, first)
}

func loopsOf(l *LoopInst) []*LoopInst { return append(append([]*LoopInst(nil), l.outer...), l) }

// intScen: integer terms have the given values.
func intScen(val func(t *Term) (int64, bool)) Scen {
	var ev func(t *Term) (int64, bool)
	ev = func(t *Term) (int64, bool) {
		if t.isInt() {
			return t.intVal(), true
		}
		if v, ok := val(t); ok {
			return v, true
		}
		switch t.op {
		case "+", "op+", "op*", "op-":
			var r int64
			for i, x := range t.args {
				v, ok := ev(x)
				if !ok {
					return 0, false
				}
				switch {
				case i == 0:
					r = v
				case t.op == "op*":
					r *= v
				case t.op == "op-":
					r -= v
				default:
					r += v
				}
			}
			return r, true
		case "tofloat", "toint":
			return ev(t.args[0])
		}
		return 0, false
	}
	return func(a *Term) (bool, bool) {
		if a.op != "EQ" && a.op != "LT" || len(a.args) != 2 {
			return false, false
		}
		x, ok := ev(a.args[0])
		if !ok {
			return false, false
		}
		y, ok := ev(a.args[1])
		if !ok {
			return false, false
		}
		if a.op == "EQ" {
			return x == y, true
		}
		return x < y, true
	}
}

// climb is a loop that goes up from a node.
type climb struct {
	l     *LoopInst
	a     *Term // the ancestor looked at in a round
	count *Term // counter of rounds, if any
	first int64
	step  int64
}

// climbs finds the loops going up from n inside the innermost of the given loops.
func (e *Exec) climbs(n *Term, in []*LoopInst) []*climb {
	var out []*climb
	for _, l := range e.allLoop {
		if l.l == nil || len(in) > 0 && !containsLoop(l.outer, in[len(in)-1]) {
			continue
		}
		for _, p := range l.phis {
			v := l.vars[p]
			if v.op != "loopvar" || typeName(p.Type()) != "*Node" {
				continue
			}
			up := true
			for _, x := range e.altsUnder(l.next[p], l.back, loopsOf(l)...) {
				if !isFld(x.t, "F:Node.ParentNode") || x.t.args[0] != v {
					up = false
				}
			}
			if !up {
				continue
			}
			cl := &climb{l: l}
			switch in := l.init[p]; {
			case same(in, n):
				for _, t := range e.w.list {
					if isFld(t, "F:Node.ParentNode") && t.args[0] == v {
						cl.a = t
					}
				}
			case isFld(in, "F:Node.ParentNode") && same(in.args[0], n):
				cl.a = v
			}
			if cl.a == nil {
				continue
			}
			for _, q := range l.phis {
				x, nx := l.vars[q], l.next[q]
				if x.op == "loopvar" && isInteger(q.Type()) && l.init[q].isInt() && nx.op == "+" && nx.args[0] == x && nx.args[1].isInt() {
					cl.count, cl.first, cl.step = x, l.init[q].intVal(), nx.args[1].intVal()
				}
			}
			out = append(out, cl)
		}
	}
	return out
}

// ancestorShield decides whether cond is infeasible when n has an ancestor with the tag for
// which mark holds, among the nearest levels ancestors (0: at any depth).
func (c *Ctx) ancestorShield(e *Exec, n *Term, cond int, in []*LoopInst, tag string, mark func(a *Term) Scen, levels int) string {
	b := e.w.b
	why := fmt.Sprintf("no look at the ancestors for a %s element", strings.ToLower(tag))
	for _, cl := range e.climbs(n, in) {
		l := cl.l
		depth := func(k int) Scen {
			return intScen(func(t *Term) (int64, bool) {
				if levels > 0 && cl.count != nil && t == cl.count {
					return cl.first + int64(k)*cl.step, true
				}
				return 0, false
			})
		}
		x := func(k int) Scen {
			s := scens(tagIs(cl.a, tag), depth(k))
			if mark != nil {
				s = scens(s, mark(cl.a))
			}
			return s
		}
		// is it about this tag at all?
		if e.feasible(l.back, x(0), loopsOf(l)) {
			continue
		}
		if e.feasible(b.And(cond, b.And(l.entry, l.exitAny)), x(0), in) {
			continue
		}
		if ok, cex := e.entails(cond, l.entry, nil, in); !ok {
			why = "the ancestors are not looked at when " + cex
			continue
		}
		hit := tagIs(cl.a, tag)
		other := func(t *Term) (bool, bool) { // the ancestor is not of that kind
			v, ok := hit(t)
			if ok && v && (len(t.args) < 2 || t.args[1].isStr()) {
				return false, true
			}
			if ok && t.op == "EQ" && !t.args[1].isStr() {
				return v, true
			}
			return false, false
		}
		n := levels
		if n == 0 {
			n = 1
		}
		bad := ""
		for k := 0; k < n && bad == ""; k++ {
			at := fmt.Sprintf("ancestor number %d", k+1)
			if levels == 0 {
				at = "an ancestor"
			}
			c.count("ancestor levels checked", 1)
			if e.feasible(l.back, x(k), loopsOf(l)) || e.feasible(b.And(cond, b.And(l.entry, l.exitAny)), x(k), in) {
				bad = fmt.Sprintf("%s being a %s element does not prevent it", at, strings.ToLower(tag))
			}
			if k+1 < n || levels == 0 {
				if ok, cex := e.entails(l.exitAny, bFalse, scens(other, depth(k)), loopsOf(l)); !ok {
					bad = fmt.Sprintf("the ancestors beyond %s are not looked at when %s", at, cex)
				}
			}
		}
		if bad == "" {
			return ""
		}
		why = bad
	}
	return why
}

// unknownHelp: the condition depends on something the analysis does not follow (recursion).
func (e *Exec) unknownHelp(cond int) bool {
	return e.condMentions(cond, func(t *Term) bool { return strings.HasPrefix(t.op, "rec:") })
}

func isDataMark(elem *Term) Scen {
	return func(t *Term) (bool, bool) {
		if t.op == "EQ" && t.args[1].op == "nil" && isFld(t.args[0], "F:Node.ReadabilityDataTable") && same(t.args[0].args[0], elem) {
			return false, true
		}
		if t.op == "fld" && isFld(t.args[0], "F:Node.ReadabilityDataTable") && same(t.args[0].args[0], elem) {
			return true, true
		}
		return false, false
	}
}

func c19clean(c *Ctx, a *attemptCtx) *Event {
	e := a.r.e
	cls := c.flagsField()
	n := 0
	var first *Event
	for _, ev := range e.prims("RemoveChild") {
		if !inLoop(ev, a.loop) {
			continue
		}
		x := ev.args[1]
		l, _, ok := elemOf(x)
		if !ok || e.feasible(ev.cond, flagScen(cls, 3, nil), ev.loops) || !e.feasible(ev.cond, flagScen(cls, 7, nil), ev.loops) {
			continue
		}
		tags := map[string]bool{}
		for _, p := range listParts(l) {
			if p.op == "query" && p.args[1].isStr() {
				tags[strings.ToUpper(p.args[1].aux)] = true
			}
		}
		if len(tags) == 0 {
			continue
		}
		n++
		if first == nil || ev.seq < first.seq {
			first = ev
		}
		pos := c.P.instrPos(ev.instr)
		names := strings.ToLower(strings.Join(sortedKeys(tags), ","))
		report := func(key, f string, args ...any) {
			if e.unknownHelp(ev.cond) {
				c.notes = append(c.notes, fmt.Sprintf("undecided: conditional cleaning of %s: %s", names, key))
				return
			}
			c.bad("clean", pos, names+" "+key, f, args...)
		}
		if tags["TABLE"] || tags["*"] {
			if e.feasible(ev.cond, scens(tagIs(x, "TABLE"), isDataMark(x)), ev.loops) {
				report("data table", "conditional cleaning of %s may remove a data table", names)
			}
		}
		if why := c.ancestorShield(e, x, ev.cond, ev.loops, "TABLE", isDataMark, 0); why != "" {
			report("in data table", "conditional cleaning of %s may remove an element inside a data table: %s", names, why)
		}
		if why := c.ancestorShield(e, x, ev.cond, ev.loops, "CODE", nil, 4); why != "" {
			report("in code", "conditional cleaning of %s may remove an element inside a code element: %s", names, why)
		}
		c19video(c, e, ev, x, report)
	}
	c.count("conditional removals checked", n)
	if n == 0 {
		c.notes = append(c.notes, "no removal depends on conditional cleaning")
	}
	return first
}

// c19video: an embed inside that matches the allowed-video pattern prevents the removal.
func c19video(c *Ctx, e *Exec, ev *Event, x *Term, report func(key, f string, args ...any)) {
	b := e.w.b
	vid := c.setting("AllowedVideoRegex")
	set := func(t *Term) (bool, bool) {
		if t.op == "EQ" && isFld(t.args[0], vid) && t.args[1].op == "nil" {
			return false, true
		}
		return false, false
	}
	isVideo := func(t *Term) bool {
		return strings.HasPrefix(t.op, "call:(*regexp.Regexp).MatchString") && isFld(t.args[0], vid)
	}
	weight := func(t *Term) (bool, bool) { // the class weight is not negative
		if t.op == "LT" && isZero(t.args[1]) && e.mentions(t.args[0], func(z *Term) bool {
			p, _, ok := reMatch(z)
			return ok && isNegativePat(p)
		}) {
			return false, true
		}
		return false, false
	}
	attrs, object := map[string]bool{}, false
	for _, m := range e.liveAtoms() {
		if !isVideo(m) {
			continue
		}
		var elem, list, al, ai *Term
		e.w.subterms(m.args[1], func(t *Term) bool {
			if l, i, ok := elemOf(t); ok && isFld(l, "F:Node.Attributes") && al == nil {
				al, ai = l, i
			}
			if l, _, ok := elemOf(t); ok && isNodePtr(t) && elem == nil {
				for _, p := range listParts(l) {
					if p.op == "query" && same(p.args[0], x) {
						elem, list = t, l
					}
				}
			}
			return true
		})
		if elem == nil {
			continue
		}
		c.count("video tests checked", 1)
		_, ei, _ := elemOf(elem)
		out, in1, why := e.coverage(list, ei)
		if out == nil || why != "" && why != "early-exit" {
			c.notes = append(c.notes, "undecided: embeds looked at for videos: "+why)
			continue
		}
		no := func(t *Term) (bool, bool) {
			if isVideo(t) {
				return false, true
			}
			return false, false
		}
		yes := func(t *Term) (bool, bool) {
			if isVideo(t) {
				return t == m, true
			}
			return false, false
		}
		if e.feasible(b.And(out.exitAny, in1), no, loopsOf(out)) {
			report("embeds skipped", "the embeds inside are not all looked at for an allowed video")
			continue
		}
		s := scens(Scen(set), Scen(yes))
		last, lin := b.And(out.exitAny, in1), loopsOf(out)
		switch {
		case al != nil:
			inner, in2, why := e.coverage(al, ai)
			if inner == nil || why != "" && why != "early-exit" {
				c.notes = append(c.notes, "undecided: attributes looked at for videos: "+why)
				continue
			}
			if e.feasible(b.And(inner.exitAny, in2), no, loopsOf(inner)) {
				report("attributes skipped", "the attributes of an embed are not all looked at for an allowed video")
				continue
			}
			if e.feasible(b.And(inner.back, in2), s, loopsOf(inner)) {
				c.notes = append(c.notes, "undecided: the search for an allowed video goes on after a match")
				continue
			}
			last = b.And(b.And(out.exitAny, in1), b.And(b.And(inner.entry, inner.exitAny), in2))
			if e.feasible(b.And(out.back, b.And(b.And(inner.entry, inner.exitAny), in2)), s, lin) {
				report("video passed over", "an embed with an attribute that matches the allowed-video pattern is passed over")
				continue
			}
		case m.args[1].op == "html":
			s = scens(s, tagIs(elem, "OBJECT"))
			if e.feasible(b.And(out.back, in1), s, lin) {
				report("object passed over", "an object whose content matches the allowed-video pattern is passed over")
				continue
			}
		default:
			continue
		}
		if e.feasible(b.And(ev.cond, last), s, ev.loops) {
			report("video removed", "an element holding an allowed video may be removed")
			continue
		}
		if ok, cex := e.entails(ev.cond, out.entry, weight, ev.loops); !ok {
			report("video not looked for", "an element whose class weight is not negative is removed without looking for an allowed video when %s", cex)
			continue
		}
		if al == nil {
			object = true
			continue
		}
		for _, p := range listParts(list) {
			if p.op == "query" && same(p.args[0], x) && p.args[1].isStr() {
				attrs[strings.ToLower(p.args[1].aux)] = true
			}
		}
	}
	for _, t := range embedTags {
		if !attrs[t] && !attrs["*"] {
			report("no video test "+t, "an %s element inside that matches the allowed-video pattern does not prevent it", t)
		}
	}
	if !object {
		report("no video test in object", "an object inside whose content matches the allowed-video pattern does not prevent it")
	}
}

func c19unlikely(c *Ctx, a *attemptCtx) {
	dw := c.docWalk()
	e := a.r.e
	if dw == nil {
		c.notes = append(c.notes, "undecided: the walk over the document was not found")
		return
	}
	isUn := func(t *Term) bool { p, _, ok := reMatch(t); return ok && isUnlikelyPat(p) }
	isMay := func(t *Term) bool { p, _, ok := reMatch(t); return ok && isMaybePat(p) }
	when := func(is func(*Term) bool, v bool) Scen {
		return func(t *Term) (bool, bool) {
			if is(t) {
				return v, true
			}
			return false, false
		}
	}
	for _, t := range e.liveAtoms() {
		if isMay(t) {
			_, subj, _ := reMatch(t)
			for _, name := range []string{"class", "id"} {
				if e.mentions(subj, func(z *Term) bool { return z == dw.n }) && !e.mentions(subj, func(z *Term) bool { return attrOf(z, dw.n, name) }) {
					c.bad("unlikely", "grabArticle", "candidate "+name, "the %s of an element is not tested for the names of possible candidates", name)
				}
			}
		}
	}
	n := 0
	for _, ev := range dw.removals(e) {
		if !e.condMentions(ev.cond, isUn) || e.feasible(ev.cond, when(isUn, false), dw.in) {
			continue
		}
		n++
		pos := c.P.instrPos(ev.instr)
		report := func(key, f string, args ...any) {
			if e.unknownHelp(ev.cond) {
				c.notes = append(c.notes, "undecided: removal of unlikely elements: "+key)
				return
			}
			c.bad("unlikely", pos, key, f, args...)
		}
		for _, tag := range []string{"BODY", "A"} {
			if e.feasible(ev.cond, tagIs(dw.n, tag), dw.in) {
				report(tag, "removal of unlikely elements may remove a %s element", strings.ToLower(tag))
			}
		}
		if e.feasible(ev.cond, when(isMay, true), dw.in) {
			report("candidate", "removal of unlikely elements may remove one whose class or id also matches the names of possible candidates")
		}
		for _, tag := range []string{"TABLE", "CODE"} {
			if why := c.ancestorShield(e, dw.n, ev.cond, dw.in, tag, nil, 4); why != "" {
				report("in "+tag, "removal of unlikely elements may remove one inside a %s element: %s", strings.ToLower(tag), why)
			}
		}
	}
	c.count("removals of unlikely elements checked", n)
}

type tableCase struct {
	role, datatable, summary string
	caption                  int // 0 none, 1 empty, 2 with content
	desc                     string
	nested                   bool
	rows, cols               int64
}

func (t tableCase) want() bool {
	switch {
	case t.role == "presentation", t.datatable == "0":
		return false
	case t.summary != "", t.caption == 2, t.desc != "":
		return true
	case t.nested:
		return false
	}
	return t.rows >= 10 || t.cols > 4 || t.rows*t.cols > 10
}

func (t tableCase) String() string {
	var l []string
	if t.role != "" {
		l = append(l, "role="+t.role)
	}
	if t.datatable != "" {
		l = append(l, "datatable="+t.datatable)
	}
	if t.summary != "" {
		l = append(l, "a summary")
	}
	if t.caption > 0 {
		l = append(l, []string{"", "an empty caption", "a caption"}[t.caption])
	}
	if t.desc != "" {
		l = append(l, "a "+t.desc+" element")
	}
	if t.nested {
		l = append(l, "a nested table")
	}
	return strings.Join(append(l, fmt.Sprintf("%d rows and %d columns", t.rows, t.cols)), ", ")
}

func c19marks(c *Ctx, a *attemptCtx, first *Event) {
	e := a.r.e
	b := e.w.b
	var stores []*Event
	var table *Term
	for _, ev := range e.byKind("store") {
		if ev.name != "F:Node.ReadabilityDataTable" || !inLoop(ev, a.loop) || ev.args[0].op != "faddr" {
			continue
		}
		if table != nil && !same(table, ev.args[0].args[0]) {
			c.notes = append(c.notes, "undecided: data table marks are set in several places")
			return
		}
		table = ev.args[0].args[0]
		stores = append(stores, ev)
	}
	if table == nil {
		c.bad("mark", "library", "no mark", "no table of the article is ever marked as data table")
		return
	}
	pos := c.P.instrPos(stores[0].instr)
	list, idx, ok := elemOf(table)
	if !ok || list.op != "query" || !list.args[1].isStr() || !strings.EqualFold(list.args[1].aux, "table") {
		c.notes = append(c.notes, "undecided: data table marks are set on something else than the tables found by name")
		return
	}
	if !a.isArticle(list.args[0]) {
		c.bad("mark", pos, "root", "the tables marked are not those of the article")
		return
	}
	inst, inRange, why := e.coverage(list, idx)
	if inst == nil || why != "" {
		c.bad("mark", pos, "coverage", "not every table of the article is marked: %s", why)
		return
	}
	if first != nil {
		if first.seq < stores[len(stores)-1].seq {
			c.bad("mark", pos, "late", "tables are marked only after conditional cleaning has started")
		} else if ok, cex := e.entails(first.cond, inst.entry, nil, first.loops); !ok {
			c.bad("mark", pos, "not always", "conditional cleaning may start without tables being marked: %s", cex)
		}
	}
	in := loopsOf(inst)
	hyp := b.And(inst.entry, inRange)
	final := bFalse
	for _, ev := range stores {
		v := bFalse
		switch t := ev.args[1]; {
		case t.op == "nil":
		case t.op == "new":
			for _, s := range e.byKind("store") {
				if s.args[0].op == "faddr" && s.args[0].args[0] == t && s.seq < ev.seq {
					v = e.w.asBool(s.args[1])
				}
			}
		case t.op == "bool":
			v = e.w.asBool(t)
		default:
			c.notes = append(c.notes, "undecided: data table mark: "+e.w.showd(t, 3))
			return
		}
		final = b.Or(b.And(ev.cond, v), b.And(final, b.Not(ev.cond)))
	}
	// rows and columns
	var rows, cols *Term
	for f := range e.atomsOf(final) {
		e.w.subterms(f, func(t *Term) bool {
			l, _ := t.obj.(*LoopInst)
			if t.op != "loopvar" || l == nil || !containsLoop(l.outer, inst) || l.phiOf(t) == nil || !isInteger(l.phiOf(t).Type()) {
				return true
			}
			inner := false
			e.w.subterms(l.next[l.phiOf(t)], func(z *Term) bool {
				if k, _ := z.obj.(*LoopInst); z.op == "loopvar" && k != nil && k != l && containsLoop(k.outer, l) {
					inner = true
				}
				return true
			})
			if inner {
				cols = t
			} else if rows == nil || !e.isIndex(t) {
				rows = t
			}
			return true
		})
	}
	if rows == nil || cols == nil {
		c.notes = append(c.notes, "undecided: the counts of rows and columns were not recognised")
		return
	}
	c19counts(c, e, table, rows, cols)
	scen := func(tc tableCase) Scen {
		q := func(tag string) int64 {
			switch tag = strings.ToLower(tag); {
			case tag == "caption" && tc.caption > 0, tag == tc.desc, tag == "table" && tc.nested:
				return 1
			}
			return 0
		}
		isQ := func(t *Term) (string, bool) {
			if t.op == "query" && same(t.args[0], table) && t.args[1].isStr() {
				switch s := strings.ToLower(t.args[1].aux); s {
				case "caption", "col", "colgroup", "tfoot", "thead", "th", "table":
					return s, true
				}
			}
			return "", false
		}
		ints := intScen(func(t *Term) (int64, bool) {
			switch {
			case t == rows:
				return tc.rows, true
			case t == cols:
				return tc.cols, true
			case t.op == "len":
				if s, ok := isQ(t.args[0]); ok {
					return q(s), true
				}
				if l := t.args[0]; isFld(l, "F:Node.ChildNodes") {
					if ll, i, ok := elemOf(l.args[0]); ok && i.isInt() && i.intVal() == 0 {
						if s, ok := isQ(ll); ok && s == "caption" {
							return map[bool]int64{true: 1}[tc.caption == 2], true
						}
					}
				}
			}
			return 0, false
		})
		val := func(name, v string) Scen { return attrScen(table, name, v != "", v) }
		return scens(ints, val("role", tc.role), val("datatable", tc.datatable), val("summary", tc.summary), func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].op == "nil" {
				if l, _, ok := elemOf(t.args[0]); ok {
					if _, ok := isQ(l); ok {
						return false, true
					}
				}
			}
			return false, false
		})
	}
	seen := map[string]bool{}
	for _, role := range []string{"", "presentation", "grid"} {
		for _, dt := range []string{"", "0", "1"} {
			for _, sum := range []string{"", "x"} {
				for cap := 0; cap < 3; cap++ {
					for _, desc := range []string{"", "col", "colgroup", "tfoot", "thead", "th"} {
						for _, nested := range []bool{false, true} {
							sizes := [][2]int64{{1, 1}, {20, 20}}
							if role != "presentation" && dt != "0" && sum == "" && cap < 2 && desc == "" {
								sizes = [][2]int64{{0, 0}, {1, 1}, {9, 1}, {10, 1}, {11, 1}, {1, 4}, {1, 5}, {2, 5}, {3, 3}, {5, 2}, {4, 3}, {6, 2}, {3, 4}, {2, 4}, {200, 4}}
							}
							for _, sz := range sizes {
								tc := tableCase{role, dt, sum, cap, desc, nested, sz[0], sz[1]}
								c.count("table cases checked", 1)
								ok := true
								if tc.want() {
									ok, _ = e.entails(hyp, final, scen(tc), in)
								} else {
									ok = !e.feasible(b.And(hyp, final), scen(tc), in)
								}
								if k := fmt.Sprint(tc.want()); !ok && !seen[k] {
									seen[k] = true
									c.bad("mark", pos, "verdict "+k, "a table with %s may be marked as data table = %v", tc, !tc.want())
								}
							}
						}
					}
				}
			}
		}
	}
}

// c19counts: each row counts, a row without rowspan once; the columns are the most cells of a row.
func c19counts(c *Ctx, e *Exec, table, rows, cols *Term) {
	l := rows.obj.(*LoopInst)
	p := l.phiOf(rows)
	pos := c.P.instrPos(p)
	noSpan := func(t *Term) (bool, bool) {
		if t.op == "EQ" && t.args[0].op == "attr" && t.args[0].args[1].isStr() && strings.HasSuffix(t.args[0].args[1].aux, "span") && t.args[1].isStr() {
			return t.args[1].aux == "", true
		}
		return false, false
	}
	one := func(v *Term, what string) {
		l := v.obj.(*LoopInst)
		p := l.phiOf(v)
		if !l.init[p].isInt() || l.init[p].intVal() != 0 {
			c.bad("count", pos, what+" start", "the count of %s does not start at 0", what)
		}
		for _, x := range e.scenAlts(l.next[p], l.back, noSpan, loopsOf(l)) {
			c.count("counting steps checked", 1)
			steps := []alt{x}
			if x.t.op == "+" && (x.t.args[0] == v && x.t.args[1].op == "ite" || x.t.args[1] == v && x.t.args[0].op == "ite") {
				// a step chosen by the span
				y := x.t.args[0]
				if y == v {
					y = x.t.args[1]
				}
				steps = nil
				for _, z := range e.scenAlts(y, x.g, noSpan, loopsOf(l)) {
					steps = append(steps, alt{t: e.w.add(v, z.t), g: z.g})
				}
			}
			for _, x := range steps {
				if x.t == e.w.add(v, e.w.int(1)) {
					continue
				}
				c.bad("count", pos, what+" step", "one of the %s without a span does not count once: %s", what, e.w.showd(x.t, 4))
			}
		}
	}
	sum := func(v *Term, what string) {
		l := v.obj.(*LoopInst)
		p := l.phiOf(v)
		for _, x := range e.altsUnder(l.next[p], l.back, loopsOf(l)...) {
			if e.feasible(x.g, nil, loopsOf(l)) && !e.mentionsVal(x.t, func(t *Term) bool { return t == v }) {
				c.bad("count", pos, what+" forgotten", "one of the %s makes the ones before it forgotten: %s", what, e.w.showd(x.t, 4))
			}
		}
	}
	all := func(l any, what, tag string, of func(*Term) bool) {
		n := 0
		for _, t := range e.w.list {
			ls, i, ok := elemOf(t)
			if !ok || ls.op != "query" || !ls.args[1].isStr() || !strings.EqualFold(ls.args[1].aux, tag) || !of(ls.args[0]) {
				continue
			}
			if v, _, ok := splitVar(i); ok && v.obj == l {
				n++
				if _, _, why := e.coverage(ls, i); why != "" {
					c.bad("count", pos, what+" skipped", "not all %s are counted: %s", what, why)
				}
			}
		}
		if n == 0 {
			c.notes = append(c.notes, "undecided: whether all "+what+" are counted")
		}
	}
	all(rows.obj, "rows", "tr", func(t *Term) bool { return same(t, table) })
	one(rows, "rows")
	sum(rows, "rows")
	if cols.obj != rows.obj {
		return
	}
	q := l.phiOf(cols)
	if !l.init[q].isInt() || l.init[q].intVal() != 0 {
		c.bad("count", pos, "columns start", "the count of columns does not start at 0")
	}
	var inner *Term
	e.w.subterms(l.next[q], func(z *Term) bool {
		if k, _ := z.obj.(*LoopInst); z.op == "loopvar" && k != nil && k != l && containsLoop(k.outer, l) {
			inner = z
		}
		return true
	})
	if inner == nil {
		return
	}
	all(inner.obj, "cells", "td", func(t *Term) bool { return true })
	one(inner, "cells")
	sum(inner, "cells")
	for _, more := range []bool{false, true} {
		v := map[*Term]int64{cols: 5, inner: 3}
		want := cols
		if more {
			v[inner] = 7
			want = inner
		}
		s := intScen(func(t *Term) (int64, bool) { x, ok := v[t]; return x, ok })
		for _, x := range e.scenAlts(l.next[q], l.back, s, loopsOf(l)) {
			t := x.t
			for t.op == "toint" || t.op == "tofloat" {
				t = t.args[0]
			}
			switch {
			case t == want:
			case strings.Contains(t.op, "Max") || strings.Contains(t.op, "max"):
				has := map[*Term]bool{}
				for _, y := range t.args {
					for y.op == "tofloat" || y.op == "toint" {
						y = y.args[0]
					}
					has[y] = true
				}
				if !has[cols] || !has[inner] {
					c.bad("count", pos, "columns", "the columns are not the most cells of a row: %s", e.w.showd(x.t, 5))
				}
			case t == cols || t == inner || strings.Contains(t.op, "Min") || strings.Contains(t.op, "min"):
				c.bad("count", pos, "columns", "the columns are not the most cells of a row: %s", e.w.showd(x.t, 5))
			default:
				c.notes = append(c.notes, "undecided: count of columns: "+e.w.showd(x.t, 4))
			}
		}
	}
}

// isIndex: a loop variable used to index a list
func (e *Exec) isIndex(v *Term) bool {
	for _, t := range e.w.list {
		if _, i, ok := elemOf(t); ok {
			if x, _, ok := splitVar(i); ok && x == v {
				return true
			}
		}
	}
	return false
}

// atomsOf are the atoms a condition depends on.
func (e *Exec) atomsOf(f int) map[*Term]bool {
	out, seen := map[*Term]bool{}, map[int]bool{}
	var rec func(f int)
	rec = func(f int) {
		if f < 2 || seen[f] {
			return
		}
		seen[f] = true
		n := e.w.b.nodes[f]
		out[e.w.atoms[n.v]] = true
		rec(n.lo)
		rec(n.hi)
	}
	rec(f)
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
