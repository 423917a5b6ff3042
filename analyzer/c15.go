package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C15"] = checkC15 }

// rangeElem: x is the element of a list visited in a round of a loop over the whole list.
func (e *Exec) rangeElem(x *Term) (inst *LoopInst, list *Term, inRange int, why string) {
	w := e.w
	var idx *Term
	switch x.op {
	case "idx":
		list, idx = x.args[0], x.args[1]
	case "ite":
		var ls []*Term
		for _, a := range x.args {
			l, i, ok := elemOf(a)
			if !ok || idx != nil && i != idx {
				return nil, nil, bFalse, "?no list element"
			}
			idx = i
			ls = append(ls, l)
		}
		list = w.ite(x.bs, ls)
	default:
		return nil, nil, bFalse, "?no list element"
	}
	v, k, ok := splitVar(idx)
	if !ok {
		return nil, nil, bFalse, "?the index is not a loop variable"
	}
	inst, _ = v.obj.(*LoopInst)
	if inst == nil {
		return nil, nil, bFalse, "?no loop"
	}
	inRange = w.asBool(w.lt(idx, w.length(list), true))
	if inst.external != "" {
		if !same(inst.coll, list) && inst.coll != list {
			why = "?another list"
		}
		return
	}
	p := inst.phiOf(v)
	if p == nil || w.add(inst.init[p], w.int(k)) != w.int(0) || inst.next[p] != w.add(v, w.int(1)) {
		why = "the index does not run over the whole list"
	}
	return
}

// linScen decides comparisons of linear integer expressions over the given terms.
func linScen(val func(*Term) (int64, bool)) Scen {
	var ev func(t *Term) (int64, bool)
	ev = func(t *Term) (int64, bool) {
		if t.isInt() {
			return t.intVal(), true
		}
		if v, ok := val(t); ok {
			return v, true
		}
		if (t.op == "+" || t.op == "op-") && len(t.args) == 2 {
			x, ok1 := ev(t.args[0])
			y, ok2 := ev(t.args[1])
			if t.op == "op-" {
				y = -y
			}
			return x + y, ok1 && ok2
		}
		if (t.op == "min" || t.op == "max") && len(t.args) == 2 {
			x, ok1 := ev(t.args[0])
			y, ok2 := ev(t.args[1])
			if (t.op == "min") == (y < x) {
				x = y
			}
			return x, ok1 && ok2
		}
		if t.op == "tofloat" || t.op == "toint" {
			return ev(t.args[0])
		}
		return 0, false
	}
	return func(t *Term) (bool, bool) {
		if t.op != "LT" && t.op != "EQ" || len(t.args) != 2 {
			return false, false
		}
		x, ok1 := ev(t.args[0])
		y, ok2 := ev(t.args[1])
		if !ok1 || !ok2 {
			return false, false
		}
		if t.op == "LT" {
			return x < y, true
		}
		return x == y, true
	}
}

func checkC15(c *Ctx) {
	c.rule("the nodes scored are exactly the matches of p, pre, article and the parents of div > br, each once")
	c.rule("a node is counted exactly when the visibility checker accepts it, its class and id do not match the unlikely pattern or match the maybe pattern, it does not match li p, and its trimmed text is not shorter than the minimum")
	c.rule("counting adds the square root of the excess length to a sum starting at 0; the verdict is true exactly when the sum exceeds the minimum score")
	c.rule("the default checker rejects exactly the hidden marks")
	r := c.readRun()
	e, w, b := r.e, r.e.w, r.e.w.b
	fn := "IsProbablyReaderable"
	isMinScore := func(t *Term) bool { return c.isSetting(t, "MinScore") }
	isMinLen := func(t *Term) bool { return c.isSetting(t, "MinContentLength") }
	// the visited node
	var vis *Event
	for _, ev := range e.byKind("dyn") {
		if c.isSetting(ev.args[0], "VisibilityChecker") && len(ev.args) == 2 {
			if vis != nil {
				c.notes = append(c.notes, "several calls of the visibility checker: undecided")
				return
			}
			vis = ev
		}
	}
	if vis == nil {
		c.bad("visible", fn, "checker", "the visibility checker is not asked")
		return
	}
	n := vis.args[1]
	if len(vis.loops) == 0 {
		c.bad("nodes", c.P.instrPos(vis.instr), "loop", "the visibility checker is not asked for each node")
		return
	}
	inst, list, inRange, why := e.rangeElem(n)
	if inst == nil || strings.HasPrefix(why, "?") {
		c.notes = append(c.notes, "the scored nodes are not visited in a loop over a list: undecided "+why)
		return
	}
	if why != "" {
		c.bad("nodes", c.P.instrPos(vis.instr), "range", "not all nodes are scored: %s", why)
	}
	in := append(append([]*LoopInst(nil), inst.outer...), inst)
	pos := c.P.instrPos(vis.instr)
	c15nodes(c, e, list, pos)
	hyp := inRange

	// counting
	var sq []*Event
	for _, ev := range e.events {
		if (ev.name == "math.Sqrt" || ev.name == "math.Pow") && inLoop(ev, inst) {
			sq = append(sq, ev)
		}
	}
	if len(sq) == 0 {
		c.bad("score", pos, "sqrt", "no square root of the excess length is added for a node")
		return
	}
	counted := e.orCond(sq)
	isLen := func(t *Term) bool {
		if t.op != "len" && t.op != "runelen" || len(t.args) != 1 {
			return false
		}
		x := t.args[0]
		if x.op == "runes" {
			x = x.args[0]
		}
		return x.op == "call:strings.TrimSpace" && x.args[0].op == "text" && same(x.args[0].args[0], n)
	}
	isLoose := func(t *Term) bool { // a length that is not that of the trimmed text
		return (t.op == "len" || t.op == "runelen") && !isLen(t) && e.mentionsVal(t, func(x *Term) bool { return x.op == "text" && same(x.args[0], n) })
	}
	someLen := false
	for _, a := range e.liveAtoms() {
		if e.mentions(a, isMinLen) {
			if e.mentions(a, isLen) {
				someLen = true
			} else if e.mentions(a, isLoose) {
				c.bad("length", pos, "trimmed", "the length compared with the minimum is not that of the trimmed text: %s", w.showd(a, 5))
			}
		}
	}
	if !someLen {
		for f, y := range c.summWhy {
			if y != "" && y[0] != '?' && c.summUsed(r, f) {
				c.bad("length", c.P.fnPos(f), f.Name(), "%s: %s", f.Name(), y)
				return
			}
		}
		if !e.condMentions(counted, isMinLen) {
			c.bad("length", pos, "minimum", "nodes are counted without comparing their length with the minimum")
			return
		}
		c.notes = append(c.notes, "the text of a node is measured in an unknown way: undecided")
		return
	}
	length := func(l, m int64) Scen {
		return linScen(func(t *Term) (int64, bool) {
			if isLen(t) {
				return l, true
			}
			if isMinLen(t) {
				return m, true
			}
			return 0, false
		})
	}
	visible := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "call:dyn" && t.args[0] == vis.args[0] && t.args[len(t.args)-1] == n {
				return v, true
			}
			return false, false
		}
	}
	subj := func(s *Term) bool {
		return e.mentionsVal(s, func(t *Term) bool { return attrOf(t, n, "class") }) && e.mentionsVal(s, func(t *Term) bool { return attrOf(t, n, "id") })
	}
	likely := func(un, maybe bool) Scen {
		return func(t *Term) (bool, bool) {
			p, s, ok := reMatch(t)
			if !ok || !subj(s) {
				return false, false
			}
			switch {
			case isUnlikelyPat(p):
				return un, true
			case isMaybePat(p):
				return maybe, true
			}
			return false, false
		}
	}
	hasLi := false
	inList := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "cssmatch" && t.args[0] == n && t.args[1].aux == "li p" {
				return v, true
			}
			return false, false
		}
	}
	liOther := false
	for _, a := range e.liveAtoms() {
		if _, ok := inList(true)(a); ok {
			hasLi = true
		}
		if a.op == "EQ" && (a.args[1].isStr() && a.args[1].aux == "li" || e.mentions(a.args[0], func(t *Term) bool { return t.aux == "F:html.Node.DataAtom" })) {
			liOther = true
		}
	}
	if !hasLi && !liOther {
		c.bad("list", pos, "li p", "paragraphs inside list items are counted")
	}
	ok := scens(visible(true), likely(false, false), inList(false), length(200, 140))
	type sc struct {
		what, rule string
		s          Scen
	}
	for _, x := range []sc{
		{"the visibility checker rejects", "visible", visible(false)},
		{"whose class and id look unlikely", "likely", likely(true, false)},
		{"that is a paragraph in a list item", "list", inList(true)},
		{"with 139 characters for a minimum of 140", "length", length(139, 140)},
		{"without text for a minimum of 1", "length", length(0, 1)},
		{"with 500 characters for a minimum of 1000", "length", length(500, 1000)},
		{"with 5 characters for a minimum of 1000", "length", length(5, 1000)},
	} {
		if x.rule == "list" && !hasLi {
			continue
		}
		c.count("kinds of node checked", 1)
		if e.feasible(counted, scens(x.s, visible(true), likely(false, false), inList(false), length(200, 140)), in) {
			c.bad(x.rule, pos, x.what, "a node %s is counted", x.what)
		}
	}
	if hasLi || !liOther {
		for _, x := range []sc{
			{"of more than the minimum length", "length", ok},
			{"of exactly the minimum length", "length", scens(length(140, 140), ok)},
			{"without text for a minimum of 0", "length", scens(length(0, 0), ok)},
			{"that looks unlikely but also like content", "likely", scens(likely(true, true), ok)},
			{"that looks like content", "likely", scens(likely(false, true), ok)},
		} {
			c.count("kinds of node checked", 1)
			if good, cex := e.entails(hyp, counted, x.s, in); !good {
				c.bad(x.rule, pos, x.what, "a node %s is not counted when %s", x.what, cex)
			}
		}
	}
	// what is added
	for _, ev := range sq {
		d := ev.args[0]
		if ev.name == "math.Pow" && (len(ev.args) != 2 || w.showd(ev.args[1], 2) != "0.5") {
			c.bad("score", c.P.instrPos(ev.instr), "power", "the excess length is raised to another power than 1/2")
		}
		for d.op == "tofloat" {
			d = d.args[0]
		}
		good := false
		if (d.op == "op-" || d.op == "+") && len(d.args) == 2 {
			x, y := d.args[0], d.args[1]
			for x.op == "tofloat" {
				x = x.args[0]
			}
			for y.op == "tofloat" {
				y = y.args[0]
			}
			good = d.op == "op-" && isLen(x) && isMinLen(y)
		}
		if !good {
			c.bad("score", c.P.instrPos(ev.instr), "excess", "the score added is not the square root of the length above the minimum: %s", w.showd(d, 6))
		}
	}
	isSq := func(t *Term) bool {
		return (t.op == "call:math.Sqrt" || t.op == "call:math.Pow") && e.mentionsVal(t, isLen)
	}
	// addend: t is acc plus what a node adds (nothing unless it is counted)
	addend := func(t *Term, acc func(*Term) bool, cond int, in []*LoopInst) bool {
		if t.op != "op+" || len(t.args) != 2 {
			return false
		}
		y := t.args[1]
		if !acc(t.args[0]) {
			if !acc(y) {
				return false
			}
			y = t.args[0]
		}
		for _, x := range e.altsUnder(y, cond, in...) {
			if !isSq(x.t) && (!isZero(x.t) || e.feasible(b.And(x.g, counted), nil, in)) {
				return false
			}
		}
		return true
	}
	// the sum
	sums := map[string]bool{}
	var phis []*ssa.Phi
	for _, ev := range e.byKind("store") {
		if !inLoop(ev, inst) {
			continue
		}
		for _, x := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
			if !e.mentions(x.t, isSq) {
				continue
			}
			sums[ev.name] = true
			if !addend(x.t, func(t *Term) bool { return t.op == "cell" && t.aux == ev.name }, x.g, ev.loops) {
				c.bad("score", c.P.instrPos(ev.instr), "sum", "the score is not the sum over the counted nodes: %s", w.showd(x.t, 5))
			}
		}
		if sums[ev.name] {
			if good, cex := e.entails(counted, ev.cond, nil, in); !good {
				c.bad("score", c.P.instrPos(ev.instr), "sum", "a counted node adds nothing when %s", cex)
			}
		}
	}
	for p, nx := range inst.next {
		for _, x := range e.altsUnder(nx, inst.back, in...) {
			if !e.mentions(x.t, isSq) {
				continue
			}
			phis = append(phis, p)
			v := inst.vars[p]
			if !addend(x.t, func(t *Term) bool { return t == v }, x.g, in) {
				c.bad("score", pos, "sum", "the score is not the sum over the counted nodes: %s", w.showd(x.t, 5))
			}
		}
	}
	for _, p := range phis {
		for _, x := range e.altsUnder(inst.next[p], inst.back, in...) {
			if x.t == inst.vars[p] && e.feasible(b.And(x.g, counted), nil, in) || !e.mentions(x.t, isSq) && x.t != inst.vars[p] {
				c.bad("score", pos, "sum", "the sum is lost in some rounds")
			}
		}
		if !isZero(inst.init[p]) {
			c.bad("score", pos, "start", "the sum does not start at 0")
		}
	}
	for s := range sums {
		for _, ev := range e.byKind("store") {
			if ev.name == s && !inLoop(ev, inst) && !isZero(ev.args[1]) {
				c.bad("score", c.P.instrPos(ev.instr), "start", "the sum does not start at 0")
			}
		}
	}
	if len(sums) == 0 && len(phis) == 0 {
		c.bad("score", pos, "sum", "the scores of the nodes are not added up")
		return
	}
	isSum := func(t *Term) bool {
		if t.op == "cell" && sums[t.aux] {
			return true
		}
		for _, p := range phis {
			if t == inst.vars[p] {
				return true
			}
		}
		return t.op == "op+" && e.mentions(t, isSq)
	}
	// verdict
	over := bFalse
	bare := bFalse
	nAtom := 0
	for _, a := range e.liveAtoms() {
		if !e.mentions(a, isMinScore) {
			continue
		}
		nAtom++
		if a.op == "LT" && isMinScore(a.args[0]) && isSum(a.args[1]) {
			over = b.Or(over, w.asBool(a))
			if a.args[1].op != "op+" {
				bare = b.Or(bare, w.asBool(a))
			}
			continue
		}
		c.bad("verdict", fn, "comparison", "the score is compared with the minimum other than by exceeding it: %s", w.showd(a, 4))
	}
	if nAtom == 0 {
		c.bad("verdict", fn, "comparison", "the score is not compared with the minimum")
		return
	}
	verdict := w.asBool(r.ret)
	if good, cex := e.entails(verdict, over, nil, nil); !good {
		c.bad("verdict", fn, "true", "the verdict is true without the score exceeding the minimum when %s", cex)
	}
	all := func(t *Term) (bool, bool) {
		if t.op == "LT" && isMinScore(t.args[0]) && isSum(t.args[1]) {
			return true, true
		}
		return false, false
	}
	h := b.And(counted, inRange)
	if bare != bFalse {
		h = bTrue
	}
	if good, cex := e.entails(h, verdict, all, nil); !good {
		c.bad("verdict", fn, "false", "the verdict is false although the score exceeds the minimum when %s", cex)
	}
	if e.feasible(b.And(inst.exitAny, inRange), func(t *Term) (bool, bool) {
		if _, ok := all(t); ok {
			return false, true
		}
		return false, false
	}, in) {
		c.bad("nodes", pos, "early", "nodes are left out although the score does not exceed the minimum")
	}
	c15checker(c, r)
}

func isZero(t *Term) bool {
	return t != nil && t.isInt() && t.intVal() == 0 || t.op == "float" && (t.aux == "0" || t.aux == "")
}

func (c *Ctx) summUsed(r *run, f *ssa.Function) bool {
	for _, a := range r.e.acts {
		if a.fn == f {
			return true
		}
	}
	return false
}

// c15nodes checks the list of scored nodes.
func c15nodes(c *Ctx, e *Exec, list *Term, pos string) {
	b := e.w.b
	tags := map[string]bool{}
	unknown := false
	brs := false
	someBr := func(t *Term) (bool, bool) { // there are matches
		if t.op == "EQ" && t.args[0].op == "len" && t.args[0].args[0].op == "cssall" && t.args[1].isInt() && t.args[1].intVal() == 0 {
			return false, true
		}
		if t.op == "LT" && t.args[1].op == "len" && t.args[1].args[0].op == "cssall" && t.args[0].isInt() && t.args[0].intVal() <= 0 {
			return true, true
		}
		return false, false
	}
	seen := map[*Term]bool{}
	var part func(t *Term, cond int)
	part = func(t *Term, cond int) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "ite":
			for i, a := range t.args {
				if e.feasible(b.And(cond, t.bs[i]), someBr, nil) {
					part(a, b.And(cond, t.bs[i]))
				}
			}
		case t.op == "append":
			for _, a := range t.args {
				part(a, cond)
			}
		case t.op == "nil":
		case t.op == "subslice":
			c.bad("nodes", pos, "part", "only a part of the nodes is scored")
			part(t.args[0], cond)
		case t.op == "cssall" && t.args[1].op == "css":
			if t.args[0].op != "htmldoc" {
				c.bad("nodes", pos, "document", "the nodes are not looked for in the whole document")
			}
			for _, g := range strings.Split(t.args[1].aux, ",") {
				tags[g] = true
			}
		case t.op == "loopvar":
			inst, _ := t.obj.(*LoopInst)
			if inst == nil || inst.phiOf(t) == nil {
				unknown = true
				return
			}
			p := inst.phiOf(t)
			part(inst.init[p], cond)
			in := append(append([]*LoopInst(nil), inst.outer...), inst)
			var x *Term
			add := bFalse
			for _, al := range e.altsUnder(inst.next[p], inst.back, in...) {
				if al.t == t {
					continue
				}
				if al.t.op == "append" && len(al.t.args) == 2 && al.t.args[0] == t && al.t.args[1].op == "slicelit" && len(al.t.args[1].args) == 1 {
					x = al.t.args[1].args[0]
					add = b.Or(add, al.g)
					continue
				}
				unknown = true
				return
			}
			if x == nil || !isFld(x, "F:html.Node.Parent") {
				unknown = true
				return
			}
			i2, l2, inR, why := e.rangeElem(x.args[0])
			if i2 != inst || l2.op != "cssall" || l2.args[1].op != "css" {
				unknown = true
				return
			}
			if l2.args[1].aux != "div > br" {
				c.bad("nodes", pos, "br", "the parents of %q are scored instead of the divs with a br child", l2.args[1].aux)
				return
			}
			brs = true
			if why != "" && why[0] != '?' || e.feasible(b.And(inst.exitAny, inR), nil, in) {
				c.bad("nodes", pos, "br all", "not all divs with a br child are scored")
			}
			if good, cex := e.entails(bTrue, inst.entry, someBr, nil); !good {
				c.bad("nodes", pos, "br all", "divs with a br child are left out when %s", cex)
			}
			member := func(v bool) Scen {
				return func(a *Term) (bool, bool) {
					if (a.op == "slicecontains" || a.op == "lookup" || a.op == "lookupok") && same(a.args[1], x) {
						return v, true
					}
					if a.op == "EQ" && a.args[0].op == "lookup" && same(a.args[0].args[1], x) {
						return !v, true
					}
					if l, ok := loopOf(a); ok && l.external != "" && l.outer != nil && len(l.outer) > 0 && l.outer[len(l.outer)-1] == inst {
						return v, true // a search for x in what was collected
					}
					return false, false
				}
			}
			if good, cex := e.entails(b.And(inst.back, inR), add, member(false), in); !good {
				c.bad("nodes", pos, "br all", "a div with a br child is left out when %s", cex)
			}
			if e.feasible(add, member(true), in) {
				c.bad("nodes", pos, "once", "a div with several br children is counted once for each of them")
			}
		default:
			unknown = true
		}
	}
	part(list, bTrue)
	c.count("parts of the scored list", len(seen))
	if unknown {
		c.notes = append(c.notes, "part of the list of scored nodes is built in an unknown way: undecided")
		return
	}
	if !brs {
		c.bad("nodes", pos, "br", "divs with a br child are not scored")
	}
	for _, t := range []string{"p", "pre", "article"} {
		if !tags[t] {
			c.bad("nodes", pos, t, "%s elements are not scored", t)
		}
		delete(tags, t)
	}
	var xs []string
	for t := range tags {
		xs = append(xs, t)
	}
	sort.Strings(xs)
	if len(xs) > 0 {
		c.bad("nodes", pos, "others", "other elements are scored too: %s", fmt.Sprint(xs))
	}
}

func loopOf(t *Term) (*LoopInst, bool) {
	for _, a := range t.args {
		if v, _, ok := splitVar(a); ok {
			l, ok := v.obj.(*LoopInst)
			return l, ok
		}
		if a.op == "idx" {
			if v, _, ok := splitVar(a.args[1]); ok {
				l, ok := v.obj.(*LoopInst)
				return l, ok
			}
		}
	}
	return nil, false
}

// c15checker checks the default visibility checker.
func c15checker(c *Ctx, r *run) {
	var f *ssa.Function
	for _, ev := range r.e.byKind("store") {
		if ev.name == c.setting("VisibilityChecker") && ev.args[1].op == "fn" {
			f, _ = ev.args[1].obj.(*ssa.Function)
		}
	}
	if f == nil || f.Blocks == nil {
		c.bad("default", "defaults", "checker", "there is no default visibility checker")
		return
	}
	s := c.exec(f, false, nil)
	if s.ret == nil || len(s.arg) != 1 {
		c.bad("default", c.P.fnPos(f), "returns", "the default visibility checker does not return")
		return
	}
	e := s.e
	n := s.arg[0]
	pos := c.P.fnPos(f)
	shown := e.w.asBool(s.ret)
	for g, y := range c.summWhy {
		if y != "" && c.summUsed(s, g) && e.mentions(s.ret, func(t *Term) bool { return t.aux == "F:html.Attribute.Key" }) {
			if y[0] != '?' {
				c.bad("default", c.P.fnPos(g), g.Name(), "%s: %s", g.Name(), y)
			} else {
				c.notes = append(c.notes, g.Name()+" has an unknown form: undecided")
			}
			return
		}
	}
	none := func(name string) Scen { return attrScen(n, name, false, "") }
	names, probs := e.styleAtoms(n)
	for _, p := range probs {
		c.bad("default", pos, "style "+p, "the default visibility checker overlooks %s", p)
	}
	for _, x := range []string{"display", "visibility"} {
		if !names[x] {
			c.bad("default", pos, "style "+x, "the default visibility checker does not look at inline %s", x)
		}
		if why := e.styleFound(n, x, map[string]string{"display": "none", "visibility": "hidden"}[x], true); why != "" {
			c.bad("default", pos, "search "+x, "inline %s: %s", x, why)
		}
	}
	for _, x := range []struct {
		what string
		s    Scen
	}{
		{"the hidden attribute", attrScen(n, "hidden", true, "")},
		{"a valued hidden attribute", attrScen(n, "hidden", true, "x")},
		{"the hidden attribute and any value", hasAttrScen(n, "hidden")},
		{"style display:none", e.styleScen(n, "display", "none", true)},
		{"style visibility:hidden", e.styleScen(n, "visibility", "hidden", true)},
		{"aria-hidden=true", scens(attrScen(n, "aria-hidden", true, "true"), none("class"))},
		{"aria-hidden=true and a class", scens(attrScen(n, "aria-hidden", true, "true"), attrScen(n, "class", true, "x"))},
		{"aria-hidden=true and a class like fallback or image", scens(attrScen(n, "aria-hidden", true, "true"), classLike(n))},
	} {
		c.count("marks checked", 1)
		if e.feasible(shown, x.s, nil) {
			c.bad("default", pos, x.what, "the default visibility checker accepts a node with %s", x.what)
		}
	}
	base := scens(none("hidden"), e.styleScen(n, "color", "red", false), none("aria-hidden"))
	for _, x := range []struct {
		what string
		s    Scen
	}{
		{"no mark", base},
		{"aria-hidden=false", scens(attrScen(n, "aria-hidden", true, "false"), base)},
		{"another value of aria-hidden", scens(attrScen(n, "aria-hidden", true, "\x00"), base)},
		{"an empty aria-hidden", scens(attrScen(n, "aria-hidden", true, ""), base)},
		{"aria-hidden=true and a fallback-image class", scens(attrScen(n, "aria-hidden", true, "true"), attrScen(n, "class", true, "x fallback-image y"), base)},
		{"style display:block", scens(e.styleScen(n, "display", "block", true), none("hidden"), none("aria-hidden"))},
		{"style visibility:visible", scens(e.styleScen(n, "visibility", "visible", true), none("hidden"), none("aria-hidden"))},
	} {
		c.count("marks checked", 1)
		if strings.HasPrefix(x.what, "style") {
			continue
		}
		if good, cex := e.entails(bTrue, shown, x.s, nil); !good {
			c.bad("default", pos, "rejects "+x.what, "the default visibility checker rejects a node with %s when %s", x.what, cex)
		}
	}
}
