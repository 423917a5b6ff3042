package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// symRun analyses one function on arbitrary arguments.
func (c *Ctx) symRun(f *ssa.Function) *run {
	if c.syms == nil {
		c.syms = map[*ssa.Function]*run{}
	}
	if r, ok := c.syms[f]; ok {
		return r
	}
	r := c.exec(f, false, nil)
	c.syms[f] = r
	return r
}

// visit is a place where the elements of a tree are visited one by one.
type visit struct {
	outer *run  // the run in which the walk is started
	root  *Term // where it starts
	cond  int   // when it is started
	seq   int   // before everything it does
	loops []*LoopInst
	r     *run  // the run in which a visited element is looked at
	elem  *Term // the visited element there
	hyp   int   // when it is visited
	in    []*LoopInst
	fn    *ssa.Function // of a recursive walk
	rec   []*Event      // its recursive calls
	why   string        // why the walk is incomplete ("" if complete); only for recursive walks see recOK
}

func isNodePtr(t *Term) bool { return t.typ != nil && typeName(t.typ) == "*Node" }

// visits finds the walks started in r.
func (c *Ctx) visits(r *run) []*visit {
	e := r.e
	var out []*visit
	// recursive walks
	seen := map[*Activation]bool{}
	for _, ev := range e.byKind("rec") {
		var top *Activation
		for a := ev.act; a != nil; a = a.parent {
			if a.fn.String() == ev.name {
				top = a
			}
		}
		if top == nil || seen[top] {
			continue
		}
		seen[top] = true
		k := -1
		for i, p := range top.fn.Params {
			if typeName(p.Type()) == "*Node" && i < len(ev.args) && ev.args[i] != top.args[i] {
				k = i
				break
			}
		}
		if k < 0 {
			continue
		}
		rr := c.symRun(top.fn)
		v := &visit{outer: r, root: top.args[k], cond: top.cond, seq: top.seq0, loops: top.loops, r: rr, elem: rr.arg[k], hyp: bTrue, fn: top.fn}
		for _, x := range rr.e.events {
			if x.kind == "rec" && x.name == top.fn.String() && k < len(x.args) {
				v.rec = append(v.rec, x)
			}
			if x.kind == "dyn" && x.args[0].op == "deref" && x.args[0].args[0].op == "freevar" && k+1 < len(x.args) && isNodePtr(x.args[k+1]) {
				y := *x
				y.args = x.args[1:]
				v.rec = append(v.rec, &y)
			}
		}
		out = append(out, v)
	}
	// loops over all elements below a node
	type key struct{ l, i *Term }
	done := map[key]bool{}
	for _, ev := range e.events {
		for _, a := range ev.args {
			list, idx, ok := elemOf(a)
			if !ok || done[key{list, idx}] {
				continue
			}
			done[key{list, idx}] = true
			for _, part := range listParts(list) {
				if part.op != "query" || part.args[1] != e.w.str("*") {
					continue
				}
				inst, inRange, why := e.coverage(list, idx)
				if inst == nil {
					continue
				}
				out = append(out, &visit{outer: r, root: part.args[0], cond: inst.entry, seq: inst.seq0, loops: inst.outer, r: r, elem: a, hyp: e.w.b.And(inst.entry, inRange), in: ev.loops, why: why})
			}
		}
	}
	return out
}

// nodeIdx is the position of the visited element among the arguments of the walk.
func (v *visit) nodeIdx() int {
	for i, a := range v.r.arg {
		if a == v.elem {
			return i
		}
	}
	return -1
}

// walkUnknown: the walk goes over a list that is not recognised.
const walkUnknown = "walk not recognised"

// recOK decides whether a recursive walk reaches every element child of a visited
// element in the situation s; "" if it does.
func (v *visit) recOK(s Scen) string {
	if v.fn == nil {
		return v.why
	}
	e, b := v.r.e, v.r.e.w.b
	k := v.nodeIdx()
	why := "no recursive call covers the element children"
	for _, ev := range v.rec {
		arg := ev.args[k]
		inst, inRange, w := e.childCoverage(arg, v.elem)
		if inst == nil {
			if w != "" {
				why = w
			} else if list, _, ok := elemOf(arg); ok && !isFld(list, "F:Node.Children") && !isFld(list, "F:Node.ChildNodes") {
				return walkUnknown // a list of its own: a stack, a copy
			}
			continue
		}
		if w != "" {
			why = w
			continue
		}
		elem := func(a *Term) (bool, bool) { // the child is an element
			if a.op == "EQ" && same(a.args[0], arg) && a.args[1].op == "nil" {
				return false, true
			}
			if a.op == "EQ" && isFld(a.args[0], "F:Node.NodeType") && same(a.args[0].args[0], arg) && a.args[1].isInt() {
				return a.args[1].intVal() == 1, true
			}
			if a.op == "EQ" && isFld(a.args[0], "F:Node.TagName") && same(a.args[0].args[0], arg) && a.args[1].isStr() && a.args[1].aux == "" {
				return false, true
			}
			return false, false
		}
		if ok, cex := e.entails(b.And(inst.entry, inRange), ev.cond, scens(s, elem), ev.loops); !ok {
			why = "a child is skipped when " + cex
			continue
		}
		if ok, cex := e.entails(v.hyp, inst.entry, s, nil); !ok {
			why = "the children are skipped when " + cex
			continue
		}
		return ""
	}
	return why
}

// childCoverage: t runs over all element children (or all children) of p.
func (e *Exec) childCoverage(t, p *Term) (inst *LoopInst, inRange int, why string) {
	b := e.w.b
	if list, idx, ok := elemOf(t); ok {
		if (isFld(list, "F:Node.Children") || isFld(list, "F:Node.ChildNodes")) && same(list.args[0], p) {
			i, r, w := e.coverage(list, idx)
			return i, r, w
		}
		return nil, bFalse, ""
	}
	if t.op != "loopvar" {
		return nil, bFalse, ""
	}
	inst, _ = t.obj.(*LoopInst)
	if inst == nil {
		return nil, bFalse, ""
	}
	ph := inst.phiOf(t)
	if ph == nil {
		return nil, bFalse, ""
	}
	inRange = b.Not(e.isNil(t))
	elems := e.isFirstChild(inst.init[ph], p, "F:Node.Children")
	nodes := e.isFirstChild(inst.init[ph], p, "F:Node.ChildNodes")
	next := inst.next[ph]
	switch {
	case elems && isFld(next, "F:Node.NextElementSibling") && same(next.args[0], t):
	case nodes && isFld(next, "F:Node.NextSibling") && same(next.args[0], t):
	case elems || nodes:
		return inst, inRange, "the children are not followed one by one"
	default:
		return nil, bFalse, ""
	}
	if early := b.And(inst.exitAny, inRange); early != bFalse && e.feasible(early, nil, append(append([]*LoopInst(nil), inst.outer...), inst)) {
		return inst, inRange, "the loop over the children can end early"
	}
	return inst, inRange, ""
}

// isFirstChild: t is the first entry of the child list of p, or nil if there is none.
func (e *Exec) isFirstChild(t, p *Term, cls string) bool {
	ok := false
	for _, x := range e.altsUnder(t, bTrue) {
		if x.t.op == "nil" {
			continue
		}
		if L, _ := x.t.obj.(*LoopInst); x.t.op == "loopvar" && L != nil && L.external == "" {
			// read before the first round and again at the end of each
			if q := L.phiOf(x.t); q != nil && L.init[q] != nil && L.next[q] != nil && L.init[q].op != "loopvar" && L.next[q].op != "loopvar" &&
				e.isFirstChild(L.init[q], p, cls) && e.isFirstChild(L.next[q], p, cls) {
				ok = true
				continue
			}
			return false
		}
		l, i, is := elemOf(x.t)
		if !is || !isFld(l, cls) || !same(l.args[0], p) || !i.isInt() || i.intVal() != 0 {
			return false
		}
		ok = true
	}
	return ok
}

// tagIs: the element has the given tag (upper case); "" leaves the tag open but not svg.
func tagIs(elem *Term, tag string) Scen {
	cmp := func(x, y *Term, f func(string) string, isTag func(*Term) bool) (bool, bool) {
		if !isTag(x) || !y.isStr() {
			return false, false
		}
		if tag == "" {
			if strings.EqualFold(y.aux, "svg") {
				return false, true
			}
			return false, false
		}
		return f(tag) == y.aux, true
	}
	return func(a *Term) (bool, bool) {
		if a.op != "EQ" {
			return false, false
		}
		x, y := a.args[0], a.args[1]
		if same(x, elem) && y.op == "nil" {
			return false, true
		}
		if isFld(x, "F:Node.NodeType") && same(x.args[0], elem) && y.isInt() {
			return y.intVal() == 1, true
		}
		is := func(cls string) func(*Term) bool {
			return func(t *Term) bool { return isFld(t, cls) && same(t.args[0], elem) }
		}
		if v, ok := cmp(x, y, strings.ToUpper, is("F:Node.TagName")); ok {
			return v, ok
		}
		if v, ok := cmp(x, y, strings.ToLower, is("F:Node.LocalName")); ok {
			return v, ok
		}
		if x.op == "call:strings.ToLower" || x.op == "call:strings.ToUpper" {
			f := strings.ToLower
			if x.op == "call:strings.ToUpper" {
				f = strings.ToUpper
			}
			if v, ok := cmp(x.args[0], y, f, func(t *Term) bool { return is("F:Node.TagName")(t) || is("F:Node.LocalName")(t) }); ok {
				return v, ok
			}
		}
		return false, false
	}
}

// overArticle: the walk starts at the article in every attempt, or at the final article
// before it is serialized; "" if so.
func (c *Ctx) overArticle(v *visit) (ok bool, why string) {
	a := c.attempts()
	e := a.r.e
	L := a.loop
	in := false
	for _, l := range v.loops {
		in = in || l == L
	}
	pos := ""
	if in {
		if !a.isArticle(v.root) {
			return false, ""
		}
		if ok, cex := e.entails(a.make[0].cond, v.cond, nil, []*LoopInst{L}); !ok {
			return false, pos + "not in an attempt with " + cex
		}
		return true, ""
	}
	if v.seq < L.seq1 {
		return false, ""
	}
	for _, s := range a.serial {
		if !same(s.args[1], v.root) {
			// alternatives
			if !c.coversFinal(v.root) {
				return false, ""
			}
		}
		if s.seq < v.seq {
			return false, "it happens after the article is serialized"
		}
		if ok, cex := e.entails(s.cond, v.cond, nil, nil); !ok {
			return false, "not when " + cex
		}
	}
	return true, ""
}

// coversFinal: t is the article chosen in the end.
func (c *Ctx) coversFinal(t *Term) bool {
	a := c.attempts()
	for _, x := range a.r.e.altsUnder(t, bTrue) {
		if x.t.op == "nil" {
			continue
		}
		known := false
		for _, f := range a.final {
			if same(f, x.t) {
				known = true
			}
		}
		if !known {
			return false
		}
	}
	return true
}
