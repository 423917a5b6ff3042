package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scen fixes the truth value of the atoms that describe a situation; every other atom
// stays universally quantified.
type Scen func(a *Term) (val, known bool)

// assume restricts f to a scenario.
func (e *Exec) assume(f int, s Scen) int {
	if s == nil || f < 2 {
		return f
	}
	vals := map[int]bool{}
	for v := range e.w.b.Support(f) {
		if x, ok := s(e.w.atoms[v]); ok {
			vals[v] = x
		}
	}
	return e.w.b.restrictAll(f, vals)
}

func (b *BDD) restrictAll(f int, vals map[int]bool) int {
	if len(vals) == 0 {
		return f
	}
	memo := map[int]int{}
	var rec func(int) int
	rec = func(x int) int {
		if x < 2 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		var r int
		if v, ok := vals[n.v]; ok {
			if v {
				r = rec(n.hi)
			} else {
				r = rec(n.lo)
			}
		} else {
			r = b.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

// scens combines scenarios; the first one that knows an atom decides.
func scens(ss ...Scen) Scen {
	return func(a *Term) (bool, bool) {
		for _, s := range ss {
			if s == nil {
				continue
			}
			if v, ok := s(a); ok {
				return v, ok
			}
		}
		return false, false
	}
}

// lemmas are the theory facts over the atoms f depends on: a value equals at most one
// constant, and comparisons with constants are ordered.
func (e *Exec) lemmas(f int) int {
	w, b := e.w, e.w.b
	type at struct {
		v  int
		op string
		c  *Term
	}
	by := map[*Term][]at{}
	for v := range b.Support(f) {
		a := w.atoms[v]
		if (a.op == "EQ" || a.op == "LT") && len(a.args) == 2 && a.args[1].isConst() {
			by[a.args[0]] = append(by[a.args[0]], at{v, a.op, a.args[1]})
		}
	}
	r := bTrue
	for x, l := range by {
		if lb, ok := lowerBound(x); ok {
			for _, a := range l {
				if a.c.isInt() && (a.op == "EQ" && a.c.intVal() < lb || a.op == "LT" && a.c.intVal() <= lb) {
					r = b.And(r, b.Not(b.Var(a.v)))
				}
			}
		}
		if len(l) < 2 {
			continue
		}
		sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v })
		for i, x := range l {
			for j, y := range l {
				if i == j {
					continue
				}
				if x.op == "EQ" && y.op == "EQ" && i < j {
					r = b.And(r, b.Not(b.And(b.Var(x.v), b.Var(y.v))))
				}
				if x.op == "LT" && y.op == "LT" && x.c.isInt() && y.c.isInt() && x.c.intVal() < y.c.intVal() {
					r = b.And(r, b.Or(b.Not(b.Var(x.v)), b.Var(y.v)))
				}
				if x.op == "EQ" && y.op == "LT" && x.c.isInt() && y.c.isInt() {
					if x.c.intVal() < y.c.intVal() {
						r = b.And(r, b.Or(b.Not(b.Var(x.v)), b.Var(y.v)))
					} else {
						r = b.And(r, b.Not(b.And(b.Var(x.v), b.Var(y.v))))
					}
				}
			}
		}
	}
	return r
}

// lowerBound of a counter that starts at a constant and never decreases.
func lowerBound(x *Term) (int64, bool) {
	if nonNeg(x) {
		return 0, true
	}
	inst, ok := x.obj.(*LoopInst)
	if x.op != "loopvar" || !ok || inst.external != "" {
		return 0, false
	}
	p := inst.phiOf(x)
	if p == nil || !isInteger(p.Type()) || inst.init[p] == nil || !inst.init[p].isInt() {
		return 0, false
	}
	lb := inst.init[p].intVal()
	if inst.next != nil && inst.next[p] != nil {
		_, as := inst.next[p].alts()
		for _, a := range as {
			k, co := lin(a)
			if len(co) == 1 && co[x] == 1 && k >= 0 || len(co) == 0 && k >= lb {
				continue
			}
			return 0, false
		}
	}
	return lb, true
}

// loopsIn collects the loops whose last-round values a condition or term mentions.
func (e *Exec) loopsIn(fs []int, ts []*Term, skip []*LoopInst) []*LoopInst {
	seen := map[*LoopInst]bool{}
	for _, l := range skip {
		seen[l] = true
	}
	var out []*LoopInst
	visT := map[int]bool{}
	visF := map[int]bool{}
	var vt func(t *Term)
	var vf func(f int)
	add := func(t *Term) {
		if l, ok := t.obj.(*LoopInst); ok && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	vf = func(f int) {
		if f < 2 || visF[f] {
			return
		}
		visF[f] = true
		for v := range e.w.b.Support(f) {
			vt(e.w.atoms[v])
		}
	}
	vt = func(t *Term) {
		if t == nil || visT[t.id] {
			return
		}
		visT[t.id] = true
		if t.op == "loopvar" || t.op == "mloop" {
			add(t)
			return
		}
		if isMem(t) {
			return // versions of the memory are not inspected further
		}
		for _, c := range t.bs {
			vf(c)
		}
		for _, a := range t.args {
			vt(a)
		}
	}
	for _, f := range fs {
		vf(f)
	}
	for _, t := range ts {
		vt(t)
	}
	return out
}

// exitHyp: the loops mentioned have taken one of their exits in their last round.
func (e *Exec) exitHyp(skip []*LoopInst, s Scen, fs ...int) int {
	b := e.w.b
	h := bTrue
	done := map[*LoopInst]bool{}
	for _, l := range skip {
		done[l] = true
	}
	work := append([]int(nil), fs...)
	for round := 0; round < 4; round++ {
		var nw []int
		for _, l := range e.loopsIn(work, nil, nil) {
			if done[l] {
				continue
			}
			done[l] = true
			x := e.assume(b.Or(b.Not(l.entry), l.exitAny), s)
			if x != bTrue {
				h = b.And(h, x)
				nw = append(nw, x)
			}
		}
		if len(nw) == 0 {
			break
		}
		work = nw
	}
	return h
}

// entails decides whether, in every state allowed by the scenario, hyp implies goal.
// enclosing are the loops the statement is about an arbitrary round of.
func (e *Exec) entails(hyp, goal int, s Scen, enclosing []*LoopInst) (bool, string) {
	b := e.w.b
	h, g := e.assume(hyp, s), e.assume(goal, s)
	bad := b.And(h, b.Not(g))
	if bad == bFalse {
		return true, ""
	}
	ex := e.exitHyp(enclosing, s, bad)
	bad = b.And(bad, ex)
	if bad == bFalse {
		return true, ""
	}
	bad = b.And(bad, e.assume(e.lemmas(bad), s))
	if bad == bFalse {
		return true, ""
	}
	return false, e.model(bad)
}

// feasible: is there a state allowed by the scenario in which f holds?
func (e *Exec) feasible(f int, s Scen, enclosing []*LoopInst) bool {
	ok, _ := e.entails(f, bFalse, s, enclosing)
	return !ok
}

// model describes one satisfying assignment of f.
func (e *Exec) model(f int) string {
	var lits []string
	for f >= 2 {
		n := e.w.b.nodes[f]
		a := e.w.showd(e.w.atoms[n.v], 4)
		if n.lo != bFalse {
			lits = append(lits, "!"+a)
			f = n.lo
		} else {
			lits = append(lits, a)
			f = n.hi
		}
	}
	if len(lits) > 12 {
		lits = append(lits[:12], "…")
	}
	return strings.Join(lits, " & ")
}

// shapes ------------------------------------------------------------------------------

func isFld(t *Term, cls string) bool { return t.op == "fld" && t.aux == cls }

// elemOf: t is an element of a list.
func elemOf(t *Term) (list, idx *Term, ok bool) {
	if t.op == "idx" {
		return t.args[0], t.args[1], true
	}
	return nil, nil, false
}

// parts of a concatenated list
func listParts(l *Term) []*Term {
	if l.op == "append" {
		return l.args
	}
	if l.op == "ite" {
		var out []*Term
		for _, a := range l.args {
			out = append(out, listParts(a)...)
		}
		return out
	}
	return []*Term{l}
}

// splitVar splits an index into loop variable + constant.
func splitVar(i *Term) (v *Term, k int64, ok bool) {
	if i.op == "loopvar" {
		return i, 0, true
	}
	if i.op == "+" && i.args[0].op == "loopvar" && i.args[1].isInt() {
		return i.args[0], i.args[1].intVal(), true
	}
	return nil, 0, false
}

func (inst *LoopInst) phiOf(v *Term) *ssa.Phi {
	for p, t := range inst.vars {
		if t == v {
			return p
		}
	}
	return nil
}

// lin is the linear form of an integer expression: constant plus coefficients.
func lin(t *Term) (int64, map[*Term]int64) {
	co := map[*Term]int64{}
	var k int64
	var rec func(t *Term, s int64)
	rec = func(t *Term, s int64) {
		switch {
		case t.isInt():
			k += s * t.intVal()
		case t.op == "+" && len(t.args) == 2:
			rec(t.args[0], s)
			rec(t.args[1], s)
		case t.op == "op-" && len(t.args) == 2:
			rec(t.args[0], s)
			rec(t.args[1], -s)
		case t.op == "neg" && len(t.args) == 1:
			rec(t.args[0], -s)
		case t.op == "op*" && len(t.args) == 2 && t.args[1].isInt():
			rec(t.args[0], s*t.args[1].intVal())
		default:
			co[t] += s
			if co[t] == 0 {
				delete(co, t)
			}
		}
	}
	rec(t, 1)
	return k, co
}

// mirror: idx counts down from the end of the list as u counts up: idx = len-1-u.
func (e *Exec) mirror(idx, ln *Term) (*Term, bool) {
	k, co := lin(idx)
	lk, lco := lin(ln)
	k = lk - 1 - k
	for t, n := range lco {
		co[t] -= n
		if co[t] == 0 {
			delete(co, t)
		}
	}
	if len(co) != 1 {
		return nil, false
	}
	for t, n := range co {
		if n == -1 && t.op == "loopvar" {
			return e.w.add(t, e.w.int(k)), true
		}
	}
	return nil, false
}

// coverage tells whether a loop visits every element of list when its body uses
// list[idx]; inRange is the condition of executing the body for one element.
func (e *Exec) coverage(list, idx *Term) (inst *LoopInst, inRange int, why string) {
	w, b := e.w, e.w.b
	ln := w.length(list)
	if u, ok := e.mirror(idx, ln); ok {
		idx = u
	}
	v, k, ok := splitVar(idx)
	if !ok {
		return nil, bFalse, "the index is not a loop variable"
	}
	inst, _ = v.obj.(*LoopInst)
	if inst == nil {
		return nil, bFalse, "no loop"
	}
	if inst.external != "" {
		inRange = w.asBool(w.lt(idx, ln, true))
		if inst.coll != list {
			return inst, inRange, "the library iteration runs over another list"
		}
	} else {
		p := inst.phiOf(v)
		if p == nil {
			return inst, bFalse, "no induction variable"
		}
		init, next := inst.init[p], inst.next[p]
		first := w.add(init, w.int(k))
		switch {
		case first == w.int(0) && next == w.add(v, w.int(1)):
			inRange = w.asBool(w.lt(idx, ln, true))
		case first == w.add(ln, w.int(-1)) && next == w.add(v, w.int(-1)):
			inRange = b.Not(w.asBool(w.lt(idx, w.int(0), true)))
		default:
			return inst, bFalse, "the index does not run over the whole list"
		}
	}
	// leaving the loop while in range skips the remaining elements
	if early := b.And(inst.exitAny, inRange); early != bFalse {
		if e.feasible(early, nil, append(append([]*LoopInst(nil), inst.outer...), inst)) {
			return inst, inRange, "early-exit"
		}
	}
	return inst, inRange, ""
}

// eventsOf returns the events of a kind/name.
func (e *Exec) prims(name string) []*Event {
	var out []*Event
	for _, ev := range e.events {
		if ev.kind == "prim" && ev.name == name {
			out = append(out, ev)
		}
	}
	return out
}

func (e *Exec) byKind(kind string) []*Event {
	var out []*Event
	for _, ev := range e.events {
		if ev.kind == kind {
			out = append(out, ev)
		}
	}
	return out
}

func inLoop(ev *Event, l *LoopInst) bool {
	for _, x := range ev.loops {
		if x == l {
			return true
		}
	}
	return false
}

// within: the activation is (a descendant of) root.
func (a *Activation) within(root *Activation) bool {
	for x := a; x != nil; x = x.parent {
		if x == root {
			return true
		}
	}
	return false
}

// alt is one guarded alternative of a value.
type alt struct {
	g int
	t *Term
}

// alternatives of t under cond (only the feasible ones, nested choices flattened).
func (e *Exec) altsUnder(t *Term, cond int, enclosing ...*LoopInst) []alt {
	var out []alt
	var rec func(t *Term, c int)
	rec = func(t *Term, c int) {
		if t.op != "ite" {
			out = append(out, alt{c, t})
			return
		}
		for i, a := range t.args {
			x := e.w.b.And(c, t.bs[i])
			if x != bFalse && e.feasible(x, nil, enclosing) {
				rec(a, x)
			}
		}
	}
	rec(t, cond)
	return out
}

// simp simplifies a value under a condition: alternatives excluded by it disappear, at
// the top and inside arguments.
func (e *Exec) simp(t *Term, cond int) *Term { return e.simpd(t, cond, 6) }

func (e *Exec) simpd(t *Term, cond, d int) *Term {
	if d == 0 || isMem(t) || t.op == "bool" {
		return t
	}
	if t.op == "ite" {
		var cs []int
		var as []*Term
		for i, a := range t.args {
			x := e.w.b.And(cond, t.bs[i])
			if x == bFalse || !e.feasible(x, nil, nil) {
				continue
			}
			cs = append(cs, e.w.b.Constrain(t.bs[i], cond))
			as = append(as, e.simpd(a, x, d-1))
		}
		if len(as) == 1 {
			return as[0]
		}
		return e.w.ite(cs, as)
	}
	changed := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = e.simpd(a, cond, d-1)
		if as[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	n := e.w.mkb(t.op, t.aux, t.bs, as...)
	if n.typ == nil {
		n.typ = t.typ
	}
	if n.obj == nil {
		n.obj = t.obj
	}
	return n
}

// same: equal up to the version of the memory they were read from.
func same(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if isMem(a) && isMem(b) {
		return true
	}
	if a.op != b.op || a.aux != b.aux || len(a.args) != len(b.args) || len(a.bs) != len(b.bs) || a.obj != b.obj {
		return false
	}
	for i := range a.bs {
		if a.bs[i] != b.bs[i] {
			return false
		}
	}
	for i := range a.args {
		if !same(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// mentions: does t contain a subterm satisfying p (guards included)?
func (e *Exec) mentions(t *Term, p func(*Term) bool) bool {
	found := false
	e.w.subterms(t, func(x *Term) bool {
		if found {
			return false
		}
		if p(x) {
			found = true
			return false
		}
		return true
	})
	return found
}

// condMentions: does the condition depend on an atom containing such a subterm?
func (e *Exec) condMentions(f int, p func(*Term) bool) bool {
	for v := range e.w.b.Support(f) {
		if e.mentions(e.w.atoms[v], p) {
			return true
		}
	}
	return false
}

// isNil is the condition that a pointer, function, slice or interface value is nil.
func (e *Exec) isNil(t *Term) int { return e.w.asBool(e.w.eq(t, e.w.nilT())) }

// mutating DOM primitives
var mutPrims = map[string]bool{"AppendChild": true, "RemoveChild": true, "ReplaceChild": true, "SetInnerHTML": true, "SetTextContent": true, "SetAttribute": true, "RemoveAttribute": true}

func isMutation(ev *Event) bool {
	if ev.kind == "prim" && mutPrims[ev.name] {
		return true
	}
	if ev.kind == "store" {
		switch ev.name {
		case "F:Node.TagName", "F:Node.LocalName", "F:Node.ChildNodes", "F:Node.Children", "F:Node.Attributes", "F:Node.ParentNode":
			return true
		}
	}
	return false
}

// liveAtoms are the atoms that do not stem from a discarded analysis of a loop.
func (e *Exec) liveAtoms() []*Term {
	if e.live != nil && e.liveN == len(e.w.atoms) {
		return e.live
	}
	loops := map[any]bool{}
	for _, l := range e.allLoop {
		loops[l] = true
	}
	e.live = nil
	memo := map[*Term]bool{}
	var stale func(t *Term) bool
	stale = func(t *Term) bool {
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := (t.op == "loopvar" || t.op == "mloop") && t.obj != nil && !loops[t.obj]
		for _, a := range t.args {
			r = r || stale(a)
		}
		memo[t] = r
		return r
	}
	for _, a := range e.w.atoms {
		if a != nil && !stale(a) {
			e.live = append(e.live, a)
		}
	}
	e.liveN = len(e.w.atoms)
	return e.live
}
