package main

import "strings"

// docWalk is the loop that goes through the elements of the document one after the other
// in every attempt.
type docWalk struct {
	inst *LoopInst
	n    *Term // the visited element
	hyp  int   // an element is visited
	in   []*LoopInst
}

// docWalk finds it: a loop inside the loop of attempts whose node variable starts at the
// root element (or the body).
func (c *Ctx) docWalk() *docWalk {
	a := c.attempts()
	e := a.r.e
	for _, l := range e.allLoop {
		if l.l == nil || len(l.outer) == 0 || l.outer[len(l.outer)-1] != a.loop && !containsLoop(l.outer, a.loop) {
			continue
		}
		for _, p := range l.phis {
			v := l.vars[p]
			if v.op != "loopvar" || typeName(p.Type()) != "*Node" {
				continue
			}
			in := l.init[p]
			if isFld(in, "F:Node.DocumentElement") || isFld(in, "F:Node.Body") {
				return &docWalk{inst: l, n: v, hyp: e.w.b.And(l.entry, e.w.b.Not(e.isNil(v))), in: append(append([]*LoopInst(nil), l.outer...), l)}
			}
		}
	}
	return nil
}

func containsLoop(ls []*LoopInst, l *LoopInst) bool {
	for _, x := range ls {
		if x == l {
			return true
		}
	}
	return false
}

// removals of the visited element
func (w *docWalk) removals(e *Exec) []*Event {
	var out []*Event
	for _, ev := range e.prims("RemoveChild") {
		if ev.args[1] == w.n && inLoop(ev, w.inst) {
			out = append(out, ev)
		}
	}
	return out
}

// attached: the visited element is an ordinary element somewhere below the root.
func (w *docWalk) attached(t *Term) (bool, bool) {
	if t.op != "EQ" {
		return false, false
	}
	x, y := t.args[0], t.args[1]
	if y.op == "nil" && (x == w.n || isFld(x, "F:Node.ParentNode") && x.args[0] == w.n || isFld(x, "F:Node.style") && x.args[0] == w.n) {
		return false, true
	}
	if isFld(x, "F:Node.NodeType") && x.args[0] == w.n && y.isInt() {
		return y.intVal() == 1, true
	}
	return false, false
}

// step checks that the walk leaves no element out; it returns what it skips.
func (w *docWalk) step(c *Ctx, e *Exec) []string {
	b := e.w.b
	var out []string
	ph := w.inst.phiOf(w.n)
	removed := e.orCond(w.removals(e))
	kids := func(t *Term) (bool, bool) {
		if t.op == "EQ" && t.args[0].op == "len" && t.args[1].isInt() && t.args[1].intVal() == 0 {
			l := t.args[0].args[0]
			if (isFld(l, "F:Node.Children") || isFld(l, "F:Node.ChildNodes")) && l.args[0] == w.n {
				return false, true
			}
		}
		if t.op == "EQ" && t.args[1].op == "nil" {
			if l, i, ok := elemOf(t.args[0]); ok && isFld(l, "F:Node.Children") && l.args[0] == w.n && i.isInt() {
				return false, true
			}
		}
		return false, false
	}
	sib := func(x *Term) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].op == "nil" && isFld(t.args[0], "F:Node.NextElementSibling") && t.args[0].args[0] == x {
				return false, true
			}
			return false, false
		}
	}
	n := 0
	for _, x := range e.altsUnder(w.inst.next[ph], w.inst.back, w.in...) {
		t := x.t
		isSib := isFld(t, "F:Node.NextElementSibling")
		if isSib {
			t = t.args[0]
		}
		// x.t is the neighbour or the first child of an element child of the visited one: has that been looked at?
		over := t
		if !isSib {
			over = nil
			if l, i, ok := elemOf(t); ok && isFld(l, "F:Node.Children") && i.isInt() {
				over = l.args[0]
			}
		}
		if over != nil && over != w.n {
			if l, _, ok := elemOf(over); ok && isFld(l, "F:Node.Children") && l.args[0] == w.n {
				n++
				if e.feasible(x.g, scens(attrScen(over, "hidden", true, ""), w.attached), w.in) {
					out = append(out, "an element that takes the place of its parent")
				}
				continue
			}
		}
		switch {
		case isSib && t == w.n:
			n++
			if e.feasible(b.And(x.g, b.Not(removed)), scens(w.attached, kids), w.in) {
				out = append(out, "the children of an element that stays")
			}
		case isSib && isFld(t, "F:Node.ParentNode"):
			k := t
			for isFld(k, "F:Node.ParentNode") {
				k = k.args[0]
			}
			if k != w.n {
				continue
			}
			n++
			last := func(z *Term) (bool, bool) {
				if z.op == "EQ" && z.args[1].op == "nil" {
					if same(z.args[0], t) {
						return false, true
					}
					if isFld(z.args[0], "F:Node.NextElementSibling") && same(z.args[0].args[0], t) {
						return true, true
					}
				}
				return false, false
			}
			if e.feasible(x.g, scens(last, w.attached), w.in) {
				out = append(out, "the rest of the document when an ancestor has no next sibling")
			}
		case t.op == "loopvar" && t != w.n:
			inst, _ := t.obj.(*LoopInst)
			if inst == nil || inst.phiOf(t) == nil {
				continue
			}
			p := inst.phiOf(t)
			from := false
			for _, y := range e.altsUnder(inst.init[p], inst.entry, w.in...) {
				if isFld(y.t, "F:Node.ParentNode") && y.t.args[0] == w.n {
					from = true
				}
			}
			if !from || !isFld(inst.next[p], "F:Node.ParentNode") || inst.next[p].args[0] != t {
				continue
			}
			n++
			// it may only climb from an element without next sibling and stop at one
			nx := func(z *Term) (bool, bool) {
				if z.op == "EQ" && z.args[1].op == "nil" {
					if z.args[0] == t {
						return false, true
					}
					if isFld(z.args[0], "F:Node.NextElementSibling") && z.args[0].args[0] == t {
						return true, true
					}
				}
				return false, false
			}
			if e.feasible(inst.exitAny, nx, append(append([]*LoopInst(nil), inst.outer...), inst)) {
				out = append(out, "the rest of the document when an ancestor has no next sibling")
			}
			if e.feasible(b.And(inst.back, b.Not(e.isNil(t))), sib(t), append(append([]*LoopInst(nil), inst.outer...), inst)) {
				out = append(out, "the next sibling of an ancestor")
			}
			one := false
			for _, y := range e.altsUnder(inst.init[p], inst.entry, w.in...) {
				if isFld(y.t, "F:Node.ParentNode") && y.t.args[0] == w.n && e.feasible(b.And(x.g, y.g), scens(w.attached, sib(w.n)), w.in) {
					one = true
				}
			}
			if one {
				out = append(out, "the next sibling")
			}
		}
	}
	c.count("steps of the document walk checked", n)
	return uniq(out)
}

func uniq(l []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// attrOf: t is the value of an attribute of elem, through letter case or white space
// normalisation.
func attrOf(t, elem *Term, name string) bool {
	for t.op == "call:strings.ToLower" || t.op == "call:strings.TrimSpace" {
		t = t.args[0]
	}
	return t.op == "attr" && same(t.args[0], elem) && t.args[1].isStr() && t.args[1].aux == name
}

// attrScen: the attribute name of elem is absent (present false) or has the value val.
// hasAttrScen: elem has the attribute, with any value.
func hasAttrScen(elem *Term, name string) Scen {
	return func(t *Term) (bool, bool) {
		if t.op == "hasattr" && same(t.args[0], elem) && t.args[1].isStr() && t.args[1].aux == name {
			return true, true
		}
		return false, false
	}
}

func attrScen(elem *Term, name string, present bool, val string) Scen {
	return func(t *Term) (bool, bool) {
		switch t.op {
		case "hasattr":
			if same(t.args[0], elem) && t.args[1].isStr() && t.args[1].aux == name {
				return present, true
			}
		case "EQ":
			if attrOf(t.args[0], elem, name) && t.args[1].isStr() {
				if !present {
					return t.args[1].aux == "", true
				}
				return t.args[1].aux == val, true
			}
			if t.args[0].op == "len" && attrOf(t.args[0].args[0], elem, name) && t.args[1].isInt() {
				if !present {
					return t.args[1].intVal() == 0, true
				}
				return int(t.args[1].intVal()) == len(val), true
			}
		case "call:strings.Contains", "call:strings.HasPrefix", "call:strings.HasSuffix":
			if attrOf(t.args[0], elem, name) && t.args[1].isStr() {
				v := val
				if !present {
					v = ""
				}
				switch t.op {
				case "call:strings.HasPrefix":
					return strings.HasPrefix(v, t.args[1].aux), true
				case "call:strings.HasSuffix":
					return strings.HasSuffix(v, t.args[1].aux), true
				}
				return strings.Contains(v, t.args[1].aux), true
			}
		}
		return false, false
	}
}
