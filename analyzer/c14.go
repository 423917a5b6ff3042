package main

import "strings"

func init() { checks["C14"] = checkC14 }

// styleLoops are the loops that look for the declaration name in the style of elem.
func (e *Exec) styleLoops(elem *Term, name string) map[any]bool {
	loops := map[any]bool{}
	for _, a := range e.liveAtoms() {
		if a.op == "EQ" && a.args[1].isStr() && a.args[1].aux == name && e.mentionsVal(a.args[0], func(t *Term) bool { return attrOf(t, elem, "style") }) {
			e.w.subterms(a.args[0], func(t *Term) bool {
				if t.op == "loopvar" {
					loops[t.obj] = true
				}
				return true
			})
		}
	}
	return loops
}

// styleFound checks the search for a declaration: all are looked at until one matches,
// and a matching one ends the search; with all, only a matching one does.
func (e *Exec) styleFound(elem *Term, name, val string, all bool) string {
	isAttr := func(t *Term) bool { return attrOf(t, elem, "style") }
	for l := range e.styleLoops(elem, name) {
		inst, ok := l.(*LoopInst)
		if !ok || inst.external != "" {
			continue
		}
		var list, idx *Term
		for _, a := range e.liveAtoms() {
			e.w.subterms(a, func(t *Term) bool {
				if li, i, ok := elemOf(t); ok && strings.HasPrefix(li.op, "call:strings.Split") && isAttr(li.args[0]) {
					if v, _, ok := splitVar(i); ok && v.obj == l {
						list, idx = li, i
					}
				}
				return list == nil
			})
		}
		if list == nil {
			continue
		}
		if list.args[1] != e.w.str(";") {
			return "the declarations are not separated at semicolons"
		}
		enc := append(append([]*LoopInst(nil), inst.outer...), inst)
		ci, inRange, why := e.coverage(list, idx)
		if ci == nil || why != "" && why != "early-exit" {
			return "not all declarations are looked at"
		}
		miss := e.styleScen(elem, name, val, false)
		if e.feasible(e.w.b.And(inst.exitAny, inRange), miss, enc) {
			return "the search can end before the last declaration"
		}
		if !e.feasible(inst.exitAny, e.styleScen(elem, name, val, true), enc) {
			return "a declaration with a value is not found"
		}
		if pass := e.w.b.And(inst.back, inRange); e.feasible(pass, e.styleScen(elem, name, val, true), enc) {
			// nothing but the position changes in the round
			v, _, _ := splitVar(idx)
			for p, x := range inst.vars {
				if x != v && pass != bFalse {
					pass = e.unchangedWhen(pass, x, inst.next[p], enc)
				}
			}
			for cls := range inst.memNext {
				if pass != bFalse {
					pass = e.memUnchanged(inst, cls, pass)
				}
			}
			if pass != bFalse && e.feasible(pass, e.styleScen(elem, name, val, true), enc) {
				return "a declaration can be passed over"
			}
		}
		if all && e.feasible(e.w.b.And(inst.exitAny, inRange), func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].isStr() && e.mentionsVal(t.args[0], isAttr) && !isAttr(t.args[0]) {
				switch t.args[1].aux {
				case name:
					return true, true
				case val, "none", "hidden", "display", "visibility":
					return false, true
				}
			}
			return false, false
		}, enc) {
			return "a declaration of another value ends the search"
		}
	}
	return ""
}

// styleScen: the style attribute of elem has a declaration name: val (have), or has
// declarations but none of that name (not have).
func (e *Exec) styleScen(elem *Term, name, val string, have bool) Scen {
	isAttr := func(t *Term) bool { return attrOf(t, elem, "style") }
	loops := e.styleLoops(elem, name)
	return func(t *Term) (bool, bool) {
		if len(t.args) != 2 {
			return false, false
		}
		x, y := t.args[0], t.args[1]
		if t.op == "EQ" && y.isStr() && isAttr(x) {
			return y.aux == name+":"+val, true
		}
		if t.op == "EQ" && y.isStr() && e.mentionsVal(x, isAttr) {
			switch y.aux {
			case "display", "visibility":
				if y.aux == name {
					return have, true
				}
				return false, true
			default:
				mine := false
				e.w.subterms(x, func(z *Term) bool {
					mine = mine || z.op == "loopvar" && loops[z.obj]
					return true
				})
				if mine && have {
					return y.aux == val, true
				}
				if mine || y.aux == "none" || y.aux == "hidden" {
					return false, true
				}
			}
		}
		if !have {
			return false, false
		}
		if t.op == "LT" || t.op == "EQ" {
			// a declaration is looked at, and it has a value
			if v, _, ok := splitVar(x); ok && loops[v.obj] && t.op == "LT" && e.mentionsVal(y, isAttr) {
				return true, true
			}
			if x.op == "len" && y.isInt() && e.mentionsVal(x, isAttr) && e.mentionsVal(x, func(z *Term) bool { return z.op == "loopvar" && loops[z.obj] }) {
				if t.op == "LT" {
					return 2 < y.intVal(), true
				}
				return 2 == y.intVal(), true
			}
			if y.op == "len" && x.isInt() && e.mentionsVal(y, isAttr) && t.op == "LT" && e.mentionsVal(y, func(z *Term) bool { return z.op == "loopvar" && loops[z.obj] }) {
				return x.intVal() < 2, true
			}
		}
		if strings.HasPrefix(t.op, "call:strings.Cut") && e.mentionsVal(t, isAttr) {
			return true, true
		}
		return false, false
	}
}

// trimSides strips lowering and trimming off t and tells on which sides white space is gone.
func trimSides(t *Term) (rest *Term, left, right bool) {
	for {
		cut := len(t.args) == 2 && t.args[1].isStr() && strings.Contains(t.args[1].aux, " ") && strings.Contains(t.args[1].aux, "\t") && strings.Contains(t.args[1].aux, "\n")
		switch t.op {
		case "call:strings.ToLower":
		case "call:strings.TrimSpace", "call:strings.TrimFunc":
			left, right = true, true
		case "call:strings.Trim":
			left, right = left || cut, right || cut
		case "call:strings.TrimLeft":
			left = left || cut
		case "call:strings.TrimRight":
			right = right || cut
		default:
			return t, left, right
		}
		t = t.args[0]
	}
}

// styleAtoms reports what the comparisons of style declarations overlook.
func (e *Exec) styleAtoms(elem *Term) (names map[string]bool, problems []string) {
	names = map[string]bool{}
	for _, a := range e.liveAtoms() {
		if a.op != "EQ" || !a.args[1].isStr() || !e.mentionsVal(a.args[0], func(t *Term) bool { return attrOf(t, elem, "style") }) {
			continue
		}
		switch a.args[1].aux {
		case "display", "visibility", "none", "hidden":
			names[a.args[1].aux] = true
			t, left, right := trimSides(a.args[0])
			if left && right {
				continue
			}
			if l, _, ok := elemOf(t); ok && e.trimmedInPlace(l) {
				continue
			}
			if t.op == "idx" || t.op == "slice" || strings.HasPrefix(t.op, "call:strings.Cut") {
				problems = append(problems, "white space around "+a.args[1].aux)
			}
		}
	}
	return names, uniq(problems)
}

func checkC14(c *Ctx) {
	c.rule("in every attempt a walk over all elements from the root removes the visited element from its parent, whatever heuristics are active, when it has the hidden attribute, style display:none or visibility:hidden, aria-hidden=true without fallback-image class, aria-modal=true with role=dialog, or one of the listed roles")
	c.rule("the walk goes on with the first child of an element that stays and with the next sibling of one that goes, so it skips nothing")
	c.rule("with incomplete marks (other aria-hidden, fallback-image, other role, other style) the element is removed under no more conditions than with none")
	a := c.attempts()
	if a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	e, b := a.r.e, a.r.e.w.b
	dw := c.docWalk()
	if dw == nil {
		c.bad("walk", "Parse", "walk", "no attempt goes through the elements of the document from its root")
		return
	}
	rem := dw.removals(e)
	pos := "document walk"
	if len(rem) > 0 {
		pos = c.P.instrPos(rem[0].instr)
	}
	if ok, cex := e.entails(a.make[0].cond, dw.inst.entry, nil, a.make[0].loops); !ok {
		c.bad("walk", pos, "each attempt", "an attempt makes the article without the walk when %s", cex)
	}
	if dw.inst.seq0 > a.make[0].seq {
		c.bad("walk", pos, "order", "the article is made before hidden elements are removed")
	}
	for _, s := range dw.step(c, e) {
		c.bad("walk", pos, "skips "+s, "the walk over the document skips %s", s)
	}
	gone := e.orCond(rem)
	none := func(name string) Scen { return attrScen(dw.n, name, false, "") }
	noClass := attrScen(dw.n, "class", false, "")
	names, probs := e.styleAtoms(dw.n)
	for _, p := range probs {
		c.bad("hidden", pos, "style "+p, "the test for hidden styles overlooks %s", p)
	}
	want := []struct {
		what string
		s    Scen
	}{
		{"the hidden attribute", scens(attrScen(dw.n, "hidden", true, ""))},
		{"a valued hidden attribute", scens(attrScen(dw.n, "hidden", true, "x"))},
		{"the hidden attribute and any value", scens(hasAttrScen(dw.n, "hidden"))},
		{"style display:none", scens(e.styleScen(dw.n, "display", "none", true))},
		{"style visibility:hidden", scens(e.styleScen(dw.n, "visibility", "hidden", true))},
		{"aria-hidden=true", scens(attrScen(dw.n, "aria-hidden", true, "true"), noClass)},
		{"aria-hidden=true and a class", scens(attrScen(dw.n, "aria-hidden", true, "true"), attrScen(dw.n, "class", true, "x"))},
		{"aria-hidden=true and a class like fallback or image", scens(attrScen(dw.n, "aria-hidden", true, "true"), classLike(dw.n))},
		{"aria-modal=true and role=dialog", scens(attrScen(dw.n, "aria-modal", true, "true"), attrScen(dw.n, "role", true, "dialog"))},
	}
	for _, r := range []string{"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog"} {
		want = append(want, struct {
			what string
			s    Scen
		}{"role=" + r, scens(none("aria-modal"), attrScen(dw.n, "role", true, r))})
	}
	for _, n := range []string{"display", "visibility"} {
		if !names[n] {
			c.bad("hidden", pos, "style "+n, "inline %s is not looked at when hidden elements are removed", n)
		}
		if why := e.styleFound(dw.n, n, map[string]string{"display": "none", "visibility": "hidden"}[n], false); why != "" {
			c.bad("hidden", pos, "search "+n, "inline %s: %s", n, why)
		}
	}
	for _, x := range want {
		c.count("marks checked", 1)
		if ok, cex := e.entails(dw.hyp, gone, scens(x.s, dw.attached), dw.in); !ok {
			c.bad("hidden", pos, x.what, "an element with %s stays when %s", x.what, cex)
		}
	}
	// no more than that
	base := scens(dw.attached, none("hidden"), none("style"), none("aria-hidden"), none("aria-modal"), none("role"))
	g0 := e.assume(gone, base)
	for _, x := range []struct {
		what string
		s    Scen
	}{
		{"aria-hidden=false", scens(attrScen(dw.n, "aria-hidden", true, "false"), base)},
		{"another value of aria-hidden", scens(attrScen(dw.n, "aria-hidden", true, "\x00"), base)},
		{"an empty aria-hidden", scens(attrScen(dw.n, "aria-hidden", true, ""), base)},
		{"aria-hidden=true and a fallback-image class", scens(attrScen(dw.n, "aria-hidden", true, "true"), attrScen(dw.n, "class", true, "x fallback-image y"), base)},
		{"aria-modal=true", scens(attrScen(dw.n, "aria-modal", true, "true"), base)},
		{"role=main", scens(c14other(dw.n), base)},
		{"aria-modal=true and another role", scens(attrScen(dw.n, "aria-modal", true, "true"), c14other(dw.n), base)},
		{"another style", scens(e.styleScen(dw.n, "color", "red", false), none("hidden"), none("aria-hidden"), none("aria-modal"), none("role"), dw.attached)},
		{"style display:block", scens(e.styleScen(dw.n, "display", "block", true), none("hidden"), none("aria-hidden"), none("aria-modal"), none("role"), dw.attached)},
		{"style visibility:visible", scens(e.styleScen(dw.n, "visibility", "visible", true), none("hidden"), none("aria-hidden"), none("aria-modal"), none("role"), dw.attached)},
	} {
		c.count("incomplete marks checked", 1)
		gi := e.assume(gone, x.s)
		base0 := g0
		if strings.Contains(x.what, "fallback") {
			base0 = e.assume(gone, scens(attrScen(dw.n, "class", true, "x fallback-image y"), base))
		}
		if e.feasible(b.And(gi, b.Not(base0)), nil, dw.in) {
			c.bad("visible", pos, x.what, "an element is removed because of %s: %s", x.what, e.model(b.And(gi, b.Not(base0))))
		}
	}
}

// c14other: the role is one nobody has heard of or none of the listed ones.
func c14other(n *Term) Scen {
	listed := map[string]bool{"menu": true, "menubar": true, "complementary": true, "navigation": true, "alert": true, "alertdialog": true, "dialog": true}
	return func(t *Term) (bool, bool) {
		if t.op == "EQ" && attrOf(t.args[0], n, "role") && t.args[1].isStr() {
			return !listed[t.args[1].aux] && t.args[1].aux != "", true
		}
		return false, false
	}
}

// classLike: the class contains everything but fallback-image.
func classLike(n *Term) Scen {
	return func(t *Term) (bool, bool) {
		if t.op == "call:strings.Contains" && attrOf(t.args[0], n, "class") && t.args[1].isStr() {
			return !strings.Contains(t.args[1].aux, "fallback-image"), true
		}
		if t.op == "EQ" && attrOf(t.args[0], n, "class") && t.args[1].isStr() {
			return false, true
		}
		return false, false
	}
}

// trimmedInPlace: the elements of the list are overwritten by their trimmed text.
func (e *Exec) trimmedInPlace(l *Term) bool {
	for _, ev := range e.byKind("store") {
		if ev.args[0].op == "iaddr" && same(ev.args[0].args[0], l) && ev.args[1].op == "call:strings.TrimSpace" {
			return true
		}
	}
	return false
}
