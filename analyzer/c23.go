package main

import "strings"

func init() { checks["C23"] = checkC23 }

func checkC23(c *Ctx) {
	c.rule("the language in the result is a parser field stored only with the lang attribute of the visited element, and stored exactly when that element is html; the walk over the document visits the root element before anything can remove it")
	c.rule("the direction in the result is a parser field stored only in a search over the list parent of the chosen content, chosen content, further ancestors of the parent from the inside out; the search stores exactly the first non-empty dir attribute and then ends; every returned result has gone through it")
	a := c.attempts()
	if a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	c23lang(c, a)
	c23dir(c, a)
}

// fieldStores: the parser field a result field is read from and the stores to it.
func (c *Ctx) resultSource(a *attemptCtx, field string) (cls string, stores []*Event, direct []alt) {
	e := a.r.e
	for _, o := range c.okReturns(a.r) {
		t := c.resultField(a.r, o, field)
		if t == nil {
			continue
		}
		for _, x := range e.altsUnder(t, o.cond) {
			if x.t.op == "fld" && strings.HasPrefix(x.t.aux, "F:Readability.") {
				cls = x.t.aux
			} else {
				direct = append(direct, x)
			}
		}
	}
	if cls == "" {
		// the initial value never gets through: take the field of the stores
		for _, ev := range e.byKind("store") {
			if strings.HasPrefix(ev.name, "F:Readability.") && len(ev.args) == 2 {
				for _, d := range direct {
					if d.t == ev.args[1] {
						cls = ev.name
					}
				}
			}
		}
	}
	for _, ev := range e.byKind("store") {
		if ev.name == cls && e.feasible(ev.cond, nil, ev.loops) {
			stores = append(stores, ev)
		}
	}
	return
}

func c23lang(c *Ctx, a *attemptCtx) {
	e := a.r.e
	cls, stores, direct := c.resultSource(a, "Lang")
	isRootLang := func(t *Term) bool {
		if t.op != "attr" || !t.args[1].isStr() || t.args[1].aux != "lang" {
			return false
		}
		x := t.args[0]
		if isFld(x, "F:Node.DocumentElement") {
			return true
		}
		l, i, ok := elemOf(x)
		return ok && i.isInt() && i.intVal() == 0 && l.op == "query" && l.args[1].isStr() && l.args[1].aux == "html"
	}
	dw := c.docWalk()
	if len(stores) == 0 {
		for _, d := range direct {
			if !isRootLang(d.t) {
				c.bad("lang", "Result", "value", "the language is not the lang attribute of the html element: %s", e.w.showd(d.t, 4))
			}
		}
		if len(direct) == 0 {
			c.bad("lang", "Result", "none", "no language gets into the result")
		}
		return
	}
	pos := c.P.instrPos(stores[0].instr)
	set := bFalse
	walk := 0
	for _, ev := range stores {
		for _, x := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
			c.count("language values checked", 1)
			if isRootLang(x.t) {
				if !inLoop(ev, a.loop) || dw == nil {
					set = e.w.b.Or(set, x.g)
				}
				continue
			}
			if dw != nil && x.t.op == "attr" && attrOf(x.t, dw.n, "lang") {
				walk++
				if e.feasible(x.g, func(t *Term) (bool, bool) {
					if t.op == "EQ" && (isFld(t.args[0], "F:Node.TagName") || isFld(t.args[0], "F:Node.LocalName")) && t.args[0].args[0] == dw.n && t.args[1].isStr() {
						return false, true
					}
					return false, false
				}, dw.in) {
					c.bad("lang", c.P.instrPos(ev.instr), "other element", "the language may be taken from an element that is not html")
				}
				for _, tag := range []string{"BODY", "DIV", "ARTICLE", "P"} {
					if e.feasible(x.g, tagIs(dw.n, tag), dw.in) {
						c.bad("lang", c.P.instrPos(ev.instr), "element "+tag, "the language may be taken from a %s element", strings.ToLower(tag))
					}
				}
				continue
			}
			c.bad("lang", c.P.instrPos(ev.instr), "value", "the language is set to something else than the lang attribute of the html element: %s", e.w.showd(x.t, 4))
		}
	}
	if walk > 0 {
		for _, ev := range stores {
			if inLoop(ev, dw.inst) {
				set = e.w.b.Or(set, ev.cond)
			}
		}
		sc := scens(tagIs(dw.n, "HTML"), attrScen(dw.n, "lang", true, "xx"), func(t *Term) (bool, bool) {
			// nothing was stored before
			if t.op == "EQ" && isFld(t.args[0], cls) && t.args[1].isStr() {
				return t.args[1].aux == "", true
			}
			return false, false
		})
		if ok, cex := e.entails(dw.hyp, set, sc, dw.in); !ok {
			c.bad("lang", pos, "skipped", "the language of the html element is not taken when %s", cex)
		}
		// the walk starts at the root
		for _, p := range dw.inst.phis {
			if dw.inst.vars[p] == dw.n && !isFld(dw.inst.init[p], "F:Node.DocumentElement") {
				c.bad("lang", pos, "root", "the walk over the document does not start at the root element")
			}
		}
		for _, o := range c.okReturns(a.r) {
			if ok, cex := e.entails(o.cond, dw.inst.entry, nil, nil); !ok {
				c.bad("lang", pos, "walk", "a result is returned without the walk over the document when %s", cex)
			}
		}
	} else {
		for _, o := range c.okReturns(a.r) {
			if ok, cex := e.entails(o.cond, set, nil, nil); !ok {
				c.bad("lang", pos, "skipped", "a result is returned without the language when %s", cex)
			}
		}
	}
}

// flatList: the single elements at the front of a list and the lists that follow.
func flatList(l *Term) (front []*Term, rest []*Term) {
	switch l.op {
	case "append":
		for _, p := range l.args {
			if p.op == "slicelit" && len(rest) == 0 {
				front = append(front, p.args...)
			} else {
				rest = append(rest, p)
			}
		}
		return
	case "slicelit":
		return l.args, nil
	}
	return nil, []*Term{l}
}

// ancestors: l lists the ancestors of an element from the inside out, its parent first; it
// returns the element.
func (c *Ctx) ancestors(e *Exec, l *Term, cond int) (of *Term, why string) {
	var v *Term
	last := false
	for _, x := range e.altsUnder(l, cond) {
		t := x.t
		if t.op == "append" && len(t.args) == 2 && t.args[0].op == "loopvar" {
			t, last = t.args[0], true
		}
		if t.op != "loopvar" || v != nil && v != t {
			return nil, "?"
		}
		v = t
	}
	if v == nil {
		return nil, "?"
	}
	inst, _ := v.obj.(*LoopInst)
	if inst == nil {
		return nil, "?"
	}
	p := inst.phiOf(v)
	if p == nil || !(inst.init[p].op == "nil" || inst.init[p].op == "slicelit" && len(inst.init[p].args) == 0 || inst.init[p].op == "makeslice") {
		return nil, "?"
	}
	// each round appends the parent of n and moves on to it
	in := append(append([]*LoopInst(nil), inst.outer...), inst)
	var n *Term
	for _, q := range inst.phis {
		x := inst.vars[q]
		if typeName(q.Type()) != "*Node" || x.op != "loopvar" {
			continue
		}
		nx := inst.next[q]
		ap := inst.next[p]
		if nx == nil || ap == nil || !isFld(nx, "F:Node.ParentNode") || nx.args[0] != x {
			continue
		}
		if ap.op == "append" && len(ap.args) == 2 && ap.args[0] == v && ap.args[1].op == "slicelit" && len(ap.args[1].args) == 1 {
			if same(ap.args[1].args[0], nx) {
				n, of = x, inst.init[q]
				if ok, _ := e.entails(b2(e, inst.exitAny), e.isNil(nx), nil, in); !ok {
					return of, "it ends before the root"
				}
			} else if ap.args[1].args[0] == x && isFld(inst.init[q], "F:Node.ParentNode") {
				n, of = x, inst.init[q].args[0]
				if ok, _ := e.entails(b2(e, inst.exitAny), e.isNil(x), nil, in); !ok {
					return of, "it ends before the root"
				}
			}
		}
	}
	if n == nil {
		return nil, "?"
	}
	_ = last
	return of, ""
}

func b2(e *Exec, f int) int { return f }

func c23dir(c *Ctx, a *attemptCtx) {
	e, w, b := a.r.e, a.r.e.w, a.r.e.w.b
	_, stores, direct := c.resultSource(a, "Dir")
	if len(stores) == 0 {
		c.bad("dir", "Result", "none", "no direction gets into the result")
		return
	}
	_ = direct
	pos := c.P.instrPos(stores[0].instr)
	var elem *Term
	var elems []*Term
	var at []alt
	var evs []*Event
	for _, ev := range stores {
		for _, x := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
			c.count("direction values checked", 1)
			if x.t.op != "attr" || !x.t.args[1].isStr() || x.t.args[1].aux != "dir" {
				if x.t == w.str("") && !inLoop(ev, a.loop) {
					continue
				}
				c.bad("dir", c.P.instrPos(ev.instr), "value", "the direction is set to something else than a dir attribute: %s", w.showd(x.t, 4))
				continue
			}
			at = append(at, x)
			evs = append(evs, ev)
			elem = x.t.args[0]
			elems = append(elems, elem)
		}
	}
	if elem == nil {
		return
	}
	listed := false
	for _, x := range elems {
		if l, _, ok := elemOf(x); ok || x.op == "loopvar" {
			if l == nil {
				listed = true
				continue
			}
			_, rest := flatList(l)
			listed = listed || len(rest) > 0
		}
	}
	if !listed {
		c.bad("dir", pos, "ancestors", "the further ancestors are not searched for the direction")
		return
	}
	for _, x := range elems {
		if x != elem {
			c.notes = append(c.notes, "the direction is searched for in an unknown way: undecided")
			return
		}
	}
	list, idx, ok := elemOf(elem)
	if !ok {
		c.notes = append(c.notes, "the direction is searched for in an unknown way: undecided")
		return
	}
	inst, inRange, why := e.coverage(list, idx)
	if inst == nil || why != "" && why != "early-exit" {
		c.bad("dir", pos, "list", "the search for the direction leaves out elements: %s", why)
		return
	}
	in := append(append([]*LoopInst(nil), inst.outer...), inst)
	set := bFalse
	for i, x := range at {
		if inLoop(evs[i], inst) {
			set = b.Or(set, x.g)
		} else {
			// after the loop: conditions are relative to its last round
			set = b.Or(set, b.And(x.g, inst.exitAny))
		}
	}
	elScen := func(t *Term) (bool, bool) {
		if t.op == "EQ" && isFld(t.args[0], "F:Node.TagName") && same(t.args[0].args[0], elem) && t.args[1].isStr() && t.args[1].aux == "" {
			return false, true
		}
		if t.op == "EQ" && t.args[1].op == "nil" && same(t.args[0], elem) {
			return false, true
		}
		if t.op == "EQ" && isFld(t.args[0], "F:Node.NodeType") && same(t.args[0].args[0], elem) && t.args[1].isInt() {
			return t.args[1].intVal() == 1, true
		}
		return false, false
	}
	hyp := b.And(inst.entry, inRange)
	no := scens(attrScen(elem, "dir", false, ""), elScen)
	for _, v := range []string{"rtl", "ltr", "auto", "RTL"} {
		yes := scens(attrScen(elem, "dir", true, v), elScen)
		c.count("direction search rounds checked", 1)
		if ok, cex := e.entails(hyp, set, yes, in); !ok {
			c.bad("dir", pos, "missed", "the dir attribute %s of an element searched is not taken when %s", v, cex)
		}
		if e.feasible(b.And(hyp, inst.back), yes, in) {
			c.bad("dir", pos, "first", "the search for the direction goes on after an element with a dir attribute")
		}
	}
	if e.feasible(b.And(hyp, set), no, in) {
		c.bad("dir", pos, "empty", "an element without dir attribute sets the direction")
	}
	if e.feasible(b.And(hyp, inst.exitAny), no, in) {
		c.bad("dir", pos, "early", "the search for the direction ends at an element without dir attribute")
	}
	if len(list.args) > 0 {
		c23list(c, a, e, inst, list, pos)
	}
	for _, o := range c.okReturns(a.r) {
		if ok, cex := e.entails(o.cond, inst.entry, nil, nil); !ok {
			c.bad("dir", pos, "always", "a result is returned without the search for its direction when %s", cex)
		}
	}
}

func c23list(c *Ctx, a *attemptCtx, e *Exec, inst *LoopInst, list *Term, pos string) {
	front, rest := flatList(list)
	if len(front) == 0 && len(rest) == 1 && rest[0].op == "loopvar" {
		c.notes = append(c.notes, "the elements searched for the direction have an unknown form: undecided")
		return
	}
	// when the content is first moved
	bound := -1
	for _, ev := range e.prims("AppendChild") {
		if !a.isArticle(ev.args[0]) || !inLoop(ev, a.loop) {
			continue
		}
		t := ev.tid
		for i, l := range ev.loops {
			if l == a.loop && i+1 < len(ev.loops) {
				t = ev.loops[i+1].tid
			}
		}
		if bound < 0 || t < bound {
			bound = t
		}
	}
	if len(front) < 2 {
		c.bad("dir", pos, "content", "the parent of the chosen content and the content itself are not both searched for the direction")
		return
	}
	if len(front) > 2 {
		c.notes = append(c.notes, "the elements searched for the direction have an unknown form: undecided")
		return
	}
	P, T := front[0], front[1]
	for _, x := range e.altsUnder(T, inst.entry, inst.outer...) {
		for _, y := range e.altsUnder(P, x.g, inst.outer...) {
			c.count("chosen content and parent pairs checked", 1)
			if isFld(y.t, "F:Node.ParentNode") && same(y.t.args[0], x.t) {
				if len(y.t.args) > 1 && bound >= 0 && y.t.args[1].id > bound {
					c.bad("dir", pos, "moved", "the parent of the chosen content is looked up after the content was moved into the article")
				}
				continue
			}
			put := false
			for _, ev := range e.prims("AppendChild") {
				if ev.args[1] == x.t && same(ev.args[0], y.t) && !a.isArticle(y.t) {
					put = true
				}
			}
			if !put {
				c.bad("dir", pos, "parent", "the first element searched for the direction is not the parent of the second, the chosen content: %s, %s", e.w.showd(y.t, 3), e.w.showd(x.t, 3))
			}
		}
	}
	if len(rest) == 0 {
		c.bad("dir", pos, "ancestors", "the further ancestors are not searched for the direction")
		return
	}
	if len(rest) > 1 {
		c.notes = append(c.notes, "the elements searched for the direction have an unknown form: undecided")
		return
	}
	of, why := c.ancestors(e, rest[0], inst.entry)
	switch {
	case why == "?":
		c.notes = append(c.notes, "the list of ancestors searched for the direction has an unknown form: undecided")
	case why != "":
		c.bad("dir", pos, "ancestors", "not all ancestors are searched for the direction: %s", why)
	case of != P:
		c.bad("dir", pos, "ancestors of", "the further elements searched for the direction are not the ancestors of the parent of the chosen content")
	}
}
