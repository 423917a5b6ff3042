package main

import "strings"

func init() { checks["C06"] = checkC06 }

var presentational = []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}

func checkC06(c *Ctx) {
	c.rule("for each presentational attribute a walk over the article (recursive over all element children, or over all elements) removes it from every visited element that is not SVG; the same for width and height of TABLE, TH, TD, HR and PRE")
	c.rule("the walk is started at the article in every attempt, or at the final article, on every path to the serializer; afterwards no such attribute is set and nothing from outside is added")
	c.rule("unless classes are kept, a walk over the final article sets class to the classes of the element found in the preserve list, or removes it when none is left")
	a := c.attempts()
	if len(a.article) == 0 || a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	r := a.r
	vs := c.visits(r)
	c.count("tree walks found", len(vs))
	type ob struct{ attr, tag string }
	var obs []ob
	for _, x := range presentational {
		obs = append(obs, ob{x, ""})
	}
	for _, t := range []string{"TABLE", "TH", "TD", "HR", "PRE"} {
		obs = append(obs, ob{"width", t}, ob{"height", t})
	}
	used := map[*visit]bool{}
	for _, o := range obs {
		c.count("attribute obligations", 1)
		ok, why, any := c06removed(c, vs, o.attr, o.tag, used)
		what := o.attr
		if o.tag != "" {
			what += " of " + o.tag
		}
		if ok {
			continue
		}
		if why == "" && any {
			c.notes = append(c.notes, what+": removed in a shape that is not recognised; not decided")
			continue
		}
		if why == "" {
			why = "no walk over the article removes it"
		}
		c.bad("presentational", "article", what, "attribute %s can stay in the article: %s", what, why)
	}
	for v := range used {
		c05added(c, a, "presentational attributes", elimination{seq: v.seq})
		for _, ev := range r.e.prims("SetAttribute") {
			if ev.seq > v.seq && ev.args[1].isStr() {
				for _, x := range presentational {
					if ev.args[1].aux == x {
						c.bad("presentational", c.P.instrPos(ev.instr), "set "+x, "attribute %s is set again after being removed", x)
					}
				}
			}
		}
		for _, ev := range r.e.byKind("store") {
			if ev.seq > v.seq && ev.name == "F:Node.LocalName" && ev.args[1].isStr() {
				switch ev.args[1].aux {
				case "table", "th", "td", "hr", "pre":
					c.bad("presentational", c.P.instrPos(ev.instr), "renamed to "+ev.args[1].aux, "an element whose width and height were kept becomes a %s", ev.args[1].aux)
				}
			}
		}
	}
	seen := map[*Event]bool{}
	for _, v := range vs {
		for _, ev := range v.r.e.prims("RemoveAttribute") {
			if why := c06shift(v.r.e, ev); why != "" && !seen[ev] {
				seen[ev] = true
				c.bad("presentational", c.P.instrPos(ev.instr), "skipped", "attributes are left: %s", why)
			}
		}
	}
	c06classes(c, vs)
}

// c06shift: the attribute at a position that counts up is removed, and the next one moves to
// the position already looked at.
func c06shift(e *Exec, ev *Event) string {
	var idx *Term
	e.w.subterms(ev.args[1], func(t *Term) bool {
		if l, i, ok := elemOf(t); ok && isFld(l, "F:Node.Attributes") && same(l.args[0], ev.args[0]) {
			idx = i
		}
		return idx == nil
	})
	if idx == nil {
		return ""
	}
	v, _, ok := splitVar(idx)
	if !ok {
		return ""
	}
	L, _ := v.obj.(*LoopInst)
	if L == nil || L.external != "" || !containsLoop(ev.loops, L) {
		return ""
	}
	p := L.phiOf(v)
	if p == nil {
		return ""
	}
	up := false
	for _, x := range e.altsUnder(L.next[p], e.w.b.And(L.back, ev.cond), ev.loops...) {
		if !e.feasible(x.g, nil, ev.loops) {
			continue
		}
		if x.t != e.w.add(v, e.w.int(1)) {
			return ""
		}
		up = true
	}
	if !up {
		return ""
	}
	return "after the removal of one the next one is skipped"
}

// c06removed: does some walk remove the attribute from every element with the tag?
func c06removed(c *Ctx, vs []*visit, attr, tag string, used map[*visit]bool) (ok bool, why string, any bool) {
	for _, ev := range c.attempts().r.e.prims("RemoveAttribute") {
		if !ev.args[1].isStr() || ev.args[1].aux == attr {
			any = true
		}
	}
	for _, v := range vs {
		e := v.r.e
		cond := bFalse
		var pos string
		var loops []*LoopInst
		for _, ev := range e.prims("RemoveAttribute") {
			if same(ev.args[0], v.elem) && ev.args[1].isStr() && ev.args[1].aux == attr {
				cond = e.w.b.Or(cond, ev.cond)
				pos = c.P.instrPos(ev.instr)
				loops = ev.loops
			}
		}
		if cond == bFalse {
			continue
		}
		s := scens(tagIs(v.elem, tag), func(t *Term) (bool, bool) {
			if t.op == "hasattr" && same(t.args[0], v.elem) && t.args[1] == e.w.str(attr) {
				return true, true
			}
			return false, false
		})
		if ok, cex := e.entails(v.hyp, cond, s, loops); !ok {
			why = pos + ": not when " + cex
			continue
		}
		if w := v.recOK(tagIs(v.elem, "")); w == walkUnknown {
			c.notes = append(c.notes, pos+": a walk over a list of its own; taken to reach every element")
		} else if w != "" {
			why = pos + ": " + w
			continue
		}
		if ok, w := c.overArticle(v); !ok {
			if w != "" {
				why = pos + ": " + w
			}
			continue
		}
		used[v] = true
		return true, "", true
	}
	return false, why, any
}

func c06classes(c *Ctx, vs []*visit) {
	keep, pres := c.setting("KeepClasses"), c.setting("ClassesToPreserve")
	notKept := func(t *Term) (bool, bool) {
		if isFld(t, keep) {
			return false, true
		}
		return false, false
	}
	a := c.attempts()
	any := false
	why := ""
	for _, v := range vs {
		e, b := v.r.e, v.r.e.w.b
		var sets, rems []*Event
		for _, ev := range e.prims("SetAttribute") {
			if same(ev.args[0], v.elem) && ev.args[1] == e.w.str("class") {
				sets = append(sets, ev)
			}
		}
		for _, ev := range e.prims("RemoveAttribute") {
			if same(ev.args[0], v.elem) && ev.args[1] == e.w.str("class") {
				rems = append(rems, ev)
			}
		}
		if len(sets)+len(rems) == 0 {
			continue
		}
		any = true
		c.count("class filters found", 1)
		// reached whenever classes are not kept
		v2 := *v
		reached, w := c.overArticleIf(&v2, notKept)
		if !reached {
			if w != "" {
				why = w
			}
			continue
		}
		s := scens(tagIsAny(v.elem), notKept)
		if w := v.recOK(s); w == walkUnknown {
			c.notes = append(c.notes, "classes: a walk over a list of its own; taken to reach every element")
		} else if w != "" {
			c.bad("classes", c.P.instrPos(append(sets, rems...)[0].instr), "walk", "classes are not filtered on every element: %s", w)
			continue
		}
		noClass := func(t *Term) (bool, bool) {
			if t.op == "hasattr" && same(t.args[0], v.elem) && t.args[1] == e.w.str("class") {
				return true, true
			}
			return false, false
		}
		if ok, cex := e.entails(v.hyp, b.Or(e.orCond(sets), e.orCond(rems)), scens(s, noClass), nil); !ok {
			c.bad("classes", c.P.instrPos(append(sets, rems...)[0].instr), "untouched", "a class attribute stays as it is when %s", cex)
		}
		for _, ev := range sets {
			pos := c.P.instrPos(ev.instr)
			for _, x := range e.altsUnder(ev.args[2], ev.cond, ev.loops...) {
				empty := e.w.asBool(e.w.eq(x.t, e.w.str("")))
				some := false
				if x.t.op == "call:strings.Join" {
					// (the classes of a class attribute are not empty)
					some, _ = e.entails(x.g, b.Not(e.w.asBool(e.w.eq(e.w.mk("len", "", x.t.args[0]), e.w.int(0)))), s, ev.loops)
				}
				if !some && e.feasible(b.And(x.g, empty), s, ev.loops) {
					c.bad("classes", pos, "empty", "an empty class attribute can be written")
				}
				c06filtered(c, e, x, pos, pres, v.elem, ev.loops)
			}
		}
		return
	}
	if why != "" {
		c.bad("classes", "article", "reached", "the classes of the article are not always filtered: %s", why)
		return
	}
	if any {
		c.notes = append(c.notes, "class filter in a shape that is not recognised; not decided")
		return
	}
	_ = a
	c.bad("classes", "article", "none", "no walk over the article filters the class attributes")
}

// tagIsAny: the node is an element of any name.
func tagIsAny(elem *Term) Scen {
	return func(a *Term) (bool, bool) {
		if a.op == "EQ" && same(a.args[0], elem) && a.args[1].op == "nil" {
			return false, true
		}
		if a.op == "EQ" && isFld(a.args[0], "F:Node.NodeType") && same(a.args[0].args[0], elem) && a.args[1].isInt() {
			return a.args[1].intVal() == 1, true
		}
		return false, false
	}
}

// overArticleIf is overArticle in a situation.
func (c *Ctx) overArticleIf(v *visit, s Scen) (bool, string) {
	a := c.attempts()
	e := a.r.e
	for _, l := range v.loops {
		if l == a.loop {
			return c.overArticle(v)
		}
	}
	if v.seq < a.loop.seq1 || !c.coversFinal(v.root) {
		return false, ""
	}
	for _, x := range a.serial {
		if x.seq < v.seq {
			return false, "it happens after the article is serialized"
		}
		if ok, cex := e.entails(x.cond, v.cond, s, nil); !ok {
			return false, "not when " + cex
		}
	}
	return true, ""
}

// c06filtered: every class in the value is in the preserve list.
func c06filtered(c *Ctx, e *Exec, x alt, pos, pres string, elem *Term, loops []*LoopInst) {
	w := e.w
	isClass := func(t *Term) bool { return t.op == "attr" && same(t.args[0], elem) && t.args[1] == w.str("class") }
	if isClass(x.t) {
		c.bad("classes", pos, "unfiltered", "the class attribute is written back unfiltered")
		return
	}
	list := x.t
	if x.t.op == "call:strings.Join" {
		list = x.t.args[0]
	}
	if list.op != "loopvar" {
		if e.mentions(list, isClass) && strings.HasPrefix(list.op, "call:") {
			c.bad("classes", pos, "unfiltered", "the class attribute is written without looking up the preserve list: %s", w.showd(list, 4))
			return
		}
		c.notes = append(c.notes, pos+": value "+w.showd(list, 3)+" not decided")
		return
	}
	inst := list.obj.(*LoopInst)
	p := inst.phiOf(list)
	for _, y := range e.altsUnder(inst.next[p], inst.back, inst) {
		if y.t == list {
			continue
		}
		// what is added
		var added []*Term
		if y.t.op == "append" && y.t.args[0] == list {
			for _, z := range y.t.args[1:] {
				if z.op == "slicelit" {
					added = append(added, z.args...)
				} else {
					added = append(added, z)
				}
			}
		} else if y.t.op == "concat" && y.t.args[0] == list {
			for _, z := range y.t.args[1:] {
				if !z.isStr() {
					added = append(added, z)
				}
			}
		}
		for _, z := range added {
			c.count("classes kept under a condition", 1)
			not := func(t *Term) (bool, bool) {
				if t.op == "slicecontains" && isFld(t.args[0], pres) && same(t.args[1], z) {
					return false, true
				}
				if t.op == "EQ" && (same(t.args[0], z) || same(t.args[1], z)) {
					o := t.args[0]
					if same(o, z) {
						o = t.args[1]
					}
					if l, _, ok := elemOf(o); ok && isFld(l, pres) {
						return false, true
					}
				}
				return false, false
			}
			if e.feasible(y.g, not, []*LoopInst{inst}) {
				c.bad("classes", pos, "foreign class", "a class that is not in the preserve list is kept: %s", w.showd(z, 3))
			}
		}
	}
}
