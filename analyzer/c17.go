package main

func init() { checks["C17"] = checkC17 }

// textLen: the trimmed text of elem has n characters.
func textLen(elem *Term, n int64) Scen {
	isText := func(t *Term) bool {
		return t.op == "call:strings.TrimSpace" && t.args[0].op == "text" && same(t.args[0].args[0], elem)
	}
	ln := func(t *Term) bool {
		return (t.op == "runelen" || t.op == "len") && len(t.args) == 1 && (isText(t.args[0]) || t.args[0].op == "runes" && isText(t.args[0].args[0]))
	}
	return func(t *Term) (bool, bool) {
		if len(t.args) != 2 {
			return false, false
		}
		x, y := t.args[0], t.args[1]
		switch {
		case t.op == "EQ" && isText(x) && y.isStr() && y.aux == "":
			return n == 0, true
		case t.op == "EQ" && ln(x) && y.isInt():
			return n == y.intVal(), true
		case t.op == "LT" && ln(x) && y.isInt():
			return n < y.intVal(), true
		case t.op == "LT" && ln(y) && x.isInt():
			return x.intVal() < n, true
		}
		return false, false
	}
}

func bylineScen(elem *Term, match bool) Scen {
	return func(t *Term) (bool, bool) {
		if p, _, ok := reMatch(t); ok && isBylinePat(p) {
			return match, true
		}
		return false, false
	}
}

func checkC17(c *Ctx) {
	c.rule("the parser field the result falls back to for the byline is stored only in the walk over the document, with the trimmed text of the visited element")
	c.rule("it is stored exactly when it was empty, the element is visible, is marked as author (rel, itemprop, class or id) and its trimmed text has 1 to 99 characters; the element is removed in the same round")
	c.rule("an author mark on an element whose text is too long or empty, or met after a byline was found, is no reason to remove it")
	a := c.attempts()
	if a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	e, w, b := a.r.e, a.r.e.w, a.r.e.w.b
	dw := c.docWalk()
	if dw != nil {
		for _, t := range e.liveAtoms() {
			if t.op != "LT" && t.op != "EQ" {
				continue
			}
			for i, x := range t.args {
				if k := t.args[1-i]; x.op == "len" && x.args[0].op == "call:strings.TrimSpace" && x.args[0].args[0].op == "text" && same(x.args[0].args[0].args[0], dw.n) && k.isInt() && k.intVal() > 50 {
					c.bad("stored", "document walk", "bytes", "the length of a byline is counted in bytes, not characters")
				}
			}
		}
	}
	if dw == nil {
		c.bad("walk", "Parse", "walk", "no attempt goes through the elements of the document from its root")
		return
	}
	// the field
	fld := ""
	var stores []*Event
	for _, ev := range e.byKind("store") {
		if !inLoop(ev, dw.inst) || len(ev.name) < 14 || ev.name[:14] != "F:Readability." {
			continue
		}
		if e.mentionsVal(ev.args[1], func(t *Term) bool { return t.op == "text" && same(t.args[0], dw.n) }) {
			if fld != "" && fld != ev.name {
				continue
			}
			fld = ev.name
			stores = append(stores, ev)
		}
	}
	if fld == "" {
		c.bad("stored", "document walk", "no store", "the walk over the document stores no byline found in the content")
		return
	}
	used := false
	for _, o := range c.okReturns(a.r) {
		if t := c.resultField(a.r, o, "Byline"); t != nil && e.mentionsVal(t, func(x *Term) bool { return isFld(x, fld) }) {
			used = true
		}
	}
	if !used {
		c.bad("stored", c.P.instrPos(stores[0].instr), "unused", "the byline found in the content does not get into the result")
	}
	for _, ev := range e.byKind("store") {
		if ev.name != fld {
			continue
		}
		mine := false
		for _, s := range stores {
			mine = mine || s == ev
		}
		if !mine && e.feasible(ev.cond, nil, ev.loops) && !(ev.args[1] == w.str("")) {
			c.bad("stored", c.P.instrPos(ev.instr), "other", "the content byline is set to something else: %s", w.showd(ev.args[1], 3))
		}
	}
	pos := c.P.instrPos(stores[0].instr)
	for _, s := range dw.step(c, e) {
		c.bad("walk", pos, "skips "+s, "the walk over the document skips %s", s)
	}
	for _, ev := range stores {
		for _, x := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
			if !(x.t.op == "call:strings.TrimSpace" && x.t.args[0].op == "text" && same(x.t.args[0].args[0], dw.n)) {
				c.bad("stored", c.P.instrPos(ev.instr), "value", "the byline is not the trimmed text of the element: %s", w.showd(x.t, 4))
			}
		}
	}
	set := e.orCond(stores)
	rem := dw.removals(e)
	gone := e.orCond(rem)
	found := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && isFld(t.args[0], fld) && t.args[1] == w.str("") {
				return !v, true
			}
			return false, false
		}
	}
	no := func(name string) Scen { return attrScen(dw.n, name, false, "") }
	visible := scens(dw.attached, no("hidden"), no("style"), no("aria-hidden"), no("aria-modal"), no("role"))
	marks := []struct {
		what string
		s    Scen
	}{
		{"rel=author", scens(attrScen(dw.n, "rel", true, "author"), no("itemprop"), bylineScen(dw.n, false))},
		{"itemprop containing author", scens(attrScen(dw.n, "itemprop", true, "x author y"), no("rel"), bylineScen(dw.n, false))},
		{"a byline class or id", scens(no("itemprop"), no("rel"), bylineScen(dw.n, true))},
	}
	unmarked := scens(no("rel"), no("itemprop"), bylineScen(dw.n, false))
	ok := false
	for _, at := range e.liveAtoms() {
		if p, s, is := reMatch(at); is && isBylinePat(p) && e.mentionsVal(s, func(t *Term) bool { return attrOf(t, dw.n, "class") }) && e.mentionsVal(s, func(t *Term) bool { return attrOf(t, dw.n, "id") }) {
			ok = true
		}
	}
	if !ok {
		c.bad("marked", pos, "class and id", "class and id of the visited element are not searched for a byline name")
	}
	for _, m := range marks {
		for _, n := range []int64{1, 99} {
			c.count("marked elements checked", 1)
			sc := scens(m.s, textLen(dw.n, n), found(false), visible)
			if ok, cex := e.entails(dw.hyp, set, sc, dw.in); !ok {
				c.bad("found", pos, m.what, "an element with %s and %d characters is not taken as byline when %s", m.what, n, cex)
			}
			if ok, cex := e.entails(b.And(dw.hyp, set), gone, sc, dw.in); !ok {
				c.bad("removed", pos, m.what, "the byline element stays in the article when %s", cex)
			}
		}
		for _, n := range []int64{0, 100, 101, 1000} {
			c.count("implausible texts checked", 1)
			if e.feasible(set, scens(m.s, textLen(dw.n, n), visible), dw.in) {
				c.bad("bounded", pos, "length", "a text of %d characters is taken as byline", n)
			}
			g1 := e.assume(gone, scens(m.s, textLen(dw.n, n), found(false), visible))
			g0 := e.assume(gone, scens(unmarked, textLen(dw.n, n), found(false), visible))
			if x := b.And(g1, b.Not(g0)); e.feasible(x, nil, dw.in) {
				c.bad("removed", pos, "implausible "+m.what, "an element with %s and %d characters is removed as byline: %s", m.what, n, e.model(x))
			}
		}
		if e.feasible(set, scens(m.s, found(true), visible), dw.in) {
			c.bad("first", pos, "again "+m.what, "a byline found before is replaced")
		}
		for _, n := range []int64{1, 50, 99} {
			g1 := e.assume(gone, scens(m.s, textLen(dw.n, n), found(true), visible))
			g0 := e.assume(gone, scens(unmarked, textLen(dw.n, n), found(true), visible))
			if x := b.And(g1, b.Not(g0)); e.feasible(x, nil, dw.in) {
				c.bad("first", pos, "removed "+m.what, "an element with %s is removed as byline although one was found before: %s", m.what, e.model(x))
			}
		}
	}
	if e.feasible(set, scens(unmarked, visible), dw.in) {
		c.bad("marked", pos, "unmarked", "an element without author mark is taken as byline")
	}
	for _, h := range []struct {
		what string
		s    Scen
	}{
		{"the hidden attribute", attrScen(dw.n, "hidden", true, "")},
		{"aria-hidden=true", scens(attrScen(dw.n, "aria-hidden", true, "true"), no("class"))},
		{"style display:none", e.styleScen(dw.n, "display", "none", true)},
		{"style visibility:hidden", e.styleScen(dw.n, "visibility", "hidden", true)},
	} {
		if e.feasible(set, scens(h.s, dw.attached), dw.in) {
			c.bad("visible", pos, h.what, "an element with %s is taken as byline", h.what)
		}
	}
}
