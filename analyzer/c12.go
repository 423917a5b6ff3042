package main

import "strings"

func init() { checks["C12"] = checkC12 }

func checkC12(c *Ctx) {
	c.rule("with a positive limit smaller than the number of elements (all elements of the document) every path of Parse returns an error, and no event that touches the document or reads metadata is reachable")
	c.rule("with a limit of zero or less, or not smaller than the number of elements, the outcome does not depend on the limit")
	r := c.parseRun()
	e, w, b := r.e, r.e.w, r.e.w.b
	cls := c.setting("MaxElemsToParse")
	if cls == "" {
		c.bad("limit", "options", "MaxElemsToParse", "the limit option sets no setting")
		return
	}
	isLim := func(t *Term) bool { return isFld(t, cls) }
	isCount := func(t *Term) bool { return t.op == "len" && t.args[0].op == "query" && t.args[0].args[1] == w.str("*") }
	var docs []*Term
	// value of comparison atoms when limit = L and count = n
	scen := func(L, n int64) Scen {
		return func(a *Term) (bool, bool) {
			if a.op != "LT" && a.op != "EQ" {
				return false, false
			}
			val := func(t *Term) (int64, bool) {
				switch {
				case isLim(t):
					return L, true
				case isCount(t):
					return n, true
				case t.isInt():
					return t.intVal(), true
				case t.op == "+" && t.args[1].isInt() && (isLim(t.args[0]) || isCount(t.args[0])):
					if isLim(t.args[0]) {
						return L + t.args[1].intVal(), true
					}
					return n + t.args[1].intVal(), true
				}
				return 0, false
			}
			if !e.mentions(a, func(t *Term) bool { return isLim(t) || isCount(t) }) {
				return false, false
			}
			x, ok1 := val(a.args[0])
			y, ok2 := val(a.args[1])
			if !ok1 || !ok2 {
				return false, false
			}
			if a.op == "LT" {
				return x < y, true
			}
			return x == y, true
		}
	}
	nAtoms := 0
	for _, a := range e.liveAtoms() {
		if e.mentions(a, isLim) {
			nAtoms++
			w.subterms(a, func(t *Term) bool {
				if isCount(t) {
					docs = append(docs, t.args[0].args[0])
				}
				return true
			})
		}
	}
	c.need("conditions on the element limit", nAtoms, 1)
	for _, d := range docs {
		if !(d.op == "fld" && strings.HasPrefix(d.aux, "F:Readability.") && d.args[0] == r.arg[0]) {
			c.bad("count", "Parse", "document", "the elements counted against the limit are those of %s, not of the document", w.showd(d, 3))
		}
	}
	if nAtoms > 0 && len(docs) == 0 {
		c.bad("count", "Parse", "document", "the limit is not compared with the number of all elements of the document")
	}
	over := [][2]int64{{1, 2}, {1, 1000}, {5, 6}, {5, 7}, {1000, 1001}, {3, 100000}}
	under := [][2]int64{{1, 1}, {1, 0}, {5, 5}, {5, 4}, {1000, 1000}, {0, 1}, {0, 100000}, {-1, 0}, {-1, 100000}, {-100, 5}, {1 << 40, 3}}
	for _, x := range over {
		s := scen(x[0], x[1])
		for _, o := range c.okReturns(r) {
			if e.feasible(o.cond, s, nil) {
				c.bad("limit", c.P.instrPos(o.rec.instr), "result over the limit", "Parse returns a result with limit %d and %d elements", x[0], x[1])
			}
		}
		n := 0
		for _, ev := range e.events {
			touch := isMutation(ev) || ev.kind == "prim" && ev.name != "getElementsByTagName" || ev.kind == "dyn" || ev.kind == "ext" && strings.HasPrefix(ev.name, "encoding/json")
			if ev.kind == "store" && strings.HasPrefix(ev.name, "F:Readability.") {
				touch = true
			}
			if ev.kind == "prim" && ev.name == "getElementsByTagName" && ev.args[1] != w.str("*") {
				touch = true
			}
			if !touch {
				continue
			}
			n++
			if ev.cond == bFalse {
				continue
			}
			if e.feasible(ev.cond, s, ev.loops) {
				c.bad("limit", c.P.instrPos(ev.instr), ev.name+" before the limit", "with limit %d and %d elements the document is already processed (%s %s) before extraction is refused", x[0], x[1], ev.kind, ev.name)
				break
			}
		}
		c.count("events shown unreachable over the limit", n)
	}
	c.count("limit/element-count combinations", len(over)+len(under))
	// within the limit: as without a limit
	for i, rt := range r.act.rets {
		base := e.assume(rt.st.cond, scen(0, 0))
		for _, x := range under {
			got := e.assume(rt.st.cond, scen(x[0], x[1]))
			if got != base {
				bad := b.Or(b.And(got, b.Not(base)), b.And(base, b.Not(got)))
				c.bad("limit", c.P.instrPos(rt.instr), "within the limit", "with limit %d and %d elements return %d of Parse is reached under other conditions than without limit: %s", x[0], x[1], i, e.model(bad))
				break
			}
		}
	}
}
