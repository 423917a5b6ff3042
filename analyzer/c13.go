package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["C13"] = checkC13 }

func checkC13(c *Ctx) {
	c.rule("the loop of attempts is located backwards from the serialized article; on every path to another attempt the page gets the inner HTML it had before the loop, and nothing changes the document after that in the same round")
	c.rule("for each of the eight values of the heuristics bits: another attempt clears exactly the first active bit of (strip unlikely, class weights, conditional cleaning) and is only made if one is active")
	c.rule("an attempt whose text reaches the character threshold is returned at once; otherwise every attempt is recorded with its article and text length; the final choice is the recorded attempt with the greatest length, and no article is returned only when that length is zero")
	a := c.attempts()
	r := a.r
	e, w, b := r.e, r.e.w, r.e.w.b
	if len(a.article) == 0 || a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	L := a.loop
	where := "attempt loop"
	if L.l != nil {
		for _, in := range L.l.header.Instrs {
			if in.Pos().IsValid() {
				where = c.P.instrPos(in)
				break
			}
		}
	}
	c.count("attempt loops", 1)
	// (a) restore
	var restores []*Event
	for _, ev := range e.prims("SetInnerHTML") {
		if !inLoop(ev, L) || len(ev.loops) != len(L.outer)+1 {
			continue
		}
		if ev.args[1].op != "html" {
			continue
		}
		src := (*Event)(nil)
		for _, h := range e.prims("GetInnerHTML") {
			if h.res == ev.args[1] && !inLoop(h, L) {
				src = h
			}
		}
		if src == nil || !same(ev.args[1].args[0], ev.args[0]) {
			continue
		}
		// unchanged between being saved and the first attempt
		for _, m := range e.events {
			if m.seq > src.seq && m.seq <= L.seq0 && isMutation(m) && e.feasible(m.cond, nil, m.loops) {
				c.bad("restore", c.P.instrPos(m.instr), "saved too early", "the document is changed between saving the page and the first attempt")
			}
		}
		restores = append(restores, ev)
	}
	if len(restores) == 0 {
		c.bad("restore", where, "no restore", "no round of the loop of attempts sets the page back to the HTML saved before the loop")
		return
	}
	if ok, cex := e.entails(L.back, e.orCond(restores), nil, []*LoopInst{L}); !ok {
		c.bad("restore", where, "path without restore", "another attempt can start without the page being restored: %s", cex)
	}
	for _, rs := range restores {
		for _, m := range e.events {
			if m.seq > rs.seq && inLoop(m, L) && isMutation(m) && e.feasible(b.And(b.And(m.cond, rs.cond), L.back), nil, m.loops) {
				c.bad("restore", c.P.instrPos(m.instr), "change after restore", "the restored page is changed again before the next attempt")
			}
		}
		// the page is the body
		if !e.mentions(rs.args[0], func(t *Term) bool { return isFld(t, "F:Node.Body") }) {
			c.bad("restore", c.P.instrPos(rs.instr), "restored node", "the restored element is not the body of the document: %s", w.showd(rs.args[0], 4))
		}
	}
	// (b) flags
	fl := c.flagsField()
	if fl == "" {
		c.notes = append(c.notes, "no integer bit field selects the heuristics; the order of giving them up is not decided")
	} else {
		c13flags(c, a, fl, where)
	}
	c13choice(c, a, fl, where)
}

func c13flags(c *Ctx, a *attemptCtx, fl, where string) {
	e, w := a.r.e, a.r.e.w
	L := a.loop
	m := w.mk("mloop", fmt.Sprintf("%d:%s", L.id, fl))
	next := L.memNext[fl]
	if next == nil {
		c.bad("flags", where, "never changed", "no attempt gives up a heuristic")
		return
	}
	// which bit gates what
	gate := func(name string, evs []*Event) int64 {
		if len(evs) == 0 {
			return 0
		}
		var found int64
		for _, k := range []int64{1, 2, 4, 8, 16} {
			all := true
			for _, ev := range evs {
				if e.feasible(ev.cond, flagScen(fl, ^k&0xff, nil), ev.loops) {
					all = false
					break
				}
			}
			if all {
				found = k
			}
		}
		return found
	}
	var strip, weight, clean []*Event
	for _, ev := range e.events {
		if !inLoop(ev, L) {
			continue
		}
		if ev.kind == "pure" && strings.HasSuffix(ev.name, "MatchString") && ev.args[0].op == "re" && (isPositivePat(ev.args[0].aux) || isNegativePat(ev.args[0].aux)) {
			weight = append(weight, ev)
		}
		if ev.kind == "prim" && ev.name == "RemoveChild" && e.condMentions(ev.cond, func(t *Term) bool { p, _, ok := reMatch(t); return ok && isUnlikelyPat(p) }) {
			// only removals that need the match
			s := func(t *Term) (bool, bool) {
				if p, _, ok := reMatch(t); ok && isUnlikelyPat(p) {
					return false, true
				}
				return false, false
			}
			if !e.feasible(ev.cond, s, ev.loops) {
				strip = append(strip, ev)
			}
		}
		if ev.kind == "prim" && ev.name == "getElementsByTagName" && (ev.args[1] == w.str("embed") || ev.args[1] == w.str("li") || ev.args[1] == w.str("input")) {
			clean = append(clean, ev)
		}
	}
	ks, kw := gate("strip", strip), gate("weight", weight)
	if len(strip) == 0 {
		// one removal for several reasons: the bit without which the match decides nothing
		ks = c13mixed(e, L, fl)
	}
	if len(strip) > 0 && ks == 0 {
		c.bad("flags", c.P.instrPos(strip[0].instr), "strip ungated", "removing unlikely elements is not switched off by any heuristics bit")
	}
	if len(weight) > 0 && kw == 0 {
		c.bad("flags", c.P.instrPos(weight[0].instr), "weights ungated", "class weights are not switched off by any heuristics bit")
	}
	// conditional cleaning: the bit left over
	all := c.initialFlags(fl)
	kc := all &^ (ks | kw)
	c.samplef("bits: strip unlikely %d, class weights %d, conditional cleaning %d, initially %d", ks, kw, kc, all)
	if ks == 0 || kw == 0 || kc == 0 || kc&(kc-1) != 0 {
		c.bad("flags", where, "bits", "the three heuristics are not each governed by one bit of the initial value %d (strip %d, weights %d)", all, ks, kw)
		return
	}
	// the removals of conditional cleaning are gated by kc
	var cond []*Event
	for _, ev := range e.prims("RemoveChild") {
		if inLoop(ev, L) && e.condMentions(ev.cond, func(t *Term) bool {
			return t.op == "band" && isFld(t.args[0], fl) && t.args[1].isInt() && t.args[1].intVal() == kc
		}) {
			cond = append(cond, ev)
			if e.feasible(ev.cond, flagScen(fl, all&^kc, nil), ev.loops) {
				c.bad("flags", c.P.instrPos(ev.instr), "conditional cleaning ungated", "conditional cleaning removes elements although it is switched off")
			}
		}
	}
	if len(cond) == 0 {
		c.bad("flags", where, "conditional cleaning", "conditional cleaning is not governed by its heuristics bit")
	}
	c.count("removals governed by a heuristics bit", len(cond)+len(strip))
	order := []int64{ks, kw, kc}
	for v := int64(0); v < 8; v++ {
		val := int64(0)
		for i, k := range order {
			if v&(1<<i) != 0 {
				val |= k
			}
		}
		s := flagScen(fl, val, m)
		back := e.assume(L.back, s)
		feas := e.feasible(back, nil, []*LoopInst{L})
		c.count("heuristics states checked", 1)
		if val == 0 {
			if feas {
				c.bad("flags", where, "retry without heuristics", "another attempt is made although no heuristic is left")
			}
			continue
		}
		if !feas {
			c.bad("flags", where, fmt.Sprint("no retry ", val), "with heuristics bits %d no further attempt is made", val)
			continue
		}
		want := val
		for _, k := range order {
			if val&k != 0 {
				want = val &^ k
				break
			}
		}
		st := &State{cond: bTrue, mem: map[string]*Term{fl: next}}
		fv := e.loadField(st, fl, a.r.arg[0], nil2int())
		n := 0
		for _, x := range e.altsUnder(fv, back, L) {
			g := e.assume(x.g, s)
			if !e.feasible(g, nil, []*LoopInst{L}) {
				continue
			}
			n++
			got, ok := e.evalFlags(x.t, fl, val, g, L)
			if !ok {
				c.notes = append(c.notes, fmt.Sprintf("next heuristics bits after %d not evaluated: %s", val, w.showd(x.t, 4)))
				continue
			}
			if got != want {
				c.bad("flags", where, fmt.Sprint("from ", val), "with heuristics bits %d the next attempt runs with %s, expected %d", val, w.showd(x.t, 4), want)
			}
		}
		if n == 0 {
			c.bad("flags", where, fmt.Sprint("from ", val), "the heuristics bits of the next attempt after %d are unknown", val)
		}
	}
}

// evalFlags evaluates a bit expression when the bits read are v, under condition g.
func (e *Exec) evalFlags(t *Term, fl string, v int64, g int, L *LoopInst) (int64, bool) {
	switch {
	case t.isInt():
		return t.intVal(), true
	case isFld(t, fl):
		return v, true
	case t.op == "ite":
		var r int64
		n := 0
		for i, a := range t.args {
			x := e.w.b.And(g, t.bs[i])
			if x == bFalse || !e.feasible(x, nil, []*LoopInst{L}) {
				continue
			}
			y, ok := e.evalFlags(a, fl, v, x, L)
			if !ok || n > 0 && y != r {
				return 0, false
			}
			r = y
			n++
		}
		return r, n > 0
	case len(t.args) == 1:
		x, ok := e.evalFlags(t.args[0], fl, v, g, L)
		if !ok {
			return 0, false
		}
		switch t.op {
		case "compl":
			return ^x, true
		case "neg":
			return -x, true
		}
	case len(t.args) == 2:
		x, ok1 := e.evalFlags(t.args[0], fl, v, g, L)
		y, ok2 := e.evalFlags(t.args[1], fl, v, g, L)
		if !ok1 || !ok2 {
			return 0, false
		}
		switch t.op {
		case "band":
			return x & y, true
		case "bor":
			return x | y, true
		case "op&^":
			return x &^ y, true
		case "op^":
			return x ^ y, true
		case "op-":
			return x - y, true
		case "+":
			return x + y, true
		case "op<<":
			return x << uint(y), true
		case "op>>":
			return x >> uint(y), true
		}
	}
	return 0, false
}

// initialFlags is the value New gives the heuristics bits.
func (c *Ctx) initialFlags(fl string) int64 {
	nr := c.buildRun()
	for _, o := range c.okReturns(nr) {
		if t := nr.e.loadField(o.rec.st, fl, o.obj, nil2int()); t.isInt() {
			return t.intVal()
		}
	}
	return 0
}

// plusOf: t is the field, possibly plus a constant.
func plusOf(t *Term, cls string) bool {
	if isFld(t, cls) {
		return true
	}
	if t.op == "+" || t.op == "op-" {
		for _, a := range t.args {
			if isFld(a, cls) {
				return true
			}
		}
	}
	return false
}

func c13choice(c *Ctx, a *attemptCtx, fl, where string) {
	r := a.r
	e, w, b := r.e, r.e.w, r.e.w.b
	L := a.loop
	thr := c.setting("CharThreshold")
	art := a.article[0]
	// the comparison with the threshold
	var lenT *Term
	short := func(t *Term) bool {
		return t.op == "LT" && isFld(t.args[1], thr) && (t.args[0].op == "len" || t.args[0].op == "runelen") &&
			e.mentions(t.args[0], func(x *Term) bool { return x.op == "text" && a.isArticle(x.args[0]) })
	}
	for _, at := range e.liveAtoms() {
		if short(at) {
			lenT = at.args[0]
		} else if (at.op == "LT" || at.op == "EQ") && (plusOf(at.args[0], thr) || plusOf(at.args[1], thr)) {
			c.bad("threshold", where, "comparison", "the threshold is compared differently than 'text length of the article < threshold': %s", w.showd(at, 5))
		}
	}
	if lenT == nil {
		c.bad("threshold", where, "no comparison", "the text length of the article is not compared with the character threshold")
		return
	}
	if lenT.op == "len" && lenT.args[0].op != "convert" && !strings.Contains(lenT.args[0].op, "rune") {
		c.bad("threshold", where, "bytes", "the bytes of the article's text, not its characters, are compared with the character threshold: %s", w.showd(lenT, 4))
	}
	is := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if short(t) {
				return v, true
			}
			return false, false
		}
	}
	if e.feasible(L.back, is(false), []*LoopInst{L}) {
		c.bad("threshold", where, "retry although long enough", "another attempt is made although the article reaches the threshold")
	}
	// recorded attempts
	var recs []*Event
	artF, lenF := "", ""
	for _, ev := range e.byKind("append") {
		if ev.seq > L.seq0 && ev.act.within(L.act) && len(ev.args) == 2 && ev.args[1].op == "slicelit" && len(ev.args[1].args) == 1 {
			x := ev.args[1].args[0]
			if ac, lc := c13record(c, e, x, art, lenT); ac != "" && lc != "" {
				recs = append(recs, ev)
				artF, lenF = ac, lc
			}
		}
	}
	if len(recs) == 0 {
		c.bad("record", where, "no record", "failed attempts are not recorded with their article and text length")
		return
	}
	if ok, cex := e.entails(L.back, e.orCond(recs), nil, []*LoopInst{L}); !ok {
		c.bad("record", where, "unrecorded", "an attempt can be given up without being recorded: %s", cex)
	}
	for _, s := range e.byKind("sort") {
		if s.seq > L.seq0 && s.act.within(L.act) {
			var before []*Event
			for _, x := range recs {
				if x.seq < s.seq {
					before = append(before, x)
				}
			}
			if ok, cex := e.entails(s.cond, e.orCond(before), nil, s.loops); !ok {
				c.bad("record", c.P.instrPos(s.instr), "last attempt unrecorded", "the last attempt is not among those compared: %s", cex)
			}
		}
	}
	// returns of the function holding the loop
	for _, ev := range e.byKind("ret") {
		if ev.act != L.act || ev.seq <= L.seq0 || len(ev.args) == 0 || b.And(L.entry, ev.cond) == bFalse {
			continue
		}
		c.count("returns of the loop of attempts", 1)
		for _, x := range e.altsUnder(ev.args[0], ev.cond, ev.loops...) {
			long := e.feasible(x.g, is(false), ev.loops)
			if long && x.t != art {
				c.bad("threshold", c.P.instrPos(ev.instr), "long enough", "an article reaching the threshold is not returned itself but %s", w.showd(x.t, 4))
			}
			if !e.feasible(x.g, is(true), ev.loops) {
				continue
			}
			if fl != "" {
				for v := int64(1); v < 8; v++ {
					if e.feasible(x.g, scens(is(true), flagScen(fl, v, nil)), ev.loops) {
						c.bad("choice", c.P.instrPos(ev.instr), "given up early", "a too short article ends the search although a heuristic is still active (bits %d)", v)
						break
					}
				}
			}
			c13best(c, a, ev, x, is(true), lenT, artF, lenF)
		}
	}
	_ = b
}

// c13record: x is a record of the article and its text length; returns the two fields.
func c13record(c *Ctx, e *Exec, x, art, lenT *Term) (artF, lenF string) {
	put := func(cls string, f *Term) {
		if f == art {
			artF = cls
		}
		if f == lenT {
			lenF = cls
		}
	}
	switch x.op {
	case "structv":
		if o := c.P.lib.Pkg.Scope().Lookup(x.aux); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok && s.NumFields() == len(x.args) {
				for i, f := range x.args {
					put("F:"+x.aux+"."+s.Field(i).Name(), f)
				}
			}
		}
	case "new":
		for _, ev := range e.byKind("store") {
			if ev.args[0].op == "faddr" && ev.args[0].args[0] == x {
				put(ev.args[0].aux, ev.args[1])
			}
		}
	}
	return
}

// c13best: when every heuristic is used up the longest recorded attempt is chosen.
func c13best(c *Ctx, a *attemptCtx, ev *Event, x alt, s Scen, lenT *Term, artF, lenF string) {
	e, w, b := a.r.e, a.r.e.w, a.r.e.w.b
	L := a.loop
	pos := c.P.instrPos(ev.instr)
	isLen := func(t *Term) bool { return isFld(t, lenF) || t == lenT || t.op == "loopvar" && isInteger(t.typ) }
	isZero := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if len(t.args) != 2 || !isLen(t.args[0]) || !t.args[1].isInt() {
				return false, false
			}
			k := t.args[1].intVal()
			if t.op == "EQ" && k == 0 || t.op == "LT" && k == 1 {
				return v, true
			}
			return false, false
		}
	}
	if x.t.op == "nil" {
		if e.feasible(x.g, scens(s, isZero(false)), ev.loops) {
			c.bad("choice", pos, "nil", "no article is returned although an attempt has text")
		}
		for v := range b.Support(x.g) {
			t := w.atoms[v]
			if _, ok := isZero(true)(t); !ok || !isFld(t.args[0], lenF) || t.args[0].args[0].op != "idx" {
				continue
			}
			idx := t.args[0].args[0].args[1]
			first := idx.isInt() && idx.intVal() == 0
			last := !idx.isInt() && e.mentionsVal(idx, func(y *Term) bool { return y.op == "len" })
			for _, so := range e.byKind("sort") {
				if so.seq < L.seq0 || !so.act.within(L.act) || so.res == nil {
					continue
				}
				if dir := e.sortDir(so.res); dir == "descending" && last || dir == "ascending" && first {
					c.bad("choice", pos, "nil", "no article is returned although only the shortest attempt is known to be empty")
				}
			}
		}
		return
	}
	if x.t == a.article[0] {
		c.bad("choice", pos, "last", "the last attempt is returned although it is too short, without comparing it with the others")
		return
	}
	if x.t.op != "fld" || x.t.aux != artF {
		return
	}
	el := x.t.args[0]
	if e.feasible(x.g, scens(s, isZero(true)), ev.loops) {
		c.bad("choice", pos, "empty", "an attempt without text is returned as article")
	}
	if el.op == "loopvar" {
		inst := el.obj.(*LoopInst)
		p := inst.phiOf(el)
		if p == nil {
			return
		}
		for _, y := range e.altsUnder(inst.next[p], inst.back, inst) {
			if y.t == el || y.t.op != "idx" {
				continue
			}
			// replaced by a shorter one?
			cmp := func(elLess bool) Scen {
				return func(t *Term) (bool, bool) {
					if len(t.args) != 2 {
						return false, false
					}
					l0, l1 := isFld(t.args[0], lenF), isFld(t.args[1], lenF)
					if t.op == "EQ" {
						if t.args[0] == el || t.args[1] == el {
							return false, true
						}
						if l0 && l1 {
							return false, true
						}
					}
					if t.op == "LT" && l0 && l1 {
						if same(t.args[0].args[0], el) && same(t.args[1].args[0], y.t) {
							return elLess, true
						}
						if same(t.args[1].args[0], el) && same(t.args[0].args[0], y.t) {
							return !elLess, true
						}
					}
					return false, false
				}
			}
			if e.feasible(y.g, cmp(false), []*LoopInst{inst}) {
				c.bad("choice", pos, "shorter chosen", "a shorter recorded attempt replaces a longer one in the choice")
			}
			if e.feasible(b.And(inst.back, b.Not(y.g)), cmp(true), []*LoopInst{inst}) {
				c.bad("choice", pos, "longer ignored", "a longer recorded attempt does not replace a shorter one in the choice")
			}
		}
		return
	}
	if el.op != "idx" {
		return
	}
	for _, so := range e.byKind("sort") {
		if so.seq < L.seq0 || !so.act.within(L.act) || so.res == nil {
			continue
		}
		dir := e.sortDir(so.res)
		c.samplef("recorded attempts sorted %s by %s", dir, w.showd(so.res, 4))
		idx := el.args[1]
		first := idx.isInt() && idx.intVal() == 0
		last := !idx.isInt() && e.mentionsVal(idx, func(y *Term) bool { return y.op == "len" })
		if dir == "descending" && !first || dir == "ascending" && !last || dir == "in no order" {
			c.bad("choice", pos, "sort order", "the attempt chosen from the list sorted %s is element %s, not the longest", dir, w.showd(idx, 3))
		}
	}
}

// sortDir classifies a comparison function result over sortarg a, b: the sign (or, of a
// less function, the truth) it has for either order of the lengths.
func (e *Exec) sortDir(t *Term) string {
	argOf := func(x *Term) string {
		for x.op == "fld" || x.op == "idx" {
			if x.op == "idx" {
				x = x.args[1]
			} else {
				x = x.args[0]
			}
		}
		if x.op == "sortarg" {
			return map[string]string{"a": "a", "b": "b", "i": "a", "j": "b"}[x.aux]
		}
		return ""
	}
	// ord: a is less (-1) or greater (1) than b
	rel := func(x, y *Term, ord int) (int, bool) {
		p, q := argOf(x), argOf(y)
		switch {
		case p == "a" && q == "b":
			return ord, true
		case p == "b" && q == "a":
			return -ord, true
		}
		return 0, false
	}
	sign := func(ord int) (neg, unknown bool) {
		sc := func(t *Term) (bool, bool) {
			if len(t.args) != 2 {
				return false, false
			}
			if r, ok := rel(t.args[0], t.args[1], ord); ok && t.op == "LT" {
				return r < 0, true
			} else if ok && t.op == "EQ" {
				return r == 0, true
			}
			return false, false
		}
		if t.op == "bool" {
			f := e.w.asBool(t)
			y, n := e.feasible(f, sc, nil), e.feasible(e.w.b.Not(f), sc, nil)
			return y, y == n
		}
		some := false
		var rec func(x *Term, g int)
		rec = func(x *Term, g int) {
			if !e.feasible(g, sc, nil) {
				return
			}
			v := 0
			switch {
			case x.op == "ite":
				for i, y := range x.args {
					rec(y, e.w.b.And(g, x.bs[i]))
				}
				return
			case x.isInt():
				v = int(x.intVal())
			case x.op == "op-" && len(x.args) == 2 || x.op == "call:cmp.Compare" || x.op == "call:strings.Compare":
				r, ok := rel(x.args[0], x.args[1], ord)
				if !ok {
					unknown = true
				}
				v = r
			case (x.op == "op/" || x.op == "op>>" || x.op == "op%") && len(x.args) == 2 && x.args[1].isInt() && (x.args[1].intVal() > 1 || x.op == "op>>"):
				// a difference of 1 is lost
				v = 0
				if x.op == "op>>" {
					unknown = true
				}
			default:
				unknown = true
			}
			if some && neg != (v < 0) {
				unknown = true
			}
			some, neg = true, v < 0
		}
		rec(t, bTrue)
		return neg, unknown || !some
	}
	less, u1 := sign(-1)
	more, u2 := sign(1)
	switch {
	case u1 || u2:
		return "unknown"
	case less && !more:
		return "ascending"
	case more && !less:
		return "descending"
	}
	return "in no order"
}

// c13mixed: the heuristics bit without which no removal depends on the pattern of unlikely
// elements (0 if there is none).
func c13mixed(e *Exec, L *LoopInst, fl string) int64 {
	match := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if p, _, ok := reMatch(t); ok && isUnlikelyPat(p) {
				return v, true
			}
			return false, false
		}
	}
	var found int64
	for _, k := range []int64{1, 2, 4, 8, 16} {
		n, free := 0, true
		for _, ev := range e.events {
			if !inLoop(ev, L) || ev.kind != "prim" || ev.name != "RemoveChild" {
				continue
			}
			on, off := e.assume(ev.cond, match(true)), e.assume(ev.cond, match(false))
			if on == off {
				continue
			}
			n++
			off1 := flagScen(fl, ^k&0xff, nil)
			if e.assume(on, off1) != e.assume(off, off1) {
				free = false
			}
		}
		if n > 0 && free {
			found = k
		}
	}
	return found
}
