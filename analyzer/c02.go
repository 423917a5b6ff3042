package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C02"] = checkC02 }

// checkC02 looks for rounds of a loop and recursive calls that make no progress.
func checkC02(c *Ctx) {
	c.rule("stutter: no feasible path of a round goes back to the loop header with every variable, cell and piece of memory the loop's exits depend on unchanged (such a round repeats for ever)")
	c.rule("exit: every loop that goes round has a feasible exit; the loop over the tokens of the input leaves at the end of the input")
	c.rule("direction: the node a loop walks with moves consistently (forwards in document order, up, or backwards); counters move towards the bound that ends the loop; a loop emptying a child list takes a child out of that list in every round")
	c.rule("bits: a loop governed by a bit field never returns to a value of the bits it had before (all values of the bits tried)")
	c.rule("recursion: no feasible recursive call passes on the very arguments it got without a change of state")
	var fns []*ssa.Function
	for _, f := range c.P.funcs {
		if f.Blocks == nil || f.Synthetic != "" || f.Name() == "init" {
			continue
		}
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	n := 0
	for _, f := range fns {
		if len(c.P.loopsOf(f).all) == 0 && !c.selfRec(f) {
			continue
		}
		n++
		c.c02fn(f)
	}
	c.count("functions with loops or recursion", n)
	c.need("loops analysed", c.counts["loops analysed"], 20)
}

// selfRec: f can call itself.
func (c *Ctx) selfRec(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var vis func(g *ssa.Function) bool
	vis = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				var cl *ssa.CallCommon
				switch x := in.(type) {
				case *ssa.Call:
					cl = &x.Call
				case *ssa.Defer:
					cl = &x.Call
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if h, ok := mc.Fn.(*ssa.Function); ok && !seen[h] {
						if h == f {
							return true
						}
						seen[h] = true
						if vis(h) {
							return true
						}
					}
				}
				if cl == nil {
					continue
				}
				h := cl.StaticCallee()
				if h == nil {
					continue
				}
				if h == f {
					return true
				}
				if !seen[h] && c.P.inModule(h) {
					seen[h] = true
					if vis(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return vis(f)
}

func (c *Ctx) c02fn(f *ssa.Function) {
	var r *run
	func() {
		defer func() {
			if x := recover(); x != nil {
				if ae, ok := x.(analysisError); ok {
					c.notes = append(c.notes, fmt.Sprintf("%s not analysed: %s", f.Name(), ae.msg))
					return
				}
				panic(x)
			}
		}()
		r = c.symRun(f)
	}()
	if r == nil {
		return
	}
	for _, L := range r.e.allLoop {
		if L.l == nil || L.act != r.act {
			continue
		}
		c.c02loop(r, L)
	}
	c.c02rec(r, f)
}

func (c *Ctx) loopPos(L *LoopInst) string {
	best := ""
	for _, in := range L.l.header.Instrs {
		if in.Pos().IsValid() {
			best = c.P.instrPos(in)
			break
		}
	}
	if best == "" {
		for b := range L.l.blocks {
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					p := c.P.instrPos(in)
					if best == "" || p < best {
						best = p
					}
				}
			}
		}
	}
	return best
}

// ctl is the state that decides when a loop ends.
type ctl struct {
	phis map[*ssa.Phi]bool
	mems map[string]bool
	heap map[*Term]bool // reads of the loop's memory at an address that does not change
}

// control: everything the exits depend on, also through earlier rounds.
func (e *Exec) control(L *LoopInst) *ctl { return e.deps(L, true, L.exitAny, L.back) }

// reads: what a condition reads of the state at the start of the round.
func (e *Exec) reads(L *LoopInst, f int) *ctl { return e.deps(L, false, f) }

func (e *Exec) deps(L *LoopInst, trans bool, fs ...int) *ctl {
	k := &ctl{map[*ssa.Phi]bool{}, map[string]bool{}, map[*Term]bool{}}
	visT, visF, visL := map[int]bool{}, map[int]bool{}, map[*LoopInst]bool{}
	var vt func(t *Term)
	var vf func(f int)
	vf = func(f int) {
		if f < 2 || visF[f] {
			return
		}
		visF[f] = true
		for v := range e.w.b.Support(f) {
			vt(e.w.atoms[v])
		}
	}
	vt = func(t *Term) {
		if t == nil || visT[t.id] {
			return
		}
		visT[t.id] = true
		if inst, ok := t.obj.(*LoopInst); ok && (t.op == "loopvar" || t.op == "mloop") {
			if inst == L {
				if t.op == "loopvar" {
					if p := L.phiOf(t); p != nil && !k.phis[p] {
						k.phis[p] = true
						if trans {
							vt(L.next[p])
						}
					}
				} else {
					for cls, m := range L.memNext {
						if e.w.mk("mloop", fmt.Sprintf("%d:%s", L.id, cls)) == t && !k.mems[cls] {
							k.mems[cls] = true
							if trans {
								vt(m)
							}
						}
					}
				}
				return
			}
			// an inner loop: its result depends on what it starts from and on its exits
			in := false
			for _, o := range inst.outer {
				in = in || o == L
			}
			if in && !visL[inst] {
				visL[inst] = true
				vf(inst.exitAny)
				vf(inst.back)
				for _, x := range inst.init {
					vt(x)
				}
				for _, x := range inst.next {
					vt(x)
				}
				for _, x := range inst.memInit {
					vt(x)
				}
			}
			return
		}
		switch t.op {
		case "fld", "cell", "deref", "gload":
			if m := t.args[len(t.args)-1]; m.op == "mloop" && m.obj == L {
				inv := true
				if len(t.args) > 1 {
					inv = !e.mentions(t.args[0], func(x *Term) bool {
						i, ok := x.obj.(*LoopInst)
						return ok && (x.op == "loopvar" || x.op == "mloop") && (i == L || insideOf(i, L))
					})
				}
				if inv {
					k.heap[t] = true
				}
			}
		}
		for _, x := range t.bs {
			vf(x)
		}
		for _, a := range t.args {
			vt(a)
		}
	}
	for _, f := range fs {
		vf(f)
	}
	return k
}

func insideOf(i, L *LoopInst) bool {
	for _, o := range i.outer {
		if o == L {
			return true
		}
	}
	return false
}

func (e *Exec) mloop(L *LoopInst, cls string) *Term {
	return e.w.mk("mloop", fmt.Sprintf("%d:%s", L.id, cls))
}

// nextHeap: the value of a heap variable at the end of the round.
func (e *Exec) nextHeap(L *LoopInst, t *Term) *Term {
	cls := t.aux
	if t.op == "gload" {
		cls = "G:" + t.aux
	}
	m := L.memNext[cls]
	if m == nil {
		return t
	}
	st := &State{cond: bTrue, mem: map[string]*Term{cls: m}}
	if t.typ == nil {
		return nil
	}
	switch t.op {
	case "fld":
		return e.loadField(st, cls, t.args[0], t.typ)
	case "cell", "deref":
		return e.loadAddr(st, t.args[0], t.typ)
	}
	return nil
}

var c02dbg = os.Getenv("C02DBG") != ""

func (c *Ctx) isExtEffect(r *run, ev *Event) bool {
	switch ev.kind {
	case "dyn":
		return !c.knownArg(r, ev.args[0])
	case "ext":
		for _, p := range []string{"log/slog.", "log.", "fmt.Sprint", "fmt.Errorf", "(*log/slog", "(*log."} {
			if strings.HasPrefix(ev.name, p) {
				return false
			}
		}
		return true
	}
	return false
}

// callSites: the arguments the function is called with in the module; false if it is also
// used as a value or exported.
func (c *Ctx) callSites(f *ssa.Function) ([][]ssa.Value, bool) {
	if f.Object() == nil || f.Object().Exported() {
		return nil, false
	}
	for _, g := range c.P.addrTaken {
		if g == f {
			return nil, false
		}
	}
	var out [][]ssa.Value
	for _, g := range c.P.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if cl, ok := in.(ssa.CallInstruction); ok && cl.Common().StaticCallee() == f {
					out = append(out, cl.Common().Args)
				}
			}
		}
	}
	return out, len(out) > 0
}

// knownArg: a function parameter for which every caller passes a function of the module
// without effects.
func (c *Ctx) knownArg(r *run, fv *Term) bool {
	i := -1
	for k, a := range r.arg {
		if a == fv {
			i = k
		}
	}
	if i < 0 {
		return false
	}
	sites, ok := c.callSites(r.fn)
	if !ok {
		return false
	}
	for _, as := range sites {
		if i >= len(as) {
			return false
		}
		v := as[i]
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
		}
		switch v := v.(type) {
		case *ssa.Const:
			continue
		case *ssa.Function:
			if len(c.P.eff(v)) == 0 {
				continue
			}
		case *ssa.MakeClosure:
			if g, ok := v.Fn.(*ssa.Function); ok && len(c.P.eff(g)) == 0 {
				continue
			}
		}
		return false
	}
	return true
}

// missedBound: the counters that are only tested for equality with a bound which, for
// some caller, they never meet.
func (c *Ctx) missedBound(r *run, L *LoopInst) map[*ssa.Phi]bool {
	e, b := r.e, r.e.w.b
	out := map[*ssa.Phi]bool{}
	for _, p := range L.phis {
		if !isInteger(p.Type()) || L.init[p] == nil || !L.init[p].isInt() {
			continue
		}
		v := L.vars[p]
		k, co := lin(L.next[p])
		if len(co) != 1 || co[v] != 1 || k == 0 {
			continue
		}
		missed := true
		n := 0
		for x := range b.Support(L.exitAny) {
			a := e.w.atoms[x]
			if !e.mentions(a, func(t *Term) bool { return t == v }) {
				continue
			}
			n++
			hit := true
			if a.op == "EQ" {
				ak, aco := lin(a.args[0])
				y := a.args[1]
				if len(aco) != 1 || aco[v] != 1 {
					ak, aco = lin(a.args[1])
					y = a.args[0]
				}
				if len(aco) == 1 && aco[v] == 1 {
					for i, arg := range r.arg {
						if arg != y {
							continue
						}
						sites, _ := c.callSites(r.fn)
						for _, as := range sites {
							if ct, ok := as[i].(*ssa.Const); ok && ct.Value != nil {
								d := ct.Int64() - ak - L.init[p].intVal()
								if d%k != 0 || d/k < 0 {
									hit = false
								}
							}
						}
					}
				}
			}
			if hit {
				missed = false
			}
		}
		if missed && n > 0 {
			out[p] = true
		}
	}
	return out
}

// unchangedWhen restricts g to the paths on which v keeps its value in the round.
func (e *Exec) unchangedWhen(g int, v, next *Term, lp []*LoopInst) int {
	b := e.w.b
	if next == v {
		return g
	}
	if next.op == "bool" || v.op == "bool" {
		x, y := e.w.asBool(v), e.w.asBool(next)
		return b.And(g, b.Or(b.And(x, y), b.And(b.Not(x), b.Not(y))))
	}
	r := bFalse
	if v.typ != nil && isInteger(v.typ) {
		for _, a := range e.linAlts(next, g, lp) {
			switch {
			case a.k == 0 && len(a.co) == 1 && a.co[v] == 1:
				r = b.Or(r, a.g)
			case len(a.co) == 0:
				r = b.Or(r, b.And(a.g, e.w.asBool(e.w.eq(v, e.w.int(a.k)))))
			}
		}
		return r
	}
	for _, a := range e.altsUnder(next, g, lp...) {
		switch {
		case a.t == v:
			r = b.Or(r, a.g)
		case a.t.isConst() || a.t.op == "nil":
			r = b.Or(r, b.And(a.g, e.w.asBool(e.w.eq(v, a.t))))
		}
	}
	return r
}

// memUnchanged restricts g to the paths on which nothing of a class is written in the round.
func (e *Exec) memUnchanged(L *LoopInst, cls string, g int) int {
	m, keep := e.mloop(L, cls), bFalse
	var rec func(t *Term, g int)
	rec = func(t *Term, g int) {
		if t == m {
			keep = e.w.b.Or(keep, g)
		}
		if t.op != "mite" {
			return
		}
		for i, a := range t.args {
			if x := e.w.b.And(g, t.bs[i]); x != bFalse {
				rec(a, x)
			}
		}
	}
	if L.memNext[cls] == nil {
		return g
	}
	rec(L.memNext[cls], g)
	return keep
}

func (c *Ctx) c02loop(r *run, L *LoopInst) {
	e, b := r.e, r.e.w.b
	where := c.loopPos(L)
	fname := r.fn.Name()
	lp := append(append([]*LoopInst(nil), L.outer...), L)
	c.count("loops analysed", 1)
	back := L.back
	if back == bFalse || !e.feasible(back, nil, lp) {
		c.count("loops that never go round", 1)
		return
	}
	if L.exitAny == bFalse || !e.feasible(L.exitAny, nil, lp) {
		c.bad("exit", where, "no exit "+fname, "the loop in %s has no way out", fname)
		return
	}
	k := e.control(L)
	if len(c02iter(L)) == 0 {
		if cex := c.c02stutter(r, L, k, lp); cex != "" {
			c.bad("stutter", where, "stutter "+fname, "a round of the loop in %s can leave everything it depends on unchanged and so repeats for ever: %s", fname, cex)
			return
		}
	}
	if x := c02iter(L); len(x) > 0 {
		c.count("loops over a finite collection", 1)
		return
	}
	// end of the token stream
	tok := false
	for _, ev := range e.events {
		if ev.kind != "ext" || !inLoop(ev, L) || len(ev.loops) != len(lp) || !strings.HasSuffix(ev.name, "html.Tokenizer).Next") {
			continue
		}
		at := ev.res
		s := func(a *Term) (bool, bool) {
			if (a.op == "EQ" || a.op == "LT") && a.args[1].isInt() && a.args[0] == at {
				if a.op == "EQ" {
					return a.args[1].intVal() == 0, true
				}
				return 0 < a.args[1].intVal(), true
			}
			// a string reader ends with io.EOF
			if a.op == "EQ" {
				for _, x := range e.byKind("ext") {
					if strings.HasSuffix(x.name, "html.Tokenizer).Err") && (x.res == a.args[0] || x.res == a.args[1]) {
						return a.args[1].op != "nil" && a.args[0].op != "nil", true
					}
				}
			}
			return false, false
		}
		ends := !e.feasible(b.And(back, ev.cond), s, lp)
		for _, p := range L.phis {
			if ends {
				break
			}
			// looked at in the next round
			for _, a := range e.altsUnder(L.next[p], b.And(back, ev.cond), lp...) {
				if a.t == ev.res {
					at = L.vars[p]
					ends = !e.feasible(back, s, lp)
				}
			}
		}
		if !ends {
			c.bad("exit", where, "end of input "+fname, "the end of the input does not end the loop over the tokens in %s", fname)
			return
		}
		if ok, _ := e.entails(back, ev.cond, nil, lp); ok {
			tok = true
		}
	}
	if tok {
		c.count("loops consuming the input", 1)
		return
	}
	if c.c02counter(r, L, k, lp, where) || c.c02walk(r, L, k, lp, where) || c.c02consume(r, L, k, lp, where) || c.c02bits(r, L, k, lp, where) {
		return
	}
	c.count("loops undecided beyond the stutter rule", 1)
	c.notes = append(c.notes, fmt.Sprintf("%s: loop in %s: no variant recognised (only the stutter and exit rules apply)", where, fname))
}

// c02stutter looks for a path of one round back to the header after which the same path
// is taken again: nothing its conditions read has changed. "" if there is none.
func (c *Ctx) c02stutter(r *run, L *LoopInst, k *ctl, lp []*LoopInst) string {
	e, b := r.e, r.e.w.b
	never := c.missedBound(r, L)
	quiet := L.back
	for _, ev := range e.events {
		if !inLoop(ev, L) || !c.isExtEffect(r, ev) {
			continue
		}
		cond := ev.cond
		for i, l := range ev.loops {
			if l == L && i+1 < len(ev.loops) {
				cond = ev.loops[i+1].entry
			}
		}
		quiet = b.And(quiet, b.Not(cond))
	}
	var starts []int
	for _, p := range L.phis {
		if k.phis[p] {
			if g := e.unchangedWhen(quiet, L.vars[p], L.next[p], lp); g != bFalse {
				starts = append(starts, g)
			}
		}
	}
	for h := range k.heap {
		if nx := e.nextHeap(L, h); nx != nil && (isNodePtr(h) || isInteger(h.typ)) {
			if g := e.unchangedWhen(quiet, h, nx, lp); g != bFalse {
				starts = append(starts, g)
			}
		}
	}
	if len(k.phis) == 0 {
		starts = append(starts, quiet)
	}
	for _, g := range starts {
		n := 0
		bad := ""
		b.cubes(g, func(cube int) bool {
			n++
			if n > 400 {
				return false
			}
			if !e.feasible(cube, nil, lp) {
				return true
			}
			c.count("round paths examined", 1)
			d := e.reads(L, cube)
			x := cube
			if e.condMentions(cube, func(t *Term) bool { return t.op == "call:dyn" }) {
				for cls := range L.memNext { // the function may look at any node
					if strings.HasPrefix(cls, "F:Node.") {
						d.mems[cls] = true
					}
				}
			}
			if c02dbg {
				fmt.Printf("cube %s %.300s\n  reads %d phis %v\n", c.loopPos(L), e.model(cube), len(d.phis), d.mems)
			}
			for p := range d.phis {
				if x != bFalse && !never[p] {
					x = e.unchangedWhen(x, L.vars[p], L.next[p], lp)
				}
			}
			for cls := range d.mems {
				if x == bFalse {
					break
				}
				x = e.memUnchanged(L, cls, x)
			}
			if c02dbg {
				fmt.Println("  changed:", x == bFalse)
			}
			if x == bFalse {
				return true
			}
			if ok, cex := e.entails(x, bFalse, nil, lp); !ok {
				bad = cex
				return false
			}
			return true
		})
		if bad != "" {
			return bad
		}
	}
	return ""
}

// cubes calls f with the paths of a BDD, as BDDs, until it returns false.
func (b *BDD) cubes(g int, f func(cube int) bool) {
	type lit struct {
		v   int
		neg bool
	}
	var path []lit
	var rec func(x int) bool
	rec = func(x int) bool {
		if x == bFalse {
			return true
		}
		if x == bTrue {
			c := bTrue
			for _, l := range path {
				y := b.Var(l.v)
				if l.neg {
					y = b.Not(y)
				}
				c = b.And(c, y)
			}
			return f(c)
		}
		n := b.nodes[x]
		path = append(path, lit{n.v, true})
		if !rec(n.lo) {
			return false
		}
		path[len(path)-1].neg = false
		if !rec(n.hi) {
			return false
		}
		path = path[:len(path)-1]
		return true
	}
	rec(g)
}

// c02iter: the loop is a range over a map or string.
func c02iter(L *LoopInst) []*ssa.Next {
	var out []*ssa.Next
	for _, in := range L.l.header.Instrs {
		if n, ok := in.(*ssa.Next); ok {
			out = append(out, n)
		}
	}
	return out
}

// c02counter: a counter moves towards a bound in every round.
func (c *Ctx) c02counter(r *run, L *LoopInst, k *ctl, lp []*LoopInst, where string) bool {
	e, b := r.e, r.e.w.b
	vals := map[*Term]*Term{} // variable -> next
	for p := range k.phis {
		if isInteger(p.Type()) {
			vals[L.vars[p]] = L.next[p]
		}
	}
	for h := range k.heap {
		if h.typ != nil && isInteger(h.typ) {
			if n := e.nextHeap(L, h); n != nil {
				vals[h] = n
			}
		}
	}
	// candidate measures: comparisons LT(x, y) that hold in one way on every way back
	away := ""
	for v := range b.Support(L.back) {
		a := e.w.atoms[v]
		if a.op != "LT" && a.op != "EQ" {
			continue
		}
		holds := 0
		if ok, _ := e.entails(L.back, b.Var(v), nil, lp); ok {
			holds = 1
		} else if ok, _ := e.entails(L.back, b.Not(b.Var(v)), nil, lp); ok {
			holds = -1
		}
		if holds == 0 {
			continue
		}
		x, y := a.args[0], a.args[1]
		if a.op == "LT" && holds < 0 {
			x, y = y, x // y <= x
		}
		// measure y - x must shrink
		mk, mco := lin(y)
		_ = mk
		_, xco := lin(x)
		for t, n := range xco {
			mco[t] -= n
		}
		ok, dir := true, 0
		var undec bool
		var rec func(ts []*Term, g int, delta int64)
		var ts []*Term
		for t, n := range mco {
			if n == 0 {
				continue
			}
			ts = append(ts, t)
		}
		deltas := []int64{}
		rec = func(ts []*Term, g int, delta int64) {
			if len(ts) == 0 {
				deltas = append(deltas, delta)
				return
			}
			t := ts[0]
			n := mco[t]
			nx, isVar := vals[t]
			if !isVar {
				// invariant, or the length of a list
				if t.op == "len" {
					if d, known := e.lenDelta(L, t.args[0]); known {
						rec(ts[1:], g, delta+n*d)
						return
					}
				}
				if e.mentions(t, func(x *Term) bool { return (x.op == "loopvar" || x.op == "mloop") && x.obj == L }) {
					if t.op == "len" {
						// a list that changes in some way: assumed not to grow for ever
						rec(ts[1:], g, delta)
						return
					}
					undec = true
					return
				}
				rec(ts[1:], g, delta)
				return
			}
			for _, al := range e.linAlts(nx, g, lp) {
				if len(al.co) != 1 || al.co[t] != 1 {
					undec = true
					return
				}
				rec(ts[1:], al.g, delta+n*al.k)
			}
		}
		rec(ts, L.back, 0)
		if c02dbg {
			fmt.Printf("counter %s %.200s holds %d undec %v deltas %v\n", where, e.w.showd(a, 4), holds, undec, deltas)
		}
		if undec || len(deltas) == 0 {
			continue
		}
		for _, d := range deltas {
			if d >= 0 && a.op == "LT" || d == 0 {
				ok = false
			}
			if d > 0 {
				dir++
			}
		}
		if ok {
			c.count("loops with a counter", 1)
			return true
		}
		if dir == len(deltas) && a.op == "LT" {
			away = fmt.Sprintf("the counter of the loop in %s moves away from the bound that ends it: %s", r.fn.Name(), e.w.showd(a, 4))
		}
	}
	// a counter that always moves the same way, compared with a bound at the exit
	for t, nx := range vals {
		sign := int64(0)
		for _, al := range e.linAlts(nx, L.back, lp) {
			d := al.k
			if len(al.co) != 1 || al.co[t] != 1 || d == 0 || sign != 0 && d*sign < 0 {
				sign = 0
				break
			}
			sign = d
		}
		if sign == 0 {
			continue
		}
		for v := range b.Support(L.exitAny) {
			a := e.w.atoms[v]
			if a.op != "LT" {
				continue
			}
			_, x := lin(a.args[0])
			_, y := lin(a.args[1])
			if x[t] != 0 && y[t] == 0 || x[t] == 0 && y[t] != 0 {
				c.count("loops with a counter", 1)
				return true
			}
		}
	}
	if away != "" && len(L.exits) == 1 {
		c.bad("direction", where, "counter "+r.fn.Name(), "%s", away)
		return true
	}
	return false
}

type linAlt struct {
	g  int
	k  int64
	co map[*Term]int64
}

// linAlts: the alternatives of an integer value under g as linear forms.
func (e *Exec) linAlts(t *Term, g int, lp []*LoopInst) []linAlt {
	switch {
	case t.op == "ite":
		var out []linAlt
		for _, a := range e.altsUnder(t, g, lp...) {
			out = append(out, e.linAlts(a.t, a.g, lp)...)
		}
		return out
	case (t.op == "+" || t.op == "op-") && len(t.args) == 2:
		s := int64(1)
		if t.op == "op-" {
			s = -1
		}
		var out []linAlt
		for _, x := range e.linAlts(t.args[0], g, lp) {
			for _, y := range e.linAlts(t.args[1], x.g, lp) {
				co := map[*Term]int64{}
				for k, n := range x.co {
					co[k] += n
				}
				for k, n := range y.co {
					co[k] += s * n
					if co[k] == 0 {
						delete(co, k)
					}
				}
				out = append(out, linAlt{y.g, x.k + s*y.k, co})
			}
		}
		return out
	}
	k, co := lin(t)
	return []linAlt{{g, k, co}}
}

// lenDelta: how the length of a list variable changes in a round, if it is the same on
// all paths.
func (e *Exec) lenDelta(L *LoopInst, list *Term) (int64, bool) {
	if !e.mentions(list, func(x *Term) bool { return (x.op == "loopvar" || x.op == "mloop") && x.obj == L }) {
		return 0, true
	}
	return 0, false
}

// steps of a node walk
type dirSet map[string]bool

// dirOf: the way from v to t along the links of the tree: self, next, down, upnext, up,
// prev, nil or "" (not known).
func (e *Exec) dirOf(t, v *Term, g int, lp []*LoopInst, d int) dirSet {
	out := dirSet{}
	if d > 8 {
		out[""] = true
		return out
	}
	if t == v {
		out["self"] = true
		return out
	}
	step := func(base *Term, s string) {
		if s == "up" {
			// the parent of a node that has taken the place of v
			for _, ev := range e.prims("ReplaceChild") {
				if same(ev.args[1], base) && ev.args[2] == v {
					out["up"] = true
					return
				}
			}
		}
		for x := range e.dirOf(base, v, g, lp, d+1) {
			if x != "nil" {
				out[compose(x, s)] = true
			}
		}
	}
	switch {
	case t.op == "nil":
		out["nil"] = true
	case t.op == "newnode":
		// a new node that takes the place of another one
		for _, ev := range e.prims("ReplaceChild") {
			if ev.args[1] == t {
				for x := range e.dirOf(ev.args[2], v, g, lp, d+1) {
					out[x] = true
				}
			}
		}
		if len(out) == 0 {
			out[""] = true
		}
	case t.op == "ite":
		for _, a := range e.altsUnder(t, g, lp...) {
			for x := range e.dirOf(a.t, v, a.g, lp, d+1) {
				out[x] = true
			}
		}
	case isFld(t, "F:Node.NextSibling") || isFld(t, "F:Node.NextElementSibling") || isFld(t, "F:html.Node.NextSibling"):
		step(t.args[0], "next")
	case isFld(t, "F:Node.PreviousSibling") || isFld(t, "F:Node.PreviousElementSibling") || isFld(t, "F:html.Node.PrevSibling"):
		step(t.args[0], "prev")
	case isFld(t, "F:html.Node.FirstChild") || isFld(t, "F:html.Node.LastChild"):
		step(t.args[0], "down")
	case isFld(t, "F:Node.ParentNode") || isFld(t, "F:html.Node.Parent"):
		step(t.args[0], "up")
	case t.op == "idx" && (isFld(t.args[0], "F:Node.Children") || isFld(t.args[0], "F:Node.ChildNodes")):
		step(t.args[0].args[0], "down")
	case t.op == "loopvar":
		inst, _ := t.obj.(*LoopInst)
		var p *ssa.Phi
		if inst != nil && inst.l != nil {
			p = inst.phiOf(t)
		}
		if p == nil || inst.init[p] == nil || inst.next[p] == nil {
			out[""] = true
			break
		}
		in := e.dirOf(inst.init[p], v, bTrue, nil, d+1)
		l2 := append(append([]*LoopInst(nil), inst.outer...), inst)
		for _, a := range e.altsUnder(inst.next[p], inst.back, l2...) {
			for s := range e.dirOf(a.t, t, a.g, l2, d+1) {
				for x := range in {
					if x != "nil" && s != "nil" {
						out[compose(x, s)] = true
					}
				}
			}
		}
		for x := range in {
			out[x] = true
		}
	default:
		out[""] = true
	}
	return out
}

func compose(x, s string) string {
	if x == "" || s == "" || x == "nil" || s == "nil" {
		return ""
	}
	if s == "self" {
		return x
	}
	if x == "self" {
		return s
	}
	switch x + "." + s {
	case "up.up":
		return "up"
	case "up.next", "upnext.next", "upnext.down", "up.upnext", "upnext.upnext", "next.upnext":
		return "upnext"
	case "next.next":
		return "next"
	case "next.down", "down.down", "down.next":
		return "down"
	case "prev.prev":
		return "prev"
	case "next.up", "prev.up":
		return "up"
	}
	return ""
}

// c02walk: a node variable that moves along the links of the tree.
func (c *Ctx) c02walk(r *run, L *LoopInst, k *ctl, lp []*LoopInst, where string) bool {
	e, b := r.e, r.e.w.b
	type nv struct{ v, next *Term }
	var vs []nv
	for _, p := range L.phis {
		if k.phis[p] && (typeName(p.Type()) == "*Node" || typeName(p.Type()) == "*html.Node") {
			vs = append(vs, nv{L.vars[p], L.next[p]})
		}
	}
	for h := range k.heap {
		if isNodePtr(h) {
			if n := e.nextHeap(L, h); n != nil {
				vs = append(vs, nv{h, n})
			}
		}
	}
	for _, x := range vs {
		ds := dirSet{}
		for _, a := range e.altsUnder(x.next, L.back, lp...) {
			if c02dbg {
				fmt.Printf("  walk %s %.200s %v\n", where, e.w.showd(a.t, 5), e.dirOf(a.t, x.v, a.g, lp, 0))
			}
			g := b.And(a.g, b.Not(e.isNil(a.t)))
			if g == bFalse || !e.feasible(g, nil, lp) {
				continue
			}
			for d := range e.dirOf(a.t, x.v, g, lp, 0) {
				ds[d] = true
			}
		}
		delete(ds, "nil")
		var l []string
		for d := range ds {
			l = append(l, d)
		}
		sort.Strings(l)
		if c02dbg {
			fmt.Println("walk", where, l)
		}
		switch {
		case len(l) == 0:
			c.count("loops that end after one step", 1)
			return true
		case ds[""] || ds["self"]:
			continue
		case len(l) == 1, !ds["up"] && !ds["prev"], !ds["down"] && !ds["prev"] && !ds["next"]:
			c.count("loops walking along the tree", 1)
			return true
		case ds["down"] && ds["up"] || ds["next"] && ds["prev"]:
			// both ways without changing anything else the loop depends on?
			free := map[string]bool{}
			for _, a := range e.altsUnder(x.next, L.back, lp...) {
				g := b.And(a.g, b.Not(e.isNil(a.t)))
				for _, p := range L.phis {
					if k.phis[p] && L.vars[p] != x.v && g != bFalse {
						g = e.unchangedWhen(g, L.vars[p], L.next[p], lp)
					}
				}
				for cls := range k.mems {
					if g != bFalse && !isCellOf(x.v, cls) {
						g = e.memUnchanged(L, cls, g)
					}
				}
				if g == bFalse || !e.feasible(g, nil, lp) {
					continue
				}
				for d := range e.dirOf(a.t, x.v, g, lp, 0) {
					free[d] = true
				}
			}
			if free["down"] && free["up"] || free["next"] && free["prev"] {
				c.bad("direction", where, "walk "+r.fn.Name(), "the walk in %s can go back to a node it came from (steps: %s)", r.fn.Name(), strings.Join(l, ", "))
				return true
			}
		}
	}
	return false
}

func isCellOf(v *Term, cls string) bool { return v.op == "cell" && v.aux == cls }

// c02consume: the loop empties a child list.
func (c *Ctx) c02consume(r *run, L *LoopInst, k *ctl, lp []*LoopInst, where string) bool {
	e, b := r.e, r.e.w.b
	var bases []*Term
	for h := range k.heap {
		if isFld(h, "F:Node.ChildNodes") || isFld(h, "F:Node.Children") {
			bases = append(bases, h.args[0])
		}
	}
	sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
	isBase := func(t *Term) bool {
		for _, x := range bases {
			if same(t, x) {
				return true
			}
		}
		return t.op == "ite" && func() bool {
			for _, a := range t.args {
				in := false
				for _, x := range bases {
					in = in || same(a, x)
				}
				if !in {
					return false
				}
			}
			return true
		}()
	}
	for _, x := range bases {
		childOf := func(t *Term) bool {
			return t.op == "idx" && (isFld(t.args[0], "F:Node.ChildNodes") || isFld(t.args[0], "F:Node.Children")) && isBase(t.args[0].args[0])
		}
		var take, self, lost []*Event
		for _, ev := range e.events {
			if ev.kind != "prim" || !inLoop(ev, L) || len(ev.loops) != len(lp) {
				continue
			}
			switch ev.name {
			case "RemoveChild":
				if e.allAlts(ev.args[1], ev.cond, lp, childOf) {
					z := ev.args[0]
					if z.op == "newnode" && x.op == "newnode" && z != x || z.op == "newnode" && x.op == "param" {
						lost = append(lost, ev)
					} else {
						take = append(take, ev)
					}
				} else if isBase(ev.args[0]) {
					take = append(take, ev)
				}
			case "AppendChild":
				if e.allAlts(ev.args[1], ev.cond, lp, childOf) {
					if isBase(ev.args[0]) {
						self = append(self, ev)
					} else {
						take = append(take, ev)
					}
				}
			case "ReplaceChild":
				if e.allAlts(ev.args[1], ev.cond, lp, childOf) {
					take = append(take, ev)
				}
			}
		}
		if len(take) > 0 {
			if ok, _ := e.entails(L.back, e.orCond(take), nil, lp); ok {
				c.count("loops emptying a child list", 1)
				return true
			}
		}
		for _, ev := range append(self, lost...) {
			if e.feasible(b.And(L.back, b.And(ev.cond, b.Not(e.orCond(take)))), nil, lp) {
				c.bad("direction", where, "consume "+r.fn.Name(), "the loop in %s is to empty a child list but puts the child back into it or takes it from another node (%s)", r.fn.Name(), c.P.instrPos(ev.instr))
				return true
			}
		}
	}
	return false
}

func (e *Exec) allAlts(t *Term, g int, lp []*LoopInst, p func(*Term) bool) bool {
	n := 0
	for _, a := range e.altsUnder(t, g, lp...) {
		if a.t.op == "nil" {
			continue
		}
		if !p(a.t) {
			return false
		}
		n++
	}
	return n > 0
}

// c02bits: the loop is governed by a bit field.
func (c *Ctx) c02bits(r *run, L *LoopInst, k *ctl, lp []*LoopInst, where string) bool {
	e := r.e
	for h := range k.heap {
		if h.op != "fld" || h.typ == nil || !isInteger(h.typ) {
			continue
		}
		cls := h.aux
		var mask int64
		for v := range e.w.b.Support(L.back) {
			e.mentions(e.w.atoms[v], func(t *Term) bool {
				if t.op == "band" && isFld(t.args[0], cls) && t.args[1].isInt() {
					mask |= t.args[1].intVal()
				}
				return false
			})
		}
		if mask <= 0 || mask > 255 {
			continue
		}
		fv := e.nextHeap(L, h)
		if fv == nil {
			continue
		}
		m := h.args[1]
		succ := map[int64][]int64{}
		decided := true
		for val := int64(0); val <= mask; val++ {
			if val&^mask != 0 {
				continue
			}
			s := flagScen(cls, val, m)
			bk := e.assume(L.back, s)
			if !e.feasible(bk, nil, lp) {
				continue
			}
			c.count("values of the bit field tried", 1)
			for _, x := range e.altsUnder(fv, bk, lp...) {
				g := e.assume(x.g, s)
				if !e.feasible(g, nil, lp) {
					continue
				}
				got, ok := e.evalFlags(x.t, cls, val, g, L)
				if !ok {
					decided = false
					continue
				}
				succ[val] = append(succ[val], got)
			}
		}
		// a cycle?
		state := map[int64]int{}
		var cyc []int64
		var dfs func(v int64, path []int64) bool
		dfs = func(v int64, path []int64) bool {
			state[v] = 1
			path = append(path, v)
			for _, n := range succ[v] {
				if state[n] == 1 {
					cyc = append(path, n)
					return true
				}
				if state[n] == 0 && dfs(n, path) {
					return true
				}
			}
			state[v] = 2
			return false
		}
		for val := range succ {
			if state[val] == 0 && dfs(val, nil) {
				c.bad("bits", where, "bits "+r.fn.Name(), "the loop in %s can come back to bits it had before: %v", r.fn.Name(), cyc)
				return true
			}
		}
		if decided && len(succ) > 0 {
			c.count("loops governed by a bit field", 1)
			return true
		}
	}
	return false
}

// c02rec: recursive calls.
func (c *Ctx) c02rec(r *run, f *ssa.Function) {
	e := r.e
	type call struct {
		ev   *Event
		args []*Term
	}
	var calls []call
	for _, ev := range e.events {
		if ev.kind == "rec" && ev.name == f.String() {
			calls = append(calls, call{ev, ev.args})
		}
		if ev.kind == "dyn" && ev.args[0].op == "deref" && ev.args[0].args[0].op == "freevar" && c.closureSelf(f, ev.args[0].args[0]) {
			calls = append(calls, call{ev, ev.args[1:]})
		}
	}
	for _, cl := range calls {
		ev := cl.ev
		c.count("recursive calls analysed", 1)
		if len(cl.args) != len(r.arg) {
			continue
		}
		progress, known, why := false, true, []string{}
		for i, a := range cl.args {
			v := r.arg[i]
			if a == v {
				continue
			}
			if isNodePtr(v) || typeName(v.typ) == "*html.Node" {
				for d := range e.dirOf(a, v, ev.cond, ev.loops, 0) {
					why = append(why, d)
					switch d {
					case "self":
					case "":
						known = false
					default:
						progress = true
					}
				}
				continue
			}
			progress = true
		}
		stay := ev.cond
		for i, a := range cl.args {
			if stay != bFalse {
				stay = e.unchangedWhen(stay, r.arg[i], a, ev.loops)
			}
		}
		// anything done before the call?
		before := false
		for _, x := range e.events {
			if x.seq < ev.seq && (isMutation(x) || c.isExtEffect(r, x) || x.kind == "store" || x.kind == "mapupd" || x.kind == "rec") && e.feasible(e.w.b.And(x.cond, stay), nil, x.loops) {
				before = true
			}
		}
		if stay != bFalse && !before && e.feasible(stay, nil, ev.loops) {
			c.bad("recursion", c.P.instrPos(ev.instr), "rec "+f.Name(), "%s calls itself with the arguments it was given, before anything has changed", f.Name())
			continue
		}
		for _, x := range e.events {
			if x.kind == "ext" && x.seq < ev.seq && strings.HasSuffix(x.name, "html.Tokenizer).Next") {
				if ok, _ := e.entails(ev.cond, x.cond, nil, ev.loops); ok {
					progress, known = true, true
				}
			}
		}
		if progress && known {
			c.count("recursive calls that descend", 1)
		} else {
			c.notes = append(c.notes, fmt.Sprintf("%s: recursive call in %s: %v", c.P.instrPos(ev.instr), f.Name(), why))
		}
	}
}

// closureSelf: the free variable of closure f holds f itself.
func (c *Ctx) closureSelf(f *ssa.Function, fv *Term) bool {
	p := f.Parent()
	if p == nil {
		return false
	}
	for _, b := range p.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			mc, ok := st.Val.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			for i, x := range mc.Bindings {
				if x == st.Addr && i < len(f.FreeVars) && f.FreeVars[i].Name() == fv.aux {
					return true
				}
			}
		}
	}
	return false
}
