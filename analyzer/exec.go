package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the abstract state at a program point: the condition under which it is
// reached, the memory (one gated store term per memory class) and the values of
// registers defined in unrolled loops.
type State struct {
	cond int
	mem  map[string]*Term
	loc  map[ssa.Value]*Term
}

func (s *State) clone() *State {
	n := &State{cond: s.cond, mem: make(map[string]*Term, len(s.mem))}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	if len(s.loc) > 0 {
		n.loc = make(map[ssa.Value]*Term, len(s.loc))
		for k, v := range s.loc {
			n.loc[k] = v
		}
	}
	return n
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// Activation is one (inlined) activation of a function.
type Activation struct {
	id     int
	fn     *ssa.Function
	parent *Activation
	site   ssa.Instruction
	args   []*Term
	env    map[ssa.Value]*Term
	loops  []*LoopInst // loops enclosing the call
	rets   []retRec
	cond   int
	seq0   int
	seq1   int
}

type retRec struct {
	st    *State
	val   *Term
	instr ssa.Instruction
}

// LoopInst is the abstraction of one loop in one context: an arbitrary (for the values
// after the loop: the last) iteration.
type LoopInst struct {
	id       int
	l        *loop
	act      *Activation
	outer    []*LoopInst
	entry    int // condition of entering the loop
	phis     []*ssa.Phi
	vars     map[*ssa.Phi]*Term
	init     map[*ssa.Phi]*Term
	next     map[*ssa.Phi]*Term
	memInit  map[string]*Term
	memNext  map[string]*Term
	back     int // condition of taking the back edge
	exits    []loopExit
	exitAny  int // disjunction of the exit conditions (the last iteration takes one)
	seq0     int
	seq1     int
	external string // "slices.ContainsFunc" ... for modelled library iteration
	tid      int
	coll     *Term // collection iterated by a modelled library iteration
}

type loopExit struct {
	cond     int
	from, to *ssa.BasicBlock
	ret      bool
}

// Event is something observable that happens at a program point in a context.
type Event struct {
	seq   int
	kind  string // prim, store, mapupd, ext, dyn, rec, ret, panic, exit, ob, send
	name  string
	args  []*Term
	res   *Term
	cond  int
	loops []*LoopInst
	act   *Activation
	instr ssa.Instruction
	aux   string
	tid   int // terms made before have smaller numbers
}

type Exec struct {
	P       *Program
	w       *World
	events  []*Event
	seq     int
	act     *Activation
	loops   []*LoopInst
	again   int // loops analysed once more
	allLoop []*LoopInst
	actID   int
	loopID  int
	obl     bool // record panic obligations
	globals map[string]*Term
	cellCls map[int]string
	steps   int
	acts    []*Activation
	inits   bool
	live    []*Term
	liveN   int
	summ    map[*ssa.Function]string // functions with a verified summary
	noPrim  map[*ssa.Function]bool   // functions to execute although they are primitives
	final   *State
	loadMem map[[2]int]*Term
	unroll  bool
	cur     ssa.Instruction
	strCmp  func(a, b *Term) // told of comparisons of strings
	opaque  bool             // the library is not looked into (analysis of its callers)
	flagMem map[string]bool  // globals bound to command line flags
	flagTid int
	extra   int // additional assumption conjoined to every query
}

func newExec(P *Program, w *World) *Exec {
	return &Exec{P: P, w: w, globals: map[string]*Term{}, cellCls: map[int]string{}, noPrim: map[*ssa.Function]bool{}, loadMem: map[[2]int]*Term{}, unroll: true, extra: bTrue}
}

type analysisError struct{ msg string }

func (e *Exec) fail(format string, a ...any) { panic(analysisError{fmt.Sprintf(format, a...)}) }

// memory ------------------------------------------------------------------------------

func (e *Exec) mem(st *State, cls string) *Term {
	if m, ok := st.mem[cls]; ok {
		return m
	}
	return e.w.mk("mem0", cls)
}

func distinctAddr(a, b *Term) bool {
	if a == b {
		return false
	}
	fresh := func(t *Term) bool { return t.op == "new" || t.op == "newnode" || t.op == "makemap" }
	if fresh(a) && fresh(b) {
		return true
	}
	if fresh(a) && (b.op == "param" || b.op == "gaddr" || b.op == "nil") || fresh(b) && (a.op == "param" || a.op == "gaddr" || a.op == "nil") {
		return true
	}
	// a variable of a loop begun before the allocation does not hold the new object
	if fresh(a) && b.op == "loopvar" && b.id < a.id || fresh(b) && a.op == "loopvar" && a.id < b.id {
		return true
	}
	if a.op == "pair" && b.op == "pair" {
		if distinctAddr(a.args[0], b.args[0]) {
			return true
		}
		return a.args[1].isConst() && b.args[1].isConst() && a.args[1] != b.args[1]
	}
	if a.op == "iaddr" && b.op == "iaddr" {
		if distinctAddr(a.args[0], b.args[0]) {
			return true
		}
		return a.args[0] == b.args[0] && a.args[1].isInt() && b.args[1].isInt() && a.args[1] != b.args[1]
	}
	if a.op == "faddr" && b.op == "faddr" {
		return distinctAddr(a.args[0], b.args[0])
	}
	return false
}

func (e *Exec) loadFrom(mem, key *Term, opaque func(mem *Term) *Term) *Term {
	k := [2]int{mem.id, key.id}
	if t, ok := e.loadMem[k]; ok {
		return t
	}
	var r *Term
	m := mem
	for {
		if m.op == "mstore" {
			if m.args[1] == key {
				r = m.args[2]
				break
			}
			if distinctAddr(m.args[1], key) {
				m = m.args[0]
				continue
			}
			r = opaque(m)
			break
		}
		if m.op == "mite" {
			var as []*Term
			for _, a := range m.args {
				as = append(as, e.loadFrom(a, key, opaque))
			}
			if sameButMem(as) {
				r = opaque(m)
				break
			}
			r = e.w.ite(m.bs, as)
			break
		}
		r = opaque(m)
		break
	}
	e.loadMem[k] = r
	return r
}

func isMem(t *Term) bool {
	switch t.op {
	case "mem0", "mstore", "mhavoc", "mloop", "mite":
		return true
	}
	return false
}

// sameButMem: all terms are the same opaque load, from different versions of the memory.
func sameButMem(as []*Term) bool {
	if len(as) < 2 {
		return false
	}
	f := as[0]
	if len(f.args) == 0 || !isMem(f.args[len(f.args)-1]) || f.op == "ite" {
		return false
	}
	for _, a := range as[1:] {
		if a.op != f.op || a.aux != f.aux || len(a.args) != len(f.args) {
			return false
		}
		for i := range a.args {
			if a.args[i] != f.args[i] && !(isMem(a.args[i]) && isMem(f.args[i])) {
				return false
			}
		}
	}
	return true
}

func (e *Exec) store(st *State, cls string, key, val *Term) {
	st.mem[cls] = e.w.mk("mstore", "", e.mem(st, cls), key, val)
}

func (e *Exec) havoc(st *State, cls string, why string) {
	st.mem[cls] = e.w.freshTerm("mhavoc", cls+"@"+why)
}

// havocEff forgets everything the effect set may write.
func (e *Exec) havocEff(st *State, eff map[string]bool, why string) {
	for c := range eff {
		e.havoc(st, c, why)
	}
}

func (e *Exec) val(t *Term, typ types.Type) *Term {
	if t.typ == nil && t.op != "bool" {
		t.typ = typ
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 && t.op != "bool" {
		return e.w.bool(e.w.asBool(t))
	}
	return t
}

func (e *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return e.w.str("")
		case u.Info()&types.IsBoolean != 0:
			return e.w.fls()
		case u.Info()&types.IsInteger != 0:
			return e.w.int(0)
		case u.Info()&types.IsFloat != 0:
			return e.w.mk("float", "0")
		}
		return e.w.nilT()
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, e.zero(u.Field(i).Type()))
		}
		return e.w.mk("structv", typeName(t), fs...)
	case *types.Array:
		return e.w.mk("zeroarr", typeName(t))
	}
	return e.w.nilT()
}

// loadAddr reads the value of type typ at addr.
func (e *Exec) loadAddr(st *State, addr *Term, typ types.Type) *Term {
	if addr.op == "ite" && len(addr.args) <= 16 {
		var as []*Term
		for _, a := range addr.args {
			as = append(as, e.loadAddr(st, a, typ))
		}
		return e.w.ite(addr.bs, as)
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			cls := "F:" + typeName(typ) + "." + s.Field(i).Name()
			fs = append(fs, e.loadField(st, cls, addr, s.Field(i).Type()))
		}
		return e.w.mk("structv", typeName(typ), fs...)
	}
	switch addr.op {
	case "faddr":
		return e.loadField(st, addr.aux, addr.args[0], typ)
	case "iaddr":
		return e.loadElem(st, addr.args[0], addr.args[1], typ)
	case "gaddr":
		cls := "G:" + addr.aux
		if _, ok := st.mem[cls]; !ok {
			if g, ok := e.globals[addr.aux]; ok {
				return e.val(g, typ)
			}
		}
		t := e.loadFrom(e.mem(st, cls), addr, func(m *Term) *Term { return e.w.mk("gload", addr.aux, m) })
		return e.val(t, typ)
	case "new":
		cls := e.cellCls[addr.id]
		t := e.loadFrom(e.mem(st, cls), addr, func(m *Term) *Term { return e.w.mk("cell", cls, addr, m) })
		return e.val(t, typ)
	}
	cls := "P:" + typeName(typ)
	t := e.loadFrom(e.mem(st, cls), addr, func(m *Term) *Term { return e.w.mk("deref", cls, addr, m) })
	return e.val(t, typ)
}

func (e *Exec) loadField(st *State, cls string, obj *Term, typ types.Type) *Term {
	if obj.op == "ite" && len(obj.args) <= 16 {
		var as []*Term
		for _, a := range obj.args {
			as = append(as, e.loadField(st, cls, a, typ))
		}
		return e.w.ite(obj.bs, as)
	}
	// back pointer of the style object of a node (established by its only constructor)
	if obj.op == "fld" && obj.aux == "F:Node.style" && strings.HasPrefix(cls, "F:style.") && typeName(typ) == "*Node" {
		return obj.args[0]
	}
	t := e.loadFrom(e.mem(st, cls), obj, func(m *Term) *Term { return e.w.mk("fld", cls, obj, m) })
	return e.val(t, typ)
}

func (e *Exec) loadElem(st *State, sl, idx *Term, typ types.Type) *Term {
	if sl.op == "ite" && len(sl.args) <= 16 {
		var as []*Term
		for _, a := range sl.args {
			as = append(as, e.loadElem(st, a, idx, typ))
		}
		return e.w.ite(sl.bs, as)
	}
	if idx.op == "ite" && len(idx.args) <= 16 && sl.op == "slicelit" {
		var as []*Term
		for _, a := range idx.args {
			as = append(as, e.loadElem(st, sl, a, typ))
		}
		return e.w.ite(idx.bs, as)
	}
	if idx.isInt() {
		switch sl.op {
		case "slicelit":
			if i := idx.intVal(); i >= 0 && int(i) < len(sl.args) {
				return e.val(sl.args[i], typ)
			}
		}
	}
	cls := "E:" + typeName(typ)
	key := e.w.mk("iaddr", "", sl, idx)
	t := e.loadFrom(e.mem(st, cls), key, func(m *Term) *Term {
		// elements of an append at a constant index
		if idx.isInt() && sl.op == "append" && len(sl.args) > 0 && sl.args[0].op == "slicelit" && int(idx.intVal()) < len(sl.args[0].args) {
			return sl.args[0].args[idx.intVal()]
		}
		return e.w.mk("idx", cls, sl, idx, m)
	})
	return e.val(t, typ)
}

// sfield is a field of a struct value.
func (e *Exec) sfield(val *Term, cls string, i int, typ types.Type) *Term {
	if val.op == "structv" && i < len(val.args) {
		return val.args[i]
	}
	if val.op == "ite" && len(val.args) <= 16 {
		var as []*Term
		for _, a := range val.args {
			as = append(as, e.sfield(a, cls, i, typ))
		}
		return e.w.ite(val.bs, as)
	}
	return e.val(e.w.mk("sfield", cls, val), typ)
}

func (e *Exec) storeAddr(st *State, addr, val *Term, typ types.Type) string {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			cls := "F:" + typeName(typ) + "." + s.Field(i).Name()
			var fv *Term
			fv = e.sfield(val, cls, i, s.Field(i).Type())
			if addr.op == "new" && e.cellCls[addr.id] != "" {
				// plain local struct
			}
			e.store(st, cls, addr, fv)
		}
		return "F:" + typeName(typ)
	}
	if _, ok := typ.Underlying().(*types.Array); ok && val.op == "zeroarr" {
		return ""
	}
	var cls string
	var key *Term
	switch addr.op {
	case "faddr":
		cls, key = addr.aux, addr.args[0]
	case "iaddr":
		cls, key = "E:"+typeName(typ), addr
	case "gaddr":
		cls, key = "G:"+addr.aux, addr
	case "new":
		cls, key = e.cellCls[addr.id], addr
	default:
		cls, key = "P:"+typeName(typ), addr
	}
	e.store(st, cls, key, val)
	return cls
}

// values ------------------------------------------------------------------------------

func (e *Exec) get(st *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constTerm(v)
	case *ssa.Function:
		t := e.w.mk("fn", v.String())
		t.obj = v
		return t
	case *ssa.Global:
		return e.w.mk("gaddr", v.String())
	case *ssa.Builtin:
		return e.w.mk("builtin", v.Name())
	}
	if st.loc != nil {
		if t, ok := st.loc[v]; ok {
			return t
		}
	}
	if t, ok := e.act.env[v]; ok {
		return t
	}
	// value of a path not taken (e.g. phi edge with false condition)
	return e.w.mk("undef", "")
}

func (e *Exec) constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Basic, *types.Struct:
			return e.zero(c.Type())
		}
		return e.w.nilT()
	}
	switch c.Value.Kind() {
	case constant.String:
		return e.w.str(constant.StringVal(c.Value))
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return e.w.tru()
		}
		return e.w.fls()
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return e.w.mk("float", c.Value.ExactString())
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return e.w.int(i)
		}
		return e.w.mk("bigint", c.Value.ExactString())
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return e.w.mk("float", fmt.Sprintf("%g", f))
	}
	return e.w.mk("const", c.String())
}

func (e *Exec) set(st *State, v ssa.Value, t *Term) {
	if _, isTuple := v.Type().(*types.Tuple); !isTuple {
		t = e.val(t, v.Type())
	}
	if st.loc != nil {
		delete(st.loc, v)
	}
	e.act.env[v] = t
}

func (e *Exec) emit(ev *Event, st *State) *Event {
	e.seq++
	ev.seq = e.seq
	ev.cond = st.cond
	ev.tid = len(e.w.list)
	ev.act = e.act
	ev.loops = append([]*LoopInst(nil), e.loops...)
	e.events = append(e.events, ev)
	return ev
}

// ob records a potential run-time panic.
func (e *Exec) ob(kind string, st *State, in ssa.Instruction, args ...*Term) {
	if !e.obl || st.cond == bFalse {
		return
	}
	e.emit(&Event{kind: "ob", name: kind, args: args, instr: in}, st)
}

// merging -----------------------------------------------------------------------------

func (e *Exec) mergeStates(sts []*State) (*State, []int) {
	if len(sts) == 1 {
		return sts[0].clone(), []int{bTrue}
	}
	tot := bFalse
	for _, s := range sts {
		tot = e.w.b.Or(tot, s.cond)
	}
	var rel []int
	for _, s := range sts {
		rel = append(rel, e.w.b.Constrain(s.cond, tot))
	}
	n := &State{cond: tot, mem: map[string]*Term{}}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		first := e.mem(sts[0], k)
		same := true
		for _, s := range sts[1:] {
			if e.mem(s, k) != first {
				same = false
			}
		}
		if same {
			n.mem[k] = first
			continue
		}
		n.mem[k] = e.mite(rel, sts, k)
	}
	for _, s := range sts {
		for v := range s.loc {
			if n.loc == nil {
				n.loc = map[ssa.Value]*Term{}
			}
			if _, ok := n.loc[v]; ok {
				continue
			}
			var as []*Term
			for _, x := range sts {
				if t, ok := x.loc[v]; ok {
					as = append(as, t)
				} else if t, ok := e.act.env[v]; ok {
					as = append(as, t)
				} else {
					as = append(as, e.w.mk("undef", ""))
				}
			}
			n.loc[v] = e.w.ite(rel, as)
		}
	}
	return n, rel
}

func (e *Exec) mite(rel []int, sts []*State, k string) *Term {
	type ca struct {
		c int
		m *Term
	}
	var l []ca
	idx := map[*Term]int{}
	add := func(c int, m *Term) {
		if c == bFalse {
			return
		}
		if i, ok := idx[m]; ok {
			l[i].c = e.w.b.Or(l[i].c, c)
			return
		}
		idx[m] = len(l)
		l = append(l, ca{c, m})
	}
	for i, s := range sts {
		add(rel[i], e.mem(s, k))
	}
	if len(l) == 1 {
		return l[0].m
	}
	if len(l) == 0 {
		return e.mem(sts[0], k)
	}
	var cs []int
	var ms []*Term
	for _, x := range l {
		cs = append(cs, x.c)
		ms = append(ms, x.m)
	}
	return e.w.mkb("mite", k, cs, ms...)
}

// functions ---------------------------------------------------------------------------

func (e *Exec) onStack(f *ssa.Function) bool {
	for a := e.act; a != nil; a = a.parent {
		if a.fn == f {
			return true
		}
	}
	return false
}

// run executes f on args from state st and returns the merged result.
func (e *Exec) run(f *ssa.Function, args, bindings []*Term, st *State, site ssa.Instruction) (*Term, *State) {
	e.actID++
	a := &Activation{id: e.actID, fn: f, parent: e.act, site: site, args: args, env: map[ssa.Value]*Term{}, loops: append([]*LoopInst(nil), e.loops...), cond: st.cond, seq0: e.seq}
	e.acts = append(e.acts, a)
	for i, p := range f.Params {
		if i < len(args) {
			a.env[p] = e.val(args[i], p.Type())
		}
	}
	for i, fv := range f.FreeVars {
		if i < len(bindings) {
			a.env[fv] = bindings[i]
		}
	}
	saved := e.act
	e.act = a
	in := st.clone()
	in.loc = nil
	e.runRegion(f, nil, f.Blocks[0], []edge{{nil, f.Blocks[0], in}})
	e.act = saved
	a.seq1 = e.seq
	if len(a.rets) == 0 {
		return e.w.mk("undef", ""), nil
	}
	var sts []*State
	for _, r := range a.rets {
		r.st.loc = nil
		sts = append(sts, r.st)
	}
	out, rel := e.mergeStates(sts)
	out.loc = st.loc
	var vals []*Term
	n := 0
	for _, r := range a.rets {
		vals = append(vals, r.val)
		if r.val.op == "tuple" && len(r.val.args) > n {
			n = len(r.val.args)
		}
	}
	if f.Signature.Results().Len() > 1 {
		var parts []*Term
		for i := 0; i < f.Signature.Results().Len(); i++ {
			var as []*Term
			for _, v := range vals {
				as = append(as, v.args[i])
			}
			parts = append(parts, e.w.ite(rel, as))
		}
		return e.w.mk("tuple", "", parts...), out
	}
	return e.w.ite(rel, vals), out
}

// runRegion executes the blocks of a region (nil loop: the whole function) from header and
// returns the edges leaving the region and the edges back to its header.
func (e *Exec) runRegion(f *ssa.Function, l *loop, header *ssa.BasicBlock, ins []edge) (exits, backs []edge) {
	li := e.P.loopsOf(f)
	pending := map[*ssa.BasicBlock][]edge{header: ins}
	deliver := func(ed edge) {
		if ed.st == nil || ed.st.cond == bFalse {
			return
		}
		if l != nil {
			if ed.to == header {
				backs = append(backs, ed)
				return
			}
			if !l.blocks[ed.to] {
				exits = append(exits, ed)
				return
			}
		}
		pending[ed.to] = append(pending[ed.to], ed)
	}
	for _, b := range e.P.order(f) {
		if l != nil && !l.blocks[b] {
			continue
		}
		in := pending[b]
		if len(in) == 0 {
			continue
		}
		if inner := li.byHeader[b]; inner != nil && (l == nil || b != header) {
			for _, ed := range e.runLoop(f, inner, in) {
				deliver(ed)
			}
			continue
		}
		var sts []*State
		for _, ed := range in {
			sts = append(sts, ed.st)
		}
		st, rel := e.mergeStates(sts)
		if !(l != nil && b == header) {
			e.phis(b, st, in, rel)
		}
		for _, ed := range e.execBlock(b, st) {
			deliver(ed)
		}
	}
	return
}

func (e *Exec) phiVals(b *ssa.BasicBlock, in []edge, rel []int) map[*ssa.Phi]*Term {
	m := map[*ssa.Phi]*Term{}
	for _, instr := range b.Instrs {
		p, ok := instr.(*ssa.Phi)
		if !ok {
			break
		}
		var as []*Term
		for _, ed := range in {
			k := -1
			for i, pr := range b.Preds {
				if pr == ed.from {
					k = i
				}
			}
			if k < 0 {
				as = append(as, e.w.mk("undef", ""))
				continue
			}
			as = append(as, e.get(ed.st, p.Edges[k]))
		}
		m[p] = e.w.ite(rel, as)
	}
	return m
}

func (e *Exec) phis(b *ssa.BasicBlock, st *State, in []edge, rel []int) {
	m := e.phiVals(b, in, rel)
	for p, t := range m {
		e.set(st, p, t)
	}
}

const maxUnroll = 96

// constHeader evaluates the exit test of a loop header with the given phi values, if the
// header is free of effects, and reports whether it folds to a constant.
func (e *Exec) constHeader(l *loop, st *State, phis map[*ssa.Phi]*Term) (val, ok bool) {
	h := l.header
	ifi, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf || l.blocks[h.Succs[0]] == l.blocks[h.Succs[1]] {
		return false, false
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.UnOp:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
				return false, false
			}
		default:
			return false, false
		}
	}
	tmp := st.clone()
	for p, t := range phis {
		e.set(tmp, p, t)
	}
	savedObl := e.obl
	e.obl = false
	for _, in := range h.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.DebugRef:
		default:
			e.execInstr(in, tmp)
		}
	}
	e.obl = savedObl
	c := e.w.asBool(e.get(tmp, ifi.Cond))
	if c == bTrue || c == bFalse {
		return c == bTrue, true
	}
	return false, false
}

func (e *Exec) runLoop(f *ssa.Function, l *loop, ins []edge) []edge {
	var sts []*State
	for _, ed := range ins {
		sts = append(sts, ed.st)
	}
	st0, rel := e.mergeStates(sts)
	init := e.phiVals(l.header, ins, rel)

	if e.unroll {
		if _, ok := e.constHeader(l, st0, init); ok {
			if res, ok := e.unrollLoop(f, l, st0, init); ok {
				return res
			}
		}
	}
	// abstract iteration
	eff := e.P.loopEff(f, l)
	fixedMem := map[string]bool{}
	fixedPhi := map[*ssa.Phi]bool{}
	for try := 0; ; try++ {
		e.loopID++
		inst := &LoopInst{tid: len(e.w.list), id: e.loopID, l: l, act: e.act, outer: append([]*LoopInst(nil), e.loops...), entry: st0.cond,
			vars: map[*ssa.Phi]*Term{}, init: init, next: map[*ssa.Phi]*Term{}, memInit: map[string]*Term{}, memNext: map[string]*Term{}, seq0: e.seq}
		nEv, nAct, nLoop, seq := len(e.events), len(e.acts), len(e.allLoop), e.seq
		st := st0.clone()
		for _, in := range l.header.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			inst.phis = append(inst.phis, p)
			if fixedPhi[p] {
				e.set(st, p, init[p])
				inst.vars[p] = init[p]
				continue
			}
			t := e.w.mk("loopvar", fmt.Sprintf("%d:%s", inst.id, p.Name()))
			t.obj = inst
			t.typ = p.Type()
			inst.vars[p] = t
			e.set(st, p, t)
		}
		for c := range eff {
			if fixedMem[c] {
				continue
			}
			inst.memInit[c] = e.mem(st, c)
			m := e.w.mk("mloop", fmt.Sprintf("%d:%s", inst.id, c))
			m.obj = inst
			st.mem[c] = m
		}
		e.allLoop = append(e.allLoop, inst)
		e.loops = append(e.loops, inst)
		rets0 := len(e.act.rets)
		exits, backs := e.runRegion(f, l, l.header, []edge{{nil, l.header, st}})
		e.loops = e.loops[:len(e.loops)-1]
		inst.seq1 = e.seq
		// what does the body really change?
		again := false
		if len(backs) > 0 {
			var bs []*State
			for _, b := range backs {
				bs = append(bs, b.st)
			}
			bst, brel := e.mergeStates(bs)
			inst.back = bst.cond
			inst.next = e.phiVals(l.header, backs, brel)
			for c := range eff {
				if fixedMem[c] {
					continue
				}
				inst.memNext[c] = e.mem(bst, c)
				if e.mem(bst, c) == e.w.mk("mloop", fmt.Sprintf("%d:%s", inst.id, c)) {
					fixedMem[c] = true
					again = true
				}
			}
			for _, p := range inst.phis {
				if !fixedPhi[p] && (inst.next[p] == inst.vars[p] || e.boolInvariant(inst, p)) {
					fixedPhi[p] = true
					again = true
				}
			}
		} else {
			// the body never iterates
			for c := range eff {
				if !fixedMem[c] {
					fixedMem[c] = true
					again = true
				}
			}
			for _, p := range inst.phis {
				if !fixedPhi[p] {
					fixedPhi[p] = true
					again = true
				}
			}
		}
		if again && try < 4 {
			e.again++
			e.events = e.events[:nEv]
			e.acts = e.acts[:nAct]
			e.allLoop = e.allLoop[:nLoop]
			e.act.rets = e.act.rets[:rets0]
			e.seq = seq
			continue
		}
		any := bFalse
		for _, x := range exits {
			inst.exits = append(inst.exits, loopExit{x.st.cond, x.from, x.to, false})
			any = e.w.b.Or(any, x.st.cond)
		}
		for _, r := range e.act.rets[rets0:] {
			inst.exits = append(inst.exits, loopExit{r.st.cond, r.instr.Block(), nil, true})
			any = e.w.b.Or(any, r.st.cond)
		}
		inst.exitAny = any
		// The values after the loop are those of its last round, which takes one of the
		// exits: conditions are kept relative to that (exitAny is available as a
		// hypothesis to every query).
		if any != bFalse {
			for i := range exits {
				exits[i].st.cond = e.w.b.And(st0.cond, e.w.b.Constrain(exits[i].st.cond, any))
			}
			for _, r := range e.act.rets[rets0:] {
				r.st.cond = e.w.b.And(st0.cond, e.w.b.Constrain(r.st.cond, any))
			}
		}
		return exits
	}
}

// boolInvariant: a boolean that starts with a constant and has that value again whenever
// another round begins.
func (e *Exec) boolInvariant(inst *LoopInst, p *ssa.Phi) bool {
	t, ok := p.Type().Underlying().(*types.Basic)
	if !ok || t.Info()&types.IsBoolean == 0 || inst.init[p] == nil || inst.next[p] == nil {
		return false
	}
	b := e.w.b
	switch e.w.asBool(inst.init[p]) {
	case bFalse:
		return b.And(inst.back, e.w.asBool(inst.next[p])) == bFalse
	case bTrue:
		return b.And(inst.back, b.Not(e.w.asBool(inst.next[p]))) == bFalse
	}
	return false
}

func (e *Exec) unrollLoop(f *ssa.Function, l *loop, st0 *State, init map[*ssa.Phi]*Term) ([]edge, bool) {
	nEv, nAct, nLoop, seq, rets0 := len(e.events), len(e.acts), len(e.allLoop), e.seq, len(e.act.rets)
	var all []edge
	st := st0
	phis := init
	for it := 0; ; it++ {
		if it > maxUnroll {
			e.events, e.acts, e.allLoop, e.seq = e.events[:nEv], e.acts[:nAct], e.allLoop[:nLoop], seq
			e.act.rets = e.act.rets[:rets0]
			return nil, false
		}
		cur := st.clone()
		for p, t := range phis {
			e.set(cur, p, t)
		}
		if _, ok := e.constHeader(l, cur, phis); !ok {
			e.events, e.acts, e.allLoop, e.seq = e.events[:nEv], e.acts[:nAct], e.allLoop[:nLoop], seq
			e.act.rets = e.act.rets[:rets0]
			return nil, false
		}
		exits, backs := e.runRegion(f, l, l.header, []edge{{nil, l.header, cur}})
		for _, x := range exits {
			if x.st.loc == nil {
				x.st.loc = map[ssa.Value]*Term{}
			}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if v, ok := in.(ssa.Value); ok {
						if _, have := x.st.loc[v]; have {
							continue
						}
						if t, ok := e.act.env[v]; ok {
							x.st.loc[v] = t
						}
					}
				}
			}
			all = append(all, x)
		}
		if len(backs) == 0 {
			break
		}
		var bs []*State
		for _, b := range backs {
			bs = append(bs, b.st)
		}
		var brel []int
		st, brel = e.mergeStates(bs)
		phis = e.phiVals(l.header, backs, brel)
	}
	// one edge per CFG edge
	type key struct{ f, t *ssa.BasicBlock }
	groups := map[key][]*State{}
	var ks []key
	for _, x := range all {
		k := key{x.from, x.to}
		if _, ok := groups[k]; !ok {
			ks = append(ks, k)
		}
		groups[k] = append(groups[k], x.st)
	}
	var out []edge
	for _, k := range ks {
		s, _ := e.mergeStates(groups[k])
		out = append(out, edge{k.f, k.t, s})
	}
	return out, true
}

// instructions ------------------------------------------------------------------------

func (e *Exec) execBlock(b *ssa.BasicBlock, st *State) []edge {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		e.steps++
		switch in := in.(type) {
		case *ssa.If:
			c := e.w.asBool(e.get(st, in.Cond))
			t := st.clone()
			t.cond = e.w.b.And(st.cond, c)
			n := st
			n.cond = e.w.b.And(st.cond, e.w.b.Not(c))
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], n}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []*Term
			for _, r := range in.Results {
				vs = append(vs, e.get(st, r))
			}
			var v *Term
			if len(vs) == 1 {
				v = vs[0]
			} else {
				v = e.w.mk("tuple", "", vs...)
			}
			e.emit(&Event{kind: "ret", name: e.act.fn.Name(), args: vs, instr: in}, st)
			e.act.rets = append(e.act.rets, retRec{st, v, in})
			return nil
		case *ssa.Panic:
			e.emit(&Event{kind: "panic", name: "panic", args: []*Term{e.get(st, in.X)}, instr: in}, st)
			return nil
		default:
			if !e.execInstr(in, st) {
				return nil
			}
		}
	}
	return nil
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// execInstr returns false if control does not continue after the instruction.
func (e *Exec) execInstr(in ssa.Instruction, st *State) bool {
	w := e.w
	e.cur = in
	switch in := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		t := w.mk("new", fmt.Sprintf("%s@%d", allocClass(in), e.act.id))
		t.typ = in.Type()
		e.cellCls[t.id] = allocClass(in)
		t.obj = in
		if s, ok := et.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				e.store(st, "F:"+typeName(et)+"."+s.Field(i).Name(), t, e.zero(s.Field(i).Type()))
			}
		} else if _, ok := et.Underlying().(*types.Array); !ok {
			e.store(st, allocClass(in), t, e.zero(et))
		}
		e.set(st, in, t)
	case *ssa.BinOp:
		e.set(st, in, e.binop(in, st))
	case *ssa.UnOp:
		x := e.get(st, in.X)
		switch in.Op {
		case token.MUL:
			if _, isG := in.X.(*ssa.Global); !isG {
				e.ob("nil-deref", st, in, x)
			}
			e.set(st, in, e.loadAddr(st, x, in.Type()))
		case token.NOT:
			e.set(st, in, w.not(x))
		case token.SUB:
			if x.isInt() {
				e.set(st, in, w.int(-x.intVal()))
			} else {
				e.set(st, in, w.mk("neg", "", x))
			}
		case token.XOR:
			if x.isInt() {
				e.set(st, in, w.int(^x.intVal()))
			} else {
				e.set(st, in, w.mk("compl", "", x))
			}
		case token.ARROW:
			e.emit(&Event{kind: "ext", name: "chan-receive", args: []*Term{x}, instr: in}, st)
			e.set(st, in, w.freshTerm("recv", "chan"))
		default:
			e.set(st, in, w.mk("unop"+in.Op.String(), "", x))
		}
	case *ssa.Call:
		return e.call(in, in.Common(), st)
	case *ssa.Defer:
		// deferred library clean-up is modelled at function end; only its arguments matter here
		c := in.Common()
		name := "defer"
		if f := c.StaticCallee(); f != nil {
			name = "defer:" + extName(f)
		}
		e.emit(&Event{kind: "defer", name: name, instr: in}, st)
	case *ssa.Go:
		e.emit(&Event{kind: "go", name: "go", instr: in}, st)
	case *ssa.ChangeInterface:
		e.set(st, in, e.get(st, in.X))
	case *ssa.ChangeType:
		e.set(st, in, e.get(st, in.X))
	case *ssa.Convert:
		e.set(st, in, e.convert(e.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		e.set(st, in, e.convert(e.get(st, in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		t := e.get(st, in.Tuple)
		if t.op == "tuple" && in.Index < len(t.args) {
			e.set(st, in, t.args[in.Index])
		} else {
			e.set(st, in, w.mk("extract", fmt.Sprint(in.Index), t))
		}
	case *ssa.Field:
		e.set(st, in, e.sfield(e.get(st, in.X), fieldClass(in.X.Type(), in.Field), in.Field, in.Type()))
	case *ssa.FieldAddr:
		x := e.get(st, in.X)
		e.ob("nil-deref", st, in, x)
		cls := fieldClass(in.X.Type(), in.Field)
		if x.op == "ite" && len(x.args) <= 16 {
			var as []*Term
			for _, a := range x.args {
				as = append(as, w.mk("faddr", cls, a))
			}
			e.set(st, in, w.ite(x.bs, as))
		} else {
			e.set(st, in, w.mk("faddr", cls, x))
		}
	case *ssa.Index:
		x, i := e.get(st, in.X), e.get(st, in.Index)
		e.ob("index", st, in, x, i)
		e.set(st, in, w.mk("strat", "", x, i))
	case *ssa.IndexAddr:
		x, i := e.get(st, in.X), e.get(st, in.Index)
		if _, isArr := derefT(in.X.Type()).Underlying().(*types.Array); !isArr {
			e.ob("index", st, in, x, i)
		}
		e.set(st, in, w.mk("iaddr", "", x, i))
	case *ssa.Slice:
		e.slice(in, st)
	case *ssa.Lookup:
		e.lookup(in, st)
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, e.get(st, b))
		}
		t := w.mk("clo", fn.String(), bs...)
		t.obj = fn
		e.set(st, in, t)
	case *ssa.MakeInterface:
		x := e.get(st, in.X)
		t := w.mk("iface", typeName(in.X.Type()), x)
		e.set(st, in, t)
	case *ssa.MakeMap:
		e.set(st, in, w.freshTerm("makemap", typeName(in.Type())))
	case *ssa.MakeSlice:
		n := e.get(st, in.Len)
		if cp := e.get(st, in.Cap); cp != n {
			e.ob("makeslice", st, in, cp)
		}
		if n.isInt() && n.intVal() == 0 {
			e.set(st, in, w.mk("slicelit", ""))
		} else {
			e.ob("makeslice", st, in, n)
			e.set(st, in, w.mk("makeslice", fmt.Sprint(e.act.id, in.Name()), n))
		}
	case *ssa.MakeChan:
		e.set(st, in, w.freshTerm("chan", ""))
	case *ssa.MapUpdate:
		m, k, v := e.get(st, in.Map), e.get(st, in.Key), e.get(st, in.Value)
		e.ob("nil-map", st, in, m)
		cls := "M:" + typeName(in.Map.Type())
		e.emit(&Event{kind: "mapupd", name: cls, args: []*Term{m, k, v}, instr: in}, st)
		e.store(st, cls, w.mk("pair", "", m, k), v)
	case *ssa.Range:
		e.set(st, in, w.mk("range", "", e.get(st, in.X)))
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			e.emit(&Event{kind: "maprange", name: "range", args: []*Term{e.get(st, in.X)}, instr: in}, st)
		}
	case *ssa.Next:
		r := e.get(st, in.Iter)
		id := ""
		if len(e.loops) > 0 {
			id = fmt.Sprint(e.loops[len(e.loops)-1].id)
		} else {
			w.fresh++
			id = fmt.Sprint("x", w.fresh)
		}
		ok := w.atomBool("nextok", id, r)
		k := w.mk("nextkey", id, r)
		v := w.mk("nextval", id, r)
		e.set(st, in, w.mk("tuple", "", ok, k, v))
	case *ssa.Store:
		addr, v := e.get(st, in.Addr), e.get(st, in.Val)
		if _, isG := in.Addr.(*ssa.Global); !isG {
			if _, isA := in.Addr.(*ssa.Alloc); !isA {
				e.ob("nil-deref", st, in, addr)
			}
		}
		e.doStore(in, st, addr, v, in.Val.Type())
	case *ssa.Send:
		e.emit(&Event{kind: "send", name: "send", instr: in}, st)
	case *ssa.Select:
		e.emit(&Event{kind: "select", name: "select", instr: in}, st)
		e.set(st, in, w.freshTerm("select", ""))
	case *ssa.SliceToArrayPointer:
		e.set(st, in, e.get(st, in.X))
	case *ssa.TypeAssert:
		x := e.get(st, in.X)
		tn := typeName(in.AssertedType)
		okT := w.tassertOK(x, tn)
		_, isIface := in.AssertedType.Underlying().(*types.Interface)
		var v *Term
		if x.op == "iface" && (x.aux == tn) {
			v = x.args[0]
		} else {
			v = w.mk("tassert", tn, x)
		}
		if isIface {
			v = x
		}
		if in.CommaOk {
			z := e.zero(in.AssertedType)
			ob := w.asBool(okT)
			v = w.ite([]int{ob, w.b.Not(ob)}, []*Term{e.val(v, in.AssertedType), z})
			e.set(st, in, w.mk("tuple", "", v, okT))
		} else {
			e.ob("type-assert", st, in, okT, x)
			e.set(st, in, v)
		}
	default:
		e.fail("unhandled instruction %T", in)
	}
	return true
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *Exec) doStore(in ssa.Instruction, st *State, addr, v *Term, typ types.Type) {
	if addr.op == "ite" && len(addr.args) <= 16 {
		saved := st.cond
		var sts []*State
		for i, a := range addr.args {
			s := st.clone()
			s.cond = e.w.b.And(saved, addr.bs[i])
			if s.cond == bFalse {
				continue
			}
			e.doStore(in, s, a, v, typ)
			sts = append(sts, s)
		}
		if len(sts) > 0 {
			n, _ := e.mergeStates(sts)
			st.mem = n.mem
		}
		return
	}
	cls := e.storeAddr(st, addr, v, typ)
	e.emit(&Event{kind: "store", name: cls, args: []*Term{addr, v}, instr: in}, st)
}

func (e *Exec) binop(in *ssa.BinOp, st *State) *Term {
	w := e.w
	x, y := e.get(st, in.X), e.get(st, in.Y)
	integer := isInteger(in.X.Type())
	switch in.Op {
	case token.EQL:
		return w.eq(x, y)
	case token.NEQ:
		return w.not(w.eq(x, y))
	case token.LSS:
		return w.lt(x, y, integer)
	case token.GTR:
		return w.lt(y, x, integer)
	case token.LEQ:
		return w.not(w.lt(y, x, integer))
	case token.GEQ:
		return w.not(w.lt(x, y, integer))
	case token.ADD:
		if isString(in.Type()) {
			return w.concat(x, y)
		}
		if integer {
			return w.add(x, y)
		}
	case token.SUB:
		if integer {
			if x.isInt() && y.isInt() {
				return w.int(x.intVal() - y.intVal())
			}
			if y.isInt() {
				return w.add(x, w.int(-y.intVal()))
			}
		}
	case token.MUL:
		if x.isInt() && y.isInt() {
			return w.int(x.intVal() * y.intVal())
		}
	case token.AND:
		if x.isInt() && y.isInt() {
			return w.int(x.intVal() & y.intVal())
		}
		if isBoolT(x) && isBoolT(y) {
			return w.bool(w.b.And(x.bs[0], y.bs[0]))
		}
		if x.isInt() {
			x, y = y, x
		}
		return w.mk("band", "", x, y)
	case token.OR:
		if x.isInt() && y.isInt() {
			return w.int(x.intVal() | y.intVal())
		}
		if isBoolT(x) && isBoolT(y) {
			return w.bool(w.b.Or(x.bs[0], y.bs[0]))
		}
		return w.mk("bor", "", x, y)
	case token.AND_NOT:
		if x.isInt() && y.isInt() {
			return w.int(x.intVal() &^ y.intVal())
		}
		if y.isInt() {
			return w.mk("band", "", x, w.int(^y.intVal()))
		}
	case token.XOR:
		if x.isInt() && y.isInt() {
			return w.int(x.intVal() ^ y.intVal())
		}
	case token.SHL:
		if x.isInt() && y.isInt() && y.intVal() < 62 {
			return w.int(x.intVal() << uint(y.intVal()))
		}
	case token.QUO, token.REM:
		if integer {
			e.ob("div-zero", st, in, y)
		}
	}
	return w.mk("op"+in.Op.String(), "", x, y)
}

func (e *Exec) convert(x *Term, from, to types.Type) *Term {
	w := e.w
	if sl, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if b, ok := sl.Elem().Underlying().(*types.Basic); ok {
			if b.Kind() == types.Rune || b.Kind() == types.Int32 {
				return w.mk("runes", "", x)
			}
			return w.mk("bytes", "", x)
		}
	}
	if isString(to) {
		if x.op == "runes" || x.op == "bytes" {
			return x.args[0]
		}
		if isString(from) {
			return x
		}
		if x.isInt() {
			return w.str(string(rune(x.intVal())))
		}
		return w.mk("tostring", typeName(from), x)
	}
	if isInteger(from) && isInteger(to) {
		return x
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		if x.isInt() {
			return w.mk("float", x.aux)
		}
		return w.mk("tofloat", "", x)
	}
	if isInteger(to) {
		return w.mk("toint", "", x)
	}
	return x
}

func (e *Exec) slice(in *ssa.Slice, st *State) {
	w := e.w
	x := e.get(st, in.X)
	if arr, ok := derefT(in.X.Type()).Underlying().(*types.Array); ok && in.Low == nil && in.High == nil {
		// slice literal
		var as []*Term
		cls := "E:" + typeName(arr.Elem())
		_, isStruct := arr.Elem().Underlying().(*types.Struct)
		for i := int64(0); i < arr.Len(); i++ {
			key := w.mk("iaddr", "", x, w.int(i))
			if isStruct {
				as = append(as, e.loadAddr(st, key, arr.Elem()))
				continue
			}
			z := e.zero(arr.Elem())
			as = append(as, e.loadFrom(e.mem(st, cls), key, func(m *Term) *Term { return z }))
		}
		e.set(st, in, w.mk("slicelit", "", as...))
		return
	}
	lo, hi := w.int(0), w.length(x)
	if in.Low != nil {
		lo = e.get(st, in.Low)
	}
	if in.High != nil {
		hi = e.get(st, in.High)
	}
	e.ob("slice", st, in, x, lo, hi)
	if lo.isInt() && lo.intVal() == 0 && in.High == nil {
		e.set(st, in, x)
		return
	}
	if x.isStr() && lo.isInt() && hi.isInt() && lo.intVal() >= 0 && hi.intVal() >= lo.intVal() && int(hi.intVal()) <= len(x.aux) {
		e.set(st, in, w.str(x.aux[lo.intVal():hi.intVal()]))
		return
	}
	if x.op == "slicelit" && lo.isInt() && hi.isInt() && lo.intVal() >= 0 && hi.intVal() >= lo.intVal() && int(hi.intVal()) <= len(x.args) {
		e.set(st, in, w.mk("slicelit", "", x.args[lo.intVal():hi.intVal()]...))
		return
	}
	if lo.isInt() && lo == hi && lo.intVal() == 0 {
		e.set(st, in, w.mk("slicelit", ""))
		return
	}
	e.set(st, in, w.mk("subslice", "", x, lo, hi))
}

func (e *Exec) lookup(in *ssa.Lookup, st *State) {
	w := e.w
	m, k := e.get(st, in.X), e.get(st, in.Index)
	if isString(in.X.Type()) {
		e.ob("index", st, in, m, k)
		e.set(st, in, w.mk("strat", "", m, k))
		return
	}
	mt := in.X.Type().Underlying().(*types.Map)
	v, ok := e.mapLookup(st, m, k, mt, typeName(in.X.Type()))
	if in.CommaOk {
		e.set(st, in, w.mk("tuple", "", v, ok))
	} else {
		e.set(st, in, v)
	}
}

func (e *Exec) mapLookup(st *State, m, k *Term, mt *types.Map, tn string) (v, ok *Term) {
	w := e.w
	z := e.zero(mt.Elem())
	if m.op == "maplit" {
		if k.isConst() {
			for i := 0; i+1 < len(m.args); i += 2 {
				if m.args[i] == k {
					return m.args[i+1], w.tru()
				}
			}
			return z, w.fls()
		}
		if len(m.args) <= 128 {
			var cs []int
			var as []*Term
			any := bFalse
			for i := 0; i+1 < len(m.args); i += 2 {
				c := w.asBool(w.eq(k, m.args[i]))
				cs = append(cs, w.b.And(c, w.b.Not(any)))
				as = append(as, m.args[i+1])
				any = w.b.Or(any, c)
			}
			cs = append(cs, w.b.Not(any))
			as = append(as, z)
			return e.val(w.ite(cs, as), mt.Elem()), w.bool(any)
		}
	}
	if m.op == "nil" {
		return z, w.fls()
	}
	cls := "M:" + tn
	key := w.mk("pair", "", m, k)
	// a freshly made map starts empty
	v = e.loadFrom(e.mem(st, cls), key, func(mm *Term) *Term {
		return w.mk("lookup", cls, m, k, mm)
	})
	v = e.val(v, mt.Elem())
	if v.op == "lookup" || isBoolT(v) {
		ok = w.atomBool("lookupok", cls, m, k, e.mem(st, cls))
	} else {
		ok = w.tru()
	}
	return v, ok
}
