package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shape explores all abstract states of a function from an initial heap.
type shape struct {
	P       *Program
	live    map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	native  map[*ssa.Function]func(x *shape, s *sstate, args []sv) ([]*sstate, []sv, bool)
	visited map[string]bool
	steps   int
	limit   int
	states  int
	seq     bool // collect sequences
	find    bool // recursion searches
	undec   map[string]bool
	mark    func(x *shape, s *sstate, in ssa.Instruction, what string)
}

func newShape(P *Program) *shape {
	return &shape{P: P, limit: 150000, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, native: map[*ssa.Function]func(*shape, *sstate, []sv) ([]*sstate, []sv, bool){}, visited: map[string]bool{}, undec: map[string]bool{}}
}

func (x *shape) liveIn(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := x.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := 0
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range in[s] {
					cur[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(cur, ph)
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					cur[ph.Edges[pi]] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, phi := ins.(*ssa.Phi); !phi {
						delete(cur, v)
					} else {
						continue
					}
				}
				var ops []*ssa.Value
				for _, o := range ins.Operands(ops) {
					if *o != nil {
						cur[*o] = true
					}
				}
			}
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	x.live[f] = in
	return in
}

// explore hands the final states to final, until that wants no more.
func (x *shape) explore(init *sstate, final func(*sstate) bool) {
	work := []*sstate{init}
	trace := os.Getenv("SHAPETRACE") != ""
	for len(work) > 0 {
		// depth first; when that takes long, breadth first, as the branch may have no end
		s := work[len(work)-1]
		if x.states > 2000 {
			s = work[0]
			work = work[1:]
		} else {
			work = work[:len(work)-1]
		}
		x.states++
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						at := ""
						if n := len(s.fr); n > 0 && s.fr[n-1].fn != nil && s.fr[n-1].blk != nil && s.fr[n-1].pc < len(s.fr[n-1].blk.Instrs) {
							at = x.P.instrPos(s.fr[n-1].blk.Instrs[s.fr[n-1].pc]) + ": "
						}
						x.undec[at+u.msg] = true
						return
					}
					panic(r)
				}
			}()
			for {
				x.steps++
				if trace {
					f := s.fr[len(s.fr)-1]
					if f.nat != "" {
						s.log = append(s.log, "NAT "+s.brief())
					} else {
						s.log = append(s.log, fmt.Sprintln(f.fn.Name(), f.blk.Index, f.pc, f.blk.Instrs[f.pc])+s.brief())
					}
				}
				if x.steps > x.limit {
					work = nil
					unknownShape("too many states")
				}
				if os.Getenv("SHAPELOG") != "" && x.steps < 2000 {
					f := s.fr[len(s.fr)-1]
					if f.nat == "" {
						fmt.Println("STEP", x.steps, f.fn.Name(), f.blk.Index, f.pc, f.blk.Instrs[f.pc], s.brief())
					}
				}
				next := x.step(s)
				if s.done != "" {
					if final(s) {
						work = nil
					}
					return
				}
				if next == nil {
					continue
				}
				for i := len(next) - 1; i >= 0; i-- {
					work = append(work, next[i])
				}
				return
			}
		}()
	}
}

func (x *shape) call(s *sstate, fn *ssa.Function, args, bind []sv, ret ssa.Value) {
	if len(s.fr) > 40 {
		unknownShape("deep recursion")
	}
	f := &sframe{fn: fn, blk: fn.Blocks[0], regs: map[ssa.Value]sv{}, ret: ret}
	for _, a := range args {
		if !(a.k == 'S' && a.id == 0 || a.k == 'b' || a.k == 'p' && s.objs[a.id] != nil && !s.objs[a.id].mat) {
			a = svUnk
		}
		f.args = append(f.args, a)
	}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.regs[p] = bind[i]
		} else {
			f.regs[p] = svUnk
		}
	}
	s.fr = append(s.fr, f)
}

func (x *shape) ret(s *sstate, v sv) []*sstate {
	f := s.fr[len(s.fr)-1]
	s.fr = s.fr[:len(s.fr)-1]
	if len(s.fr) == 0 {
		s.result = v
		s.done = "return"
		return nil
	}
	c := s.fr[len(s.fr)-1]
	if c.nat != "" {
		return x.natRet(s, c, v)
	}
	if f.ret != nil {
		c.regs[f.ret] = v
	}
	c.pc++
	return nil
}

// natRet continues a built-in search loop with the answer of the predicate.
func (x *shape) natRet(s *sstate, c *sframe, v sv) []*sstate {
	both := v.k != 'b' || v.b == 2
	hit := func(s *sstate) {
		c := s.fr[len(s.fr)-1]
		r := c.idx
		if c.nat == "has" {
			r = svBool(true)
		}
		x.natEnd(s, r)
	}
	miss := func(s *sstate) {
		c := s.fr[len(s.fr)-1]
		c.idx.l = c.idx.l.plus(1)
		c.seen = false
	}
	switch {
	case both:
		t := s.clone()
		hit(t)
		miss(s)
		return []*sstate{s, t}
	case v.b == 1:
		hit(s)
	default:
		miss(s)
	}
	_ = c
	return nil
}

func (x *shape) natEnd(s *sstate, v sv) {
	f := s.fr[len(s.fr)-1]
	s.fr = s.fr[:len(s.fr)-1]
	c := s.fr[len(s.fr)-1]
	if f.ret != nil {
		c.regs[f.ret] = v
	}
	c.pc++
}

func (x *shape) zero(t types.Type) sv {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return svNil
	case *types.Slice:
		if x.seq && seqType(t) {
			return sv{k: 'Q'}
		}
		return sv{k: 's'}
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return svInt(slin{})
		case u.Info()&types.IsBoolean != 0:
			return svBool(false)
		case u.Info()&types.IsString != 0:
			return sv{k: 'S', fld: `""`}
		}
	}
	return svUnk
}

func (x *shape) val(f *sframe, v ssa.Value) sv {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.zero(c.Type())
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(c.Value)
			return svInt(slin{c: int(n)})
		case constant.Bool:
			return svBool(constant.BoolVal(c.Value))
		case constant.String:
			return sv{k: 'S', fld: fmt.Sprintf("%q", constant.StringVal(c.Value))}
		}
		return svUnk
	case *ssa.Function:
		return sv{k: 'f', fn: c}
	case *ssa.Global:
		if x.seq {
			return sv{k: 'G', fld: c.Name()}
		}
		return svUnk
	case *ssa.Builtin:
		return svUnk
	}
	if r, ok := f.regs[v]; ok {
		return r
	}
	return svUnk
}

// deref turns an edge into an object.
func (s *sstate) deref(v sv) []*sstate {
	if v.k != 'e' {
		return nil
	}
	switch v.w {
	case 'F':
		return s.splitEnd(v.id, false)
	case 'L':
		return s.splitEnd(v.id, true)
	case 'f':
		return s.splitElem(v.id, false)
	}
	return s.splitElem(v.id, true)
}

func (x *shape) load(s *sstate, a sv, t types.Type) (sv, []*sstate, bool) {
	switch a.k {
	case 'A':
		o := s.objs[a.id]
		if o == nil {
			return svUnk, nil, true
		}
		if v, ok := o.fld[a.fld]; ok {
			return v, nil, true
		}
		if a.fld == "NodeType" && o.kind != '?' {
			return sv{k: 'K', id: a.id}, nil, true
		}
		if o.fresh {
			return x.zero(t), nil, true
		}
		if a.fld == "name" || a.fld == "value" {
			return sv{k: 'S', fld: a.fld + "@", id: a.id}, nil, true
		}
		if x.seq {
			v, fk := x.fieldOf(s, a.id, a.fld, t)
			return v, fk, true
		}
		return svUnk, nil, true
	case 'G':
		return sv{k: 'g', fld: a.fld}, nil, true
	case 'I':
		i, f := s.itemAt(a.id, a.l)
		if f != nil {
			return svUnk, f, true
		}
		if i < 0 {
			return svUnk, nil, false
		}
		it := s.arrs[a.id].items[i]
		if it.id == 0 {
			return svNil, nil, true
		}
		return ptr(it.id), nil, true
	}
	return svUnk, nil, true
}

// norm keeps large NodeType constants in the kind.
func (x *shape) store(s *sstate, a, v sv) ([]*sstate, bool) {
	switch a.k {
	case 'A':
		o := s.objs[a.id]
		if o == nil {
			return nil, true
		}
		if a.fld == "NodeType" {
			o.wrote = true
			if v.k == 'i' && len(v.l.t) == 0 {
				if v.l.c == 1 {
					o.kind = 'E'
				} else if v.l.c == 9 {
					o.kind = 'D'
				} else {
					o.kind = 'T'
				}
			} else {
				unknownShape("node type")
			}
			return nil, true
		}
		if v.k == 's' && s.arrs[v.id] != nil {
			switch a.fld {
			case "ChildNodes", "Attributes":
				s.arrs[v.id].fl = 'c'
			case "Children":
				s.arrs[v.id].fl = 'e'
			}
		}
		if !isLink(a.fld) {
			o.wrote = true
		}
		o.fld[a.fld] = v
		return nil, true
	case 'I':
		i, f := s.itemAt(a.id, a.l)
		if f != nil {
			return f, true
		}
		if i < 0 {
			return nil, false
		}
		if f := s.deref(v); f != nil {
			return f, true
		}
		switch v.k {
		case 'p':
			s.arrs[a.id].items[i] = sitem{id: v.id}
		case 'n':
			s.arrs[a.id].items[i] = sitem{}
		default:
			unknownShape("unknown list entry")
		}
		return nil, true
	}
	return nil, true
}

func (x *shape) eq(s *sstate, a, b sv) (sv, []*sstate) {
	if a.k == 'e' && (a.w == 'f' || a.w == 'l') && s.segs[a.id].kind == 'a' {
		return svUnk, s.refine(a.id)
	}
	if b.k == 'e' && (b.w == 'f' || b.w == 'l') && s.segs[b.id].kind == 'a' {
		return svUnk, s.refine(b.id)
	}
	isP := func(v sv) bool { return v.k == 'p' || v.k == 'e' || v.k == 'n' || v.k == 'H' }
	switch {
	case a.k == 'e' && b.k == 'e':
		if a.id != b.id {
			return svBool(false), nil
		}
		if a.w == b.w {
			return svBool(true), nil
		}
		return svUnk, s.deref(a)
	case isP(a) && isP(b):
		return svBool(a.k == b.k && a.id == b.id), nil
	case a.k == 's' && b.k == 's':
		if a.id == 0 && b.id == 0 {
			return svBool(true), nil
		}
		return sv{k: 'b', b: 2}, nil
	case a.k == 'K' || b.k == 'K':
		if b.k == 'K' {
			a, b = b, a
		}
		o := s.objs[a.id]
		if b.k == 'i' && len(b.l.t) == 0 && o != nil {
			n := b.l.c
			switch o.kind {
			case 'E':
				return svBool(n == 1), nil
			case 'D':
				return svBool(n == 9), nil
			case 'T':
				if n == 1 || n == 9 {
					return svBool(false), nil
				}
				if x.seq {
					return svBool(n == 3), nil
				}
			}
		}
		if b.k == 'K' && o != nil {
			p := s.objs[b.id]
			if p != nil && (o.kind == 'E') != (p.kind == 'E') {
				return svBool(false), nil
			}
			if p != nil && o.kind == 'E' && p.kind == 'E' {
				return svBool(true), nil
			}
		}
		return sv{k: 'b', b: 2}, nil
	case a.k == 'S' && b.k == 'S':
		if a.fld == b.fld && a.id == b.id {
			return svBool(true), nil
		}
		for i := 0; i < 2; i++ {
			if a.fld == "name@" && b.fld == "param name" {
				if o := s.objs[a.id]; o != nil {
					return svBool(o.kind == 'Y'), nil
				}
			}
			a, b = b, a
		}
		if x.seq {
			return x.seqEq(s, a, b)
		}
		if strings.HasPrefix(a.fld, `"`) && strings.HasPrefix(b.fld, `"`) {
			return svBool(false), nil
		}
		return sv{k: 'b', b: 2}, nil
	case a.k == 'b' && b.k == 'b':
		if a.b == 2 || b.b == 2 {
			return sv{k: 'b', b: 2}, nil
		}
		return svBool(a.b == b.b), nil
	case a.k == 'f' && b.k == 'n' || a.k == 'n' && b.k == 'f':
		return svBool(false), nil
	}
	return sv{k: 'b', b: 2}, nil
}

func (x *shape) enter(s *sstate, f *sframe, b *ssa.BasicBlock) []*sstate {
	from := f.blk
	pi := 0
	for k, p := range b.Preds {
		if p == from {
			pi = k
		}
	}
	vals := map[ssa.Value]sv{}
	n := 0
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = x.val(f, ph.Edges[pi])
		n++
	}
	live := x.liveIn(f.fn)[b]
	regs := map[ssa.Value]sv{}
	for v, r := range f.regs {
		if live[v] {
			regs[v] = r
		}
	}
	for v, r := range vals {
		if live[v] || true {
			regs[v] = r
		}
	}
	f.regs, f.blk, f.pc = regs, b, n
	header := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			header = true
		}
	}
	if header {
		return x.head(s)
	}
	return nil
}

// head is a loop head: fold, and stop if the state was seen before.
func (x *shape) head(s *sstate) []*sstate {
	s.fold()
	k := s.key()
	if x.visited[k] {
		return []*sstate{}
	}
	x.visited[k] = true
	return nil
}

// step executes one instruction. nil: continue with s; otherwise the states to go on with.
func (x *shape) step(s *sstate) []*sstate {
	f := s.fr[len(s.fr)-1]
	if f.nat != "" {
		return x.natStep(s, f)
	}
	in := f.blk.Instrs[f.pc]
	set := func(v sv) []*sstate {
		f.regs[in.(ssa.Value)] = v
		f.pc++
		return nil
	}
	crash := func(what string) []*sstate {
		s.done = "panic"
		s.result = sv{k: 'o', fld: x.P.instrPos(in) + ": " + what}
		return nil
	}
	switch v := in.(type) {
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok && x.seq && !elemIs(t, "*Node") && !elemIs(t, "*attribute") {
			id := s.id()
			s.objs[id] = &sobj{kind: 'V', fld: map[string]sv{}, wrote: true}
			for i := int64(0); i < at.Len(); i++ {
				s.objs[id].fld[fmt.Sprintf("#%d", i)] = x.zero(at.Elem())
			}
			return set(sv{k: 'v', id: id})
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			items := make([]sitem, at.Len())
			a := s.newArr(items)
			return set(sv{k: 'r', id: a.id})
		}
		id := s.id()
		s.objs[id] = &sobj{kind: '?', fld: map[string]sv{}, fresh: true, wrote: true}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			s.objs[id].fld["*"] = x.zero(t)
		}
		return set(ptr(id))
	case *ssa.BinOp:
		return x.binop(s, f, v, set)
	case *ssa.UnOp:
		a := x.val(f, v.X)
		switch v.Op {
		case token.MUL:
			if a.k == 'p' {
				if _, ok := v.Type().Underlying().(*types.Struct); ok {
					return set(sv{k: 'o'})
				}
				a = sv{k: 'A', id: a.id, fld: "*"}
			}
			if a.k == 'n' {
				return crash("load through nil")
			}
			r, fk, ok := x.load(s, a, v.Type())
			if fk != nil {
				return fk
			}
			if !ok {
				return crash("index out of range")
			}
			return set(r)
		case token.NOT:
			if a.k == 'b' && a.b < 2 {
				return set(svBool(a.b == 0))
			}
			return set(sv{k: 'b', b: 2})
		case token.SUB:
			if a.k == 'i' {
				return set(svInt(slin{}.add(a.l, -1)))
			}
		}
		return set(svUnk)
	case *ssa.FieldAddr:
		a := x.val(f, v.X)
		if fk := s.deref(a); fk != nil {
			return fk
		}
		if a.k == 'n' {
			return crash("nil dereference")
		}
		if a.k != 'p' {
			return set(svUnk)
		}
		st := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return set(sv{k: 'A', id: a.id, fld: st.Field(v.Field).Name()})
	case *ssa.IndexAddr:
		a, i := x.val(f, v.X), x.val(f, v.Index)
		if a.k == 'v' {
			if i.k != 'i' || len(i.l.t) != 0 {
				unknownShape("unknown index")
			}
			return set(sv{k: 'A', id: a.id, fld: fmt.Sprintf("#%d", i.l.c)})
		}
		if a.k == 'Q' {
			unknownShape("a look into what was collected")
		}
		if a.k == 'o' || i.k != 'i' {
			if a.k == 's' || a.k == 'r' {
				unknownShape("unknown index")
			}
			return set(svUnk)
		}
		if a.k == 'r' {
			a = sv{k: 's', id: a.id, h: s.arrLen(a.id)}
		}
		if a.k == 's' && a.id == 0 {
			return crash("index of an empty list")
		}
		if a.k == 's' {
			p := a.l.add(i.l, 1)
			if ok, fk := s.cmp(p.add(a.h, -1), token.LSS); fk != nil {
				return fk
			} else if !ok {
				return crash("index out of range")
			}
			if ok, fk := s.cmp(i.l, token.GEQ); fk != nil {
				return fk
			} else if !ok {
				return crash("index out of range")
			}
			if _, isC := v.Index.(*ssa.Const); !isC {
				i.tag, i.off = a.id, a.l
				f.regs[v.Index] = i
			}
			return set(sv{k: 'I', id: a.id, l: p})
		}
		return set(svUnk)
	case *ssa.Store:
		a, w := x.val(f, v.Addr), x.val(f, v.Val)
		if a.k == 'p' {
			a = sv{k: 'A', id: a.id, fld: "*"}
		}
		if a.k == 'n' {
			return crash("store through nil")
		}
		fk, ok := x.store(s, a, w)
		if fk != nil {
			return fk
		}
		if !ok {
			return crash("index out of range")
		}
		f.pc++
		return nil
	case *ssa.If:
		c := x.val(f, v.Cond)
		if c.fld == "qlen" {
			unknownShape("decision on what was collected")
		}
		if c.k == 'b' && c.b < 2 {
			return x.enter(s, f, f.blk.Succs[1-int(c.b)])
		}
		t := s.clone()
		var out []*sstate
		for i, q := range []*sstate{s, t} {
			g := q.fr[len(q.fr)-1]
			if r := x.enter(q, g, g.blk.Succs[i]); r == nil {
				out = append(out, q)
			}
		}
		if out == nil {
			out = []*sstate{}
		}
		return out
	case *ssa.Jump:
		return x.enter(s, f, f.blk.Succs[0])
	case *ssa.Return:
		r := svUnk
		switch len(v.Results) {
		case 0:
		case 1:
			r = x.val(f, v.Results[0])
		default:
			r = sv{k: 't'}
			for _, q := range v.Results {
				r.tup = append(r.tup, x.val(f, q))
			}
		}
		return x.ret(s, r)
	case *ssa.Panic:
		return crash("panic")
	case *ssa.Slice:
		return x.slice(s, f, v, set, crash)
	case *ssa.MakeSlice:
		n := x.val(f, v.Len)
		if x.seq && seqType(v.Type()) {
			if n.k == 'i' && n.l.zero() {
				return set(sv{k: 'Q'})
			}
			unknownShape("list made with a length")
		}
		if n.k == 'i' && n.l.zero() {
			return set(s.newArr(nil))
		}
		if n.k == 'i' && len(n.l.t) == 0 && n.l.c > 0 && n.l.c < 10 {
			return set(s.newArr(make([]sitem, n.l.c)))
		}
		if !isPtrSlice(v.Type()) {
			return set(svUnk)
		}
		unknownShape("list made with a length")
	case *ssa.MakeClosure:
		r := sv{k: 'f', fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			r.bind = append(r.bind, x.val(f, b))
		}
		return set(r)
	case *ssa.Extract:
		t := x.val(f, v.Tuple)
		if t.k == 't' && v.Index < len(t.tup) {
			return set(t.tup[v.Index])
		}
		return set(svUnk)
	case *ssa.ChangeType:
		return set(x.val(f, v.X))
	case *ssa.Convert:
		a := x.val(f, v.X)
		if a.k == 'i' || a.k == 'K' {
			return set(a)
		}
		return set(svUnk)
	case *ssa.Lookup:
		if m, k := x.val(f, v.X), x.val(f, v.Index); x.seq && m.k == 'g' && k.k == 'S' {
			if _, isL := isLitS(k); !isL {
				b, fk := s.fact(k.id, "in "+m.fld+"("+k.fld+")")
				if fk != nil {
					return fk
				}
				if v.CommaOk {
					return set(sv{k: 't', tup: []sv{svUnk, svBool(b)}})
				}
				if typeName(v.Type()) == "bool" {
					return set(svBool(b))
				}
			}
		}
		if v.CommaOk {
			return set(sv{k: 't', tup: []sv{svUnk, {k: 'b', b: 2}}})
		}
		return set(svUnk)
	case *ssa.MakeInterface:
		if a := x.val(f, v.X); x.seq && (a.k == 'S' || a.k == 'q') {
			return set(a)
		}
		return set(svUnk)
	case *ssa.ChangeInterface:
		return set(svUnk)
	case *ssa.Phi:
		f.pc++
		return nil
	case *ssa.Call:
		return x.docall(s, f, v)
	case *ssa.DebugRef, *ssa.RunDefers:
		f.pc++
		return nil
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MapUpdate:
		f.pc++
		return nil
	default:
		if _, ok := in.(ssa.Value); ok {
			return set(svUnk)
		}
	}
	f.pc++
	return nil
}

func isPtrSlice(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = sl.Elem().Underlying().(*types.Pointer)
	return ok
}

func (x *shape) binop(s *sstate, f *sframe, v *ssa.BinOp, set func(sv) []*sstate) []*sstate {
	a, b := x.val(f, v.X), x.val(f, v.Y)
	if a.k == 'i' && b.k == 'i' {
		tag, off := a.tag, a.off
		if tag == 0 {
			tag, off = b.tag, b.off
		}
		switch v.Op {
		case token.ADD:
			r := svInt(a.l.add(b.l, 1))
			r.tag, r.off = tag, off
			return set(r)
		case token.SUB:
			r := svInt(a.l.add(b.l, -1))
			r.tag, r.off = tag, off
			return set(r)
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			d := a.l.add(b.l, -1)
			r, fk := s.cmp(d, v.Op)
			if fk != nil {
				// a list of any length against a large number: shorter, or longer
				pos, neg := false, false
				for _, c := range d.t {
					pos, neg = pos || c > 0, neg || c < 0
				}
				if pos != neg && (d.c > 40 || d.c < -40) && v.Op != token.EQL && v.Op != token.NEQ {
					return set(sv{k: 'b', b: 2})
				}
				return fk
			}
			return set(svBool(r))
		}
		return set(svUnk)
	}
	if a.fld == "qlen" || b.fld == "qlen" {
		return set(sv{k: 'b', b: 2, fld: "qlen"})
	}
	if x.seq && (a.k == 'q' || b.k == 'q' || a.k == 'S' && b.k == 'S') && v.Op == token.ADD {
		return set(sv{k: 'q', qs: joinQ(toQ(a), toQ(b))})
	}
	if x.seq && (v.Op == token.EQL || v.Op == token.NEQ) {
		// the text of a text node against a fixed text
		for _, p := range [][2]sv{{a, b}, {b, a}} {
			t, ok := isLitS(p[1])
			if !ok || p[0].k != 'q' || len(p[0].qs) != 1 || p[0].qs[0].k != 'R' {
				continue
			}
			id := p[0].qs[0].id
			o := s.objs[id]
			if o == nil || o.kind != 'T' {
				continue
			}
			if o.em {
				return set(svBool((t == "") == (v.Op == token.EQL)))
			}
			name := "text==" + strconv.Quote(t)
			r, fk := s.fact(id, name)
			for _, q := range fk {
				if t == "" && q.objs[id].fld["?"+name].b == 1 {
					q.objs[id].em = true
				}
			}
			if fk != nil {
				return fk
			}
			return set(svBool(r == (v.Op == token.EQL)))
		}
	}
	if x.seq && (a.k == 'q' || b.k == 'q' || a.k == 'Q' || b.k == 'Q') {
		return set(sv{k: 'b', b: 2, fld: "qlen"})
	}
	if v.Op == token.EQL || v.Op == token.NEQ {
		r, fk := x.eq(s, a, b)
		if fk != nil {
			return fk
		}
		if r.k == 'b' && r.b < 2 && v.Op == token.NEQ {
			r.b = 1 - r.b
		}
		return set(r)
	}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return set(sv{k: 'b', b: 2})
	}
	return set(svUnk)
}

func (x *shape) slice(s *sstate, f *sframe, v *ssa.Slice, set func(sv) []*sstate, crash func(string) []*sstate) []*sstate {
	a := x.val(f, v.X)
	if a.k == 'v' {
		n := 1 << 20
		if h, ok := v.High.(*ssa.Const); ok {
			n = int(h.Int64())
		} else if v.High != nil {
			n = -1
		}
		if v.Low != nil || n < 0 {
			unknownShape("part of an array")
		}
		o := s.objs[a.id]
		r := sv{k: 't'}
		for i := 0; i < n; i++ {
			e, ok := o.fld[fmt.Sprintf("#%d", i)]
			if !ok {
				break
			}
			r.tup = append(r.tup, e)
		}
		if elemIs(v.Type(), "string") {
			var q []qpiece
			for _, e := range r.tup {
				q = append(q, toQ(e)...)
			}
			r = sv{k: 'Q', qs: q}
		}
		return set(r)
	}
	if a.k == 'Q' {
		if v.Low == nil && v.High == nil {
			return set(a)
		}
		unknownShape("part of what was collected")
	}
	if a.k == 'r' {
		a = sv{k: 's', id: a.id, h: s.arrLen(a.id)}
	}
	if a.k != 's' {
		return set(svUnk)
	}
	lo, hi := a.l, a.h
	bound := func(o ssa.Value) (slin, bool) {
		b := x.val(f, o)
		if b.k != 'i' {
			return slin{}, false
		}
		if _, c := o.(*ssa.Const); !c {
			b.tag, b.off = a.id, a.l
			f.regs[o] = b
		}
		return a.l.add(b.l, 1), true
	}
	var ok bool
	if v.Low != nil {
		if lo, ok = bound(v.Low); !ok {
			unknownShape("unknown bound")
		}
	}
	if v.High != nil {
		if hi, ok = bound(v.High); !ok {
			unknownShape("unknown bound")
		}
	}
	if a.id == 0 {
		if lo.zero() && hi.zero() {
			return set(a)
		}
		return crash("slice bounds out of range")
	}
	if ok, fk := s.cmp(hi.add(lo, -1), token.GEQ); fk != nil {
		return fk
	} else if !ok {
		return crash("slice bounds out of range")
	}
	if ok, fk := s.cmp(lo.add(a.l, -1), token.GEQ); fk != nil {
		return fk
	} else if !ok {
		return crash("slice bounds out of range")
	}
	return set(sv{k: 's', id: a.id, l: lo, h: hi})
}

func (x *shape) docall(s *sstate, f *sframe, v *ssa.Call) []*sstate {
	com := v.Common()
	set := func(r sv) []*sstate {
		f.regs[v] = r
		f.pc++
		return nil
	}
	var args []sv
	for _, a := range com.Args {
		args = append(args, x.val(f, a))
	}
	if com.IsInvoke() {
		return set(svUnk)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return x.builtin(s, f, v, b.Name(), args, set)
	}
	var fn *ssa.Function
	var bind []sv
	if g := com.StaticCallee(); g != nil {
		fn = g
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, x.val(f, b))
			}
		}
	} else if c := x.val(f, com.Value); c.k == 'f' {
		fn, bind = c.fn, c.bind
	}
	if fn == nil {
		for _, a := range args {
			if a.k == 'p' || a.k == 'e' {
				unknownShape("call of an unknown function")
			}
		}
		return set(svUnk)
	}
	if nat := x.native[fn]; nat != nil {
		sts, rs, ok := nat(x, s, args)
		if ok {
			if len(sts) == 1 && sts[0] == s {
				return set(rs[0])
			}
			for i, q := range sts {
				g := q.fr[len(q.fr)-1]
				g.regs[v] = rs[i]
				g.pc++
			}
			return sts
		}
	}
	if x.seq && x.P.inModule(fn) {
		if fk, ok := x.recCall(s, f, v, fn, args, bind); ok {
			return fk
		}
	}
	if fn.Blocks != nil && x.P.inModule(fn) {
		x.call(s, fn, args, bind, v)
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if x.seq {
		r, fk, ok := x.seqCall(s, v, name, args)
		if fk != nil {
			return fk
		}
		if ok {
			return set(r)
		}
	}
	nat := func(kind string, seq, pred sv) []*sstate {
		if seq.k != 's' {
			for _, a := range args {
				if a.k == 'p' || a.k == 'e' {
					unknownShape("search in an unknown list")
				}
			}
			return set(svUnk)
		}
		if seq.id == 0 {
			if kind == "has" {
				return set(svBool(false))
			}
			return set(svInt(slin{c: -1}))
		}
		idx := svInt(slin{})
		idx.tag, idx.off = seq.id, seq.l
		s.fr = append(s.fr, &sframe{nat: kind, seq: seq, pred: pred, idx: idx, ret: v, regs: map[ssa.Value]sv{}})
		return nil
	}
	switch name {
	case "slices.IndexFunc", "slices.Index":
		return nat("index", args[0], args[1])
	case "slices.ContainsFunc", "slices.Contains":
		return nat("has", args[0], args[1])
	case "slices.Delete":
		if args[0].k == 's' && args[1].k == 'i' && args[2].k == 'i' {
			its, fk := s.items(args[0])
			if fk != nil {
				return fk
			}
			_ = its
			lo, fk := s.items(sv{k: 's', id: args[0].id, l: args[0].l, h: args[0].l.add(args[1].l, 1)})
			if fk != nil {
				return fk
			}
			hi, fk := s.items(sv{k: 's', id: args[0].id, l: args[0].l.add(args[2].l, 1), h: args[0].h})
			if fk != nil {
				return fk
			}
			gap := args[2].l.add(args[1].l, -1)
			if len(gap.t) != 0 {
				unknownShape("removal of a range")
			}
			all := append(append([]sitem(nil), lo...), hi...)
			all = append(all, make([]sitem, gap.c)...)
			if fk := s.overwrite(args[0].id, args[0].l, all); fk != nil {
				return fk
			}
			return set(sv{k: 's', id: args[0].id, l: args[0].l, h: args[0].h.add(gap, -1)})
		}
	case "slices.Insert":
		if args[0].k == 's' && args[1].k == 'i' && len(args) == 3 && args[2].k == 's' {
			lo, fk := s.items(sv{k: 's', id: args[0].id, l: args[0].l, h: args[0].l.add(args[1].l, 1)})
			if fk != nil {
				return fk
			}
			hi, fk := s.items(sv{k: 's', id: args[0].id, l: args[0].l.add(args[1].l, 1), h: args[0].h})
			if fk != nil {
				return fk
			}
			mid, fk := s.items(args[2])
			if fk != nil {
				return fk
			}
			r := s.newArr(append(append(append([]sitem(nil), lo...), mid...), hi...))
			x.inherit(s, r, args[0])
			return set(r)
		}
	case "slices.Clone":
		if args[0].k == 's' {
			its, fk := s.items(args[0])
			if fk != nil {
				return fk
			}
			r := s.newArr(its)
			x.inherit(s, r, args[0])
			return set(r)
		}
	}
	for _, a := range args {
		if a.k == 's' && a.id != 0 && strings.HasPrefix(name, "slices.") {
			unknownShape("%s", name)
		}
	}
	if n := com.Signature().Results().Len(); n > 1 {
		r := sv{k: 't'}
		for i := 0; i < n; i++ {
			r.tup = append(r.tup, svUnk)
		}
		return set(r)
	}
	return set(svUnk)
}

func (x *shape) inherit(s *sstate, r, from sv) {
	if r.id != 0 && from.id != 0 && s.arrs[r.id].fl == 0 {
		s.arrs[r.id].fl = s.arrs[from.id].fl
	}
}

func (x *shape) natStep(s *sstate, f *sframe) []*sstate {
	if !f.seen {
		if r := x.head(s); r != nil {
			return r
		}
		f.seen = true
	}
	n := f.seq.h.add(f.seq.l, -1)
	more, fk := s.cmp(f.idx.l.add(n, -1), token.LSS)
	if fk != nil {
		return fk
	}
	if !more {
		if f.nat == "has" {
			x.natEnd(s, svBool(false))
		} else {
			x.natEnd(s, svInt(slin{c: -1}))
		}
		return nil
	}
	i, fk := s.itemAt(f.seq.id, f.seq.l.add(f.idx.l, 1))
	if fk != nil {
		return fk
	}
	if i < 0 {
		unknownShape("search out of range")
	}
	it := s.arrs[f.seq.id].items[i]
	e := svNil
	if it.id != 0 {
		e = ptr(it.id)
	}
	if f.pred.k == 'f' {
		if f.pred.fn.Blocks == nil {
			unknownShape("unknown predicate")
		}
		x.call(s, f.pred.fn, []sv{e}, f.pred.bind, nil)
		return nil
	}
	if f.pred.k == 'p' || f.pred.k == 'e' || f.pred.k == 'n' {
		r, fk := x.eq(s, e, f.pred)
		if fk != nil {
			return fk
		}
		return x.natRet(s, f, r)
	}
	return x.natRet(s, f, sv{k: 'b', b: 2})
}

func (x *shape) builtin(s *sstate, f *sframe, v *ssa.Call, name string, args []sv, set func(sv) []*sstate) []*sstate {
	switch name {
	case "len":
		a := args[0]
		if a.k == 's' {
			r := svInt(a.h.add(a.l, -1))
			r.tag, r.off = a.id, a.l
			return set(r)
		}
		if a.k == 'Q' || a.k == 'q' {
			if len(a.qs) == 0 {
				return set(svInt(slin{}))
			}
			return set(sv{k: 'o', fld: "qlen"})
		}
		return set(svUnk)
	case "copy":
		d, q := args[0], args[1]
		if d.k != 's' || q.k != 's' {
			if d.k == 's' && d.id != 0 {
				unknownShape("copy of an unknown list")
			}
			return set(svUnk)
		}
		if d.id == 0 || q.id == 0 {
			return set(svInt(slin{}))
		}
		dn, qn := d.h.add(d.l, -1), q.h.add(q.l, -1)
		le, fk := s.cmp(qn.add(dn, -1), token.LEQ)
		if fk != nil {
			return fk
		}
		n := qn
		if !le {
			n = dn
		}
		its, fk := s.items(sv{k: 's', id: q.id, l: q.l, h: q.l.add(n, 1)})
		if fk != nil {
			return fk
		}
		if fk := s.overwrite(d.id, d.l, its); fk != nil {
			return fk
		}
		x.inherit(s, d, q)
		return set(svInt(n))
	case "append":
		a, b := args[0], args[1]
		if a.k == 'Q' && b.k == 's' {
			its, fk := s.items(b)
			if fk != nil {
				return fk
			}
			q := a.qs
			for _, it := range its {
				if it.seg || it.id == 0 {
					unknownShape("a whole list appended")
				}
				q = joinQ(q, []qpiece{{k: 'n', id: it.id}})
			}
			return set(sv{k: 'Q', qs: q})
		}
		if a.k == 'Q' || a.k == 's' && a.id == 0 && b.k == 'Q' {
			return set(sv{k: 'Q', qs: joinQ(toQ(a), toQ(b))})
		}
		if a.k != 's' || b.k != 's' {
			return set(svUnk)
		}
		ai, fk := s.items(a)
		if fk != nil {
			return fk
		}
		bi, fk := s.items(b)
		if fk != nil {
			return fk
		}
		if len(bi) == 0 {
			return set(a)
		}
		var bn slin
		for _, it := range bi {
			bn = bn.add(s.itemLen(it), 1)
		}
		mk := func(s *sstate) sv {
			r := s.newArr(append(append([]sitem(nil), ai...), bi...))
			x.inherit(s, r, a)
			x.inherit(s, r, b)
			return r
		}
		if a.id == 0 {
			return set(mk(s))
		}
		total := s.arrLen(a.id)
		fits, fk := s.cmp(a.h.add(bn, 1).add(total, -1), token.LEQ)
		if fk != nil {
			return fk
		}
		if fits {
			if fk := s.overwrite(a.id, a.h, bi); fk != nil {
				return fk
			}
			return set(sv{k: 's', id: a.id, l: a.l, h: a.h.add(bn, 1)})
		}
		// grown in place, or moved to a new array
		lo, fk := s.cutAt(a.id, a.h)
		if fk != nil {
			return fk
		}
		if lo < 0 {
			unknownShape("append out of range")
		}
		t := s.clone()
		s.arrs[a.id].items = append(append([]sitem(nil), s.arrs[a.id].items[:lo]...), bi...)
		set(sv{k: 's', id: a.id, l: a.l, h: a.h.add(bn, 1)})
		g := t.fr[len(t.fr)-1]
		g.regs[v] = mk(t)
		g.pc++
		return []*sstate{s, t}
	}
	return set(svUnk)
}

// brief shows the lists of a state (development only).
func (s *sstate) brief() string {
	k := s.key()
	if i := strings.Index(k, "\n"); i > 0 {
		return k[i:]
	}
	return k
}
