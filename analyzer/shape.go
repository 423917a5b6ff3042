package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A shape analysis: an abstract interpretation of the tree edits over a disjunctive
// domain of heaps. A heap has a few named objects; all other members of a list are
// summarised by segments standing for one or more nodes of known or unknown kind, whose
// links are known to be regular. Segments are split when a member is looked at
// (materialisation) and members are folded back at loop heads, so that loops reach a
// fixpoint. Integers are linear expressions over the lengths of segments.

// slin is c + sum of t[k]*len(k); k = 2*seg for all members, 2*seg+1 for its elements.
type slin struct {
	c int
	t map[int]int
}

func (a slin) add(b slin, f int) slin {
	r := slin{c: a.c + f*b.c}
	if len(a.t)+len(b.t) > 0 {
		r.t = map[int]int{}
		for k, v := range a.t {
			r.t[k] = v
		}
		for k, v := range b.t {
			r.t[k] += f * v
			if r.t[k] == 0 {
				delete(r.t, k)
			}
		}
	}
	return r
}
func (a slin) plus(n int) slin { return slin{a.c + n, a.t} }
func (a slin) zero() bool      { return a.c == 0 && len(a.t) == 0 }
func linLen(k int) slin        { return slin{0, map[int]int{k: 1}} }
func (a slin) sub(k int, b slin) slin {
	v, ok := a.t[k]
	if !ok {
		return a
	}
	r := slin{c: a.c, t: map[int]int{}}
	for j, x := range a.t {
		if j != k {
			r.t[j] = x
		}
	}
	return r.add(b, v)
}

// sv is an abstract value.
type sv struct {
	k    byte // q text and Q list as a sequence, H found below an object, G global, g its value, v local array, n nil, p object, e edge of a segment, i int, b bool, s slice, f function, A field address, I element address, r pointer to array, t tuple, K node type, S string, o unknown
	id   int
	w    byte // edge: F first, L last, f first element, l last element
	l, h slin
	b    int8 // 0 false, 1 true, 2 unknown
	fn   *ssa.Function
	bind []sv
	fld  string
	tup  []sv
	tag  int  // array an int is a position of
	off  slin // where the part of that array starts it counts from
	qs   []qpiece
}

var (
	svNil  = sv{k: 'n'}
	svUnk  = sv{k: 'o'}
	svNone = sv{}
)

func svBool(b bool) sv {
	if b {
		return sv{k: 'b', b: 1}
	}
	return sv{k: 'b'}
}
func svInt(l slin) sv { return sv{k: 'i', l: l} }

type sobj struct {
	kind  byte // E element, T other node, D document, Y matching attribute, N other attribute, ? unknown
	fld   map[string]sv
	mat   bool // taken out of a segment
	from  int  // segment left over from taking it out
	fresh bool // made by the code: unset fields are zero
	wrote bool // a field other than the links was written
	nf    bool // a search in it finds nothing
	em    bool // nothing may be expected of it
}

type sseg struct {
	kind                                 byte // a any, h with an element, t without, Y/N attributes
	parent                               sv
	det                                  bool
	nf, em                               bool
	outPrev, outNext, outPrevE, outNextE sv
}

type sitem struct {
	seg bool
	es  bool
	id  int // 0: nil entry
}

type sarr struct {
	items []sitem
	fl    byte // c list of all members, e list of elements, 0 unknown
}

type sframe struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	pc   int
	regs map[ssa.Value]sv
	ret  ssa.Value // register of the caller for the result
	// built-in search loop
	nat  string
	seq  sv
	pred sv
	idx  sv
	seen bool
	args []sv // the arguments it was called with
}

type sstate struct {
	objs   map[int]*sobj
	segs   map[int]*sseg
	arrs   map[int]*sarr
	fr     []*sframe
	ghost  []int // arrays of the initial lists
	next   int
	result sv
	done   string // "", "return", "panic"
	extra  map[string]sv
	log    []string
	elems  bool // sequences are about elements only
	tmpl   func(s *sstate, id int) ([][]qpiece, []*sstate)
}

func (s *sstate) clone() *sstate {
	n := &sstate{objs: map[int]*sobj{}, segs: map[int]*sseg{}, arrs: map[int]*sarr{}, ghost: s.ghost, next: s.next, result: s.result, done: s.done, tmpl: s.tmpl, elems: s.elems, log: append([]string(nil), s.log...), extra: map[string]sv{}}
	for k, v := range s.extra {
		n.extra[k] = v
	}
	for k, v := range s.objs {
		o := *v
		o.fld = map[string]sv{}
		for f, x := range v.fld {
			o.fld[f] = x
		}
		n.objs[k] = &o
	}
	for k, v := range s.segs {
		g := *v
		n.segs[k] = &g
	}
	for k, v := range s.arrs {
		n.arrs[k] = &sarr{append([]sitem(nil), v.items...), v.fl}
	}
	for _, f := range s.fr {
		g := *f
		g.regs = map[ssa.Value]sv{}
		for r, v := range f.regs {
			g.regs[r] = v
		}
		n.fr = append(n.fr, &g)
	}
	return n
}

func (s *sstate) id() int { s.next++; return s.next }

// maxObjs bounds the nodes of a heap that are told apart.
const maxObjs = 18

type undecided struct{ msg string }

func unknownShape(f string, a ...any) { panic(undecided{fmt.Sprintf(f, a...)}) }

// each applies f to every value of the state.
func (s *sstate) each(f func(v sv) sv) {
	for _, o := range s.objs {
		for k, v := range o.fld {
			o.fld[k] = f(v)
		}
	}
	for _, g := range s.segs {
		g.parent, g.outPrev, g.outNext, g.outPrevE, g.outNextE = f(g.parent), f(g.outPrev), f(g.outNext), f(g.outPrevE), f(g.outNextE)
	}
	for _, fr := range s.fr {
		for k, v := range fr.regs {
			fr.regs[k] = f(v)
		}
		fr.seq, fr.pred, fr.idx = f(fr.seq), f(fr.pred), f(fr.idx)
	}
	for k, v := range s.extra {
		s.extra[k] = f(v)
	}
	s.result = f(s.result)
}

func mapSV(v sv, leaf func(v sv) sv) sv {
	if len(v.tup) > 0 {
		t := make([]sv, len(v.tup))
		for i, x := range v.tup {
			t[i] = mapSV(x, leaf)
		}
		v.tup = t
	}
	if len(v.bind) > 0 {
		t := make([]sv, len(v.bind))
		for i, x := range v.bind {
			t[i] = mapSV(x, leaf)
		}
		v.bind = t
	}
	return leaf(v)
}

func (s *sstate) substLen(k int, b slin) {
	s.each(func(v sv) sv {
		return mapSV(v, func(v sv) sv {
			v.l, v.h, v.off = v.l.sub(k, b), v.h.sub(k, b), v.off.sub(k, b)
			return v
		})
	})
}

func (s *sstate) substEdge(f func(v sv) sv) {
	s.each(func(v sv) sv {
		return mapSV(v, func(v sv) sv {
			if v.k == 'e' {
				return f(v)
			}
			return v
		})
	})
}

func segEnd(seg int, w byte) sv { return sv{k: 'e', id: seg, w: w} }
func ptr(id int) sv             { return sv{k: 'p', id: id} }

func (s *sstate) replaceItems(f func(it sitem) []sitem) {
	for _, a := range s.arrs {
		var out []sitem
		for _, it := range a.items {
			out = append(out, f(it)...)
		}
		a.items = out
	}
}

// split replaces segment g by [a?, x, b?]; ak, bk are the kinds of the rests (0: none).
func (s *sstate) split(g int, ak, xk, bk byte) *sstate {
	if len(s.objs) > maxObjs {
		unknownShape("more nodes would have to be told apart than the analysis does")
	}
	if s.segs[g].kind == 'c' {
		unknownShape("a look at the children of a child")
	}
	n := s.clone()
	S := *n.segs[g]
	attr := xk == 'Y' || xk == 'N'
	x := n.id()
	a, b := 0, 0
	if ak != 0 {
		a = n.id()
	}
	if bk != 0 {
		b = n.id()
	}
	pick := func(c bool, v, w sv) sv {
		if c {
			return v
		}
		return w
	}
	o := &sobj{kind: xk, fld: map[string]sv{}, mat: true, nf: S.nf, em: S.em}
	if b != 0 {
		o.from = b
	} else {
		o.from = a
	}
	if !attr {
		if S.det {
			for _, f := range linkFields {
				o.fld[f] = svNil
			}
		} else {
			o.fld["ParentNode"] = S.parent
			o.fld["PreviousSibling"] = pick(a != 0, segEnd(a, 'L'), S.outPrev)
			o.fld["NextSibling"] = pick(b != 0, segEnd(b, 'F'), S.outNext)
			o.fld["PreviousElementSibling"], o.fld["NextElementSibling"] = svNil, svNil
			if xk == 'E' {
				o.fld["PreviousElementSibling"] = pick(a != 0, segEnd(a, 'l'), S.outPrevE)
				o.fld["NextElementSibling"] = pick(b != 0, segEnd(b, 'f'), S.outNextE)
			}
		}
	}
	n.objs[x] = o
	if a != 0 {
		r := S
		r.kind = ak
		r.outNext = ptr(x)
		r.outNextE = pick(xk == 'E', ptr(x), pick(b != 0, segEnd(b, 'f'), S.outNextE))
		n.segs[a] = &r
	}
	if b != 0 {
		r := S
		r.kind = bk
		r.outPrev = ptr(x)
		r.outPrevE = pick(xk == 'E', ptr(x), pick(a != 0, segEnd(a, 'l'), S.outPrevE))
		n.segs[b] = &r
	}
	delete(n.segs, g)
	n.eachQ(func(q []qpiece) []qpiece {
		var out []qpiece
		hit := false
		for _, p := range q {
			if p.k == 'F' && p.seg && p.id == g {
				hit = true
				if a != 0 && !(s.elems && ak == 't') {
					out = append(out, qpiece{k: 'F', seg: true, id: a})
				}
				if !(s.elems && xk == 'T') {
					out = append(out, qpiece{k: 'F', id: x})
				}
				if b != 0 && !(s.elems && bk == 't') {
					out = append(out, qpiece{k: 'F', seg: true, id: b})
				}
				continue
			}
			out = append(out, p)
		}
		if !hit {
			return q
		}
		return out
	})
	n.replaceItems(func(it sitem) []sitem {
		if !it.seg || it.id != g {
			return []sitem{it}
		}
		var out []sitem
		if a != 0 && !(it.es && ak == 't') {
			out = append(out, sitem{true, it.es, a})
		}
		if !it.es || xk == 'E' {
			out = append(out, sitem{id: x})
		}
		if b != 0 && !(it.es && bk == 't') {
			out = append(out, sitem{true, it.es, b})
		}
		return out
	})
	all, els := slin{c: 1}, slin{}
	if xk == 'E' {
		els.c = 1
	}
	if a != 0 {
		all = all.add(linLen(2*a), 1)
		if ak != 't' {
			els = els.add(linLen(2*a+1), 1)
		}
	}
	if b != 0 {
		all = all.add(linLen(2*b), 1)
		if bk != 't' {
			els = els.add(linLen(2*b+1), 1)
		}
	}
	n.substLen(2*g, all)
	n.substLen(2*g+1, els)
	n.substEdge(func(v sv) sv {
		if v.id != g {
			return v
		}
		switch v.w {
		case 'F':
			return pick(a != 0, segEnd(a, 'F'), ptr(x))
		case 'L':
			return pick(b != 0, segEnd(b, 'L'), ptr(x))
		case 'f':
			return pick(a != 0, segEnd(a, 'f'), pick(xk == 'E', ptr(x), pick(b != 0, segEnd(b, 'f'), S.outNextE)))
		}
		return pick(b != 0, segEnd(b, 'l'), pick(xk == 'E', ptr(x), pick(a != 0, segEnd(a, 'l'), S.outPrevE)))
	})
	n.normEdges()
	return n
}

// normEdges passes element edges through segments without elements.
func (s *sstate) normEdges() {
	for i := 0; i < 10; i++ {
		ch := false
		s.substEdge(func(v sv) sv {
			g := s.segs[v.id]
			if g != nil && g.kind == 't' && (v.w == 'f' || v.w == 'l') {
				ch = true
				if v.w == 'f' {
					return g.outNextE
				}
				return g.outPrevE
			}
			return v
		})
		if !ch {
			return
		}
	}
}

// refine splits the case of a segment of unknown kind.
func (s *sstate) refine(g int) []*sstate {
	t := s.clone()
	t.segs[g].kind = 't'
	if t.elems {
		t.dropQ(qpiece{k: 'F', seg: true, id: g})
	}
	t.replaceItems(func(it sitem) []sitem {
		if it.seg && it.es && it.id == g {
			return nil
		}
		return []sitem{it}
	})
	t.substLen(2*g+1, slin{})
	t.normEdges()
	h := s.clone()
	h.segs[g].kind = 'h'
	return []*sstate{t, h}
}

// splitEnd materialises the first or last member of a segment.
func (s *sstate) splitEnd(g int, last bool) []*sstate {
	var out []*sstate
	add := func(xk byte, rests ...byte) {
		for _, r := range rests {
			if last {
				out = append(out, s.split(g, r, xk, 0))
			} else {
				out = append(out, s.split(g, 0, xk, r))
			}
		}
	}
	switch s.segs[g].kind {
	case 't':
		add('T', 0, 't')
	case 'h':
		add('E', 0, 'a')
		add('T', 'h')
	case 'a':
		add('E', 0, 'a')
		add('T', 0, 'a')
	default:
		add(s.segs[g].kind, 0, s.segs[g].kind)
	}
	return out
}

// splitElem materialises the first or last element of a segment.
func (s *sstate) splitElem(g int, last bool) []*sstate {
	switch s.segs[g].kind {
	case 'a':
		return s.refine(g)
	case 'h':
	default:
		unknownShape("no element in the segment")
	}
	var out []*sstate
	for _, near := range []byte{0, 't'} { // between the element and the end
		for _, far := range []byte{0, 'a'} {
			if last {
				out = append(out, s.split(g, far, 'E', near))
			} else {
				out = append(out, s.split(g, near, 'E', far))
			}
		}
	}
	return out
}

func (s *sstate) itemLen(it sitem) slin {
	if !it.seg {
		return slin{c: 1}
	}
	if it.es {
		return linLen(2*it.id + 1)
	}
	return linLen(2 * it.id)
}

func (s *sstate) arrLen(a int) slin {
	var l slin
	for _, it := range s.arrs[a].items {
		l = l.add(s.itemLen(it), 1)
	}
	return l
}

// sign decides the sign of a linear expression: -1, 0, 1, or 2 with a segment to refine.
func (s *sstate) sign(l slin) (int, []*sstate) {
	const inf = 1 << 30
	lo, hi := l.c, l.c
	for k, c := range l.t {
		min := 1
		if k%2 == 1 && s.segs[k/2] != nil && s.segs[k/2].kind == 'a' {
			min = 0
		}
		if c > 0 {
			lo += c * min
			hi = inf
		} else {
			hi += c * min
			lo = -inf
		}
		if lo < -inf/2 {
			lo = -inf
		}
		if hi > inf/2 {
			hi = inf
		}
	}
	switch {
	case lo > 0:
		return 1, nil
	case hi < 0:
		return -1, nil
	case lo == 0 && hi == 0:
		return 0, nil
	}
	var ks []int
	for k := range l.t {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		if k%2 == 1 && s.segs[k/2].kind == 'a' {
			return 2, s.refine(k / 2)
		}
	}
	for _, k := range ks {
		if k%2 == 1 {
			return 2, s.splitElem(k/2, true)
		}
		return 2, s.splitEnd(k/2, true)
	}
	unknownShape("comparison")
	return 0, nil
}

// cmpSigns decides only what an operator needs; res -1: fork.
func (s *sstate) cmp(l slin, op token.Token) (bool, []*sstate) {
	const inf = 1 << 30
	sg, forks := 0, []*sstate(nil)
	// cheap bounds first
	lo, hi := l.c, l.c
	for k, c := range l.t {
		min := 1
		if k%2 == 1 && s.segs[k/2] != nil && s.segs[k/2].kind == 'a' {
			min = 0
		}
		if c > 0 {
			lo, hi = lo+c*min, inf
		} else {
			lo, hi = -inf, hi+c*min
		}
	}
	if len(l.t) > 0 {
		pos, neg := false, false
		for _, c := range l.t {
			pos, neg = pos || c > 0, neg || c < 0
		}
		if pos && neg {
			lo, hi = -inf, inf
		}
	}
	switch op {
	case token.LSS:
		if hi < 0 {
			return true, nil
		}
		if lo >= 0 {
			return false, nil
		}
	case token.LEQ:
		if hi <= 0 {
			return true, nil
		}
		if lo > 0 {
			return false, nil
		}
	case token.GTR:
		if lo > 0 {
			return true, nil
		}
		if hi <= 0 {
			return false, nil
		}
	case token.GEQ:
		if lo >= 0 {
			return true, nil
		}
		if hi < 0 {
			return false, nil
		}
	case token.EQL, token.NEQ:
		if lo > 0 || hi < 0 {
			return op == token.NEQ, nil
		}
		if lo == 0 && hi == 0 {
			return op == token.EQL, nil
		}
	}
	sg, forks = s.sign(l)
	if sg == 2 {
		return false, forks
	}
	switch op {
	case token.LSS:
		return sg < 0, nil
	case token.LEQ:
		return sg <= 0, nil
	case token.GTR:
		return sg > 0, nil
	case token.GEQ:
		return sg >= 0, nil
	case token.EQL:
		return sg == 0, nil
	}
	return sg != 0, nil
}

// cutAt finds the index of the item starting at position p of the array.
func (s *sstate) cutAt(a int, p slin) (int, []*sstate) {
	items := s.arrs[a].items
	var pre slin
	for i, it := range items {
		if d := p.add(pre, -1); d.zero() {
			// a position in front of possibly empty parts: any cut among them will do,
			// unless an element is wanted there
			return i, nil
		}
		n := pre.add(s.itemLen(it), 1)
		if it.seg {
			if d := p.add(pre, -1); d.c == 1 && len(d.t) == 0 { // one past the start of a segment
				if it.es {
					return 0, s.splitElem(it.id, false)
				}
				return 0, s.splitEnd(it.id, false)
			}
			if d := p.add(n, -1); d.c == -1 && len(d.t) == 0 { // one before its end
				if it.es {
					return 0, s.splitElem(it.id, true)
				}
				return 0, s.splitEnd(it.id, true)
			}
		}
		pre = n
	}
	if p.add(pre, -1).zero() {
		return len(items), nil
	}
	for _, it := range items {
		if it.seg && it.es && s.segs[it.id].kind == 'a' {
			return 0, s.refine(it.id)
		}
	}
	if b, f := s.cmp(p.add(pre, -1), token.GTR); f == nil && b {
		return -1, nil
	}
	if b, f := s.cmp(p, token.LSS); f == nil && b {
		return -1, nil
	}
	unknownShape("position inside of a segment")
	return 0, nil
}

// items returns the contents of a slice.
func (s *sstate) items(v sv) ([]sitem, []*sstate) {
	if v.id == 0 {
		return nil, nil
	}
	lo, f := s.cutAt(v.id, v.l)
	if f != nil {
		return nil, f
	}
	hi, f := s.cutAt(v.id, v.h)
	if f != nil {
		return nil, f
	}
	if lo < 0 || hi < 0 || lo > hi {
		unknownShape("slice out of range")
	}
	return append([]sitem(nil), s.arrs[v.id].items[lo:hi]...), nil
}

func (s *sstate) newArr(items []sitem) sv {
	id := s.id()
	s.arrs[id] = &sarr{items: append([]sitem(nil), items...)}
	return sv{k: 's', id: id, h: s.arrLen(id)}
}

// itemAt resolves the element at a position: the index of its item, which is an object.
func (s *sstate) itemAt(a int, p slin) (int, []*sstate) {
	items := s.arrs[a].items
	var pre slin
	for i, it := range items {
		if d := p.add(pre, -1); d.zero() {
			if !it.seg {
				return i, nil
			}
			if it.es {
				return 0, s.splitElem(it.id, false)
			}
			return 0, s.splitEnd(it.id, false)
		}
		n := pre.add(s.itemLen(it), 1)
		if d := p.add(n, -1); it.seg && d.c == -1 && len(d.t) == 0 {
			if it.es {
				return 0, s.splitElem(it.id, true)
			}
			return 0, s.splitEnd(it.id, true)
		}
		pre = n
	}
	for _, it := range items {
		if it.seg && it.es && s.segs[it.id].kind == 'a' {
			return 0, s.refine(it.id)
		}
	}
	if b, f := s.cmp(p.add(pre, -1), token.GEQ); f == nil && b {
		return -1, nil
	}
	if b, f := s.cmp(p, token.LSS); f == nil && b {
		return -1, nil
	}
	unknownShape("index inside of a segment")
	return 0, nil
}

// overwrite puts items into the array from position p on.
func (s *sstate) overwrite(a int, p slin, items []sitem) []*sstate {
	var n slin
	for _, it := range items {
		n = n.add(s.itemLen(it), 1)
	}
	lo, f := s.cutAt(a, p)
	if f != nil {
		return f
	}
	hi, f := s.cutAt(a, p.add(n, 1))
	if f != nil {
		return f
	}
	if lo < 0 || hi < 0 {
		unknownShape("write out of range")
	}
	old := s.arrs[a].items
	s.arrs[a].items = append(append(append([]sitem(nil), old[:lo]...), items...), old[hi:]...)
	return nil
}

var linkFields = []string{"ParentNode", "PreviousSibling", "NextSibling", "PreviousElementSibling", "NextElementSibling"}

func isLink(f string) bool {
	for _, l := range linkFields {
		if l == f {
			return true
		}
	}
	return false
}

// gc drops arrays nobody refers to.
func (s *sstate) gc() {
	live := map[int]bool{}
	for _, g := range s.ghost {
		live[g] = true
	}
	s.each(func(v sv) sv {
		mapSV(v, func(v sv) sv {
			if v.k == 's' || v.k == 'I' || v.k == 'r' {
				live[v.id] = true
			}
			return v
		})
		return v
	})
	for a := range s.arrs {
		if !live[a] {
			delete(s.arrs, a)
		}
	}
	// lists of members that were folded
	used := map[int]bool{}
	for _, a := range s.arrs {
		for _, it := range a.items {
			used[it.id] = true
		}
	}
	s.eachQ(func(q []qpiece) []qpiece {
		for _, p := range q {
			used[p.id] = true
		}
		return q
	})
	for id, g := range s.segs {
		if (g.kind == 'c' || g.kind == 'N') && !used[id] {
			delete(s.segs, id)
		}
	}
	for id, o := range s.objs {
		if o.kind == 'V' || o.kind == 'N' && o.mat && !used[id] {
			ref := false
			s.each(func(v sv) sv {
				mapSV(v, func(v sv) sv {
					if v.id == id && (v.k == 'p' || v.k == 'A' || v.k == 'K' || v.k == 'S' || v.k == 'v') {
						ref = true
					}
					return v
				})
				return v
			})
			if !ref {
				delete(s.objs, id)
			}
		}
	}
}

// fold puts materialised objects nobody looks at any more back into segments.
func (s *sstate) fold() {
	s.gc()
	s.normQ()
	for {
		if !s.foldOne() && !s.joinOne() {
			return
		}
	}
}

func (s *sstate) foldOne() bool {
	var ids []int
	for id, o := range s.objs {
		if o.mat && !o.wrote && len(o.fld) >= 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
next:
	for _, x := range ids {
		o := s.objs[x]
		attr := o.kind == 'Y' || o.kind == 'N'
		if o.kind == 'Y' {
			continue
		}
		// referred to by a variable?
		used := false
		for _, fr := range s.fr {
			for _, v := range fr.regs {
				mapSV(v, func(v sv) sv {
					if (v.k == 'p' || v.k == 'A' || v.k == 'K' || v.k == 'S' || v.k == 'H') && v.id == x {
						used = true
					}
					return v
				})
			}
			for _, v := range []sv{fr.pred, fr.idx, fr.seq} {
				mapSV(v, func(v sv) sv {
					if (v.k == 'p' || v.k == 'A' || v.k == 'K' || v.k == 'S' || v.k == 'H') && v.id == x {
						used = true
					}
					return v
				})
			}
		}
		for _, v := range s.extra {
			if v.k == 'p' && v.id == x {
				used = true
			}
		}
		// a list that holds it twice would grow twice as fast as it
		for _, a := range s.arrs {
			n := 0
			for _, it := range a.items {
				if !it.seg && it.id == x {
					n++
				}
			}
			if n > 1 {
				used = true
			}
		}
		if used || s.looseQ(x) {
			continue
		}
		par := o.fld["ParentNode"]
		det := !attr
		for _, f := range linkFields {
			if o.fld[f].k != 'n' {
				det = false
			}
		}
		if o.kind == 'T' && (o.fld["PreviousElementSibling"].k != 'n' || o.fld["NextElementSibling"].k != 'n') {
			continue
		}
		// neighbours in every list
		left, right := -2, -2 // -1: not the same everywhere
		nei := func(p *int, it *sitem) {
			g := 0
			if it != nil && it.seg {
				g = it.id
			}
			if *p == -2 {
				*p = g
			} else if *p != g {
				*p = -1
			}
		}
		for _, a := range s.arrs {
			for i, it := range a.items {
				if it.seg || it.id != x {
					continue
				}
				var l, r *sitem
				if i > 0 {
					l = &a.items[i-1]
				}
				if i+1 < len(a.items) {
					r = &a.items[i+1]
				}
				nei(&left, l)
				nei(&right, r)
			}
		}
		// every place of the segment must be next to x
		beside := func(g int, d int) bool {
			for _, a := range s.arrs {
				for i, it := range a.items {
					if !it.seg || it.id != g || it.es && o.kind != 'E' {
						continue
					}
					j := i + d
					if j < 0 || j >= len(a.items) || a.items[j].seg || a.items[j].id != x {
						return false
					}
				}
			}
			return true
		}
		try := func(g int, xRight bool) bool {
			S := s.segs[g]
			none := s.elems && (o.kind == 'T' || S != nil && S.kind == 't')
			if S == nil || g == o.from || S.nf != o.nf && !none || s.between(x, g, xRight) {
				return false
			}
			if pg, px := (qpiece{k: 'F', seg: true, id: g}), (qpiece{k: 'F', id: x}); !none && (xRight && !s.fitQ(pg, px) || !xRight && !s.fitQ(px, pg)) {
				return false
			}
			d := -1
			if xRight {
				d = 1
			}
			if !beside(g, d) {
				return false
			}
			if !attr {
				if S.det != det || !sameSV(S.parent, par) {
					return false
				}
				if !det {
					if xRight {
						if !sameSV(S.outNext, ptr(x)) || !sameSV(o.fld["PreviousSibling"], segEnd(g, 'L')) {
							return false
						}
						if o.kind == 'E' && (!sameSV(S.outNextE, ptr(x)) || !sameSV(o.fld["PreviousElementSibling"], s.normE(segEnd(g, 'l')))) {
							return false
						}
					} else {
						if !sameSV(S.outPrev, ptr(x)) || !sameSV(o.fld["NextSibling"], segEnd(g, 'F')) {
							return false
						}
						if o.kind == 'E' && (!sameSV(S.outPrevE, ptr(x)) || !sameSV(o.fld["NextElementSibling"], s.normE(segEnd(g, 'f')))) {
							return false
						}
					}
				}
			} else if S.kind != o.kind {
				return false
			}
			return true
		}
		if left > 0 && try(left, true) && s.merge(x, left, true) {
			return true
		}
		if right > 0 && try(right, false) && s.merge(x, right, false) {
			return true
		}
		// next to a segment it must not be merged with, or between named objects: alone
		if (det || o.from != 0 && s.segs[o.from] != nil) && s.alone(x, det) {
			return true
		}
		continue next
	}
	return false
}

// between: a position in use lies between x and the segment g next to it.
func (s *sstate) between(x, g int, xRight bool) bool {
	cuts := map[int]slin{}
	for id, a := range s.arrs {
		var pre slin
		for i, it := range a.items {
			if !it.seg && it.id == x {
				if xRight && i > 0 && a.items[i-1].seg && a.items[i-1].id == g {
					cuts[id] = pre
				}
				if !xRight && i+1 < len(a.items) && a.items[i+1].seg && a.items[i+1].id == g {
					cuts[id] = pre.plus(1)
				}
			}
			pre = pre.add(s.itemLen(it), 1)
		}
	}
	hit := false
	s.each(func(v sv) sv {
		mapSV(v, func(v sv) sv {
			chk := func(id int, l slin, idx bool) {
				c, ok := cuts[id]
				if !ok {
					return
				}
				d := l.add(c, -1)
				if len(d.t) == 0 && (d.c == 0 && !(idx && xRight) || idx && d.c == -1) {
					hit = true
				}
			}
			switch v.k {
			case 's':
				chk(v.id, v.l, false)
				chk(v.id, v.h, false)
			case 'I':
				chk(v.id, v.l, false)
			case 'i':
				chk(v.tag, v.l.add(v.off, 1), true)
			}
			return v
		})
		return v
	})
	return hit
}

// joinOne makes one segment of two adjacent ones that nothing tells apart.
func (s *sstate) joinOne() bool {
	for _, gi := range s.ghost {
		items := s.arrs[gi].items
		for i := 0; i+1 < len(items); i++ {
			a, b := items[i], items[i+1]
			if a.seg && b.seg && !a.es && !b.es && s.join(a.id, b.id) {
				return true
			}
		}
	}
	return false
}

func (s *sstate) join(g, h int) bool {
	G, H := s.segs[g], s.segs[h]
	none := s.elems && (G.kind == 't' || H.kind == 't')
	if !none && (G.nf != H.nf || !s.fitQ(qpiece{k: 'F', seg: true, id: g}, qpiece{k: 'F', seg: true, id: h})) {
		return false
	}
	attr := G.kind == 'N' || G.kind == 'Y'
	if attr && G.kind != H.kind || G.det != H.det {
		return false
	}
	gt, ht := G.kind == 't', H.kind == 't'
	if !attr {
		if !sameSV(G.parent, H.parent) {
			return false
		}
		if !G.det {
			if !sameSV(G.outNext, segEnd(h, 'F')) || !sameSV(H.outPrev, segEnd(g, 'L')) || !sameSV(G.outNextE, s.normE(segEnd(h, 'f'))) || !sameSV(H.outPrevE, s.normE(segEnd(g, 'l'))) {
				return false
			}
		}
	}
	// adjacent in all lists
	for _, a := range s.arrs {
		for i, it := range a.items {
			if !it.seg || it.id != g && it.id != h || it.es && (gt || ht) {
				continue
			}
			j, o := i+1, h
			if it.id == h {
				j, o = i-1, g
			}
			if j < 0 || j >= len(a.items) || a.items[j] != (sitem{true, it.es, o}) {
				return false
			}
		}
	}
	// no position and no link between them
	ok := true
	gNextE, hPrevE := G.outNextE, H.outPrevE
	G.outNext, H.outPrev = svNil, svNil
	save := func() {}
	if !G.det && !attr {
		n, p := segEnd(h, 'F'), segEnd(g, 'L')
		save = func() { G.outNext, H.outPrev, G.outNextE, H.outPrevE = n, p, gNextE, hPrevE }
		if !ht {
			G.outNextE = svNil
		}
		if !gt {
			H.outPrevE = svNil
		}
	} else {
		save = func() { G.outNext, H.outPrev = svNil, svNil }
	}
	s.each(func(v sv) sv {
		mapSV(v, func(v sv) sv {
			for _, l := range []slin{v.l, v.h, v.off} {
				if l.t[2*g] != l.t[2*h] || !gt && !ht && l.t[2*g+1] != l.t[2*h+1] {
					ok = false
				}
			}
			if v.k == 'e' && (v.id == g && (v.w == 'L' || v.w == 'l' && !ht) || v.id == h && (v.w == 'F' || v.w == 'f' && !gt)) {
				ok = false
			}
			return v
		})
		return v
	})
	if !ok {
		save()
		return false
	}
	N := *G
	N.outNext = H.outNext
	if !ht {
		N.outNextE = H.outNextE
	} else {
		N.outNextE = gNextE
	}
	if gt {
		N.outPrevE = hPrevE
		if ht {
			N.outPrevE = G.outPrevE
		}
	}
	switch {
	case attr || gt && ht:
	case G.kind == 'h' || H.kind == 'h':
		N.kind = 'h'
	default:
		N.kind = 'a'
	}
	*G = N
	s.substLen(2*h, slin{})
	if gt {
		s.substLen(2*h+1, linLen(2*g+1))
	} else {
		s.substLen(2*h+1, slin{})
	}
	s.substEdge(func(v sv) sv {
		if v.id == h {
			v.id = g
		}
		return v
	})
	s.replaceItems(func(it sitem) []sitem {
		if it.seg && it.id == h {
			if it.es && gt {
				return []sitem{{true, true, g}}
			}
			return nil
		}
		return []sitem{it}
	})
	for _, o := range s.objs {
		if o.from == h {
			o.from = g
		}
	}
	if s.elems && gt {
		s.renameQ(qpiece{k: 'F', seg: true, id: h}, qpiece{k: 'F', seg: true, id: g})
		s.segs[g].nf, s.segs[g].em = H.nf, H.em
	} else {
		s.takeQ(qpiece{k: 'F', seg: true, id: g}, qpiece{k: 'F', seg: true, id: h})
		if !(s.elems && ht) {
			s.segs[g].em = G.em && H.em
		}
	}
	delete(s.segs, h)
	return true
}

func (s *sstate) normE(v sv) sv {
	for i := 0; i < 10 && v.k == 'e'; i++ {
		g := s.segs[v.id]
		if g == nil || g.kind != 't' {
			return v
		}
		if v.w == 'f' {
			v = g.outNextE
		} else if v.w == 'l' {
			v = g.outPrevE
		} else {
			return v
		}
	}
	return v
}

func sameSV(a, b sv) bool {
	return a.k == b.k && a.id == b.id && a.w == b.w
}

// refsOK checks that the only references to x left are regular links, and redirects them
// to the ends of the segment g.
func (s *sstate) redirect(x, g int, isFirst, isLast, onlyE bool, apply bool) bool {
	ok := true
	kind := s.objs[x].kind
	re := func(field string, v sv) sv {
		if v.k == 's' || v.k == 'i' || v.k == 'o' || v.k == 'n' || v.k == 'e' || v.k == 'b' {
			return v
		}
		if !(v.k == 'p' || v.k == 'A' || v.k == 'K') || v.id != x {
			return v
		}
		switch {
		case field == "PreviousSibling" && isLast:
			return segEnd(g, 'L')
		case field == "NextSibling" && isFirst:
			return segEnd(g, 'F')
		case field == "PreviousElementSibling" && kind == 'E' && (isLast || onlyE):
			return segEnd(g, 'l')
		case field == "NextElementSibling" && kind == 'E' && (isFirst || onlyE):
			return segEnd(g, 'f')
		}
		ok = false
		return v
	}
	for id, o := range s.objs {
		if id == x {
			continue
		}
		for f, v := range o.fld {
			r := re(f, v)
			if apply {
				o.fld[f] = r
			}
		}
	}
	for id, q := range s.segs {
		a, b, c, d, p := re("PreviousSibling", q.outPrev), re("NextSibling", q.outNext), re("PreviousElementSibling", q.outPrevE), re("NextElementSibling", q.outNextE), re("", q.parent)
		if id == g {
			continue
		}
		if apply {
			q.outPrev, q.outNext, q.outPrevE, q.outNextE, q.parent = a, b, c, d, p
		}
	}
	return ok
}

func (s *sstate) merge(x, g int, xRight bool) bool {
	o := s.objs[x]
	S := s.segs[g]
	attr := o.kind == 'N'
	det := S.det
	if !attr {
		// links inside of the new segment are dropped, links from outside go to its ends
		save := *S
		if !det {
			if xRight {
				S.outNext = svNil
				if o.kind == 'E' {
					S.outNextE = svNil
				}
			} else {
				S.outPrev = svNil
				if o.kind == 'E' {
					S.outPrevE = svNil
				}
			}
		}
		if !s.redirect(x, g, !xRight, xRight, S.kind == 't', false) {
			*S = save
			return false
		}
		s.redirect(x, g, !xRight, xRight, S.kind == 't', true)
		if !det {
			if xRight {
				S.outNext = o.fld["NextSibling"]
				if o.kind == 'E' && S.kind == 't' {
					S.outPrevE = o.fld["PreviousElementSibling"]
				}
				if o.kind == 'E' {
					S.outNextE = o.fld["NextElementSibling"]
				}
			} else {
				S.outPrev = o.fld["PreviousSibling"]
				if o.kind == 'E' && S.kind == 't' {
					S.outNextE = o.fld["NextElementSibling"]
				}
				if o.kind == 'E' {
					S.outPrevE = o.fld["PreviousElementSibling"]
				}
			}
		}
	}
	els := linLen(2*g + 1)
	if o.kind == 'E' {
		if S.kind == 't' {
			// there was no length of the elements so far
			s.replaceItems(func(it sitem) []sitem { return []sitem{it} })
		}
		els = els.plus(-1)
	}
	wasT := S.kind == 't'
	switch {
	case o.kind == 'E':
		S.kind = 'h'
	case S.kind == 't', S.kind == 'a', S.kind == 'h', S.kind == 'N':
	}
	if wasT && o.kind == 'E' {
		// the element x alone stands for the elements of the segment
		s.reanchor(x, 2*g+1, func(it sitem) []sitem { return nil }, true, g)
	}
	s.substLen(2*g, linLen(2*g).plus(-1))
	if !wasT {
		s.substLen(2*g+1, els)
	}
	s.replaceItems(func(it sitem) []sitem {
		if !it.seg && it.id == x {
			return nil
		}
		return []sitem{it}
	})
	if s.elems && wasT && o.kind == 'E' {
		s.renameQ(qpiece{k: 'F', id: x}, qpiece{k: 'F', seg: true, id: g})
		S.nf, S.em = o.nf, s.mayBeEmpty(x)
	} else {
		s.takeQ(qpiece{k: 'F', seg: true, id: g}, qpiece{k: 'F', id: x})
		if !(s.elems && o.kind == 'T') {
			S.em = S.em && s.mayBeEmpty(x)
		}
	}
	delete(s.objs, x)
	return true
}

// reanchor is used when x in lists of elements becomes the elements of a segment; plain
// positions tagged with such an array are re-expressed by the new length.
func (s *sstate) reanchor(x, key int, _ func(sitem) []sitem, es bool, g int) {
	// arrays with x but without the segment itself are lists of elements
	arr := map[int]bool{}
	for id, a := range s.arrs {
		hasX, hasG := false, false
		for _, it := range a.items {
			hasX = hasX || !it.seg && it.id == x
			hasG = hasG || it.seg && it.id == g && !it.es
		}
		if hasX && !hasG {
			arr[id] = true
		}
	}
	s.moveAnchors(x, arr, func() {
		for id := range arr {
			var out []sitem
			for _, it := range s.arrs[id].items {
				if !it.seg && it.id == x {
					out = append(out, sitem{true, true, g})
				} else {
					out = append(out, it)
				}
			}
			s.arrs[id].items = out
		}
	})
}

// moveAnchors applies a change of arrays that keeps the number of items and re-expresses
// the positions tagged with them.
func (s *sstate) moveAnchors(x int, arr map[int]bool, change func()) {
	old := map[int][]sitem{}
	for id := range arr {
		old[id] = append([]sitem(nil), s.arrs[id].items...)
	}
	before := map[int][]slin{}
	for id := range arr {
		var pre slin
		ps := []slin{pre}
		for _, it := range s.arrs[id].items {
			pre = pre.add(s.itemLen(it), 1)
			ps = append(ps, pre)
		}
		before[id] = ps
	}
	change()
	after := map[int][]slin{}
	for id := range arr {
		var pre slin
		ps := []slin{pre}
		for _, it := range s.arrs[id].items {
			pre = pre.add(s.itemLen(it), 1)
			ps = append(ps, pre)
		}
		after[id] = ps
	}
	mv := func(id int, l slin, idx bool) slin {
		if idx {
			// the position of the member itself: counted from its end
			for i, it := range old[id] {
				if !it.seg && it.id == x && l.add(before[id][i], -1).zero() {
					return after[id][i+1].plus(-1)
				}
			}
		}
		for _, d := range []int{0, -1, 1} {
			for i, p := range before[id] {
				if l.add(p, -1).plus(-d).zero() {
					return after[id][i].plus(d)
				}
			}
		}
		return l
	}
	s.each(func(v sv) sv {
		return mapSV(v, func(v sv) sv {
			switch {
			case v.k == 's' && arr[v.id]:
				v.l, v.h = mv(v.id, v.l, false), mv(v.id, v.h, false)
			case v.k == 'I' && arr[v.id]:
				v.l = mv(v.id, v.l, false)
			case v.k == 'i' && arr[v.tag]:
				o := mv(v.tag, v.off, false)
				v.l, v.off = mv(v.tag, v.l.add(v.off, 1), true).add(o, -1), o
			}
			return v
		})
	})
}

// alone makes a segment of x only.
func (s *sstate) alone(x int, det bool) bool {
	o := s.objs[x]
	g := s.next + 1
	if o.kind != 'N' && !det && !s.redirect(x, g, true, true, true, false) {
		return false
	}
	if det && !s.redirect(x, g, false, false, false, false) {
		return false
	}
	arr := map[int]bool{}
	isAll := map[int]bool{}
	for id, a := range s.arrs {
		for _, it := range a.items {
			if !it.seg && it.id == x {
				arr[id] = true
			}
		}
	}
	if o.kind == 'E' {
		// lists of all nodes or of the elements: lists of elements hold elements only
		for id := range arr {
			switch s.flavour(id) {
			case 'c':
				isAll[id] = true
			case 0:
				return false
			}
		}
	}
	S := &sseg{nf: o.nf, em: s.mayBeEmpty(x), parent: o.fld["ParentNode"], det: det, outPrev: o.fld["PreviousSibling"], outNext: o.fld["NextSibling"], outPrevE: o.fld["PreviousElementSibling"], outNextE: o.fld["NextElementSibling"]}
	switch o.kind {
	case 'E':
		S.kind = 'h'
	case 'T':
		S.kind = 't'
		if !det {
			// the element links of a segment without elements lead past it
			S.outPrevE, S.outNextE = s.elemBeside(x, true), s.elemBeside(x, false)
			if S.outPrevE.k == 0 || S.outNextE.k == 0 {
				return false
			}
		}
	default:
		S.kind = o.kind
		S.parent, S.outPrev, S.outNext, S.outPrevE, S.outNextE = svNil, svNil, svNil, svNil, svNil
	}
	if o.kind != 'N' && !det {
		s.redirect(x, g, true, true, true, true)
	}
	s.id()
	s.segs[g] = S
	s.moveAnchors(x, arr, func() {
		for id := range arr {
			for i, it := range s.arrs[id].items {
				if !it.seg && it.id == x {
					s.arrs[id].items[i] = sitem{true, o.kind == 'E' && !isAll[id], g}
				}
			}
		}
	})
	s.renameQ(qpiece{k: 'F', id: x}, qpiece{k: 'F', seg: true, id: g})
	delete(s.objs, x)
	return true
}

// flavour tells whether the array lists all members or the elements only.
func (s *sstate) flavour(id int) byte {
	a := s.arrs[id]
	if a.fl != 0 {
		return a.fl
	}
	for _, it := range a.items {
		if it.seg && it.es {
			return 'e'
		}
		if it.seg || s.objs[it.id] != nil && s.objs[it.id].kind != 'E' {
			return 'c'
		}
	}
	return 0
}

// elemBeside finds the element before or after x along the links.
func (s *sstate) elemBeside(x int, before bool) sv {
	f, w, we := "NextSibling", byte('F'), byte('f')
	if before {
		f, w, we = "PreviousSibling", 'L', 'l'
	}
	for i := 0; i < 20; i++ {
		v := s.objs[x].fld[f]
		switch {
		case v.k == 'n':
			return svNil
		case v.k == 'p' && s.objs[v.id] != nil && s.objs[v.id].kind == 'E':
			return v
		case v.k == 'p' && s.objs[v.id] != nil && s.objs[v.id].kind == 'T':
			x = v.id
		case v.k == 'e' && v.w == w:
			return s.normE(segEnd(v.id, we))
		default:
			return svNone
		}
	}
	return svNone
}

// key is a canonical description of the state.
func (s *sstate) key() string {
	var b strings.Builder
	num := map[string]int{}
	name := func(k string, id int) string {
		x := fmt.Sprintf("%s%d", k, id)
		if n, ok := num[x]; ok {
			return fmt.Sprintf("%s%d", k, n)
		}
		num[x] = len(num) + 1
		return fmt.Sprintf("%s%d", k, num[x])
	}
	// segments and objects in the order of the initial lists
	for _, g := range s.ghost {
		for _, it := range s.arrs[g].items {
			if it.seg {
				name("g", it.id)
			} else {
				name("o", it.id)
			}
		}
	}
	var arrs []int
	seenA := map[int]bool{}
	var objs []int
	seenO := map[int]bool{}
	ls := func(l slin) string {
		var ks []string
		for k, c := range l.t {
			ks = append(ks, fmt.Sprintf("%d*%s.%d", c, name("g", k/2), k%2))
		}
		sort.Strings(ks)
		return fmt.Sprint(l.c, ks)
	}
	var vs func(v sv) string
	vs = func(v sv) string {
		switch v.k {
		case 'p', 'A', 'K':
			if !seenO[v.id] {
				seenO[v.id] = true
				objs = append(objs, v.id)
			}
			return string(v.k) + name("o", v.id) + v.fld
		case 'S', 'H':
			if v.id != 0 {
				return string(v.k) + v.fld + name("o", v.id)
			}
		case 'q', 'Q':
			r := string(v.k)
			for _, p := range v.qs {
				switch {
				case p.id == 0:
					r += " " + string(p.k) + p.txt
				case p.seg:
					r += " " + string(p.k) + p.txt + name("g", p.id)
				default:
					r += " " + string(p.k) + p.txt + vs(ptr(p.id))
				}
			}
			return r
		case 'e':
			return "e" + name("g", v.id) + string(v.w)
		case 'i':
			if !v.off.zero() {
				return "i" + ls(v.l) + "@" + ls(v.off)
			}
			return "i" + ls(v.l)
		case 's', 'I', 'r':
			if v.id != 0 && !seenA[v.id] {
				seenA[v.id] = true
				arrs = append(arrs, v.id)
			}
			return string(v.k) + name("a", v.id) + ls(v.l) + ls(v.h)
		case 'b':
			return fmt.Sprint("b", v.b)
		case 'f':
			r := "f" + v.fn.String()
			for _, x := range v.bind {
				r += "," + vs(x)
			}
			return r
		case 't':
			r := "t("
			for _, x := range v.tup {
				r += vs(x) + ","
			}
			return r + ")"
		}
		return string(v.k) + v.fld
	}
	for _, f := range s.fr {
		if f.nat != "" {
			fmt.Fprintf(&b, "|%s %s %s %s", f.nat, vs(f.seq), vs(f.pred), vs(f.idx))
			continue
		}
		fmt.Fprintf(&b, "|%s %d %d", f.fn, f.blk.Index, f.pc)
		var rs []ssa.Value
		for r := range f.regs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].Name() < rs[j].Name() })
		for _, r := range rs {
			fmt.Fprintf(&b, " %s=%s", r.Name(), vs(f.regs[r]))
		}
	}
	var eks []string
	for k := range s.extra {
		eks = append(eks, k)
	}
	sort.Strings(eks)
	for _, k := range eks {
		fmt.Fprintf(&b, "|%s=%s", k, vs(s.extra[k]))
	}
	for _, g := range s.ghost {
		vs(sv{k: 's', id: g})
		for _, it := range s.arrs[g].items {
			if !it.seg && it.id != 0 {
				vs(ptr(it.id))
			}
		}
	}
	di := 0
	do := 0
	for di < len(arrs) || do < len(objs) {
		for ; di < len(arrs); di++ {
			fmt.Fprintf(&b, "\na%s:", name("a", arrs[di]))
			if s.arrs[arrs[di]] == nil {
				continue
			}
			for _, it := range s.arrs[arrs[di]].items {
				if it.seg {
					fmt.Fprintf(&b, " %s.%v", name("g", it.id), it.es)
				} else if it.id == 0 {
					b.WriteString(" nil")
				} else {
					b.WriteString(" " + vs(ptr(it.id)))
				}
			}
		}
		for ; do < len(objs); do++ {
			o := s.objs[objs[do]]
			if o == nil {
				continue
			}
			fmt.Fprintf(&b, "\n%s %c%v%v%v%v:", name("o", objs[do]), o.kind, o.mat, o.wrote, o.nf, o.em)
			var fs []string
			for f := range o.fld {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				fmt.Fprintf(&b, " %s=%s", f, vs(o.fld[f]))
			}
		}
	}
	var gs []string
	for id, g := range s.segs {
		gs = append(gs, fmt.Sprintf("%s %c%v%v%v %s %s %s %s %s", name("g", id), g.kind, g.det, g.nf, g.em, vs(g.parent), vs(g.outPrev), vs(g.outNext), vs(g.outPrevE), vs(g.outNextE)))
	}
	sort.Strings(gs)
	b.WriteString(strings.Join(gs, "\n"))
	return b.String()
}

var _ = constant.Int
var _ = types.Typ
