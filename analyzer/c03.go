package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C03"] = checkC03 }

// shapeInit is an initial heap under construction.
type shapeInit struct {
	s     *sstate
	names map[int]string
}

func newShapeInit() *shapeInit {
	return &shapeInit{&sstate{objs: map[int]*sobj{}, segs: map[int]*sseg{}, arrs: map[int]*sarr{}, extra: map[string]sv{}}, map[int]string{}}
}

func (h *shapeInit) obj(kind byte, name string) int {
	id := h.s.id()
	o := &sobj{kind: kind, fld: map[string]sv{}}
	for _, f := range linkFields {
		o.fld[f] = svNil
	}
	h.s.objs[id] = o
	h.names[id] = name
	h.s.extra[name] = ptr(id)
	return id
}

func (h *shapeInit) seg() sitem {
	id := h.s.id()
	h.s.segs[id] = &sseg{kind: 'a'}
	return sitem{true, false, id}
}

// list makes items the children of the node p, with all links regular.
func (s *sstate) linkList(p int, items []sitem) {
	els := s.relink(p, items)
	a, b := s.newArr(items), s.newArr(els)
	s.arrs[a.id].fl, s.arrs[b.id].fl = 'c', 'e'
	s.objs[p].fld["ChildNodes"], s.objs[p].fld["Children"] = a, b
	ga, gb := s.newArr(items), s.newArr(els)
	s.arrs[ga.id].fl, s.arrs[gb.id].fl = 'c', 'e'
	s.ghost = append(append([]int(nil), s.ghost...), ga.id, gb.id)
	s.extra[fmt.Sprintf("list of %d", p)] = ga
	s.extra[fmt.Sprintf("elems of %d", p)] = gb
}

// relink makes the links of the items regular and returns the elements among them.
func (s *sstate) relink(p int, items []sitem) []sitem {
	set := func(i int, f string, v sv) {
		it := items[i]
		if !it.seg {
			s.objs[it.id].fld[f] = v
			return
		}
		g := s.segs[it.id]
		switch f {
		case "ParentNode":
			g.parent = v
		case "PreviousSibling":
			g.outPrev = v
		case "NextSibling":
			g.outNext = v
		case "PreviousElementSibling":
			g.outPrevE = v
		case "NextElementSibling":
			g.outNextE = v
		}
	}
	var els []sitem
	for i, it := range items {
		set(i, "ParentNode", ptr(p))
		prev, next, prevE, nextE := svNil, svNil, svNil, svNil
		if i > 0 {
			prev = s.endOf(items[i-1], true)
		}
		if i+1 < len(items) {
			next = s.endOf(items[i+1], false)
		}
		prevE, nextE = s.elemNear(items, i, -1), s.elemNear(items, i, 1)
		set(i, "PreviousSibling", prev)
		set(i, "NextSibling", next)
		if it.seg || s.objs[it.id].kind == 'E' {
			set(i, "PreviousElementSibling", prevE)
			set(i, "NextElementSibling", nextE)
		}
		if it.seg {
			if s.segs[it.id].kind != 't' {
				els = append(els, sitem{true, true, it.id})
			}
		} else if s.objs[it.id].kind == 'E' {
			els = append(els, it)
		}
	}
	return els
}

func (s *sstate) endOf(it sitem, last bool) sv {
	if it.seg {
		if last {
			return segEnd(it.id, 'L')
		}
		return segEnd(it.id, 'F')
	}
	if it.id == 0 {
		return svNil
	}
	return ptr(it.id)
}

// elemNear is the nearest element before or after item i.
func (s *sstate) elemNear(items []sitem, i, d int) sv {
	for j := i + d; j >= 0 && j < len(items); j += d {
		it := items[j]
		if !it.seg {
			if o := s.objs[it.id]; o != nil && o.kind == 'E' {
				return ptr(it.id)
			}
			continue
		}
		if s.segs[it.id].kind == 't' {
			continue
		}
		if d < 0 {
			return segEnd(it.id, 'l')
		}
		return segEnd(it.id, 'f')
	}
	return svNil
}

// shapeOp is one edit to be analysed from one initial heap.
type shapeOp struct {
	label string
	h     *shapeInit
	args  []sv
	want  func(s *sstate) string // compares a final state with what is expected
}

// checkList compares the children of p with the expected items and verifies all links of
// them; forks: kinds to be told apart first.
func (s *sstate) checkList(p int, want []sitem, nm func(int) string) (string, []*sstate) {
	o := s.objs[p]
	var wantE []sitem
	for _, it := range want {
		if it.seg {
			if s.segs[it.id].kind != 't' {
				wantE = append(wantE, sitem{true, true, it.id})
			}
		} else if s.objs[it.id].kind == 'E' {
			wantE = append(wantE, it)
		}
	}
	for _, l := range []struct {
		f    string
		want []sitem
	}{{"ChildNodes", want}, {"Children", wantE}} {
		v := o.fld[l.f]
		if v.k != 's' {
			unknownShape("%s is not a known list", l.f)
		}
		got, fk := s.items(v)
		if fk != nil {
			return "", fk
		}
		if fmt.Sprint(got) != fmt.Sprint(l.want) {
			return fmt.Sprintf("%s of %s is [%s], expected [%s]", l.f, nm(p), s.showItems(got, nm), s.showItems(l.want, nm)), nil
		}
	}
	for i, it := range want {
		prev, next := svNil, svNil
		if i > 0 {
			prev = s.endOf(want[i-1], true)
		}
		if i+1 < len(want) {
			next = s.endOf(want[i+1], false)
		}
		prevE, nextE := s.elemNear(want, i, -1), s.elemNear(want, i, 1)
		chk := func(f string, got, exp sv, who string) (string, []*sstate) {
			if sameSV(got, exp) {
				return "", nil
			}
			if got.k == 'o' || got.k == 0 {
				unknownShape("link unknown")
			}
			// kinds that decide what the two are
			for _, v := range []sv{got, exp} {
				if v.k == 'e' && (v.w == 'f' || v.w == 'l') && s.segs[v.id] != nil && s.segs[v.id].kind == 'a' {
					return "", s.refine(v.id)
				}
			}
			for _, v := range []sv{got, exp} {
				if v.k == 'e' && (v.w == 'f' || v.w == 'l') && s.segs[v.id] != nil {
					return "", s.splitElem(v.id, v.w == 'l')
				}
			}
			if got.k == 'e' && exp.k == 'e' && got.id == exp.id {
				return "", s.deref(got)
			}
			return fmt.Sprintf("%s of %s is %s, expected %s", f, who, s.showV(got, nm), s.showV(exp, nm)), nil
		}
		type link struct {
			f        string
			got, exp sv
		}
		var ls []link
		who := ""
		if it.seg {
			g := s.segs[it.id]
			if g.det {
				return fmt.Sprintf("children of %s are unlinked from it", nm(p)), nil
			}
			who = "the nodes around " + nm(it.id)
			ls = []link{{"ParentNode", g.parent, ptr(p)}, {"PreviousSibling", g.outPrev, prev}, {"NextSibling", g.outNext, next}}
			if g.kind != 't' {
				ls = append(ls, link{"PreviousElementSibling", g.outPrevE, prevE}, link{"NextElementSibling", g.outNextE, nextE})
			}
		} else {
			x := s.objs[it.id].fld
			z := func(f string) sv {
				if v, ok := x[f]; ok {
					return v
				}
				return svNil
			}
			who = nm(it.id)
			ls = []link{{"ParentNode", z("ParentNode"), ptr(p)}, {"PreviousSibling", z("PreviousSibling"), prev}, {"NextSibling", z("NextSibling"), next}}
			if s.objs[it.id].kind == 'E' {
				ls = append(ls, link{"PreviousElementSibling", z("PreviousElementSibling"), prevE}, link{"NextElementSibling", z("NextElementSibling"), nextE})
			} else {
				// nodes other than elements either have no element links or right ones
				for _, l := range []link{{"PreviousElementSibling", z("PreviousElementSibling"), prevE}, {"NextElementSibling", z("NextElementSibling"), nextE}} {
					if l.got.k != 'n' {
						ls = append(ls, l)
					}
				}
			}
		}
		for _, l := range ls {
			if m, fk := chk(l.f, l.got, l.exp, who); m != "" || fk != nil {
				return m, fk
			}
		}
	}
	return "", nil
}

// checkFree: a node that is in no list has no links.
func (s *sstate) checkFree(x int, nm func(int) string) string {
	for _, f := range linkFields {
		if v, ok := s.objs[x].fld[f]; ok && v.k != 'n' {
			return fmt.Sprintf("%s of %s, which was taken out, still is %s", f, nm(x), s.showV(v, nm))
		}
	}
	return ""
}

func (s *sstate) showItems(its []sitem, nm func(int) string) string {
	var out []string
	for _, it := range its {
		switch {
		case it.id == 0:
			out = append(out, "nil")
		case it.seg:
			out = append(out, nm(it.id)+"…")
		default:
			out = append(out, nm(it.id))
		}
	}
	return strings.Join(out, " ")
}

func (s *sstate) showV(v sv, nm func(int) string) string {
	switch v.k {
	case 'n':
		return "nil"
	case 'p':
		return nm(v.id)
	case 'e':
		return map[byte]string{'F': "the first node of ", 'L': "the last node of ", 'f': "the first element of ", 'l': "the last element of "}[v.w] + nm(v.id)
	}
	return "unknown"
}

func (h *shapeInit) nameIn(s *sstate) func(int) string {
	return func(id int) string {
		if n, ok := h.names[id]; ok {
			return n
		}
		if o := s.objs[id]; o != nil {
			if o.kind == 'E' {
				return "a sibling element"
			}
			return "a sibling text"
		}
		if g := s.segs[id]; g != nil {
			return "other siblings"
		}
		return "?"
	}
}

func without(its []sitem, x int) []sitem {
	var out []sitem
	for _, it := range its {
		if it.seg || it.id != x {
			out = append(out, it)
		}
	}
	return out
}

func replaced(its []sitem, x, y int) []sitem {
	var out []sitem
	for _, it := range its {
		if !it.seg && it.id == x {
			it = sitem{id: y}
		}
		out = append(out, it)
	}
	return out
}

func (s *sstate) initial(p int) []sitem {
	v, ok := s.extra[fmt.Sprintf("list of %d", p)]
	if !ok {
		return nil
	}
	return s.arrs[v.id].items
}

// removeContract takes child out of the list of p, in a heap whose links of that list
// are consistent.
func (s *sstate) removeContract(p, child int, inPlace bool) ([]*sstate, []sv, bool) {
	o := s.objs[p]
	no := sv{k: 't', tup: []sv{svNil, svUnk}}
	yes := sv{k: 't', tup: []sv{ptr(child), svNil}}
	if o == nil || o.fld["ChildNodes"].k != 's' || o.fld["Children"].k != 's' {
		return nil, nil, false
	}
	its, fk := s.items(o.fld["ChildNodes"])
	if fk != nil {
		return nil, nil, false
	}
	if m, fk := s.checkList(p, its, func(int) string { return "" }); m != "" || fk != nil {
		return nil, nil, false
	}
	rest := without(its, child)
	if len(rest) == len(its) {
		return []*sstate{s}, []sv{no}, true
	}
	elem := s.objs[child].kind == 'E'
	els := s.relink(p, rest)
	for _, f := range linkFields {
		s.objs[child].fld[f] = svNil
	}
	for _, l := range []struct {
		f   string
		its []sitem
	}{{"ChildNodes", rest}, {"Children", els}} {
		if l.f == "Children" && !elem {
			continue
		}
		v := o.fld[l.f]
		if inPlace && v.l.zero() {
			if fk := s.overwrite(v.id, v.l, append(append([]sitem(nil), l.its...), sitem{})); fk != nil {
				unknownShape("list")
			}
			v.h = v.h.plus(-1)
			o.fld[l.f] = v
			continue
		}
		fl := s.arrs[v.id].fl
		o.fld[l.f] = s.newArr(l.its)
		s.arrs[o.fld[l.f].id].fl = fl
	}
	return []*sstate{s}, []sv{yes}, true
}

// runOp explores an operation and compares every final state with the expectation.
func (c *Ctx) runOp(fn *ssa.Function, op *shapeOp, prep func(x *shape), final func(s *sstate, nm func(int) string) (string, []*sstate)) {
	if o := os.Getenv("SHAPEONLY"); o != "" && o != fn.Name()+": "+op.label {
		return
	}
	if c.shapeBad >= 6 {
		return // enough is known
	}
	if c.shapeSteps > 3000000 {
		c.count("undecided initial heaps", 1)
		return
	}
	x := newShape(c.P)
	if prep != nil {
		prep(x)
	}
	s := op.h.s
	s.fr = nil
	x.call(s, fn, op.args, nil, nil)
	nm := func(s *sstate) func(int) string { return op.h.nameIn(s) }
	short := strings.TrimPrefix(strings.TrimPrefix(fn.Name(), "("), "*")
	undec := map[string]bool{}
	compared, hadBad := 0, false
	// compare reports whether the exploration should stop
	compare := func(q *sstate) bool {
		fin := []*sstate{q}
		for len(fin) > 0 && !hadBad {
			if compared++; compared > 20000 {
				undec["too many final states"] = true
				return true
			}
			q := fin[len(fin)-1]
			fin = fin[:len(fin)-1]
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(undecided); ok {
							undec[u.msg] = true
							return
						}
						panic(r)
					}
				}()
				msg, fk := final(q, nm(q))
				if fk != nil {
					fin = append(fin, fk...)
					return
				}
				c.count("final heaps compared", 1)
				if msg != "" {
					if os.Getenv("SHAPETRACE") != "" {
						fmt.Println(strings.Join(q.log, "\n"))
						os.Exit(0)
					}
					c.bad("links", short, short+": "+op.label, "%s", msg)
					c.shapeBad++
					hadBad = true
				}
			}()
		}
		return hadBad
	}
	x.explore(s, compare)
	c.count("initial heaps", 1)
	c.count("abstract heaps explored", x.states)
	c.shapeSteps += x.steps
	for u := range x.undec {
		undec[u] = true
	}
	var us []string
	for u := range undec {
		us = append(us, u)
	}
	sort.Strings(us)
	for i, u := range us {
		if i < 3 {
			c.notes = append(c.notes, fmt.Sprintf("%s (%s): %s", short, op.label, u))
		}
	}
	if len(us) > 0 {
		c.count("undecided initial heaps", 1)
	}
}

func kindName(k byte) string {
	if k == 'E' {
		return "element"
	}
	return "text"
}

// around builds [σ?] x [σ?] for the wanted context bits.
func (h *shapeInit) around(bits int, x ...int) []sitem {
	var out []sitem
	if bits&1 != 0 {
		out = append(out, h.seg())
	}
	for i, id := range x {
		out = append(out, sitem{id: id})
		if i+1 < len(x) && bits&4 != 0 {
			out = append(out, h.seg())
		}
	}
	if bits&2 != 0 {
		out = append(out, h.seg())
	}
	return out
}

func ctxName(bits int) string {
	return []string{"alone", "with nodes before it", "with nodes after it", "with nodes before and after it"}[bits&3]
}

func checkC03(c *Ctx) {
	c.rule("inductive step: from every heap whose links are consistent (shape analysis over lists with summarised segments, all positions and kinds of the nodes involved), AppendChild, RemoveChild, ReplaceChild, SetInnerHTML and SetTextContent end in a heap with the expected lists whose links are all consistent; nodes taken out keep no link")
	c.rule("no other function writes the links of a node")
	kinds := []byte{'E', 'T'}
	m := func(name string) *ssa.Function {
		f := c.P.method("Node", name)
		if f == nil || f.Blocks == nil {
			c.bad("anchor", name, name, "Node has no method %s", name)
			return nil
		}
		return f
	}
	stays := 0 // RemoveChild changes the list in place (1), makes a new one (2)
	free := func(s *sstate, nm func(int) string, ids ...int) string {
		for _, id := range ids {
			if r := s.checkFree(id, nm); r != "" {
				return r
			}
		}
		return ""
	}
	// RemoveChild
	if fn := m("RemoveChild"); fn != nil {
		for _, k := range kinds {
			for bits := 0; bits < 4; bits++ {
				h := newShapeInit()
				n, ch := h.obj('E', "the parent"), h.obj(k, "the child")
				h.s.linkList(n, h.around(bits, ch))
				h.s.extra["first list"] = h.s.objs[n].fld["ChildNodes"]
				c.runOp(fn, &shapeOp{label: kindName(k) + " " + ctxName(bits), h: h, args: []sv{ptr(n), ptr(ch)}}, nil, func(s *sstate, nm func(int) string) (string, []*sstate) {
					if s.done == "panic" {
						return "panics: " + s.result.fld, nil
					}
					if r, fk := s.checkList(n, without(s.initial(n), ch), nm); r != "" || fk != nil {
						return r, fk
					}
					how := 2
					if s.objs[n].fld["ChildNodes"].id == s.extra["first list"].id {
						how = 1
					}
					if stays == 0 || stays == how {
						stays = how
					} else {
						stays = -1
					}
					return free(s, nm, ch), nil
				})
				// not a child
				for _, other := range []bool{false, true} {
					h := newShapeInit()
					n, ch := h.obj('E', "the parent"), h.obj(k, "the node")
					var its []sitem
					if bits&1 != 0 {
						its = append(its, h.seg())
					}
					h.s.linkList(n, its)
					p := 0
					if other {
						p = h.obj('E', "its own parent")
						h.s.linkList(p, h.around(bits, ch))
					} else if bits > 1 {
						continue
					}
					c.runOp(fn, &shapeOp{label: kindName(k) + " that is no child", h: h, args: []sv{ptr(n), ptr(ch)}}, nil, func(s *sstate, nm func(int) string) (string, []*sstate) {
						if s.done == "panic" {
							return "panics: " + s.result.fld, nil
						}
						if r, fk := s.checkList(n, s.initial(n), nm); r != "" || fk != nil {
							return r, fk
						}
						if p != 0 {
							return s.checkList(p, s.initial(p), nm)
						}
						return free(s, nm, ch), nil
					})
				}
			}
		}
	}
	// from here on calls of RemoveChild stand for what was shown of it
	prep := func(x *shape) {}
	if rm := c.P.method("Node", "RemoveChild"); rm != nil && len(c.viol) == 0 && c.counts["undecided initial heaps"] == 0 && stays >= 0 {
		prep = func(x *shape) {
			x.native[rm] = func(x *shape, s *sstate, args []sv) ([]*sstate, []sv, bool) {
				if args[0].k != 'p' || args[1].k != 'p' {
					return nil, nil, false
				}
				return s.removeContract(args[0].id, args[1].id, stays == 1)
			}
		}
	}
	// AppendChild
	if fn := m("AppendChild"); fn != nil {
		for _, nk := range []byte{'E', 'D'} {
			for _, k := range kinds {
				for bits := 0; bits < 8; bits++ {
					// bits 1, 2: around the child in its former parent; 4: the new parent has children
					for where := 0; where < 3; where++ { // free, other parent, same parent
						if nk == 'D' && where > 0 || where == 0 && bits&3 != 0 || where == 2 && bits&4 != 0 {
							continue
						}
						h := newShapeInit()
						n, ch := h.obj(nk, "the parent"), h.obj(k, "the child")
						p := 0
						var its []sitem
						if where == 2 {
							its = h.around(bits, ch)
						} else if bits&4 != 0 {
							its = []sitem{h.seg()}
						}
						h.s.linkList(n, its)
						if where == 1 {
							p = h.obj('E', "the former parent")
							h.s.linkList(p, h.around(bits&3, ch))
						}
						label := kindName(k) + " " + []string{"without a parent", "of another parent " + ctxName(bits), "already a child " + ctxName(bits)}[where]
						if bits&4 != 0 {
							label += ", appended after other children"
						}
						c.runOp(fn, &shapeOp{label: label, h: h, args: []sv{ptr(n), ptr(ch)}}, prep, func(s *sstate, nm func(int) string) (string, []*sstate) {
							if s.done == "panic" {
								return "panics: " + s.result.fld, nil
							}
							want := append(append([]sitem(nil), without(s.initial(n), ch)...), sitem{id: ch})
							if r, fk := s.checkList(n, want, nm); r != "" || fk != nil {
								return r, fk
							}
							if p != 0 {
								return s.checkList(p, without(s.initial(p), ch), nm)
							}
							return "", nil
						})
					}
				}
			}
		}
	}
	// ReplaceChild
	if fn := m("ReplaceChild"); fn != nil {
		for _, ok := range kinds {
			for _, nk := range kinds {
				for bits := 0; bits < 8; bits++ {
					for where := 0; where < 4; where++ { // free, other parent, same parent before, same parent after
						pb := []int{0}
						if where == 1 {
							pb = []int{0, 1, 2, 3}
						}
						if where < 2 && bits&4 != 0 {
							continue
						}
						for _, b2 := range pb {
							h := newShapeInit()
							n, old, nw := h.obj('E', "the parent"), h.obj(ok, "the old child"), h.obj(nk, "the new child")
							p := 0
							switch where {
							case 0, 1:
								h.s.linkList(n, h.around(bits, old))
							case 2:
								h.s.linkList(n, h.around(bits, nw, old))
							case 3:
								h.s.linkList(n, h.around(bits, old, nw))
							}
							if where == 1 {
								p = h.obj('E', "the former parent")
								h.s.linkList(p, h.around(b2, nw))
							}
							label := fmt.Sprintf("%s by %s %s, old child %s", kindName(ok), kindName(nk), []string{"without a parent", "of another parent " + ctxName(b2), "standing before it", "standing after it"}[where], ctxName(bits))
							c.runOp(fn, &shapeOp{label: label, h: h, args: []sv{ptr(n), ptr(nw), ptr(old)}}, prep, func(s *sstate, nm func(int) string) (string, []*sstate) {
								if s.done == "panic" {
									return "panics: " + s.result.fld, nil
								}
								want := replaced(without(s.initial(n), nw), old, nw)
								if r, fk := s.checkList(n, want, nm); r != "" || fk != nil {
									return r, fk
								}
								if p != 0 {
									if r, fk := s.checkList(p, without(s.initial(p), nw), nm); r != "" || fk != nil {
										return r, fk
									}
								}
								return free(s, nm, old), nil
							})
						}
					}
				}
			}
		}
	}
	// ReplaceChild of a node by itself, and of a node that is no child
	if fn := m("ReplaceChild"); fn != nil {
		for _, k := range kinds {
			for bits := 0; bits < 4; bits++ {
				h := newShapeInit()
				n, ch := h.obj('E', "the parent"), h.obj(k, "the child")
				h.s.linkList(n, h.around(bits, ch))
				c.runOp(fn, &shapeOp{label: kindName(k) + " by itself, " + ctxName(bits), h: h, args: []sv{ptr(n), ptr(ch), ptr(ch)}}, prep, func(s *sstate, nm func(int) string) (string, []*sstate) {
					if s.done == "panic" {
						return "panics: " + s.result.fld, nil
					}
					return s.checkList(n, s.initial(n), nm)
				})
				h = newShapeInit()
				n, ch = h.obj('E', "the parent"), h.obj('E', "the node")
				nw := h.obj(k, "the new node")
				p := h.obj('E', "the parent of the node")
				p2 := h.obj('E', "the parent of the new node")
				var its []sitem
				if bits&1 != 0 {
					its = []sitem{h.seg()}
				}
				h.s.linkList(n, its)
				h.s.linkList(p, h.around(bits, ch))
				h.s.linkList(p2, h.around(bits, nw))
				c.runOp(fn, &shapeOp{label: "node that is no child by " + kindName(k), h: h, args: []sv{ptr(n), ptr(nw), ptr(ch)}}, prep, func(s *sstate, nm func(int) string) (string, []*sstate) {
					for _, q := range []int{n, p, p2} {
						if r, fk := s.checkList(q, s.initial(q), nm); r != "" || fk != nil {
							return r, fk
						}
					}
					return "", nil
				})
			}
		}
	}
	// SetInnerHTML, SetTextContent
	parse := c.P.method("domParser", "parse")
	for _, name := range []string{"SetInnerHTML", "SetTextContent"} {
		fn := m(name)
		if fn == nil {
			continue
		}
		for _, nk := range []byte{'E', 'T', 'D'} {
			for bits := 0; bits < 2; bits++ {
				if bits == 1 && nk == 'T' {
					continue
				}
				h := newShapeInit()
				n := h.obj(nk, "the node")
				var its []sitem
				if bits == 1 {
					its = []sitem{h.seg()}
				}
				h.s.linkList(n, its)
				label := map[byte]string{'E': "element", 'T': "text", 'D': "document"}[nk] + []string{" without children", " with children"}[bits]
				pr := func(x *shape) {
					if parse != nil {
						x.native[parse] = func(x *shape, s *sstate, args []sv) ([]*sstate, []sv, bool) {
							var sts []*sstate
							var rs []sv
							for i := 0; i < 2; i++ {
								q := s.clone()
								d := q.id()
								q.objs[d] = &sobj{kind: 'D', fld: map[string]sv{}}
								for _, f := range linkFields {
									q.objs[d].fld[f] = svNil
								}
								var its []sitem
								if i == 1 {
									g := q.id()
									q.segs[g] = &sseg{kind: 'a'}
									its = []sitem{{true, false, g}}
								}
								q.linkList(d, its)
								q.extra["parsed"] = ptr(d)
								sts, rs = append(sts, q), append(rs, ptr(d))
							}
							return sts, rs, true
						}
					}
				}
				c.runOp(fn, &shapeOp{label: label, h: h, args: []sv{ptr(n), {k: 'S', fld: "param text"}}}, pr, func(s *sstate, nm func(int) string) (string, []*sstate) {
					if s.done == "panic" {
						return "panics: " + s.result.fld, nil
					}
					if nk != 'E' {
						// such nodes keep their children
						return s.checkList(n, s.initial(n), nm)
					}
					// the former children
					for _, it := range s.initial(n) {
						if it.seg {
							if g := s.segs[it.id]; !g.det {
								return "former children keep links to their parent or siblings", nil
							}
						} else if r := s.checkFree(it.id, nm); r != "" {
							return r, nil
						}
					}
					v := s.objs[n].fld["ChildNodes"]
					if v.k != 's' {
						unknownShape("the children are not a known list")
					}
					got, fk := s.items(v)
					if fk != nil {
						return "", fk
					}
					if p, ok := s.extra["parsed"]; ok {
						return s.checkList(n, s.initial(p.id), nm)
					}
					for _, it := range s.initial(n) {
						for _, jt := range got {
							if it == jt {
								return "former children are still listed", nil
							}
						}
					}
					return s.checkList(n, got, nm)
				})
			}
		}
	}
	// nobody else writes the links
	done := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if f == nil || done[f] || f.Blocks == nil || !c.P.inModule(f) {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					mark(call.Common().StaticCallee())
				}
			}
		}
		for _, a := range f.AnonFuncs {
			mark(a)
		}
	}
	for _, name := range []string{"AppendChild", "RemoveChild", "ReplaceChild", "SetTextContent"} {
		mark(c.P.method("Node", name))
	}
	if f := c.P.method("Node", "SetInnerHTML"); f != nil {
		done[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && c.P.method("Node", g.Name()) == g {
						mark(g)
					}
				}
			}
		}
	}
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || typeName(fa.X.Type()) != "*Node" {
					continue
				}
				fld := fieldName(fa)
				if !isLink(fld) && fld != "ChildNodes" && fld != "Children" {
					continue
				}
				c.count("link accesses", 1)
				if done[f] {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.Store:
						if r.Addr != fa {
							continue
						}
						if _, fresh := fa.X.(*ssa.Alloc); fresh {
							continue
						}
						if len(linkWrites(f)) >= 5 {
							c.notes = append(c.notes, fmt.Sprintf("%s: %s edits the tree on its own; not analysed", c.P.instrPos(r), f.Name()))
							continue
						}
						c.bad("writer", c.P.instrPos(r), f.Name()+" writes "+fld, "%s sets %s of a node without going through an edit that keeps the links consistent", f.Name(), fld)
					case *ssa.UnOp:
						if in := c.listWrite(r, map[ssa.Value]bool{}, 4); in != nil && (fld == "ChildNodes" || fld == "Children") {
							c.bad("writer", c.P.instrPos(in), f.Name()+" changes "+fld, "%s changes the list %s of a node in place without going through an edit that keeps the links consistent", f.Name(), fld)
						}
					}
				}
			}
		}
	}
}

// linkWrites are the link fields a function writes.
func linkWrites(f *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && typeName(fa.X.Type()) == "*Node" {
					if n := fieldName(fa); isLink(n) || n == "ChildNodes" || n == "Children" {
						out[n] = true
					}
				}
			}
		}
	}
	return out
}

// listWrite finds an instruction that changes the members of the list v in place.
func (c *Ctx) listWrite(v ssa.Value, seen map[ssa.Value]bool, depth int) ssa.Instruction {
	if seen[v] || depth == 0 || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			if r.X != v {
				continue
			}
			for _, q := range *r.Referrers() {
				if st, ok := q.(*ssa.Store); ok && st.Addr == r {
					return st
				}
			}
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType:
			if in := c.listWrite(r.(ssa.Value), seen, depth); in != nil {
				return in
			}
		case *ssa.Call:
			com := r.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				if b.Name() == "copy" && com.Args[0] == v {
					return r
				}
				if sl, ok := v.(*ssa.Slice); ok && b.Name() == "append" && com.Args[0] == v && sl.High != nil {
					return r
				}
				continue
			}
			g := com.StaticCallee()
			if g == nil {
				continue
			}
			name := g.String()
			if o := g.Origin(); o != nil {
				name = o.String()
			}
			switch name {
			case "slices.Reverse", "slices.Delete", "slices.DeleteFunc", "slices.Insert", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Compact", "slices.CompactFunc", "slices.Replace":
				if com.Args[0] == v {
					return r
				}
			}
			if g.Blocks != nil && c.P.inModule(g) {
				for i, a := range com.Args {
					if a == v && i < len(g.Params) {
						if in := c.listWrite(g.Params[i], seen, depth-1); in != nil {
							return r
						}
					}
				}
			}
		}
	}
	return nil
}

func fieldName(fa *ssa.FieldAddr) string {
	return fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}
