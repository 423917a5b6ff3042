package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C22"] = checkC22 }

// nodeMethod is a method of Node that has to be there.
func (c *Ctx) nodeMethod(name string) *ssa.Function {
	f := c.P.method("Node", name)
	if f == nil || f.Blocks == nil {
		c.bad("anchor", name, name, "Node has no method %s", name)
		return nil
	}
	return f
}

func checkC22(c *Ctx) {
	c.rule("for a node with any list of attributes (shape analysis, all positions of the attribute asked for): GetAttribute returns its value or the empty string, HasAttribute whether it is there, SetAttribute leaves it there once with the new value, RemoveAttribute leaves it out, and all other attributes stay as and where they are")
	c.rule("GetId, GetClassName, GetSrc, GetSrcset, SetId and SetClassName read and write the attribute of their name")
	c.rule("inductive step over any list of children: getElementsByTagName collects, child after child, the child itself exactly if its name is the one asked for (or all are), and then what it collects for the child; GetTextContent the text of text children and what it collects for others; GetElementById returns the node itself if it has the id, else what it finds in the first child that has anything")
	c22attrs(c)
	c22names(c)
	c22tags(c)
	c22text(c)
	c22id(c)
	c22writers(c)
}

func c22attrs(c *Ctx) {
	for _, name := range []string{"GetAttribute", "HasAttribute", "SetAttribute", "RemoveAttribute"} {
		fn := c.nodeMethod(name)
		if fn == nil {
			continue
		}
		for bits := 0; bits < 8; bits++ {
			match := bits&4 != 0
			if !match && bits&2 != 0 {
				continue
			}
			h := newShapeInit()
			n := h.obj('E', "the node")
			m := 0
			var its []sitem
			seg := func() {
				it := h.seg()
				g := h.s.segs[it.id]
				*g = sseg{kind: 'N', parent: svNil, outPrev: svNil, outNext: svNil, outPrevE: svNil, outNextE: svNil}
				its = append(its, it)
			}
			if bits&1 != 0 {
				seg()
			}
			if match {
				m = h.obj('Y', "the attribute")
				h.s.objs[m].fld = map[string]sv{}
				its = append(its, sitem{id: m})
			}
			if bits&2 != 0 {
				seg()
			}
			l, gl := h.s.newArr(its), h.s.newArr(its)
			h.s.arrs[l.id].fl, h.s.arrs[gl.id].fl = 'c', 'c'
			h.s.objs[n].fld["Attributes"] = l
			if len(its) == 0 {
				h.s.objs[n].fld["Attributes"] = sv{k: 's'}
			}
			h.s.ghost = []int{gl.id}
			label := "no attribute of that name"
			if match {
				label = "an attribute of that name"
			}
			label += []string{"", " after others", " before others", " between others"}[bits&3]
			if !match {
				label = []string{"no attributes", "only other attributes"}[bits&1]
			}
			args := []sv{ptr(n), {k: 'S', fld: "param name"}}
			if name == "SetAttribute" {
				args = append(args, sv{k: 'S', fld: "param value"})
			}
			c.runOp(fn, &shapeOp{label: label, h: h, args: args}, func(x *shape) { x.seq = true }, func(s *sstate, nm func(int) string) (string, []*sstate) {
				if s.done == "panic" {
					return "panics: " + s.result.fld, nil
				}
				// answers
				switch name {
				case "GetAttribute":
					r := s.result
					if r.k != 'S' {
						unknownShape("unknown result")
					}
					want := `""`
					if match {
						want = "value@"
					}
					if r.fld != want || match && r.id != m {
						return "the result is not the value of the attribute", nil
					}
				case "HasAttribute":
					r := s.result
					if r.k != 'b' || r.b == 2 {
						unknownShape("unknown result")
					}
					if (r.b == 1) != match {
						return fmt.Sprintf("the result is %v", r.b == 1), nil
					}
				}
				// the attributes afterwards
				v := s.objs[n].fld["Attributes"]
				if v.k != 's' {
					unknownShape("unknown list")
				}
				got, fk := s.items(v)
				if fk != nil {
					return "", fk
				}
				init := s.arrs[gl.id].items
				for id, o := range s.objs {
					if o.kind != 'N' && !(o.kind == 'Y' && name != "SetAttribute") {
						continue
					}
					for _, f := range []string{"name", "value"} {
						if w, ok := o.fld[f]; ok && !(w.k == 'S' && w.id == id && w.fld == f+"@") {
							return "the " + f + " of an attribute is changed", nil
						}
					}
				}
				isNew := func(it sitem) bool {
					if it.seg || it.id == 0 {
						return false
					}
					o := s.objs[it.id]
					nmv, val := o.fld["name"], o.fld["value"]
					if _, ok := o.fld["name"]; !ok && o.kind == 'Y' {
						nmv = sv{k: 'S', fld: "param name"}
					}
					if nmv.k == 'o' || val.k == 'o' {
						unknownShape("unknown attribute")
					}
					nameOK := nmv.k == 'S' && (nmv.fld == "param name" || nmv.fld == "name@" && nmv.id == m)
					return nameOK && val.k == 'S' && val.fld == "param value" && (o.fresh || o.kind == 'Y')
				}
				var want []sitem
				for _, it := range init {
					if name == "RemoveAttribute" && !it.seg && it.id == m && m != 0 {
						continue
					}
					want = append(want, it)
				}
				if name == "SetAttribute" && !match {
					// one more, anywhere
					for i, it := range got {
						if isNew(it) && len(got) == len(want)+1 {
							want = append(append(append([]sitem(nil), want[:i]...), it), want[i:]...)
							break
						}
					}
					if len(got) != len(want) || len(want) == len(init) {
						return "the attribute is not added with the name and value given", nil
					}
				}
				if len(got) != len(want) {
					return fmt.Sprintf("the node has %d of the attributes instead of %d", len(got), len(want)), nil
				}
				for i, it := range want {
					if name == "SetAttribute" && it.id == m && m != 0 {
						if !isNew(got[i]) {
							return "the attribute does not have the value given", nil
						}
						continue
					}
					if got[i] != it {
						return "the other attributes do not stay as and where they are", nil
					}
				}
				return "", nil
			})
		}
	}
}

// c22names: accessors of single attributes.
func c22names(c *Ctx) {
	for name, attr := range map[string]string{"GetId": "id", "GetClassName": "class", "GetSrc": "src", "GetSrcset": "srcset", "SetId": "id", "SetClassName": "class"} {
		fn := c.P.method("Node", name)
		if fn == nil || fn.Blocks == nil {
			continue
		}
		c.count("accessors", 1)
		if strings.HasPrefix(name, "Get") {
			r := c.exec(fn, false, nil)
			for _, x := range r.e.altsUnder(r.ret, bTrue) {
				if x.t.op == "attr" && x.t.args[0] == r.arg[0] && x.t.args[1].isStr() && x.t.args[1].aux == attr {
					continue
				}
				if x.t.isStr() || x.t.op == "attr" {
					c.bad("accessor", name, name, "%s does not return the %s attribute but %s", name, attr, r.e.w.showd(x.t, 3))
				} else {
					c.notes = append(c.notes, name+" returns "+r.e.w.showd(x.t, 3))
				}
			}
			continue
		}
		r := c.exec(fn, false, nil)
		sets := r.e.prims("SetAttribute")
		set := bFalse
		for _, ev := range sets {
			if ev.args[0] == r.arg[0] && ev.args[1].isStr() && ev.args[1].aux == attr && ev.args[2] == r.arg[1] {
				set = r.e.w.b.Or(set, ev.cond)
				continue
			}
			c.bad("accessor", name, name, "%s does not set the %s attribute to the text given", name, attr)
			set = bTrue
		}
		if ok, cex := r.e.entails(bTrue, set, nil, nil); !ok {
			c.bad("accessor", name, name+" set", "%s does not set the attribute when %s", name, cex)
		}
	}
}

// seqOp explores a collecting function on a node with any children.
func (c *Ctx) seqOp(fn *ssa.Function, extra []sv, find bool, tmpl func(s *sstate, id int) ([][]qpiece, []*sstate), list string, final func(s *sstate, n int, items []sitem, nm func(int) string) (string, []*sstate)) {
	for bits := 0; bits < 2; bits++ {
		h := newShapeInit()
		n := h.obj('E', "the node")
		var its []sitem
		if bits == 1 {
			its = []sitem{h.seg()}
		}
		h.s.linkList(n, its)
		h.s.tmpl, h.s.elems = tmpl, list == "elems"
		c.runOp(fn, &shapeOp{label: []string{"node without children", "node with children"}[bits], h: h, args: append([]sv{ptr(n)}, extra...)}, func(x *shape) {
			x.seq, x.find = true, find
			if ga := c.P.method("Node", "GetAttribute"); ga != nil {
				x.native[ga] = func(x *shape, s *sstate, args []sv) ([]*sstate, []sv, bool) {
					t, ok := isLitS(args[1])
					if args[0].k != 'p' || !ok {
						return nil, nil, false
					}
					return []*sstate{s}, []sv{{k: 'S', fld: "attribute " + t + "@", id: args[0].id}}, true
				}
			}
		}, func(s *sstate, nm func(int) string) (string, []*sstate) {
			if s.done == "panic" {
				return "panics: " + s.result.fld, nil
			}
			g := s.arrs[s.extra[fmt.Sprintf("%s of %d", list, n)].id].items
			return final(s, n, g, nm)
		})
	}
}

func c22tags(c *Ctx) {
	fn := c.nodeMethod("getElementsByTagName")
	if fn == nil {
		return
	}
	tag := sv{k: 'S', fld: "param tag"}
	up := sv{k: 'S', fld: "strings.ToUpper(param tag)"}
	tmpl := func(s *sstate, id int) ([][]qpiece, []*sstate) {
		o := s.objs[id]
		if o.kind != 'E' {
			return [][]qpiece{{}}, nil
		}
		star := -1
		for _, t := range []sv{tag, up} {
			if v, ok := s.extra["?"+eqFact(t, sv{fld: `"*"`})]; ok {
				star = int(v.b)
			}
		}
		if star < 0 {
			_, fk := s.fact(0, eqFact(tag, sv{fld: `"*"`}))
			return nil, fk
		}
		match := -1
		if star == 1 {
			match = 1
		} else {
			for _, f := range []string{eqFact(sv{fld: "TagName@"}, up), "EqualFold(TagName@, param tag)", "EqualFold(param tag, TagName@)", "EqualFold(LocalName@, param tag)", "EqualFold(param tag, LocalName@)", eqFact(sv{fld: "LocalName@"}, sv{fld: "strings.ToLower(param tag)"})} {
				if v, ok := o.fld["?"+f]; ok {
					match = int(v.b)
				}
			}
			if match < 0 {
				_, fk := s.fact(id, eqFact(sv{fld: "TagName@"}, up))
				return nil, fk
			}
		}
		var out [][]qpiece
		var self []qpiece
		if match == 1 {
			self = []qpiece{{k: 'n', id: id}}
		}
		out = append(out, append(append([]qpiece(nil), self...), qpiece{k: 'R', id: id}))
		if s.noChildren(id, "Children") {
			out = append(out, self)
		}
		return out, nil
	}
	c.seqOp(fn, []sv{tag}, false, tmpl, "elems", func(s *sstate, n int, items []sitem, nm func(int) string) (string, []*sstate) {
		return s.compareQ(s.result, items, nm)
	})
}

func c22text(c *Ctx) {
	fn := c.nodeMethod("GetTextContent")
	if fn == nil {
		return
	}
	tmpl := func(s *sstate, id int) ([][]qpiece, []*sstate) {
		out := [][]qpiece{{{k: 'R', id: id}}}
		if s.objs[id].kind == 'E' && s.noChildren(id, "ChildNodes") {
			out = append(out, nil)
		}
		if s.objs[id].kind == 'T' {
			for _, t := range textAtoms(s, id) {
				out = append(out, []qpiece{t})
			}
		}
		return out, nil
	}
	c.seqOp(fn, nil, false, tmpl, "list", func(s *sstate, n int, items []sitem, nm func(int) string) (string, []*sstate) {
		return s.compareQ(s.result, items, nm)
	})
	// a text node: its text, or its source decoded
	c.textOp(fn, func(s *sstate, n int) string {
		r := s.result
		if r.k != 'S' && r.k != 'q' {
			unknownShape("unknown result")
		}
		q := toQ(r)
		text := s.objs[n].fld["?"+eqFact(sv{fld: "textContent@"}, sv{fld: `""`})]
		html := s.objs[n].fld["?"+eqFact(sv{fld: "innerHTML@"}, sv{fld: `""`})]
		switch {
		case len(q) == 1 && q[0].txt == "decoded innerHTML@":
			if text.k == 'b' && text.b == 0 {
				return "the text set is not returned"
			}
			return ""
		case len(q) == 0 && s.extra["?decoding fails"].b == 1:
			return ""
		case len(q) == 1 && q[0].txt == "textContent@", len(q) == 0 && text.k == 'b' && text.b == 1:
			if text.k == 'b' && text.b == 1 && !(html.k == 'b' && html.b == 1) {
				return "the source of the text is not decoded"
			}
			if text.k != 'b' {
				return "the text is returned without a look at whether it was decoded"
			}
			return ""
		}
		for _, p := range q {
			if p.k != 'a' || p.txt != "textContent@" && p.txt != "innerHTML@" && p.txt != "decoded innerHTML@" {
				unknownShape("unknown text")
			}
		}
		return "the result is " + s.showQ(q, func(int) string { return "the text node" })
	})
}

// textAtoms: the text of a text node, read without a call.
func textAtoms(s *sstate, id int) []qpiece {
	return []qpiece{{k: 'a', id: id, txt: "textContent@"}, {k: 'a', id: id, txt: "decoded innerHTML@"}}
}

// textOp explores a function on a text node.
func (c *Ctx) textOp(fn *ssa.Function, final func(s *sstate, n int) string) {
	h := newShapeInit()
	n := h.obj('T', "the text node")
	dec := c.P.fn("decodeHTML")
	c.runOp(fn, &shapeOp{label: "text node", h: h, args: []sv{ptr(n)}}, func(x *shape) {
		x.seq = true
		if dec != nil {
			x.native[dec] = func(x *shape, s *sstate, args []sv) ([]*sstate, []sv, bool) {
				if args[0].k != 'S' {
					return nil, nil, false
				}
				b, fk := s.fact(0, "decoding fails")
				if fk != nil {
					var rs []sv
					for _, q := range fk {
						if q.extra["?decoding fails"].b == 1 {
							rs = append(rs, sv{k: 't', tup: []sv{{k: 'S', fld: `""`}, ptr(n)}})
						} else {
							rs = append(rs, sv{k: 't', tup: []sv{{k: 'S', fld: "decoded " + args[0].fld, id: args[0].id}, svNil}})
						}
					}
					return fk, rs, true
				}
				_ = b
				return nil, nil, false
			}
		}
	}, func(s *sstate, nm func(int) string) (string, []*sstate) {
		if s.done == "panic" {
			return "panics: " + s.result.fld, nil
		}
		return final(s, n), nil
	})
}

func c22id(c *Ctx) {
	fn := c.nodeMethod("GetElementById")
	if fn == nil {
		return
	}
	own := eqFact(sv{fld: "attribute id@"}, sv{fld: "param id"})
	c.seqOp(fn, []sv{{k: 'S', fld: "param id"}}, true, nil, "elems", func(s *sstate, n int, items []sitem, nm func(int) string) (string, []*sstate) {
		v, fk := s.fact(n, own)
		if fk != nil {
			return "", fk
		}
		r := s.result
		if r.k != 'n' && r.k != 'p' && r.k != 'H' {
			unknownShape("unknown result")
		}
		if v {
			if r.k != 'p' || r.id != n {
				return "a node with the id itself is not the result", nil
			}
			return "", nil
		}
		for _, it := range items {
			if it.seg {
				if s.segs[it.id].nf {
					continue
				}
				if r.k == 'H' {
					// is what was found in one of these?
					return "children are passed over", nil
				}
				return "children are not searched", nil
			}
			if s.objs[it.id].nf {
				continue
			}
			if r.k == 'H' && r.id == it.id {
				return "", nil
			}
			return "a child is not searched, or what was found in it is not the result", nil
		}
		if r.k != 'n' {
			return "something is found that does not have the id", nil
		}
		return "", nil
	})
}

// c22writers: attributes change nowhere else.
func c22writers(c *Ctx) {
	allowed := map[*ssa.Function]bool{}
	for _, n := range []string{"SetAttribute", "RemoveAttribute"} {
		if f := c.P.method("Node", n); f != nil {
			allowed[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil {
						allowed[call.Common().StaticCallee()] = true
					}
				}
			}
		}
	}
	for _, f := range c.P.funcs {
		if !c.P.inLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				cls := strings.TrimPrefix(fieldClass(fa.X.Type(), fa.Field), "F:")
				if cls != "Node.Attributes" && cls != "attribute.name" && cls != "attribute.value" {
					continue
				}
				c.count("attribute stores", 1)
				if _, fresh := fa.X.(*ssa.Alloc); fresh || allowed[f] {
					continue
				}
				c.notes = append(c.notes, fmt.Sprintf("%s: %s changes %s directly, past the attribute functions: not analysed", c.P.instrPos(in), f.Name(), cls))
			}
		}
	}
}
