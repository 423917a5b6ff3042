package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C04"] = checkC04 }

// the elements HTML has no end tag for (and those it once had none for)
var htmlVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true, "link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true,
	"basefont": true, "bgsound": true, "command": true, "frame": true, "keygen": true}

func checkC04(c *Ctx) {
	c.rule("inductive step over any list of children (sequence analysis): GetInnerHTML writes, child after child, for an element <, its name, of every attribute a blank, the name, = and the escaped value in quotes that the escaping leaves nowhere in it, and then either /> (only a void element without children) or >, its inner HTML and the end tag of the same name; for a text its inner HTML")
	c.rule("the inner HTML of a text node is the source it was given or its text with <, > and & escaped; a new text or source takes the place of the old one in both forms; the source the parser gives has every < escaped")
	c.rule("the replacement tables of the escaping functions used map each special character to its reference, and only void elements are in the table of elements without an end tag")
	c.voidTables = map[string]bool{}
	c04elem(c)
	c04text(c)
	c04sources(c)
	c04void(c)
}

// escaper tells what an escaping expression around an atom escapes, e.g. replacer(value@).
type escaper struct {
	expr string          // with % for the text
	esc  map[string]bool // characters that do not occur in the result
	bad  string
}

// special references for characters
var charRef = map[string][]string{"<": {"&lt;", "&#60;", "&#x3c;", "&#x3C;"}, ">": {"&gt;", "&#62;", "&#x3e;", "&#x3E;"}, "&": {"&amp;", "&#38;", "&#x26;"}, `"`: {"&quot;", "&#34;", "&#x22;"}, "'": {"&apos;", "&#39;", "&#x27;"}}

// escapeOf reads an escaping expression "f(args, atom)".
func (c *Ctx) escapeOf(txt, atom string) (*escaper, bool) {
	e := &escaper{esc: map[string]bool{}}
	switch {
	case txt == atom:
		return e, true
	case txt == "html.EscapeString("+atom+")" || txt == "golang.org/x/net/html.EscapeString("+atom+")":
		for k := range charRef {
			e.esc[k] = true
		}
		return e, true
	case strings.HasPrefix(txt, "(*strings.Replacer).Replace(") && strings.HasSuffix(txt, ", "+atom+")"):
		g := strings.TrimSuffix(strings.TrimPrefix(txt, "(*strings.Replacer).Replace("), ", "+atom+")")
		t, ok := c.replacerTable(g)
		if !ok {
			return nil, false
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			refs := charRef[k]
			if refs == nil {
				if r := t[k]; !strings.ContainsAny(r, "<>\"'&") || strings.HasPrefix(r, "&") && strings.HasSuffix(r, ";") && !strings.ContainsAny(r[1:], "<>\"'& ") {
					continue
				}
				e.bad = fmt.Sprintf("%s replaces %q by %q", g, k, t[k])
				continue
			}
			hit := false
			for _, r := range refs {
				hit = hit || r == t[k]
			}
			if !hit {
				e.bad = fmt.Sprintf("%s replaces %q by %q, which is not its reference", g, k, t[k])
				continue
			}
			e.esc[k] = true
		}
		return e, true
	}
	return nil, false
}

func (e *escaper) all(chars string) string {
	if e.bad != "" {
		return e.bad
	}
	for _, r := range chars {
		if !e.esc[string(r)] {
			return fmt.Sprintf("%q is not escaped", string(r))
		}
	}
	return ""
}

func c04elem(c *Ctx) {
	fn := c.nodeMethod("GetInnerHTML")
	if fn == nil {
		return
	}
	// what is written for an attribute value, as found in the sequence
	attrTmpl := func(s *sstate, id int) ([][]qpiece, []*sstate) {
		seen := map[string]bool{}
		var out [][]qpiece
		s.eachQ(func(q []qpiece) []qpiece {
			for _, p := range q {
				if p.k != 'a' || p.id != id || seen[p.txt] || !strings.Contains(p.txt, "value@") {
					continue
				}
				seen[p.txt] = true
				e, ok := c.escapeOf(p.txt, "value@")
				if !ok || e.all(`<>&`) != "" {
					continue
				}
				for _, qt := range []string{`"`, "'"} {
					if !e.esc[qt] {
						// or known not to be in the value
						if v, ok := s.objs[id].fld["?strings.Contains("+p.txt+", "+fmt.Sprintf("%q", qt)+")"]; !ok || v.b != 0 {
							continue
						}
					}
					t := append(lit(" "), qpiece{k: 'a', id: id, txt: "name@"})
					t = append(append(t, lit("="+qt)...), p)
					out = append(out, append(t, lit(qt)...))
				}
			}
			return q
		})
		return out, nil
	}
	tmpl := func(s *sstate, id int) ([][]qpiece, []*sstate) {
		o := s.objs[id]
		switch o.kind {
		case 'N', 'Y':
			return attrTmpl(s, id)
		case 'T':
			out := [][]qpiece{{{k: 'R', id: id}}}
			s.eachQ(func(q []qpiece) []qpiece {
				for _, p := range q {
					if p.k != 'a' || p.id != id {
						continue
					}
					if c04textOK(c, s, id, p.txt) == "" {
						out = append(out, []qpiece{p})
					}
				}
				return q
			})
			return out, nil
		case 'E':
		default:
			return [][]qpiece{{{k: 'R', id: id}}}, nil
		}
		at, ok := o.fld["Attributes"]
		if !ok {
			// nothing was written of them: they matter only if there are any
			_, fk := fieldFork(s, id, "Attributes")
			return nil, fk
		}
		var as []qpiece
		if at.k == 's' && at.id != 0 && s.arrs[at.id] != nil {
			for _, it := range s.arrs[at.id].items {
				as = append(as, fItem(it))
			}
		} else if at.k != 's' && at.k != 'n' {
			return nil, nil
		}
		name := qpiece{k: 'a', id: id, txt: "LocalName@"}
		head := append(lit("<"), name)
		head = append(head, as...)
		var out [][]qpiece
		ends := [][]qpiece{append(append(lit("</"), name), lit(">")...)}
		closed := func(mid []qpiece) {
			for _, e := range ends {
				t := append(append([]qpiece(nil), head...), lit(">")...)
				t = append(append(t, mid...), e...)
				out = append(out, t)
			}
		}
		closed([]qpiece{{k: 'R', id: id}})
		if s.noChildren(id, "ChildNodes") {
			closed(nil)
			for f, v := range o.fld {
				if strings.HasPrefix(f, "?in ") && strings.HasSuffix(f, "(LocalName@)") && v.b == 1 {
					c.voidTables[strings.TrimSuffix(strings.TrimPrefix(f, "?in "), "(LocalName@)")] = true
					t := append(append([]qpiece(nil), head...), lit("/>")...)
					out = append(out, t)
				}
			}
		}
		return out, nil
	}
	c.seqOp(fn, nil, false, tmpl, "list", func(s *sstate, n int, items []sitem, nm func(int) string) (string, []*sstate) {
		return s.compareQ(s.result, items, nm)
	})
}

// fieldFork splits the cases of a list nobody has looked at.
func fieldFork(s *sstate, id int, f string) (sv, []*sstate) {
	return (&shape{}).fieldOf(s, id, f, nil)
}

// c04textOK: what is written for a text node whose fields are known so far.
func c04textOK(c *Ctx, s *sstate, id int, txt string) string {
	html := s.objs[id].fld["?"+eqFact(sv{fld: "innerHTML@"}, sv{fld: `""`})]
	if txt == "innerHTML@" {
		if html.k == 'b' && html.b == 0 {
			return ""
		}
		return "the source is written without a look at whether there is any"
	}
	for _, at := range []string{"textContent@", "decoded innerHTML@"} {
		e, ok := c.escapeOf(txt, at)
		if !ok {
			continue
		}
		if m := e.all("<>&"); m != "" {
			return "the text is written as it is: " + m
		}
		return ""
	}
	unknownShape("unknown text")
	return ""
}

func c04text(c *Ctx) {
	fn := c.nodeMethod("GetInnerHTML")
	if fn == nil {
		return
	}
	c.textOp(fn, func(s *sstate, n int) string {
		r := s.result
		if r.k != 'S' && r.k != 'q' {
			unknownShape("unknown result")
		}
		q := toQ(r)
		text := s.objs[n].fld["?"+eqFact(sv{fld: "textContent@"}, sv{fld: `""`})]
		html := s.objs[n].fld["?"+eqFact(sv{fld: "innerHTML@"}, sv{fld: `""`})]
		if len(q) == 0 {
			if html.k == 'b' && html.b == 0 {
				return "the source of the text is not written"
			}
			if text.k == 'b' && text.b == 1 {
				return ""
			}
			return "the text is not written"
		}
		if len(q) != 1 || q[0].k != 'a' {
			for _, p := range q {
				if p.k == 'a' {
					if m := c04textOK(c, s, n, p.txt); m != "" {
						return m
					}
				}
			}
			unknownShape("unknown text")
		}
		if q[0].txt == "textContent@" && text.k == 'b' && text.b == 1 {
			return ""
		}
		if q[0].txt != "innerHTML@" && html.k == 'b' && html.b == 0 {
			if _, ok := c.escapeOf(q[0].txt, "decoded innerHTML@"); !ok {
				if _, ok := c.escapeOf(q[0].txt, "textContent@"); ok {
					unknownShape("text and source")
				}
			}
		}
		return c04textOK(c, s, n, q[0].txt)
	})
	// new text or source
	for _, w := range []struct{ fn, own, other, fresh string }{
		{"SetTextContent", "textContent", "innerHTML", "text"},
		{"SetInnerHTML", "innerHTML", "textContent", "source"},
	} {
		fn := c.nodeMethod(w.fn)
		if fn == nil {
			continue
		}
		h := newShapeInit()
		n := h.obj('T', "the text node")
		c.runOp(fn, &shapeOp{label: "text node", h: h, args: []sv{ptr(n), {k: 'S', fld: "param new"}}}, func(x *shape) { x.seq = true }, func(s *sstate, nm func(int) string) (string, []*sstate) {
			if s.done == "panic" {
				return "panics: " + s.result.fld, nil
			}
			o := s.objs[n]
			a, b := o.fld[w.own], o.fld[w.other]
			if _, ok := o.fld[w.own]; !ok || a.k == 'S' && a.fld != "param new" {
				return "the new " + w.fresh + " is not kept as it is", nil
			}
			if a.k != 'S' {
				unknownShape("unknown %s", w.fresh)
			}
			if v, ok := o.fld["?"+eqFact(sv{fld: w.other + "@"}, sv{fld: `""`})]; ok && v.b == 1 {
				return "", nil
			}
			if _, ok := o.fld[w.other]; !ok {
				return "the old text stays beside the new " + w.fresh, nil
			}
			if b.k != 'S' && b.k != 'q' {
				unknownShape("unknown text")
			}
			if t, ok := isLitS(b); ok && t == "" {
				return "", nil
			}
			q := toQ(b)
			if len(q) == 1 && q[0].k == 'a' && strings.Contains(q[0].txt, "param new") {
				if e, ok := c.escapeOf(q[0].txt, "param new"); ok && w.other == "innerHTML" {
					return e.all("<>&"), nil
				}
				unknownShape("unknown text")
			}
			return "the old text stays beside the new " + w.fresh, nil
		})
	}
}

// c04sources: every source given to a text node from outside has no <.
func c04sources(c *Ctx) {
	n := 0
	for _, f := range c.P.funcs {
		if !c.P.inLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var val, obj ssa.Value
				switch v := in.(type) {
				case *ssa.Call:
					g := v.Common().StaticCallee()
					if g == nil || len(v.Common().Args) != 2 {
						continue
					}
					if g != c.P.method("Node", "SetInnerHTML") && g != c.P.method("Node", "setInnerHTMLFromTextNode") {
						continue
					}
					obj, val = v.Common().Args[0], v.Common().Args[1]
				case *ssa.Store:
					fa, ok := v.Addr.(*ssa.FieldAddr)
					if !ok || strings.TrimPrefix(fieldClass(fa.X.Type(), fa.Field), "F:") != "Node.innerHTML" {
						continue
					}
					obj, val = fa.X, v.Val
				default:
					continue
				}
				if p, ok := obj.(*ssa.Parameter); ok && len(f.Params) > 0 && p == f.Params[0] {
					continue // the node's own functions, analysed above
				}
				text := c.textNodeValue(obj, 0)
				if text == 0 {
					continue
				}
				n++
				switch c.noAngle(val, 0) {
				case 1:
				case 0:
					c.bad("source", f.Name(), fmt.Sprintf("source in %s", f.Name()), "%s: the source given to the text node is not one in which every < is escaped", c.P.instrPos(in))
				default:
					c.notes = append(c.notes, fmt.Sprintf("%s: the source of the text node is not understood", c.P.instrPos(in)))
				}
			}
		}
	}
	c.count("sources of text nodes", n)
}

// textNodeValue: 1 the value is a new text node, 0 something else or not known.
func (c *Ctx) textNodeValue(v ssa.Value, d int) int {
	if d > 6 {
		return 0
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil || g.Blocks == nil || !c.P.inLib(g) {
			return 0
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
					return c.textNodeValue(r.Results[0], d+1)
				}
			}
		}
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || strings.TrimPrefix(fieldClass(fa.X.Type(), fa.Field), "F:") != "Node.NodeType" {
				continue
			}
			for _, q := range *fa.Referrers() {
				if st, ok := q.(*ssa.Store); ok {
					if k, ok := st.Val.(*ssa.Const); ok && k.Value != nil && k.Int64() == c.constInt("textNode", 3) {
						return 1
					}
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.textNodeValue(e, d+1) == 1 {
				return 1
			}
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a && c.textNodeValue(st.Val, d+1) == 1 {
					return 1
				}
			}
		}
	}
	return 0
}

func (c *Ctx) constInt(name string, dflt int64) int64 {
	if k, ok := c.P.lib.Members[name].(*ssa.NamedConst); ok && k.Value.Value != nil {
		if i, ok := constant.Int64Val(k.Value.Value); ok {
			return i
		}
	}
	return dflt
}

// noAngle: 1 the text has no <, 0 it may have one, 2 not known.
func (c *Ctx) noAngle(v ssa.Value, d int) int {
	if d > 8 {
		return 2
	}
	str := func(v ssa.Value) (string, bool) {
		k, ok := v.(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(k.Value), true
	}
	switch x := v.(type) {
	case *ssa.Const:
		t, ok := str(x)
		if !ok {
			return 2
		}
		if strings.Contains(t, "<") {
			return 0
		}
		return 1
	case *ssa.Phi:
		r := 1
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			switch c.noAngle(e, d+1) {
			case 0:
				return 0
			case 2:
				r = 2
			}
		}
		return r
	case *ssa.BinOp:
		a, b := c.noAngle(x.X, d+1), c.noAngle(x.Y, d+1)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return 2
	case *ssa.Slice:
		return c.noAngle(x.X, d+1)
	case *ssa.Extract:
		return c.noAngle(x.Tuple, d+1)
	case *ssa.ChangeType:
		return c.noAngle(x.X, d+1)
	case *ssa.Convert:
		return c.noAngle(x.X, d+1)
	case *ssa.Parameter:
		// what is passed
		i := -1
		for j, p := range x.Parent().Params {
			if p == x {
				i = j
			}
		}
		r, n := 1, 0
		for _, f := range c.P.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() == x.Parent() && i < len(call.Common().Args) {
						n++
						switch c.noAngle(call.Common().Args[i], d+1) {
						case 0:
							return 0
						case 2:
							r = 2
						}
					}
				}
			}
		}
		if n == 0 {
			return 2
		}
		return r
	case *ssa.Call:
		g := x.Common().StaticCallee()
		if g == nil {
			return 2
		}
		args := x.Common().Args
		switch g.String() {
		case "html.EscapeString", "golang.org/x/net/html.EscapeString":
			return 1
		case "strings.ReplaceAll", "strings.Replace":
			old, ok1 := str(args[1])
			new, ok2 := str(args[2])
			if !ok1 || !ok2 {
				return 2
			}
			if strings.Contains(new, "<") {
				return 0
			}
			if old == "<" {
				if g.Name() == "ReplaceAll" {
					return 1
				}
				if k, ok := args[3].(*ssa.Const); ok && k.Int64() < 0 {
					return 1
				}
				return 0
			}
			return c.noAngle(args[0], d+1)
		case "(*strings.Replacer).Replace":
			if u, ok := args[0].(*ssa.UnOp); ok {
				if gl, ok := u.X.(*ssa.Global); ok {
					if t, ok := c.replacerTable(gl.Name()); ok {
						for _, v := range t {
							if strings.Contains(v, "<") {
								return 0
							}
						}
						if _, ok := t["<"]; ok {
							return 1
						}
						return c.noAngle(args[1], d+1)
					}
				}
			}
			return 2
		case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.ToLower", "strings.ToUpper", "strings.Cut", "strings.ToValidUTF8":
			return c.noAngle(args[0], d+1)
		case "(*golang.org/x/net/html.Tokenizer).Raw", "(*golang.org/x/net/html.Tokenizer).Text":
			return 0
		}
		if g.Blocks != nil && c.P.inLib(g) {
			r := 1
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ret, ok := in.(*ssa.Return); ok && len(ret.Results) == 1 {
						switch c.noAngle(ret.Results[0], d+1) {
						case 0:
							return 0
						case 2:
							r = 2
						}
					}
				}
			}
			return r
		}
	}
	return 2
}

// c04void: the table of elements without an end tag.
func c04void(c *Ctx) {
	for t := range c.voidTables {
		c04table(c, t)
	}
}

func c04table(c *Ctx, table string) {
	keys, ok := c.mapKeys(table)
	if !ok {
		c.notes = append(c.notes, "the table of void elements is not understood")
		return
	}
	c.count("void elements", len(keys))
	for _, k := range keys {
		if !htmlVoid[k] {
			c.bad("void", table, "void "+k, "%s is written without an end tag, but is no void element", k)
		}
	}
	has := map[string]bool{}
	for _, k := range keys {
		has[k] = true
	}
	for _, k := range []string{"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "wbr"} {
		if !has[k] {
			c.bad("void", table, "void "+k, "the void element %s is written with an end tag", k)
		}
	}
}

// mapKeys reads the string keys a global map is initialised with.
func (c *Ctx) mapKeys(global string) ([]string, bool) {
	g, ok := c.P.lib.Members[global].(*ssa.Global)
	ini := c.P.lib.Func("init")
	if !ok || ini == nil {
		return nil, false
	}
	var m *ssa.MakeMap
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				m, _ = st.Val.(*ssa.MakeMap)
			}
		}
	}
	if m == nil {
		return nil, false
	}
	var out []string
	for _, r := range *m.Referrers() {
		if u, ok := r.(*ssa.MapUpdate); ok {
			k, ok := u.Key.(*ssa.Const)
			if !ok || k.Value == nil {
				return nil, false
			}
			out = append(out, constant.StringVal(k.Value))
		}
	}
	sort.Strings(out)
	return out, true
}
