package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Sequences: what a function collects while it goes over a list (text, markup, nodes) is
// a sequence of pieces. What is collected for one member is compared with a template and
// then stands for "everything expected of that member", so that members folded into a
// segment leave "everything expected of the segment" in the sequence.

type qpiece struct {
	k   byte // c a character, a an atom about an object, n the node itself, R what a recursive call yields for it, F everything expected of it
	id  int
	seg bool
	txt string
}

func lit(t string) []qpiece {
	var out []qpiece
	for _, r := range t {
		out = append(out, qpiece{k: 'c', txt: string(r)})
	}
	return out
}

func isLitS(v sv) (string, bool) {
	if v.k == 'S' && strings.HasPrefix(v.fld, `"`) {
		if t, err := strconv.Unquote(v.fld); err == nil {
			return t, true
		}
	}
	return "", false
}

func toQ(v sv) []qpiece {
	switch v.k {
	case 'q', 'Q':
		return v.qs
	case 'S':
		if t, ok := isLitS(v); ok {
			return lit(t)
		}
		return []qpiece{{k: 'a', id: v.id, txt: v.fld}}
	case 's':
		if v.id == 0 {
			return nil
		}
	}
	unknownShape("unknown text")
	return nil
}

func joinQ(a, b []qpiece) []qpiece {
	return append(append([]qpiece(nil), a...), b...)
}

// eachQ rewrites every sequence of the state.
func (s *sstate) eachQ(f func(q []qpiece) []qpiece) {
	s.each(func(v sv) sv {
		return mapSV(v, func(v sv) sv {
			if v.k == 'q' || v.k == 'Q' {
				v.qs = f(v.qs)
			}
			return v
		})
	})
}

// normQ replaces what was collected for a member by the piece standing for it.
func (s *sstate) normQ() {
	if s.tmpl == nil {
		return
	}
	var ids []int
	for id, o := range s.objs {
		if o.mat {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		alts, _ := s.tmpl(s, id)
		for _, t := range alts {
			if len(t) == 0 || len(t) == 1 && t[0] == (qpiece{k: 'F', id: id}) {
				continue
			}
			s.eachQ(func(q []qpiece) []qpiece {
			again:
				for i := 0; i+len(t) <= len(q); i++ {
					ok := true
					for j := range t {
						if q[i+j] != t[j] {
							ok = false
							break
						}
					}
					if ok {
						q = append(append(append([]qpiece(nil), q[:i]...), qpiece{k: 'F', id: id}), q[i+len(t):]...)
						goto again
					}
				}
				return q
			})
		}
	}
}

// pairQ: in every sequence F(a) is followed by F(b), and F(b) preceded by F(a).
func (s *sstate) pairQ(a, b qpiece) bool {
	ok := true
	s.eachQ(func(q []qpiece) []qpiece {
		for i, p := range q {
			if p == a && (i+1 >= len(q) || q[i+1] != b) || p == b && (i == 0 || q[i-1] != a) {
				ok = false
			}
		}
		return q
	})
	return ok
}

// inQ: some sequence holds the piece.
func (s *sstate) inQ(x qpiece) bool {
	r := false
	s.eachQ(func(q []qpiece) []qpiece {
		for _, p := range q {
			if p == x {
				r = true
			}
		}
		return q
	})
	return r
}

// mayBeEmpty: nothing may be expected of the object.
func (s *sstate) mayBeEmpty(id int) bool {
	o := s.objs[id]
	if o.em || s.tmpl == nil {
		return o.em
	}
	alts, _ := s.tmpl(s, id)
	for _, a := range alts {
		if len(a) == 0 {
			return true
		}
	}
	return false
}

// fitQ: a and b, neighbours, can become one: their pieces follow one another wherever
// they are, or one is nowhere and nothing may be expected of it.
func (s *sstate) fitQ(a, b qpiece) bool {
	em := func(p qpiece) bool {
		if p.seg {
			return s.segs[p.id].em
		}
		return s.mayBeEmpty(p.id)
	}
	ina, inb := s.inQ(a), s.inQ(b)
	switch {
	case ina && inb:
		return s.pairQ(a, b)
	case ina:
		return em(b)
	case inb:
		return em(a)
	}
	return em(a) == em(b)
}

// takeQ lets the piece g stand for h as well.
func (s *sstate) takeQ(g, h qpiece) {
	if s.inQ(g) {
		s.dropQ(h)
	} else {
		s.renameQ(h, g)
	}
}

func (s *sstate) dropQ(x qpiece) {
	s.eachQ(func(q []qpiece) []qpiece {
		for _, p := range q {
			if p == x {
				var out []qpiece
				for _, p := range q {
					if p != x {
						out = append(out, p)
					}
				}
				return out
			}
		}
		return q
	})
}

func (s *sstate) renameQ(x, y qpiece) {
	s.eachQ(func(q []qpiece) []qpiece {
		out := append([]qpiece(nil), q...)
		for i, p := range out {
			if p == x {
				out[i] = y
			}
		}
		return out
	})
}

// looseQ: a sequence holds something about x that is not everything expected of it.
func (s *sstate) looseQ(x int) bool {
	r := false
	s.eachQ(func(q []qpiece) []qpiece {
		for _, p := range q {
			if !p.seg && p.id == x && p.k != 'F' {
				r = true
			}
		}
		return q
	})
	return r
}

func fItem(it sitem) qpiece { return qpiece{k: 'F', id: it.id, seg: it.seg} }

// compareQ compares a sequence with everything expected of the items.
func (s *sstate) compareQ(v sv, items []sitem, nm func(int) string) (string, []*sstate) {
	if v.k != 'q' && v.k != 'Q' && v.k != 'S' && !(v.k == 's' && v.id == 0) {
		unknownShape("unknown result")
	}
	s.extra["cmp"] = sv{k: 'Q', qs: toQ(v)}
	empty := map[int]bool{}
	for _, it := range items {
		if it.id == 0 {
			continue
		}
		if it.seg {
			if s.segs[it.id].em {
				empty[it.id] = true
			}
			continue
		}
		if s.objs[it.id].em {
			empty[it.id] = true
		}
		alts, fk := s.tmpl(s, it.id)
		if fk != nil {
			return "", fk
		}
		for _, a := range alts {
			if len(a) == 0 {
				empty[it.id] = true
			}
		}
	}
	s.normQ()
	got := s.extra["cmp"].qs
	i := 0
	for _, it := range items {
		if i < len(got) && got[i] == fItem(it) {
			i++
			continue
		}
		if empty[it.id] {
			continue
		}
		i = -1
		break
	}
	if i == len(got) {
		return "", nil
	}
	return fmt.Sprintf("the children are [%s], the result is [%s]", s.showItems(items, nm), s.showQ(got, nm)), nil
}

func (s *sstate) showQ(q []qpiece, nm func(int) string) string {
	var b strings.Builder
	for _, p := range q {
		switch p.k {
		case 'c':
			b.WriteString(p.txt)
		case 'n':
			fmt.Fprintf(&b, "{%s itself}", nm(p.id))
		case 'R':
			fmt.Fprintf(&b, "{what is inside of %s}", nm(p.id))
		case 'F':
			fmt.Fprintf(&b, "{all of %s}", nm(p.id))
		default:
			fmt.Fprintf(&b, "{%s}", strings.ReplaceAll(p.txt, "@", " of "+nm(p.id)))
		}
	}
	return b.String()
}

// fact decides an opaque condition about an object (or, for id 0, in general).
func (s *sstate) fact(id int, name string) (bool, []*sstate) {
	get := func(q *sstate) map[string]sv {
		if id == 0 {
			return q.extra
		}
		if o := q.objs[id]; o != nil {
			return o.fld
		}
		unknownShape("condition about an unknown object")
		return nil
	}
	if v, ok := get(s)["?"+name]; ok {
		return v.b == 1, nil
	}
	t := s.clone()
	u := s.clone()
	get(t)["?"+name] = svBool(true)
	get(u)["?"+name] = svBool(false)
	return false, []*sstate{t, u}
}

func eqFact(a, b sv) string {
	l := []string{a.fld, b.fld}
	sort.Strings(l)
	return l[0] + "==" + l[1]
}

// seqEq compares texts.
func (x *shape) seqEq(s *sstate, a, b sv) (sv, []*sstate) {
	if a.k != 'S' || b.k != 'S' {
		return sv{k: 'b', b: 2}, nil
	}
	if a.id == b.id && a.fld == b.fld {
		return svBool(true), nil
	}
	la, oka := isLitS(a)
	lb, okb := isLitS(b)
	if oka && okb {
		return svBool(la == lb), nil
	}
	if oka {
		a, b, la, lb, oka, okb = b, a, lb, la, okb, oka
	}
	if okb && lb == "" && (a.fld == "LocalName@" || a.fld == "TagName@") && s.objs[a.id] != nil {
		return svBool(s.objs[a.id].kind != 'E'), nil
	}
	if a.id != 0 && b.id != 0 && a.id != b.id {
		return sv{k: 'b', b: 2}, nil
	}
	id := a.id
	if id == 0 {
		id = b.id
	}
	v, fk := s.fact(id, eqFact(a, b))
	return svBool(v), fk
}

func elemIs(t types.Type, want string) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return typeName(u.Elem()) == want
	case *types.Array:
		return typeName(u.Elem()) == want
	case *types.Pointer:
		return elemIs(u.Elem(), want)
	}
	return false
}

func seqType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok && (elemIs(t, "string") || elemIs(t, "*Node"))
}

// fieldOf gives the value of a field nobody has set.
func (x *shape) fieldOf(s *sstate, id int, fld string, t types.Type) (sv, []*sstate) {
	o := s.objs[id]
	switch fld {
	case "Attributes", "ChildNodes", "Children":
		if !o.mat {
			break
		}
		// its own list: empty, or something
		k := byte('N')
		if fld != "Attributes" {
			k = 'c'
		}
		if fld == "Children" {
			if c, ok := o.fld["ChildNodes"]; ok && c.k == 's' && c.id != 0 && len(s.arrs[c.id].items) == 0 {
				o.fld[fld] = s.newArr(nil)
				return o.fld[fld], nil
			}
		}
		var out []*sstate
		for i := 0; i < 2; i++ {
			q := s.clone()
			var its []sitem
			if i == 1 {
				g := q.id()
				q.segs[g] = &sseg{kind: k, parent: svNil, outPrev: svNil, outNext: svNil, outPrevE: svNil, outNextE: svNil}
				its = []sitem{{true, false, g}}
			}
			l := q.newArr(its)
			q.arrs[l.id].fl = 'c'
			q.objs[id].fld[fld] = l
			out = append(out, q)
		}
		return svUnk, out
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return sv{k: 'S', fld: fld + "@", id: id}, nil
	}
	return svUnk, nil
}

// noChildren: the node is known to have none (f: ChildNodes or Children).
func (s *sstate) noChildren(id int, f string) bool {
	o := s.objs[id]
	if o.kind == 'T' {
		return true
	}
	for _, f := range []string{f, "ChildNodes"} {
		if v, ok := o.fld[f]; ok && v.k == 's' && v.id != 0 && s.arrs[v.id] != nil && len(s.arrs[v.id].items) == 0 {
			return true
		}
	}
	return false
}

func unwrap(t string) string {
	for strings.HasPrefix(t, "strings.ToUpper(") {
		t = strings.TrimSuffix(strings.TrimPrefix(t, "strings.ToUpper("), ")")
	}
	return t
}

// recCall treats a call of a function that is already running: it does for the node given
// what is being shown of it.
func (x *shape) recCall(s *sstate, f *sframe, v *ssa.Call, fn *ssa.Function, args, bind []sv) ([]*sstate, bool) {
	var on *sframe
	for _, fr := range s.fr {
		if fr.fn == fn {
			on = fr
		}
	}
	if on == nil {
		return nil, false
	}
	ni := -1
	for i, p := range fn.Params {
		if typeName(p.Type()) == "*Node" {
			ni = i
			break
		}
	}
	if ni < 0 {
		return nil, false
	}
	if fk := s.deref(args[ni]); fk != nil {
		return fk, true
	}
	if args[ni].k != 'p' || s.objs[args[ni].id] == nil || !s.objs[args[ni].id].mat {
		unknownShape("recursion on something else than a child")
	}
	id := args[ni].id
	accs := 0
	acc := svNone
	var put []func()
	R := []qpiece{{k: 'R', id: id}}
	for i, a := range args {
		if i == ni {
			continue
		}
		switch {
		case a.k == 'Q':
			accs++
			acc = a
		case a.k == 'p' && s.objs[a.id] != nil && isBuilder(fn.Params[i].Type()):
			accs++
			id := a.id
			put = append(put, func() { s.objs[id].fld["buf"] = sv{k: 'q', qs: joinQ(s.objs[id].fld["buf"].qs, R)} })
		case a.k == 'S' && a.id == 0 && i < len(on.args) && on.args[i].k == 'S' && unwrap(a.fld) == unwrap(on.args[i].fld):
		case a.k == 'p' && i < len(on.args) && on.args[i].k == 'p' && on.args[i].id == a.id:
		case a.k == 'b' && a.b < 2 && i < len(on.args) && on.args[i].k == 'b' && on.args[i].b == a.b:
		default:
			unknownShape("recursion with other arguments")
		}
	}
	for i, fv := range fn.FreeVars {
		if i >= len(bind) || bind[i].k != 'p' || s.objs[bind[i].id] == nil {
			continue
		}
		o := s.objs[bind[i].id]
		if isBuilder(fv.Type()) {
			accs++
			put = append(put, func() { o.fld["buf"] = sv{k: 'q', qs: joinQ(o.fld["buf"].qs, R)} })
			continue
		}
		c, ok := o.fld["*"]
		if !ok || c.k != 'Q' && c.k != 'q' && c.k != 'S' || !storesTo(fn, fv) {
			continue
		}
		accs++
		put = append(put, func() {
			k := c.k
			if k == 'S' {
				k = 'q'
			}
			o.fld["*"] = sv{k: k, qs: joinQ(toQ(c), R)}
		})
	}
	set := func(s *sstate, r sv) {
		g := s.fr[len(s.fr)-1]
		g.regs[v] = r
		g.pc++
	}
	if x.find {
		if accs > 0 {
			unknownShape("search collecting results")
		}
		o := s.objs[id]
		if o.nf {
			set(s, svNil)
			return nil, true
		}
		t, u := s.clone(), s.clone()
		t.objs[id].nf = true
		set(t, svNil)
		set(u, sv{k: 'H', id: id})
		return []*sstate{t, u}, true
	}
	if accs > 1 {
		unknownShape("several collections")
	}
	res := svUnk
	rt := fn.Signature.Results()
	switch {
	case acc.k == 'Q':
		if rt.Len() != 1 || !seqType(rt.At(0).Type()) {
			unknownShape("collection passed down")
		}
		res = sv{k: 'Q', qs: joinQ(acc.qs, R)}
	case accs == 1:
		put[0]()
	case rt.Len() == 1 && seqType(rt.At(0).Type()):
		res = sv{k: 'Q', qs: R}
	case rt.Len() == 1 && typeName(rt.At(0).Type()) == "string":
		res = sv{k: 'q', qs: R}
	default:
		unknownShape("recursion without a result")
	}
	set(s, res)
	return nil, true
}

func isBuilder(t types.Type) bool {
	n := types.TypeString(t, nil)
	return n == "*strings.Builder" || n == "*bytes.Buffer"
}

func storesTo(fn *ssa.Function, fv *ssa.FreeVar) bool {
	for _, r := range *fv.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == fv {
			return true
		}
		if mc, ok := r.(*ssa.MakeClosure); ok {
			for i, b := range mc.Bindings {
				if b == fv && storesTo(mc.Fn.(*ssa.Function), mc.Fn.(*ssa.Function).FreeVars[i]) {
					return true
				}
			}
		}
	}
	return false
}

// seqCall models library functions on texts. ok false: not known.
func (x *shape) seqCall(s *sstate, v *ssa.Call, name string, args []sv) (r sv, fk []*sstate, ok bool) {
	if strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).") {
		if args[0].k != 'p' || s.objs[args[0].id] == nil {
			unknownShape("unknown buffer")
		}
		o := s.objs[args[0].id]
		cur := o.fld["buf"].qs
		add := func(q []qpiece) sv {
			o.fld["buf"] = sv{k: 'q', qs: joinQ(cur, q)}
			return sv{k: 't', tup: []sv{svUnk, svNil}}
		}
		switch name[strings.Index(name, ").")+2:] {
		case "WriteString":
			return add(toQ(args[1])), nil, true
		case "WriteByte", "WriteRune":
			if args[1].k == 'i' && len(args[1].l.t) == 0 {
				r := add(lit(string(rune(args[1].l.c))))
				if strings.HasSuffix(name, "WriteByte") {
					r = svNil
				}
				return r, nil, true
			}
			unknownShape("unknown character")
		case "String":
			return sv{k: 'q', qs: cur}, nil, true
		case "Grow":
			return svUnk, nil, true
		}
		unknownShape("%s", name)
	}
	switch name {
	case "strings.Join":
		if args[0].k == 'Q' || args[0].k == 's' && args[0].id == 0 {
			q := toQ(args[0])
			sep, isL := isLitS(args[1])
			if !isL {
				unknownShape("unknown separator")
			}
			if sep != "" {
				var out []qpiece
				for i, p := range q {
					if i > 0 {
						out = append(out, lit(sep)...)
					}
					out = append(out, p)
				}
				q = out
			}
			return sv{k: 'q', qs: q}, nil, true
		}
	case "fmt.Sprintf":
		f, isL := isLitS(args[0])
		if isL && args[1].k == 't' {
			var out []qpiece
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					j := i
					for i+1 < len(f) && f[i+1] != '%' {
						i++
					}
					out = append(out, lit(f[j:i+1])...)
					continue
				}
				i++
				if i >= len(f) {
					unknownShape("format")
				}
				switch {
				case f[i] == '%':
					out = append(out, lit("%")...)
				case (f[i] == 's' || f[i] == 'v') && n < len(args[1].tup):
					out = append(out, toQ(args[1].tup[n])...)
					n++
				default:
					unknownShape("format")
				}
			}
			return sv{k: 'q', qs: out}, nil, true
		}
	}
	// functions of one text and constants
	pure := strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "html.") || strings.HasPrefix(name, "golang.org/x/net/html.") || strings.HasPrefix(name, "(*strings.Replacer).") || strings.HasPrefix(name, "(*regexp.Regexp).")
	if !pure || v.Common().Signature().Results().Len() != 1 {
		return svUnk, nil, false
	}
	id, atoms := 0, 0
	var parts []string
	for _, a := range args {
		switch {
		case a.k == 'S':
			if _, l := isLitS(a); !l {
				atoms++
				if a.id != 0 {
					if id != 0 && id != a.id {
						return svUnk, nil, false
					}
					id = a.id
				}
			}
			parts = append(parts, a.fld)
		case a.k == 'g':
			parts = append(parts, a.fld)
		case a.k == 'i' && len(a.l.t) == 0:
			parts = append(parts, fmt.Sprint(a.l.c))
		default:
			return svUnk, nil, false
		}
	}
	if atoms == 0 {
		if len(args) == 1 {
			t, _ := isLitS(args[0])
			switch name {
			case "strings.ToUpper":
				return sv{k: 'S', fld: strconv.Quote(strings.ToUpper(t))}, nil, true
			case "strings.ToLower":
				return sv{k: 'S', fld: strconv.Quote(strings.ToLower(t))}, nil, true
			}
		}
		return svUnk, nil, false
	}
	e := name + "(" + strings.Join(parts, ", ") + ")"
	if name == "strings.ToUpper" && strings.HasPrefix(parts[0], "strings.ToUpper(") {
		e = parts[0]
	}
	switch typeName(v.Type()) {
	case "string":
		return sv{k: 'S', fld: e, id: id}, nil, true
	case "bool":
		if name == "strings.EqualFold" {
			e = "EqualFold(" + parts[0] + ", " + parts[1] + ")"
		}
		b, fk := s.fact(id, e)
		return svBool(b), fk, true
	}
	return svUnk, nil, false
}

// replacerTable reads the arguments of a strings.NewReplacer a global is initialised with.
func (c *Ctx) replacerTable(global string) (map[string]string, bool) {
	var g *ssa.Global
	for _, m := range c.P.lib.Members {
		if x, ok := m.(*ssa.Global); ok && x.Name() == global {
			g = x
		}
	}
	if g == nil {
		return nil, false
	}
	var call *ssa.Call
	n := 0
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					call, _ = st.Val.(*ssa.Call)
				}
			}
		}
	}
	if ini := c.P.lib.Func("init"); n == 0 && ini != nil {
		for _, b := range ini.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					n++
					call, _ = st.Val.(*ssa.Call)
				}
			}
		}
	}
	if n != 1 || call == nil || call.Common().StaticCallee() == nil || call.Common().StaticCallee().String() != "strings.NewReplacer" {
		return nil, false
	}
	sl, ok := call.Common().Args[0].(*ssa.Slice)
	if !ok {
		return nil, false
	}
	vals := map[int]string{}
	for _, r := range *sl.X.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		ic, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil, false
		}
		for _, q := range *ia.Referrers() {
			if st, ok := q.(*ssa.Store); ok {
				k, ok := st.Val.(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					return nil, false
				}
				vals[int(ic.Int64())] = constant.StringVal(k.Value)
			}
		}
	}
	t := map[string]string{}
	for i := 0; i+1 < len(vals); i += 2 {
		if _, dup := t[vals[i]]; !dup {
			t[vals[i]] = vals[i+1]
		}
	}
	return t, true
}
