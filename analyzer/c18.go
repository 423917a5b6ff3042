package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C18"] = checkC18 }

func isUpper(s string) bool { return s == strings.ToUpper(s) }
func isLower(s string) bool { return s == strings.ToLower(s) }

func checkC18(c *Ctx) {
	c.rule("every comparison of a canonical name (TagName) is with an upper case name or another canonical name, every comparison of a local name with a lower case one, every comparison of the name of a parsed html.Node with a lower case one; constant names are never compared with each other in different letter case")
	c.rule("every value stored as canonical name is upper case or converted to it, every value stored as local name lower case or converted to it")
	c.rule("the lookup by name converts the name asked for to the case it compares with")
	type cmp struct{ a, b, pos string }
	clash := map[cmp]bool{}
	match := map[string]bool{}
	var runs []*run
	watch := func(f *ssa.Function, prim bool) *run {
		if f == nil {
			return nil
		}
		return c.exec(f, false, func(e *Exec, st *State, args []*Term) {
			if prim {
				for _, g := range c.P.funcs {
					if _, ok := c.P.primName(g); ok {
						e.noPrim[g] = true
					}
				}
			}
			e.w.cmp = func(a, b *Term) {
				if e.cur == nil {
					return
				}
				pos := c.P.instrPos(e.cur)
				act := ""
				if e.act != nil {
					act = fmt.Sprintf("%d/%d/", len(runs), e.act.id)
				}
				switch {
				case a.isStr() && b.isStr():
					if a.aux == b.aux {
						match[act+a.aux] = true
					} else if strings.EqualFold(a.aux, b.aux) {
						clash[cmp{act + a.aux, b.aux, pos}] = true
						clash[cmp{act + b.aux, a.aux, pos}] = true
					}
				default:
					x, y := a, b
					if x.isStr() {
						x, y = y, x
					}
					low, up := x.op == "call:strings.ToLower", x.op == "call:strings.ToUpper"
					if low && !isLower(y.aux) || up && !isUpper(y.aux) {
						c.bad("case", pos, y.aux, "a name converted to %s case is compared with %q", map[bool]string{true: "lower", false: "upper"}[low], y.aux)
					}
				}
			}
		})
	}
	add := func(r *run) {
		if r != nil {
			runs = append(runs, r)
		}
	}
	add(watch(c.P.method("Readability", "Parse"), false))
	add(watch(c.P.fn("New"), false))
	add(watch(c.P.fn("IsProbablyReaderable"), false))
	var prims []*ssa.Function
	for _, f := range c.P.funcs {
		if r := f.Signature.Recv(); r != nil && typeName(r.Type()) == "*Node" && f.Parent() == nil {
			prims = append(prims, f)
		}
		if _, ok := c.P.primName(f); ok && f.Name() == "parse" {
			prims = append(prims, f)
		}
	}
	for _, f := range prims {
		add(watch(f, true))
		c.count("DOM functions analysed", 1)
	}
	if len(runs) < 3 {
		c.bad("entry", "library", "entry points", "entry points not found")
		return
	}
	var cl []cmp
	for x := range clash {
		cl = append(cl, x)
	}
	sort.Slice(cl, func(i, j int) bool { return fmt.Sprint(cl[i]) < fmt.Sprint(cl[j]) })
	for _, x := range cl {
		// a value that is also compared with its own spelling is not lost
		if other := x.a[:strings.LastIndex(x.a, "/")+1] + x.b; !match[x.a] && !match[other] {
			n := x.a[strings.LastIndex(x.a, "/")+1:]
			if n < x.b {
				c.bad("case", x.pos, strings.ToLower(n), "the name %q is compared with %q", n, x.b)
			}
		}
	}
	for _, r := range runs {
		c18terms(c, r)
		c18stores(c, r)
	}
	if f := c.P.method("Node", "getElementsByTagName"); f != nil {
		c18lookup(c, runs, f)
	}
}

// canonical name fields: 'U' upper, 'L' lower case
func nameField(t *Term) byte {
	if t.op == "fld" || t.op == "sfield" {
		switch t.aux {
		case "F:Node.TagName":
			return 'U'
		case "F:Node.LocalName", "F:html.Node.Data", "F:html.Token.Data":
			return 'L'
		}
	}
	return 0
}

// caseOf: the letter case a value is known to have: U, L, both ('='), neither ('x'), unknown (0).
func caseOf(t *Term) byte {
	switch {
	case t.isStr():
		switch {
		case isUpper(t.aux) && isLower(t.aux):
			return '='
		case isUpper(t.aux):
			return 'U'
		case isLower(t.aux):
			return 'L'
		}
		return 'x'
	case t.op == "call:strings.ToUpper":
		return 'U'
	case t.op == "call:strings.ToLower":
		return 'L'
	case nameField(t) != 0:
		return nameField(t)
	}
	return 0
}

func c18terms(c *Ctx, r *run) {
	e := r.e
	say := func(name *Term, s string) {
		want, f := "upper", "TagName"
		if nameField(name) == 'L' {
			want, f = "lower", "local name"
		}
		c.bad("case", c.constPos(s), f+" "+s, "a %s, which is in %s case, is compared with %q", f, want, s)
	}
	for _, t := range e.w.list {
		switch t.op {
		case "EQ":
			for i := range t.args {
				x, y := t.args[i], t.args[1-i]
				k := nameField(x)
				if k == 0 {
					continue
				}
				c.count("name comparisons checked", 1)
				if x.aux == "F:html.Node.Data" && !y.isStr() {
					continue
				}
				switch z := caseOf(y); {
				case z == k || z == '=':
				case y.isStr():
					if x.aux == "F:html.Node.Data" && z == 'x' {
						continue // the text of a text node
					}
					say(x, y.aux)
				case z != 0:
					c.bad("case", "library", "names", "a name in upper case is compared with a name in lower case: %s", e.w.showd(t, 4))
				}
			}
		case "call:strings.HasPrefix", "call:strings.HasSuffix", "call:strings.Contains":
			if k := nameField(t.args[0]); k != 0 && t.args[0].aux != "F:html.Node.Data" && t.args[1].isStr() {
				if z := caseOf(t.args[1]); z != k && z != '=' {
					say(t.args[0], t.args[1].aux)
				}
			}
		case "lookup", "lookupok":
			if len(t.args) < 2 || t.args[0].op != "maplit" {
				continue
			}
			k := nameField(t.args[1])
			if k == 0 {
				continue
			}
			for i := 0; i+1 < len(t.args[0].args); i += 2 {
				key := t.args[0].args[i]
				c.count("name comparisons checked", 1)
				if z := caseOf(key); key.isStr() && z != k && z != '=' {
					say(t.args[1], key.aux)
				}
			}
		case "slicecontains":
			k := nameField(t.args[1])
			if k == 0 || t.args[0].op != "slicelit" {
				continue
			}
			for _, key := range t.args[0].args {
				c.count("name comparisons checked", 1)
				if z := caseOf(key); key.isStr() && z != k && z != '=' {
					say(t.args[1], key.aux)
				}
			}
		}
	}
}

func c18stores(c *Ctx, r *run) {
	e := r.e
	for _, ev := range e.byKind("store") {
		var k byte
		switch ev.name {
		case "F:Node.TagName":
			k = 'U'
		case "F:Node.LocalName":
			k = 'L'
		default:
			continue
		}
		for _, x := range e.altsUnder(ev.args[1], ev.cond, ev.loops...) {
			c.count("name stores checked", 1)
			if z := caseOf(x.t); z == k || z == '=' {
				continue
			} else if z == 0 && k == 'U' && x.t.op == "param" && r.fn.Signature.Recv() != nil && c.P.method("Readability", r.fn.Name()) == r.fn {
				continue
			}
			what, want := "canonical", "upper"
			if k == 'L' {
				what, want = "local", "lower"
			}
			c.bad("store", c.P.instrPos(ev.instr), what, "the %s name of a node is set to a value not known to be in %s case: %s", what, want, e.w.showd(x.t, 4))
		}
	}
}

func c18lookup(c *Ctx, runs []*run, f *ssa.Function) {
	for _, r := range runs {
		if r.fn != f || len(r.arg) < 2 {
			continue
		}
		e := r.e
		tag := r.arg[1]
		n := 0
		for _, t := range e.w.list {
			if t.op == "call:strings.EqualFold" && e.mentionsVal(t, func(x *Term) bool { return x == tag }) {
				n++
			}
			if t.op != "EQ" {
				continue
			}
			for i := range t.args {
				x, y := t.args[i], t.args[1-i]
				if nameField(x) == 0 || !e.mentionsVal(y, func(z *Term) bool { return z == tag }) {
					continue
				}
				n++
				if caseOf(y) == 0 {
					c.bad("lookup", c.P.fnPos(f), "raw", "the name looked up is compared as given, not in the case of the names")
				}
			}
		}
		if n == 0 {
			c.notes = append(c.notes, "how the lookup by name compares names is not recognised: undecided")
		}
	}
}

// constPos: where a string constant occurs in the library.
func (c *Ctx) constPos(s string) string {
	for _, f := range c.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == fmt.Sprintf("%q", s) && in.Pos().IsValid() {
						return c.P.instrPos(in)
					}
				}
			}
		}
	}
	return "library"
}
