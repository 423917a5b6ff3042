package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isHTMLNode(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && strings.HasSuffix(p.Elem().String(), "golang.org/x/net/html.Node")
}

// htmlSummaries finds the functions that look up an attribute, test for one, or collect
// the text of an html.Node, and shows that they do.
func (c *Ctx) htmlSummaries() map[*ssa.Function]string {
	if c.summ != nil || c.summBusy {
		return c.summ
	}
	c.summBusy = true
	defer func() { c.summBusy = false }()
	c.summ = map[*ssa.Function]string{}
	c.summWhy = map[*ssa.Function]string{}
	str := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.String }
	bl := func(t types.Type) bool { b, ok := t.Underlying().(*types.Basic); return ok && b.Kind() == types.Bool }
	for _, f := range c.P.funcs {
		sg := f.Signature
		if f.Blocks == nil || f.Parent() != nil || sg.Recv() != nil || sg.Variadic() || sg.Results().Len() != 1 || sg.Params().Len() == 0 || !isHTMLNode(sg.Params().At(0).Type()) || len(f.TypeArgs()) > 0 || !c.P.inLib(f) {
			continue
		}
		rt := sg.Results().At(0).Type()
		kind := ""
		switch {
		case sg.Params().Len() == 2 && str(sg.Params().At(1).Type()) && str(rt):
			kind = "attr"
		case sg.Params().Len() == 2 && str(sg.Params().At(1).Type()) && bl(rt):
			kind = "hasattr"
		case sg.Params().Len() == 1 && str(rt):
			kind = "text"
		default:
			continue
		}
		why := ""
		if kind == "text" {
			why = c.textFn(f)
		} else {
			why = c.attrFn(f, kind)
		}
		c.summWhy[f] = why
		if why == "" {
			c.summ[f] = kind
			c.count("lookup functions shown to be complete", 1)
		}
	}
	return c.summ
}

func (c *Ctx) attrFn(f *ssa.Function, kind string) string {
	r := c.exec(f, false, nil)
	e, w := r.e, r.e.w
	if r.ret == nil {
		return "?does not return"
	}
	n, name := r.arg[0], r.arg[1]
	attrFld := func(t *Term, fld string) (list, idx *Term, ok bool) {
		if !isFld(t, "F:html.Attribute."+fld) && !(t.op == "sfield" && t.aux == "F:html.Attribute."+fld) {
			return nil, nil, false
		}
		a := t.args[0]
		if a.op != "iaddr" && a.op != "idx" {
			return nil, nil, false
		}
		return a.args[0], a.args[1], isFld(a.args[0], "F:html.Node.Attr") && a.args[0].args[0] == n
	}
	var list, idx *Term
	isKey := func(t *Term) bool {
		if t.op != "EQ" {
			return false
		}
		for i := 0; i < 2; i++ {
			if l, j, ok := attrFld(t.args[i], "Key"); ok && t.args[1-i] == name {
				list, idx = l, j
				return true
			}
		}
		return false
	}
	some := false
	for _, a := range e.liveAtoms() {
		some = isKey(a) || some
	}
	if !some {
		return "?no comparison of attribute keys with the name"
	}
	inst, inRange, why := e.coverage(list, idx)
	if inst == nil || why != "" && why != "early-exit" {
		return "not all attributes are looked at"
	}
	enc := append(append([]*LoopInst(nil), inst.outer...), inst)
	lt := w.b.Not(w.b.Not(inRange))
	hit := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if isKey(t) {
				return v, true
			}
			if v && t.op == "LT" && w.asBool(t) == lt {
				return true, true
			}
			return false, false
		}
	}
	if e.feasible(w.b.And(inst.exitAny, inRange), hit(false), enc) {
		return "the search ends before the last attribute"
	}
	if e.feasible(inst.back, hit(true), enc) {
		if len(inst.phis) > 1 || len(inst.memInit) > 0 {
			return "?the search goes on after a match"
		}
		return "an attribute with the name is passed over"
	}
	for _, v := range []bool{true, false} {
		if kind == "hasattr" {
			res := w.asBool(r.ret)
			if v {
				if ok, _ := e.entails(bTrue, res, hit(true), nil); !ok {
					return "an attribute with the name is not reported"
				}
			} else if e.feasible(res, hit(false), nil) {
				return "an attribute is reported without one of that name"
			}
			continue
		}
		for _, x := range e.altsUnder(r.ret, bTrue) {
			if !e.feasible(x.g, hit(v), nil) {
				continue
			}
			if _, _, ok := attrFld(x.t, "Val"); ok != v || !v && x.t != w.str("") {
				return "the value returned is not that of the attribute with the name"
			}
		}
	}
	return ""
}

// textFn: f collects the data of all text nodes below its argument. A reason starting
// with ? means that the function has another form than those understood.
func (c *Ctx) textFn(f *ssa.Function) string {
	r := c.exec(f, false, nil)
	recs := r.e.byKind("rec")
	if len(recs) == 0 {
		return "?no recursion"
	}
	var g *ssa.Function
	for _, h := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		if h.String() == recs[0].name {
			g = h
		}
	}
	if g == nil {
		return "?recursion of another function"
	}
	if g != f {
		// started once, on the argument
		n := 0
		for _, a := range r.e.acts {
			if a.fn == g {
				n++
				if len(a.args) == 0 || a.args[0] != r.arg[0] {
					return "?started elsewhere"
				}
			}
		}
		if n != 1 {
			return "?started several times"
		}
		if r.ret == nil || !strings.HasSuffix(r.ret.op, ").String") && r.ret.op != "cell" {
			return "?result is not the collected text"
		}
	}
	e, w, b := r.e, r.e.w, r.e.w.b
	var act *Activation
	for _, a := range e.acts {
		if a.fn == g && act == nil {
			act = a
		}
	}
	if act == nil || len(act.args) == 0 {
		return "?"
	}
	n := act.args[0]
	isText := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && isFld(t.args[0], "F:html.Node.Type") && t.args[0].args[0] == n && t.args[1].isInt() {
				return (t.args[1].intVal() == 1) == v, true
			}
			return false, false
		}
	}
	isData := func(t *Term) bool { return isFld(t, "F:html.Node.Data") && t.args[0] == n }
	// every child, in order
	for _, ev := range recs {
		var arg *Term
		for _, a := range ev.args {
			if a.typ != nil && isHTMLNode(a.typ) {
				arg = a
			}
		}
		if arg == nil || arg.op != "loopvar" || len(ev.loops) == 0 {
			return "?recursion not over the children"
		}
		inst, _ := arg.obj.(*LoopInst)
		if inst == nil || inst != ev.loops[len(ev.loops)-1] {
			return "?recursion not over the children"
		}
		p := inst.phiOf(arg)
		if p == nil || !isFld(inst.init[p], "F:html.Node.FirstChild") || inst.init[p].args[0] != n {
			return "the text is not collected from the first child on"
		}
		if nx := inst.next[p]; !isFld(nx, "F:html.Node.NextSibling") || nx.args[0] != arg {
			return "the text is not collected from every following sibling"
		}
		live := b.Not(e.isNil(arg))
		if e.feasible(b.And(inst.exitAny, live), nil, ev.loops) {
			return "the text of some children is left out"
		}
		if ok, cex := e.entails(b.And(inst.back, live), ev.cond, nil, ev.loops); !ok {
			return "the text of a child is left out when " + cex
		}
		if ok, cex := e.entails(bTrue, inst.entry, isText(false), nil); !ok {
			return "the children are not looked at when " + cex
		}
	}
	// its own text
	wrote := bFalse
	some := false
	for _, ev := range e.events {
		if ev.kind == "ext" && strings.HasSuffix(ev.name, ").WriteString") && len(ev.args) == 2 && isData(ev.args[1]) {
			wrote = b.Or(wrote, ev.cond)
			some = true
		}
		if ev.kind == "store" && len(ev.args) == 2 && ev.args[1].op == "op+" && e.mentions(ev.args[1], isData) {
			wrote = b.Or(wrote, ev.cond)
			some = true
		}
	}
	if !some && g == f {
		for _, x := range e.altsUnder(r.ret, bTrue) {
			if e.mentions(x.t, isData) {
				wrote = b.Or(wrote, x.g)
				some = true
			}
		}
	}
	if !some {
		return "?no text collected"
	}
	if ok, cex := e.entails(bTrue, wrote, isText(true), nil); !ok {
		return "a text node is left out when " + cex
	}
	if e.feasible(wrote, isText(false), nil) {
		return "data of other nodes than text is collected"
	}
	_ = w
	return ""
}
