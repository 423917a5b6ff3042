package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// optInfo: what one option constructor does to the settings.
type optInfo struct {
	name   string
	fn     *ssa.Function
	cls    string // the field it sets
	fields []string
	ok     bool // sets it to its argument
	why    string
}

func (c *Ctx) optionsType() (*types.Struct, string) {
	o := c.P.lib.Pkg.Scope().Lookup("Options")
	if o == nil {
		return nil, ""
	}
	s, _ := o.Type().Underlying().(*types.Struct)
	return s, "Options"
}

// optionConstructors analyses every exported function returning an Option.
func (c *Ctx) optionConstructors() map[string]*optInfo {
	if c.opts != nil {
		return c.opts
	}
	c.opts = map[string]*optInfo{}
	ot := c.P.lib.Pkg.Scope().Lookup("Option")
	st, _ := c.optionsType()
	if ot == nil || st == nil {
		return c.opts
	}
	for _, m := range c.P.lib.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 || !types.Identical(f.Signature.Results().At(0).Type(), ot.Type()) {
			continue
		}
		w := newWorld()
		e := newExec(c.P, w)
		e.initGlobals(c.P.lib)
		s := &State{cond: bTrue, mem: map[string]*Term{}}
		var args []*Term
		for _, p := range f.Params {
			t := w.mk("param", p.Name())
			t.typ = p.Type()
			args = append(args, t)
		}
		v, out := e.run(f, args, nil, s, nil)
		info := &optInfo{name: f.Name(), fn: f}
		c.opts[f.Name()] = info
		c.count("option constructors analysed", 1)
		if out == nil || v == nil {
			info.why = "does not return"
			continue
		}
		o := w.mk("param", "settings*")
		o.typ = types.NewPointer(c.P.lib.Pkg.Scope().Lookup("Options").Type())
		before := out.clone()
		_, ok2 := e.callValue(nil, v, []*Term{o}, out, ot.Type().Underlying().(*types.Signature))
		if !ok2 {
			info.why = "the option does not return"
			continue
		}
		for _, ev := range e.events {
			if ev.kind == "dyn" {
				info.why = "calls an unknown function"
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			cls := "F:Options." + st.Field(i).Name()
			b, a := e.loadField(before, cls, o, st.Field(i).Type()), e.loadField(out, cls, o, st.Field(i).Type())
			if same(a, b) {
				continue
			}
			info.fields = append(info.fields, cls)
			info.cls = cls
			arg := args[0]
			switch {
			case a == arg:
				info.ok = true
			case isBoolT(a) && e.w.asBool(arg) == a.bs[0]:
				info.ok = true
			case a.op == "append" && same(a.args[0], b) && len(a.args) == 2 && a.args[1] == arg && f.Signature.Variadic():
				info.ok = true
			case a.op == "call:slices.Concat" || a.op == "call:slices.Insert":
				info.ok = e.mentions(a, func(t *Term) bool { return t == arg }) && e.mentions(a, func(t *Term) bool { return same(t, b) })
			default:
				info.why = "the new value is " + w.showd(a, 4)
			}
		}
		// anything written outside of the settings
		for _, ev := range e.events {
			if ev.kind == "store" && ev.args[0].op != "faddr" && ev.args[0].op != "new" && ev.args[0].op != "iaddr" {
				info.why = "writes " + ev.name
				info.ok = false
			}
		}
		sort.Strings(info.fields)
	}
	return c.opts
}

// setting is the memory class of the field an option sets ("" if it is not found).
func (c *Ctx) setting(name string) string {
	o := c.optionConstructors()[name]
	if o == nil || len(o.fields) != 1 {
		return ""
	}
	return o.cls
}

// isSetting: t reads the given setting.
func (c *Ctx) isSetting(t *Term, name string) bool {
	cls := c.setting(name)
	return cls != "" && t.op == "fld" && t.aux == cls
}
