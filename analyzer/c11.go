package main

import (
	"go/types"
	"sort"
	"strings"
)

func init() { checks["C11"] = checkC11 }

var optionNames = []string{"MaxElemsToParse", "NTopCandidates", "CharThreshold", "ClassesToPreserve", "KeepClasses", "Serializer", "Html2Text", "DisableJSONLD", "AllowedVideoRegex", "MinContentLength", "MinScore", "VisibilityChecker"}

func checkC11(c *Ctx) {
	c.rule("each exported option constructor's closure changes exactly one field of the settings, to its argument (ClassesToPreserve: to the old list with the argument appended), and no two constructors share a field")
	c.rule("the settings object starts from the documented defaults, every given option is applied to it exactly once, in order, before anything else, and nothing writes a setting afterwards")
	c.rule("each setting is read where it is documented to act")
	ops := c.optionConstructors()
	byCls := map[string]string{}
	for _, n := range optionNames {
		o := ops[n]
		if o == nil {
			c.bad("constructor", "options", n, "there is no exported option constructor %s", n)
			continue
		}
		where := c.P.pos(o.fn.Pos())
		switch {
		case len(o.fields) == 0:
			c.bad("constructor", where, n, "the option %s changes no setting", n)
		case len(o.fields) > 1:
			c.bad("constructor", where, n, "the option %s changes several settings: %s", n, strings.Join(o.fields, ", "))
		case !o.ok:
			c.bad("constructor", where, n, "the option %s does not set %s to the value given: %s", n, o.cls, o.why)
		}
		if o.cls != "" {
			if p, dup := byCls[o.cls]; dup {
				c.bad("constructor", where, n, "the options %s and %s set the same field %s", p, n, o.cls)
			}
			byCls[o.cls] = n
			c.samplef("%s sets %s", n, o.cls)
		}
	}
	c.need("option constructors", len(ops), len(optionNames))
	c11apply(c, c.buildRun(), "New", true)
	c11apply(c, c.readRun(), "IsProbablyReaderable", false)
	// nothing writes a setting while extracting
	for _, ev := range c.parseRun().e.events {
		if ev.kind == "store" && strings.HasPrefix(ev.name, "F:Options") {
			c.bad("overwrite", c.P.instrPos(ev.instr), ev.name, "a setting is overwritten during extraction")
		}
		if ev.kind == "store" && ev.name == "F:Readability.options" {
			c.bad("overwrite", c.P.instrPos(ev.instr), ev.name, "the settings are replaced during extraction")
		}
	}
	c11uses(c)
}

// c11apply checks defaults and the application of options in an entry point.
func c11apply(c *Ctx, r *run, entry string, builds bool) {
	e := r.e
	st, _ := c.optionsType()
	if st == nil {
		c.bad("defaults", "-", "Options", "the settings type is gone")
		return
	}
	var optsArg *Term
	for i, p := range r.fn.Params {
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if typeName(sl.Elem()) == "Option" {
				optsArg = r.arg[i]
			}
		}
	}
	if optsArg == nil {
		c.bad("apply", c.P.pos(r.fn.Pos()), entry, "%s takes no options", entry)
		return
	}
	var calls []*Event
	for _, ev := range e.byKind("dyn") {
		if l, _, ok := elemOf(ev.args[0]); ok && l == optsArg {
			calls = append(calls, ev)
		}
	}
	if len(calls) == 0 {
		c.bad("apply", c.P.pos(r.fn.Pos()), entry, "%s does not apply the options it is given", entry)
		return
	}
	c.count("option application sites", len(calls))
	for _, ev := range calls {
		where := c.P.instrPos(ev.instr)
		_, idx, _ := elemOf(ev.args[0])
		inst, inRange, why := e.coverage(optsArg, idx)
		if why != "" {
			c.bad("apply", where, entry, "%s does not apply every option: %s", entry, why)
			continue
		}
		v, _, _ := splitVar(idx)
		if inst.external == "" {
			if p := inst.phiOf(v); p != nil && inst.next[p] == e.w.add(v, e.w.int(-1)) {
				c.bad("apply", where, entry, "%s applies the options in reverse order", entry)
			}
		}
		given := func(a *Term) (bool, bool) {
			if a.op == "EQ" && a.args[1].op == "nil" && same(a.args[0], ev.args[0]) {
				return false, true
			}
			return false, false
		}
		if ok, cex := e.entails(e.w.b.And(inst.entry, inRange), ev.cond, given, ev.loops); !ok {
			c.bad("apply", where, entry, "%s skips options: %s", entry, cex)
		}
		if len(calls) == 1 && inst.entry != bTrue {
			// only the documented argument errors may keep options from being applied
			if builds {
				ok, cex := true, ""
				for _, rt := range r.act.rets {
					if rt.val.op == "tuple" && rt.val.args[0].op != "nil" {
						if ok, cex = e.entails(rt.st.cond, inst.entry, nil, nil); !ok {
							c.bad("apply", where, entry, "%s may return a parser without applying the options: %s", entry, cex)
							break
						}
					}
				}
			} else if ok, cex := e.entails(bTrue, inst.entry, noParseError, nil); !ok {
				c.bad("apply", where, entry, "%s may skip the options: %s", entry, cex)
			}
		}
		obj := ev.args[1]
		if obj.op != "new" {
			c.bad("defaults", where, entry, "%s does not start from a fresh settings object: %s", entry, e.w.showd(obj, 4))
			continue
		}
		// defaults: the memory before the first round
		st0 := &State{cond: bTrue, mem: map[string]*Term{}}
		for k, m := range inst.memInit {
			st0.mem[k] = m
		}
		for i := 0; i < st.NumFields(); i++ {
			cls := "F:Options." + st.Field(i).Name()
			if _, ok := st0.mem[cls]; !ok {
				st0.mem[cls] = e.mem(r.out, cls)
			}
		}
		load := func(opt string) *Term {
			cls := c.setting(opt)
			if cls == "" {
				return nil
			}
			for i := 0; i < st.NumFields(); i++ {
				if "F:Options."+st.Field(i).Name() == cls {
					return e.loadField(st0, cls, obj, st.Field(i).Type())
				}
			}
			return nil
		}
		want := func(opt string, ok func(t *Term) bool, what string) {
			t := load(opt)
			if t == nil {
				return
			}
			c.count("defaults compared", 1)
			if !ok(t) {
				c.bad("defaults", where, entry+" "+opt, "the default of %s in %s is %s, documented is %s", opt, entry, e.w.showd(t, 4), what)
			}
		}
		isI := func(n int64) func(*Term) bool { return func(t *Term) bool { return t == e.w.int(n) } }
		isB := func(t *Term) bool { return isBoolT(t) && t.bs[0] == bFalse }
		want("MaxElemsToParse", func(t *Term) bool { return t.isInt() && t.intVal() <= 0 }, "no limit")
		want("NTopCandidates", isI(5), "5")
		want("CharThreshold", isI(500), "500")
		want("ClassesToPreserve", func(t *Term) bool { return t.op == "slicelit" && len(t.args) == 1 && t.args[0] == e.w.str("page") }, `["page"]`)
		want("KeepClasses", isB, "false")
		want("DisableJSONLD", isB, "false")
		want("MinScore", func(t *Term) bool { return t.op == "float" && t.aux == "20" }, "20")
		want("MinContentLength", isI(140), "140")
		want("Html2Text", func(t *Term) bool { return t.op == "nil" }, "none")
		want("AllowedVideoRegex", func(t *Term) bool { return t.op == "re" }, "the library's pattern")
		want("VisibilityChecker", func(t *Term) bool { return t.op == "fn" || t.op == "clo" }, "the library's checker")
		want("Serializer", func(t *Term) bool {
			if t.op != "fn" && t.op != "clo" {
				return false
			}
			n := e.w.mk("param", "node*")
			n.typ = e.nodePtr()
			s := st0.clone()
			nEv := len(e.events)
			v, ok := e.callValue(nil, t, []*Term{n}, s, nil)
			mut := false
			for _, x := range e.events[nEv:] {
				if isMutation(x) {
					mut = true
				}
			}
			e.events = e.events[:nEv]
			return ok && !mut && v.op == "html" && v.args[0] == n
		}, "the inner HTML")
		// later writes
		for _, x := range e.events {
			if x.kind == "store" && strings.HasPrefix(x.name, "F:Options") && x.seq > ev.seq && !(x.args[0].op == "faddr" && distinctAddr(x.args[0].args[0], obj)) {
				c.bad("overwrite", c.P.instrPos(x.instr), entry+" "+x.name, "%s overwrites %s after the options were applied", entry, x.name)
			}
		}
		if builds {
			for _, rt := range r.act.rets {
				if rt.val.op != "tuple" {
					continue
				}
				for _, a := range e.altsUnder(rt.val.args[0], rt.st.cond) {
					if a.t.op != "new" {
						continue
					}
					f := e.loadField(rt.st, c.optionsField(), a.t, obj.typ)
					for _, x := range e.altsUnder(f, a.g) {
						if x.t != obj {
							c.bad("apply", where, entry, "the parser returned by %s does not carry the settings the options were applied to", entry)
						}
					}
				}
			}
		}
	}
}

// optionsField is the field of Readability that holds the settings.
func (c *Ctx) optionsField() string {
	o := c.P.lib.Pkg.Scope().Lookup("Readability")
	if o == nil {
		return ""
	}
	s := o.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if n := typeName(s.Field(i).Type()); n == "*Options" || n == "Options" {
			return "F:Readability." + s.Field(i).Name()
		}
	}
	return ""
}

// c11uses: every setting is consulted, and in the right entry point.
func c11uses(c *Ctx) {
	use := map[string][]string{
		"Parse":                {"MaxElemsToParse", "NTopCandidates", "CharThreshold", "ClassesToPreserve", "KeepClasses", "Serializer", "Html2Text", "DisableJSONLD", "AllowedVideoRegex"},
		"IsProbablyReaderable": {"MinContentLength", "MinScore", "VisibilityChecker"},
	}
	for entry, l := range use {
		r := c.parseRun()
		if entry != "Parse" {
			r = c.readRun()
		}
		e := r.e
		sort.Strings(l)
		for _, opt := range l {
			cls := c.setting(opt)
			if cls == "" {
				continue
			}
			is := func(t *Term) bool { return t.op == "fld" && t.aux == cls }
			n := 0
			for _, a := range e.liveAtoms() {
				if e.mentions(a, is) {
					n++
				}
			}
			for _, ev := range e.events {
				for _, a := range ev.args {
					if ev.kind != "ob" && e.mentions(a, is) {
						n++
						break
					}
				}
			}
			c.count("settings traced to their use", 1)
			if n == 0 {
				c.bad("unused", entry, opt, "%s never consults the setting of %s (%s)", entry, opt, cls)
			}
		}
	}
}
