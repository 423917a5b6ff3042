package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) call(in *ssa.Call, c *ssa.CallCommon, st *State) bool {
	var args []*Term
	for _, a := range c.Args {
		args = append(args, e.get(st, a))
	}
	if c.IsInvoke() {
		recv := e.get(st, c.Value)
		name := "invoke:" + typeName(c.Value.Type()) + "." + c.Method.Name()
		e.ob("nil-iface", st, in, recv)
		if recv.op == "iface" {
			recv = recv.args[0]
		}
		if recv.op == "css" && c.Method.Name() == "Match" && len(args) == 1 {
			e.set(st, in, e.w.atomBool("cssmatch", "", args[0], recv))
			return true
		}
		all := append([]*Term{recv}, args...)
		pure := name == "invoke:error.Error"
		e.set(st, in, e.extResult(name, all, in, pure))
		if !pure {
			e.emit(&Event{kind: "ext", name: name, args: all, res: e.act.env[in], instr: in}, st)
		}
		return true
	}
	switch v := c.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(in, v.Name(), c, args, st)
	case *ssa.Function:
		res, ok := e.callStatic(in, v, args, nil, st, c)
		if ok {
			e.set(st, in, res)
		}
		return ok
	}
	fv := e.get(st, c.Value)
	res, ok := e.callValue(in, fv, args, st, c.Signature())
	if ok {
		e.set(st, in, res)
	}
	return ok
}

// callValue calls a function value.
func (e *Exec) callValue(in ssa.Instruction, fv *Term, args []*Term, st *State, sig *types.Signature) (*Term, bool) {
	switch fv.op {
	case "clo":
		return e.callStatic(in, fv.obj.(*ssa.Function), args, fv.args, st, nil)
	case "fn":
		return e.callStatic(in, fv.obj.(*ssa.Function), args, nil, st, nil)
	case "ite":
		if len(fv.args) <= 8 {
			var sts []*State
			var vals []*Term
			for i, f := range fv.args {
				s := st.clone()
				s.cond = e.w.b.And(st.cond, fv.bs[i])
				if s.cond == bFalse {
					continue
				}
				v, ok := e.callValue(in, f, args, s, sig)
				if !ok {
					continue
				}
				sts = append(sts, s)
				vals = append(vals, v)
			}
			if len(sts) == 0 {
				return nil, false
			}
			n, rel := e.mergeStates(sts)
			*st = *n
			return e.w.ite(rel, vals), true
		}
	case "nil":
		e.ob("nil-call", st, in, fv)
		if st.cond != bFalse && !e.obl {
			e.emit(&Event{kind: "ob", name: "nil-call", args: []*Term{fv}, instr: in}, st)
		}
		return nil, false
	}
	e.ob("nil-call", st, in, fv)
	// unknown function: any address-taken function of this type, or one of the caller
	eff := map[string]bool{}
	for _, g := range e.P.addrTaken {
		if types.Identical(sigNoRecv(g), sig) {
			for c := range e.P.eff(g) {
				eff[c] = true
			}
		}
	}
	e.havocEff(st, eff, "dyn")
	res := e.resultOf("dyn", append([]*Term{fv}, args...), sig.Results(), true)
	e.emit(&Event{kind: "dyn", name: "dyn", args: append([]*Term{fv}, args...), res: res, instr: in}, st)
	return res, true
}

// resultOf builds an opaque result term of a call.
func (e *Exec) resultOf(name string, args []*Term, res *types.Tuple, fresh bool) *Term {
	w := e.w
	id := ""
	if fresh {
		w.fresh++
		id = fmt.Sprintf("@%d", w.fresh)
	}
	if res.Len() == 0 {
		return w.mk("void", "")
	}
	if res.Len() == 1 {
		return e.val(w.mk("call:"+name, id, args...), res.At(0).Type())
	}
	var ps []*Term
	for i := 0; i < res.Len(); i++ {
		ps = append(ps, e.val(w.mk("call:"+name, fmt.Sprintf("%s#%d", id, i), args...), res.At(i).Type()))
	}
	return w.mk("tuple", "", ps...)
}

func (e *Exec) extResult(name string, args []*Term, in ssa.Value, pure bool) *Term {
	switch t := in.Type().(type) {
	case *types.Tuple:
		return e.resultOf(name, args, t, !pure)
	default:
		return e.resultOf(name, args, types.NewTuple(types.NewVar(0, nil, "", t)), !pure)
	}
}

func (e *Exec) builtin(in *ssa.Call, name string, c *ssa.CallCommon, args []*Term, st *State) bool {
	w := e.w
	switch name {
	case "len":
		e.set(st, in, w.length(args[0]))
	case "cap":
		e.set(st, in, w.mk("cap", "", args[0]))
	case "append":
		e.emit(&Event{kind: "append", name: "append", args: args, instr: in}, st)
		r := e.appendTerm(args)
		e.set(st, in, r)
	case "copy":
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			e.havoc(st, "E:"+typeName(sl.Elem()), "copy")
		}
		e.emit(&Event{kind: "copy", name: "copy", args: args, instr: in}, st)
		e.set(st, in, w.freshTerm("copyn", ""))
	case "delete":
		e.havoc(st, "M:"+typeName(c.Args[0].Type()), "delete")
		e.emit(&Event{kind: "mapdelete", name: "delete", args: args, instr: in}, st)
	case "panic":
		e.emit(&Event{kind: "panic", name: "panic", args: args, instr: in}, st)
		return false
	case "min", "max":
		if len(args) == 2 && isInteger(in.Type()) {
			lt := w.asBool(w.lt(args[0], args[1], true))
			if name == "max" {
				lt = w.b.Not(lt)
			}
			e.set(st, in, w.ite([]int{lt, w.b.Not(lt)}, args))
		} else {
			e.set(st, in, w.mk("call:"+name, "", args...))
		}
	case "recover":
		e.emit(&Event{kind: "recover", name: "recover", instr: in}, st)
		e.set(st, in, w.freshTerm("recovered", ""))
	case "print", "println":
		e.emit(&Event{kind: "ext", name: "builtin." + name, args: args, instr: in}, st)
	default:
		e.set(st, in, w.freshTerm("builtin", name, args...))
	}
	return true
}

func (e *Exec) appendTerm(args []*Term) *Term {
	w := e.w
	if len(args) == 1 {
		return args[0]
	}
	var parts []*Term
	push := func(t *Term) {
		if t.op == "append" {
			parts = append(parts, t.args...)
		} else {
			parts = append(parts, t)
		}
	}
	push(args[0])
	push(args[1])
	var out []*Term
	for _, p := range parts {
		if p.op == "nil" || p.op == "slicelit" && len(p.args) == 0 {
			continue
		}
		if len(out) > 0 && p.op == "slicelit" && out[len(out)-1].op == "slicelit" {
			out[len(out)-1] = w.mk("slicelit", "", append(append([]*Term(nil), out[len(out)-1].args...), p.args...)...)
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return args[0]
	}
	if len(out) == 1 {
		return out[0]
	}
	return w.mk("append", "", out...)
}

func (e *Exec) callStatic(in ssa.Instruction, f *ssa.Function, args, bindings []*Term, st *State, c *ssa.CallCommon) (*Term, bool) {
	args = e.narrow(args, st.cond)
	if p, ok := e.P.primName(f); ok && !e.noPrim[f] {
		return e.prim(in, p, args, st)
	}
	if e.P.inLib(f) && f.Name() == "decodeHTML" && f.Signature.Recv() == nil && len(args) == 1 && f.Signature.Results().Len() == 2 && !e.noPrim[f] {
		if args[0].isStr() && args[0].aux == "" {
			return e.w.mk("tuple", "", args[0], e.w.nilT()), true
		}
		return e.w.mk("tuple", "", e.val(e.w.mk("decoded", "", args[0]), types.Typ[types.String]), e.val(e.w.freshTerm("err", "decodeHTML"), f.Signature.Results().At(1).Type())), true
	}
	switch e.summ[f] {
	case "attr":
		e.ob("nil-recv:"+f.Name(), st, in, args...)
		return e.val(e.w.mk("attr", "", args[0], args[1], e.w.int(0)), types.Typ[types.String]), true
	case "hasattr":
		e.ob("nil-recv:"+f.Name(), st, in, args...)
		return e.w.atomBool("hasattr", "", args[0], args[1], e.w.int(0)), true
	case "text":
		e.ob("nil-recv:"+f.Name(), st, in, args...)
		return e.val(e.w.mk("text", "", args[0], e.w.int(0)), types.Typ[types.String]), true
	}
	if e.opaque && e.P.inLib(f) {
		res := e.resultOf(f.Name(), args, f.Signature.Results(), true)
		e.emit(&Event{kind: "ext", name: "lib:" + f.Name(), args: args, res: res, instr: in}, st)
		return res, true
	}
	if f.Blocks != nil && e.P.inModule(f) {
		if e.onStack(f) || (e.noPrim[f] && e.onStack(f)) {
			e.havocEff(st, e.P.eff(f), "rec")
			res := e.resultOf("rec:"+f.String(), args, f.Signature.Results(), true)
			ev := e.emit(&Event{kind: "rec", name: f.String(), args: args, res: res, instr: in}, st)
			ev.aux = f.String()
			return res, true
		}
		if pk, pv := e.depth(); pk > 60 {
			_ = pv
			e.fail("inlining too deep at %s", f)
		}
		v, out := e.run(f, args, bindings, st, in)
		if out == nil {
			return nil, false
		}
		*st = *out
		return v, true
	}
	return e.ext(in, f, args, st, c)
}

func (e *Exec) depth() (int, bool) {
	n := 0
	for a := e.act; a != nil; a = a.parent {
		n++
	}
	return n, true
}

// primitives --------------------------------------------------------------------------

func (e *Exec) prim(in ssa.Instruction, name string, args []*Term, st *State) (*Term, bool) {
	w := e.w
	ev := &Event{kind: "prim", name: name, args: args, instr: in}
	e.ob("nil-recv:"+name, st, in, args...)
	e.emit(ev, st)
	var res *Term
	dom := func() {
		for _, c := range domClasses {
			e.havoc(st, c, name)
		}
		e.havoc(st, clsText, name)
	}
	nodeT := e.nodePtr()
	switch name {
	case "AppendChild":
		e.store(st, clsParent, args[1], args[0])
		dom()
		res = w.mk("void", "")
	case "RemoveChild":
		e.store(st, clsParent, args[1], w.nilT())
		dom()
		res = w.mk("tuple", "", args[1], w.freshTerm("err", "RemoveChild"))
	case "ReplaceChild":
		e.store(st, clsParent, args[1], args[0])
		e.store(st, clsParent, args[2], w.nilT())
		dom()
		res = args[2]
	case "SetInnerHTML", "SetTextContent":
		e.havoc(st, clsParent, name)
		dom()
		res = w.mk("void", "")
	case "SetAttribute":
		e.store(st, clsAttr, w.mk("pair", "", args[0], args[1]), args[2])
		e.havoc(st, clsAttrFld, name)
		res = w.mk("void", "")
	case "RemoveAttribute":
		e.store(st, clsAttr, w.mk("pair", "", args[0], args[1]), w.mk("absent", ""))
		e.havoc(st, clsAttrFld, name)
		res = w.mk("void", "")
	case "GetAttribute":
		res = e.loadFrom(e.mem(st, clsAttr), w.mk("pair", "", args[0], args[1]), func(m *Term) *Term {
			return w.mk("attr", "", args[0], args[1], m)
		})
		if res.op == "absent" {
			res = w.str("")
		}
		res = e.val(res, types.Typ[types.String])
		e.events = e.events[:len(e.events)-1]
	case "HasAttribute":
		r := e.loadFrom(e.mem(st, clsAttr), w.mk("pair", "", args[0], args[1]), func(m *Term) *Term {
			return w.mk("attr", "", args[0], args[1], m)
		})
		switch r.op {
		case "absent":
			res = w.fls()
		case "attr":
			res = w.atomBool("hasattr", "", args[0], args[1], r.args[2])
		default:
			res = w.tru()
		}
		e.events = e.events[:len(e.events)-1]
	case "GetTextContent":
		res = w.mk("text", "", args[0], e.mem(st, clsText))
		res = e.val(res, types.Typ[types.String])
	case "GetInnerHTML":
		res = w.mk("html", "", args[0], e.mem(st, clsText), e.mem(st, clsAttr), e.mem(st, "F:Node.LocalName"))
		res = e.val(res, types.Typ[types.String])
	case "GetElementById":
		res = e.val(w.mk("byid", "", args[0], args[1], e.mem(st, "F:Node.Children"), e.mem(st, clsAttr)), nodeT)
	case "getElementsByTagName":
		tag := args[1]
		if tag.isStr() {
			tag = w.str(strings.ToLower(tag.aux))
		}
		res = w.mk("query", "", args[0], tag, e.mem(st, "F:Node.Children"), e.mem(st, "F:Node.TagName"))
		if res.typ == nil {
			res.typ = types.NewSlice(nodeT)
		}
	case "createElementNode":
		tag := args[1]
		// (a loop analysed again makes new nodes: identifiers order allocations and loops)
		id := fmt.Sprintf("%d:%s", e.act.id, valName(in))
		if e.again > 0 {
			id = fmt.Sprintf("%s+%d", id, e.again)
		}
		res = w.mk("newnode", id, tag)
		res.typ = nodeT
		if tag.isStr() {
			local := tag.aux
			if i := strings.LastIndex(local, ":"); i >= 0 {
				local = local[i+1:]
			}
			e.store(st, "F:Node.LocalName", res, w.str(strings.ToLower(local)))
			e.store(st, "F:Node.TagName", res, w.str(strings.ToUpper(local)))
		}
		e.store(st, "F:Node.NodeType", res, w.int(1))
		e.store(st, clsParent, res, w.nilT())
		e.store(st, "F:Node.ReadabilityNode", res, w.nilT())
		e.store(st, "F:Node.ReadabilityDataTable", res, w.nilT())
	case "getBaseURI":
		res = e.val(w.mk("baseuri", "", args[0]), types.Typ[types.String])
	case "parse":
		res = w.freshTerm("newdoc", "parse", args[1:]...)
		res.typ = nodeT
	}
	ev.res = res
	return res, true
}

func valName(in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return fmt.Sprintf("%s@%d", v.Name(), in.Block().Index)
	}
	return "?"
}

func (e *Exec) nodePtr() types.Type {
	return types.NewPointer(e.P.lib.Pkg.Scope().Lookup("Node").Type())
}

// external functions ------------------------------------------------------------------

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "regexp": true,
	"net/url": true, "path": true, "fmt": true, "errors": true, "reflect": true, "slices": true, "cmp": true, "maps": true, "bytes": true, "html": true, "regexp/syntax": true,
}

func (e *Exec) ext(in ssa.Instruction, f *ssa.Function, args []*Term, st *State, c *ssa.CallCommon) (*Term, bool) {
	w := e.w
	name := extName(f)
	if strings.HasPrefix(name, "log/slog.") || strings.HasPrefix(name, "(*log/slog.") {
		if !e.opaque {
			args = nil
		}
		res := e.resultOf(name, args, f.Signature.Results(), true)
		e.emit(&Event{kind: "ext", name: name, args: args, res: res, instr: in}, st)
		return res, true
	}
	if e.opaque && (strings.HasPrefix(name, "flag.") || strings.HasPrefix(name, "(*flag.FlagSet)")) {
		if e.flagMem == nil {
			e.flagMem = map[string]bool{}
		}
		for _, a := range args {
			switch a.op {
			case "gaddr":
				e.flagMem["G:"+a.aux] = true
			case "new":
				if cls := e.cellCls[a.id]; cls != "" {
					e.flagMem[cls] = true
				}
			}
		}
		if strings.HasSuffix(name, "Parse") {
			e.flagTid = len(w.list)
			for cls := range e.flagMem {
				e.havoc(st, cls, "flag.Parse")
			}
			e.havoc(st, "P:string", "flag.Parse")
			e.havoc(st, "P:bool", "flag.Parse")
		}
	}
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	op := "call:" + name
	one := func(t *Term) (*Term, bool) { return e.val(t, f.Signature.Results().At(0).Type()), true }
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		e.emit(&Event{kind: "exit", name: name, args: args, instr: in}, st)
		return nil, false
	case "regexp.MustCompile", "regexp.MustCompilePOSIX":
		if args[0].isStr() {
			return w.mk("re", args[0].aux), true
		}
		e.ob("mustcompile", st, in, args[0])
	case "golang.org/x/net/html.Parse":
		// fails only if reading the source fails, which reading from memory does not
		if inMemory(args[0]) {
			d := e.val(w.freshTerm("htmldoc", "", args[0]), f.Signature.Results().At(0).Type())
			e.emit(&Event{kind: "ext", name: name, args: args, res: d, instr: in}, st)
			return w.mk("tuple", "", d, w.nilT()), true
		}
	case cascadiaPkg + ".ParseGroup", cascadiaPkg + ".Parse", cascadiaPkg + ".Compile":
		if args[0].isStr() && plainSelector.MatchString(args[0].aux) {
			return w.mk("tuple", "", w.mk("css", normSelector(args[0].aux)), w.nilT()), true
		}
	case cascadiaPkg + ".MustCompile":
		if args[0].isStr() && plainSelector.MatchString(args[0].aux) {
			return w.mk("css", normSelector(args[0].aux)), true
		}
	case cascadiaPkg + ".QueryAll":
		if args[1].op == "iface" {
			args[1] = args[1].args[0]
		}
		if args[1].op == "css" {
			return one(w.mk("cssall", "", args[0], args[1]))
		}
	case "(" + cascadiaPkg + ".Selector).MatchAll", "(" + cascadiaPkg + ".Selector).Match":
		if args[0].op == "css" {
			if strings.HasSuffix(name, "All") {
				return one(w.mk("cssall", "", args[1], args[0]))
			}
			return w.atomBool("cssmatch", "", args[1], args[0]), true
		}
	case "fmt.Errorf", "errors.New":
		return w.mk("nonnil", "error", args...), true
	case "strings.ToLower":
		if args[0].isStr() {
			return w.str(strings.ToLower(args[0].aux)), true
		}
		if args[0].op == "call:strings.ToLower" {
			return args[0], true
		}
	case "strings.ToUpper":
		if args[0].isStr() {
			return w.str(strings.ToUpper(args[0].aux)), true
		}
		if args[0].op == "call:strings.ToUpper" {
			return args[0], true
		}
	case "strings.TrimSpace":
		if args[0].isStr() {
			return w.str(strings.TrimSpace(args[0].aux)), true
		}
		if args[0].op == "call:strings.TrimSpace" {
			return args[0], true
		}
	case "strings.EqualFold":
		a, b := args[0], args[1]
		if a.isStr() {
			a, b = b, a
		}
		if b.isStr() {
			t, _ := e.lower(a)
			return w.eq(t, w.str(strings.ToLower(b.aux))), true
		}
	case "strings.Contains":
		return w.contains(args[0], args[1]), true
	case "strings.HasPrefix":
		if args[0].isStr() && args[1].isStr() {
			return w.boolConst(strings.HasPrefix(args[0].aux, args[1].aux)), true
		}
	case "unicode/utf8.RuneCountInString":
		return one(w.length(w.mk("runes", "", args[0])))
	case "strings.Count":
		// never negative
	case "slices.Contains":
		if t, ok := e.containsTerm(args[0], args[1]); ok {
			return t, true
		}
		return w.atomBool("slicecontains", "", args[0], args[1]), true
	case "slices.ContainsFunc", "slices.IndexFunc", "slices.Index":
		return e.iterModel(in, name, f, args, st)
	case "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.Reverse":
		return e.sortModel(in, name, f, args, st, c)
	case "encoding/json.Unmarshal":
		p := args[1]
		if p.op == "iface" {
			p = p.args[0]
		}
		var pt types.Type
		if c != nil {
			if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
				pt = derefT(mi.X.Type())
			}
		}
		if pt != nil {
			v := w.freshTerm("json", "unmarshal", args[0])
			v.typ = pt
			e.storeAddr(st, p, v, pt)
		}
		err := w.freshTerm("err", "json.Unmarshal")
		e.emit(&Event{kind: "ext", name: name, args: args, res: err, instr: in}, st)
		return err, true
	}
	// closures passed to an external function are executed once on unknown arguments
	pure := purePkgs[pkg] && !strings.Contains(name, "Builder)") && !strings.Contains(name, "Buffer)") && !strings.HasPrefix(name, "fmt.Print") && !strings.HasPrefix(name, "fmt.Fprint") && !strings.HasPrefix(name, "fmt.Scan") && !strings.HasPrefix(name, "fmt.Fscan") && !strings.HasPrefix(name, "fmt.Sscan")
	for _, a := range args {
		if a.op == "clo" || a.op == "fn" {
			fn := a.obj.(*ssa.Function)
			if fn.Blocks != nil && e.P.inModule(fn) && !e.onStack(fn) {
				var as []*Term
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					t := w.freshTerm("cbarg", name)
					t.typ = fn.Signature.Params().At(i).Type()
					if name == "(*regexp.Regexp).ReplaceAllStringFunc" {
						t = w.freshTerm("rematch", "", args[0], args[1])
						t.typ = types.Typ[types.String]
					}
					as = append(as, t)
				}
				s := st.clone()
				s.cond = w.b.And(st.cond, w.asBool(w.freshTerm("cbrun", name)))
				pre := st.clone()
				if _, out := e.run(fn, as, a.args, s, in); out != nil {
					n, _ := e.mergeStates([]*State{out, func() *State {
						pre.cond = w.b.And(pre.cond, w.b.Not(w.asBool(w.mk("cbnone", fmt.Sprint(w.fresh)))))
						return pre
					}()})
					cnd := st.cond
					*st = *n
					st.cond = cnd
				}
			}
		}
	}
	// interface arguments are transparent
	for i, a := range args {
		if a.op == "iface" {
			args[i] = a.args[0]
		}
	}
	_ = op
	res := e.resultOf(name, args, f.Signature.Results(), !pure)
	kind := "ext"
	if pure {
		kind = "pure"
	}
	if f.Signature.Recv() != nil {
		e.ob("nil-recv:"+name, st, in, args...)
	}
	e.emit(&Event{kind: kind, name: name, args: args, res: res, instr: in}, st)
	return res, true
}

const cascadiaPkg = "github.com/andybalholm/cascadia"

var plainSelector = regexp.MustCompile(`^\s*[a-z][a-z0-9]*(\s*[ >]\s*[a-z][a-z0-9]*)*(\s*,\s*[a-z][a-z0-9]*(\s*[ >]\s*[a-z][a-z0-9]*)*)*\s*$`)

// normSelector: canonical spacing and order of a selector group.
func normSelector(s string) string {
	var ps []string
	for _, p := range strings.Split(s, ",") {
		ps = append(ps, strings.Join(strings.Fields(strings.ReplaceAll(p, ">", " > ")), " "))
	}
	sort.Strings(ps)
	return strings.Join(ps, ",")
}

func inMemory(t *Term) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	return strings.HasPrefix(t.op, "call:strings.NewReader") || strings.HasPrefix(t.op, "call:bytes.NewReader") || strings.HasPrefix(t.op, "call:bytes.NewBuffer")
}

func (w *World) boolConst(b bool) *Term {
	if b {
		return w.tru()
	}
	return w.fls()
}

func (e *Exec) lower(a *Term) (*Term, bool) {
	if a.isStr() {
		return e.w.str(strings.ToLower(a.aux)), true
	}
	if a.op == "call:strings.ToLower" {
		return a, true
	}
	return e.w.mk("call:strings.ToLower", "", a), true
}

func (e *Exec) containsTerm(list, x *Term) (*Term, bool) {
	if list.op == "nil" {
		return e.w.fls(), true
	}
	if list.op == "slicelit" {
		r := bFalse
		for _, a := range list.args {
			r = e.w.b.Or(r, e.w.asBool(e.w.eq(x, a)))
		}
		return e.w.bool(r), true
	}
	if list.op == "append" {
		r := bFalse
		for _, a := range list.args {
			t, ok := e.containsTerm(a, x)
			if !ok {
				t = e.w.atomBool("slicecontains", "", a, x)
			}
			r = e.w.b.Or(r, e.w.asBool(t))
		}
		return e.w.bool(r), true
	}
	return nil, false
}

// iterModel models ContainsFunc/IndexFunc/Index as a search loop over the collection.
func (e *Exec) iterModel(in ssa.Instruction, name string, f *ssa.Function, args []*Term, st *State) (*Term, bool) {
	w := e.w
	list := args[0]
	elemT := types.Type(nil)
	if sl, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Slice); ok {
		elemT = sl.Elem()
	}
	pred := func(s *State, x *Term) (int, bool) {
		if name == "slices.Index" {
			return w.asBool(w.eq(x, args[1])), true
		}
		v, ok := e.callValue(in, args[1], []*Term{x}, s, f.Signature.Params().At(1).Type().Underlying().(*types.Signature))
		if !ok {
			return bFalse, false
		}
		return w.asBool(v), true
	}
	finish := func(found int, idx *Term) (*Term, bool) {
		if name == "slices.ContainsFunc" {
			return w.bool(found), true
		}
		return w.ite([]int{found, w.b.Not(found)}, []*Term{idx, w.int(-1)}), true
	}
	if list.op == "nil" {
		return finish(bFalse, w.int(0))
	}
	if list.op == "slicelit" && len(list.args) <= 32 {
		// unrolled
		found := bFalse
		var cs []int
		var as []*Term
		base := st.cond
		var sts []*State
		cur := st.clone()
		for i, x := range list.args {
			c, ok := pred(cur, x)
			if !ok {
				return nil, false
			}
			c = w.b.And(c, w.b.Not(found))
			hit := cur.clone()
			hit.cond = w.b.And(cur.cond, c)
			if hit.cond != bFalse {
				sts = append(sts, hit)
			}
			cs = append(cs, c)
			as = append(as, w.int(int64(i)))
			found = w.b.Or(found, c)
			cur.cond = w.b.And(base, w.b.Not(found))
			if cur.cond == bFalse {
				break
			}
		}
		if cur.cond != bFalse {
			sts = append(sts, cur)
		}
		n, _ := e.mergeStates(sts)
		*st = *n
		if name == "slices.ContainsFunc" {
			return w.bool(found), true
		}
		cs = append(cs, w.b.Not(found))
		as = append(as, w.int(-1))
		return w.ite(cs, as), true
	}
	// abstract search loop
	e.loopID++
	inst := &LoopInst{tid: len(e.w.list), id: e.loopID, act: e.act, outer: append([]*LoopInst(nil), e.loops...), entry: st.cond, external: name, coll: list, seq0: e.seq,
		vars: map[*ssa.Phi]*Term{}, init: map[*ssa.Phi]*Term{}, next: map[*ssa.Phi]*Term{}, memInit: map[string]*Term{}, memNext: map[string]*Term{}}
	e.allLoop = append(e.allLoop, inst)
	idx := w.mk("loopvar", fmt.Sprintf("%d:i", inst.id))
	idx.obj = inst
	idx.typ = types.Typ[types.Int]
	body := st.clone()
	if fn, ok := args[1].obj.(*ssa.Function); ok && name != "slices.Index" {
		for c := range e.P.eff(fn) {
			m := w.mk("mloop", fmt.Sprintf("%d:%s", inst.id, c))
			m.obj = inst
			inst.memInit[c] = e.mem(body, c)
			body.mem[c] = m
		}
	}
	in1 := w.asBool(w.lt(idx, w.length(list), true))
	done := body.clone()
	body.cond = w.b.And(body.cond, in1)
	done.cond = w.b.And(done.cond, w.b.Not(in1))
	e.loops = append(e.loops, inst)
	x := e.loadElem(body, list, idx, elemT)
	c, ok := pred(body, x)
	e.loops = e.loops[:len(e.loops)-1]
	inst.seq1 = e.seq
	if !ok {
		*st = *done
		return finish(bFalse, w.int(0))
	}
	hit := body.clone()
	hit.cond = w.b.And(body.cond, c)
	inst.back = w.b.And(body.cond, w.b.Not(c))
	inst.exits = []loopExit{{cond: hit.cond}, {cond: done.cond}}
	inst.exitAny = w.b.Or(hit.cond, done.cond)
	n, rel := e.mergeStates([]*State{hit, done})
	*st = *n
	if name == "slices.ContainsFunc" {
		return w.bool(rel[0]), true
	}
	return w.ite(rel, []*Term{idx, w.int(-1)}), true
}

func (e *Exec) sortModel(in ssa.Instruction, name string, f *ssa.Function, args []*Term, st *State, c *ssa.CallCommon) (*Term, bool) {
	w := e.w
	var elemT types.Type
	list := args[0]
	if list.op == "iface" {
		list = list.args[0]
	}
	if c != nil {
		t := c.Args[0].Type()
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if sl, ok := t.Underlying().(*types.Slice); ok {
			elemT = sl.Elem()
		}
	}
	ev := e.emit(&Event{kind: "sort", name: name, args: []*Term{list}, instr: in}, st)
	if len(args) > 1 && (args[1].op == "clo" || args[1].op == "fn") {
		fn := args[1].obj.(*ssa.Function)
		var as []*Term
		if strings.HasPrefix(name, "slices.") {
			a, b := w.mk("sortarg", "a"), w.mk("sortarg", "b")
			a.typ, b.typ = elemT, elemT
			as = []*Term{a, b}
		} else {
			a, b := w.mk("sortarg", "i"), w.mk("sortarg", "j")
			as = []*Term{a, b}
		}
		s := st.clone()
		if v, out := e.run(fn, as, args[1].args, s, in); out != nil {
			ev.res = v
		}
	}
	if elemT != nil {
		e.havoc(st, "E:"+typeName(elemT), "sort")
	}
	return w.mk("void", ""), true
}

// package initialisation --------------------------------------------------------------

// initGlobals evaluates the package initialiser and records the values of the package
// variables that are never written afterwards.
func (e *Exec) initGlobals(pkg *ssa.Package) {
	initFn := pkg.Func("init")
	if initFn == nil {
		return
	}
	written := map[string]bool{}
	for _, f := range e.P.funcs {
		if f == initFn || pkgOf(f) == pkg && strings.HasPrefix(f.Name(), "init#") && false {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && f != initFn {
						written[g.String()] = true
					}
				}
			}
		}
	}
	st := &State{cond: bTrue, mem: map[string]*Term{}}
	nEv := len(e.events)
	_, out := e.run(initFn, nil, nil, st, nil)
	if out == nil {
		return
	}
	// map literals
	maps := map[*Term][]*Term{}
	for _, ev := range e.events[nEv:] {
		if ev.kind == "mapupd" && ev.act.fn == initFn {
			maps[ev.args[0]] = append(maps[ev.args[0]], ev.args[1], ev.args[2])
		}
	}
	for _, ev := range e.events[nEv:] {
		if ev.kind == "store" && ev.act.fn == initFn && ev.args[0].op == "gaddr" {
			g := ev.args[0].aux
			if written[g] {
				continue
			}
			v := ev.args[1]
			if kv, ok := maps[v]; ok {
				v = e.w.mk("maplit", g, kv...)
			} else if v.op == "makemap" {
				v = e.w.mk("maplit", g)
			}
			e.globals[g] = v
		}
	}
	// uninitialised package variables never written keep their zero value
	e.events = e.events[:nEv]
	e.seq = 0
}

// narrow drops the alternatives of values that the path condition excludes.
func (e *Exec) narrow(args []*Term, cond int) []*Term {
	out := args
	for i, a := range args {
		if a.op != "ite" {
			continue
		}
		var cs []int
		var ts []*Term
		for j, x := range a.args {
			if e.w.b.And(cond, a.bs[j]) != bFalse {
				cs = append(cs, a.bs[j])
				ts = append(ts, x)
			}
		}
		if len(ts) == len(a.args) || len(ts) == 0 {
			continue
		}
		if &out[0] == &args[0] {
			out = append([]*Term(nil), args...)
		}
		if len(ts) == 1 {
			out[i] = ts[0]
		} else {
			out[i] = e.w.ite(cs, ts)
		}
	}
	return out
}
