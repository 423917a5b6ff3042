package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/giulianopz/go-readability"

// Program is the type-checked program under analysis and the static facts derived from it.
type Program struct {
	pkgs  []*packages.Package
	prog  *ssa.Program
	lib   *ssa.Package
	main  *ssa.Package
	funcs []*ssa.Function // every function of the module with a body (tests excluded)
	loops map[*ssa.Function]*loopInfo
	rpo   map[*ssa.Function][]*ssa.BasicBlock

	addrTaken []*ssa.Function
	effMemo   map[*ssa.Function]map[string]bool
	cloSite   map[*ssa.Function]*ssa.MakeClosure
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func loadProgram() (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule | packages.NeedImports, Dir: repoDir(), Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	}
	if len(msgs) > 0 {
		return nil, fmt.Errorf("the module does not type-check: %s", strings.Join(msgs, "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{pkgs: ps, prog: prog, loops: map[*ssa.Function]*loopInfo{}, rpo: map[*ssa.Function][]*ssa.BasicBlock{}, effMemo: map[*ssa.Function]map[string]bool{}, cloSite: map[*ssa.Function]*ssa.MakeClosure{}}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		switch sp.Pkg.Path() {
		case modPath:
			P.lib = sp
		default:
			if sp.Pkg.Name() == "main" {
				P.main = sp
			}
		}
	}
	if P.lib == nil {
		return nil, fmt.Errorf("package %s not found", modPath)
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && P.inModule(f) {
			P.funcs = append(P.funcs, f)
		}
	}
	sort.Slice(P.funcs, func(i, j int) bool {
		if P.funcs[i].Pos() != P.funcs[j].Pos() {
			return P.funcs[i].Pos() < P.funcs[j].Pos()
		}
		return P.funcs[i].String() < P.funcs[j].String()
	})
	taken := map[*ssa.Function]bool{}
	for _, f := range P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					P.cloSite[fn] = mc
					taken[fn] = true
				}
				var ops []*ssa.Value
				ops = in.Operands(ops)
				for i, op := range ops {
					if fn, ok := (*op).(*ssa.Function); ok {
						if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && !c.Common().IsInvoke() {
							continue
						}
						taken[fn] = true
					}
				}
			}
		}
	}
	for f := range taken {
		if f.Blocks != nil && P.inModule(f) {
			P.addrTaken = append(P.addrTaken, f)
		}
	}
	sort.Slice(P.addrTaken, func(i, j int) bool { return P.addrTaken[i].String() < P.addrTaken[j].String() })
	return P, nil
}

func pkgOf(f *ssa.Function) *ssa.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg
		}
		if g.Origin() != nil && g.Origin().Pkg != nil {
			return g.Origin().Pkg
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return f.Prog.Package(g.Object().Pkg())
		}
	}
	return nil
}

func (P *Program) inModule(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil {
		return false
	}
	return p == P.lib || strings.HasPrefix(p.Pkg.Path(), modPath+"/")
}

func (P *Program) inLib(f *ssa.Function) bool { p := pkgOf(f); return p != nil && p == P.lib }

func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := P.prog.Fset.Position(p)
	fn := strings.TrimPrefix(ps.Filename, repoDir()+"/")
	return fmt.Sprintf("%s:%d", fn, ps.Line)
}

// instrPos finds the best position for an instruction.
func (P *Program) instrPos(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return P.pos(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if _, isFn := (*op).(*ssa.Function); !isFn {
				return P.pos((*op).Pos())
			}
		}
	}
	if in.Parent() != nil {
		return P.pos(in.Parent().Pos())
	}
	return "-"
}

// method finds a method of a named type of the library package (pointer receiver included).
func (P *Program) method(typ, name string) *ssa.Function {
	obj := P.lib.Pkg.Scope().Lookup(typ)
	if obj == nil {
		return nil
	}
	t := obj.Type()
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := types.NewMethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return P.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

func (P *Program) fn(name string) *ssa.Function { return P.lib.Func(name) }

// loops -------------------------------------------------------------------------------

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	all      []*loop
}

func (P *Program) loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := P.loops[f]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.byHeader[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.byHeader[s] = l
					li.all = append(li.all, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	for _, l := range li.all {
		for _, m := range li.all {
			if m != l && m.blocks[l.header] && len(m.blocks) >= len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	P.loops[f] = li
	return li
}

func (P *Program) order(f *ssa.Function) []*ssa.BasicBlock {
	if o, ok := P.rpo[f]; ok {
		return o
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	P.rpo[f] = post
	return post
}

// memory classes ----------------------------------------------------------------------

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return ""
		}
		return p.Name()
	})
}

func structOf(t types.Type) (*types.Struct, string) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s, typeName(t)
}

func fieldClass(t types.Type, i int) string {
	s, n := structOf(t)
	return "F:" + n + "." + s.Field(i).Name()
}

func allocClass(a *ssa.Alloc) string {
	return fmt.Sprintf("A:%s:%s:%d", a.Parent().String(), a.Comment, a.Pos())
}

// classOfAddr is the static memory class an address value belongs to.
func (P *Program) classOfAddr(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		return fieldClass(v.X.Type(), v.Field)
	case *ssa.IndexAddr:
		return "E:" + typeName(v.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.Global:
		return "G:" + v.String()
	case *ssa.Alloc:
		return allocClass(v)
	case *ssa.FreeVar:
		if mc := P.cloSite[v.Parent()]; mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					return P.classOfAddr(mc.Bindings[i])
				}
			}
		}
	}
	return "P:" + typeName(v.Type().Underlying().(*types.Pointer).Elem())
}

var domClasses = []string{"F:Node.NextSibling", "F:Node.PreviousSibling", "F:Node.NextElementSibling", "F:Node.PreviousElementSibling", "F:Node.ChildNodes", "F:Node.Children"}

const (
	clsParent  = "F:Node.ParentNode"
	clsAttr    = "ATTR"
	clsAttrFld = "F:Node.Attributes"
	clsText    = "TEXT"
)

// primitives: the DOM operations whose own contracts are decided separately (C03, C04, C21, C22).
var nodePrims = map[string]string{
	"AppendChild": "dom", "RemoveChild": "dom", "ReplaceChild": "dom", "SetInnerHTML": "dom", "SetTextContent": "dom",
	"SetAttribute": "attr", "RemoveAttribute": "attr",
	"GetAttribute": "", "HasAttribute": "", "GetTextContent": "", "GetInnerHTML": "", "GetElementById": "",
	"getElementsByTagName": "", "createElementNode": "", "getBaseURI": "base",
}

// primName tells whether f is a primitive.
func (P *Program) primName(f *ssa.Function) (string, bool) {
	r := f.Signature.Recv()
	if r == nil || !P.inLib(f) {
		return "", false
	}
	switch typeName(r.Type()) {
	case "*Node":
		_, ok := nodePrims[f.Name()]
		return f.Name(), ok
	case "*domParser":
		return "parse", f.Name() == "parse"
	}
	return "", false
}

func primEffects(name string) []string {
	switch name {
	case "AppendChild", "RemoveChild", "ReplaceChild", "SetInnerHTML", "SetTextContent":
		return append(append([]string(nil), domClasses...), clsParent, clsText)
	case "SetAttribute", "RemoveAttribute":
		return []string{clsAttr, clsAttrFld}
	case "getBaseURI":
		return []string{"F:Node.baseURI"}
	case "parse":
		return nil
	}
	return nil
}

// eff is the set of memory classes a call of f may write (flow-insensitive).
func (P *Program) eff(f *ssa.Function) map[string]bool {
	if m, ok := P.effMemo[f]; ok {
		return m
	}
	// fixpoint over the functions reachable from f
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function)
	visit = func(g *ssa.Function) {
		if seen[g] || g.Blocks == nil {
			return
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				P.instrEff(in, m, visit)
			}
		}
	}
	visit(f)
	P.effMemo[f] = m
	return m
}

func (P *Program) instrEff(in ssa.Instruction, m map[string]bool, visit func(*ssa.Function)) {
	switch in := in.(type) {
	case *ssa.Store:
		et := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		if s, n := structOf(et); s != nil {
			if _, isPtr := et.Underlying().(*types.Pointer); !isPtr {
				for i := 0; i < s.NumFields(); i++ {
					m["F:"+n+"."+s.Field(i).Name()] = true
				}
				return
			}
		}
		m[P.classOfAddr(in.Addr)] = true
	case *ssa.Alloc:
		// (re)initialisation of the fresh object
		et := in.Type().Underlying().(*types.Pointer).Elem()
		if s, ok := et.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				m["F:"+typeName(et)+"."+s.Field(i).Name()] = true
			}
		} else if a, ok := et.Underlying().(*types.Array); ok {
			m["E:"+typeName(a.Elem())] = true
		} else {
			m[allocClass(in)] = true
		}
	case *ssa.MapUpdate:
		m["M:"+typeName(in.Map.Type())] = true
	case *ssa.MakeClosure:
		visit(in.Fn.(*ssa.Function))
	case ssa.CallInstruction:
		c := in.Common()
		if c.IsInvoke() {
			return
		}
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			if v.Name() == "copy" || v.Name() == "append" {
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && v.Name() == "copy" {
					m["E:"+typeName(sl.Elem())] = true
				}
			}
			if v.Name() == "delete" {
				m["M:"+typeName(c.Args[0].Type())] = true
			}
			return
		case *ssa.Function:
			P.calleeEff(v, c, m, visit)
			return
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			visit(mc.Fn.(*ssa.Function))
			return
		}
		// dynamic call: any address-taken function of the module with this signature
		for _, g := range P.addrTaken {
			if types.Identical(sigNoRecv(g), c.Signature()) {
				visit(g)
			}
		}
	}
}

func sigNoRecv(f *ssa.Function) *types.Signature {
	s := f.Signature
	if s.Recv() != nil {
		return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
	}
	return s
}

func (P *Program) calleeEff(f *ssa.Function, c *ssa.CallCommon, m map[string]bool, visit func(*ssa.Function)) {
	if p, ok := P.primName(f); ok {
		for _, cl := range primEffects(p) {
			m[cl] = true
		}
		return
	}
	if P.inModule(f) {
		visit(f)
		return
	}
	name := extName(f)
	switch {
	case strings.HasPrefix(name, "slices.Sort"), strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices.Reverse"), strings.HasPrefix(name, "slices.Delete"), strings.HasPrefix(name, "slices.Insert"):
		if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			m["E:"+typeName(sl.Elem())] = true
		}
	case name == "encoding/json.Unmarshal":
		if mi, ok := c.Args[1].(*ssa.MakeInterface); ok {
			if _, ok := mi.X.Type().Underlying().(*types.Pointer); ok {
				m[P.classOfAddr(mi.X)] = true
			}
		}
	}
	for _, a := range c.Args {
		switch a := a.(type) {
		case *ssa.MakeClosure:
			visit(a.Fn.(*ssa.Function))
		case *ssa.Function:
			visit(a)
		default:
			if sg, ok := a.Type().Underlying().(*types.Signature); ok {
				for _, g := range P.addrTaken {
					if types.Identical(sigNoRecv(g), sg) {
						visit(g)
					}
				}
			}
		}
	}
}

func (P *Program) loopEff(f *ssa.Function, l *loop) map[string]bool {
	m := map[string]bool{}
	visit := func(g *ssa.Function) {
		for c := range P.eff(g) {
			m[c] = true
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			P.instrEff(in, m, visit)
		}
	}
	return m
}

// extName is the import-path qualified name of a function outside the module.
func extName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Signature.Recv() != nil {
		return "(" + types.TypeString(f.Signature.Recv().Type(), nil) + ")." + f.Name()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path() + "." + f.Name()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path() + "." + f.Name()
	}
	return f.String()
}

// fnPos is the position of a function.
func (P *Program) fnPos(f *ssa.Function) string { return P.pos(f.Pos()) }
