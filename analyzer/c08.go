package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08: a flow-insensitive, field-based may-alias analysis: which values may point into
// storage reachable from a package variable, and which instructions may write there.

type shared struct {
	P     *Program
	val   map[ssa.Value]map[*ssa.Global]bool
	cls   map[string]map[*ssa.Global]bool // memory class -> globals
	ret   map[*ssa.Function]map[*ssa.Global]bool
	dirty bool
	funcs []*ssa.Function
	// closure functions and address-taken functions by signature
}

func carriesRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return !readOnlyType(t)
	case *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return carriesRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if carriesRef(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// types of other packages that are safe for shared use
var readOnlyTypes = map[string]bool{
	"*regexp.Regexp": true, "*strings.Replacer": true, "*log/slog.Logger": true, "*time.Location": true, "*unicode.RangeTable": true,
}

func readOnlyType(t types.Type) bool { return readOnlyTypes[types.TypeString(t, nil)] }

func (s *shared) add(v ssa.Value, g map[*ssa.Global]bool) {
	if len(g) == 0 || !carriesRef(v.Type()) {
		return
	}
	m := s.val[v]
	if m == nil {
		m = map[*ssa.Global]bool{}
		s.val[v] = m
	}
	for x := range g {
		if !m[x] {
			m[x] = true
			s.dirty = true
		}
	}
}

func (s *shared) addCls(c string, g map[*ssa.Global]bool) {
	if len(g) == 0 {
		return
	}
	m := s.cls[c]
	if m == nil {
		m = map[*ssa.Global]bool{}
		s.cls[c] = m
	}
	for x := range g {
		if !m[x] {
			m[x] = true
			s.dirty = true
		}
	}
}

// of: the globals into whose storage v may point.
func (s *shared) of(v ssa.Value) map[*ssa.Global]bool {
	if g, ok := v.(*ssa.Global); ok {
		if s.P.lib == g.Pkg {
			return map[*ssa.Global]bool{g: true}
		}
		return nil
	}
	return s.val[v]
}

func (s *shared) load(addr ssa.Value) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for g := range s.of(addr) {
		out[g] = true
	}
	for g := range s.cls[s.P.classOfAddr(addr)] {
		out[g] = true
	}
	return out
}

func (s *shared) callees(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, g := range s.P.addrTaken {
		if types.Identical(sigNoRecv(g), c.Signature()) || types.Identical(g.Signature, c.Signature()) {
			out = append(out, g)
		}
	}
	return out
}

func (s *shared) step(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.UnOp:
				if in.Op.String() == "*" {
					s.add(in, s.load(in.X))
				}
			case *ssa.Phi:
				for _, e := range in.Edges {
					s.add(in, s.of(e))
				}
			case *ssa.FieldAddr:
				s.add(in, s.of(in.X))
			case *ssa.IndexAddr:
				s.add(in, s.of(in.X))
			case *ssa.Field:
				s.add(in, s.of(in.X))
			case *ssa.Index:
				s.add(in, s.of(in.X))
			case *ssa.Slice:
				s.add(in, s.of(in.X))
			case *ssa.Lookup:
				s.add(in, s.of(in.X))
				s.add(in, s.cls["M:"+typeName(in.X.Type())])
			case *ssa.Extract:
				s.add(in, s.of(in.Tuple))
			case *ssa.ChangeType:
				s.add(in, s.of(in.X))
			case *ssa.ChangeInterface:
				s.add(in, s.of(in.X))
			case *ssa.MakeInterface:
				s.add(in, s.of(in.X))
			case *ssa.TypeAssert:
				s.add(in, s.of(in.X))
			case *ssa.Convert:
				s.add(in, s.of(in.X))
			case *ssa.Range:
				if g := s.of(in.X); len(g) > 0 {
					if s.val[in] == nil {
						s.val[in] = g
						s.dirty = true
					}
				}
			case *ssa.Next:
				if g := s.val[in.Iter]; len(g) > 0 {
					s.add(in, g)
				}
			case *ssa.Store:
				if carriesRef(in.Val.Type()) {
					s.addCls(s.P.classOfAddr(in.Addr), s.of(in.Val))
					// storing a structure stores its fields
					if st, n := structOf(in.Val.Type()); st != nil {
						if _, isPtr := in.Val.Type().Underlying().(*types.Pointer); !isPtr {
							for i := 0; i < st.NumFields(); i++ {
								if carriesRef(st.Field(i).Type()) {
									s.addCls("F:"+n+"."+st.Field(i).Name(), s.of(in.Val))
								}
							}
						}
					}
				}
			case *ssa.MapUpdate:
				if carriesRef(in.Value.Type()) {
					s.addCls("M:"+typeName(in.Map.Type()), s.of(in.Value))
				}
			case *ssa.MakeClosure:
				fn := in.Fn.(*ssa.Function)
				for i, bnd := range in.Bindings {
					s.add(fn.FreeVars[i], s.of(bnd))
				}
			case *ssa.Return:
				for _, r := range in.Results {
					if carriesRef(r.Type()) {
						if s.ret[f] == nil {
							s.ret[f] = map[*ssa.Global]bool{}
						}
						for g := range s.of(r) {
							if !s.ret[f][g] {
								s.ret[f][g] = true
								s.dirty = true
							}
						}
					}
				}
			}
			if ci, ok := in.(ssa.CallInstruction); ok {
				s.callStep(ci)
			}
		}
	}
}

func (s *shared) callStep(in ssa.CallInstruction) {
	c := in.Common()
	v, _ := in.(ssa.Value)
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if bi.Name() == "append" && v != nil {
			s.add(v, s.of(c.Args[0]))
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && carriesRef(sl.Elem()) && len(c.Args) > 1 {
				s.add(v, s.of(c.Args[1]))
			}
		}
		return
	}
	for _, f := range s.callees(c) {
		if f.Blocks != nil && s.P.inModule(f) {
			for i, a := range c.Args {
				if i < len(f.Params) {
					s.add(f.Params[i], s.of(a))
				}
			}
			if v != nil {
				s.add(v, s.ret[f])
			}
			continue
		}
		if v == nil {
			continue
		}
		// library functions that hand an argument through
		n := extName(f)
		switch {
		case strings.HasPrefix(n, "slices.") && !strings.HasPrefix(n, "slices.Clone") && !strings.HasPrefix(n, "slices.Concat") && !strings.HasPrefix(n, "slices.Collect") && !strings.HasPrefix(n, "slices.Sorted"),
			strings.HasPrefix(n, "(reflect.Value)"), n == "reflect.ValueOf", n == "reflect.Indirect":
			for _, a := range c.Args {
				s.add(v, s.of(a))
			}
		}
	}
	// function values passed to library functions are called with elements of the others
	for _, a := range c.Args {
		var fn *ssa.Function
		switch x := a.(type) {
		case *ssa.Function:
			fn = x
		case *ssa.MakeClosure:
			fn = x.Fn.(*ssa.Function)
		}
		if fn == nil || fn.Blocks == nil {
			continue
		}
		if f := c.StaticCallee(); f != nil && s.P.inModule(f) {
			continue
		}
		for _, o := range c.Args {
			if o != a {
				for _, p := range fn.Params {
					s.add(p, s.of(o))
				}
			}
		}
	}
}

// exactCap: the package variable is initialised once from a literal, so its length
// equals its capacity and appending to it always copies.
func (s *shared) exactCap(g *ssa.Global) bool {
	ok := false
	for _, f := range s.P.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isSt := in.(*ssa.Store)
				if !isSt || st.Addr != g {
					continue
				}
				switch v := st.Val.(type) {
				case *ssa.Slice:
					if a, isA := v.X.(*ssa.Alloc); isA && v.Low == nil && v.High == nil && v.Max == nil {
						if _, isArr := derefT(a.Type()).Underlying().(*types.Array); isArr && a.Comment == "slicelit" {
							ok = true
							continue
						}
					}
					return false
				case *ssa.Const:
					ok = true
				default:
					return false
				}
			}
		}
	}
	// an element of a container or a structure: unknown
	if _, isSl := derefT(g.Type()).Underlying().(*types.Slice); !isSl {
		return false
	}
	return ok
}

func names(g map[*ssa.Global]bool) string {
	var l []string
	for x := range g {
		l = append(l, x.Name())
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// initOnly: the function only runs during package initialisation.
func (P *Program) initOnly(f *ssa.Function) bool {
	if f.Synthetic != "" && f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
		return true
	}
	return f.Parent() != nil && P.initOnly(f.Parent()) && P.cloSite[f] == nil
}

var mutators = map[string]bool{
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true, "slices.Delete": true, "slices.DeleteFunc": true,
	"slices.Insert": true, "slices.Replace": true, "slices.Compact": true, "slices.CompactFunc": true, "slices.Grow": false,
	"sort.Slice": true, "sort.SliceStable": true, "sort.Sort": true, "sort.Stable": true, "sort.Strings": true, "sort.Ints": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "encoding/json.Unmarshal": true, "(*regexp.Regexp).Longest": true,
	"slices.AppendSeq": true, "maps.Insert": true, "bytes.NewBuffer": true,
}

// methods of shared library objects that do not change them
func readsOnly(name string) bool {
	for _, p := range []string{"(*net/url.URL).", "(*golang.org/x/net/html.Node).", "(*strings.Reader).Len", "(*bytes.Buffer).String", "(*bytes.Buffer).Len", "(*strings.Builder).String", "(*strings.Builder).Len",
		"(*sync.Mutex).", "(*sync.RWMutex).", "(*sync.WaitGroup).", "(*sync.Map).Load", "(*sync.Map).Range"} {
		if strings.HasPrefix(name, p) && !strings.Contains(name, "Child") && !strings.Contains(name, "Insert") && !strings.Contains(name, "Unmarshal") {
			return true
		}
	}
	return false
}

var nondet = map[string]bool{
	"time.Now": true, "time.Since": true, "time.Until": true, "time.After": true, "time.Tick": true, "time.NewTimer": true, "time.NewTicker": true, "time.AfterFunc": true, "time.Sleep": true,
	"os.Getenv": true, "os.LookupEnv": true, "os.Environ": true, "os.Getpid": true, "os.Hostname": true, "os.Getwd": true, "os.Args": true,
	"runtime.NumGoroutine": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "runtime.ReadMemStats": true, "runtime.Caller": true, "runtime.Stack": true,
	"(reflect.Value).MapKeys": true, "(reflect.Value).MapRange": true, "(reflect.Value).Pointer": true, "(reflect.Value).UnsafePointer": true, "(reflect.Value).UnsafeAddr": true,
	"maps.Keys": true, "maps.Values": true, "maps.All": true, "(*sync.Map).Range": true, "(*sync.Pool).Get": true,
}

func nondetPkg(pkg string) bool {
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "sync/atomic", "unique", "weak":
		return true
	}
	return false
}

func init() { checks["C08"] = checkC08 }

func checkC08(c *Ctx) {
	P := c.P
	c.rule("no instruction outside package initialisation stores to a package variable of the library or into storage that a package variable may reach (field-based may-alias closure over loads, stores, calls, closures, returns)")
	c.rule("append to a slice that may be a package variable is allowed only if that variable is initialised from a literal (length = capacity, so append copies)")
	c.rule("no map iteration whose effects depend on the order, no time, randomness, environment, scheduler, pointer formatting, goroutine, channel or select in the library")
	s := &shared{P: P, val: map[ssa.Value]map[*ssa.Global]bool{}, cls: map[string]map[*ssa.Global]bool{}, ret: map[*ssa.Function]map[*ssa.Global]bool{}}
	for _, f := range P.funcs {
		if P.inLib(f) {
			s.funcs = append(s.funcs, f)
		}
	}
	for round := 0; ; round++ {
		s.dirty = false
		for _, f := range s.funcs {
			s.step(f)
		}
		if !s.dirty {
			break
		}
	}
	nGlob := 0
	for _, m := range P.lib.Members {
		if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
			nGlob++
		}
	}
	c.need("package variables of the library", nGlob, 1)
	sites := 0
	for _, f := range s.funcs {
		if P.initOnly(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				where := P.instrPos(in)
				fn := f.String()
				switch in := in.(type) {
				case *ssa.Store:
					sites++
					if g, ok := in.Addr.(*ssa.Global); ok {
						if g.Pkg == P.lib {
							c.bad("shared-write", where, "store to package variable "+g.Name(), "%s assigns the package variable %s, which every parser shares", fn, g.Name())
						} else {
							c.bad("shared-write", where, "store to "+g.String(), "%s assigns the variable %s of another package", fn, g.String())
						}
						continue
					}
					if g := s.of(in.Addr); len(g) > 0 {
						c.bad("shared-write", where, "store through "+names(g), "%s may write into storage reachable from the package variable %s", fn, names(g))
					}
				case *ssa.MapUpdate:
					sites++
					if g := s.of(in.Map); len(g) > 0 {
						c.bad("shared-write", where, "map update of "+names(g), "%s may update a map reachable from the package variable %s", fn, names(g))
					}
				case *ssa.Go:
					c.bad("nondeterminism", where, "go statement", "%s starts a goroutine", fn)
				case *ssa.Select:
					c.bad("nondeterminism", where, "select", "%s selects between channel operations", fn)
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok {
						sites++
						if why := orderSensitive(P, f, in); why != "" {
							c.bad("map-order", where, "map iteration", "%s iterates over a map and %s", fn, why)
						}
					}
				case *ssa.Convert:
					if bt, ok := in.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uintptr || bt.Kind() == types.UnsafePointer) {
						c.bad("nondeterminism", where, "unsafe conversion", "%s converts a pointer to a number", fn)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					sites++
					c08call(c, s, f, ci)
				}
			}
		}
	}
	c.count("write and call sites examined", sites)
	c.count("values that may alias package-level storage", len(s.val))
	var cl []string
	for k, g := range s.cls {
		if strings.HasPrefix(k, "F:") {
			cl = append(cl, k+" <- "+names(g))
		}
	}
	sort.Strings(cl)
	for _, k := range cl {
		c.samplef("field that may hold shared storage: %s", k)
	}
	c.assume = append(c.assume, "regular expressions, string replacers and the default logger are safe for shared use", "functions supplied by the caller as options are themselves functions of their arguments")
}

func c08call(c *Ctx, s *shared, f *ssa.Function, ci ssa.CallInstruction) {
	P := s.P
	cc := ci.Common()
	where := P.instrPos(ci)
	fn := f.String()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			g := s.of(cc.Args[0])
			bad := map[*ssa.Global]bool{}
			for x := range g {
				if !s.exactCap(x) {
					bad[x] = true
				}
			}
			// a sub-slice of a shared slice has spare capacity
			if sl, ok := cc.Args[0].(*ssa.Slice); ok && len(g) > 0 && sl.High != nil {
				bad = g
			}
			if len(bad) > 0 {
				c.bad("shared-write", where, "append to "+names(bad), "%s appends to a slice that may share its storage with the package variable %s", fn, names(bad))
			}
		case "copy", "delete", "clear":
			if g := s.of(cc.Args[0]); len(g) > 0 {
				c.bad("shared-write", where, bi.Name()+" on "+names(g), "%s may change storage reachable from the package variable %s", fn, names(g))
			}
		}
		return
	}
	callee := cc.StaticCallee()
	if callee == nil || callee.Blocks != nil && P.inModule(callee) {
		return
	}
	n := extName(callee)
	pkg := ""
	if o := callee.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if nondet[n] || nondetPkg(pkg) {
		if n == "maps.Keys" || n == "maps.Values" || n == "maps.All" {
			// fine when sorted at once
			if v, ok := ci.(ssa.Value); ok && v.Referrers() != nil {
				sorted := len(*v.Referrers()) > 0
				for _, r := range *v.Referrers() {
					rc, ok := r.(ssa.CallInstruction)
					if !ok || rc.Common().StaticCallee() == nil || !strings.HasPrefix(extName(rc.Common().StaticCallee()), "slices.Sorted") {
						sorted = false
					}
				}
				if sorted {
					return
				}
			}
		}
		c.bad("nondeterminism", where, "call of "+n, "%s calls %s, whose result differs between runs", fn, n)
	}
	if strings.HasPrefix(n, "fmt.") {
		for _, a := range cc.Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.Contains(k.Value.String(), "%p") {
				c.bad("nondeterminism", where, "pointer formatting", "%s formats a pointer", fn)
			}
		}
	}
	mut := mutators[n]
	if callee.Signature.Recv() != nil && !mut {
		if _, ok := callee.Signature.Recv().Type().Underlying().(*types.Pointer); ok && !readOnlyType(callee.Signature.Recv().Type()) && !readsOnly(n) {
			mut = true
		}
		if n == "(*sync.Map).Store" || n == "(*sync.Map).LoadOrStore" {
			mut = true
		}
	}
	if mut && len(cc.Args) > 0 {
		arg := cc.Args[0]
		if n == "encoding/json.Unmarshal" {
			arg = cc.Args[1]
		}
		if n == "(*regexp.Regexp).Longest" {
			c.bad("shared-write", where, "call of "+n, "%s changes a regular expression that may be shared", fn)
			return
		}
		if g := s.of(arg); len(g) > 0 {
			c.bad("shared-write", where, "call of "+n+" on "+names(g), "%s calls %s, which changes storage reachable from the package variable %s", fn, n, names(g))
		}
	}
}

// orderSensitive: may the effects of a loop over a map depend on the iteration order?
func orderSensitive(P *Program, f *ssa.Function, r *ssa.Range) string {
	var l *loop
	for _, x := range P.loopsOf(f).all {
		for b := range x.blocks {
			for _, in := range b.Instrs {
				if nx, ok := in.(*ssa.Next); ok && nx.Iter == r {
					if l == nil || len(x.blocks) < len(l.blocks) {
						l = x
					}
				}
			}
		}
	}
	if l == nil {
		return "uses only its first entry"
	}
	// values that depend on the entry
	dep := map[ssa.Value]bool{}
	for changed := true; changed; {
		changed = false
		for b := range l.blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				if nx, ok := in.(*ssa.Next); ok && nx.Iter == r {
					dep[v] = true
					changed = true
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && dep[*op] {
						dep[v] = true
						changed = true
					}
				}
			}
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				return "assigns variables in the loop"
			case *ssa.Phi:
				if b == l.header {
					// accumulators must be commutative: integer sums or boolean flags
					bt, ok := in.Type().Underlying().(*types.Basic)
					if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
						return "accumulates a value in iteration order"
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "delete", "min", "max":
						continue
					}
					return "calls " + bi.Name() + " in the loop"
				}
				if f := cc.StaticCallee(); f != nil && !P.inModule(f) {
					if o := f.Object(); o != nil && o.Pkg() != nil && purePkgs[o.Pkg().Path()] {
						continue
					}
				}
				return "calls functions in the loop"
			case *ssa.Return:
				for _, x := range in.Results {
					if dep[x] {
						return "returns an entry"
					}
				}
			}
		}
	}
	// values of the loop used after an early exit
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !dep[v] || v.Referrers() == nil {
				continue
			}
			for _, u := range *v.Referrers() {
				if !l.blocks[u.Block()] {
					bt, ok := v.Type().Underlying().(*types.Basic)
					if !ok || bt.Info()&(types.IsInteger|types.IsBoolean) == 0 {
						return "uses one of its entries afterwards"
					}
				}
			}
		}
	}
	return ""
}
