package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value (a node of the gated value graph built over the
// SSA form of the analysed program).
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	bs   []int // BDD guards: for "bool" the value itself, for "ite"/"mite" one per argument
	typ  types.Type
	obj  any // *ssa.Function for fn/clo, *LoopInst for loopvar/mloop, ...
}

// World holds the term and condition tables of one analysis run.
type World struct {
	b        *BDD
	terms    map[string]*Term
	list     []*Term
	atomVar  map[int]int // term id -> BDD variable
	atoms    []*Term     // BDD variable -> term
	fresh    int
	memDepth map[int]bool
	cmp      func(a, b *Term) // told of comparisons of strings
}

func newWorld() *World {
	return &World{b: newBDD(), terms: map[string]*Term{}, atomVar: map[int]int{}}
}

func (w *World) mk(op, aux string, args ...*Term) *Term { return w.mkb(op, aux, nil, args...) }

func (w *World) mkb(op, aux string, bs []int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('\x00')
	sb.WriteString(aux)
	for i, a := range args {
		sb.WriteByte('\x01')
		sb.WriteString(strconv.Itoa(a.id))
		if bs != nil {
			sb.WriteByte('?')
			sb.WriteString(strconv.Itoa(bs[i]))
		}
	}
	if len(args) == 0 && bs != nil {
		sb.WriteString(fmt.Sprint(bs))
	}
	k := sb.String()
	if t, ok := w.terms[k]; ok {
		return t
	}
	t := &Term{id: len(w.list), op: op, aux: aux, args: append([]*Term(nil), args...), bs: append([]int(nil), bs...)}
	if bs == nil {
		t.bs = nil
	}
	w.list = append(w.list, t)
	w.terms[k] = t
	return t
}

func (w *World) freshTerm(op, hint string, args ...*Term) *Term {
	w.fresh++
	return w.mk(op, fmt.Sprintf("%s#%d", hint, w.fresh), args...)
}

// constants ---------------------------------------------------------------------------

func (w *World) str(s string) *Term { return w.mk("str", s) }
func (w *World) int(i int64) *Term  { return w.mk("int", strconv.FormatInt(i, 10)) }
func (w *World) nilT() *Term        { return w.mk("nil", "") }
func (w *World) bool(b int) *Term   { return w.mkb("bool", "", []int{b}) }
func (w *World) tru() *Term         { return w.bool(bTrue) }
func (w *World) fls() *Term         { return w.bool(bFalse) }

func (t *Term) isStr() bool { return t.op == "str" }
func (t *Term) isInt() bool { return t.op == "int" }
func (t *Term) intVal() int64 {
	i, _ := strconv.ParseInt(t.aux, 10, 64)
	return i
}
func (t *Term) isConst() bool {
	switch t.op {
	case "str", "int", "nil", "float", "re":
		return true
	case "bool":
		return t.bs[0] < 2
	}
	return false
}

// atom returns the BDD of a boolean term.
func (w *World) asBool(t *Term) int {
	switch t.op {
	case "bool":
		return t.bs[0]
	case "ite":
		r := bFalse
		for i, a := range t.args {
			r = w.b.Or(r, w.b.And(t.bs[i], w.asBool(a)))
		}
		return r
	}
	v, ok := w.atomVar[t.id]
	if !ok {
		v = len(w.atoms)
		w.atoms = append(w.atoms, t)
		w.atomVar[t.id] = v
	}
	return w.b.Var(v)
}

func (w *World) atomBool(op, aux string, args ...*Term) *Term {
	return w.bool(w.asBool(w.mk(op, aux, args...)))
}

func isBoolT(t *Term) bool { return t.op == "bool" }

// ite builds a guarded choice; conds are relative to the current path condition.
func (w *World) ite(conds []int, alts []*Term) *Term {
	type ca struct {
		c int
		t *Term
	}
	var l []ca
	idx := map[*Term]int{}
	allBool := true
	add := func(c int, t *Term) {
		if c == bFalse {
			return
		}
		if !isBoolT(t) {
			allBool = false
		}
		if i, ok := idx[t]; ok {
			l[i].c = w.b.Or(l[i].c, c)
			return
		}
		idx[t] = len(l)
		l = append(l, ca{c, t})
	}
	for i, a := range alts {
		if a.op == "ite" {
			for j, aa := range a.args {
				add(w.b.And(conds[i], a.bs[j]), aa)
			}
		} else {
			add(conds[i], a)
		}
	}
	if len(l) == 0 {
		if len(alts) > 0 {
			return alts[0]
		}
		return w.mk("undef", "")
	}
	if len(l) == 1 {
		return l[0].t
	}
	if allBool {
		r, tot := bFalse, bFalse
		for _, x := range l {
			r = w.b.Or(r, w.b.And(x.c, x.t.bs[0]))
			tot = w.b.Or(tot, x.c)
		}
		return w.bool(w.b.Constrain(r, tot))
	}
	sort.Slice(l, func(i, j int) bool { return l[i].t.id < l[j].t.id })
	var cs []int
	var as []*Term
	for _, x := range l {
		cs = append(cs, x.c)
		as = append(as, x.t)
	}
	t := w.mkb("ite", "", cs, as...)
	return t
}

// alts enumerates the guarded alternatives of t.
func (t *Term) alts() ([]int, []*Term) {
	if t.op == "ite" {
		return t.bs, t.args
	}
	return []int{bTrue}, []*Term{t}
}

func nonNil(t *Term) bool {
	switch t.op {
	case "new", "newnode", "slicelit", "clo", "fn", "faddr", "iaddr", "gaddr", "iface", "re", "maplit", "makemap", "makeslice", "nonnil":
		return true
	case "append":
		for _, a := range t.args {
			if nonNil(a) && a.op != "makeslice" {
				return true
			}
		}
	}
	return false
}

func nonNeg(t *Term) bool {
	switch t.op {
	case "len", "runelen":
		return true
	case "band":
		for _, a := range t.args {
			if a.isInt() && a.intVal() >= 0 {
				return true
			}
		}
	case "int":
		return t.intVal() >= 0
	}
	return false
}

const maxDistribute = 64

func (w *World) eq(a, b *Term) *Term {
	if a == b {
		if w.cmp != nil && a.isStr() {
			w.cmp(a, b)
		}
		return w.tru()
	}
	if a.op == "ite" || b.op == "ite" {
		ca, aa := a.alts()
		cb, ab := b.alts()
		if len(aa)*len(ab) <= maxDistribute {
			r := bFalse
			for i := range aa {
				for j := range ab {
					c := w.b.And(ca[i], cb[j])
					if c != bFalse {
						r = w.b.Or(r, w.b.And(c, w.asBool(w.eq(aa[i], ab[j]))))
					}
				}
			}
			return w.bool(r)
		}
	}
	if isBoolT(a) || isBoolT(b) {
		x, y := w.asBool(a), w.asBool(b)
		return w.bool(w.b.Ite(x, y, w.b.Not(y)))
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	} else if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	if w.cmp != nil && (a.isStr() || b.isStr()) {
		w.cmp(a, b)
	}
	if a.isConst() && b.isConst() {
		return w.fls() // distinct hash-consed constants
	}
	if b.op == "nil" && a.op == "idx" && onlyQueries(a.args[0]) {
		return w.fls() // the lists the lookups return hold elements
	}
	if a.op == "strat" && b.isInt() && a.args[1].isInt() && a.args[1].intVal() == 0 && !a.args[0].isConst() && b.intVal() > 0 && b.intVal() < 128 {
		// the first byte of a string (the access itself has its own obligation)
		return w.atomBool("call:strings.HasPrefix", "", a.args[0], w.str(string(rune(b.intVal()))))
	}
	if b.op == "nil" {
		if nonNil(a) {
			return w.fls()
		}
	}
	if a.op == "new" && b.op == "new" || a.op == "newnode" && b.op == "newnode" ||
		a.op == "new" && b.op == "newnode" || a.op == "newnode" && b.op == "new" {
		return w.fls()
	}
	if (a.op == "new" || a.op == "newnode") && b.op == "param" || (b.op == "new" || b.op == "newnode") && a.op == "param" {
		return w.fls()
	}
	if b.isInt() {
		c := b.intVal()
		switch a.op {
		case "len", "runelen":
			if c < 0 {
				return w.fls()
			}
			if c == 0 {
				if w.isStringish(a.args[0]) || a.op == "runelen" {
					return w.eq(a.args[0], w.str(""))
				}
				if a.args[0].op == "append" {
					r := bTrue
					for _, x := range a.args[0].args {
						r = w.b.And(r, w.asBool(w.eq(w.length(x), w.int(0))))
					}
					return w.bool(r)
				}
			}
		case "call:strings.Index", "call:strings.LastIndex":
			if c == -1 {
				return w.not(w.contains(a.args[0], a.args[1]))
			}
		case "+":
			if a.args[1].isInt() {
				return w.eq(a.args[0], w.int(c-a.args[1].intVal()))
			}
		case "call:(reflect.Value).Kind":
			// reflect.String
			if c == 24 && a.args[0].op == "call:reflect.ValueOf" {
				return w.tassertOK(a.args[0].args[0], "string")
			}
		}
	}
	if b.isStr() {
		switch a.op {
		case "concat":
			for _, x := range a.args {
				if x.isStr() && b.aux == "" && x.aux != "" {
					return w.fls()
				}
			}
		case "call:strings.ToLower":
			if strings.ToLower(b.aux) != b.aux {
				return w.fls()
			}
		case "call:strings.ToUpper":
			if strings.ToUpper(b.aux) != b.aux {
				return w.fls()
			}
		}
	}
	return w.atomBool("EQ", "", a, b)
}

func (w *World) contains(s, sub *Term) *Term {
	if s.isStr() && sub.isStr() {
		if strings.Contains(s.aux, sub.aux) {
			return w.tru()
		}
		return w.fls()
	}
	return w.atomBool("call:strings.Contains", "", s, sub)
}

func (w *World) tassertOK(x *Term, typ string) *Term {
	if x.op == "iface" {
		if x.aux == typ {
			return w.tru()
		}
		return w.fls()
	}
	if x.op == "nil" {
		return w.fls()
	}
	if x.op == "ite" && len(x.args) <= maxDistribute {
		r := bFalse
		for i, a := range x.args {
			r = w.b.Or(r, w.b.And(x.bs[i], w.asBool(w.tassertOK(a, typ))))
		}
		return w.bool(r)
	}
	return w.atomBool("TASSERTOK", typ, x)
}

func (w *World) not(t *Term) *Term { return w.bool(w.b.Not(w.asBool(t))) }

func (w *World) isStringish(t *Term) bool {
	switch t.op {
	case "str", "concat":
		return true
	}
	if t.typ != nil {
		if b, ok := t.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsString != 0
		}
	}
	return false
}

// lt is a < b over integers (isInt) or other ordered values.
func (w *World) lt(a, b *Term, integer bool) *Term {
	if a == b {
		return w.fls()
	}
	if a.op == "ite" || b.op == "ite" {
		ca, aa := a.alts()
		cb, ab := b.alts()
		if len(aa)*len(ab) <= maxDistribute {
			r := bFalse
			for i := range aa {
				for j := range ab {
					c := w.b.And(ca[i], cb[j])
					if c != bFalse {
						r = w.b.Or(r, w.b.And(c, w.asBool(w.lt(aa[i], ab[j], integer))))
					}
				}
			}
			return w.bool(r)
		}
	}
	if integer {
		if a.isInt() && b.isInt() {
			if a.intVal() < b.intVal() {
				return w.tru()
			}
			return w.fls()
		}
		// x+k < c  =>  x < c-k ; c < x+k => c-k < x
		if a.op == "+" && a.args[1].isInt() && b.isInt() {
			return w.lt(a.args[0], w.int(b.intVal()-a.args[1].intVal()), true)
		}
		if b.op == "+" && b.args[1].isInt() && a.isInt() {
			return w.lt(w.int(a.intVal()-b.args[1].intVal()), b.args[0], true)
		}
		if a.isInt() {
			// c < x  ==  !(x < c+1)
			return w.not(w.lt(b, w.int(a.intVal()+1), true))
		}
		if b.isInt() {
			c := b.intVal()
			if nonNeg(a) {
				if c <= 0 {
					return w.fls()
				}
				if c == 1 {
					return w.eq(a, w.int(0))
				}
			}
			if (a.op == "call:strings.Index" || a.op == "call:strings.LastIndex") && c == 0 {
				return w.not(w.contains(a.args[0], a.args[1]))
			}
		}
	} else if a.op == "float" && b.op == "float" {
		x, _ := strconv.ParseFloat(a.aux, 64)
		y, _ := strconv.ParseFloat(b.aux, 64)
		if x < y {
			return w.tru()
		}
		return w.fls()
	}
	return w.atomBool("LT", "", a, b)
}

func (w *World) add(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return w.int(a.intVal() + b.intVal())
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.intVal() == 0 {
			return a
		}
		if a.op == "+" && a.args[1].isInt() {
			return w.add(a.args[0], w.int(a.args[1].intVal()+b.intVal()))
		}
		t := w.mk("+", "", a, b)
		t.typ = types.Typ[types.Int]
		return t
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := w.mk("+", "", a, b)
	t.typ = types.Typ[types.Int]
	return t
}

func (w *World) concat(a, b *Term) *Term {
	var parts []*Term
	push := func(x *Term) {
		if x.op == "concat" {
			parts = append(parts, x.args...)
		} else {
			parts = append(parts, x)
		}
	}
	push(a)
	push(b)
	var out []*Term
	for _, p := range parts {
		if p.isStr() && p.aux == "" {
			continue
		}
		if len(out) > 0 && p.isStr() && out[len(out)-1].isStr() {
			out[len(out)-1] = w.str(out[len(out)-1].aux + p.aux)
			continue
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return w.str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return w.mk("concat", "", out...)
}

func (w *World) length(x *Term) *Term {
	switch x.op {
	case "str":
		return w.int(int64(len(x.aux)))
	case "slicelit":
		return w.int(int64(len(x.args)))
	case "nil":
		return w.int(0)
	case "maplit":
		return w.int(int64(len(x.args) / 2))
	case "runes":
		t := w.mk("runelen", "", x.args[0])
		return t
	case "bytes":
		return w.length(x.args[0])
	case "ite":
		if len(x.args) <= maxDistribute {
			var as []*Term
			for _, a := range x.args {
				as = append(as, w.length(a))
			}
			return w.ite(x.bs, as)
		}
	case "append":
		n := int64(0)
		var sum *Term
		for _, a := range x.args {
			l := w.length(a)
			if l.isInt() {
				n += l.intVal()
			} else if sum == nil {
				sum = l
			} else {
				sum = w.add(sum, l)
			}
		}
		if sum == nil {
			return w.int(n)
		}
		if n == 0 {
			return sum
		}
		return w.add(sum, w.int(n))
	}
	return w.mk("len", "", x)
}

// printing ----------------------------------------------------------------------------

func (w *World) show(t *Term) string { return w.showd(t, 6) }

func (w *World) showd(t *Term, d int) string {
	if t == nil {
		return "<nil>"
	}
	if d <= 0 {
		return "…"
	}
	switch t.op {
	case "str":
		return strconv.Quote(t.aux)
	case "int", "float":
		return t.aux
	case "nil":
		return "nil"
	case "bool":
		return "{" + w.showBDD(t.bs[0], d-1) + "}"
	case "ite":
		var s []string
		for i, a := range t.args {
			s = append(s, w.showBDD(t.bs[i], d-2)+" -> "+w.showd(a, d-1))
		}
		return "ite[" + strings.Join(s, "; ") + "]"
	case "fld":
		return w.showd(t.args[0], d-1) + "." + t.aux[strings.LastIndex(t.aux, ".")+1:]
	case "idx":
		return w.showd(t.args[0], d-1) + "[" + w.showd(t.args[1], d-1) + "]"
	case "mem0", "mstore", "mhavoc", "mloop", "mite":
		return "M" + strconv.Itoa(t.id)
	case "re":
		return "/" + t.aux + "/"
	}
	var s []string
	for _, a := range t.args {
		if strings.HasPrefix(a.op, "m") && (a.op == "mem0" || a.op == "mstore" || a.op == "mhavoc" || a.op == "mloop" || a.op == "mite") {
			continue
		}
		s = append(s, w.showd(a, d-1))
	}
	n := strings.TrimPrefix(t.op, "call:")
	if t.aux != "" {
		n += "<" + t.aux + ">"
	}
	if len(t.args) == 0 {
		return n
	}
	return n + "(" + strings.Join(s, ", ") + ")"
}

func (w *World) showBDD(f, d int) string {
	if f == bTrue {
		return "T"
	}
	if f == bFalse {
		return "F"
	}
	if d <= 0 {
		return "…"
	}
	var cubes []string
	var walk func(f int, acc []string)
	walk = func(f int, acc []string) {
		if f == bFalse || len(cubes) > 6 {
			return
		}
		if f == bTrue {
			cubes = append(cubes, strings.Join(acc, " & "))
			return
		}
		n := w.b.nodes[f]
		a := w.showd(w.atoms[n.v], d-1)
		walk(n.hi, append(append([]string(nil), acc...), a))
		walk(n.lo, append(append([]string(nil), acc...), "!"+a))
	}
	walk(f, nil)
	if len(cubes) > 6 {
		cubes = append(cubes[:6], "…")
	}
	return strings.Join(cubes, " | ")
}

// subterms calls f on t and everything below it (memory terms excluded) until f returns false.
func (w *World) subterms(t *Term, f func(*Term) bool) {
	seen := map[int]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x.id] {
			return
		}
		seen[x.id] = true
		if !f(x) {
			return
		}
		switch x.op {
		case "mem0", "mstore", "mhavoc", "mloop", "mite":
			return
		case "bool":
			for v := range w.b.Support(x.bs[0]) {
				rec(w.atoms[v])
			}
		case "ite":
			for _, c := range x.bs {
				for v := range w.b.Support(c) {
					rec(w.atoms[v])
				}
			}
		}
		for _, a := range x.args {
			rec(a)
		}
	}
	rec(t)
}

// onlyQueries: the list is made of the results of lookups.
func onlyQueries(l *Term) bool {
	for _, p := range listParts(l) {
		if p.op != "query" {
			return false
		}
	}
	return true
}
