package main

// A small reduced ordered BDD package. Branch conditions of the analysed code are
// boolean combinations of atoms (canonical terms); the BDD is the abstract domain in
// which the conditions of merged control-flow paths are kept exactly.

type bddNode struct{ v, lo, hi int }

type BDD struct {
	nodes  []bddNode
	unique map[bddNode]int
	ite    map[[3]int]int
	supp   map[int]map[int]bool
}

const (
	bFalse = 0
	bTrue  = 1
)

func newBDD() *BDD {
	b := &BDD{unique: map[bddNode]int{}, ite: map[[3]int]int{}, supp: map[int]map[int]bool{}}
	b.nodes = append(b.nodes, bddNode{1 << 30, 0, 0}, bddNode{1 << 30, 1, 1})
	return b
}

func (b *BDD) mk(v, lo, hi int) int {
	if lo == hi {
		return lo
	}
	n := bddNode{v, lo, hi}
	if id, ok := b.unique[n]; ok {
		return id
	}
	b.nodes = append(b.nodes, n)
	id := len(b.nodes) - 1
	b.unique[n] = id
	return id
}

func (b *BDD) Var(v int) int { return b.mk(v, bFalse, bTrue) }

func (b *BDD) Ite(f, g, h int) int {
	switch {
	case f == bTrue:
		return g
	case f == bFalse:
		return h
	case g == h:
		return g
	case g == bTrue && h == bFalse:
		return f
	}
	k := [3]int{f, g, h}
	if r, ok := b.ite[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if b.nodes[g].v < v {
		v = b.nodes[g].v
	}
	if b.nodes[h].v < v {
		v = b.nodes[h].v
	}
	co := func(x int, hi bool) int {
		if b.nodes[x].v != v {
			return x
		}
		if hi {
			return b.nodes[x].hi
		}
		return b.nodes[x].lo
	}
	lo := b.Ite(co(f, false), co(g, false), co(h, false))
	hi := b.Ite(co(f, true), co(g, true), co(h, true))
	r := b.mk(v, lo, hi)
	b.ite[k] = r
	return r
}

func (b *BDD) And(f, g int) int { return b.Ite(f, g, bFalse) }
func (b *BDD) Or(f, g int) int  { return b.Ite(f, bTrue, g) }
func (b *BDD) Not(f int) int    { return b.Ite(f, bFalse, bTrue) }

// Implies reports whether f => g is valid.
func (b *BDD) Implies(f, g int) bool { return b.And(f, b.Not(g)) == bFalse }

// Support returns the set of variables f depends on.
func (b *BDD) Support(f int) map[int]bool {
	if s, ok := b.supp[f]; ok {
		return s
	}
	s := map[int]bool{}
	seen := map[int]bool{}
	var walk func(int)
	walk = func(x int) {
		if x < 2 || seen[x] {
			return
		}
		seen[x] = true
		s[b.nodes[x].v] = true
		walk(b.nodes[x].lo)
		walk(b.nodes[x].hi)
	}
	walk(f)
	b.supp[f] = s
	return s
}

// Restrict fixes variable v to val in f.
func (b *BDD) Restrict(f, v int, val bool) int {
	memo := map[int]int{}
	var rec func(int) int
	rec = func(x int) int {
		if x < 2 || b.nodes[x].v > v {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		var r int
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = b.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

// Exists quantifies variable v existentially.
func (b *BDD) Exists(f, v int) int {
	return b.Or(b.Restrict(f, v, false), b.Restrict(f, v, true))
}

// Constrain is the generalized cofactor of f by c: equal to f wherever c holds.
func (b *BDD) Constrain(f, c int) int {
	memo := map[[2]int]int{}
	var rec func(f, c int) int
	rec = func(f, c int) int {
		if c == bTrue || f < 2 {
			return f
		}
		if c == bFalse {
			return f
		}
		if f == c {
			return bTrue
		}
		k := [2]int{f, c}
		if r, ok := memo[k]; ok {
			return r
		}
		v := b.nodes[f].v
		if b.nodes[c].v < v {
			v = b.nodes[c].v
		}
		co := func(x int, hi bool) int {
			if b.nodes[x].v != v {
				return x
			}
			if hi {
				return b.nodes[x].hi
			}
			return b.nodes[x].lo
		}
		c0, c1 := co(c, false), co(c, true)
		var r int
		if b.nodes[f].v != v {
			// the variable does not occur in f: do not introduce it
			r = rec(f, b.Or(c0, c1))
			memo[k] = r
			return r
		}
		if c0 == bFalse {
			r = rec(co(f, true), c1)
		} else if c1 == bFalse {
			r = rec(co(f, false), c0)
		} else {
			r = b.mk(v, rec(co(f, false), c0), rec(co(f, true), c1))
		}
		memo[k] = r
		return r
	}
	return rec(f, c)
}
