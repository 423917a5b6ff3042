package main

import (
	"go/types"
	"strings"
)

// attemptCtx describes the extraction attempts as found in the program: the loop of
// attempts, the element made for the article in each and the serialized article.
type attemptCtx struct {
	r       *run
	article []*Term   // elements created for the article (alternatives of what is serialized)
	make    []*Event  // their creation
	loop    *LoopInst // the loop of attempts
	final   []*Term   // all alternatives of the serialized article
	serial  []*Event  // serializer calls
}

// attempts locates them from the serializer call backwards.
func (c *Ctx) attempts() *attemptCtx {
	if c.att != nil {
		return c.att
	}
	r := c.parseRun()
	e := r.e
	a := &attemptCtx{r: r}
	c.att = a
	ser := c.setting("Serializer")
	for _, ev := range e.byKind("dyn") {
		if isFld(ev.args[0], ser) && len(ev.args) == 2 {
			a.serial = append(a.serial, ev)
			for _, x := range e.altsUnder(ev.args[1], ev.cond) {
				a.final = append(a.final, x.t)
				if x.t.op == "newnode" {
					a.article = append(a.article, x.t)
				}
			}
		}
	}
	for _, ev := range e.prims("createElementNode") {
		for _, x := range a.article {
			if ev.res == x {
				a.make = append(a.make, ev)
				if n := len(ev.loops); n > 0 && a.loop == nil {
					a.loop = ev.loops[n-1]
				}
			}
		}
	}
	return a
}

func (a *attemptCtx) isArticle(t *Term) bool {
	for _, x := range a.article {
		if t == x {
			return true
		}
	}
	return false
}

// flagsField is the integer field of the parser whose bits select the heuristics.
func (c *Ctx) flagsField() string {
	o := c.P.lib.Pkg.Scope().Lookup("Readability")
	if o == nil {
		return ""
	}
	s := o.Type().Underlying().(*types.Struct)
	e := c.parseRun().e
	for i := 0; i < s.NumFields(); i++ {
		if !isInteger(s.Field(i).Type()) {
			continue
		}
		cls := "F:Readability." + s.Field(i).Name()
		for _, a := range e.liveAtoms() {
			if e.mentions(a, func(t *Term) bool { return t.op == "band" && isFld(t.args[0], cls) }) {
				return cls
			}
		}
	}
	return ""
}

// flagScen: the heuristics bits have the value v (at the reads of memory version m, or
// at all reads if m is nil).
func flagScen(cls string, v int64, m *Term) Scen {
	return func(a *Term) (bool, bool) {
		val := func(t *Term) (int64, bool) {
			if t.isInt() {
				return t.intVal(), true
			}
			rd := func(x *Term) bool { return isFld(x, cls) && (m == nil || x.args[1] == m) }
			if rd(t) {
				return v, true
			}
			if t.op == "band" && rd(t.args[0]) && t.args[1].isInt() {
				return v & t.args[1].intVal(), true
			}
			return 0, false
		}
		if a.op != "EQ" && a.op != "LT" {
			return false, false
		}
		x, ok1 := val(a.args[0])
		y, ok2 := val(a.args[1])
		if !ok1 || !ok2 {
			return false, false
		}
		if a.op == "EQ" {
			return x == y, true
		}
		return x < y, true
	}
}

// orCond: the disjunction of the conditions of events.
func (e *Exec) orCond(evs []*Event) int {
	r := bFalse
	for _, ev := range evs {
		r = e.w.b.Or(r, ev.cond)
	}
	return r
}

// reMatch: a is a match of a constant regular expression; returns pattern and subject.
func reMatch(a *Term) (pat string, subj *Term, ok bool) {
	switch a.op {
	case "call:(*regexp.Regexp).MatchString", "call:(*regexp.Regexp).FindString", "call:(*regexp.Regexp).FindStringIndex", "call:(*regexp.Regexp).FindStringSubmatch", "call:(*regexp.Regexp).Match":
		if a.args[0].op == "re" {
			return a.args[0].aux, a.args[1], true
		}
	}
	return "", nil, false
}

func patHas(pat string, words ...string) bool {
	for _, w := range words {
		if !strings.Contains(strings.ToLower(pat), w) {
			return false
		}
	}
	return true
}

func isUnlikelyPat(p string) bool { return patHas(p, "banner", "sidebar", "breadcrumbs") }
func isMaybePat(p string) bool    { return patHas(p, "column", "shadow") && !patHas(p, "banner") }
func isPositivePat(p string) bool { return patHas(p, "article", "hentry", "story") }
func isNegativePat(p string) bool { return patHas(p, "masthead", "footnote", "widget") }
func isBylinePat(p string) bool   { return patHas(p, "byline", "author", "dateline") }

func nil2int() types.Type { return types.Typ[types.Int] }
