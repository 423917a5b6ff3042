package main

import (
	"go/types"
	"strings"
)

func init() { checks["C10"] = checkC10 }

// okReturn is a return statement of an entry point that yields a value.
type okReturn struct {
	rec  retRec
	obj  *Term
	cond int
}

func (c *Ctx) okReturns(r *run) []okReturn {
	var out []okReturn
	for _, rt := range r.act.rets {
		if rt.val.op != "tuple" || len(rt.val.args) != 2 {
			continue
		}
		for _, a := range r.e.altsUnder(rt.val.args[0], rt.st.cond) {
			if a.t.op != "nil" {
				out = append(out, okReturn{rt, a.t, a.g})
			}
		}
	}
	return out
}

func (c *Ctx) resultField(r *run, o okReturn, name string) *Term {
	obj := c.P.lib.Pkg.Scope().Lookup("Result")
	if obj == nil {
		return nil
	}
	st := obj.Type().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return r.e.loadField(o.rec.st, "F:Result."+name, o.obj, st.Field(i).Type())
		}
	}
	return nil
}

// xorContract: exactly one of value and error is nil on every return.
func (c *Ctx) xorContract(r *run, name string) {
	e, b := r.e, r.e.w.b
	n := 0
	for _, rt := range r.act.rets {
		if rt.val.op != "tuple" || len(rt.val.args) != 2 {
			continue
		}
		n++
		v, er := e.isNil(rt.val.args[0]), e.isNil(rt.val.args[1])
		goal := b.Ite(v, b.Not(er), er)
		if ok, cex := e.entails(rt.st.cond, goal, nil, nil); !ok {
			c.bad("contract", c.P.instrPos(rt.instr), name, "%s may return both a value and an error, or neither: value %s, error %s when %s", name, e.w.showd(rt.val.args[0], 3), e.w.showd(rt.val.args[1], 3), cex)
		}
	}
	c.need("return statements of "+name, n, 1)
	c.count("return statements checked", n)
}

func checkC10(c *Ctx) {
	c.rule("on every return of New and Parse exactly one of value and error is nil")
	c.rule("New returns no value for an empty source, a document that could not be parsed or one without body")
	c.rule("Result.HTMLContent is the value of the serializer called on the article; TextContent is the text of the same article read after the last change to it, or html2text of that HTML; Length is its rune count; an excerpt that would be empty is the trimmed text of the first p of the article")
	nr := c.buildRun()
	c.xorContract(nr, "New")
	pr := c.parseRun()
	c.xorContract(pr, "Parse")
	// New: rejected sources
	reject := func(what string, s Scen, must func(a *Term) bool) {
		seen := false
		for _, a := range nr.e.w.atoms {
			if must(a) {
				seen = true
			}
		}
		if !seen {
			c.bad("rejects", c.P.pos(nr.fn.Pos()), what, "New does not test for %s", what)
			return
		}
		for _, o := range c.okReturns(nr) {
			if nr.e.feasible(o.cond, s, nil) {
				c.bad("rejects", c.P.instrPos(o.rec.instr), what, "New returns a parser for %s", what)
			}
		}
		c.count("rejected kinds of source", 1)
	}
	src := nr.arg[0]
	isSrc := func(t *Term) bool {
		return t == src || t.op == "call:strings.TrimSpace" && t.args[0] == src
	}
	empty := func(a *Term) bool {
		return a.op == "EQ" && a.args[1].isStr() && a.args[1].aux == "" && isSrc(a.args[0])
	}
	reject("an empty source", func(a *Term) (bool, bool) { m := empty(a); return m, m }, empty)
	isDoc := func(t *Term) bool { return t.op == "newdoc" }
	nobody := func(a *Term) bool {
		return a.op == "EQ" && a.args[1].op == "nil" && isFld(a.args[0], "F:Node.Body") && isDoc(a.args[0].args[0])
	}
	reject("a source without body", func(a *Term) (bool, bool) { m := nobody(a); return m, m }, nobody)
	for _, o := range c.okReturns(nr) {
		_ = o
	}
	c10result(c, pr)
}

func c10result(c *Ctx, r *run) {
	e, w, b := r.e, r.e.w, r.e.w.b
	serCls, h2tCls := c.setting("Serializer"), c.setting("Html2Text")
	dynOf := map[*Term]*Event{}
	for _, ev := range e.byKind("dyn") {
		dynOf[ev.res] = ev
	}
	oks := c.okReturns(r)
	c.need("returns of Parse with a result", len(oks), 1)
	for _, o := range oks {
		where := c.P.instrPos(o.rec.instr)
		if o.obj.op != "new" {
			c.bad("result", where, "Result", "the result is not a fresh value: %s", w.showd(o.obj, 3))
			continue
		}
		html := c.resultField(r, o, "HTMLContent")
		text := c.resultField(r, o, "TextContent")
		length := c.resultField(r, o, "Length")
		excerpt := c.resultField(r, o, "Excerpt")
		if html == nil || text == nil || length == nil || excerpt == nil {
			c.bad("result", where, "Result", "a field of the result is gone")
			continue
		}
		var article *Term
		var htmlEv *Event
		for _, a := range e.altsUnder(html, o.cond) {
			ev := dynOf[a.t]
			if ev == nil || !isFld(ev.args[0], serCls) {
				c.bad("result", where, "HTMLContent", "the HTML of the result is not what the serializer returned: %s", w.showd(a.t, 4))
				continue
			}
			article, htmlEv = ev.args[1], ev
		}
		if article == nil {
			continue
		}
		c.samplef("HTMLContent = serializer(%s)", w.showd(e.simp(article, o.cond), 3))
		// the article is an element made for it
		for _, a := range e.altsUnder(article, o.cond) {
			if a.t.op == "nil" {
				c.bad("result", where, "article", "the serializer may be called without an article")
			}
		}
		sameNode := func(t *Term) bool {
			return t == article || same(e.simp(t, o.cond), e.simp(article, o.cond))
		}
		textEv := (*Event)(nil)
		for _, a := range e.altsUnder(text, o.cond) {
			switch {
			case a.t.op == "text" && sameNode(a.t.args[0]):
				// only without html2text
				for v := range b.Support(a.g) {
					at := w.atoms[v]
					if at.op == "EQ" && at.args[1].op == "nil" && isFld(at.args[0], h2tCls) && e.feasible(b.And(a.g, b.Not(b.Var(v))), nil, nil) {
						c.bad("result", where, "TextContent", "the text of the article is used although an HTML-to-text function is configured")
					}
				}
				if !e.condMentions(a.g, func(t *Term) bool { return isFld(t, h2tCls) }) {
					c.bad("result", where, "TextContent", "the configured HTML-to-text function is ignored")
				}
				for _, ev := range e.prims("GetTextContent") {
					if ev.res == a.t {
						textEv = ev
					}
				}
			case dynOf[a.t] != nil && isFld(dynOf[a.t].args[0], h2tCls):
				ev := dynOf[a.t]
				if len(ev.args) != 2 || !same(e.simp(ev.args[1], a.g), e.simp(html, a.g)) {
					c.bad("result", where, "TextContent", "the HTML-to-text function is called on something else than the HTML of the result")
				}
			default:
				c.bad("result", where, "TextContent", "the text of the result is neither the text of the article nor the output of the HTML-to-text function: %s", w.showd(a.t, 4))
			}
			for _, l := range e.altsUnder(length, a.g) {
				okL := l.t.op == "runelen" && same(e.simp(l.t.args[0], l.g), e.simp(a.t, l.g))
				if !okL {
					c.bad("result", where, "Length", "the length is %s, not the number of characters of the text", w.showd(l.t, 4))
				}
			}
		}
		// the article is not changed between or after reading it out
		last := htmlEv.seq
		if textEv != nil && textEv.seq < last {
			last = textEv.seq
		}
		for _, ev := range e.events {
			if ev.seq > last && isMutation(ev) && e.feasible(ev.cond, nil, ev.loops) {
				c.bad("order", c.P.instrPos(ev.instr), "change after output", "the document is changed after the text or HTML of the article was read")
			}
		}
		// excerpt
		para := false
		for _, a := range e.altsUnder(excerpt, o.cond) {
			if p := firstPara(a.t); p != nil {
				para = true
				if !sameNode(p.args[0]) {
					c.bad("excerpt", where, "Excerpt", "the excerpt is taken from the paragraphs of another element: %s", w.showd(p, 4))
				}
				if a.t.op != "call:strings.TrimSpace" {
					c.bad("excerpt", where, "Excerpt", "the excerpt taken from the first paragraph is not trimmed")
				}
				continue
			}
			noPara := func(at *Term) (bool, bool) {
				// the article has a paragraph
				if at.op == "EQ" && at.args[1].isInt() && at.args[1].intVal() == 0 && at.args[0].op == "len" && at.args[0].args[0].op == "query" && at.args[0].args[0].args[1] == w.str("p") {
					return false, true
				}
				return false, false
			}
			if e.feasible(b.And(a.g, w.asBool(w.eq(a.t, w.str("")))), noPara, nil) {
				c.bad("excerpt", where, "Excerpt", "the excerpt may stay empty although the article has a paragraph: %s", w.showd(a.t, 4))
			}
		}
		if !para {
			c.bad("excerpt", where, "Excerpt", "no excerpt is taken from the first paragraph")
		}
		for _, f := range []string{"Title", "Byline", "Dir", "SiteName", "Lang", "PublishedTime"} {
			if t := c.resultField(r, o, f); t == nil || t.isStr() {
				c.bad("result", where, f, "the field %s of the result is never filled", f)
			}
		}
	}
	c.count("results checked", len(oks))
}

// firstPara: t is (trimmed) text of the first element of a query for p; returns the query.
func firstPara(t *Term) *Term {
	if t.op == "call:strings.TrimSpace" {
		t = t.args[0]
	}
	if t.op != "text" {
		return nil
	}
	l, i, ok := elemOf(t.args[0])
	if !ok || !i.isInt() || i.intVal() != 0 || l.op != "query" || !l.args[1].isStr() || strings.ToLower(l.args[1].aux) != "p" {
		return nil
	}
	return l
}
