package main

import (
	"strings"
)

func init() { checks["C05"] = checkC05 }

// roots are the nodes from which t is reached by tree navigation.
func (e *Exec) roots(t *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch {
		case t.op == "ite":
			for _, a := range t.args {
				rec(a)
			}
		case t.op == "idx", t.op == "query", t.op == "byid", t.op == "append" && len(t.args) > 0, t.op == "slicelit" && len(t.args) > 0, t.op == "slice" && len(t.args) > 0:
			if t.op == "append" || t.op == "slicelit" {
				for _, a := range t.args {
					rec(a)
				}
			} else {
				rec(t.args[0])
			}
		case t.op == "fld" && strings.HasPrefix(t.aux, "F:Node."):
			rec(t.args[0])
		case t.op == "loopvar":
			inst, _ := t.obj.(*LoopInst)
			if inst == nil {
				out = append(out, t)
				return
			}
			p := inst.phiOf(t)
			if p == nil {
				if inst.coll != nil {
					rec(inst.coll)
					return
				}
				out = append(out, t)
				return
			}
			rec(inst.init[p])
			rec(inst.next[p])
		case t.op == "nil":
		default:
			out = append(out, t)
		}
	}
	rec(t)
	return out
}

// elimination is the removal (or renaming) of every element of a tag below some root.
type elimination struct {
	ev    *Event
	root  *Term
	inst  *LoopInst
	seq   int
	entry int
	why   string // why it does not cover every element; "" if it does
}

// eliminations finds the places that take away the elements with a tag.
func (c *Ctx) eliminations(r *run, tag string, exc func(elem *Term) Scen) []elimination {
	e, w, b := r.e, r.e.w, r.e.w.b
	var out []elimination
	for _, ev := range e.events {
		var elem *Term
		renamed := false
		switch {
		case ev.kind == "prim" && ev.name == "RemoveChild":
			elem = ev.args[1]
		case ev.kind == "store" && ev.name == "F:Node.LocalName" && ev.args[0].op == "faddr" && ev.args[1].isStr() && ev.args[1].aux != tag:
			elem = ev.args[0].args[0]
			renamed = true
		default:
			continue
		}
		list, idx, ok := elemOf(elem)
		if !ok {
			continue
		}
		for _, part := range listParts(list) {
			if part.op != "query" || !part.args[1].isStr() || part.args[1].aux != tag && part.args[1].aux != "*" {
				continue
			}
			el := elimination{ev: ev, root: part.args[0], seq: ev.seq}
			inst, inRange, why := e.coverage(list, idx)
			el.inst, el.why = inst, why
			if inst == nil || len(ev.loops) == 0 {
				continue
			}
			el.entry = inst.entry
			el.seq = inst.seq0
			if why == "early-exit" {
				el.why = "the loop can end before the last element"
			}
			if el.why == "" {
				if !renamed {
					// removed from its own parent
					p := ev.args[0]
					if !(isFld(p, "F:Node.ParentNode") && same(p.args[0], elem)) {
						el.why = "it is removed from something other than its parent"
					}
				}
				up := strings.ToUpper(tag)
				base := func(a *Term) (bool, bool) {
					if a.op != "EQ" {
						return false, false
					}
					x, y := a.args[0], a.args[1]
					if isFld(x, "F:Node.ParentNode") && same(x.args[0], elem) && y.op == "nil" {
						return false, true
					}
					if same(x, elem) && y.op == "nil" {
						return false, true
					}
					if isFld(x, "F:Node.TagName") && same(x.args[0], elem) && y.isStr() {
						return y.aux == up, true
					}
					if isFld(x, "F:Node.LocalName") && same(x.args[0], elem) && y.isStr() {
						return y.aux == tag, true
					}
					if isFld(x, "F:Node.NodeType") && same(x.args[0], elem) && y.isInt() {
						return y.intVal() == 1, true
					}
					return false, false
				}
				var x Scen
				if exc != nil {
					x = exc(elem)
				}
				if ok, cex := e.entails(b.And(inst.entry, inRange), ev.cond, scens(base, x), ev.loops); !ok {
					el.why = "not when " + cex
				}
			}
			out = append(out, el)
		}
	}
	_ = w
	return out
}

// videoExc: the element has no attribute (for object: nor content) matching the
// allowed-video pattern.
func (c *Ctx) videoExc(e *Exec, tag string) func(elem *Term) Scen {
	vid := c.setting("AllowedVideoRegex")
	return func(elem *Term) Scen {
		return func(a *Term) (bool, bool) {
			if strings.HasPrefix(a.op, "call:(*regexp.Regexp).MatchString") && isFld(a.args[0], vid) {
				s := a.args[1]
				if s.op == "html" {
					if tag == "object" && same(s.args[0], elem) {
						return false, true
					}
					return false, false
				}
				if s.op == "text" {
					return false, false
				}
				if e.mentions(s, func(t *Term) bool { return isFld(t, "F:Node.Attributes") && same(t.args[0], elem) }) ||
					s.op == "attr" && same(s.args[0], elem) {
					return false, true
				}
			}
			return false, false
		}
	}
}

var embedTags = []string{"object", "embed", "iframe"}
var bannedTags = []string{"script", "noscript", "style", "link", "footer", "aside", "input", "textarea", "select", "button", "h1", "object", "embed", "iframe"}

func checkC05(c *Ctx) {
	c.rule("for each banned tag there is a removal (or renaming) of every element of a complete tag query over the document before the page is saved, or over the article in every attempt; its loop has no early exit and, for an element that still has a parent and no allowed-video match, its condition is implied by the loop being entered")
	c.rule("the removal is reached on every path that produces an article")
	c.rule("no element with a banned name is created or renamed to, and nothing from outside the article is put into it after the removal")
	a := c.attempts()
	r := a.r
	e, w := r.e, r.e.w
	if len(a.article) == 0 || a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	L := a.loop
	isDoc := func(t *Term) bool {
		return strings.HasPrefix(t.op, "fld") && (strings.HasSuffix(t.aux, ".doc") || strings.HasSuffix(t.aux, ".Body") || strings.HasSuffix(t.aux, ".DocumentElement")) && !e.mentions(t, func(x *Term) bool { return x.op == "newnode" })
	}
	// when the page is saved
	var saved []*Event
	for _, rs := range e.prims("SetInnerHTML") {
		if inLoop(rs, L) && rs.args[1].op == "html" {
			for _, h := range e.prims("GetInnerHTML") {
				if h.res == rs.args[1] && !inLoop(h, L) {
					saved = append(saved, h)
				}
			}
		}
	}
	var lastClean int
	for _, tag := range bannedTags {
		var exc func(*Term) Scen
		for _, t := range embedTags {
			if t == tag {
				exc = c.videoExc(e, tag)
			}
		}
		c.count("banned tags", 1)
		found := false
		var whys []string
		for _, el := range c.eliminations(r, tag, exc) {
			c.count("removal loops over a banned tag", 1)
			pos := c.P.instrPos(el.ev.instr)
			if el.why != "" {
				whys = append(whys, pos+": "+el.why)
				continue
			}
			switch {
			case isDoc(el.root) && !inLoop(el.ev, L):
				late := el.ev.seq > L.seq0
				for _, s := range saved {
					if el.seq > s.seq {
						late = true
					}
				}
				if late {
					whys = append(whys, pos+": it happens after the page was saved for retries")
					continue
				}
				if ok, cex := e.entails(L.entry, el.entry, nil, nil); !ok {
					whys = append(whys, pos+": not reached when "+cex)
					continue
				}
				found = true
				for _, ev := range e.prims("SetInnerHTML") {
					if ev.seq < el.seq || ev.args[1].op == "html" || ev.args[1].isStr() && !strings.Contains(strings.ToLower(ev.args[1].aux), "<"+tag) {
						continue
					}
					c.bad("added later", c.P.instrPos(ev.instr), "markup set after cleaning "+tag, "after the %s elements are removed, markup that is not from the page is parsed", tag)
				}
			case inLoop(el.ev, L) && a.isArticle(el.root):
				if ok, cex := e.entails(a.make[0].cond, el.entry, nil, []*LoopInst{L}); !ok {
					whys = append(whys, pos+": not reached in an attempt when "+cex)
					continue
				}
				found = true
				if el.ev.seq > lastClean {
					lastClean = el.ev.seq
				}
				c05added(c, a, tag, el)
			default:
				// over the finished article
				if el.ev.seq > L.seq1 {
					all := true
					for _, s := range a.serial {
						if ok, _ := e.entails(s.cond, el.entry, nil, nil); !ok || s.seq < el.seq || !same(s.args[1], el.root) {
							all = false
						}
					}
					if all {
						found = true
						continue
					}
				}
				whys = append(whys, pos+": the elements are looked up below "+w.showd(el.root, 3)+" only")
			}
		}
		if found {
			c.samplef("%s: every element removed", tag)
			continue
		}
		if len(whys) == 0 {
			whys = append(whys, "no place removes these elements from the document or the article")
		}
		c.bad("removal", "article", tag, "%s elements are not all removed: %s", tag, strings.Join(whys, "; "))
	}
	// names given to elements
	ban := map[string]bool{}
	for _, t := range bannedTags {
		ban[t] = true
	}
	for _, ev := range e.events {
		var name *Term
		switch {
		case ev.kind == "prim" && ev.name == "createElementNode":
			name = ev.args[1]
		case ev.kind == "store" && ev.name == "F:Node.LocalName":
			name = ev.args[1]
		default:
			continue
		}
		c.count("element names given", 1)
		for _, x := range e.altsUnder(name, ev.cond, ev.loops...) {
			t := x.t
			for t.op == "call:strings.ToLower" || t.op == "call:strings.ToUpper" {
				t = t.args[0]
			}
			for _, y := range e.altsUnder(t, x.g, ev.loops...) {
				if y.t.isStr() && ban[strings.ToLower(y.t.aux)] {
					c.bad("names", c.P.instrPos(ev.instr), y.t.aux, "an element gets the banned name %q", y.t.aux)
				}
			}
		}
	}
}

// c05added: nothing from outside the article is put into the tree after the removal.
func c05added(c *Ctx, a *attemptCtx, tag string, el elimination) {
	e, w := a.r.e, a.r.e.w
	L := a.loop
	inside := func(t *Term) bool {
		for _, x := range e.roots(t) {
			if x.op == "newnode" || x.op == "new" {
				continue
			}
			known := false
			for _, f := range a.final {
				if same(x, f) {
					known = true
				}
			}
			if isFld(x, "") {
				known = true
			}
			if x.op == "fld" && !strings.HasPrefix(x.aux, "F:Readability") && !strings.HasPrefix(x.aux, "F:Node") {
				known = true // a recorded attempt
			}
			if !known {
				return false
			}
		}
		return true
	}
	for _, ev := range e.events {
		if ev.kind != "prim" || ev.seq < el.seq || !(inLoop(ev, L) || ev.seq > L.seq1) {
			continue
		}
		switch ev.name {
		case "AppendChild", "ReplaceChild":
			if inside(ev.args[0]) && !inside(ev.args[1]) {
				c.bad("added later", c.P.instrPos(ev.instr), "added after cleaning", "after the %s elements are removed, %s is put into the article", tag, w.showd(ev.args[1], 4))
			}
		case "SetInnerHTML":
			if ev.args[1].op == "html" && !inside(ev.args[0]) {
				continue // the page is restored
			}
			if ev.args[1].isStr() && !strings.Contains(strings.ToLower(ev.args[1].aux), "<"+tag) {
				continue
			}
			if !(ev.args[1].op == "html" && inside(ev.args[1].args[0])) {
				c.bad("added later", c.P.instrPos(ev.instr), "markup set after cleaning", "after the %s elements are removed, markup is parsed into the article", tag)
			}
		}
	}
}
