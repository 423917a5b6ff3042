package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C21"] = checkC21 }

const tokz = "(*golang.org/x/net/html.Tokenizer)."

func checkC21(c *Ctx) {
	c.rule("in a round of the token loop (gated-SSA abstraction of any round): a text token with any content adds exactly one new text node holding all of it to the node being read; a start or self-closing tag exactly one new element of the tag's name with every attribute of the token under its key and value; a start tag's children are read into that element, a self-closing tag's are not; a comment adds nothing")
	c.rule("an end tag ends the loop exactly if it has the name of the node being read; nothing but that and the end of the input ends it")
	c.rule("document root, head and body are set exactly at elements of that name, the title at a title element while there is none, to its trimmed text, after its children were read")
	c.rule("the tokenizer reads the whole source, with CDATA and without a limit, and only root-level children other than the html element are removed afterwards")
	c.rule("character references are decoded in a single pass over references found by a pattern, each replaced by what its own text stands for")
	fn := c.P.method("domParser", "readNode")
	if fn == nil || fn.Blocks == nil {
		// the function that reads tokens
		for _, f := range c.P.funcs {
			if !c.P.inLib(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && call.Common().StaticCallee().String() == tokz+"Next" {
						fn = f
					}
				}
			}
		}
	}
	if fn == nil {
		c.bad("anchor", "domparser.go", "tokens", "no function reads tokens")
		return
	}
	c21read(c, fn)
	c21parse(c)
	c21decode(c)
}

func c21read(c *Ctx, fn *ssa.Function) {
	r := c.exec(fn, false, nil)
	e, w, b := r.e, r.e.w, r.e.w.b
	undecided := func(f string, a ...any) { c.notes = append(c.notes, "undecided: "+fmt.Sprintf(f, a...)) }
	var n *Term
	for i, p := range fn.Params {
		if typeName(p.Type()) == "*Node" {
			n = r.arg[i]
		}
	}
	var next *Event
	for _, ev := range e.byKind("ext") {
		if ev.name == tokz+"Next" {
			if next != nil {
				undecided("tokens are read in several places")
				return
			}
			next = ev
		}
	}
	if next == nil || n == nil || len(next.loops) == 0 {
		undecided("tokens are not read in a loop over the children of a node")
		return
	}
	L := next.loops[len(next.loops)-1]
	in := append(append([]*LoopInst(nil), L.outer...), L)
	// what the tag is called
	isData := func(t *Term) bool {
		return t.op == "sfield" && strings.HasSuffix(t.aux, "html.Token.Data") && e.mentions(t, func(t *Term) bool { return e.isRes(t, tokz+"Token") })
	}
	isRaw := func(t *Term) bool { return e.isRes(t, tokz+"Raw") || e.isRes(t, tokz+"Text") || isData(t) }
	kind := func(k int64) Scen {
		ls := linScen(func(t *Term) (int64, bool) {
			if t == next.res {
				return k, true
			}
			return 0, false
		})
		return func(a *Term) (bool, bool) {
			if !e.mentions(a, func(t *Term) bool { return t == next.res }) {
				return false, false
			}
			return ls(a)
		}
	}
	// a token has a name, and a text token some text
	some := func(a *Term) (bool, bool) {
		if a.op == "EQ" && len(a.args) == 2 && a.args[1].isStr() && a.args[1].aux == "" {
			x := a.args[0]
			for x.op == "tostring" {
				x = x.args[0]
			}
			if isRaw(x) {
				return false, true
			}
		}
		if len(a.args) == 2 && a.args[0].op == "len" && a.args[1].isInt() {
			x := a.args[0].args[0]
			for x.op == "tostring" {
				x = x.args[0]
			}
			if isRaw(x) {
				if a.op == "EQ" && a.args[1].intVal() == 0 || a.op == "LT" && a.args[1].intVal() <= 1 {
					return false, true
				}
			}
		}
		if a.op == "LT" && a.args[0].isInt() && a.args[0].intVal() == 0 && a.args[1].op == "len" && isRaw(a.args[1].args[0]) {
			return true, true
		}
		return false, false
	}
	// the node is there, and void elements are open or not as the code likes
	notVoid := func(a *Term) (bool, bool) {
		if e.mentions(a, func(t *Term) bool { return strings.Contains(t.aux, "voidElems") }) {
			return false, true
		}
		return false, false
	}
	names := map[int64]string{0: "the end of the input", 1: "a text", 2: "a start tag", 3: "an end tag", 4: "a self-closing tag", 5: "a comment", 6: "a doctype"}
	apps := e.prims("AppendChild")
	in1 := func(ev *Event) bool { return inLoop(ev, L) }
	isNew := func(t *Term) bool { return t.op == "new" }
	// all alternatives a term has under a scenario
	alts := func(t *Term, cond int, s Scen) []*Term {
		var out []*Term
		for _, x := range e.altsUnder(t, e.assume(cond, s), in...) {
			if e.feasible(b.And(cond, x.g), s, in) {
				out = append(out, x.t)
			}
		}
		return out
	}
	for _, ev := range apps {
		if !in1(ev) {
			c.notes = append(c.notes, c.P.instrPos(ev.instr)+": a node is added outside of the token loop")
		}
	}
	for k := int64(0); k <= 6; k++ {
		s := scens(kind(k), some)
		c.count("token kinds", 1)
		var here []*Event
		for _, ev := range apps {
			if in1(ev) && e.feasible(ev.cond, s, ev.loops) {
				here = append(here, ev)
			}
		}
		// where it goes
		for _, ev := range here {
			for _, t := range alts(ev.args[0], ev.cond, s) {
				if t != n && (isNew(t) || t.op == "fld" && (t.aux == "F:domParser.doc" || strings.HasSuffix(t.aux, "ParentNode"))) {
					c.bad("place", c.P.instrPos(ev.instr), "place "+names[k], "what is made of %s is not added to the node being read but to %s", names[k], w.showd(t, 3))
				} else if t != n {
					undecided("%s: %s is added to %s", c.P.instrPos(ev.instr), names[k], w.showd(t, 3))
				}
			}
		}
		switch k {
		case 0, 3, 5:
			for _, ev := range here {
				c.bad("nothing", c.P.instrPos(ev.instr), "nothing for "+names[k], "%s adds a node to the tree", names[k])
			}
		case 1, 2, 4:
			cov := bFalse
			for i, ev := range here {
				cov = b.Or(cov, ev.cond)
				for _, o := range here[:i] {
					if e.feasible(b.And(ev.cond, o.cond), s, in) {
						c.bad("once", c.P.instrPos(ev.instr), "twice "+names[k], "%s can add two nodes to the tree (%s and %s)", names[k], c.P.instrPos(o.instr), c.P.instrPos(ev.instr))
					}
				}
				for _, l := range ev.loops {
					if l != L && inst(l, in) < 0 {
						undecided("%s: the node is added in a loop", c.P.instrPos(ev.instr))
					}
				}
			}
			if ok, cex := e.entails(bTrue, cov, s, in); !ok {
				c.bad("kept", c.P.instrPos(next.instr), "lost "+names[k], "%s can be dropped: no node is added when %s", names[k], cex)
			}
			for _, ev := range here {
				for _, x := range alts(ev.args[1], ev.cond, s) {
					if x.op == "nil" {
						continue // excluded by the deref inside; C01
					}
					if !isNew(x) {
						undecided("%s: the node added is %s", c.P.instrPos(ev.instr), w.showd(x, 3))
						continue
					}
					if k == 1 {
						c21text(c, e, ev, x, s, in, isRaw)
					} else {
						c21elem(c, e, r, ev, x, s, in, k, isData, names[k], notVoid, fn, n)
					}
				}
			}
		}
		// what ends the loop
		exit := L.exitAny
		switch k {
		case 0:
			eof := func(a *Term) (bool, bool) {
				// a string reader ends with io.EOF
				if a.op == "EQ" {
					for _, x := range e.byKind("ext") {
						if strings.HasSuffix(x.name, "html.Tokenizer).Err") && (x.res == a.args[0] || x.res == a.args[1]) {
							return a.args[1].op != "nil" && a.args[0].op != "nil", true
						}
					}
				}
				return false, false
			}
			if ok, cex := e.entails(bTrue, exit, scens(s, eof), in); !ok {
				c.bad("end", c.P.instrPos(next.instr), "end of input", "the loop goes on after the end of the input when %s", cex)
			}
		case 3:
			tested := false
			ex := e.assume(exit, s)
			if ex == bFalse || !e.feasible(exit, s, in) {
				c.bad("close", c.P.instrPos(next.instr), "end tag ignored", "no end tag closes an element")
				break
			}
			for v := range b.Support(ex) {
				a := w.atoms[v]
				if !e.mentions(a, isData) && !e.mentions(a, func(t *Term) bool { return e.isRes(t, tokz+"TagName") }) {
					continue
				}
				if !e.mentions(a, func(t *Term) bool { return t.op == "fld" && t.args[0] == n }) {
					continue
				}
				tested = true
				if a.op != "EQ" && !strings.HasSuffix(a.op, "EqualFold") && !strings.HasSuffix(a.aux, "EqualFold") {
					undecided("end tags are compared by %s", w.showd(a, 3))
					continue
				}
				av := w.asBool(a)
				if ok, cex := e.entails(exit, av, s, in); !ok {
					c.bad("close", c.P.instrPos(next.instr), "closes too much", "an end tag that does not have the name of the node being read ends it when %s", cex)
				}
				if ok, cex := e.entails(av, exit, s, in); !ok {
					c.bad("close", c.P.instrPos(next.instr), "closes too little", "an end tag with the name of the node being read does not end it when %s", cex)
				}
			}
			if !tested {
				if ok, _ := e.entails(bTrue, exit, s, in); ok {
					c.bad("close", c.P.instrPos(next.instr), "closes everything", "any end tag ends the node being read")
				} else {
					undecided("how end tags are matched")
				}
			}
		default:
			for _, l := range L.exits {
				if e.feasible(l.cond, s, in) {
					c.bad("end", c.P.instrPos(next.instr), "ended by "+names[k], "%s can end the reading of the children: the rest goes elsewhere, when %s", names[k], e.model(e.assume(l.cond, s)))
				}
			}
		}
	}
	c21marks(c, e, L, in, kind, some, isData)
}

func inst(l *LoopInst, in []*LoopInst) int {
	for i, x := range in {
		if x == l {
			return i
		}
	}
	return -1
}

// isRes: t is the result of a call of the library function.
func (e *Exec) isRes(t *Term, name string) bool {
	for _, ev := range e.events {
		if ev.kind == "ext" && ev.name == name && ev.res == t {
			return true
		}
	}
	return false
}

// c21text: the new text node x holds all of the token's text.
func c21text(c *Ctx, e *Exec, app *Event, x *Term, s Scen, in []*LoopInst, isRaw func(*Term) bool) {
	w, b := e.w, e.w.b
	cov := bFalse
	for _, name := range []string{"SetInnerHTML", "SetTextContent"} {
		for _, ev := range e.prims(name) {
			if ev.args[0] != x || !e.feasible(ev.cond, s, ev.loops) {
				continue
			}
			cov = b.Or(cov, ev.cond)
			c.count("texts kept", 1)
			for _, t := range e.altsUnder(ev.args[1], e.assume(ev.cond, s), in...) {
				if !e.feasible(b.And(ev.cond, t.g), s, in) {
					continue
				}
				switch why := wholeText(e, t.t, isRaw, name == "SetInnerHTML", b.And(ev.cond, t.g), s, in); {
				case why == "":
				case strings.HasPrefix(why, "?"):
					c.notes = append(c.notes, "undecided: "+c.P.instrPos(ev.instr)+": the text kept is "+w.showd(t.t, 4))
				default:
					c.bad("text", c.P.instrPos(ev.instr), "text "+why, "the text node does not get the text of the token: %s", why)
				}
			}
		}
	}
	for _, ev := range e.byKind("store") {
		if (ev.name == "F:Node.innerHTML" || ev.name == "F:Node.textContent") && len(ev.args) == 2 && ev.args[0].op == "faddr" && ev.args[0].args[0] == x {
			if ev.args[1].isStr() && ev.args[1].aux == "" {
				continue
			}
			cov = b.Or(cov, ev.cond)
			if why := wholeText(e, ev.args[1], isRaw, ev.name == "F:Node.innerHTML", ev.cond, s, in); why != "" {
				c.notes = append(c.notes, "undecided: "+c.P.instrPos(ev.instr)+": the text kept is "+w.showd(ev.args[1], 4))
			}
		}
	}
	if ok, cex := e.entails(app.cond, cov, s, in); !ok {
		c.bad("text", c.P.instrPos(app.instr), "text missing", "the text node added gets no text when %s", cex)
	}
}

// wholeText: t is the text of the token, as source (every < escaped) or decoded; "?" not known.
func wholeText(e *Exec, t *Term, isRaw func(*Term) bool, source bool, g int, s Scen, in []*LoopInst) string {
	has := func(n string) bool { return t.op == "call:"+n }
	switch {
	case isRaw(t):
		return ""
	case t.op == "tostring":
		return wholeText(e, t.args[0], isRaw, source, g, s, in)
	case has("strings.ReplaceAll"):
		if len(t.args) == 3 && t.args[1].isStr() && t.args[2].isStr() {
			if t.args[1].aux == "<" && source || t.args[1].aux == "<![CDATA[" && t.args[2].aux == "" || t.args[1].aux == "]]>" && t.args[2].aux == "" {
				return wholeText(e, t.args[0], isRaw, source, g, s, in)
			}
			if e.mentions(t.args[0], isRaw) && (t.args[2].aux == "" || strings.TrimSpace(t.args[1].aux) == "") {
				return fmt.Sprintf("%q is replaced by %q", t.args[1].aux, t.args[2].aux)
			}
		}
	case has("strings.TrimPrefix"), has("strings.TrimSuffix"):
		if t.args[1].isStr() && (t.args[1].aux == "<![CDATA[" || t.args[1].aux == "]]>") {
			return wholeText(e, t.args[0], isRaw, source, g, s, in)
		}
		if t.args[1].isStr() && e.mentions(t.args[0], isRaw) {
			return fmt.Sprintf("%q is cut off", t.args[1].aux)
		}
	case has("strings.TrimSpace"), has("strings.Trim"), has("strings.TrimLeft"), has("strings.TrimRight"), has("strings.ToLower"), has("strings.ToUpper"), has("strings.TrimFunc"), has("bytes.TrimSpace"), has("bytes.Trim"), has("bytes.ToLower"):
		if e.mentions(t, isRaw) {
			return "it goes through " + strings.TrimPrefix(t.op, "call:")
		}
	case t.op == "concat":
		// both parts of a cut
		var cut *Term
		rest := false
		for _, a := range t.args {
			if a.op == "call:strings.Cut" {
				cut = a.args[0]
				if a.aux == "#1" {
					rest = true
				}
				continue
			}
			if a.isStr() {
				if a.aux == "" {
					continue
				}
				if e.mentions(t, isRaw) {
					return fmt.Sprintf("%q is added to it", a.aux)
				}
			}
			return "?"
		}
		if cut != nil && rest {
			return wholeText(e, cut, isRaw, source, g, s, in)
		}
	case (has("strings.CutPrefix") || has("strings.CutSuffix")) && t.aux == "#0":
		if t.args[1].isStr() && (t.args[1].aux == "<![CDATA[" || t.args[1].aux == "]]>") {
			return wholeText(e, t.args[0], isRaw, source, g, s, in)
		}
		if t.args[1].isStr() && e.mentions(t.args[0], isRaw) {
			return fmt.Sprintf("%q is cut off", t.args[1].aux)
		}
	case has("strings.Cut"):
		if t.aux == "#0" && len(t.args) == 2 && e.mentions(t.args[0], isRaw) {
			found := func(a *Term) (bool, bool) {
				return true, a.op == "call:strings.Cut" && a.aux == "#2" && same(a.args[0], t.args[0])
			}
			if e.feasible(g, scens(s, found), in) {
				return "what follows " + e.w.showd(t.args[1], 1) + " is left out"
			}
		}
		return wholeText(e, t.args[0], isRaw, source, g, s, in)
	case t.isStr():
		return "it gets a fixed text"
	}
	return "?"
}

// c21elem: the new element x has the tag's name and all attributes, and its children are read.
func c21elem(c *Ctx, e *Exec, r *run, app *Event, x *Term, s Scen, in []*LoopInst, k int64, isData func(*Term) bool, what string, notVoid Scen, fn *ssa.Function, n *Term) {
	w, b := e.w, e.w.b
	hyp := app.cond
	at := c.P.instrPos(app.instr)
	// the name
	for _, f := range []string{"F:Node.matchingTag", "F:Node.LocalName"} {
		for _, ev := range e.byKind("store") {
			if ev.name != f || ev.args[0].op != "faddr" || ev.args[0].args[0] != x {
				continue
			}
			c.count("names of elements", 1)
			if !e.mentions(ev.args[1], isData) {
				c.bad("name", c.P.instrPos(ev.instr), f, "the element does not get the name of the tag but %s", w.showd(ev.args[1], 3))
			} else if f == "F:Node.matchingTag" && !isData(ev.args[1]) {
				t := ev.args[1]
				if t.op == "call:strings.ToLower" && isData(t.args[0]) {
					continue // tag names of tokens are lower case
				}
				if t.op == "idx" || strings.HasPrefix(t.op, "call:strings.") || t.op == "ite" {
					c.bad("name", c.P.instrPos(ev.instr), f, "the name end tags are matched with is not the name of the tag but %s", w.showd(t, 3))
				}
			}
		}
	}
	// attributes
	var sets []*Event
	for _, ev := range e.prims("SetAttribute") {
		if e.refersTo(ev.args[0], x) && e.feasible(ev.cond, s, ev.loops) {
			sets = append(sets, ev)
		}
	}
	if len(sets) == 0 {
		stored := false
		for _, ev := range e.byKind("store") {
			if ev.name == "F:Node.Attributes" {
				stored = true
			}
		}
		if stored {
			c.notes = append(c.notes, "undecided: attributes are stored without SetAttribute")
		} else {
			c.bad("attributes", at, "attributes", "the attributes of %s are not set on the element", what)
		}
	} else {
		groups := map[*LoopInst]int{}
		rng := map[*LoopInst]int{}
		undec := false
		for _, ev := range sets {
			key, val := ev.args[1], ev.args[2]
			el := tokAttrOf(key)
			if el == nil || !isAttrList(el.args[0]) {
				if key.isStr() {
					c.bad("attributes", c.P.instrPos(ev.instr), "attribute "+key.aux, "an attribute of %s is set that the source does not have", what)
					continue
				}
				c.notes = append(c.notes, "undecided: "+c.P.instrPos(ev.instr)+": the attribute set is "+w.showd(key, 3))
				undec = true
				continue
			}
			v := tokAttrOf(val)
			if v == nil || v != el || !isAttrField(val, "Val") || !isAttrField(key, "Key") {
				switch {
				case v == nil && e.mentions(val, func(t *Term) bool { return isAttrField(t, "Val") }) && isLossy(val), v == nil && val.isStr(), v != nil && v == el:
					c.bad("attributes", c.P.instrPos(ev.instr), "attribute value", "the attribute does not get the value (or name) of the source: %s=%s", w.showd(key, 3), w.showd(val, 3))
				default:
					c.notes = append(c.notes, "undecided: "+c.P.instrPos(ev.instr)+": the value set is "+w.showd(val, 3))
					undec = true
				}
				continue
			}
			list, idx := el.args[0], el.args[1]
			li, _, why := e.coverage(list, idx)
			if li == nil {
				c.notes = append(c.notes, "undecided: attributes are not set in a loop: "+why)
				undec = true
				continue
			}
			if why != "" && !strings.HasPrefix(why, "?") {
				c.bad("attributes", c.P.instrPos(ev.instr), "attribute range", "not all attributes of %s are set: %s", what, why)
				continue
			}
			if groups[li] == 0 {
				groups[li] = bFalse
			}
			groups[li] = b.Or(groups[li], ev.cond)
			rng[li] = w.asBool(w.lt(idx, w.length(list), true))
		}
		done := undec
		for li, cov := range groups {
			all := append(append([]*LoopInst(nil), li.outer...), li)
			ok, cex := e.entails(b.And(b.And(li.entry, rng[li]), bTrue), cov, scens(s), all)
			if !ok {
				c.bad("attributes", at, "attribute skipped", "an attribute of %s is not set when %s", what, cex)
			}
			// nothing but the end of the list ends the loop
			for _, x := range li.exits {
				if e.feasible(b.And(x.cond, rng[li]), s, all) {
					c.bad("attributes", at, "attribute loop", "the attributes after one are not set when %s", e.model(e.assume(b.And(x.cond, rng[li]), s)))
				}
			}
			if ok, cex := e.entails(hyp, li.entry, s, in); !ok {
				c.bad("attributes", at, "attributes entry", "the attributes of %s are not set when %s", what, cex)
			}
			done = true
		}
		if !done && len(groups) == 0 && !undec {
			c.bad("attributes", at, "attributes", "the attributes of %s are not set on the element", what)
		}
		c.count("attribute loops", len(groups))
	}
	// children
	cov := bFalse
	nrec := 0
	for _, ev := range e.byKind("rec") {
		for _, a := range ev.args {
			if !e.refersTo(a, x) {
				continue
			}
			nrec++
			if k == 4 {
				if e.feasible(ev.cond, s, ev.loops) {
					c.bad("children", c.P.instrPos(ev.instr), "children self-closed", "what follows a self-closing tag is read as its children")
				}
			}
			cov = b.Or(cov, ev.cond)
		}
	}
	if k == 2 {
		if nrec == 0 {
			c.notes = append(c.notes, "undecided: children are not read by recursion")
		} else if ok, cex := e.entails(hyp, cov, scens(s, notVoid), in); !ok {
			c.bad("children", at, "children", "the children of a start tag are not read into the element when %s", cex)
		}
	}
}

// refersTo: t is x, possibly or nil.
func (e *Exec) refersTo(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.op == "ite" {
		for _, a := range t.args {
			if a == x {
				return true
			}
		}
	}
	return false
}

func isLossy(t *Term) bool {
	return strings.HasPrefix(t.op, "call:strings.") || t.op == "subslice"
}

// tokAttrOf: the list element of whose Key or Val t is.
func tokAttrOf(t *Term) *Term {
	if (t.op == "sfield" || t.op == "fld") && strings.Contains(t.aux, "html.Attribute.") {
		x := t.args[0]
		if x.op == "idx" || x.op == "iaddr" {
			return x
		}
	}
	return nil
}

func isAttrField(t *Term, f string) bool {
	return (t.op == "sfield" || t.op == "fld") && strings.HasSuffix(t.aux, "html.Attribute."+f)
}

func isAttrList(t *Term) bool {
	return (t.op == "sfield" || t.op == "fld") && strings.HasSuffix(t.aux, "html.Token.Attr")
}

// c21marks: title, head, body and root.
func c21marks(c *Ctx, e *Exec, L *LoopInst, in []*LoopInst, kind func(int64) Scen, some Scen, isData func(*Term) bool) {
	w, b := e.w, e.w.b
	recSeq := 0
	for _, ev := range e.byKind("rec") {
		recSeq = ev.seq
	}
	for _, m := range [][2]string{{"F:Node.head", "head"}, {"F:Node.Body", "body"}, {"F:Node.DocumentElement", "html"}, {"F:Node.title", "title"}} {
		cls, tag := m[0], m[1]
		var sts []*Event
		for _, ev := range e.byKind("store") {
			if ev.name == cls && inLoop(ev, L) {
				sts = append(sts, ev)
			}
		}
		if len(sts) == 0 {
			c.notes = append(c.notes, "undecided: the "+tag+" of the document is not set in the token loop")
			continue
		}
		cov := bFalse
		for _, ev := range sts {
			cov = b.Or(cov, ev.cond)
			c.count("document marks", 1)
		}
		at := c.P.instrPos(sts[0].instr)
		// the element has a certain name
		named := func(name string) Scen {
			return func(a *Term) (bool, bool) {
				if a.op != "EQ" || len(a.args) != 2 || !a.args[1].isStr() || a.args[1].aux == "" {
					return false, false
				}
				x := a.args[0]
				if !e.mentions(x, isData) && !(x.op == "fld" && (x.aux == "F:Node.LocalName" || x.aux == "F:Node.TagName") && e.mentions(x.args[0], func(t *Term) bool { return t.op == "new" })) {
					return false, false
				}
				return strings.EqualFold(a.args[1].aux, name), true
			}
		}
		unset := func(a *Term) (bool, bool) {
			if a.op == "EQ" && len(a.args) == 2 && (a.args[0].op == "fld" && a.args[0].aux == cls || e.mentions(a.args[0], func(t *Term) bool { return t.op == "fld" && t.aux == cls })) && (a.args[1].isStr() && a.args[1].aux == "" || a.args[1].op == "nil") {
				return true, true
			}
			if len(a.args) == 2 && a.args[0].op == "len" && e.mentions(a.args[0], func(t *Term) bool { return t.op == "fld" && t.aux == cls }) {
				if a.op == "EQ" && a.args[1].isInt() && a.args[1].intVal() == 0 || a.op == "LT" && a.args[1].isInt() && a.args[1].intVal() == 1 {
					return true, true
				}
			}
			if a.op == "LT" && a.args[0].isInt() && e.mentions(a.args[1], func(t *Term) bool { return t.op == "fld" && t.aux == cls }) {
				return false, true
			}
			return false, false
		}
		if ok, cex := e.entails(bTrue, cov, scens(kind(2), some, unset, named(tag)), in); !ok {
			c.bad("marks", at, tag+" missing", "the %s of the document is not set at a %s element when %s", tag, tag, cex)
		}
		others := []string{"title", "head", "body", "html", "div", "x"}
		for v := range b.Support(cov) {
			if a := w.atoms[v]; a.op == "EQ" && len(a.args) == 2 && a.args[1].isStr() && a.args[1].aux != "" {
				others = append(others, strings.ToLower(a.args[1].aux))
			}
		}
		for _, o := range others {
			if o != tag && e.feasible(cov, scens(kind(2), some, named(o)), in) {
				c.bad("marks", at, tag+" wrong", "the %s of the document is set at another element (%s)", tag, o)
				break
			}
		}
		for _, ev := range sts {
			if tag != "title" {
				continue
			}
			if ev.seq < recSeq {
				c.bad("marks", at, "title early", "the title is taken before the children of the title element were read")
			}
			keep := func(a *Term) (bool, bool) {
				v, ok := unset(a)
				return !v, ok
			}
			if e.feasible(ev.cond, scens(kind(2), some, keep), ev.loops) {
				c.bad("marks", at, "title again", "a later title element replaces the title")
			}
			v := ev.args[1]
			if !e.mentions(v, func(t *Term) bool { return t.op == "text" }) {
				if v.isStr() {
					c.bad("marks", at, "title text", "the title is not the text of the title element")
				} else {
					c.notes = append(c.notes, "undecided: the title is "+w.showd(v, 3))
				}
			}
		}
	}
}

func c21parse(c *Ctx) {
	fn := c.P.method("domParser", "parse")
	if fn == nil || fn.Blocks == nil {
		c.bad("anchor", "domparser.go", "parse", "the parser has no function parse")
		return
	}
	r := c.exec(fn, false, nil)
	e, w := r.e, r.e.w
	src := r.arg[1]
	n := c21source(c, r.e, src)
	br := c.buildRun()
	parses := br.e.prims("parse")
	if len(parses) == 0 {
		n += c21source(c, br.e, br.arg[0])
	}
	for _, ev := range parses {
		c21whole(c, br.e, ev, ev.args[1], br.arg[0])
	}
	cd := false
	for _, f := range c.P.funcs {
		if !c.P.inLib(f) {
			continue
		}
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && call.Common().StaticCallee() != nil && call.Common().StaticCallee().String() == tokz+"AllowCDATA" {
					if k, ok := call.Common().Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.String() == "true" {
						cd = true
					}
				}
			}
		}
	}
	if !cd {
		c.bad("source", "parse", "CDATA", "the tokenizer is not told to keep CDATA sections: they become comments, and their text is dropped")
	}
	c.count("tokenizer calls", n)
	// removal after parsing
	for _, ev := range e.prims("RemoveChild") {
		c.count("removals after parsing", 1)
		node := ev.args[1]
		root := func(a *Term) (bool, bool) {
			if a.op == "EQ" && len(a.args) == 2 {
				for i := 0; i < 2; i++ {
					if a.args[i] == node && a.args[1-i].op == "fld" && a.args[1-i].aux == "F:Node.DocumentElement" {
						return true, true
					}
				}
			}
			return false, false
		}
		if e.feasible(ev.cond, root, ev.loops) {
			c.bad("removal", c.P.instrPos(ev.instr), "root", "the html element itself can be removed after parsing")
		}
		none := func(a *Term) (bool, bool) {
			if a.op == "EQ" && len(a.args) == 2 && a.args[1].op == "nil" && a.args[0].op == "fld" && a.args[0].aux == "F:Node.DocumentElement" {
				return true, true
			}
			return false, false
		}
		if e.feasible(ev.cond, none, ev.loops) {
			c.bad("removal", c.P.instrPos(ev.instr), "fragment", "nodes of a source without html element are removed")
		}
		if why := c21countdown(e, ev, node); why != "" {
			c.bad("removal", c.P.instrPos(ev.instr), "left", "root-level nodes beside the html element are left: %s", why)
		}
		p := ev.args[0]
		if !(p.op == "fld" && p.aux == "F:domParser.doc" || isNewDoc(p)) {
			c.notes = append(c.notes, "undecided: removal from "+w.showd(p, 3))
		}
	}
	for _, x := range e.altsUnder(r.ret, bTrue) {
		if x.t.op == "nil" {
			c.bad("result", "parse", "nil", "parse can return no document")
		}
	}
}

// c21countdown: a removal of the child at a position which counts down or up misses children.
func c21countdown(e *Exec, ev *Event, node *Term) string {
	w := e.w
	list, idx, ok := elemOf(node)
	if !ok {
		return ""
	}
	v, k, ok := splitVar(idx)
	if !ok {
		return ""
	}
	L, _ := v.obj.(*LoopInst)
	if L == nil || L.external != "" || !containsLoop(ev.loops, L) {
		return ""
	}
	p := L.phiOf(v)
	if p == nil {
		return ""
	}
	switch L.next[p] {
	case w.add(v, w.int(-1)):
		first := linScen(func(t *Term) (int64, bool) { return -k, t == v })
		if !e.feasible(ev.cond, first, ev.loops) {
			return "the first one is not looked at"
		}
		if d, ok := lenMinus(e, w.add(L.init[p], w.int(k))); ok && d > 1 {
			return "the last one is not looked at"
		}
	case w.add(v, w.int(1)):
		if list.op == "fld" && (list.aux == "F:Node.ChildNodes" || list.aux == "F:Node.Children") && list.args[0] == ev.args[0] {
			return "after a removal the next one is skipped"
		}
	}
	return ""
}

// lenMinus: t is the length of a list less d.
func lenMinus(e *Exec, t *Term) (int64, bool) {
	if t.op == "len" {
		return 0, true
	}
	if t.op == "+" && len(t.args) == 2 && t.args[0].op == "len" && t.args[1].isInt() {
		return -t.args[1].intVal(), true
	}
	return 0, false
}

// c21source: the tokenizer reads all of the source.
func c21source(c *Ctx, e *Exec, src *Term) int {
	w := e.w
	n := 0
	for _, ev := range e.byKind("ext") {
		if strings.HasPrefix(ev.name, tokz) || strings.HasPrefix(ev.name, "golang.org/x/net/html.NewTokenizer") {
			n++
		}
		if strings.HasPrefix(ev.name, "golang.org/x/net/html.NewTokenizer") {
			c21whole(c, e, ev, ev.args[0], src)
		}
		if ev.name == tokz+"SetMaxBuf" && !(ev.args[1].isInt() && ev.args[1].intVal() <= 0) {
			c.bad("source", c.P.instrPos(ev.instr), "limit", "the tokenizer gives up on tokens longer than %s", w.showd(ev.args[1], 3))
		}
	}
	return n
}

func c21whole(c *Ctx, e *Exec, ev *Event, t, src *Term) {
	if !e.mentions(t, func(t *Term) bool { return t == src }) {
		c.bad("source", c.P.instrPos(ev.instr), "source", "not the source given is parsed")
		return
	}
	c.count("sources", 1)
	e.w.subterms(t, func(t *Term) bool {
		if t.op == "subslice" || t.op == "call:io.LimitReader" || strings.HasPrefix(t.op, "call:strings.Cut") {
			c.bad("source", c.P.instrPos(ev.instr), "source cut", "not all of the source is parsed: %s", e.w.showd(t, 3))
		}
		return true
	})
}

func isNewDoc(t *Term) bool { return t.op == "new" }

// c21decode: references are decoded in a single pass.
func c21decode(c *Ctx) {
	fn := c.P.fn("decodeHTML")
	if fn == nil || fn.Blocks == nil {
		return
	}
	r := c.exec(fn, false, nil)
	e, w := r.e, r.e.w
	// how many replacing passes are there over the text?
	passes := map[string]bool{}
	isPass := func(t *Term) bool {
		for _, p := range []string{"ReplaceAllStringFunc", "ReplaceAllString", "strings.ReplaceAll", "Replacer).Replace", "UnescapeString", "strings.Replace"} {
			if strings.Contains(t.op, p) || strings.Contains(t.aux, p) {
				return true
			}
		}
		return false
	}
	for _, x := range e.altsUnder(resultOf(r.ret, 0), bTrue) {
		w.subterms(x.t, func(t *Term) bool {
			if isPass(t) && e.mentions(t, func(u *Term) bool { return u == r.arg[0] }) {
				inner := false
				for _, a := range t.args {
					if e.mentions(a, func(u *Term) bool { return isPass(u) && e.mentions(u, func(v *Term) bool { return v == r.arg[0] }) }) {
						inner = true
					}
				}
				if inner {
					passes["nested"] = true
				}
				passes["any"] = true
			}
			return true
		})
	}
	c.count("decoding functions", 1)
	for _, ev := range e.events {
		switch {
		case strings.HasSuffix(ev.name, "Regexp).ReplaceAllStringFunc") && len(ev.args) > 1 && ev.args[0].op == "re" && ev.args[1] == r.arg[0]:
			re, err := regexp.Compile(ev.args[0].aux)
			if err != nil {
				continue
			}
			for _, x := range []string{"&lt;", "&gt;", "&amp;", "&quot;", "&apos;", "&#8;", "&#60;", "&#160;", "&#8217;", "&#12354;", "&#x9;", "&#x3c;", "&#X3C;", "&#xa0;", "&#x2019;", "&#x3042;"} {
				c.count("references matched against the pattern", 1)
				if re.FindString(x) != x {
					c.bad("decode", c.P.instrPos(ev.instr), "pattern "+x, "the reference %s is not recognised", x)
				}
			}
		case ev.name == "(*strings.Replacer).Replace" && ev.args[0].op == "call:strings.NewReplacer" && len(ev.args[0].args) == 1 && ev.args[0].args[0].op == "slicelit":
			l := ev.args[0].args[0].args
			for i := 0; i+1 < len(l); i += 2 {
				k, v := l[i], l[i+1]
				if !k.isStr() || !v.isStr() {
					continue
				}
				name := strings.Trim(k.aux, "&;")
				if want, ok := map[string]string{"lt": "<", "gt": ">", "amp": "&", "quot": "\"", "apos": "'"}[name]; ok && v.aux != want {
					c.bad("decode", c.P.instrPos(ev.instr), "entity "+name, "the reference &%s; is decoded to %q", name, v.aux)
				}
				c.count("named references", 1)
			}
		case ev.name == "strconv.ParseInt" || ev.name == "strconv.ParseUint":
			for _, d := range e.altsUnder(ev.args[0], ev.cond) {
				if d.t.op != "idx" || !d.t.args[1].isInt() || !strings.HasSuffix(d.t.args[0].op, "Regexp).FindStringSubmatch") || d.t.args[0].args[0].op != "re" {
					continue
				}
				hex, ok := groupTakes(d.t.args[0].args[0].aux, int(d.t.args[1].intVal()), "ff")
				if !ok {
					continue
				}
				want := int64(10)
				if hex {
					want = 16
				}
				for _, bs := range e.altsUnder(ev.args[1], w.b.And(ev.cond, d.g)) {
					c.count("numeric references", 1)
					if bs.t.isInt() && bs.t.intVal() != want {
						c.bad("decode", c.P.instrPos(ev.instr), "base", "the digits of a reference in base %d are read in base %d", want, bs.t.intVal())
					}
				}
			}
		}
	}
	if passes["nested"] {
		c.bad("decode", "decodeHTML", "twice", "references are decoded in several passes: what one reference stands for can be decoded again")
	}
	if !passes["any"] {
		c.notes = append(c.notes, "undecided: how references are decoded")
	}
}

// groupTakes: group k of the pattern can be the text given.
func groupTakes(pat string, k int, text string) (bool, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false, false
	}
	var grp *syntax.Regexp
	var find func(r *syntax.Regexp)
	find = func(r *syntax.Regexp) {
		if r.Op == syntax.OpCapture && r.Cap == k {
			grp = r.Sub[0]
		}
		for _, s := range r.Sub {
			find(s)
		}
	}
	find(re)
	if grp == nil {
		return false, false
	}
	m, err := regexp.Compile("^(?:" + grp.String() + ")$")
	if err != nil {
		return false, false
	}
	return m.MatchString(text), true
}

func resultOf(t *Term, i int) *Term {
	if t != nil && t.op == "tuple" && i < len(t.args) {
		return t.args[i]
	}
	return t
}
