package main

import (
	"regexp"
	"strings"
)

func init() { checks["C07"] = checkC07 }

// must: every feasible alternative of t under g contains a piece satisfying p.
func (e *Exec) must(t *Term, g int, s Scen, loops []*LoopInst, p func(*Term) bool) bool {
	if p(t) {
		return true
	}
	switch t.op {
	case "ite":
		for i, a := range t.args {
			x := e.w.b.And(g, t.bs[i])
			if x == bFalse || !e.feasible(x, s, loops) || e.refuted(t, a, x) {
				continue
			}
			if !e.must(a, x, s, loops, p) {
				return false
			}
		}
		return true
	case "concat":
		for _, a := range t.args {
			if e.must(a, g, s, loops, p) {
				return true
			}
		}
	}
	if strings.HasPrefix(t.op, "call:strings.") || strings.HasPrefix(t.op, "call:(*regexp.Regexp).Replace") {
		args := t.args
		switch {
		case strings.HasPrefix(t.op, "call:strings.Replace"):
			args = args[:1]
		case strings.HasPrefix(t.op, "call:(*regexp") && len(args) > 1:
			args = args[1:2]
		}
		for _, a := range args {
			if e.must(a, g, s, loops, p) {
				return true
			}
		}
	}
	return false
}

// choice: must looks into the parts of t itself.
func choice(t *Term) bool {
	return t.op == "ite" || t.op == "concat" || strings.HasPrefix(t.op, "call:strings.") || strings.HasPrefix(t.op, "call:(*regexp.Regexp).Replace")
}

// refuted: the guard demands something of the choice t that its constant alternative a
// does not satisfy.
func (e *Exec) refuted(t, a *Term, g int) bool {
	if !a.isStr() {
		return false
	}
	b := e.w.b
	for v := range b.Support(g) {
		at := e.w.atoms[v]
		if len(at.args) != 2 || at.args[0] != t || !at.args[1].isStr() {
			continue
		}
		var holds bool
		switch at.op {
		case "call:strings.Contains":
			holds = strings.Contains(a.aux, at.args[1].aux)
		case "call:strings.HasPrefix":
			holds = strings.HasPrefix(a.aux, at.args[1].aux)
		case "call:strings.HasSuffix":
			holds = strings.HasSuffix(a.aux, at.args[1].aux)
		case "EQ":
			holds = a.aux == at.args[1].aux
		default:
			continue
		}
		if holds && b.And(g, b.Var(v)) == bFalse || !holds && b.And(g, b.Not(b.Var(v))) == bFalse {
			return true
		}
	}
	return false
}

func checkC07(c *Ctx) {
	c.rule("for a with href and for img, picture, figure, video, audio, source with src, poster, srcset: a loop over all such elements of the final article sets the attribute whenever it is not empty (and, for href, not a javascript: URL)")
	c.rule("every value set is built from base.ResolveReference(uri) with base the document base and uri the trimmed attribute (or part of it); its scheme, host, path, query and fragment all go in; the text is kept as it is only for #fragments without a different base and on parse errors")
	c.rule("javascript: is recognised after trimming and lower-casing; such a link is replaced by its text or by an element that receives all its children, and never kept")
	c.rule("the document base is the first base element's href resolved against the document URI, else the document URI, which is the URI given to the parser")
	a := c.attempts()
	if len(a.serial) == 0 || a.loop == nil {
		c.bad("attempts", "Parse", "loop", "the serialized article is not an element created in a loop of attempts")
		return
	}
	type ob struct{ tag, attr string }
	obs := []ob{{"a", "href"}}
	for _, t := range []string{"img", "picture", "figure", "video", "audio", "source"} {
		for _, x := range []string{"src", "poster", "srcset"} {
			obs = append(obs, ob{t, x})
		}
	}
	for _, o := range obs {
		c07attr(c, a, o.tag, o.attr)
	}
	c07base(c)
}

// linkElems are the (list element, loop) pairs running over all elements of a tag below
// the final article.
type elemLoop struct {
	elem    *Term
	inst    *LoopInst
	inRange int
	why     string
}

func (c *Ctx) finalElems(tag string) []elemLoop {
	a := c.attempts()
	e := a.r.e
	var out []elemLoop
	seen := map[*Term]bool{}
	for _, ev := range e.events {
		if ev.kind != "prim" {
			continue
		}
		for _, t := range ev.args {
			for isFld(t, "F:Node.ParentNode") {
				t = t.args[0]
			}
			list, idx, ok := elemOf(t)
			if !ok || seen[t] {
				continue
			}
			seen[t] = true
			hit := false
			for _, part := range listParts(list) {
				if part.op == "query" && part.args[1].isStr() && (part.args[1].aux == tag || part.args[1].aux == "*") && c.coversFinal(part.args[0]) {
					hit = true
				}
			}
			if !hit {
				continue
			}
			inst, inRange, why := e.coverage(list, idx)
			if inst != nil {
				out = append(out, elemLoop{t, inst, inRange, why})
			}
		}
	}
	return out
}

func c07attr(c *Ctx, a *attemptCtx, tag, attr string) {
	e, w, b := a.r.e, a.r.e.w, a.r.e.w.b
	what := tag + " " + attr
	c.count("attributes to resolve", 1)
	var why string
	found := false
	for _, el := range c.finalElems(tag) {
		var sets []*Event
		for _, ev := range e.prims("SetAttribute") {
			if same(ev.args[0], el.elem) && ev.args[1] == w.str(attr) {
				sets = append(sets, ev)
			}
		}
		if len(sets) == 0 {
			continue
		}
		pos := c.P.instrPos(sets[0].instr)
		isAttr := func(t *Term) bool { return t.op == "attr" && same(t.args[0], el.elem) && t.args[1] == w.str(attr) }
		isJS := func(t *Term) bool { _, ok := jsAtom(t, isAttr, e); return ok }
		sc := func(js bool) Scen {
			return scens(tagIs(el.elem, strings.ToUpper(tag)), func(t *Term) (bool, bool) {
				if t.op == "EQ" && isAttr(t.args[0]) && t.args[1].isStr() && t.args[1].aux == "" {
					return false, true
				}
				if t.op == "EQ" && t.args[0].op == "len" && isAttr(t.args[0].args[0]) && t.args[1].isInt() && t.args[1].intVal() == 0 {
					return false, true
				}
				if t.op == "hasattr" && same(t.args[0], el.elem) && t.args[1] == w.str(attr) {
					return true, true
				}
				if isJS(t) {
					return js, true
				}
				return false, false
			})
		}
		if el.why == "early-exit" {
			why = pos + ": the loop can end before the last element"
			continue
		}
		if el.why != "" {
			why = pos + ": " + el.why
			continue
		}
		if ok, cex := e.entails(b.And(el.inst.entry, el.inRange), e.orCond(sets), sc(false), sets[0].loops); !ok {
			why = pos + ": not when " + cex
			continue
		}
		reached := true
		for _, s := range a.serial {
			if ok, cex := e.entails(s.cond, el.inst.entry, nil, nil); !ok {
				why = pos + ": not reached when " + cex
				reached = false
			}
			if s.seq < el.inst.seq0 {
				why = pos + ": only after the article is serialized"
				reached = false
			}
		}
		if !reached {
			continue
		}
		found = true
		for _, ev := range sets {
			c07value(c, e, ev, attr, isAttr, sc(false))
		}
		if tag == "a" {
			c07js(c, a, el, sets, sc(true), isAttr)
		}
	}
	if !found {
		if why == "" {
			why = "no loop over the elements of the article sets it"
		}
		c.bad("resolved", "article", what, "%s is not always made absolute: %s", what, why)
	}
}

// jsAtom: t tests whether the attribute is a javascript: URL; problem names what the
// test overlooks.
func jsAtom(t *Term, isAttr func(*Term) bool, e *Exec) (problem string, ok bool) {
	strip := func(x *Term) (lower, trim bool, base *Term) {
		for {
			switch x.op {
			case "call:strings.ToLower", "call:strings.ToUpper":
				lower = true
				x = x.args[0]
				continue
			case "call:strings.TrimSpace", "call:strings.TrimLeftFunc", "call:strings.TrimFunc":
				trim = true
				x = x.args[0]
				continue
			case "call:strings.TrimLeft", "call:strings.Trim":
				trim = trim || !x.args[1].isStr() || strings.ContainsRune(x.args[1].aux, ' ') && strings.ContainsRune(x.args[1].aux, '\t') && strings.ContainsRune(x.args[1].aux, '\n')
				x = x.args[0]
				continue
			}
			return lower, trim, x
		}
	}
	var subj *Term
	switch {
	case t.op == "call:strings.HasPrefix" && t.args[1].isStr() && strings.EqualFold(t.args[1].aux, "javascript:"):
		subj = t.args[0]
	case t.op == "EQ" && t.args[1].isStr() && strings.EqualFold(strings.TrimSuffix(t.args[1].aux, ":"), "javascript"):
		subj = t.args[0]
		for subj.op == "slice" || strings.HasPrefix(subj.op, "call:strings.Cut") {
			subj = subj.args[0]
		}
	default:
		if p, s, is := reMatch(t); is && strings.Contains(strings.ToLower(p), "javascript") {
			_, _, base := strip(s)
			if !isAttr(base) {
				return "", false
			}
			re, err := regexp.Compile(p)
			if err != nil {
				return "", false
			}
			lower, trim, _ := strip(s)
			m := func(x string) bool {
				if lower {
					x = strings.ToLower(x)
				}
				if trim {
					x = strings.TrimSpace(x)
				}
				return re.MatchString(x)
			}
			switch {
			case !m("javascript:x"):
				return "javascript: itself", true
			case !m("JavaScript:x"):
				return "other letter cases", true
			case !m(" \t\njavascript:x"):
				return "leading white space", true
			case m("http://x/javascript:"):
				return "that the URL must start with javascript:", true
			}
			return "", true
		}
		return "", false
	}
	lower, trim, base := strip(subj)
	if !isAttr(base) {
		return "", false
	}
	if !lower {
		return "other letter cases", true
	}
	if !trim {
		return "leading white space", true
	}
	return "", true
}

// c07value checks a value written to a link attribute.
func c07value(c *Ctx, e *Exec, ev *Event, attr string, isAttr func(*Term) bool, s Scen) {
	pos := c.P.instrPos(ev.instr)
	rest := ev.cond
	for _, x := range e.altsUnder(ev.args[2], ev.cond, ev.loops...) {
		if x.t.op == "call:strings.Join" {
			rest = e.w.b.And(rest, e.w.b.Not(x.g))
		}
		if !e.feasible(x.g, s, ev.loops) {
			continue
		}
		if x.t.op == "call:strings.Join" && x.t.args[0].op == "loopvar" {
			inst := x.t.args[0].obj.(*LoopInst)
			p := inst.phiOf(x.t.args[0])
			for _, y := range e.altsUnder(inst.next[p], inst.back, inst) {
				if y.t == x.t.args[0] {
					c.bad("resolved", pos, attr+" part dropped", "a part of the %s value can be left out", attr)
					continue
				}
				if y.t.op != "append" || y.t.args[0] != x.t.args[0] {
					continue
				}
				for _, z := range y.t.args[1:] {
					for _, v := range z.args {
						c07abs(c, e, v, y.g, append(append([]*LoopInst(nil), ev.loops...), inst), pos, attr, func(t *Term) bool { return e.mentionsVal(t, isAttr) }, s)
						if z.op == "slicelit" {
							c07parts(c, e, v, y.g, append(append([]*LoopInst(nil), ev.loops...), inst), pos, attr)
						}
					}
				}
			}
		}
	}
	if e.feasible(rest, s, ev.loops) {
		c07abs(c, e, ev.args[2], rest, ev.loops, pos, attr, isAttr, s)
	}
}

// c07parts: the submatches of the srcset expression other than the URL are kept.
func c07parts(c *Ctx, e *Exec, v *Term, g int, loops []*LoopInst, pos, attr string) {
	var sub *Term
	e.w.subterms(v, func(t *Term) bool {
		if l, _, ok := elemOf(t); ok && strings.Contains(l.op, "FindAllStringSubmatch") {
			sub = t
		}
		return sub == nil
	})
	if sub == nil {
		return
	}
	l, _, _ := elemOf(sub)
	if k := l.args[len(l.args)-1]; k.isInt() && k.intVal() >= 0 {
		c.bad("resolved", pos, attr+" limit", "only the first %d URLs of %s are kept", k.intVal(), attr)
	}
	if l.args[0].op != "re" {
		return
	}
	re, err := regexp.Compile(l.args[0].aux)
	if err != nil {
		return
	}
	// the group that is resolved holds each URL, and the matches leave out only white space
	for _, in := range []struct {
		s    string
		urls []string
	}{
		{"a.jpg", []string{"a.jpg"}},
		{"a.jpg 2x", []string{"a.jpg"}},
		{"a.jpg 1.5x, b.jpg 2x", []string{"a.jpg", "b.jpg"}},
		{"a.jpg 100w, b.jpg 200w", []string{"a.jpg", "b.jpg"}},
		{"a.jpg, b.jpg 2x", []string{"a.jpg", "b.jpg"}},
		{"a.jpg 2x,b.jpg 3x", []string{"a.jpg", "b.jpg"}},
		{"a.jpg 2x , b.jpg 3x", []string{"a.jpg", "b.jpg"}},
		{"a.jpg\n2x,\n\tb.jpg 3x", []string{"a.jpg", "b.jpg"}},
		{"/a,w_1,h_2/b.jpg 2x", []string{"/a,w_1,h_2/b.jpg"}},
		{"/A-1_b.JPG?x=1&y=%20#z 1024w", []string{"/A-1_b.JPG?x=1&y=%20#z"}},
	} {
		got, all := map[string]bool{}, ""
		for _, m := range re.FindAllStringSubmatch(in.s, -1) {
			all += m[0]
			for _, x := range m[1:] {
				got[strings.TrimSpace(x)] = true
			}
		}
		for _, u := range in.urls {
			if !got[u] {
				c.bad("resolved", pos, attr+" expression", "the expression for %s does not find the URL %s in %q", attr, u, in.s)
				return
			}
		}
		if strings.Join(strings.Fields(all), "") != strings.Join(strings.Fields(in.s), "") {
			c.bad("resolved", pos, attr+" expression", "the expression for %s leaves out part of %q: it matches %q", attr, in.s, all)
			return
		}
	}
	for k := 1; k <= re.NumSubexp(); k++ {
		if !e.must(v, g, nil, loops, func(t *Term) bool {
			return e.mentionsVal(t, func(x *Term) bool {
				b, i, ok := elemOf(x)
				return ok && same(b, sub) && i.isInt() && int(i.intVal()) == k
			})
		}) {
			c.bad("resolved", pos, attr+" group", "group %d of the %s expression is dropped", k, attr)
		}
	}
}

// mentionsVal: like mentions, but does not look into the guards of choices.
func (e *Exec) mentionsVal(t *Term, p func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t.id] || isMem(t) {
			return false
		}
		seen[t.id] = true
		if p(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// c07abs: v is the resolution of a URI taken from the attribute.
func c07abs(c *Ctx, e *Exec, v *Term, g int, loops []*LoopInst, pos, attr string, isSrc func(*Term) bool, s Scen) {
	w := e.w
	c.count("link values checked", 1)
	// the resolved URL
	var res []*Term
	w.subterms(v, func(t *Term) bool {
		if strings.HasPrefix(t.op, "call:(*net/url.URL).ResolveReference") || strings.HasPrefix(t.op, "call:(*net/url.URL).Parse") {
			res = append(res, t)
			return false
		}
		return true
	})
	if len(res) == 0 {
		c.bad("resolved", pos, attr+" value", "the %s value written is not a resolved URL: %s", attr, w.showd(v, 4))
		return
	}
	trim := func(t *Term) *Term {
		for t.op == "call:strings.TrimSpace" {
			t = t.args[0]
		}
		return t
	}
	for _, u := range res {
		base := u.args[0]
		ref := u.args[1]
		okBase := strings.HasPrefix(base.op, "call:net/url.Parse") && base.args[0].op == "baseuri"
		if !okBase {
			c.bad("base", pos, attr+" base", "%s is resolved against %s instead of the document base", attr, w.showd(base, 4))
		}
		if strings.HasPrefix(ref.op, "call:net/url.Parse") {
			ref = ref.args[0]
		}
		if !isSrc(trim(ref)) {
			c.bad("resolved", pos, attr+" reference", "what is resolved is not the %s value: %s", attr, w.showd(ref, 4))
		}
	}
	noErr := func(hash, sameBase bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].op == "nil" && (strings.HasPrefix(t.args[0].op, "call:net/url.Parse") || strings.HasPrefix(t.args[0].op, "call:(*net/url.URL).Parse")) {
				return strings.HasSuffix(t.args[0].aux, "#1"), true
			}
			if t.op == "call:strings.HasPrefix" && t.args[1] == w.str("#") {
				return hash, true
			}
			if t.op == "EQ" && t.args[0].op == "idx" && t.args[0].args[1].isInt() && t.args[0].args[1].intVal() == 0 && t.args[1].isInt() {
				return hash, t.args[1].intVal() == '#'
			}
			if t.op == "EQ" && t.args[0].op == "call:strings.TrimSpace" && t.args[1] == w.str("") {
				return false, true
			}
			if (t.op == "EQ" || t.op == "LT") && t.args[0].op == "len" && t.args[0].args[0].op == "call:strings.TrimSpace" && t.args[1].isInt() && t.args[1].intVal() <= 1 {
				return false, t.op == "LT" || t.args[1].intVal() == 0
			}
			if t.op == "EQ" && (t.args[0].op == "baseuri" || t.args[1].op == "baseuri") {
				return sameBase, true
			}
			return false, false
		}
	}
	isU := func(t *Term) bool {
		for _, u := range res {
			if t == u {
				return true
			}
		}
		return false
	}
	// what a component may be taken from
	via := map[string][]string{"Path": {"Path", "RawPath", "EscapedPath", "RequestURI"}, "Fragment": {"Fragment", "RawFragment", "EscapedFragment"},
		"RawQuery": {"RawQuery", "RequestURI"}, "Host": {"Host"}, "Scheme": {"Scheme"}, "User": {"User"}}
	comp := func(f string) func(*Term) bool {
		return func(t *Term) bool {
			return e.mentionsVal(t, func(x *Term) bool {
				if len(x.args) == 0 || !isU(x.args[0]) {
					return false
				}
				if strings.HasPrefix(x.op, "call:(*net/url.URL).String") {
					return true
				}
				for _, m := range via[f] {
					if strings.HasPrefix(x.op, "fld") && strings.HasSuffix(x.aux, "."+m) || x.op == "call:(*net/url.URL)."+m {
						return true
					}
				}
				return false
			})
		}
	}
	flds := map[string]string{}
	w.subterms(v, func(t *Term) bool {
		if t.op == "fld" && isU(t.args[0]) {
			flds[strings.TrimPrefix(t.aux[strings.LastIndex(t.aux, ".")+1:], ".")] = t.aux
		}
		return true
	})
	nonEmpty := func(fs ...string) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[0].op == "fld" && isU(t.args[0].args[0]) && (t.args[1].isStr() && t.args[1].aux == "" || t.args[1].op == "nil") {
				for _, f := range fs {
					if t.args[0].aux == flds[f] {
						return false, true
					}
				}
				if t.args[0].aux == flds["Opaque"] {
					return true, true
				}
			}
			if t.op == "fld" && isU(t.args[0]) && t.aux == flds["OmitHost"] {
				return false, true
			}
			return false, false
		}
	}
	for _, cs := range []struct {
		hash, same bool
		name       string
	}{{false, true, "an ordinary URL"}, {true, false, "a #fragment on a page with a different base"}, {false, false, "a URL on a page with a different base"}} {
		sc := scens(s, noErr(cs.hash, cs.same))
		if !e.must(v, g, sc, loops, func(t *Term) bool { return !choice(t) && e.mentionsVal(t, isU) }) {
			c.bad("resolved", pos, attr+" unresolved "+cs.name, "%s: %s stays unresolved", attr, cs.name)
			continue
		}
		for _, f := range []string{"Scheme", "User", "Host", "Path", "RawQuery", "Fragment"} {
			if !e.must(v, g, scens(sc, nonEmpty(f)), loops, func(t *Term) bool {
				return !choice(t) && comp(f)(t)
			}) {
				c.bad("resolved", pos, attr+" "+f, "%s: the %s of the resolved URL is dropped for %s", attr, strings.TrimPrefix(f, "Raw"), cs.name)
			}
		}
		if !e.must(v, g, scens(sc, nonEmpty("Scheme", "Host")), loops, func(t *Term) bool {
			return t.isStr() && strings.Contains(t.aux, "//") || e.mentionsVal(t, func(x *Term) bool {
				return strings.HasPrefix(x.op, "call:(*net/url.URL).String") && isU(x.args[0])
			}) && !choice(t)
		}) {
			c.bad("resolved", pos, attr+" //", "%s: the // before the host of the resolved URL is dropped for %s", attr, cs.name)
		}
	}
	// a #fragment on the same page
	if !e.must(v, g, scens(s, noErr(true, true)), loops, func(t *Term) bool { return isSrc(trim(t)) }) {
		c.bad("resolved", pos, attr+" fragment", "%s: a #fragment is changed although the base is the document itself", attr)
	}
}

// c07js: links with javascript: URLs are replaced by their content.
func c07js(c *Ctx, a *attemptCtx, el elemLoop, sets []*Event, s Scen, isAttr func(*Term) bool) {
	e, w, b := a.r.e, a.r.e.w, a.r.e.w.b
	pos := c.P.instrPos(sets[0].instr)
	n := 0
	for _, at := range e.liveAtoms() {
		if p, ok := jsAtom(at, isAttr, e); ok {
			n++
			if p != "" {
				c.bad("javascript", pos, "test", "the test for javascript: links overlooks %s: %s", p, w.showd(at, 5))
			}
		}
	}
	if n == 0 {
		c.bad("javascript", pos, "no test", "links with javascript: URLs are not recognised")
		return
	}
	for _, ev := range sets {
		if e.feasible(ev.cond, s, ev.loops) {
			c.bad("javascript", c.P.instrPos(ev.instr), "kept", "a javascript: link is kept")
		}
	}
	var reps []*Event
	for _, ev := range e.prims("ReplaceChild") {
		if same(ev.args[2], el.elem) {
			reps = append(reps, ev)
		}
	}
	for _, ev := range e.prims("RemoveAttribute") {
		if same(ev.args[0], el.elem) && ev.args[1] == w.str("href") {
			reps = append(reps, ev)
		}
	}
	par := func(t *Term) (bool, bool) {
		if t.op == "EQ" && isFld(t.args[0], "F:Node.ParentNode") && same(t.args[0].args[0], el.elem) && t.args[1].op == "nil" {
			return false, true
		}
		return false, false
	}
	if ok, cex := e.entails(b.And(el.inst.entry, el.inRange), e.orCond(reps), scens(s, par), sets[0].loops); !ok {
		c.bad("javascript", pos, "not replaced", "a javascript: link is not replaced when %s", cex)
	}
	for _, ev := range reps {
		if ev.name != "ReplaceChild" {
			continue
		}
		p := c.P.instrPos(ev.instr)
		c.count("replacements of javascript: links", 1)
		x := ev.args[1]
		if x.op == "newnode" {
			ok := false
			for _, ap := range e.prims("AppendChild") {
				if ap.args[0] == x && ap.seq < ev.seq && len(ap.loops) > len(ev.loops) {
					first := e.isFirstChild(ap.args[1], el.elem, "F:Node.ChildNodes")
					if l, _, is := elemOf(ap.args[1]); is && isFld(l, "F:Node.ChildNodes") && same(l.args[0], el.elem) {
						first = true
					}
					if !first {
						continue
					}
					inst := ap.loops[len(ap.loops)-1]
					more := b.And(inst.exitAny, b.Not(e.isNil(ap.args[1])))
					empty := func(t *Term) (bool, bool) {
						if t.op == "EQ" && t.args[0].op == "len" && isFld(t.args[0].args[0], "F:Node.ChildNodes") && t.args[1].isInt() && t.args[1].intVal() == 0 {
							return false, true
						}
						return false, false
					}
					if e.countsLen(inst, "F:Node.ChildNodes", el.elem) {
						ok = true
						c.notes = append(c.notes, p+": the loop counts the children; taken to move each of them")
					} else if !e.feasible(more, empty, append(append([]*LoopInst(nil), inst.outer...), inst)) {
						ok = true
					}
				}
			}
			if !ok {
				c.bad("javascript", p, "children", "the children of a replaced javascript: link are not all moved to the new element")
			}
			continue
		}
		// a text node: the link has nothing but text
		txt := false
		for _, st := range e.prims("SetTextContent") {
			if st.args[0] == x && st.args[1].op == "text" && same(st.args[1].args[0], el.elem) {
				txt = true
			}
		}
		if !txt {
			for _, st := range e.byKind("store") {
				if st.args[0].op == "faddr" && st.args[0].args[0] == x && e.mentionsVal(st.args[1], func(t *Term) bool { return t.op == "text" && same(t.args[0], el.elem) }) {
					txt = true
				}
			}
		}
		if !txt {
			c.notes = append(c.notes, p+": replacement of unknown content")
			continue
		}
		el0 := func(t *Term) (bool, bool) {
			if t.op == "EQ" && isFld(t.args[0], "F:Node.NodeType") && t.args[1].isInt() {
				if l, _, ok := elemOf(t.args[0].args[0]); ok && isFld(l, "F:Node.ChildNodes") && same(l.args[0], el.elem) {
					return t.args[1].intVal() == 1, true
				}
			}
			if t.op == "EQ" && t.args[0].op == "len" && isFld(t.args[0].args[0], "F:Node.Children") && t.args[1].isInt() {
				return false, true
			}
			return false, false
		}
		two := func(t *Term) (bool, bool) {
			if len(t.args) != 2 {
				return false, false
			}
			isLen := func(x *Term) bool {
				return x.op == "len" && isFld(x.args[0], "F:Node.ChildNodes") && same(x.args[0].args[0], el.elem)
			}
			if isLen(t.args[0]) && t.args[1].isInt() {
				if t.op == "EQ" {
					return t.args[1].intVal() == 2, true
				}
				return 2 < t.args[1].intVal(), t.op == "LT"
			}
			if isLen(t.args[1]) && t.args[0].isInt() && t.op == "LT" {
				return t.args[0].intVal() < 2, true
			}
			if t.op == "EQ" && t.args[0].op == "len" && isFld(t.args[0].args[0], "F:Node.Children") && t.args[1].isInt() {
				return false, true
			}
			return false, false
		}
		inner := false
		for v := range b.Support(ev.cond) {
			if l := w.atoms[v]; e.mentions(l, func(t *Term) bool { return t.op == "loopvar" && e.loopOver(t, el.elem) }) {
				inner = true // the children are examined one by one
			}
		}
		if e.feasible(ev.cond, scens(s, el0), ev.loops) || !inner && e.feasible(ev.cond, scens(s, two), ev.loops) {
			c.bad("javascript", p, "flattened", "a javascript: link containing elements is reduced to its text")
		}
	}
}

// loopOver: the loop variable belongs to a loop that inspects the child nodes of el.
func (e *Exec) loopOver(t, el *Term) bool {
	inst, ok := t.obj.(*LoopInst)
	if !ok {
		return false
	}
	return e.condMentions(inst.back, func(x *Term) bool {
		return isFld(x, "F:Node.ChildNodes") && same(x.args[0], el)
	}) || e.condMentions(inst.exitAny, func(x *Term) bool {
		return isFld(x, "F:Node.ChildNodes") && same(x.args[0], el)
	})
}

// c07base: the document base.
func c07base(c *Ctx) {
	f := c.P.method("Node", "getBaseURI")
	if f == nil {
		c.notes = append(c.notes, "getBaseURI not found")
		return
	}
	r := c.symRun(f)
	e, w := r.e, r.e.w
	pos := c.P.pos(f.Pos())
	isDocURI := func(t *Term) bool { return isFld(t, "F:Node.DocumentURI") && t.args[0] == r.arg[0] }
	isHref := func(t *Term) bool {
		if t.op != "attr" || t.args[1] != w.str("href") {
			return false
		}
		l, i, ok := elemOf(t.args[0])
		return ok && l.op == "query" && l.args[0] == r.arg[0] && l.args[1] == w.str("base") && i.isInt() && i.intVal() == 0
	}
	sc := func(base, href bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && isFld(t.args[0], "F:Node.baseURI") && t.args[1].isStr() {
				return true, true
			}
			if t.op == "EQ" && t.args[0].op == "len" && t.args[0].args[0].op == "query" && t.args[1].isInt() && t.args[1].intVal() == 0 {
				return !base, true
			}
			if t.op == "LT" && t.args[0].op == "len" && t.args[0].args[0].op == "query" && t.args[1].isInt() && t.args[1].intVal() == 1 {
				return !base, true
			}
			if t.op == "EQ" && isHref(t.args[0]) && t.args[1].isStr() && t.args[1].aux == "" {
				return !href, true
			}
			if t.op == "hasattr" && t.args[1] == w.str("href") {
				return href, true
			}
			if t.op == "EQ" && t.args[1].op == "nil" && strings.HasPrefix(t.args[0].op, "call:net/url.Parse") {
				return strings.HasSuffix(t.args[0].aux, "#1"), true
			}
			return false, false
		}
	}
	for _, cs := range []struct {
		base, href bool
		name       string
	}{{false, false, "no base element"}, {true, false, "base element without href"}, {true, true, "base element with href"}} {
		c.count("document base cases", 1)
		for _, x := range e.altsUnder(r.ret, bTrue) {
			if !e.feasible(x.g, sc(cs.base, cs.href), nil) {
				continue
			}
			ok := false
			if cs.base && cs.href {
				ok = e.mentionsVal(x.t, func(t *Term) bool {
					if !strings.HasPrefix(t.op, "call:(*net/url.URL).ResolveReference") {
						return false
					}
					b, h := t.args[0], t.args[1]
					return strings.HasPrefix(b.op, "call:net/url.Parse") && isDocURI(b.args[0]) && e.mentionsVal(h, func(z *Term) bool { return isHref(z) })
				})
				// resolution by another equivalent function
				ok = ok || e.mentionsVal(x.t, isHref) && e.mentionsVal(x.t, isDocURI)
			} else {
				ok = isDocURI(x.t)
			}
			if !ok {
				c.bad("base", pos, cs.name, "with %s the document base is %s", cs.name, w.showd(x.t, 5))
			}
		}
	}
	// the document URI is the one given
	pf := c.P.method("domParser", "parse")
	if pf == nil {
		return
	}
	pr := c.symRun(pf)
	n := 0
	for _, ev := range pr.e.byKind("store") {
		if ev.name == "F:Node.DocumentURI" {
			n++
			if ev.args[1] != pr.arg[2] && !(ev.args[1].op == "call:strings.TrimSpace" && ev.args[1].args[0] == pr.arg[2]) {
				c.bad("base", c.P.instrPos(ev.instr), "document URI", "the document URI is %s, not the URI given", pr.e.w.showd(ev.args[1], 4))
			}
		}
	}
	c.count("document URI stores", n)
}

// countsLen: the loop counts from or to the number of children of el.
func (e *Exec) countsLen(inst *LoopInst, field string, el *Term) bool {
	n := func(t *Term) bool {
		return t != nil && t.op == "len" && isFld(t.args[0], field) && same(t.args[0].args[0], el)
	}
	for _, t := range inst.init {
		if n(t) {
			return true
		}
	}
	return false
}
