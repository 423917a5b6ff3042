package main

import (
	"fmt"
	"regexp"
	"strings"
)

func init() { checks["C16"] = checkC16 }

func checkC16(c *Ctx) {
	c.rule("for each field, with the earlier sources of its order empty and one source not, every path of Parse reports exactly that source, decoded; with all empty the documented fallback")
	c.rule("every meta element with a non-empty content whose property or else name is a known key (any letter case, white space, dots for colons in names) stores its trimmed content under the normalized key, others store nothing")
	c.rule("JSON-LD values get into the result only from scripts of type application/ld+json that parse, with a schema.org context and an article type, and only when JSON-LD is enabled; scripts are read before they are removed")
	r := c.parseRun()
	e, w, b := r.e, r.e.w, r.e.w.b
	_ = b
	// JSON-LD
	var um []*Event
	for _, ev := range e.events {
		if strings.HasPrefix(ev.name, "encoding/json.") {
			um = append(um, ev)
		}
	}
	if len(um) == 0 {
		c.bad("json", "Parse", "json", "no JSON-LD is read")
		return
	}
	loops := map[any]bool{}
	for _, ev := range um {
		for _, l := range ev.loops {
			loops[l] = true
		}
	}
	isJSON := func(t *Term) bool {
		if t.op == "fld" && t.args[0].op == "loopvar" && loops[t.args[0].obj] {
			return true
		}
		return t.op == "json"
	}
	fromJSON := func(t *Term) bool { return e.mentionsVal(t, isJSON) }
	disabled := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if c.isSetting(t, "DisableJSONLD") {
				return v, true
			}
			return false, false
		}
	}
	isKey := func(t *Term, k string) bool {
		return t.op == "lookup" && len(t.args) > 1 && t.args[1].isStr() && (k == "" || t.args[1].aux == k)
	}
	fromMeta := func(t *Term) bool { return isKey(t, "") && !fromJSON(t) }
	bylineFld := ""
	for _, o := range c.okReturns(r) {
		if t := c.resultField(r, o, "Byline"); t != nil {
			e.mentionsVal(t, func(x *Term) bool {
				if x.op == "fld" && strings.HasPrefix(x.aux, "F:Readability.") && x.typ != nil && x.typ.String() == "string" {
					bylineFld = x.aux
				}
				return false
			})
		}
	}
	orders := []struct {
		field string
		json  bool
		keys  []string
	}{
		{"Title", true, []string{"dc:title", "dcterm:title", "og:title", "weibo:article:title", "weibo:webpage:title", "title", "twitter:title"}},
		{"Byline", true, []string{"dc:creator", "dcterm:creator", "author"}},
		{"Excerpt", true, []string{"dc:description", "dcterm:description", "og:description", "weibo:article:description", "weibo:webpage:description", "description", "twitter:description"}},
		{"SiteName", true, []string{"og:site_name"}},
		{"PublishedTime", true, []string{"article:published_time"}},
	}
	var theMap *Term
	for _, o := range orders {
		known := map[string]bool{}
		for _, k := range o.keys {
			known[k] = true
		}
		for _, ok := range c.okReturns(r) {
			v := c.resultField(r, ok, o.field)
			if v == nil {
				c.bad("order", "Result", o.field, "the result has no %s", o.field)
				continue
			}
			pos := c.P.instrPos(ok.rec.instr)
			// which sources there are
			e.mentionsVal(v, func(t *Term) bool {
				if fromMeta(t) && isKey(t, "") {
					theMap = t.args[0]
					if !known[t.args[1].aux] {
						c.bad("order", pos, o.field+" "+t.args[1].aux, "%s may come from the meta tag %s", o.field, t.args[1].aux)
					}
				}
				return false
			})
			for src := -1; src <= len(o.keys); src++ {
				for _, off := range []bool{false, true} {
					if src == -1 && off {
						continue
					}
					c.count("source choices checked", 1)
					var sc Scen
					src := src
					empt := func(x *Term) (bool, bool) {
						if x.isStr() {
							return x.aux == "", true
						}
						if x.op == "fld" && isJSON(x) || x.op == "call:strings.TrimSpace" && fromJSON(x) {
							return src != -1, true
						}
						for i, k := range o.keys {
							if isKey(x, k) && !fromJSON(x) {
								switch {
								case i < src:
									return true, true
								case i == src:
									return false, true
								}
								return false, false
							}
						}
						return false, false
					}
					base := func(t *Term) (bool, bool) {
						if t.op != "EQ" {
							return false, false
						}
						x, y := t.args[0], t.args[1]
						if y.op == "nil" && x.op == "loopvar" && loops[x.obj] && src == -1 {
							return false, true
						}
						if !y.isStr() || y.aux != "" {
							return false, false
						}
						return empt(x)
					}
					first := scens(base, disabled(off))
					sc = scens(first, func(t *Term) (bool, bool) {
						if t.op == "EQ" && t.args[0].op == "decoded" && t.args[1].isStr() && t.args[1].aux == "" {
							r := -1
							for _, x := range e.scenAlts(t.args[0].args[0], bTrue, first, nil) {
								z := 0
								if v, ok := empt(x.t); !ok {
									z = 2
								} else if v {
									z = 1
								}
								if r >= 0 && r != z {
									z = 2
								}
								r = z
							}
							if r == 0 || r == 1 {
								return r == 1, true
							}
						}
						return false, false
					})
					what := "all of them empty"
					if src == -1 {
						what = "a JSON-LD value"
					} else if src < len(o.keys) {
						what = "the meta tag " + o.keys[src]
					}
					for _, x := range e.scenAlts(v, ok.cond, sc, nil) {
						t := x.t
						dec := t.op == "decoded"
						for t.op == "decoded" {
							t = t.args[0]
						}
						for _, y := range e.scenAlts(t, x.g, sc, nil) {
							key := fmt.Sprintf("%s %d", o.field, src)
							switch {
							case src == -1:
								if !fromJSON(y.t) {
									c.bad("order", pos, key, "%s is %s although there is a JSON-LD value", o.field, w.showd(y.t, 4))
								} else if !dec {
									c.bad("decoded", pos, o.field, "%s is reported without decoding", o.field)
								}
							case src < len(o.keys):
								if !isKey(y.t, o.keys[src]) {
									c.bad("order", pos, key, "%s is %s although the first non-empty source is %s", o.field, w.showd(y.t, 4), what)
								} else if !dec {
									c.bad("decoded", pos, o.field, "%s is reported without decoding", o.field)
								}
							default:
								if em, ok := empt(y.t); em && ok && o.field != "Title" && o.field != "Excerpt" {
									continue
								}
								good := false
								switch o.field {
								case "Title":
									good = !e.mentionsVal(y.t, fromMeta) && !fromJSON(y.t) && !y.t.isStr()
								case "Byline", "SiteName":
									good = y.t == w.str("") || y.t.op == "fld" && strings.HasPrefix(y.t.aux, "F:Readability.")
								case "PublishedTime":
									good = y.t == w.str("")
								case "Excerpt":
									good = y.t == w.str("") && !e.feasible(y.g, somePara, nil) || c16para(y.t)
								}
								if !good {
									c.bad("fallback", pos, o.field, "%s without any of its sources is %s", o.field, w.showd(y.t, 5))
								}
							}
						}
					}
				}
			}
			if o.field == "Title" && !e.mentionsVal(v, func(t *Term) bool {
				return t.op == "query" && t.args[1].isStr() && t.args[1].aux == "title" || t.op == "fld" && strings.HasPrefix(t.aux, "F:Node.") && strings.EqualFold(t.aux[7:], "title")
			}) {
				c.bad("fallback", pos, "Title", "the title does not fall back to the document title")
			}
			if o.field == "Byline" && bylineFld == "" {
				c.bad("fallback", pos, "Byline", "the byline does not fall back to the one found in the content")
			}
		}
	}
	if theMap == nil {
		c.bad("order", "Parse", "meta", "no meta tags get into the result")
		return
	}
	c16meta(c, r, theMap)
	c16json(c, r, um, fromJSON, disabled)
}

// scenAlts: the alternatives of a value that are possible in a scenario.
func (e *Exec) scenAlts(t *Term, cond int, s Scen, in []*LoopInst) []alt {
	var out []alt
	var rec func(t *Term, c int)
	rec = func(t *Term, c int) {
		if t.op != "ite" {
			out = append(out, alt{c, t})
			return
		}
		for i, a := range t.args {
			x := e.assume(e.w.b.And(c, t.bs[i]), s)
			if x != bFalse && e.feasible(x, s, in) {
				rec(a, x)
			}
		}
	}
	rec(t, e.assume(cond, s))
	return out
}

func somePara(t *Term) (bool, bool) {
	if t.op == "EQ" && t.args[0].op == "len" && t.args[0].args[0].op == "query" && t.args[0].args[0].args[1].aux == "p" && t.args[1].isInt() {
		return t.args[1].intVal() == 7, true
	}
	if t.op == "LT" && t.args[1].op == "len" && t.args[1].args[0].op == "query" && t.args[1].args[0].args[1].aux == "p" && t.args[0].isInt() {
		return t.args[0].intVal() < 7, true
	}
	return false, false
}

// c16para: the trimmed text of the first paragraph.
func c16para(t *Term) bool {
	if t.op != "call:strings.TrimSpace" || t.args[0].op != "text" {
		return false
	}
	l, i, ok := elemOf(t.args[0].args[0])
	return ok && i.isInt() && i.intVal() == 0 && l.op == "query" && l.args[1].isStr() && l.args[1].aux == "p"
}

func c16meta(c *Ctx, r *run, m *Term) {
	e, b := r.e, r.e.w.b
	var ups []*Event
	for _, ev := range e.byKind("mapupd") {
		if same(ev.args[0], m) {
			ups = append(ups, ev)
		}
	}
	if len(ups) == 0 {
		c.bad("meta", "Parse", "none", "meta tags are not collected")
		return
	}
	pos := c.P.instrPos(ups[0].instr)
	// the element
	var elem *Term
	for _, ev := range ups {
		e.mentionsVal(ev.args[2], func(t *Term) bool {
			if t.op == "attr" && t.args[1].isStr() && t.args[1].aux == "content" {
				elem = t.args[0]
			}
			return false
		})
	}
	if elem == nil {
		c.bad("meta", pos, "content", "what is collected is not the content of meta elements")
		return
	}
	list, idx, ok := elemOf(elem)
	if !ok || list.op != "query" || list.args[1].aux != "meta" {
		c.bad("meta", pos, "elements", "the contents are not collected from the meta elements of the document")
		return
	}
	inst, inRange, why := e.coverage(list, idx)
	if inst == nil || why != "" {
		c.bad("meta", pos, "all", "not all meta elements are looked at: %s", why)
		if inst == nil {
			return
		}
	}
	for _, o := range c.okReturns(r) {
		if ok, cex := e.entails(o.cond, inst.entry, nil, nil); !ok {
			c.bad("meta", pos, "always", "a result is returned without looking at the meta elements when %s", cex)
		}
	}
	in := append(append([]*LoopInst(nil), inst.outer...), inst)
	env := func(prop, name, content string) strEnv {
		return func(t *Term) (string, bool) {
			if t.op == "attr" && same(t.args[0], elem) && t.args[1].isStr() {
				switch t.args[1].aux {
				case "property":
					return prop, true
				case "name":
					return name, true
				case "content":
					return content, true
				}
			}
			return "", false
		}
	}
	has := func(prop, name string) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "hasattr" && same(t.args[0], elem) && t.args[1].isStr() {
				switch t.args[1].aux {
				case "property":
					return prop != "", true
				case "name":
					return name != "", true
				case "content":
					return true, true
				}
			}
			return false, false
		}
	}
	try := func(prop, name, content, want, what string) {
		c.count("meta tag spellings checked", 1)
		en := env(prop, name, content)
		sc := scens(e.foldScen(en), has(prop, name))
		got := bFalse
		for _, ev := range ups {
			if !e.feasible(ev.cond, sc, in) {
				continue
			}
			k, ok1 := e.foldStr(ev.args[1], en, sc)
			v, ok2 := e.foldStr(ev.args[2], en, sc)
			if !ok1 || !ok2 {
				c.notes = append(c.notes, "key or value of a collected meta tag has an unknown form: undecided")
				return
			}
			if want == "" {
				c.bad("meta", pos, what, "%s is collected as %q", what, k)
				continue
			}
			if k != want {
				c.bad("meta", pos, "key "+what, "%s is collected as %q instead of %q", what, k, want)
				continue
			}
			if v != strings.TrimSpace(content) {
				c.bad("meta", pos, "value", "the content %q is collected as %q", content, v)
			}
			got = b.Or(got, ev.cond)
		}
		if want == "" {
			return
		}
		if ok, cex := e.entails(b.And(inst.entry, inRange), got, sc, in); !ok {
			c.bad("meta", pos, "missed "+what, "%s is not collected as %q when %s", what, want, cex)
		}
	}
	spell := func(k string) []string {
		i := strings.LastIndex(k, ":")
		out := []string{k, strings.ToUpper(k), " " + k + "\t"}
		if i > 0 {
			out = append(out, k[:i]+" : "+k[i+1:], strings.ToUpper(k[:1])+k[1:i]+":\n"+strings.ToUpper(k[i+1:i+2])+k[i+2:])
		}
		return out
	}
	props := []string{"dc:title", "dcterm:title", "og:title", "twitter:title", "dc:creator", "dcterm:creator", "dc:description", "dcterm:description", "og:description", "twitter:description", "og:site_name", "article:published_time"}
	names := []string{"dc:title", "dcterm:title", "og:title", "twitter:title", "weibo:article:title", "weibo:webpage:title", "title", "dc:creator", "dcterm:creator", "author", "dc:description", "dcterm:description", "og:description", "twitter:description", "weibo:article:description", "weibo:webpage:description", "description", "og:site_name"}
	for _, k := range props {
		for _, s := range spell(k) {
			try(s, "", " v  w ", k, fmt.Sprintf("a meta element with property %q", s))
		}
		try(k, "viewport", "v", k, fmt.Sprintf("a meta element with property %q and another name", k))
	}
	for _, k := range names {
		for _, s := range spell(k) {
			try("", s, " v  w ", k, fmt.Sprintf("a meta element with name %q", s))
			if i := strings.LastIndex(s, ":"); i >= 0 {
				d := s[:i] + "." + s[i+1:]
				try("", d, "v", k, fmt.Sprintf("a meta element with name %q", d))
			}
		}
		try("fb:app_id", k, "v", k, fmt.Sprintf("a meta element with an unknown property and name %q", k))
	}
	for _, s := range []string{"", "viewport", "titles", "og:title2", "my description", "subtitle"} {
		try("", s, "v", "", fmt.Sprintf("a meta element with name %q", s))
	}
	try("og:title", "", "", "", "a meta element without content")
	try("", "title", "", "", "a named meta element without content")
	try("fb:app_id", "viewport", "v", "", "a meta element with unknown property and name")
}

func c16json(c *Ctx, r *run, um []*Event, fromJSON func(*Term) bool, disabled func(bool) Scen) {
	e, w, b := r.e, r.e.w, r.e.w.b
	ev := um[0]
	pos := c.P.instrPos(ev.instr)
	if len(um) != 1 || len(ev.loops) == 0 {
		c.notes = append(c.notes, "JSON-LD is read in an unknown way: undecided")
		return
	}
	// the script
	var elem *Term
	for _, a := range ev.args {
		e.mentionsVal(a, func(t *Term) bool {
			if t.op == "text" || t.op == "html" {
				elem = t.args[0]
			}
			return false
		})
	}
	if elem == nil {
		c.notes = append(c.notes, "the text parsed as JSON-LD has an unknown form: undecided")
		return
	}
	list, idx, ok := elemOf(elem)
	if !ok || list.op != "query" || list.args[1].aux != "script" {
		c.bad("json", pos, "scripts", "JSON-LD is not read from the script elements")
		return
	}
	inst, inRange, why := e.coverage(list, idx)
	if inst == nil || why != "" && why != "early-exit" {
		c.bad("json", pos, "all", "not all script elements are looked at for JSON-LD: %s", why)
		return
	}
	in := append(append([]*LoopInst(nil), inst.outer...), inst)
	for _, rm := range e.prims("RemoveChild") {
		if l, _, ok := elemOf(rm.args[1]); ok && rm.seq < inst.seq0 && e.feasible(rm.cond, disabled(false), rm.loops) {
			for _, p := range listParts(l) {
				if p.op == "query" && p.args[1].isStr() && p.args[1].aux == "script" {
					c.bad("json", c.P.instrPos(rm.instr), "removed", "scripts are removed before JSON-LD is read from them")
				}
			}
		}
	}
	// what is taken from it
	type taken struct {
		ev   *Event
		key  string
		cond int
	}
	var tk []taken
	for _, s := range e.byKind("store") {
		if !inLoop(s, inst) || len(s.args) != 2 || !strings.HasPrefix(s.name, "F:") || strings.HasPrefix(s.name, "F:Node.") {
			continue
		}
		x := s.args[1]
		if x.typ != nil && x.typ.String() != "string" {
			continue
		}
		if x.op == "call:strings.Join" {
			tk = append(tk, taken{s, "author", s.cond})
			continue
		}
		if !fromJSON(x) {
			continue
		}
		for _, al := range e.altsUnder(x, s.cond, s.loops...) {
			t := al.t
			if t.op != "call:strings.TrimSpace" {
				if !t.isStr() {
					c.bad("trimmed", c.P.instrPos(s.instr), s.name, "a JSON-LD value is not trimmed: %s", w.showd(t, 4))
				}
			}
			k := ""
			e.mentionsVal(t, func(z *Term) bool {
				if z.op == "lookup" && z.args[1].isStr() && k == "" {
					k = z.args[1].aux
					if k == "name" {
						// the name of an object that is itself a value
						e.mentionsVal(z.args[0], func(y *Term) bool {
							if y.op == "lookup" && y.args[1].isStr() && (y.args[1].aux == "publisher" || y.args[1].aux == "author") {
								k = y.args[1].aux
								return true
							}
							return false
						})
					}
				}
				return false
			})
			tk = append(tk, taken{s, k, al.g})
		}
	}
	if len(tk) == 0 {
		c.bad("json", pos, "taken", "nothing is taken from JSON-LD")
		return
	}
	typ := func(v string) Scen {
		return scens(attrScen(elem, "type", v != "", v), e.foldScen(func(t *Term) (string, bool) {
			if t.op == "attr" && same(t.args[0], elem) && t.args[1].isStr() && t.args[1].aux == "type" {
				return v, true
			}
			return "", false
		}))
	}
	schema := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if p, s, ok := reMatch(t); ok && patHas(p, "schema") && fromJSON(s) {
				return v, true
			}
			return false, false
		}
	}
	isArtPat := func(p string) bool { return patHas(p, "article", "newsarticle", "blogposting") }
	article := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if p, s, ok := reMatch(t); ok && isArtPat(p) && fromJSON(s) {
				return v, true
			}
			return false, false
		}
	}
	nSchema, nArt := 0, 0
	for _, a := range e.liveAtoms() {
		if _, ok := schema(true)(a); ok {
			nSchema++
			p, _, _ := reMatch(a)
			if re, err := regexp.Compile(p); err == nil {
				for _, x := range []string{"http://schema.org", "https://schema.org", "http://schema.org/", "https://schema.org/"} {
					if !re.MatchString(x) {
						c.bad("json", pos, "context "+x, "JSON-LD with the context %s is not recognised", x)
					}
				}
				for _, x := range []string{"https://schema.org.example.com/", "https://example.com/?https://schema.org/", "https://schemaXorg/", "schema.example.org"} {
					if re.MatchString(x) {
						c.bad("json", pos, "context", "JSON-LD with the context %s passes for schema.org", x)
						break
					}
				}
			}
		}
		if _, ok := article(true)(a); ok {
			nArt++
			_, s, _ := reMatch(a)
			if !e.mentionsVal(s, func(t *Term) bool { return t.op == "lookup" && t.args[1].isStr() && t.args[1].aux == "@type" }) {
				c.bad("json", pos, "type key", "the article type is not that given as @type")
			}
		}
	}
	if nSchema == 0 {
		c.bad("json", pos, "context", "JSON-LD is used without looking at its context")
	}
	if nArt == 0 {
		c.bad("json", pos, "type", "JSON-LD is used without looking at its type")
	}
	parsed := func(v bool) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].op == "nil" && t.args[0] == ev.res {
				return v, true
			}
			return false, false
		}
	}
	okAll := scens(disabled(false), typ("application/ld+json"), schema(true), article(true), parsed(true))
	for _, t := range tk {
		for _, x := range []struct {
			what string
			s    Scen
		}{
			{"although it is disabled", disabled(true)},
			{"from a script of another type", typ("text/javascript")},
			{"from a script of type application/json", typ("application/json")},
			{"from a script of type text/json", typ("text/json")},
			{"from a script without type", typ("")},
			{"from a script that does not parse", parsed(false)},
			{"without a schema.org context", schema(false)},
			{"without an article type", article(false)},
		} {
			c.count("JSON-LD gates checked", 1)
			if e.feasible(t.cond, scens(x.s, okAll), in) {
				c.bad("json", c.P.instrPos(t.ev.instr), x.what, "the JSON-LD value %s is used %s", t.key, x.what)
			}
		}
	}
	// what is there is used
	str := func(key string) Scen {
		return func(t *Term) (bool, bool) {
			has := func(x *Term, k string) bool {
				return x.op == "lookup" && x.args[1].isStr() && x.args[1].aux == k && fromJSON(x)
			}
			switch t.op {
			case "TASSERTOK":
				x := t.args[0]
				switch {
				case has(x, "@context"), has(x, "@type"):
					return t.aux == "string", true
				case has(x, key) && (key == "author" || key == "publisher"):
					return strings.HasPrefix(t.aux, "map["), true
				case has(x, key), has(x, "name"):
					return t.aux == "string", true
				}
			case "lookupok":
				if t.args[1].isStr() && (t.args[1].aux == key || t.args[1].aux == "@type" || t.args[1].aux == "@context") {
					return true, true
				}
				if t.args[1].isStr() && t.args[1].aux == "name" && key != "headline" {
					return true, true
				}
				if t.args[1].isStr() && t.args[1].aux == "@graph" {
					return false, true
				}
			case "EQ":
				if t.args[1].op == "nil" && t.args[0].op == "loopvar" && t.args[0].obj == inst {
					return true, true
				}
				if t.args[1].op == "nil" && t.args[0].op == "lookup" && t.args[0].args[1].isStr() && t.args[0].args[1].aux == "@graph" {
					return true, true
				}
			}
			return false, false
		}
	}
	for _, k := range []string{"name", "description", "datePublished", "publisher", "author"} {
		c.count("JSON-LD values checked", 1)
		got := bFalse
		n := 0
		for _, t := range tk {
			if t.key == k || k == "name" && t.key == "headline" {
				got = b.Or(got, t.cond)
				n++
			}
		}
		if n == 0 {
			c.bad("json", pos, "value "+k, "the %s in JSON-LD is not used", k)
			continue
		}
		if good, cex := e.entails(b.And(inst.entry, inRange), got, scens(str(k), okAll), in); !good {
			c.bad("json", pos, "value "+k, "the %s in JSON-LD is not used when %s", k, cex)
		}
	}
}
