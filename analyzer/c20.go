package main

import (
	"go/types"
	"strings"
)

func init() { checks["C20"] = checkC20 }

func checkC20(c *Ctx) {
	c.rule("after every step of the command that can fail (fetch, read, build, extract), each path on which its error is not nil ends in an exit with a non-zero status, with the error printed before, and reaches no use of the step's result")
	c.rule("without URL the command exits with a non-zero status before fetching")
	c.rule("when every step succeeds exactly the HTML (output html) or the text (any other output) of the result is printed, nothing else")
	c.rule("both spellings of each flag are bound to the variable that decides; unless verbose, the default logger is replaced by one that discards before the library is called")
	if c.P.main == nil || c.P.main.Func("main") == nil {
		c.bad("main", "cmd", "main", "there is no command")
		return
	}
	r := c.exec(c.P.main.Func("main"), true, func(e *Exec, st *State, as []*Term) { e.opaque = true })
	e, w, b := r.e, r.e.w, r.e.w.b
	type step struct {
		ev    *Event
		what  string
		val   *Term
		err   *Term
		fails Scen
	}
	var steps []step
	have := map[string]bool{}
	for _, ev := range e.events {
		if ev.kind != "ext" || ev.res == nil || ev.res.op != "tuple" {
			continue
		}
		n := len(ev.res.args)
		er := ev.res.args[n-1]
		if er.typ == nil || !types.Identical(er.typ, types.Universe.Lookup("error").Type()) {
			continue
		}
		what := ""
		switch {
		case strings.HasPrefix(ev.name, "net/http.") || strings.HasPrefix(ev.name, "(*net/http.Client)"):
			what = "fetching"
		case strings.HasPrefix(ev.name, "io.") && strings.Contains(ev.name, "Read") || strings.HasPrefix(ev.name, "io.Copy") || strings.HasPrefix(ev.name, "io/ioutil.ReadAll") || strings.HasPrefix(ev.name, "(*bytes.Buffer).ReadFrom"):
			what = "reading"
		case ev.name == "lib:New":
			what = "building the parser"
		case ev.name == "lib:Parse":
			what = "extracting"
		default:
			continue
		}
		have[what] = true
		err := er
		steps = append(steps, step{ev, what, ev.res.args[0], err, func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[0] == err && t.args[1].op == "nil" {
				return false, true
			}
			return false, false
		}})
	}
	for _, s := range []string{"fetching", "building the parser", "extracting"} {
		if !have[s] {
			c.bad("steps", "main", s, "the command has no step %s", s)
			return
		}
	}
	bad, any := bFalse, bFalse
	for _, ev := range e.byKind("exit") {
		any = b.Or(any, ev.cond)
		if ev.name != "os.Exit" || ev.args[0].isInt() && ev.args[0].intVal()&255 != 0 {
			bad = b.Or(bad, ev.cond)
		}
	}
	printed := func(ev *Event) bool {
		n := ev.name
		return ev.kind == "ext" && (strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || strings.HasPrefix(n, "(*os.File).Write") || strings.HasPrefix(n, "log.Print") || n == "builtin:print" || n == "builtin:println") ||
			ev.kind == "exit" && strings.HasPrefix(n, "log.")
	}
	toStdout := func(ev *Event) bool {
		if !printed(ev) || ev.kind == "exit" || strings.HasPrefix(ev.name, "log.") || strings.HasPrefix(ev.name, "builtin:") {
			return false
		}
		if strings.HasPrefix(ev.name, "fmt.Print") {
			return true
		}
		return len(ev.args) > 0 && e.mentionsVal(ev.args[0], func(t *Term) bool { return t.op == "gload" && t.aux == "os.Stdout" })
	}
	errT := types.Universe.Lookup("error").Type()
	// what an event is given in a situation
	given := func(ev *Event, sc Scen, f func(*Term) bool) int {
		g := bFalse
		var rec func(t *Term, c int)
		rec = func(t *Term, c int) {
			if isMem(t) {
				return
			}
			if f(t) {
				g = b.Or(g, c)
				return
			}
			if t.typ != nil && types.Identical(t.typ, errT) && t.op != "ite" && t.op != "iface" {
				return // an error mentions all arguments of its call
			}
			for i, a := range t.args {
				x := c
				if t.op == "ite" {
					x = e.assume(b.And(c, t.bs[i]), sc)
					if x == bFalse || !e.feasible(x, sc, ev.loops) {
						continue
					}
				}
				rec(a, x)
			}
		}
		c := e.assume(ev.cond, sc)
		if c == bFalse || !e.feasible(c, sc, ev.loops) {
			return bFalse
		}
		for _, a := range ev.args {
			rec(a, c)
		}
		return g
	}
	says := func(ev *Event, x *Term, sc Scen) bool {
		return given(ev, sc, func(t *Term) bool { return t == x }) != bFalse
	}
	contentIf := func(ev *Event, f string, sc Scen) int {
		return given(ev, sc, func(t *Term) bool { return isFld(t, "F:Result."+f) })
	}
	content := func(ev *Event, f string) bool { return contentIf(ev, f, nil) != bFalse }
	for _, s := range steps {
		c.count("failing steps checked", 1)
		pos := c.P.instrPos(s.ev.instr)
		if ok, cex := e.entails(s.ev.cond, bad, s.fails, s.ev.loops); !ok {
			c.bad("exit", pos, s.what, "the command does not exit with a non-zero status when %s fails and %s", s.what, cex)
		}
		msg := bFalse
		for _, ev := range e.events {
			if printed(ev) {
				msg = b.Or(msg, given(ev, s.fails, func(t *Term) bool { return t == s.err }))
			}
		}
		if ok, cex := e.entails(s.ev.cond, msg, s.fails, s.ev.loops); !ok {
			c.bad("message", pos, s.what, "the error of %s is not printed when %s", s.what, cex)
		}
		for _, ev := range e.events {
			if ev.seq <= s.ev.seq || ev.kind != "ob" && ev.kind != "ext" && ev.kind != "dyn" {
				continue
			}
			if says(ev, s.val, s.fails) {
				c.bad("use", c.P.instrPos(ev.instr), s.what, "the result of %s is used although it failed", s.what)
			}
		}
		c.samplef("%s: %s", pos, s.what)
	}
	// no url
	isArg := func(t *Term) bool {
		return t.op == "call:flag.Arg" && t.args[0].isInt() && t.args[0].intVal() == 0 || t.op == "idx" && t.args[0].op == "call:flag.Args" && t.args[1].isInt() && t.args[1].intVal() == 0
	}
	nArgs := func(t *Term) bool {
		return t.op == "call:flag.NArg" || t.op == "len" && t.args[0].op == "call:flag.Args"
	}
	url := func(n int64) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && isArg(t.args[0]) && t.args[1].isStr() && t.args[1].aux == "" {
				return n == 0, true
			}
			if t.op == "EQ" && nArgs(t.args[0]) && t.args[1].isInt() {
				return n == t.args[1].intVal(), true
			}
			if t.op == "LT" && nArgs(t.args[0]) && t.args[1].isInt() {
				return n < t.args[1].intVal(), true
			}
			if t.op == "LT" && nArgs(t.args[1]) && t.args[0].isInt() {
				return t.args[0].intVal() < n, true
			}
			return false, false
		}
	}
	known := false
	for _, a := range e.liveAtoms() {
		if _, ok := url(0)(a); ok {
			known = true
		}
	}
	for _, s := range steps {
		if e.feasible(s.ev.cond, url(0), s.ev.loops) {
			c.bad("url", c.P.instrPos(s.ev.instr), s.what, "%s is done without a URL", s.what)
		}
		if s.what == "fetching" {
			arg := false
			for _, a := range s.ev.args {
				arg = arg || e.mentionsVal(a, isArg)
			}
			if known && !arg {
				c.bad("url", c.P.instrPos(s.ev.instr), "argument", "what is fetched is not the URL given")
			}
		}
	}
	if ok, cex := e.entails(bTrue, bad, url(0), nil); !ok {
		c.bad("url", "main", "exit", "the command does not exit with a non-zero status without a URL when %s", cex)
	}
	// flags
	addr := map[string]*Term{}
	parsed := -1
	for _, ev := range e.events {
		if ev.kind != "ext" {
			continue
		}
		switch {
		case ev.name == "flag.StringVar" || ev.name == "flag.BoolVar":
			if ev.args[1].isStr() && e.feasible(b.Not(ev.cond), nil, nil) == false {
				addr[ev.args[1].aux] = ev.args[0]
				switch n := ev.args[1].aux; n {
				case "output", "o":
					if ev.args[2].isStr() && ev.args[2].aux == "html" {
						c.bad("flags", c.P.instrPos(ev.instr), n, "the default output is html")
					}
				case "verbose", "v":
					if ev.args[2] == w.boolConst(true) {
						c.bad("flags", c.P.instrPos(ev.instr), n, "verbose is on by default")
					}
				}
			}
		case ev.name == "flag.String" || ev.name == "flag.Bool":
			if ev.args[0].isStr() {
				addr[ev.args[0].aux] = ev.res
			}
		case ev.name == "flag.Parse":
			parsed = e.flagTid
		}
	}
	if len(addr) == 0 {
		c.notes = append(c.notes, "the flags are read in an unknown way: undecided")
		return
	}
	if parsed < 0 {
		c.bad("flags", "main", "parse", "the command line is not parsed")
		return
	}
	for _, n := range []string{"output", "o", "verbose", "v"} {
		if addr[n] == nil {
			c.bad("flags", "main", n, "there is no flag -%s", n)
		}
	}
	at := func(t *Term, n string) bool {
		a := addr[n]
		if a == nil {
			return false
		}
		if n := len(t.args); n == 0 || t.args[n-1].id < parsed {
			return false // read before the command line was
		}
		switch t.op {
		case "gload":
			return a.op == "gaddr" && a.aux == t.aux
		case "cell", "deref":
			return t.args[0] == a
		}
		return false
	}
	// any of the two variables, if the flags have separate ones
	out := func(v map[string]string) Scen {
		return func(t *Term) (bool, bool) {
			if t.op == "EQ" && t.args[1].isStr() {
				x, f := t.args[0], func(s string) string { return s }
				for x.op == "call:strings.ToLower" || x.op == "call:strings.TrimSpace" {
					if x.op == "call:strings.ToLower" {
						f = strings.ToLower
					}
					x = x.args[0]
				}
				for n, s := range v {
					if at(x, n) {
						return f(s) == t.args[1].aux, true
					}
				}
			}
			return false, false
		}
	}
	verb := func(v map[string]bool) Scen {
		return func(t *Term) (bool, bool) {
			for n, s := range v {
				if at(t, n) {
					return s, true
				}
			}
			return false, false
		}
	}
	outs, verbs := false, false
	for _, a := range e.liveAtoms() {
		if _, ok := out(map[string]string{"output": "", "o": ""})(a); ok {
			outs = true
		}
		if _, ok := verb(map[string]bool{"verbose": true, "v": true})(a); ok {
			verbs = true
		}
	}
	ok := func(t *Term) (bool, bool) {
		for _, s := range steps {
			if t.op == "EQ" && t.args[0] == s.err && t.args[1].op == "nil" {
				return true, true
			}
		}
		return false, false
	}
	good := scens(ok, url(1))
	cond := func(f string) int {
		x := bFalse
		for _, ev := range e.events {
			if printed(ev) {
				x = b.Or(x, contentIf(ev, f, nil))
			}
		}
		return x
	}
	htm, txt := cond("HTMLContent"), cond("TextContent")
	if htm == bFalse || txt == bFalse {
		c.bad("output", "main", "formats", "the command does not print both formats")
	}
	same := addr["output"] == addr["o"]
	type of struct {
		v    map[string]string
		html bool
		what string
	}
	var cases []of
	if same {
		cases = []of{
			{map[string]string{"output": "html", "o": "html"}, true, "html"},
			{map[string]string{"output": "text", "o": "text"}, false, "text"},
			{map[string]string{"output": "", "o": ""}, false, "empty"},
			{map[string]string{"output": "xhtml", "o": "xhtml"}, false, "anything else"},
		}
	} else {
		cases = []of{
			{map[string]string{"output": "html", "o": "text"}, true, "html (-output)"},
			{map[string]string{"output": "text", "o": "html"}, true, "html (-o)"},
			{map[string]string{"output": "text", "o": "text"}, false, "text"},
		}
	}
	if !outs {
		c.bad("output", "main", "unused", "the output flag decides nothing")
	}
	for _, x := range cases {
		c.count("output formats checked", 1)
		sc := scens(good, out(x.v))
		want, other, name := txt, htm, "text"
		if x.html {
			want, other, name = htm, txt, "HTML"
		}
		if ok, cex := e.entails(bTrue, want, sc, nil); !ok {
			c.bad("output", "main", x.what, "with output %s the %s of the article is not printed when %s", x.what, name, cex)
		}
		if e.feasible(other, sc, nil) {
			c.bad("output", "main", "other "+x.what, "with output %s not only the %s of the article is printed", x.what, name)
		}
	}
	seen := bFalse
	for _, ev := range e.events {
		if !printed(ev) || !e.feasible(ev.cond, good, ev.loops) {
			continue
		}
		isC := content(ev, "HTMLContent") || content(ev, "TextContent")
		if toStdout(ev) {
			c.count("outputs on success checked", 1)
			if !isC {
				c.bad("output", c.P.instrPos(ev.instr), "extra", "something else than the article is printed although all steps succeeded")
				continue
			}
			if strings.HasSuffix(ev.name, "rintf") {
				for _, a := range ev.args {
					if a.op != "slicelit" && e.mentionsVal(a, func(t *Term) bool { return isFld(t, "F:Result.HTMLContent") || isFld(t, "F:Result.TextContent") }) {
						c.bad("output", c.P.instrPos(ev.instr), "format", "the article is used as a format")
					}
				}
			}
			if len(ev.loops) > 0 || e.feasible(b.And(seen, ev.cond), good, nil) {
				c.bad("output", c.P.instrPos(ev.instr), "twice", "the article may be printed more than once")
			}
			seen = b.Or(seen, ev.cond)
		} else if isC {
			c.bad("output", c.P.instrPos(ev.instr), "stdout", "the article is not printed to the standard output")
		}
	}
	if e.feasible(any, good, nil) {
		for _, ev := range e.byKind("exit") {
			if !(ev.name == "os.Exit" && ev.args[0].isInt() && ev.args[0].intVal() == 0) && e.feasible(ev.cond, good, nil) {
				c.bad("exit", c.P.instrPos(ev.instr), "success", "the command exits with a non-zero status although all steps succeeded")
			}
		}
	}
	// logs
	if !verbs {
		c.bad("logs", "main", "unused", "the verbose flag decides nothing")
		return
	}
	quiet := bFalse
	var evs []*Event
	for _, ev := range e.events {
		if ev.name == "log/slog.SetDefault" && ev.kind == "ext" {
			disc := false
			for _, a := range ev.args {
				disc = disc || e.mentionsVal(a, func(t *Term) bool {
					return t.op == "gload" && (t.aux == "io.Discard" || t.aux == "io/ioutil.Discard" || t.aux == "log/slog.DiscardHandler")
				})
			}
			if disc {
				quiet = b.Or(quiet, ev.cond)
				evs = append(evs, ev)
			} else if e.feasible(ev.cond, verb(map[string]bool{"verbose": false, "v": false}), ev.loops) {
				c.bad("logs", c.P.instrPos(ev.instr), "logger", "a logger that does not discard is installed although verbose is not set")
			}
		}
	}
	c.count("verbosity settings checked", 2)
	for _, s := range steps {
		if !strings.HasPrefix(s.ev.name, "lib:") {
			continue
		}
		q := bFalse
		for _, ev := range evs {
			if ev.seq < s.ev.seq {
				q = b.Or(q, ev.cond)
			}
		}
		if ok, cex := e.entails(s.ev.cond, q, verb(map[string]bool{"verbose": false, "v": false}), s.ev.loops); !ok {
			c.bad("logs", c.P.instrPos(s.ev.instr), "not discarded", "logs are written by %s although verbose is not set when %s", s.what, cex)
		}
	}
	vs := []map[string]bool{{"verbose": true, "v": true}}
	if addr["verbose"] != addr["v"] {
		vs = []map[string]bool{{"verbose": true, "v": false}, {"verbose": false, "v": true}}
	}
	for _, v := range vs {
		if e.feasible(quiet, verb(v), nil) {
			c.bad("logs", "main", "verbose", "logs are discarded although verbose is set")
		}
	}
}
