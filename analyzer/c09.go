package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: effects on the world outside the returned values.

var deniedPkgs = []string{
	"os", "net", "syscall", "io/ioutil", "io/fs", "log", "log/syslog", "plugin", "embed", "testing", "expvar", "flag", "runtime", "runtime/debug", "runtime/pprof", "runtime/trace",
	"database/sql", "os/exec", "os/signal", "os/user", "net/http", "net/rpc", "net/smtp", "net/textproto", "net/mail", "crypto/tls", "crypto/rand", "unsafe", "path/filepath", "golang.org/x/sys", "debug",
	"html/template", "text/template", "archive", "compress", "internal",
}

var allowedIn = map[string]bool{
	"net/url": true, "net/netip": true, "net/textproto.CanonicalMIMEHeaderKey": true,
	"path/filepath.Base": true, "path/filepath.Ext": true, "path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.Dir": true,
	"html/template.HTMLEscapeString": true, "text/template.HTMLEscapeString": true, "html/template.HTMLEscaper": true,
	"runtime.KeepAlive": true, "io/fs.ErrNotExist": true, "os.ErrNotExist": true,
}

var deniedFuncs = map[string]string{
	"fmt.Print": "writes to standard output", "fmt.Println": "writes to standard output", "fmt.Printf": "writes to standard output",
	"fmt.Scan": "reads standard input", "fmt.Scanln": "reads standard input", "fmt.Scanf": "reads standard input",
	"time.Sleep": "suspends the caller", "time.AfterFunc": "starts a timer", "time.Tick": "starts a timer", "time.NewTicker": "starts a timer", "time.NewTimer": "starts a timer", "time.After": "starts a timer",
	"time.LoadLocation": "reads files and the environment", "time.Now": "reads the clock",
	"log/slog.SetDefault": "replaces the global logger", "log/slog.SetLogLoggerLevel": "changes global logger settings", "log/slog.NewLogLogger": "",
	"log/slog.NewTextHandler": "", "log/slog.NewJSONHandler": "",
	"mime.AddExtensionType": "changes global tables", "mime.TypeByExtension": "reads files",
	"math/rand.Seed": "changes the global random source",
}

// worldEffect explains why a call of an external function is not allowed in the library.
func worldEffect(f *ssa.Function) string {
	n := extName(f)
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	}
	if allowedIn[n] || allowedIn[pkg] {
		return ""
	}
	if why, ok := deniedFuncs[n]; ok {
		return why
	}
	for _, d := range deniedPkgs {
		if pkg == d || strings.HasPrefix(pkg, d+"/") && d != "log" && d != "net" && d != "runtime" && d != "os" {
			return "belongs to package " + pkg
		}
	}
	if strings.HasPrefix(pkg, "net/") || strings.HasPrefix(pkg, "os/") || strings.HasPrefix(pkg, "runtime/") {
		return "belongs to package " + pkg
	}
	if strings.HasPrefix(pkg, "golang.org/x/net") && !strings.HasPrefix(pkg, "golang.org/x/net/html") && pkg != "golang.org/x/net/publicsuffix" && pkg != "golang.org/x/net/idna" {
		return "belongs to package " + pkg
	}
	return ""
}

func init() { checks["C09"] = checkC09 }

func checkC09(c *Ctx) {
	P := c.P
	c.rule("every call from a library function to a function outside the module, every function value taken from outside, and every variable of another package is classified; those that open files or connections, start processes or goroutines, touch the environment, standard streams or global settings are violations")
	c.rule("a call that ends the process is accepted only where its path condition needs a parse error of golang.org/x/net/html on an in-memory reader, which cannot occur")
	sites, refs := 0, 0
	for _, f := range P.funcs {
		if !P.inLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				where := P.instrPos(in)
				switch in := in.(type) {
				case *ssa.Go:
					c.bad("effect", where, "go statement", "%s starts a goroutine", f)
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok && g.Pkg != P.lib {
						c.bad("effect", where, "store to "+g.String(), "%s changes the variable %s of another package", f, g)
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					sites++
					cc := ci.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok && strings.HasPrefix(bi.Name(), "print") {
						c.bad("effect", where, "call of "+bi.Name(), "%s writes to standard error", f)
					}
					if cc.IsInvoke() {
						if o := cc.Method.Pkg(); o != nil {
							if why := worldEffectPkg(o.Path()); why != "" {
								c.bad("effect", where, "call of "+cc.Method.FullName(), "%s calls %s, which %s", f, cc.Method.FullName(), why)
							}
						}
					}
				}
				for _, op := range in.Operands(nil) {
					switch v := (*op).(type) {
					case *ssa.Function:
						if P.inModule(v) || v.Name() == "init" && v.Synthetic != "" {
							continue
						}
						refs++
						why := worldEffect(v)
						if why == "" {
							continue
						}
						if unreachableExit(c, in) {
							c.samplef("%s: call of %s is unreachable: it needs a parse error on an in-memory reader", where, extName(v))
							continue
						}
						c.bad("effect", where, "use of "+extName(v), "%s uses %s, which %s", f, extName(v), why)
					case *ssa.Global:
						if v.Pkg != P.lib && v.Pkg != P.main {
							refs++
							n := v.Pkg.Pkg.Path() + "." + v.Name()
							if why := worldEffectPkg(v.Pkg.Pkg.Path()); why != "" && !allowedIn[n] {
								c.bad("effect", where, "use of "+n, "%s uses the variable %s, which %s", f, n, why)
							}
						}
					}
				}
			}
		}
	}
	c.need("external function references in the library", refs, 1)
	c.count("call sites examined", sites)
	c.assume = append(c.assume, "the packages strings, strconv, regexp, net/url, encoding/json, slices, math, unicode, bytes, golang.org/x/net/html and cascadia perform no I/O", "log/slog writes only to the handler the caller installed as default")
}

func worldEffectPkg(pkg string) string {
	if allowedIn[pkg] {
		return ""
	}
	for _, d := range deniedPkgs {
		if pkg == d {
			return "belongs to package " + pkg
		}
	}
	if strings.HasPrefix(pkg, "net/") || strings.HasPrefix(pkg, "os/") {
		return "belongs to package " + pkg
	}
	return ""
}

// noParseError: html.Parse on an in-memory reader does not fail.
func noParseError(a *Term) (bool, bool) {
	if a.op == "EQ" && a.args[1].op == "nil" && strings.HasPrefix(a.args[0].op, "call:golang.org/x/net/html.Parse") {
		t := a.args[0]
		if !strings.HasSuffix(t.aux, "#1") {
			return false, false
		}
		if len(t.args) > 0 && inMemoryReader(t.args[0]) {
			return true, true
		}
	}
	return false, false
}

func inMemoryReader(t *Term) bool {
	for t.op == "iface" {
		t = t.args[0]
	}
	switch t.op {
	case "call:strings.NewReader", "call:bytes.NewReader", "call:bytes.NewBufferString", "call:bytes.NewBuffer":
		return true
	}
	return false
}

// unreachableExit: every occurrence of the call in the entry points is infeasible.
func unreachableExit(c *Ctx, in ssa.Instruction) bool {
	n := 0
	for _, r := range []*run{c.parseRun(), c.buildRun(), c.readRun()} {
		for _, a := range r.e.acts {
			if a.fn == in.Parent() {
				n++
			}
		}
		for _, ev := range r.e.events {
			if ev.instr != in {
				continue
			}
			if r.e.feasible(ev.cond, noParseError, ev.loops) {
				return false
			}
		}
	}
	return n > 0
}
