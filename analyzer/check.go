package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Violation is one construct of the analysed program that breaks the property.
type Violation struct {
	Rule   string `json:"rule"`
	Where  string `json:"where"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
}

// Ctx is the state of one check run.
type Ctx struct {
	P                    *Program
	id                   string
	viol                 []Violation
	counts               map[string]int
	rules                []string
	sample               []string
	assume               []string
	notes                []string
	shapeBad, shapeSteps int
	voidTables           map[string]bool

	opts     map[string]*optInfo
	att      *attemptCtx
	parse    *run
	newRun   *run
	reada    *run
	summ     map[*ssa.Function]string
	summWhy  map[*ssa.Function]string
	summBusy bool
	syms     map[*ssa.Function]*run
}

// run is one abstract execution of an entry point.
type run struct {
	e   *Exec
	fn  *ssa.Function
	ret *Term
	out *State
	act *Activation
	arg []*Term
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func (c *Ctx) rule(s string) { c.rules = append(c.rules, s) }
func (c *Ctx) count(k string, n int) {
	c.counts[k] += n
}
func (c *Ctx) samplef(f string, a ...any) {
	if len(c.sample) < 12 {
		c.sample = append(c.sample, fmt.Sprintf(f, a...))
	}
}
func (c *Ctx) bad(rule, where, key, f string, a ...any) {
	v := Violation{rule, where, key, fmt.Sprintf(f, a...)}
	for _, x := range c.viol {
		if x.Rule == v.Rule && x.Where == v.Where && x.Key == v.Key {
			return
		}
	}
	c.viol = append(c.viol, v)
}

// need reports a violation unless at least min instances were found.
func (c *Ctx) need(what string, n, min int) {
	c.counts["instances: "+what] += n
	if n < min {
		c.bad("instance-floor", "-", what, "expected at least %d instances of %s, found %d", min, what, n)
	}
}

// entry runs an entry point abstractly.
func (c *Ctx) exec(fn *ssa.Function, obl bool, prep func(e *Exec, st *State, args []*Term)) *run {
	w := newWorld()
	e := newExec(c.P, w)
	e.initGlobals(c.P.lib)
	if c.P.main != nil && pkgOf(fn) == c.P.main {
		e.initGlobals(c.P.main)
	}
	st := &State{cond: bTrue, mem: map[string]*Term{}}
	var args []*Term
	for _, p := range fn.Params {
		t := w.mk("param", p.Name())
		t.typ = p.Type()
		args = append(args, t)
	}
	e.obl = obl
	if !c.summBusy {
		e.summ = c.htmlSummaries()
	}
	if prep != nil {
		prep(e, st, args)
	}
	var bind []*Term
	for _, fv := range fn.FreeVars {
		t := w.mk("freevar", fv.Name())
		t.typ = fv.Type()
		bind = append(bind, t)
	}
	v, out := e.run(fn, args, bind, st, nil)
	r := &run{e: e, fn: fn, ret: v, out: out, arg: args}
	if len(e.acts) > 0 {
		for _, a := range e.acts {
			if a.parent == nil && a.fn == fn {
				r.act = a
			}
		}
	}
	c.count("functions inlined (activations)", len(e.acts))
	c.count("abstract events", len(e.events))
	c.count("loops abstracted", len(e.allLoop))
	return r
}

func (c *Ctx) parseRun() *run {
	if c.parse == nil {
		f := c.P.method("Readability", "Parse")
		if f == nil {
			panic(analysisError{"(*Readability).Parse not found"})
		}
		c.parse = c.exec(f, false, nil)
	}
	return c.parse
}

func (c *Ctx) buildRun() *run {
	if c.newRun == nil {
		f := c.P.fn("New")
		if f == nil {
			panic(analysisError{"New not found"})
		}
		c.newRun = c.exec(f, false, nil)
	}
	return c.newRun
}

func (c *Ctx) readRun() *run {
	if c.reada == nil {
		f := c.P.fn("IsProbablyReaderable")
		if f == nil {
			panic(analysisError{"IsProbablyReaderable not found"})
		}
		c.reada = c.exec(f, false, nil)
	}
	return c.reada
}

type knownFinding struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(exe))
		if _, err := os.Stat(filepath.Join(d, "MANIFEST.json")); err == nil {
			return d
		}
	}
	return "/verif"
}

func loadKnown() []knownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Known []knownFinding `json:"known"`
	}
	json.Unmarshal(b, &f)
	return f.Known
}

func runCheck(P *Program, id string) (c *Ctx, err error) {
	defer func() {
		if r := recover(); r != nil {
			if ae, ok := r.(analysisError); ok {
				err = fmt.Errorf("analysis: %s", ae.msg)
			} else {
				err = fmt.Errorf("internal error: %v\n%s", r, debug.Stack())
			}
		}
	}()
	c = &Ctx{P: P, id: id, counts: map[string]int{}}
	f := checks[id]
	if f == nil {
		return c, fmt.Errorf("no check for %s", id)
	}
	f(c)
	return c, nil
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "-dump" {
		devMain(os.Args[2:])
		return
	}
	t0 := time.Now()
	ids := os.Args[1:]
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		fmt.Fprintln(os.Stderr, "usage: analyzer PROPERTY...")
		os.Exit(2)
	}
	P, err := loadProgram()
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the program:", err)
		os.Exit(2)
	}
	status := 0
	known := loadKnown()
	for _, id := range ids {
		t1 := time.Now()
		c, err := runCheck(P, id)
		if err != nil {
			fmt.Fprintf(os.Stderr, "%s: %v\n", id, err)
			if status == 0 {
				status = 2
			}
			continue
		}
		var open []Violation
		for _, v := range c.viol {
			listed := false
			for _, k := range known {
				if k.Property == id && k.Rule == v.Rule && k.Key == v.Key {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
					listed = true
					break
				}
			}
			if !listed {
				open = append(open, v)
			}
		}
		start := t1
		if len(ids) == 1 {
			start = t0
		}
		path := writeEvidence(c, open, time.Since(start).Seconds())
		var keys []string
		for k := range c.counts {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var cs []string
		for _, k := range keys {
			cs = append(cs, fmt.Sprintf("%s=%d", k, c.counts[k]))
		}
		fmt.Printf("%s: %d rules; %s\n", id, len(c.rules), strings.Join(cs, ", "))
		for _, n := range c.notes {
			fmt.Printf("  note: %s\n", n)
		}
		if len(open) > 0 {
			for _, v := range open {
				fmt.Printf("  [%s] %s: %s (%s)\n", v.Rule, v.Where, v.Detail, v.Key)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			status = 1
		}
	}
	os.Exit(status)
}

func writeEvidence(c *Ctx, open []Violation, wall float64) string {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation":      "Static analysis of the type-checked SSA form of /repo's current working tree; nothing is executed. Rules applied: " + strings.Join(c.rules, " | "),
		"rules":            c.rules,
		"functions_loaded": len(c.P.funcs),
		"counts":           c.counts,
	}
	if len(c.sample) > 0 {
		cov["samples"] = c.sample
	}
	if len(open) > 0 {
		cov["violations"] = open
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": wall, "violations": len(open),
		"assumptions": append([]string{"go/types, go/ssa (golang.org/x/tools) represent the program faithfully", "functions outside the module behave as documented"}, c.assume...),
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.id+".json")
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}
