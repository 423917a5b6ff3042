package main

import (
	"fmt"
	"os"
)

func devMain(args []string) {
	P, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := &Ctx{P: P, counts: map[string]int{}}
	var r *run
	switch args[0] {
	case "parse":
		r = c.exec(c.P.method("Readability", "Parse"), len(os.Getenv("OBL")) > 0, nil)
	case "new":
		r = c.exec(c.P.fn("New"), len(os.Getenv("OBL")) > 0, nil)
	case "read":
		r = c.exec(c.P.fn("IsProbablyReaderable"), len(os.Getenv("OBL")) > 0, nil)
	default:
		for _, f := range P.funcs {
			if f.Name() == args[0] || f.String() == args[0] {
				r = c.exec(f, len(os.Getenv("OBL")) > 0, func(e *Exec, st *State, as []*Term) {
					e.opaque = len(os.Getenv("OPAQUE")) > 0
					if len(os.Getenv("NOPRIM")) > 0 {
						for _, g := range P.funcs {
							e.noPrim[g] = true
						}
					}
				})
			}
		}
	}
	if len(args) > 1 && args[1] == "result" {
		for _, n := range r.ret.args {
			fmt.Println("ret", r.e.w.showd(n, 5))
		}
		for _, o := range c.okReturns(r) {
			for _, f := range args[2:] {
				fmt.Println(f, r.e.w.showd(r.e.simp(c.resultField(r, o, f), o.cond), 8))
			}
		}
		return
	}
	if len(args) > 1 && args[1] == "loops" {
		for _, l := range r.e.allLoop {
			if l.l == nil {
				continue
			}
			fmt.Printf("L%d %s seq %d-%d outer %d\n", l.id, l.l.header.Parent().Name(), l.seq0, l.seq1, len(l.outer))
			for _, ph := range l.phis {
				fmt.Printf("   %s : init %.120s\n", w2(r, l.vars[ph], 2), w2(r, l.init[ph], 3))
				for _, x := range r.e.altsUnder(l.next[ph], l.back, append(append([]*LoopInst(nil), l.outer...), l)...) {
					fmt.Printf("        next %.200s\n", w2(r, x.t, 4))
				}
			}
		}
		return
	}
	if len(args) > 1 {
		m := map[string]bool{}
		for _, k := range args[1:] {
			m[k] = true
		}
		r.e.dump(m)
	}
}

func w2(r *run, t *Term, d int) string {
	if t == nil {
		return "-"
	}
	return r.e.w.showd(t, d)
}

func (e *Exec) dump(kinds map[string]bool) {
	w := e.w
	for _, ev := range e.events {
		if !kinds[ev.kind] && !kinds[ev.kind+":"+ev.name] {
			continue
		}
		c := ev.cond
		if n := len(ev.loops); n > 0 {
			c = w.b.Constrain(c, ev.loops[n-1].entry)
		}
		s := ""
		for _, a := range ev.args {
			s += " " + w.showd(a, 5) + ","
		}
		fmt.Printf("%d %s %s %s(%s) IF %s  L%d\n", ev.seq, e.P.instrPos(ev.instr), ev.kind, ev.name, s, w.showBDD(c, 5), len(ev.loops))
	}
}
