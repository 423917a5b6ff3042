package main

import (
	"regexp"
	"strings"
)

// strEnv gives the value of leaf terms (attributes, texts) in a scenario.
type strEnv func(t *Term) (string, bool)

// foldStr folds a string expression over the values of env.
func (e *Exec) foldStr(t *Term, env strEnv, s Scen) (string, bool) {
	if t.isStr() {
		return t.aux, true
	}
	if v, ok := env(t); ok {
		return v, true
	}
	str := func(i int) (string, bool) {
		if i >= len(t.args) {
			return "", false
		}
		return e.foldStr(t.args[i], env, s)
	}
	re := func() *regexp.Regexp {
		if len(t.args) == 0 || t.args[0].op != "re" {
			return nil
		}
		r, err := regexp.Compile(t.args[0].aux)
		if err != nil {
			return nil
		}
		return r
	}
	two := func(f func(a, b string) string) (string, bool) {
		a, ok1 := str(0)
		b, ok2 := str(1)
		if !ok1 || !ok2 {
			return "", false
		}
		return f(a, b), true
	}
	switch t.op {
	case "call:strings.ToLower":
		a, ok := str(0)
		return strings.ToLower(a), ok
	case "call:strings.ToUpper":
		a, ok := str(0)
		return strings.ToUpper(a), ok
	case "call:strings.TrimSpace":
		a, ok := str(0)
		return strings.TrimSpace(a), ok
	case "call:strings.TrimPrefix":
		return two(strings.TrimPrefix)
	case "call:strings.TrimSuffix":
		return two(strings.TrimSuffix)
	case "call:strings.TrimLeft":
		return two(strings.TrimLeft)
	case "call:strings.TrimRight":
		return two(strings.TrimRight)
	case "call:strings.Trim":
		return two(strings.Trim)
	case "concat", "op+", "+":
		out := ""
		for i := range t.args {
			a, ok := str(i)
			if !ok {
				return "", false
			}
			out += a
		}
		return out, len(t.args) > 0
	case "call:strings.ReplaceAll":
		a, ok1 := str(0)
		b, ok2 := str(1)
		c, ok3 := str(2)
		return strings.ReplaceAll(a, b, c), ok1 && ok2 && ok3
	case "call:strings.Replace":
		a, ok1 := str(0)
		b, ok2 := str(1)
		c, ok3 := str(2)
		if !ok1 || !ok2 || !ok3 || !t.args[3].isInt() {
			return "", false
		}
		return strings.Replace(a, b, c, int(t.args[3].intVal())), true
	case "call:strings.Join":
		l, ok1 := e.foldList(t.args[0], env, s)
		b, ok2 := str(1)
		return strings.Join(l, b), ok1 && ok2
	case "call:(*regexp.Regexp).ReplaceAllString":
		r := re()
		a, ok1 := str(1)
		b, ok2 := str(2)
		if r == nil || !ok1 || !ok2 {
			return "", false
		}
		return r.ReplaceAllString(a, b), true
	case "call:(*regexp.Regexp).ReplaceAllLiteralString":
		r := re()
		a, ok1 := str(1)
		b, ok2 := str(2)
		if r == nil || !ok1 || !ok2 {
			return "", false
		}
		return r.ReplaceAllLiteralString(a, b), true
	case "call:(*regexp.Regexp).FindString":
		r := re()
		a, ok := str(1)
		if r == nil || !ok {
			return "", false
		}
		return r.FindString(a), true
	case "idx":
		l, ok := e.foldList(t.args[0], env, s)
		if ok && t.args[1].isInt() && t.args[1].intVal() >= 0 && t.args[1].intVal() < int64(len(l)) {
			return l[t.args[1].intVal()], true
		}
	case "ite":
		for i, a := range t.args {
			c := e.assume(t.bs[i], s)
			if c == bTrue {
				return e.foldStr(a, env, s)
			}
		}
	}
	return "", false
}

func (e *Exec) foldList(t *Term, env strEnv, s Scen) ([]string, bool) {
	switch t.op {
	case "call:(*regexp.Regexp).FindAllString":
		a, ok := e.foldStr(t.args[1], env, s)
		if !ok || t.args[0].op != "re" || !t.args[2].isInt() {
			return nil, false
		}
		r, err := regexp.Compile(t.args[0].aux)
		if err != nil {
			return nil, false
		}
		return r.FindAllString(a, int(t.args[2].intVal())), true
	case "call:(*regexp.Regexp).FindStringSubmatch":
		a, ok := e.foldStr(t.args[1], env, s)
		if !ok || t.args[0].op != "re" {
			return nil, false
		}
		r, err := regexp.Compile(t.args[0].aux)
		if err != nil {
			return nil, false
		}
		return r.FindStringSubmatch(a), true
	case "call:strings.Fields":
		a, ok := e.foldStr(t.args[0], env, s)
		return strings.Fields(a), ok
	case "call:strings.Split":
		a, ok := e.foldStr(t.args[0], env, s)
		b, ok2 := e.foldStr(t.args[1], env, s)
		return strings.Split(a, b), ok && ok2
	case "slicelit":
		var out []string
		for _, x := range t.args {
			a, ok := e.foldStr(x, env, s)
			if !ok {
				return nil, false
			}
			out = append(out, a)
		}
		return out, true
	case "nil":
		return nil, true
	case "ite":
		for i, a := range t.args {
			if e.assume(t.bs[i], s) == bTrue {
				return e.foldList(a, env, s)
			}
		}
	}
	return nil, false
}

// foldScen decides the conditions on strings that follow from env.
func (e *Exec) foldScen(env strEnv) Scen {
	depth := 0
	var self Scen
	self = func(t *Term) (bool, bool) {
		if depth > 3 {
			return false, false
		}
		depth++
		defer func() { depth-- }()
		fs := func(x *Term) (string, bool) { return e.foldStr(x, env, self) }
		switch t.op {
		case "EQ":
			if t.args[1].isStr() || t.args[0].isStr() {
				a, ok1 := fs(t.args[0])
				b, ok2 := fs(t.args[1])
				return a == b, ok1 && ok2
			}
			a, ok1 := e.foldInt(t.args[0], env, self)
			b, ok2 := e.foldInt(t.args[1], env, self)
			return a == b, ok1 && ok2
		case "LT":
			a, ok1 := e.foldInt(t.args[0], env, self)
			b, ok2 := e.foldInt(t.args[1], env, self)
			return a < b, ok1 && ok2
		case "call:(*regexp.Regexp).MatchString":
			if t.args[0].op == "re" {
				a, ok := fs(t.args[1])
				r, err := regexp.Compile(t.args[0].aux)
				if ok && err == nil {
					return r.MatchString(a), true
				}
			}
		case "call:strings.Contains", "call:strings.HasPrefix", "call:strings.HasSuffix", "call:strings.EqualFold":
			a, ok1 := fs(t.args[0])
			b, ok2 := fs(t.args[1])
			if ok1 && ok2 {
				switch t.op {
				case "call:strings.Contains":
					return strings.Contains(a, b), true
				case "call:strings.HasPrefix":
					return strings.HasPrefix(a, b), true
				case "call:strings.HasSuffix":
					return strings.HasSuffix(a, b), true
				}
				return strings.EqualFold(a, b), true
			}
		}
		return false, false
	}
	return self
}

func (e *Exec) foldInt(t *Term, env strEnv, s Scen) (int64, bool) {
	if t.isInt() {
		return t.intVal(), true
	}
	if (t.op == "len" || t.op == "runelen") && len(t.args) == 1 {
		x := t.args[0]
		if l, ok := e.foldList(x, env, s); ok {
			return int64(len(l)), true
		}
		if x.op == "runes" {
			if a, ok := e.foldStr(x.args[0], env, s); ok {
				return int64(len([]rune(a))), true
			}
			return 0, false
		}
		if a, ok := e.foldStr(x, env, s); ok {
			return int64(len(a)), true
		}
	}
	return 0, false
}
