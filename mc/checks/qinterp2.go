package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"
)

// ipFailures: sources whose actions fail while they run, with stacks of all kinds.
func ipFailures(c *core.C) {
	c.Family("actions that fail at run time")
	const push, lone = "fn push(v) { rec(\"push\", v) }\n", "fn m(s) { rec(\"m\", s) }\nfn iInt(n) { rec(\"int\", n) }\nfn fFloat(n) { rec(\"float\", n) }\nfn none() { rec(\"none\", nil) }\n"
	pop := func(body string) string {
		return "fn popArgs(n) { rec(\"pop\", n)\n" + body + " }\n"
	}
	stacks := []struct{ name, src string }{
		{"good", push + pop(`v = slice("var", n); for i = 0; i < n; i++ { set(v, i, i+5) }; return v`)},
		{"typed", push + pop(`v = slice("int", n); for i = 0; i < n; i++ { set(v, i, i+5) }; return v`)},
		{"nopush", pop(`v = slice("var", n); for i = 0; i < n; i++ { set(v, i, i+5) }; return v`)},
		{"nopop", push},
		{"scalar", push + pop("return 7")},
		{"nil", push + pop("return nil")},
		{"string", push + pop("return \"abc\"")},
		{"few", push + pop(`return slice("var", n-1)`)},
		{"many", push + pop(`return slice("var", n+1)`)},
		{"popfails", push + pop("panic(\"empty stack\")")},
		{"pushfails", pop(`v = slice("var", n); for i = 0; i < n; i++ { set(v, i, i+5) }; return v`) + "fn push(v) { rec(\"push\", v); panic(\"full stack\") }\n"},
	}
	const grammar = `doc = *("a"/a | "b"/b | "z"/z | "w"/w | "p"/p | "q"/q | "m"/m | "ni"/ni | "none"/none | "cls"/cls | INT/iInt | FLOAT/fFloat)`
	words := []string{"a", "b", "z", "w", "p", "q", "m", "ni", "7", "99999999999999999999", "2.5", "1e999", "none", "cls"}
	// model gives the log of one word and whether it fails.
	model := func(st, w string) (log []string, fails bool) {
		add := func(s ...string) { log = append(log, s...) }
		n := 1
		switch w {
		case "m":
			add("m m")
			return
		case "none":
			add("none <nil>")
			return
		case "7":
			add("int 7")
			return
		case "2.5":
			add("float 2.5")
			return
		case "99999999999999999999", "1e999":
			return nil, true
		case "b", "cls":
			n = 2
		}
		if st == "nopop" {
			return nil, true
		}
		add(fmt.Sprint("pop ", n))
		switch st {
		case "scalar", "nil", "string", "few", "many", "popfails":
			return log, true
		}
		res := "<nil>"
		switch w {
		case "a":
			add("a 5")
			res = "1"
		case "b":
			add("b 11")
			res = "11"
		case "cls": // a method of a class that's neither that of the stack nor that of the interpreter
			add("cls 6")
			res = "2"
		case "z":
			add("z 5")
		case "ni":
			add("ni 5")
			res = "10"
		case "p", "q":
			add(w)
			return log, true
		case "w":
			return log, true
		}
		if st == "nopush" {
			return log, true
		}
		add("push " + res)
		return log, st == "pushfails"
	}
	for _, st := range stacks {
		st := st
		var q = qnew(true)
		var log []string
		q.SetVar("rec", func(w string, v interface{}) { log = append(log, strings.TrimSuffix(fmt.Sprint(w, " ", v), " ~")) })
		q.SetVar("nz", func(v interface{}) { log = append(log, fmt.Sprint("z ", v)) })
		q.SetVar("nw", func(v string) { log = append(log, fmt.Sprint("w ", v)) })
		q.SetVar("nni", func(v int) int { log = append(log, fmt.Sprint("ni ", v)); return v * 2 })
		q.SetVar("g", grammar)
		src := "St = class {\n" + st.src + lone + "}\nOther = class {\nfn both(x) { rec(\"cls\", x); return 2 }\n}\n" +
			"D = class {\nfn _init() { set(this, \"s\", new St) }\nfn stack() { return this.s }\nfn grammar() { return g }\nfn fntable() { return {\n" +
			"\"$a\": fn(x) { rec(\"a\", x); return 1 }, \"$b\": fn(x, y) { rec(\"b\", x+y); return x+y }, \"$z\": nz, \"$w\": nw, \"$ni\": nni, \"$m\": St.m, \"$none\": St.none, \"$iInt\": St.iInt, \"$fFloat\": St.fFloat,\n" +
			"\"$cls\": Other.both, \"$p\": fn(x) { rec(\"p\", \"~\"); panic(\"oops\") }, \"$q\": fn(x) { rec(\"q\", \"~\"); y = 0; return 1/y } } }\n}\n" +
			"eng, err = interp.interpreter(new D, nil)\nif err != nil { panic(err) }\n"
		made := ""
		if kind, text := qshow(q, src); kind != "ok" {
			made = kind + " " + text
		}
		ws := words
		if st.name != "typed" { // what a native function with a type can be given isn't specified otherwise
			ws = nil
			for _, w := range words {
				if w != "ni" {
					ws = append(ws, w)
				}
			}
		}
		eachIdx(c, len(ws), 0, c.Pick(3, 4), func(ix []int) {
			ix = cp(ix)
			c.Do(func() string {
				s := st.name + ":"
				for _, i := range ix {
					s += " " + ws[i]
				}
				return s
			}, func() string {
				c.AddTrace(1)
				c.AddStates(len(ix) + 1)
				c.AddTransitions(len(ix) + 1)
				if made != "" {
					return "the engine can't be made: " + made
				}
				var toks, want []string
				fails := false
				last := ""
				for _, i := range ix {
					toks = append(toks, ws[i])
					if !fails {
						l, f := model(st.name, ws[i])
						want = append(want, l...)
						fails, last = f, ws[i]
					}
				}
				for round := 0; round < 2; round++ { // the engine can be used again
					log = nil
					q.SetVar("src", strings.Join(toks, " "))
					if kind, text := qshow(q, "r = eng.eval(src)"); kind != "ok" {
						return fmt.Sprintf("round %d ends with %s %q", round, kind, text)
					}
					r, _ := q.Var("r")
					if e, isErr := r.(error); isErr != fails || !isErr && r != nil {
						return fmt.Sprintf("round %d gives %v, want an error: %v", round, r, fails)
					} else if isErr {
						text := ""
						switch {
						case st.name == "popfails" && last != "99999999999999999999" && last != "1e999":
							text = "empty stack"
						case last == "p" && (st.name == "good" || st.name == "typed"):
							text = "oops"
						case st.name == "pushfails" && last == "a":
							text = "full stack"
						}
						if !strings.Contains(e.Error(), text) {
							return fmt.Sprintf("round %d gives %q, want an error with %q", round, e, text)
						}
						c.Outcome("error " + last)
					} else {
						c.Nontrivial(1)
					}
					if fmt.Sprint(log) != fmt.Sprint(want) {
						return fmt.Sprintf("round %d: %v, want %v", round, log, want)
					}
				}
				return ""
			})
		})
	}
}

// ipTraces: the mark _tr in interpreters written in the scripting language.
func ipTraces(c *core.C) {
	c.Family("the mark _tr; classof and newRuntimeError")
	q := qnew(true)
	var log []string
	q.SetVar("rec", func(w string) { log = append(log, w) })
	kind, text := qshow(q, "St = class { }\nD = class {\nfn _init() { set(this, \"s\", new St) }\nfn stack() { return this.s }\nfn grammar() { return `doc = *(IDENT/f | INT/_tr | '('/_mute | ')'/_unmute | '[' *INT/_tr ']')` }\n"+
		"fn f(w) { rec(w) }\nfn fntable() { return {\"$f\": D.f, \"$g\": 1} }\n}\neng, err = interp.interpreter(new D, nil)\nif err != nil { panic(err) }\n")
	words := []string{"a", "1", "23", "(", ")", "[ 4  5 ]", "[ ]"}
	shows := []string{"", "1\n", "23\n", "", "", "4  5\n", "\n"}
	eachIdx(c, len(words), 0, c.Pick(4, 5), func(ix []int) {
		ix = cp(ix)
		c.Do(func() string {
			s := ""
			for _, i := range ix {
				s += words[i] + " "
			}
			return s
		}, func() string {
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(1)
			if kind != "ok" {
				return "the engine can't be made: " + kind + " " + text
			}
			src, want := "", ""
			var calls []string
			mute := 0
			for _, i := range ix {
				src += words[i] + " "
				want += shows[i]
				switch words[i] {
				case "a":
					if mute <= 0 {
						calls = append(calls, "a")
					}
				case "(":
					mute++
				case ")":
					mute--
				}
			}
			q.SetVar("src", src)
			log = nil
			var kind, text string
			shown, err := stderrOf(func() { kind, text = qshow(q, "r = eng.eval(src)") })
			if err != nil {
				return err.Error()
			}
			if r, _ := q.Var("r"); kind != "ok" || r != nil {
				return fmt.Sprintf("ends with %s %q, result %v", kind, text, r)
			}
			c.Nontrivial(1)
			lines := strings.Split(shown, "\n")
			for i := range lines {
				lines[i] = strings.TrimRight(lines[i], " ")
			}
			if shown = strings.Join(lines, "\n"); shown != want {
				return fmt.Sprintf("shows %q, want %q", shown, want)
			}
			if fmt.Sprint(log) != fmt.Sprint(calls) {
				return fmt.Sprintf("calls %v, want %v", log, calls)
			}
			return ""
		})
	})
	for _, e := range []struct{ expr, want string }{
		{"interp.classof(new A) == A", "bool:true"}, {"interp.classof(new B) == A", "bool:false"}, {"interp.classof(A)", "nil"}, {"interp.classof(1)", "nil"}, {"interp.classof(nil)", "nil"}, {"interp.classof(\"A\")", "nil"},
		{"interp.classof({})", "nil"}, {"interp.classof(fn() {})", "nil"}, {"interp.classof((new A).me()) == A", "bool:true"}, {"interp.classof(interp.classof(new A))", "nil"},
		{"interp.newRuntimeError(\"x\").error()", "string:runtime error: x"}, {"interp.newRuntimeError(\"\").error()", "string:runtime error: "}, {"interp.newRuntimeError(\"a\\nb\").error()", "string:runtime error: a\nb"},
	} {
		e := e
		c.Do(func() string { return e.expr }, func() string {
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(1)
			q := qnew(true)
			if kind, text := qshow(q, "A = class { fn me() { return this } }\nB = class { fn me() { return this } }\nr = "+e.expr); kind != "ok" {
				return fmt.Sprintf("ends with %s %q", kind, text)
			}
			v, _ := q.Var("r")
			got := "nil"
			if v != nil {
				got = fmt.Sprintf("%T:%v", v, v)
			}
			if got != e.want {
				return fmt.Sprintf("gives %s, want %s", got, e.want)
			}
			c.Nontrivial(1)
			return ""
		})
	}
}
