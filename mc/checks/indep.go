package checks

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"

	"verif/mc/core"
	"verif/mc/sched"

	"go/token"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/tpl/generator"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/qlang"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/rat"
)

func init() {
	core.Register(&core.Check{
		ID:   "C16",
		Rule: "a case is a set of two or three engines, each driven by its own goroutine under a controlled scheduler; every interleaving at the scheduling points (scanner calls, actions, functions called by the evaluated code) with at most the given number of preemptions is executed and each goroutine's results are compared with those it gets alone; non-trivial: at least two goroutines with more than one point",
		Assumptions: []string{"code between two scheduling points runs atomically; unsynchronized access inside is left to the separate free-running race-detector pass of the same bodies",
			"functions that set global options (Import, SetAutoCall, SetDumpStack) are called before engines run"},
		Run: runC16,
	})
}

// ptScanner is a scanner whose calls are scheduling points.
type ptScanner struct {
	tpl.AutoKwScanner
	fine bool
}

func (p *ptScanner) Init(file *token.File, src []byte, err tpl.ScanErrorHandler, mode tpl.ScanMode) {
	sched.Point()
	p.AutoKwScanner.Init(file, src, err, mode)
	sched.Point()
}

func (p *ptScanner) Scan() tpl.Token {
	t := p.AutoKwScanner.Scan()
	if p.fine || t.Kind == tpl.EOF {
		sched.Point()
	}
	return t
}

func (p *ptScanner) Ttol(k uint) string {
	sched.Point()
	return p.AutoKwScanner.Ttol(k)
}

// body is a program for one goroutine. It returns what it observed.
type body struct {
	name string
	run  func(coarse bool) string
}

func guarded(log *strings.Builder, f func() (interface{}, error)) {
	var v interface{}
	var err error
	if e := try(func() { v, err = f() }); e != nil {
		fmt.Fprintf(log, "panic %v; ", e)
	} else if err != nil {
		fmt.Fprintf(log, "error %v; ", err)
	} else {
		fmt.Fprintf(log, "%v; ", v)
	}
}

var ptOnce sync.Once

func addPt() {
	ptOnce.Do(func() {
		number.Fntable["pt"] = func(x float64) float64 { sched.Point(); return x }
		cmplx.Fntable["pt"] = func(x complex128) complex128 { sched.Point(); return x }
		rat.Fntable["pt"] = rat.Neg
		rat.Fntable["pt"] = reflect.MakeFunc(reflect.TypeOf(rat.Neg), func(a []reflect.Value) []reflect.Value { sched.Point(); return a }).Interface()
		qlang.Import("", map[string]interface{}{"pt": func(x interface{}) interface{} { sched.Point(); return x }})
	})
}

func calcBody(name string, mk func() (interpreter_ interface{}, ret func() interface{}), exprs []string) body {
	return body{name, func(coarse bool) string {
		var log strings.Builder
		ipt, ret := mk()
		sc := &ptScanner{}
		guarded(&log, func() (interface{}, error) {
			eng, err := newEngine(ipt, sc)
			if err != nil {
				return nil, err
			}
			sc.fine = !coarse
			for _, e := range exprs {
				guarded(&log, func() (interface{}, error) {
					if err := eng.Eval(e); err != nil {
						return nil, err
					}
					return ret(), nil
				})
			}
			return "done", nil
		})
		return log.String()
	}}
}

func newEngine(ipt interface{}, sc tpl.Tokener) (*interpreter.Engine, error) {
	var o *interpreter.Options
	if sc != nil {
		o = &interpreter.Options{Scanner: sc}
	}
	switch v := ipt.(type) {
	case *number.Calculator:
		return interpreter.New(v, o)
	case *cmplx.Calculator:
		return interpreter.New(v, o)
	case *rat.Calculator:
		return interpreter.New(v, o)
	}
	panic("unknown calculator")
}

func indepBodies() []body {
	addPt()
	num := func(exprs ...string) body {
		return calcBody("number "+exprs[0], func() (interface{}, func() interface{}) {
			c := number.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, exprs)
	}
	cpx := func(exprs ...string) body {
		return calcBody("cmplx "+exprs[0], func() (interface{}, func() interface{}) {
			c := cmplx.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, exprs)
	}
	rt := func(exprs ...string) body {
		return calcBody("rat "+exprs[0], func() (interface{}, func() interface{}) {
			c := rat.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, exprs)
	}
	match := func(grammar string, srcs ...string) body {
		return body{"match " + grammar, func(coarse bool) string {
			var log strings.Builder
			sc := &ptScanner{}
			cl := &tpl.Compiler{Grammar: []byte(grammar), Scanner: sc, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				sched.Point()
				return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
					fmt.Fprintf(&log, "%s#%d", mark, g.Len())
					sched.Point()
					fmt.Fprintf(&log, "%s ", tpl.Source(toks, sc))
				})
			}}
			guarded(&log, func() (interface{}, error) {
				m, err := cl.Cl()
				if err != nil {
					return nil, err
				}
				sc.fine = !coarse
				for _, s := range srcs {
					guarded(&log, func() (interface{}, error) {
						rest, err := m.Match([]byte(s), "")
						return len(rest), err
					})
				}
				return m.Code(), nil
			})
			return log.String()
		}}
	}
	extr := func(grammar string, srcs ...string) body {
		return body{"extract " + grammar, func(coarse bool) string {
			var log strings.Builder
			sc := &ptScanner{}
			guarded(&log, func() (interface{}, error) {
				e, err := extractor.New(grammar, &extractor.Options{Scanner: sc, GetValue: func(t, lit string) interface{} { sched.Point(); return extractor.GetValue(t, lit) }})
				if err != nil {
					return nil, err
				}
				sc.fine = !coarse
				for _, s := range srcs {
					guarded(&log, func() (interface{}, error) { return e.Extract(s) })
				}
				return e.Result(), nil
			})
			return log.String()
		}}
	}
	ql := func(name string, srcs ...string) body {
		return body{"qlang " + name, func(coarse bool) string {
			var log strings.Builder
			sc := &ptScanner{}
			guarded(&log, func() (interface{}, error) {
				q, err := qlang.New(&qlang.Options{Scanner: sc, ScanMode: tpl.InsertSemis})
				if err != nil {
					return nil, err
				}
				for _, s := range srcs {
					guarded(&log, func() (interface{}, error) {
						err := q.SafeEval(s)
						v, ok := q.Var("r")
						return fmt.Sprint(v, ok), err
					})
				}
				return "done", nil
			})
			return log.String()
		}}
	}
	// engines that are given no scanner and no options
	plainMatch := body{"matcher without a scanner", func(coarse bool) string {
		var log strings.Builder
		m := &tpl.Matcher{Init: sched.Point}
		m.Grammar = tpl.Action(tpl.Repeat0(tpl.Or(tpl.Gr(tpl.IDENT), tpl.And(tpl.Gr('+'), nil, tpl.Gr(tpl.INT)))), func(toks []tpl.Token, g tpl.Grammar) {
			sched.Point()
			_, l := tpl.FileLine(toks, m.Tokener())
			fmt.Fprintf(&log, "%d %q %d; ", g.Len(), tpl.Source(toks, m.Tokener()), l)
		})
		for _, s := range []string{"aa bbb\ncccc", "\n\nx + 1", "a\n+ b", "x \x01"} {
			guarded(&log, func() (interface{}, error) { return nil, m.MatchExactly([]byte(s), "f") })
			sched.Point()
		}
		return log.String()
	}}
	plainCl := func(grammar string, srcs ...string) body {
		return body{"compiler without a scanner " + grammar, func(coarse bool) string {
			var log strings.Builder
			var cl *tpl.Compiler
			cl = &tpl.Compiler{Grammar: []byte(grammar), Init: sched.Point, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				sched.Point()
				return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
					sched.Point()
					fmt.Fprintf(&log, "%s#%d%s ", mark, g.Len(), tpl.Source(toks, cl.Scanner))
				})
			}}
			guarded(&log, func() (interface{}, error) {
				m, err := cl.Cl()
				if err != nil {
					return nil, err
				}
				for _, s := range srcs {
					guarded(&log, func() (interface{}, error) { return nil, m.Eval(s) })
				}
				return m.Code(), m.EvalSub("x", srcs[0])
			})
			return log.String()
		}}
	}
	plainNum := body{"number without options", func(coarse bool) string {
		var log strings.Builder
		c := number.New()
		guarded(&log, func() (interface{}, error) {
			e, err := interpreter.New(c, nil)
			if err != nil {
				return nil, err
			}
			for _, s := range []string{"max(1, pt(2)*3, 4) + pt(5)", "pt(1) +\n\n pt(nope)", "1 +"} {
				guarded(&log, func() (interface{}, error) {
					err := e.Eval(s)
					v, ok := c.Ret()
					return fmt.Sprint(v, ok), err
				})
			}
			return "done", nil
		})
		return log.String()
	}}
	plainExtr := body{"extractor without options", func(coarse bool) string {
		var log strings.Builder
		guarded(&log, func() (interface{}, error) {
			e, err := extractor.New("doc = *(IDENT/name_Text INT/v_Ints ';')/items_NodeArray FLOAT/f_Float", nil)
			if err != nil {
				return nil, err
			}
			for _, s := range []string{"a 1; 2.5", "a 1; b", "1.5", "a 99999999999999999999; 1"} {
				guarded(&log, func() (interface{}, error) { return e.SafeExtract(s) })
				sched.Point()
				fmt.Fprintf(&log, "%v; ", e.Result())
			}
			return "done", nil
		})
		return log.String()
	}}
	plainQl := body{"qlang without options", func(coarse bool) string {
		var log strings.Builder
		guarded(&log, func() (interface{}, error) {
			q, err := qlang.New(nil)
			if err != nil {
				return nil, err
			}
			for _, s := range []string{"f = fn(a) { pt(a); a + 1 }; r = f(pt(1))", "r = r + f(2);\n\n r = nope", "defer pt(2); r = pt(\"x\")"} {
				guarded(&log, func() (interface{}, error) {
					err := q.SafeEval(s)
					v, ok := q.Var("r")
					return fmt.Sprint(v, ok), err
				})
			}
			return "done", nil
		})
		return log.String()
	}}
	gen := body{"generator", func(coarse bool) string {
		var log strings.Builder
		for _, g := range []string{"doc = +(IDENT/i '+' | \"kw\"/k)\n", "doc = IDENT ! x\n", "x = INT % ','; doc = x"} {
			guarded(&log, func() (interface{}, error) {
				code, err := generator.GenStaticCode(g)
				lines := strings.Split(code, "\n") // the order of the rules isn't fixed
				sort.Strings(lines)
				return strings.Join(lines, "\n"), err
			})
			sched.Point()
		}
		return log.String()
	}}
	return []body{
		plainMatch, plainNum, plainExtr, plainQl, gen, shortLex(),
		plainCl("doc = +(IDENT/i ',' | INT/n)/N EOF; x = \"kw\" 1", "a, 1", "a, b"),
		plainCl("doc = \"kw\"/k % x | IDENT ! \"other\"; x = '+'/p", "kw + kw", "a kw"),
		num("max(1, pt(2)*3, 4) + pt(5)", "1 +", "pt(min(3, 2))"),
		num("ln(pt(1)) - pow(2, pt(3))", "nope(1)", "hypot(pt(3), 4)"),
		cpx("pt(1+2i) * conj(pt(3i))", "abs(pt(3+4i))"),
		rt("pt(1)/3 + inv(pt(6))", "1/0", "max(1, pt(7)/2)"),
		match("doc = +(IDENT/i ',' | INT/n)/N EOF; x = \"kw\" 1", "a, 1", "a, b"),
		match("doc = \"kw\"/k % '+'/l | IDENT ! \"other\"", "kw + kw", "a kw"),
		extr("doc = (IDENT/name_Text '=' INT/vals_Ints ';')/items_NodeArray *(IDENT/name_Text '=' INT/vals_Ints ';')/items_NodeArray", "a = 1; b = 2;", "a = 1; b"),
		extr("doc = IDENT/b_Text (INT/x_Int)/n_Node ?(FLOAT/f_Float)", "k 7 1.5", "z 1"),
		ql("function", "f = fn(a, b...) { pt(a); return a + len(b) }; r = f(1, pt(2), 3) + f(10)\n", "r = pt(r) + 1\n", "r = r + undefinedName\n"),
		ql("closure, defer and loop", "r = 0\nadd = fn(n) { for i = 0; i < n; i++ { r = r + pt(i) } }\nx = fn() { defer pt(1); add(3); panic(\"boom\") }\ny = fn() { defer fn() { recover(); 1 }(); x(); 0 }\n", "z = [1, pt(2), 3]; r = len(z)\nr = z[pt(1)]\n"),
		ql("class", "C = class { fn _init(v) { this.v = pt(v) }\n fn get() { pt(0); return this.v } }\nc = new C(5)\nr = c.get()\n", "d = {\"a\": pt(1), \"b\": 2}; r = d.b + pt(d.a)\n"),
	}
}

func runC16(c *core.C) {
	bodies := indepBodies()
	explore := func(ix []int, bound int, coarse bool) {
		ix = cp(ix)
		var names []string
		for _, i := range ix {
			names = append(names, bodies[i].name)
		}
		c.Do(func() string { return fmt.Sprintf("%v, %d preemptions", names, bound) }, func() string {
			var alone []string
			for _, i := range ix {
				a := bodies[i].run(coarse)
				if b := bodies[i].run(coarse); a != b {
					return fmt.Sprintf("%s run twice alone gives %s and %s", bodies[i].name, clip(a), clip(b))
				}
				alone = append(alone, a)
			}
			var got []string
			mk := func() (fs []func()) {
				got = make([]string, len(ix))
				for k, i := range ix {
					k, i := k, i
					fs = append(fs, func() { got[k] = bodies[i].run(coarse) })
				}
				return
			}
			msg := ""
			execs, points := sched.Explore(mk, bound, func(e *sched.Exec) bool {
				for k := range ix {
					if e.Errs[k] != nil {
						msg = fmt.Sprintf("%s panicked: %v (schedule %v)", names[k], e.Errs[k], e.Choices)
					} else if got[k] != alone[k] {
						msg = fmt.Sprintf("%s\n  alone:       %s\n  interleaved: %s\n  schedule %v", names[k], clip(alone[k]), clip(got[k]), e.Choices)
					}
				}
				if e.Diverge != "" {
					msg = "replaying a schedule diverged: " + e.Diverge
				}
				return msg == ""
			})
			c.AddStates(points)
			c.AddTransitions(points)
			c.AddTrace(execs)
			if execs > 1 {
				c.Nontrivial(1)
			}
			c.Outcome(strings.Join(alone, "|"))
			return msg
		})
	}
	n := len(bodies)
	c.Family("pairs, one preemption, every scanner call is a point")
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			explore([]int{i, j}, 1, false)
		}
	}
	c.Family("pairs, two preemptions (thorough 3), points at scanner starts, actions and called functions")
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			explore([]int{i, j}, c.Pick(2, 3), true)
		}
	}
	c.Family("triples, one preemption (thorough 2)")
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			for k := j; k < n; k++ {
				if (i+j+k)%c.Pick(5, 1) == 0 {
					explore([]int{i, j, k}, c.Pick(1, 1), true)
				}
			}
		}
	}
	c.Family("free-running pass under the race detector")
	c.Do(func() string { return "all bodies in parallel, race detector" }, func() string {
		bin := os.Getenv("MC_RACE_BIN")
		if bin == "" {
			c.Note("race-detector pass skipped: no instrumented binary")
			return ""
		}
		cmd := exec.Command(bin, "racebody")
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		out, err := cmd.CombinedOutput()
		if err != nil && (strings.Contains(string(out), "DATA RACE") || strings.Contains(string(out), "concurrent map")) {
			return "engines of different goroutines share unsynchronized data:\n" + clip(string(out))
		}
		if err != nil && !strings.Contains(string(out), "RACEBODY BEGIN") {
			c.Note("race-detector pass failed to run: " + clip(string(out)))
			return ""
		}
		if !strings.Contains(string(out), "RACEBODY OK") {
			return "parallel engines: " + clip(string(out))
		}
		c.Nontrivial(1)
		return ""
	})
}

// shortLex scans a few lexemes, a scheduling point behind each, and looks at the tokens at the end.
func shortLex() body {
	return body{"scanner alone", func(bool) string {
		var log strings.Builder
		s := new(tpl.AutoKwScanner)
		k := s.Ltot(`"kw"`)
		for _, text := range []string{"`a\r\nb` kw 1", "\"s\" //c\r\n kw '", "\n\n x"} {
			f := token.NewFileSet().AddFile("f", -1, len(text))
			s.Init(f, []byte(text), func(pos token.Position, msg string) { fmt.Fprintf(&log, "%v %s; ", pos, msg) }, tpl.ScanComments|tpl.InsertSemis)
			var toks []tpl.Token
			for i := 0; i < 20; i++ {
				t := s.Scan()
				toks = append(toks, t)
				sched.Point()
				if t.Kind == tpl.EOF {
					break
				}
			}
			for _, t := range toks {
				fmt.Fprintf(&log, "%d %q %v %v; ", t.Kind, t.Literal, t.Kind == k, f.Position(t.Pos))
			}
		}
		return log.String()
	}}
}

// lexBody scans every kind of lexeme in every mode and keeps the tokens till the end.
func lexBody() body {
	return body{"scanner", func(coarse bool) string {
		var log strings.Builder
		var src strings.Builder
		for _, a := range allAtoms {
			src.WriteString(a + "\n")
		}
		src.WriteString("\r\n`\r\r" + rep("raw\r\n", 20) + "`\r//c\r\n/*\r\n*/\n#c\r\n//line x:9\ny\n\"a\\x41\\u00e9\" 08 1e '' 'ab' \"\n\x01 \xff ")
		for _, mode := range []tpl.ScanMode{0, tpl.ScanComments, tpl.InsertSemis, tpl.ScanComments | tpl.InsertSemis} {
			for _, s := range []tpl.Tokener{&ptScanner{}, new(tpl.Scanner)} {
				for _, text := range []string{src.String(), "`a\rb`\n\"s", "x y\n)"} {
					f := token.NewFileSet().AddFile("d/f.x", -1, len(text))
					s.Init(f, []byte(text), func(pos token.Position, msg string) {
						sched.Point()
						fmt.Fprintf(&log, "%v %s; ", pos, msg)
					}, mode)
					var toks []tpl.Token
					for i := 0; i < 3000; i++ {
						t := s.Scan()
						toks = append(toks, t)
						if i%16 == 0 {
							sched.Point()
						}
						if t.Kind == tpl.EOF {
							break
						}
					}
					for _, t := range toks {
						fmt.Fprintf(&log, "%s %d %q %v; ", s.Ttol(t.Kind), t.Pos, t.Literal, f.Position(t.Pos))
					}
				}
			}
		}
		return log.String()
	}}
}

// moreBodies go through more of the code than a scheduled exploration can; only the race detector runs them.
func moreBodies() []body {
	keys := func(m map[string]interface{}) (ks []string) {
		for k := range m {
			if k != "pt" {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		return
	}
	calls := func(ks []string, args ...string) (ex []string) {
		ex = append(ex, "1 + 2*3 - -4/5", "(1.5)", "0x10", "017", "1e3", "2i", "'c'", "", "1 +", "nope", "e", "pi", "NaN", "Inf", "i")
		for _, k := range ks {
			for _, a := range args {
				ex = append(ex, k+"("+a+")")
			}
		}
		return
	}
	calc := func(name string, mk func() (interface{}, func() interface{}), exprs []string) body {
		return body{name, func(bool) string {
			var log strings.Builder
			ipt, ret := mk()
			eng, err := newEngine(ipt, nil)
			if err != nil {
				return err.Error()
			}
			for _, e := range exprs {
				guarded(&log, func() (interface{}, error) {
					if err := eng.Eval(e); err != nil {
						return nil, err
					}
					return ret(), nil
				})
			}
			return log.String()
		}}
	}
	ops := []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"}
	vals := []string{"1", "2.5", "'c'", "\"s\"", "true", "nil", "[1, 2]", "{\"k\": 1}", "byte(3)", "undefined"}
	var qs []string
	for _, a := range vals {
		for _, b := range vals {
			for _, op := range ops {
				qs = append(qs, "r = "+a+" "+op+" "+b)
			}
		}
		for _, f := range []string{"len", "cap", "string", "int", "float", "byte", "type", "sliceFrom", "mapFrom", "max", "min"} {
			qs = append(qs, "r = string("+f+"("+a+"))", "r = string("+f+"("+a+", "+a+"))")
		}
		qs = append(qs, "r = -"+a, "r = !"+a, "x = "+a+"; x++; r = x", "x = "+a+"; x += 1; r = x", "x = "+a+"; r = x[0]", "x = "+a+"; r = x.k", "x = "+a+"; x[0] = 5; r = x", "x = "+a+"; x.k = 5; r = x", "x, y = "+a+"; r = y",
			"r = "+a+"[:1]", "r = append("+a+", 1)", "r = get("+a+", 0)", "x = "+a+"; set(x, 0, 1); r = x", "x = "+a+"; delete(x, \"k\"); r = x", "r = sub("+a+", 0, 1)",
			"r = 0; switch "+a+" { case 1: r = 1; case \"s\": r = 2; default: r = 3 }", "r = 0; if "+a+" { r = 1 } else { r = 2 }", "x = slice(\"int\", 2); x[1] = "+a+"; r = x", "m = mkmap(\"string:int\"); m.k = "+a+"; r = m", "r = fn(x...) { len(x) }("+a+")")
	}
	qs = append(qs, "r = 0; for i = 0; i < 5; i++ { r += i }", "class A { fn _init(a) { this.a = a } fn g() { this.a } } x = new A(3); r = x.g()", "f = fn(n) { if n <= 0 { return 0 }; n + f(n-1) }; r = f(5)",
		"r = 1; fn() { defer fn() { r = recover() }(); panic(\"boom\") }()", "r = [fn() { 1 }, fn(x) { x }][1](7)", "r = 1;; r = 5", "x = ", "r = 08", "r = \"a", "r = `a\r\nb`", "r = `\r`; r = len(r)", "C = class { }; x = new C; x.y = 1; r = x.y", "export a; r = 1", "r = 1 // c\n/* d */ r = 2 # e\n")
	qbody := func(name string, opt *qlang.Options) body {
		return body{name, func(bool) string {
			var log strings.Builder
			q, err := qlang.New(opt)
			if err != nil {
				return err.Error()
			}
			for _, s := range qs {
				guarded(&log, func() (interface{}, error) {
					err := q.SafeEval(s)
					v, ok := q.Var("r")
					if k := reflect.ValueOf(v).Kind(); k == reflect.Ptr || k == reflect.Func || k == reflect.Struct {
						v = k
					}
					return fmt.Sprint(v, ok, err == nil), nil
				})
			}
			return log.String()
		}}
	}
	ext := body{"extractor of all types", func(bool) string {
		var log strings.Builder
		for _, g := range []string{
			"doc = *(STRING/s_Strings | INT/i_Ints | FLOAT/f_Floats | CHAR/c_Chars | IDENT/t_Texts | '(' doc ')')",
			"doc = *(STRING/s_String | INT/i_Int | FLOAT/f_Float | CHAR/c_Char | IDENT/t_Text | ('(' doc ')')/n_Node)",
			"doc = +((IDENT/k_Text '=' (INT/v_IntArray | STRING/s_StringArray))/items_NodeArray % ',')", "doc = IDENT/nope", "doc = (IDENT/a_Text)/n_Nodes"} {
			guarded(&log, func() (interface{}, error) {
				e, err := extractor.New(g, nil)
				if err != nil {
					return nil, err
				}
				for _, s := range []string{"\"a\\n\" 1 2.5 'c' x", "( 1 ( \"s\" ) ) y", "a = 1, b = \"x\"", "'é'", "\"\\q\"", "1 1", "99999999999999999999", "", "`r\r`"} {
					guarded(&log, func() (interface{}, error) { return e.SafeExtract(s) })
				}
				return "done", nil
			})
		}
		return log.String()
	}}
	gram := body{"grammar texts", func(bool) string {
		var log strings.Builder
		pegTexts := []string{"doc = +(IDENT/a % ',' | INT %= ';') ?('+' ! '-')", "doc = @IDENT *(~INT x); x = IDENT | '+' | \"kw\"", "doc = x", "doc = (", "doc = 'ab'", "doc = 2", "doc = IDENT/", "x = doc; doc = 1 EOF", "doc = IDENT $"}
		for _, g := range pegTexts {
			for _, mk := range []func(tpl.Grammar, string) tpl.Grammar{nil, func(g tpl.Grammar, m string) tpl.Grammar { return tpl.Action(g, func([]tpl.Token, tpl.Grammar) {}) }} {
				guarded(&log, func() (interface{}, error) {
					m, err := (&tpl.Compiler{Grammar: []byte(g), Marker: mk, ScanMode: tpl.InsertSemis}).Cl()
					if err != nil {
						return nil, err
					}
					for _, s := range []string{"a, b, c +-", "1; 2\n", "a + kw", "\n\n$", "a +\n\n+", ""} {
						guarded(&log, func() (interface{}, error) { return nil, m.Eval(s) })
						guarded(&log, func() (interface{}, error) { return nil, m.EvalSub("x", []byte(s)) })
						guarded(&log, func() (interface{}, error) { t, err := m.Tokenize([]byte(s), "f"); return len(t), err })
					}
					return m.Code(), nil
				})
			}
		}
		return log.String()
	}}
	return []body{
		lexBody(),
		calc("every function of number", func() (interface{}, func() interface{}) {
			c := number.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, calls(keys(number.Fntable), "", "1", "0.5, 2", "1, 2, 3")),
		calc("every function of cmplx", func() (interface{}, func() interface{}) {
			c := cmplx.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, calls(keys(cmplx.Fntable), "", "1", "0.5i, 2", "1, 2i, 3")),
		calc("every function of rat", func() (interface{}, func() interface{}) {
			c := rat.New()
			return c, func() interface{} { v, ok := c.Ret(); return fmt.Sprint(v, ok) }
		}, calls(keys(rat.Fntable), "", "1", "1/2, 2", "1, 2, 3")),
		qbody("qlang snippets", nil), qbody("qlang snippets, inserted semicolons", &qlang.Options{ScanMode: tpl.InsertSemis}),
		ext, gram,
	}
}

// RaceBody runs all bodies in parallel without control.
func RaceBody() {
	bodies := append(indepBodies(), moreBodies()...)
	want := make([]string, len(bodies))
	for i, b := range bodies {
		want[i] = b.run(true)
	}
	fmt.Println("RACEBODY BEGIN")
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := ""
	for k := 0; k < 4; k++ {
		for i, b := range bodies {
			i, b := i, b
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 3; r++ {
					if got := b.run(true); got != want[i] {
						mu.Lock()
						bad = b.name + ": " + got
						mu.Unlock()
					}
				}
			}()
		}
	}
	wg.Wait()
	if bad != "" {
		fmt.Println("RACEBODY DIFFERS", bad)
		return
	}
	fmt.Println("RACEBODY OK")
}
