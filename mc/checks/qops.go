package checks

import (
	"fmt"
	"math"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"
)

func init() {
	core.Register(&core.Check{
		ID:   "C29",
		Rule: "a case is one program that applies one operator, assignment operator or builtin function to values of given types, or one token string of an expression; outcome, value and variables are compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"values of conversions that Go leaves to the implementation (NaN to int) aren't tried",
			"texts of run-time errors other than those of panic aren't compared"},
		Run: runC29,
	})
}

// qval is a value with a way to write it.
type qval struct {
	name string
	e    func() *qref.N
}

func qlit(v interface{}) func() *qref.N { return func() *qref.N { return qref.Lit(v) } }

func qneg(v interface{}) func() *qref.N {
	return func() *qref.N { return qref.Un("-", qref.Lit(v)) }
}

var (
	qL, qV = qref.Lit, qref.Var
	qC     = qref.CallN
)

// qvalues are values of all types of the language.
func qvalues() []qval {
	return []qval{
		{"nil", qlit(nil)}, {"true", qlit(true)}, {"false", qlit(false)},
		{"0", qlit(0)}, {"1", qlit(1)}, {"2", qlit(2)}, {"-3", qneg(3)}, {"7", qlit(7)}, {"maxint", qlit(math.MaxInt64)},
		{"minint", func() *qref.N { return qref.Bin("-", qneg(math.MaxInt64)(), qL(1)) }},
		{"0.0", qlit(0.0)}, {"2.0", qlit(2.0)}, {"2.5", qlit(2.5)}, {"-0.5", qneg(0.5)}, {"1e300", qlit(1e300)},
		{"empty string", qlit("")}, {"a", qlit("a")}, {"b", qlit("b")}, {"aé", qlit("aé")}, {"10", qlit("10")},
		{"'a'", qlit(byte('a'))}, {"'\\x02'", qlit(byte(2))}, {"'\\xff'", qlit(byte(255))},
		{"[]", func() *qref.N { return qref.List() }},
		{"[1, 2, 7]", func() *qref.N { return qref.List(qL(1), qL(2), qL(7)) }},
		{"[2.5, 1]", func() *qref.N { return qref.List(qL(2.5), qL(1)) }},
		{"[a b]", func() *qref.N { return qref.List(qL("a"), qL("b")) }},
		{"[nil 1 a]", func() *qref.N { return qref.List(qL(nil), qL(1), qL("a")) }},
		{"['a']", func() *qref.N { return qC("append", qC("slice", qL("byte")), qL(byte('a')), qL(byte('b'))) }},
		{"{}", func() *qref.N { return qC("mapFrom") }},
		{"{a: 1}", func() *qref.N { return qref.Map(qL("a"), qL(1)) }},
		{"{a: x, b: nil}", func() *qref.N { return qref.Map(qL("a"), qL("x"), qL("b"), qL(nil)) }},
		{"{1: 2.5}", func() *qref.N { return qref.Map(qL(1), qL(2.5), qL(2), qL(7)) }},
		{"undefined", qlit(qref.Undefined)},
		{"int", qlit("int")}, {"string:int", qlit("string:int")},
		{"type int", func() *qref.N { return qC("type", qL(1)) }},
		{"type []string", func() *qref.N { return qC("sliceOf", qL("string")) }},
		{"type map", func() *qref.N { return qC("mapOf", qL("int"), qL("var")) }},
		{"fn", func() *qref.N { return qref.Fn("a", false, qref.Ret(qV("a"))) }},
		{"class", func() *qref.N { return qref.Class(qref.Method("m", "", false, qref.Ret(qL(1)))) }},
		{"object", func() *qref.N { return qV("obj") }},
	}
}

// qnum is a number, perhaps negative.
func qnum(f float64, v interface{}) *qref.N {
	if f < 0 {
		switch v := v.(type) {
		case int:
			return qref.Un("-", qL(-v))
		case float64:
			return qref.Un("-", qL(-v))
		}
	}
	return qL(v)
}

// qhead defines what the values need.
func qhead() []*qref.N {
	return []*qref.N{qref.Set("Cls", qref.Class(qref.Method("m", "", false, qref.Ret(qL(1))))), qref.Set("obj", qref.New("Cls"))}
}

var qbinops = []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "&&", "||"}

func runC29(c *core.C) {
	vals := qvalues()
	prog := func(s ...*qref.N) { qprog(c, append(qhead(), s...), 1) }
	c.Family("unary operators on all values")
	for _, v := range vals {
		for _, op := range []string{"-", "!", "+"} {
			prog(qref.Set("r", qref.Un(op, v.e())))
			prog(qref.Set("r", qref.Un(op, qref.Un(op, v.e()))))
		}
		for _, s := range []*qref.N{qref.Inc("x"), qref.Dec("x")} {
			prog(qref.Set("x", v.e()), s)
			prog(qref.Set("x", v.e()), s.Copy(), s.Copy(), s.Copy())
			prog(s.Copy())
		}
	}
	c.Family("binary operators on all pairs of values")
	for _, op := range qbinops {
		for _, a := range vals {
			for _, b := range vals {
				prog(qref.Set("r", qref.Bin(op, a.e(), b.e())))
			}
		}
	}
	c.Family("assignment operators on all pairs of values")
	for _, op := range []string{"+=", "-=", "*=", "/=", "%="} {
		for _, a := range vals {
			for _, b := range vals {
				prog(qref.Set("x", a.e()), qref.OpSet("x", op, b.e()))
			}
		}
		prog(qref.OpSet("x", op, qL(1)))
		prog(qref.Set("x", qL(1)), qref.OpSet("x", op, qV("x")), qref.OpSet("x", op, qV("x")))
	}
	c.Family("builtin functions on all tuples of values")
	fns := []string{"append", "delete", "get", "len", "cap", "mkmap", "mapFrom", "mapOf", "set", "slice", "sliceFrom", "sliceOf", "string", "sub", "float", "int", "byte", "max", "min", "panicf", "type"}
	is := func(name string, out ...string) bool {
		for _, o := range out {
			if name == o {
				return true
			}
		}
		return false
	}
	for _, f := range fns {
		call := func(args ...*qref.N) {
			prog(qref.Set("r", qC(f, args...)))
		}
		call()
		for _, a := range vals {
			if f == "type" && is(a.name, "fn", "class", "object", "undefined") || is(f, "int", "byte") && a.name == "1e300" ||
				f == "slice" && a.name == "maxint" {
				continue
			}
			call(a.e())
			if f == "type" {
				continue
			}
			for _, b := range vals {
				if f == "panicf" && !is(b.name, "0", "1", "a", "true") {
					continue
				}
				if f == "slice" && is(b.name, "maxint") {
					continue
				}
				call(a.e(), b.e())
			}
		}
	}
	c.Family("builtin functions with three arguments")
	some := func(names ...string) (out []qval) {
		for _, n := range names {
			found := false
			for _, v := range vals {
				if v.name == n {
					out, found = append(out, v), true
				}
			}
			if !found {
				panic("no value " + n)
			}
		}
		return
	}
	few := some("nil", "true", "0", "1", "2", "-3", "2.5", "a", "empty string", "'a'", "[1, 2, 7]", "[nil 1 a]", "{a: 1}", "{}", "{1: 2.5}", "undefined", "object", "['a']", "[2.5, 1]", "aé", "int")
	for _, f := range []string{"append", "mapFrom", "set", "slice", "sliceFrom", "sub", "max", "min", "get"} {
		for _, a := range few {
			for _, b := range few {
				for _, d := range few {
					if f == "set" {
						prog(qref.Set("x", a.e()), qC("set", qV("x"), b.e(), d.e()))
						continue
					}
					prog(qref.Set("r", qC(f, a.e(), b.e(), d.e())))
				}
			}
		}
	}
	c.Family("builtin functions with many arguments")
	for n := 1; n <= c.Pick(36, 140); n++ {
		for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
			if at < 0 || at >= n {
				continue
			}
			for _, special := range []interface{}{99, -99, 2.5, 99.5, -99.5, "s", nil} {
				for _, rest := range []interface{}{3, 1.5} {
					var k []*qref.N
					for i := 0; i < n; i++ {
						v := rest
						if i == at {
							v = special
						} else if i%5 == 4 {
							v = 4
						}
						switch v := v.(type) {
						case int:
							k = append(k, qnum(float64(v), v))
						case float64:
							k = append(k, qnum(v, v))
						default:
							k = append(k, qL(v))
						}
					}
					prog(qref.Set("r", qC("max", k...)))
					prog(qref.Set("r", qC("min", k...)))
					prog(qref.Set("r", qref.List(k...)), qref.Set("s", qref.Spread(qV("append"), qV("r"), qref.List(qref.CopyBlock(k)...))))
					if n%2 == 0 {
						prog(qref.Set("r", qC("mapFrom", k...)))
					}
				}
			}
		}
	}
	c.Family("lists and maps of up to four values")
	items := some("nil", "1", "2.5", "a", "'a'", "[1, 2, 7]", "undefined", "0", "true")
	eachIdx(c, len(items), 0, c.Pick(4, 5), func(ix []int) {
		var k []*qref.N
		for _, i := range ix {
			k = append(k, items[i].e())
		}
		prog(qref.Set("r", qref.List(k...)))
		if len(k) <= 3 {
			prog(qref.Set("r", qC("sliceFrom", k...)))
			prog(qref.Set("r", qC("max", k...)), qref.Set("s", qC("min", k...)))
		}
		for _, keys := range [][]interface{}{{"a", "b", "c", "d"}, {1, 2, 3, 4}, {"a", "b", "a", "b"}, {"a", 1, "b", 2}, {1, 1.5, 2, 3}, {true, false, true, false}} {
			var m []*qref.N
			for i, v := range k {
				if i < 4 {
					m = append(m, qL(keys[i]), v.Copy())
				}
			}
			if len(k) > 0 && len(k) <= 4 {
				prog(qref.Set("r", qref.Map(m...)))
				if len(k) < 3 {
					prog(qref.Set("r", qC("mapFrom", m...)))
				}
			}
		}
	})
	literalSizes(c)
	sizesC29(c)
	c.Family("indexes and sub-slices")
	idx := []func() *qref.N{nil, qlit(0), qlit(1), qlit(2), qlit(3), qlit(4), qneg(1), qlit(1.0), qlit("a"), qlit(nil), qlit(byte(1)), qlit(true)}
	conts := some("empty string", "a", "aé", "[]", "[1, 2, 7]", "[a b]", "[nil 1 a]", "['a']", "{}", "{a: 1}", "{1: 2.5}", "nil", "7", "fn", "object", "undefined", "{a: x, b: nil}")
	for _, a := range conts {
		for _, i := range idx {
			if i != nil {
				prog(qref.Set("x", a.e()), qref.Set("r", qref.Index(qV("x"), i())))
				prog(qref.Set("r", qC("get", a.e(), i())))
			}
			for _, j := range idx {
				var in, jn *qref.N
				if i != nil {
					in = i()
				}
				if j != nil {
					jn = j()
				}
				prog(qref.Set("x", a.e()), qref.Set("r", qref.Sub(qV("x"), in, jn)), qref.Set("n", qC("len", qV("r"))))
				prog(qref.Set("x", a.e()), qref.Set("r", qref.Sub(qref.Sub(qV("x"), in.Copy(), nil), nil, jn.Copy())))
			}
		}
		prog(qref.Set("x", a.e()), &qref.N{Op: "index", K: []*qref.N{qV("x"), qref.List()}})
	}
	c.Family("strings and characters as literals")
	bits := []string{"a", "é", "中", `\n`, `\\`, `\x41`, `\xff`, `\101`, `\377`, `\u00e9`, `\u4e2d`, `\U0001F600`, `\'`, `\"`, `"`, "'", "`", `\t`, `\0`, `\q`, " ", "//", "/*"}
	for _, q := range []string{"\"", "'", "`"} {
		eachString(c, bits, 0, c.Pick(2, 3), func(body string) {
			lit := q + body + q
			lx := lexOne(lit)
			if lx == "" {
				return
			}
			qlitCase(c, lit)
		})
	}
	c.Family("numbers as literals")
	for _, l := range []string{"0", "00", "010", "0777", "0x1F", "0XfF", "9223372036854775807", "9223372036854775808", "0x7fffffffffffffff", "0x8000000000000000", "08.5", "1e3", ".5", "5.", "1e308", "1e400", "0e0", "007.25", "1.7976931348623157e308", "5e-324"} {
		qlitCase(c, l)
	}
	qgroup(c)
}

// lexOne gives the token kind if lit is exactly one literal token: "s", "c" or "".
func lexOne(lit string) string {
	lx := lexOf(lit)
	return lx
}

func qlitCase(c *core.C, lit string) {
	c.Do(func() string { return "x = " + lit }, func() string {
		want, ok, open := qlitValue(lit)
		if open {
			return ""
		}
		c.AddTrace(1)
		c.AddStates(1)
		c.AddTransitions(1)
		q := qget(false)
		err := q.SafeEval("x = " + lit)
		if (err == nil) != ok {
			return fmt.Sprintf("error %v, want ok=%v", err, ok)
		}
		v, set := q.Var("x")
		if !ok {
			if set {
				return fmt.Sprintf("x is %v", v)
			}
			return ""
		}
		c.Nontrivial(1)
		c.Outcome(fmt.Sprintf("%T", want))
		if v != want {
			return fmt.Sprintf("x is %T %v, want %T %v", v, v, want, want)
		}
		return ""
	})
}

// qlitValue is what a literal means.
func qlitValue(lit string) (v interface{}, ok, open bool) {
	switch lit[0] {
	case '"', '`':
		s, _, _, ok := unquote(lit)
		return s, ok, false
	case '\'':
		if len(lit) < 3 {
			return nil, false, false
		}
		_, cp, wide, ok := unquote(lit)
		if !ok || wide && cp >= 0x80 || cp > 255 {
			return nil, false, false
		}
		return byte(cp), true, wide
	}
	r := refNum(lit)
	if strings.ContainsAny(lit, ".") || strings.ContainsAny(lit, "eE") && !strings.HasPrefix(strings.ToLower(lit), "0x") {
		f, _ := r.Float64()
		return f, !math.IsInf(f, 0), false
	}
	if !r.Num().IsInt64() {
		return nil, false, false
	}
	return int(r.Num().Int64()), true, false
}

// qgroup enumerates token strings of expressions.
func qgroup(c *core.C) {
	sets := [][]string{
		{"7", "2", "+", "-", "*", "%", "(", ")"},
		{"3", "2.5", "<", "==", "+", "!", "tt", "&&", "||"},
		{"tt", "ff", "&&", "||", "!", "(", ")", "==", "t"},
		{"x", "1", "[", "]", ":", ",", "(", ")", "f", "..."},
		{"m", ".", "a", "(", ")", "{", "}", ":", `"a"`, ",", "["},
		{"f", "(", ")", ",", "...", "x", "fn", "{", "}", "1"},
	}
	for _, set := range sets {
		c.Family("all expressions over " + strings.Join(set, " "))
		eachIdx(c, len(set), 1, c.Pick(5, 6), func(ix []int) {
			toks := make([]string, len(ix))
			for i, k := range ix {
				toks[i] = set[k]
			}
			qexpr(c, toks)
		})
	}
	c.Family("all expressions of operands and operators in turn")
	ops := []string{"+", "-", "*", "/", "%", "<", "==", "&&", "||", ">=", "!="}
	opnd := []string{"7", "2", "3.5", "tt", "- 3", "! ff", "( 2 - 9 )"}
	eachIdx(c, len(ops), 1, c.Pick(4, 5), func(ix []int) {
		for s := 0; s < 3; s++ {
			var toks []string
			for i, k := range ix {
				o := opnd[(s*3+i)%len(opnd)]
				if (k == 7 || k == 8) && s == 1 {
					o = "tt"
				}
				toks = append(toks, strings.Fields(o)...)
				toks = append(toks, ops[k])
			}
			qexpr(c, append(toks, strings.Fields(opnd[(s*5+len(ix))%len(opnd)])...))
		}
	})
	c.Family("long and deep expressions")
	for _, n := range pumpsUpTo(c.Pick(300, 2100)) {
		if n < 2 {
			continue
		}
		qexpr(c, append(repS("7 -", n), "1"))
		qexpr(c, append(repS("2 +", n), strings.Fields("7 * 3")...))
		qexpr(c, append(repS("-", n), "7"))
		qexpr(c, append(repS("!", n), "tt"))
		qexpr(c, append(append(repS("tt &&", n), "ff"), repS("|| tt", 1)...))
		qexpr(c, append(repS("ff ||", n), "7"))
		if n <= 60 {
			qexpr(c, append(append(repS("(", n), "7"), repS(")", n)...))
			qexpr(c, append(append(repS("1 - (", n), "7"), repS(")", n)...))
			qexpr(c, append(append(repS("f (", n), "7"), repS(")", n)...))
			qexpr(c, append(append(repS("[", n), "7"), repS("]", n)...))
		}
		qexpr(c, append(append([]string{"["}, repS("7 ,", n)...), "]"))
	}
}
