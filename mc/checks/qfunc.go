package checks

import (
	"strings"

	"verif/mc/core"
	"verif/mc/qref"
)

func init() {
	core.Register(&core.Check{
		ID:   "C31",
		Rule: "a case is one program that defines functions (all parameter lists, bodies up to a size) and calls them in one context, compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"return and main at the top level end the process and aren't run",
			"fn(...) without a name isn't specified"},
		Run: runC31,
	})
	core.Register(&core.Check{
		ID:          "C32",
		Rule:        "a case is one program (all bodies up to a size) with deferred calls, panics, errors, recover and return in up to three activations; traced calls, outcome, error text and variables are compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"return inside the deferred expression itself, panic(nil) and the texts of errors other than those of panic aren't specified"},
		Run:         runC32,
	})
	core.Register(&core.Check{
		ID:          "C33",
		Rule:        "a case is one program (all bodies up to a size) that reads, assigns, shadows and unsets variables in functions nested up to three deep, called at once, later or several times, compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: nil,
		Run:         runC33,
	})
}

var qnames = []string{"a", "b", "d", "e", "g", "h", "k"}

func runC31(c *core.C) {
	c.Family("parameters and arguments")
	argSets := []func(i int) *qref.N{func(i int) *qref.N { return tr(i + 1) }, func(i int) *qref.N { return qL([]interface{}{nil, "s", 2.5, true, 1}[i%5]) }}
	slices := []*qref.N{qref.List(), qref.List(qL(21)), qref.List(qL("x"), qL(22)), qref.List(qL(1.5), qL(2)), qL(nil), qL(3), qL("str"), qref.Map(qL("a"), qL(1)), qC("slice", qL("int"), qL(4)), qV("undefined"), qref.List(qL("p"), qL("q"), qL("r"))}
	for np := 0; np <= c.Pick(4, 6); np++ {
		for _, variadic := range []bool{false, true} {
			if np == 0 && variadic {
				continue
			}
			params := qnames[:np]
			var rets []*qref.N
			for _, n := range params {
				rets = append(rets, qV(n))
			}
			bodies := [][]*qref.N{qref.B(qref.Ret(qref.List(append(rets, qL("end"), qL(nil))...))), nil, qref.B(tr(70))}
			for bi, body := range bodies {
				for na := 0; na <= np+2; na++ {
					for _, as := range argSets {
						var args []*qref.N
						for i := 0; i < na; i++ {
							args = append(args, as(i))
						}
						f := qref.Fn(strings.Join(params, " "), variadic, body...)
						qprog(c, qref.CopyBlock(qref.B(qref.Set("f", f), qref.Set("r", qC("f", args...)))), 3)
						qprog(c, qref.CopyBlock(qref.B(qref.Set("r", qref.Call(f, args...)), qref.Set("s", qref.List(tr(1), qref.Call(f, args...), tr(2))))), 1)
						if bi > 0 {
							continue
						}
						m := qref.Class(qref.Method("m", strings.Join(params, " "), variadic, body...), qref.Method("_init", strings.Join(params, " "), variadic, qC("set", qV("this"), qL("v"), qref.List(append(rets, qL(nil))...))))
						qprog(c, qref.CopyBlock(qref.B(qref.Set("C", m), qref.Set("o", qref.New("C", args...)), qref.Set("s", qref.Mem(qV("o"), "v")), qref.Set("r", qref.Call(qref.Mem(qV("o"), "m"), args...)))), 1)
						for _, s := range slices {
							qprog(c, qref.CopyBlock(qref.B(qref.Set("f", f), qref.Set("r", qref.Spread(qV("f"), append(append([]*qref.N{}, args...), s)...)))), 1)
						}
					}
				}
			}
		}
	}
	for _, callee := range []*qref.N{qL(nil), qL(3), qL("f"), qL(true), qref.List(), qref.Map(), qL(2.5), qV("undefined"), qref.Class(), qref.List(qV("f"))} {
		for na := 0; na < 3; na++ {
			var args []*qref.N
			for i := 0; i < na; i++ {
				args = append(args, tr(i))
			}
			qprog(c, qref.CopyBlock(qref.B(qref.Set("f", qref.Fn("", false, qref.Ret(qL(1)))), qref.Set("x", callee), qref.Set("r", qC("x", args...)))), 1)
			qprog(c, qref.CopyBlock(qref.B(qref.Set("x", callee), qref.Set("r", qref.Spread(qV("x"), append(args, qref.List())...)))), 1)
		}
	}
	c.Family("all bodies of a function, in contexts")
	p := func(i int) *qref.N { return qC("t", qL(i)) }
	contexts := []func(call func(n int) *qref.N) []*qref.N{
		func(f func(n int) *qref.N) []*qref.N { return qref.B(qref.Set("r", f(2))) },
		func(f func(n int) *qref.N) []*qref.N {
			return qref.B(qref.Set("r", qref.List(p(1), f(1), p(2), f(2), p(3))))
		},
		func(f func(n int) *qref.N) []*qref.N {
			return qref.B(qref.Set("r", qref.If(qref.Bin("==", p(5), qref.Index(qref.List(p(4), f(0)), qL(1))), qref.B(f(1))).Otherwise(qref.B(p(9), f(2)))))
		},
		func(f func(n int) *qref.N) []*qref.N {
			return qref.B(qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(3)), qref.Inc("i"), f(1), qref.Set("r", f(2)), p(1)), f(0))
		},
		func(f func(n int) *qref.N) []*qref.N {
			return qref.B(qref.Set("g", qref.Fn("a", false, f(1), qref.Ret(qref.Bin("==", qV("a"), f(0))))), qref.Set("r", qref.List(p(0), qC("g", f(2)), qL(nil))))
		},
		func(f func(n int) *qref.N) []*qref.N {
			return qref.B(f(1), p(1), f(2), qref.Set("s", qref.Switch(f(1)).Case(f(0), qref.B(f(2))).Otherwise(qref.B(p(3), f(2)))))
		},
	}
	body := func(g *blockGen, n int) (out []*qref.N) {
		for _, b := range g.blocks(n - 1) {
			out = append(out, qref.If(qref.Bin("==", qV("n"), qL(1)), b), qref.While(qref.Bin(">", qV("n"), qL(0)), append([]*qref.N{qref.Dec("n")}, b...)...),
				qref.Set("y", qref.List(p(30), qref.If(qref.Bin(">", qV("n"), qL(0)), b))))
			if n > 1 {
				out = append(out, qref.Switch(qV("n")).Case(qL(1), qref.B(mark())).Otherwise(b))
			}
		}
		return
	}
	leaves := []*qref.N{mark(), qref.Ret(qV("n")), qref.Ret(), qref.Dec("n"), qref.Ret(qref.Bin("-", qL(7), qref.Set("x", qL(1)))),
		qref.Set("r", qref.If(qref.Bin(">", qV("n"), qL(0)), qref.B(qC("f", qref.Bin("-", qV("n"), qL(1)))))), qref.Ret(qref.List(qV("n"), qL("x")))}
	leaves[4] = qref.Ret(qref.If(qref.Bin("==", qV("n"), qL(2)), qref.B(qref.Ret(qL(8)))).Otherwise(qref.B(qL(9))))
	newGen(leaves, body).each(c, 0, c.Pick(3, 4), func(b []*qref.N) {
		if len(b) == 0 {
			return
		}
		for _, ctx := range contexts {
			prog := append(qref.B(qref.Set("f", qref.Fn("n", false, qref.CopyBlock(b)...))), ctx(func(n int) *qref.N { return qC("f", qL(n)) })...)
			qprog(c, qref.CopyBlock(prog), 3)
		}
	})
	c.Family("recursion")
	n1 := qref.Bin("-", qV("n"), qL(1))
	base := func(v interface{}) *qref.N { return qref.If(qref.Bin("<", qV("n"), qL(1)), qref.B(qref.Ret(qL(v)))) }
	recs := []*qref.N{
		qref.Fn("n", false, base(0), qref.Ret(qref.Bin("+", qV("n"), qC("f", n1)))),
		qref.Fn("n", false, base(1), qref.Ret(qref.Bin("-", qref.Bin("*", qL(3), qC("f", n1)), qref.Bin("*", qV("n"), qL(2))))),
		qref.Fn("n", false, base(""), qref.Set("s", qC("f", n1)), qref.Ret(qref.Bin("+", qV("s"), qL("x")))),
		qref.Fn("n", false, base(nil), tr(1), qC("f", n1), tr(2), qref.Ret(qV("n"))),
		qref.Fn("n", false, base(0), qref.Defer(qC("t", qV("n"))), qref.Ret(qref.Bin("+", qL(1), qC("f", n1)))),
		qref.Fn("n", false, base(0), qref.Ret(qref.Index(qref.List(qL(1), qC("f", n1), qL(3)), qL(1)))),
		qref.Fn("n", false, base(0), qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(1)), qref.Inc("i"), qref.Set("r", qC("f", n1))), qref.Ret(qref.Bin("+", qV("r"), qV("i")))),
	}
	qmax = 200000
	for _, f := range recs {
		for n := 0; n <= c.Pick(70, 190); n++ {
			qprog(c, qref.CopyBlock(qref.B(qref.Set("f", f), qref.Set("x", qref.List(tr(7), qC("f", qL(n)), qL(nil))))), 3)
		}
	}
	for n := 0; n <= c.Pick(10, 13); n++ {
		fib := qref.Fn("n", false, qref.If(qref.Bin("<", qV("n"), qL(2)), qref.B(qref.Ret(qV("n")))), qref.Ret(qref.Bin("+", qC("f", n1), qC("f", qref.Bin("-", qV("n"), qL(2))))))
		qprog(c, qref.CopyBlock(qref.B(qref.Set("f", fib), qref.Set("x", qC("f", qL(n))))), 1)
		even := qref.Fn("n", false, qref.If(qref.Bin("==", qV("n"), qL(0)), qref.B(qref.Ret(qL(true)))), qref.Ret(qC("g", n1)))
		odd := qref.Fn("n", false, qref.If(qref.Bin("==", qV("n"), qL(0)), qref.B(qref.Ret(qL(false)))), qref.Ret(qref.Un("!", qref.Un("!", qC("f", n1)))))
		qprog(c, qref.CopyBlock(qref.B(qref.Set("f", even), qref.Set("g", odd), qref.Set("x", qC("f", qL(n))), qref.Set("y", qC("g", qL(n))))), 1)
	}
	qmax = 5000
	c.Family("functions as values")
	inc := qref.Fn("v", false, tr(1), qref.Ret(qref.Bin("+", qV("v"), qL(1))))
	twice := qref.Fn("q", false, qref.Ret(qref.Fn("v", false, qref.Ret(qC("q", qC("q", qV("v")))))))
	makes := []*qref.N{qV("inc"), qC("twice", qV("inc")), qC("twice", qC("twice", qV("inc"))), qref.Call(qC("twice", qV("twice")), qV("inc")), qref.Index(qref.List(qL(1), qV("inc")), qL(1)),
		qref.Mem(qref.Map(qL("m"), qV("inc"), qL("n"), qL(1)), "m"), qref.If(qL(true), qref.B(qV("inc"))), qref.Fn("v", false, qref.Ret(qV("v"))), qV("max"), qV("sliceFrom"), qV("t"),
		qref.Call(qref.Fn("", false, qref.Ret(qV("inc")))), qref.Fn("v", true, qref.Ret(qC("len", qV("v"))))}
	for _, a := range makes {
		for _, b := range makes {
			pre := qref.B(qref.Set("inc", inc), qref.Set("twice", twice), qref.Set("a", a), qref.Set("b", b))
			qprog(c, qref.CopyBlock(append(pre[:4:4], qref.Set("r", qC("a", qC("b", qL(5)))), qref.Set("s", qref.List(qC("b", tr(6)), qref.Call(qC("twice", qV("a")), tr(7)), qL(nil))))), 3)
			qprog(c, qref.CopyBlock(append(pre[:2:2], qref.Set("r", qref.Bin("==", qref.Call(a, qL(1)), qref.Call(b, qL(1)))), qref.Set("fs", qref.List(a, b)), qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), qC("t", qref.Call(qref.Index(qV("fs"), qV("i")), qV("i")))))), 3)
		}
	}
	c.Family("returns outside functions end the process")
	qexitCases(c)
	kindsC31(c)
	sizesC31(c)
}

func runC32(c *core.C) {
	rec := func() *qref.N {
		return qref.Call(qref.Fn("", false, qref.Set("e", qref.Recover()), qC("t", qV("e"))))
	}
	leaves := []*qref.N{
		mark(), qC("panic", qL("p")), qref.Bin("+", qL(1), qL("a")), qref.Ret(qL(7)),
		qref.Defer(mark()), qref.Defer(rec()), qref.Defer(qC("panic", qL("q"))),
		qref.Defer(qref.Call(qref.Fn("", false, mark(), qC("panic", qL("z"))))),
		qC("panic", qL(3)), qref.Defer(qref.Call(qref.Fn("", false, rec()))), qref.Defer(qref.Recover()),
		qref.Set("v", qref.Bin("==", qL(1), qC("h", qL("v")))),
		qref.Defer(qref.If(qL(true), qref.B(qref.Defer(mark()), qref.Defer(mark()), mark()))),
		qref.Defer(qref.If(qL(true), qref.B(qref.Defer(rec()), qC("panic", qL("inner")), qref.Defer(mark())))),
	}
	h := qref.Set("h", qref.Fn("a", false, qref.Defer(qC("t", qL("h"))), qref.If(qref.Bin("==", qV("a"), qL("v")), qref.B(qC("panic", qL("from h")))), qref.Ret(qV("a"))))
	calls := func(b []*qref.N) [][]*qref.N {
		f := qref.Set("f", qref.Fn("x", false, b...))
		return [][]*qref.N{
			qref.B(h, f, tr(1), qref.Set("r", qref.List(tr(2), qC("f", qL(5)), tr(3))), tr(4)),
			qref.B(h, f, qref.Defer(tr(5)), qref.Set("g", qref.Fn("", false, qref.Defer(rec()), qref.Set("u", qref.Bin("==", tr(6), qC("f", qL(5)))), tr(7), qref.Ret(qV("u")))), qref.Set("r", qC("g")), tr(8)),
		}
	}
	c.Family("all bodies of a function")
	newGen(leaves, nil).each(c, 1, c.Pick(4, 5), func(b []*qref.N) {
		for _, p := range calls(b) {
			qprog(c, qref.CopyBlock(p), 3)
		}
	})
	c.Family("all bodies of a function, fewer statements, longer")
	few := []*qref.N{mark(), qC("panic", qL("p")), qref.Ret(qL(7)), qref.Defer(mark()), qref.Defer(rec()), qref.Defer(qC("panic", qL("q")))}
	newGen(few, nil).each(c, 4, c.Pick(5, 7), func(b []*qref.N) {
		qprog(c, qref.CopyBlock(calls(b)[1]), 1)
	})
	c.Family("all programs at the top level")
	top := []*qref.N{mark(), qC("panic", qL("p")), qref.Bin("+", qL(1), qL("a")), qref.Defer(mark()), qref.Defer(rec()), qref.Defer(qC("panic", qL("q"))), qC("panic", qL(3)),
		qref.Set("e", qref.Recover()), qref.Defer(qref.Call(qref.Fn("", false, qref.Defer(rec()), qC("panic", qL("w"))))), rec(), qref.Set("x", qV("nowhere"))}
	newGen(top, nil).each(c, 1, c.Pick(4, 6), func(b []*qref.N) {
		l := 3
		if len(b) > 3 {
			l = 1
		}
		qprog(c, b, l)
	})
	c.Family("nested activations")
	nest := []*qref.N{mark(), qC("panic", qL("p")), qref.Defer(mark()), qref.Defer(rec()), qref.Ret(qL(7)), qref.Set("v", qC("deeper"))}
	newGen(nest, nil).each(c, 1, c.Pick(4, 5), func(b []*qref.N) {
		for _, in := range [][]*qref.N{qref.B(qC("panic", qL("in"))), qref.B(qref.Defer(rec()), qC("panic", qL("in2"))), qref.B(qref.Defer(tr(9)), qref.Ret(qL(3))), qref.B(qref.Call(qref.Fn("", false, qref.Defer(tr(11)), qC("panic", qL("in4")))))} {
			for _, cond := range []bool{true, false} {
				body := qref.CopyBlock(b)
				if cond {
					body = qref.B(qref.If(qL(true), body), tr(20), qref.Ret(qL(21)))
				} else {
					body = qref.B(qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), body...), tr(22))
				}
				qprog(c, qref.CopyBlock(qref.B(qref.Set("deeper", qref.Fn("", false, in...)), qref.Set("f", qref.Fn("", false, body...)), qref.Set("r", qref.List(tr(1), qC("f"), tr(2))), qref.Defer(tr(23)), qref.Set("r2", qC("f")))), 1)
			}
		}
	})
	c.Family("deferred calls see the variables as they are at the end")
	for _, when := range []*qref.N{qref.Ret(qV("x")), qC("panic", qL("p")), tr(0)} {
		for _, d := range []*qref.N{qC("t", qV("x")), qC("t", qref.Bin("+", qV("x"), qL(1))), qref.Call(qref.Fn("a", false, qref.Inc("x"), qC("t", qV("a"))), qV("x")), qref.Call(qref.Fn("", false, qV("x"), qref.Inc("x"), qC("t", qV("x")))), qV("x"), qref.If(qref.Bin(">", qV("x"), qL(2)), qref.B(tr(30))).Otherwise(qref.B(tr(31)))} {
			for n := 0; n < 3; n++ {
				body := qref.B(qref.Defer(d), qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(n)), qref.Inc("i"), qref.Defer(d), qref.Inc("x")), when)
				qprog(c, qref.CopyBlock(qref.B(qref.Set("x", qL(1)), qref.Set("f", qref.Fn("x", false, body...)), qref.Set("r", qC("f", qL(2))), tr(40))), 3)
				if when.Op != "ret" {
					qprog(c, qref.CopyBlock(append(qref.B(qref.Set("x", qL(1))), body...)), 3)
				}
			}
		}
	}
	c.Family("many deferred calls, deep unwinding")
	for n := 1; n <= c.Pick(90, 180); n++ {
		loop := qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(n)), qref.Inc("i"), qref.Defer(qC("t", qV("i"))))
		qprog(c, qref.CopyBlock(qref.B(qref.Set("f", qref.Fn("", false, loop, qC("panic", qL("end")))), qref.Set("r", qC("f")))), 1)
		deep := qref.Fn("n", false, qref.Defer(qC("t", qV("n"))), qref.If(qref.Bin("==", qV("n"), qL(0)), qref.B(qC("panic", qL("deep")))), qC("f", qref.Bin("-", qV("n"), qL(1))))
		qprog(c, qref.CopyBlock(qref.B(qref.Set("f", deep), qref.Set("g", qref.Fn("", false, qref.Defer(rec()), qC("f", qL(n)))), qref.Set("r", qref.List(tr(1), qC("g"), tr(2))))), 1)
	}
	c.Family("what panics carry, and where")
	for _, v := range []*qref.N{qL("text"), qL(""), qL("a%db"), qL(3), qL(2.5), qL(true), qref.List(qL(1)), qref.Map(qL("a"), qL(1)), qL(byte('a')), qV("undefined"), qC("panicf", qL("%d and %s"), qL(3), qL("x")), qref.Bin("/", qL(1), qL(0)), qref.Index(qref.List(), qL(1)), qV("obj"), qref.Fn("", false)} {
		th := qC("panic", v)
		if v.Op == "call" || v.Op == "bin" || v.Op == "index" {
			th = v
		}
		cls := qref.B(qref.Set("C", qref.Class(qref.Method("m", "", false, th), qref.Method("_init", "", false, qL(1)))), qref.Set("obj", qref.New("C")))
		f := qref.Set("f", qref.Fn("", false, qref.Defer(qref.Call(qref.Fn("", false, qref.Set("e", qref.Recover()), qC("t", qV("e")), qref.If(qref.Bin("!=", qV("e"), qL(nil)), qref.B(qC("panic", qV("e"))))))), tr(1), th))
		for _, s := range [][]*qref.N{qref.B(th), qref.B(tr(1), tr(2), th), qref.B(f, qref.Set("r", qC("f"))), qref.B(qref.Call(qref.Mem(qV("obj"), "m"))), qref.B(qref.Defer(th)), qref.B(qref.If(qL(true), qref.B(tr(1), th))), qref.B(qref.Set("r", qref.Bin("||", qL(false), th)))} {
			qprog(c, qref.CopyBlock(append(cls, s...)), 7)
		}
	}
	kindsC32(c)
}

func runC33(c *core.C) {
	c.Family("all bodies of a function with an outer variable")
	// x: outer variable; a: parameter; _p: private; y: perhaps local
	leaves := []*qref.N{
		qC("t", qV("x")), qref.Set("x", qL(5)), qref.Inc("x"), qref.Set("y", qV("x")), qref.OpSet("x", "+=", qV("a")), qC("unset", qL("x")),
		qref.Set("a", qV("x")), qC("t", qV("y")), qref.Set("_p", qL(9)), qC("t", qV("_p")), qref.MSet("x, y", qref.List(qL(11), qL(12))),
		qref.MSet("x, a", qref.List(qL(13), qL(14))), qref.MSet("y, a, x", qref.List(qL(15), qL(16), qV("x"))),
	}
	newGen(leaves, nil).each(c, 1, c.Pick(4, 5), func(b []*qref.N) {
		f := qref.Set("f", qref.Fn("a", false, qref.CopyBlock(b)...))
		qprog(c, qref.CopyBlock(qref.B(qref.Set("x", qL(1)), f, qC("f", qL(3)), qC("t", qV("x")), qC("f", qL(4)))), 3)
		if len(b) < 4 {
			qprog(c, qref.CopyBlock(qref.B(qref.Set("x", qL(1)), qref.Set("a", qL(70)), qref.Set("y", qL(80)), f, qC("f", qL(3)), qC("t", qV("x")), qC("t", qV("a")), qC("t", qV("y")))), 1)
		}
		qprog(c, qref.CopyBlock(qref.B(qref.Set("_p", qL(2)), f, qref.Set("x", qL(1)), qC("f", qL(3)), qref.Set("x", qL(20)), qC("f", qL(4)))), 1)
	})
	c.Family("all bodies in nested functions")
	// inner statements run in a function inside a function
	in := []*qref.N{qC("t", qV("x")), qref.Set("x", qL(5)), qref.Inc("x"), qC("t", qV("y")), qref.Inc("y"), qref.Set("y", qL(6)), qC("unset", qL("x")), qref.Set("z", qL(1))}
	mid := [][]*qref.N{nil, qref.B(qC("t", qV("x"))), qref.B(qref.Set("x", qL(30))), qref.B(qC("t", qV("x")), qref.Set("x", qL(31))), qref.B(qref.Set("y", qL(32))), qref.B(qC("t", qV("y")), qref.Set("y", qL(33))), qref.B(qC("t", qV("x")), qC("unset", qL("x")))}
	newGen(in, nil).each(c, 1, c.Pick(3, 4), func(b []*qref.N) {
		for i, m := range mid {
			if c.Pick(0, 1) == 0 && len(b) == 3 && i > 2 {
				break
			}
			for _, after := range []int{0, 1} {
				inner := qref.Fn("", false, qref.CopyBlock(b)...)
				body := append(qref.CopyBlock(m), qref.Set("g", inner), qC("g"))
				if after == 1 {
					body = append(append([]*qref.N{qref.Set("g", inner)}, qref.CopyBlock(m)...), qC("g"), qC("g"))
				}
				qprog(c, qref.CopyBlock(qref.B(qref.Set("x", qL(1)), qref.Set("y", qL(2)), qref.Set("f", qref.Fn("", false, append(body, qC("t", qV("x")))...)), qC("f"), qC("t", qV("y")), qC("f"))), 1)
			}
		}
	})
	c.Family("closures that outlive their function")
	ops := []*qref.N{qref.Set("r", qC("t", qC("p"))), qref.Set("r", qC("t", qC("q"))), qref.Set("p", qC("make", qL(10))), qref.Set("q", qV("p")), qref.Set("q", qC("make", qL(20))), qref.Set("n", qL(50)), qC("t", qV("n")), qref.Set("q", qref.Call(qV("p"))), qC("unset", qL("make"))}
	makers := []*qref.N{
		qref.Fn("n", false, qref.Ret(qref.Fn("", false, qV("n"), qref.Inc("n"), qref.Ret(qV("n"))))),
		qref.Fn("a", false, qref.Set("v", qV("a")), qref.Set("g", qref.Fn("", false, qref.Set("v", qref.Bin("+", qV("v"), qL(1))), qref.Ret(qV("v")))), qref.Set("v", qL(7)), qref.Ret(qV("g"))),
		qref.Fn("a", false, qV("n"), qref.Ret(qref.Fn("", false, qV("n"), qref.OpSet("n", "+=", qV("a")), qref.Ret(qV("n"))))),
		qref.Fn("a", false, qref.Set("_s", qL(1)), qref.Ret(qref.Fn("", false, qref.Set("_s", qV("a")), qref.Ret(qV("_s"))))),
		qref.Fn("a", false, qref.Set("fs", qref.List()), qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), qref.Set("fs", qC("append", qV("fs"), qref.Fn("", false, qref.Ret(qref.Bin("+", qV("i"), qV("a"))))))), qref.Ret(qref.Index(qV("fs"), qL(0)))),
		qref.Fn("a", false, qref.Ret(qref.Fn("", false, qref.Set("w", qref.Fn("", false, qV("a"), qref.Inc("a"), qref.Ret(qV("a")))), qC("w"), qref.Ret(qC("w"))))),
		qref.Fn("a", false, qref.Defer(qref.Call(qref.Fn("", false, qV("v"), qref.OpSet("v", "*=", qL(2))))), qref.Set("v", qV("a")), qref.Ret(qref.Fn("", false, qref.Ret(qV("v"))))),
	}
	for _, mk := range makers {
		eachIdx(c, len(ops), 1, c.Pick(4, 5), func(ix []int) {
			p := qref.B(qref.Set("n", qL(0)), qref.Set("make", mk), qref.Set("p", qC("make", qL(1))), qref.Set("q", qC("make", qL(2))))
			for _, i := range ix {
				p = append(p, ops[i])
			}
			qprog(c, qref.CopyBlock(p), 1)
		})
	}
	c.Family("loops, branches and switches share the variables of their function")
	inner := []*qref.N{qref.Set("x", qL(2)), qref.Inc("x"), qref.Set("z", qV("x")), qC("t", qV("x")), qC("t", qV("z")), qC("unset", qL("x")), qC("unset", qL("z"))}
	wraps := []func(b []*qref.N) *qref.N{
		func(b []*qref.N) *qref.N { return qref.If(qL(true), b) },
		func(b []*qref.N) *qref.N { return qref.Switch(qL(1)).Case(qL(1), b) },
		func(b []*qref.N) *qref.N {
			return qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), b...)
		},
		func(b []*qref.N) *qref.N { return qref.If(qL(false), nil).Otherwise(b) },
	}
	newGen(inner, nil).each(c, 1, c.Pick(3, 4), func(b []*qref.N) {
		for _, w := range wraps {
			s := qref.B(w(qref.CopyBlock(b)), qC("t", qV("x")), qC("t", qV("z")))
			qprog(c, qref.CopyBlock(append(qref.B(qref.Set("x", qL(1))), s...)), 1)
			qprog(c, qref.CopyBlock(qref.B(qref.Set("x", qL(1)), qref.Set("z", qL(3)), qref.Set("f", qref.Fn("", false, append(qref.B(qV("x")), s...)...)), qC("f"), qC("t", qV("x")))), 1)
		}
	})
	c.Family("names of all forms in nested functions")
	for _, n := range []string{"_", "__", "_p", "_1", "p_", "P", "p1", "p_p", "é", "_é"} {
		v := qV(n)
		ops := []*qref.N{qC("t", v), qref.Set(n, qL(5)), qref.Inc(n), qref.OpSet(n, "*=", qL(3)), qC("unset", qL(n)), qref.MSet(n+", z", qref.List(qL(6), qL(7)))}
		newGen(ops, nil).each(c, 1, c.Pick(2, 3), func(b []*qref.N) {
			for _, head := range [][]*qref.N{nil, qref.B(qref.Set(n, qL(1)))} {
				for _, mid := range [][]*qref.N{nil, qref.B(v), qref.B(qref.Set(n, qL(2)))} {
					f := qref.Fn("", false, append(qref.CopyBlock(mid), qref.Set("g", qref.Fn("", false, qref.CopyBlock(b)...)), qC("g"), qC("t", v))...)
					qprog(c, qref.CopyBlock(append(qref.CopyBlock(head), qref.Set("f", f), qC("f"), qC("t", v))), 1)
				}
				qprog(c, qref.CopyBlock(append(qref.CopyBlock(head), qref.Set("f", qref.Fn(n, false, b...)), qC("f", qL(9)), qC("t", v))), 1)
			}
		})
	}
	c.Family("builtin names can be variables")
	for _, n := range []string{"len", "max", "nil", "true", "panic", "undefined", "set"} {
		for _, s := range [][]*qref.N{qref.B(qref.Set(n, qL(3))), qref.B(qref.Set(n, qL(3)), qC("unset", qL(n))), qref.B(qref.Inc(n)), qref.B(qref.OpSet(n, "+=", qL(1))), nil} {
			use := qref.B(qC("t", qref.Bin("==", qV(n), qL(3))), qC("t", qV(n)))
			qprog(c, qref.CopyBlock(append(append([]*qref.N{}, s...), use...)), 1)
			qprog(c, qref.CopyBlock(append(qref.B(qref.Set("f", qref.Fn("", false, append(append([]*qref.N{}, s...), use...)...)), qC("f")), use...)), 1)
			qprog(c, qref.CopyBlock(append(append(qref.B(qC("t", qV(n)), qref.Set("f", qref.Fn("", false, qV(n)))), s...), append(use, qC("t", qref.Call(qref.Fn("", false, qref.Ret(qV(n))))))...)), 1)
			qprog(c, qref.CopyBlock(append(append([]*qref.N{}, s...), qref.Set("f", qref.Fn(n, false, use...)), qC("f", qL(4)), qC("t", qV(n)))), 1)
		}
	}
	kindsC33(c)
	sizesC33(c)
}
