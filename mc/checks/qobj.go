package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/qlang"
)

func init() {
	core.Register(&core.Check{
		ID:   "C34",
		Rule: "a case is one history of operations on lists and maps (literals, set, append, delete, slicing, aliases, nested containers, containers passed to functions), written as a program; all variables are compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"whether a list shares memory with the list it was appended to isn't specified, nor is its capacity",
			"texts of run-time errors aren't compared"},
		Run: runC34,
	})
	core.Register(&core.Check{
		ID:          "C35",
		Rule:        "a case is one history of operations on classes and objects, written as a program; traced values and all variables are compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"arguments for a class without _init aren't specified"},
		Run:         runC35,
	})
	core.Register(&core.Check{
		ID:   "C36",
		Rule: "a case is one history of sources (succeeding, failing at run time, malformed) evaluated by one or two engines; after every one the outcome, traced calls, variables and result are compared with reference machines that have run the same sources; non-trivial: a failing source is followed by a succeeding one",
		Assumptions: []string{"effects of the well-formed beginning of a malformed source aren't specified; the malformed sources used have none",
			"Ret is compared only after a source without a trailing semicolon succeeded"},
		Run: runC36,
	})
}

// qhist runs all histories of operations.
func qhist(c *core.C, head []*qref.N, ops [][]*qref.N, min, max int, layouts int) {
	eachIdx(c, len(ops), min, max, func(ix []int) {
		p := append([]*qref.N{}, head...)
		for _, i := range ix {
			p = append(p, ops[i]...)
		}
		qprog(c, qref.CopyBlock(p), layouts)
	})
}

func runC34(c *core.C) {
	B, S := qref.B, qref.Set
	x, y, m, n := qV("x"), qV("y"), qV("m"), qV("n")
	set := func(a *qref.N, kv ...interface{}) *qref.N {
		k := []*qref.N{a}
		for _, v := range kv {
			if e, ok := v.(*qref.N); ok {
				k = append(k, e)
			} else {
				k = append(k, qL(v))
			}
		}
		return qC("set", k...)
	}
	c.Family("histories of a list")
	app := func(v ...*qref.N) []*qref.N {
		return B(S("y", qL(nil)), S("x", qC("append", append([]*qref.N{x}, v...)...)))
	}
	ops := [][]*qref.N{
		B(set(x, 0, 9)), B(set(x, 1, "s")), B(set(x, 2, nil)), B(set(x, 0, 2.5, 1, 7)), B(set(x, qref.Un("-", qL(1)), 1)), B(set(x, qref.Bin("-", qC("len", x), qL(1)), 4)),
		B(S("y", x)), B(set(y, 0, 8)), B(S("y", qref.Sub(x, qL(1), nil))), B(S("x", qref.Sub(x, nil, qref.Bin("-", qC("len", x), qL(1))))), B(S("x", qref.Sub(x, qL(1), qL(2)))),
		app(qL(5)), app(qL("z"), qL(6)), app(qL(nil)), app(), B(S("y", qL(nil)), S("x", qref.Spread(qV("append"), x, qref.List(qL(1), qL(2))))),
		B(qref.MSet("x, y", qref.List(y, x))), B(qC("f", x)), B(qC("t", qref.Index(x, qL(1)))),
	}
	for _, init := range []*qref.N{qref.List(qL(1), qL(2), qL(3)), qref.List(qL("a"), qL("b")), qref.List(qL(1), qL(2.5), qL(3)), qref.List(qL(nil), qL(1), qL("q")), qref.List(), qC("slice", qL("byte"), qL(2)), qC("slice", qL("var"), qL(2), qL(5)), qC("slice", qL("float"), qL(3)), qC("sliceFrom", qL(true), qL(false))} {
		qhist(c, B(S("f", qref.Fn("a", false, set(qV("a"), 0, 77), S("a", qL(1)))), S("y", qref.List(qL(0))), S("x", init)), ops, 1, c.Pick(3, 4), 1)
	}
	c.Family("histories of a map")
	ops = [][]*qref.N{
		B(set(m, "a", 9)), B(set(m, "b", "s", "c", nil)), B(set(m, "a", qV("undefined"))), B(set(m, 1, 2)), B(set(m, "a", 2.5)), B(set(m, nil, 1)), B(set(m, 1, nil)), B(set(m, 2, qV("undefined"), 3, nil)), B(qC("delete", m, qL("a"))), B(qC("delete", m, qL(1))),
		B(S("n", m)), B(set(n, "b", 8)), B(qC("t", qref.Index(m, qL("a")))), B(qC("t", qref.Mem(m, "b"))), B(qC("t", qref.Bin("==", qref.Index(m, qL("c")), qV("undefined")))), B(qC("t", qC("len", m))), B(S("m", qref.Map(qL("b"), qV("n"), qL("a"), qL(3)))), B(qC("f", m)), B(set(m, "a", 1, "b")),
	}
	for _, init := range []*qref.N{qref.Map(qL("a"), qL(1)), qref.Map(qL("a"), qL(1), qL("b"), qL("x")), qref.Map(), qref.Map(qL(1), qL(2)), qC("mkmap", qL("string:float")), qC("mkmap", qC("mapOf", qL("int"), qL("var"))), qref.Map(qL("a"), qL("u"), qL("b"), qL("w")), qref.Map(qL(1), qL(2.5), qL(2), qL(nil)), qref.Map(qL(1), qL("a"), qL(2), qV("undefined"), qL(3), qL(nil)), qref.Map(qL("a"), qV("undefined"), qL("b"), qL(nil))} {
		qhist(c, B(S("f", qref.Fn("a", false, set(qV("a"), "z", 77), qC("delete", qV("a"), qL("b")))), S("n", qref.Map(qL("k"), qL(0))), S("m", init)), ops, 1, c.Pick(3, 4), 1)
	}
	c.Family("histories of nested containers")
	l := qV("l")
	l1a := qref.Mem(qref.Index(l, qL(1)), "a")
	ops = [][]*qref.N{
		B(set(qref.Index(l, qL(0)), 0, 9)), B(set(l1a, 1, 5)), B(set(qref.Index(l, qL(1)), "b", qref.Index(l, qL(0)))), B(S("x", l1a)), B(set(x, 0, 6)), B(set(l, 0, x)), B(set(l, 1, qref.Map(qL("a"), x))),
		B(S("l", qref.List(qref.Index(l, qL(1)), qref.Index(l, qL(0)), qL(nil)))), B(set(qref.Index(l, qL(1)), "a", qref.List(qL("n"), qL(1), qL(2)))), B(qC("t", qref.Index(qref.Index(l, qL(0)), qL(1)))), B(qC("t", qref.Index(l1a, qL(0)))), B(S("l", qC("append", l, qref.List()))), B(qC("delete", qref.Index(l, qL(1)), qL("a"))), B(set(l, 2, "s")),
	}
	qhist(c, B(S("x", qref.List(qL(40), qL(41))), S("l", qref.List(qref.List(qL(1), qL(2)), qref.Map(qL("a"), qref.List(qL(3), qL(4)), qL("c"), qL(nil)), qL("end")))), ops, 1, c.Pick(4, 5), 1)
	c.Family("loops over containers")
	for _, init := range []*qref.N{qref.List(), qref.List(qL(4)), qref.List(qL(4), qL(5), qL(6)), qref.List(qL("a"), qL(1)), qL("aé"), qL(""), qref.List(qL(1.5), qL(2))} {
		for _, body := range [][]*qref.N{B(qC("t", qref.Index(x, qV("i")))), B(S("s", qC("append", qV("s"), qref.Index(x, qV("i"))))), B(set(m, qV("i"), qref.Index(x, qV("i")))), B(set(x, qV("i"), qref.Bin("+", qref.Index(x, qV("i")), qref.Index(x, qV("i"))))), B(qC("t", qref.Sub(x, qV("i"), nil)), qC("t", qref.Sub(x, nil, qV("i"))))} {
			qprog(c, qref.CopyBlock(B(S("x", init), S("s", qref.List()), S("m", qC("mkmap", qC("mapOf", qL("int"), qL("var")))), qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qC("len", x)), qref.Inc("i"), body...))), 7)
		}
	}
	c.Family("large containers")
	for _, k := range pumpsUpTo(c.Pick(300, 1100)) {
		var li, ma []*qref.N
		for i := 0; i < k; i++ {
			li = append(li, qL(i))
			ma = append(ma, qL(i), qL(i*2))
		}
		qmax = 60000
		qprog(c, B(S("x", qref.List(li...)), S("m", qref.Map(ma...)), qC("t", qC("len", qV("x"))), qC("t", qref.Index(qV("m"), qL(k-1))), S("r", qC("max", li...)), S("u", qref.Spread(qV("min"), qV("x")))), 1)
		qprog(c, B(S("x", qref.List()), S("m", qref.Map()), qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(k)), qref.Inc("i"), S("x", qC("append", qV("x"), qV("i"))), set(qV("m"), "k", qV("x")))), 1)
		qmax = 5000
	}
	kindsC34(c)
}

func runC35(c *core.C) {
	B, S, M := qref.B, qref.Set, qref.Mem
	this, o, p := qV("this"), qV("o"), qV("p")
	set := func(a *qref.N, name string, v *qref.N) *qref.N { return qC("set", a, qL(name), v) }
	call := func(a *qref.N, name string, args ...*qref.N) *qref.N { return qref.Call(M(a, name), args...) }
	methods := []*qref.N{
		qref.Method("_init", "a", false, set(this, "v", qV("a")), qref.Ret(qL("ignored"))),
		qref.Method("get", "", false, qref.Ret(M(this, "v"))),
		qref.Method("inc", "", false, set(this, "v", qref.Bin("+", M(this, "v"), qL(1))), qref.Ret(M(this, "v"))),
		qref.Method("twice", "", false, qref.Ret(qref.Bin("+", call(this, "inc"), call(this, "inc")))),
		qref.Method("mk", "d", false, S("r", qref.New("C", qref.Bin("+", M(this, "v"), qV("d")))), qref.Ret(qV("r"))),
		qref.Method("all", "xs", true, qref.Ret(qref.List(M(this, "v"), qC("len", qV("xs")), qL("")))),
		qref.Method("self", "", false, qref.Ret(this)),
		qref.Method("fail", "", false, set(this, "v", qL(66)), qC("panic", qL("failed"))),
		qref.Method("down", "n", false, qref.If(qref.Bin("<", qV("n"), qL(1)), B(qref.Ret(qL(0)))), qref.Ret(qref.Bin("+", qV("n"), call(this, "down", qref.Bin("-", qV("n"), qL(1)))))),
		qref.Method("count", "", false, qV("total"), qref.Inc("total"), qref.Ret(qV("total"))),
		qref.Method("empty", "", false),
	}
	head := B(S("total", qL(100)), S("C", qref.Class(methods...)), S("o", qref.New("C", qL(1))), S("p", qref.New("(C)", qL(20))), S("g", qref.Fn("", false)))
	tt := func(e *qref.N) []*qref.N { return B(qC("t", e)) }
	ops := [][]*qref.N{
		tt(call(o, "get")), tt(call(o, "inc")), tt(call(p, "twice")), B(set(o, "v", qL(10))), tt(M(p, "v")), B(set(o, "w", qL(3))), tt(M(p, "w")), B(S("g", M(o, "inc"))), tt(qC("g")), tt(call(qV("C"), "get", p)),
		B(S("p", o)), B(S("p", call(o, "mk", qL(5)))), B(S("o", qref.New("C", call(o, "get")))), B(set(o, "get", qL(1))), B(set(o, "empty", qL(1))), tt(qref.Bin("==", o, p)), tt(qref.Bin("==", call(o, "self"), o)), B(set(o, "f", qref.Fn("z", false, qref.Ret(qref.Bin("*", qV("z"), qL(2)))))), tt(call(o, "f", qL(4))),
		B(S("C", qref.Class(methods[0], qref.Method("get", "", false, qref.Ret(qL("new get")))))), tt(call(o, "all", qL(1), qL(2))), tt(call(o, "count")), B(set(o, "v", p)), tt(M(M(o, "v"), "v")), tt(call(o, "down", qL(3))), tt(call(o, "fail")), tt(M(o, "nope")), B(S("q", qref.List(o, p)), set(qref.Index(qV("q"), qL(0)), "v", qL(31))),
	}
	c.Family("histories of two objects of one class")
	qhist(c, head, ops, 1, c.Pick(3, 4), 1)
	c.Family("the same, in the line layout, in a function")
	eachIdx(c, len(ops), 1, 2, func(ix []int) {
		var b []*qref.N
		for _, i := range ix {
			b = append(b, ops[i]...)
		}
		qprog(c, qref.CopyBlock(append(append([]*qref.N{}, head...), b...)), 6)
		hd := qref.CopyBlock(head)
		qprog(c, qref.CopyBlock(B(S("run", qref.Fn("", false, append(hd, b...)...)), qC("run"), qC("t", qL("again")), qC("run"))), 1)
	})
	c.Family("all subsets of methods")
	for mask := 0; mask < 1<<4; mask++ {
		for _, order := range []int{0, 1} {
			var ms []*qref.N
			for i := 0; i < 4; i++ {
				k := i
				if order == 1 {
					k = 3 - i
				}
				if mask&(1<<k) != 0 {
					ms = append(ms, methods[k])
				}
			}
			for _, args := range [][]*qref.N{nil, {qL(1)}, {qL(1), qL(2)}} {
				if mask&1 == 0 && len(args) > 0 {
					continue
				}
				for _, use := range []string{"get", "inc", "twice", "_init", "v"} {
					for _, n := range []*qref.N{qref.New("C", args...), qref.New0("C")} {
						if n.Op == "new" && !n.Flag && mask&1 != 0 && len(args) > 0 {
							continue
						}
						qprog(c, qref.CopyBlock(B(S("C", qref.Class(ms...)), S("o", n), qC("set", o, qL("z"), qL(1)), qC("t", M(o, use)), qC("t", call(o, use)))), 7)
						qprog(c, qref.CopyBlock(B(S("C", qref.Class(ms...)), qC("t", M(qV("C"), use)), S("o", n), qC("t", call(qV("C"), use, o)))), 1)
					}
				}
			}
		}
	}
	c.Family("what _init gives")
	for _, res := range []*qref.N{qref.Ret(), qref.Ret(qL(1)), qref.Ret(qL(nil)), qref.Ret(this), qref.Ret(qref.New("D")), qref.Ret(qref.New("C2", qL(5))), qV("D"), qref.Ret(qV("D")), qref.Ret(p), p, qref.New("D"), qref.Ret(qref.Map(qL("v"), qL(9))), qref.Ret(qref.List(this)), qref.Ret(qref.Fn("", false, qref.Ret(qL(1)))), set(this, "u", qref.New("D")), S("this", qref.New("D")), qref.Ret(M(this, "get")), qref.If(qref.Bin("==", qV("a"), qL(1)), B(qref.Ret(p))), qC("panic", qL("no")), qref.Ret(qC("set", this, qL("w"), p))} {
		for _, a := range []int{1, 2} {
			for _, first := range []bool{true, false} {
				body := B(set(this, "v", qV("a")), res)
				if !first {
					body = B(res, set(this, "v", qV("a")))
				}
				D := S("D", qref.Class(qref.Method("_init", "", false, set(this, "v", qL("of D"))), qref.Method("get", "", false, qref.Ret(qL("D")))))
				C2 := S("C2", qref.Class(qref.Method("_init", "x", false, set(this, "v", qV("x")), qref.Ret(qref.New("D"))), methods[1]))
				for _, use := range [][]*qref.N{tt(M(o, "v")), tt(call(o, "get")), tt(qref.List(M(o, "v"), call(o, "get"), qref.Bin("==", o, p))), tt(call(M(qref.Map(qL("o"), o), "o"), "get")), B(set(o, "x", qL(1)), qC("t", M(p, "v")), qC("t", M(p, "x")))} {
					qprog(c, qref.CopyBlock(append(B(D, C2, S("p", qref.New("D")), S("C", qref.Class(qref.Method("_init", "a", false, body...), methods[1])), S("o", qref.New("C", qL(a)))), use...)), 7)
					qprog(c, qref.CopyBlock(append(B(D, C2, S("p", qref.New("D")), S("f", qref.Fn("", false, S("C", qref.Class(qref.Method("_init", "a", false, body...), methods[1])), qref.Ret(qref.New("C", qL(a))))), S("o", qC("f"))), use...)), 1)
				}
			}
		}
	}
	c.Family("classes made by functions")
	mk := qref.Fn("n", false, qref.Ret(qref.Class(qref.Method("_init", "", false, qV("n"), qref.Inc("n")), qref.Method("n", "", false, qref.Ret(qV("n"))), qref.Method("add", "d", false, qV("n"), qref.OpSet("n", "+=", qV("d")), qref.Ret(this)))))
	cops := [][]*qref.N{B(S("A", qC("mk", qL(1)))), B(S("D", qC("mk", qL(10)))), B(S("o", qref.New("A"))), B(S("p", qref.New("D"))), B(S("D", qV("A"))), tt(call(o, "n")), tt(call(p, "n")), B(S("p", call(o, "add", qL(5)))), tt(call(call(p, "add", qL(1)), "n")), B(S("o", qref.New("D")))}
	qhist(c, B(S("mk", mk), S("A", qC("mk", qL(100))), S("D", qV("A")), S("o", qref.New("A")), S("p", qref.New0("A"))), cops, 1, c.Pick(4, 5), 1)
	// the class comes first, variables of the function later
	for _, v := range [][]*qref.N{B(S("k", qL(5))), B(S("k", qL(5)), S("k", qL(6))), B(qref.MSet("k, j", qref.List(qL(7), qL(8)))), B(qV("total"), S("k", qV("total"))), nil, B(S("_k", qL(1))), B(qref.For(S("k", qL(0)), qref.Bin("<", qV("k"), qL(3)), qref.Inc("k")))} {
		for _, use := range []*qref.N{qref.Ret(qV("k")), S("k", qL(50)), qref.Inc("k"), qref.Ret(qref.Call(qref.Fn("", false, qref.Ret(qV("k")))))} {
			for _, outer := range [][]*qref.N{nil, B(S("k", qL(300)))} {
				for _, par := range []string{"", "par"} {
					cl := qref.Class(qref.Method("m", "", false, use))
					var a []*qref.N
					if par != "" {
						a = B(qL(1))
					}
					for _, pre := range [][]*qref.N{B(S("c", cl)), B(S("f2", qref.Fn("", false, qref.Ret(cl))))} {
						mk := qref.New("c")
						post := v
						if pre[0].S == "f2" {
							post = append(qref.CopyBlock(v), S("c", qC("f2")))
						}
						body := append(append(qref.CopyBlock(pre), post...), S("o", mk), S("first", call(qV("o"), "m")), qref.Ret(qref.List(qV("o"), qV("first"))))
						qprog(c, qref.CopyBlock(append(append(B(S("total", qL(100))), outer...), S("f", qref.Fn(par, false, body...)), S("r", qC("f", a...)), qC("t", qref.Index(qV("r"), qL(1))), qC("t", call(qref.Index(qV("r"), qL(0)), "m")), qC("t", qV("total")))), 1)
					}
				}
			}
		}
	}
	c.Family("objects as values")
	for _, v := range []*qref.N{qL(nil), qL(1), qL("s"), qref.Map(qL("v"), qL(4)), qV("C"), qref.Fn("", false), qref.List(), qref.New("C", qL(5))} {
		for _, e := range []*qref.N{M(qV("x"), "v"), call(qV("x"), "get"), qref.New("x"), qref.New("x", qL(3)), qref.Bin("==", qV("x"), o), qref.Bin("+", qV("x"), o), qref.Un("!", qV("x")), qref.Index(qV("x"), qL("v")), qC("set", qV("x"), qL("v"), qL(7)), qC("len", qV("x")), qC("sliceFrom", qV("x"), o), qref.Map(qL("a"), qV("x"), qL("b"), o), M(qref.Map(qL("v"), qV("x")), "v"), qC("set", o, qV("x"), qL(1)), qC("set", o, qL("k"), qV("x"), qL("l"), qL(2)), qC("set", o, qL("k")), qref.If(qV("x"), B(qL(1)))} {
			qprog(c, qref.CopyBlock(append(append([]*qref.N{}, head...), S("x", v), S("r", e), qC("t", M(o, "v")))), 1)
		}
	}
	for _, name := range []string{"new", "class", "recover", "main", "if2", "x"} {
		qprog(c, qref.CopyBlock(B(S("m", qref.Map(qL(name), qL(4))), S("r", M(qV("m"), name)), S("u", qref.Bin("+", qL(1), M(qref.Map(qL("a"), qL(1), qL(name), qL(2)), name))))), 3)
	}
	kindsC35(c)
}

// -----------------------------------------------------------------------------

type qsource struct {
	prog []*qref.N
	bad  string // malformed source
	file string // with a file name
	how  string // "exec", "eval": without the protection of SafeExec
	// host operation
	host func(q qlang.Qlang, m *qref.Machine)
	name string
}

func (s *qsource) show(lines int) string {
	switch {
	case s.prog != nil:
		return s.how + s.file + "{" + qref.Layout(qref.CopyBlock(s.prog), lines) + "}"
	case s.bad != "":
		return "{" + s.bad + "}"
	}
	return s.name
}

// qstate is an engine and its reference.
type qstate struct {
	q     qlang.Qlang
	m     *qref.Machine
	lines int
}

// step runs one source.
func (st *qstate) step(s *qsource, ret bool) (msg string, failed bool) {
	if s.host != nil {
		s.host(st.q, st.m)
		return st.compare(""), false
	}
	if s.bad != "" {
		qlog = nil
		kind, text := qshow(st.q, s.bad)
		if kind != "error" {
			return fmt.Sprintf("malformed source ends with %s %q", kind, text), true
		}
		if len(qlog) > 0 {
			return fmt.Sprintf("malformed source calls %q", qlog), true
		}
		return st.compare(""), true
	}
	prog := qref.CopyBlock(s.prog)
	src := qref.Layout(prog, st.lines)
	st.m.Log = nil
	out := st.m.Run(prog)
	if out.Over {
		panic("harness: endless")
	}
	qlog = nil
	var err error
	e := try(func() {
		switch s.how {
		case "exec":
			err = st.q.Exec([]byte(src), s.file)
		case "eval":
			err = st.q.Eval(src)
		default:
			err = st.q.SafeExec([]byte(src), s.file)
		}
	})
	kind, text := "ok", ""
	if ev, ok := e.(error); ok && s.how != "" { // fails or gives the error
		e, err = nil, ev
	}
	switch {
	case e != nil:
		kind, text = "raw", qdescribe(e)
	case err != nil:
		kind, text = "error", err.Error()
	}
	wkind, wtext := qwant(out)
	if s.file != "" {
		wtext = strings.Replace(wtext, "line ", s.file+":", 1)
	}
	if kind != wkind || !qref.Match(wtext, text) {
		return fmt.Sprintf("ends with %s %q, want %s %q", kind, text, wkind, wtext), true
	}
	if d := matchAll(st.m.Log, qlog); d != "" {
		return "trace: " + d, true
	}
	if ret && kind == "ok" && st.lines == 0 {
		v, ok := st.q.Ret()
		w := qref.Describe(st.m.Last, nil)
		if d := qdescribe(v); !ok || !qref.Match(w, d) {
			return fmt.Sprintf("result %s, %v, want %s", d, ok, w), true
		}
		if v, ok := st.q.Ret(); ok {
			return fmt.Sprintf("the result was taken, but there is one more: %s", qdescribe(v)), true
		}
	}
	return st.compare(""), kind != "ok"
}

func (st *qstate) compare(prefix string) string {
	want := st.m.Top.Vars()
	for _, n := range sortedKeys(want) {
		v, ok := st.q.Var(n)
		w := qref.Describe(want[n], nil)
		if !ok {
			return fmt.Sprintf("%svariable %s isn't set, want %s", prefix, n, w)
		}
		if s := qdescribe(v); !qref.Match(w, s) {
			return fmt.Sprintf("%svariable %s is %s, want %s", prefix, n, s, w)
		}
	}
	if len(st.q.Vars()) != len(want) {
		return fmt.Sprintf("%svariables %v, want %v", prefix, sortedKeys(st.q.Vars()), sortedKeys(want))
	}
	return ""
}

func runC36(c *core.C) {
	B, S := qref.B, qref.Set
	x, f := qV("x"), qV("f")
	rec := qref.Call(qref.Fn("", false, S("e", qref.Recover()), qC("t", qV("e"))))
	P := func(s ...*qref.N) *qsource { return &qsource{prog: s} }
	good := []*qsource{
		P(S("x", qL(1))), P(qref.Inc("x")), P(x), P(S("f", qref.Fn("a", false, x, qref.Inc("x"), qref.Ret(qref.Bin("+", x, qV("a")))))), P(S("r", qref.List(tr(1), qC("f", qL(2)), tr(3)))), P(S("r", qref.Recover())),
		P(qref.Bin("+", qL(1), qref.If(qL(true), B(tr(2))))), P(qref.Defer(tr(4)), qref.Defer(rec), tr(5)), P(qref.Set("r", qref.List()), qref.Nop()), P(qC("unset", qL("x"))),
		P(qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), tr(6))), P(qC("f", qL(1)), qref.Call(f, qL(2))), P(S("r", qref.Map(qL("a"), x, qL("b"), qref.Map())), qref.Mem(qV("r"), "a")),
		P(qref.Class(qref.Method("_init", "", false, tr(7)))), P(S("z", qref.List(qV("undefined"), qV("max")))), P(S("max", qL(12)), S("undefined", qL(13))),
	}
	bad := []*qsource{
		P(qC("panic", qL("p"))), P(qref.Bin("+", tr(1), qref.Bin("*", tr(2), qC("panic", qL("q"))))), P(qref.List(tr(1), qref.Index(qref.List(tr(2)), qL(5)))), P(qC("panic", qL(3))),
		P(qref.Defer(tr(8)), qref.Defer(qC("panic", qL("d"))), qref.Defer(tr(9))), P(qref.If(tr(true), B(qref.For(S("i", qL(0)), tr(true), qref.Inc("i"), qC("panic", qL("in a loop")))))),
		P(S("g", qref.Fn("", false, qref.Defer(tr(10)), qC("panic", qL("in g")))), S("y", qref.Bin("-", tr(1), qC("g")))), P(qref.Switch(tr(1)).Case(qref.Bin("+", qL(1), qL(nil)), B(tr(1)))),
		{bad: ")"}, {bad: "1 +"}, {bad: "x = "}, {bad: "if true {"}, {bad: "f = fn(a) { x = 3; "}, {bad: "'"}, {bad: "for i = 0; i < 3; i++ { x = 7 "}, {bad: "switch { case true: x = 5"}, {bad: "class { fn a() { x = 3 }"}, {bad: "x = [1, 2"}, {bad: `"abc`},
		{bad: "defer if true { x = 9"}, {bad: "true && fn() { if "}, {bad: " "}, {bad: "x, f = "}, {bad: "recover("},
		{prog: B(S("x", qL(5)), qC("panic", qL("named"))), file: "a.ql"}, P(S("z", qref.New("f"))), P(S("f", qC("f", qL(1), qL(2)))),
	}
	host := []*qsource{
		{name: "SetVar(x, 40)", host: func(q qlang.Qlang, m *qref.Machine) { q.SetVar("x", 40); m.Top.Vars()["x"] = 40 }},
		{name: "SetVar(y, list)", host: func(q qlang.Qlang, m *qref.Machine) {
			q.SetVar("y", []int{1, 2})
			m.Top.Vars()["y"] = []int{1, 2}
		}},
	}
	all := append(append(append([]*qsource{}, good...), bad...), host...)
	hist := func(list []*qsource, ix []int, engines int, lines int, ret bool) {
		ix = cp(ix)
		shared := engines < 0 // the engines have one scanner
		if shared {
			engines = -engines
		}
		c.Do(func() string {
			var s []string
			if shared {
				s = append(s, "one scanner:")
			}
			for _, i := range ix {
				s = append(s, fmt.Sprintf("%d:%s", i%engines, list[i/engines].show(lines)))
			}
			return clip(strings.Join(s, " "))
		}, func() string {
			var st []*qstate
			sc := new(tpl.AutoKwScanner)
			for e := 0; e < engines; e++ {
				if shared {
					opt := &qlang.Options{Scanner: sc}
					if lines > 0 {
						opt.ScanMode = tpl.InsertSemis
					}
					q, err := qlang.New(opt)
					if err != nil {
						return err.Error()
					}
					st = append(st, &qstate{q: q, m: qref.NewMachine(), lines: lines})
					continue
				}
				st = append(st, &qstate{q: qfresh(lines > 0), m: qref.NewMachine(), lines: lines})
			}
			failed, recovered := false, false
			for n, i := range ix {
				c.AddStates(1)
				c.AddTransitions(1)
				msg, bad := st[i%engines].step(list[i/engines], ret)
				if msg != "" {
					return fmt.Sprintf("step %d: %s", n, msg)
				}
				if bad {
					failed = true
				} else if failed {
					recovered = true
				}
				for e := range st {
					if e != i%engines {
						if msg := st[e].compare("the other engine: "); msg != "" {
							return fmt.Sprintf("step %d: %s", n, msg)
						}
					}
				}
			}
			c.AddTrace(1)
			if recovered {
				c.Nontrivial(1)
			}
			c.Outcome(strings.Join(st[0].m.Log, ";") + fmt.Sprint(failed))
			return ""
		})
	}
	c.Family("histories of sources on one engine")
	eachIdx(c, len(all), 1, c.Pick(3, 3), func(ix []int) { hist(all, ix, 1, 0, false) })
	c.Family("histories of sources on one engine, with results")
	eachIdx(c, len(all), 1, c.Pick(2, 3), func(ix []int) { hist(all, ix, 1, 0, true) })
	c.Family("histories of sources on one engine, line layout")
	eachIdx(c, len(all), 1, c.Pick(2, 3), func(ix []int) { hist(all, ix, 1, 1, false) })
	c.Family("histories of sources on two engines")
	eachIdx(c, 2*len(all), 2, c.Pick(2, 3), func(ix []int) { hist(all, ix, 2, 0, true) })
	c.Family("histories of sources on two engines that share a scanner")
	eachIdx(c, 2*len(all), 1, 2, func(ix []int) { hist(all, ix, -2, len(ix)%2, true) })
	c.Family("longer histories of fewer sources")
	few := []*qsource{good[0], good[3], good[4], good[5], good[7], bad[1], bad[3], bad[4], bad[6], bad[12], bad[14], good[6]}
	eachIdx(c, len(few), 4, c.Pick(4, 5), func(ix []int) { hist(few, ix, 1, 0, len(ix)%2 == 0) })
	c.Family("many sources on one engine")
	for i := range all {
		for j := range all {
			if i == j && i > len(good) {
				continue
			}
			var ix []int
			for k := 0; k < c.Pick(40, 200); k++ {
				ix = append(ix, i, j, 0)
			}
			hist(all, ix, 1, 0, true)
		}
	}
	c.Family("evaluations without protection")
	for _, how := range []string{"exec", "eval"} {
		var list []*qsource
		list = append(list, all...)
		for _, s := range all {
			if s.prog == nil || how == "eval" && s.file != "" {
				continue
			}
			deferred := false
			for _, n := range s.prog {
				deferred = deferred || n.Op == "defer" // Exec leaves them alone
			}
			if !deferred {
				t := *s
				t.how = how
				list = append(list, &t)
			}
		}
		n := len(all)
		for j := n; j < len(list); j++ {
			hist(list, []int{j}, 1, 0, true)
			hist(list, []int{j}, 1, 1, false)
			for i := 0; i < n; i++ {
				hist(list, []int{i, j}, 1, 0, true)
				if j-n < len(good)-2 { // ends well on its own
					hist(list, []int{3, 0, j, i}, 1, 0, true)
				}
			}
		}
	}
	kindsC36(c, hist)
	placeCases(c)
}

// placeCases: failures name the file and the line they happen at.
func placeCases(c *core.C) {
	c.Family("file and line of failures")
	nl := func(n int) string { return strings.Repeat("\n", n) }
	fails := []string{"x.y", "x.\ny", "panic(\n\"p\")", "[1][\nx]", "[1][1 +\n2]", "z = nosuch", "panic(\"p\")", "[1][x]"}
	// forms give the text of a function with its body, and of a call of it
	forms := [][2]string{
		{"f = fn(x) {%s%s\n}", "f(7)"},
		{"C = class {\nfn m(x) {%s%s\n}\n}", "(new C).m(7)"},
		{"f = fn(x) {\ng = fn(x) {%s%s\n}\nx = g(x)\n}", "f(7)"},
		{"f = fn(x) {\nif x > 1 {%s%s\n}\n}", "f(7)"},
		{"f = fn(x) {\nfor i = 0; i < 2; i++ {%s%s\n}\n}", "[1, f(7)]"},
	}
	place := func(src, at string) int { return 1 + strings.Count(src[:strings.Index(src, at)], "\n") }
	one := func(file string, src []string, def int, at, end string) {
		c.Do(func() string { return fmt.Sprintf("%q as %q", src, file) }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			c.AddStates(len(src))
			c.AddTransitions(len(src))
			q, err := qlang.New(qlang.InsertSemis)
			if err != nil {
				return err.Error()
			}
			for i, s := range src {
				name := file
				if i == len(src)-1 {
					name = end
				}
				err = q.SafeExec([]byte(s), name)
			}
			if err == nil {
				return "didn't fail"
			}
			name := file
			if def == len(src)-1 {
				name = end
			}
			if name += ":"; name == ":" {
				name = "line "
			}
			want := ""
			for l := 0; l <= strings.Count(at, "\n"); l++ { // any line of the expression
				want = fmt.Sprintf("%s%d: runtime error: ", name, place(src[def], at)+l)
				if strings.HasPrefix(err.Error(), want) {
					return ""
				}
			}
			return fmt.Sprintf("fails with %q, want %q", err, want)
		})
	}
	for _, form := range forms {
		for _, f := range fails {
			for k := 1; k <= 3; k++ {
				fn := fmt.Sprintf(form[0], nl(k), f)
				for pre := 0; pre <= 3; pre++ {
					for post := 1; post <= 3; post++ {
						src := nl(pre) + fn + nl(post) + form[1]
						for _, file := range []string{"", "a.ql", "d/b.ql"} {
							one(file, []string{src}, 0, f, file)
							one("old.ql", []string{"a = 1\nb = fn() {\n}", src, src}, 2, f, file)
						}
					}
				}
			}
			one("a.ql", []string{nl(2) + fmt.Sprintf(form[0], nl(2), "y = 1"), nl(3) + f}, 1, f, "b.ql")
		}
	}
	// a function of an earlier source
	one("a.ql", []string{"a = 1\nf = fn(x) {\nx.y\n}", "f(7)"}, 0, "x.y", "b.ql")
}

// qfresh gives an instance that was used only for histories that ended well.
func qfresh(lines bool) qlang.Qlang { return qnew(lines) }
