package checks

import (
	"fmt"

	"verif/mc/core"
	"verif/mc/qref"
)

// This file has the families in which values of every kind take every way
// through the language.

// qdef is a program that first makes what the values need.
func qdef(c *core.C, layouts int, s ...*qref.N) {
	qprog(c, qref.CopyBlock(append(qhead(), s...)), layouts)
}

// kindsC31: values of every kind as arguments and results of functions.
func kindsC31(c *core.C) {
	B, S := qref.B, qref.Set
	vals := qvalues()
	c.Family("values of every kind as arguments and results")
	for _, a := range vals {
		v := a.e
		qdef(c, 1, S("f", qref.Fn("a", false, qref.Ret(qV("a")))), S("r", qC("f", v())), qC("t", qC("f", qV("r"))))
		qdef(c, 1, S("f", qref.Fn("a", false, qC("t", qV("a")), S("a", qL(5)), qref.Ret(qV("a")))), S("x", v()), S("r", qC("f", qV("x"))))
		qdef(c, 1, S("f", qref.Fn("a", true, qref.Ret(qV("a")))), S("r", qC("f", v())), S("r2", qC("f", v(), qL(1))), S("r3", qC("f", qL("s"), v())), S("r4", qC("len", qC("f", v(), v(), v()))))
		qdef(c, 1, S("f", qref.Fn("a b", true, qref.Ret(qref.List(qV("b"), qV("a"), qL(nil))))), S("r", qC("f", v())), S("r2", qC("f", v(), v())), S("r3", qC("f", qL(1), v(), v())))
		qdef(c, 1, S("f", qref.Fn("", false, v())), S("r", qC("f")))
		qdef(c, 1, S("f", qref.Fn("", false, qref.If(qL(true), B(qref.Ret(v()))), tr(1))), S("r", qref.List(qC("f"), qL(nil))))
		qdef(c, 1, S("f", qref.Fn("", false, qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(3)), qref.Inc("i"), qref.Switch(qV("i")).Case(qL(1), B(qref.Ret(v())))), tr(1))), S("r", qref.List(qC("f"), qL(nil))))
		qdef(c, 1, S("f", qref.Fn("", false, qref.Defer(v()), qref.Ret(qL(4)))), S("r", qC("f")))
		qdef(c, 1, S("f", qref.Fn("a", false, qref.Defer(qC("t", qV("a"))), S("a", v()), qref.Ret(qV("a")))), S("r", qC("f", qL(3))))
		qdef(c, 1, S("f", qref.Fn("n", false, qref.If(qref.Bin("<", qV("n"), qL(1)), B(qref.Ret(v()))), qref.Ret(qC("f", qref.Bin("-", qV("n"), qL(1)))))), S("r", qC("f", qL(4))))
		for _, b := range vals {
			w := b.e
			qdef(c, 1, S("f", qref.Fn("a b", false, qref.Ret(qref.List(qV("b"), qV("a"), qL(nil))))), S("r", qC("f", v(), w())))
			qdef(c, 1, S("f", qref.Fn("a", false, qref.If(qref.Bin("==", qV("a"), qL(1)), B(qref.Ret(v()))), w(), qref.Ret(w()))), S("r", qC("f", qL(1))), S("s", qC("f", qL(2))))
		}
	}
	c.Family("calls made while a function ends")
	// functions that end with and without a value, called by what is deferred
	void := func(n int) *qref.N { return qref.Fn("", false, tr(n), qref.Ret()) }
	bare := func(n int) *qref.N { return qref.Fn("", false, tr(n)) }
	val := func(n int) *qref.N { return qref.Fn("", false, tr(n), qref.Ret(qL(n))) }
	deep := func(n int) *qref.N {
		return qref.Fn("", false, qref.Defer(qref.Call(qref.Fn("", false, tr(n), qref.Ret(qL(n+1))))), qref.If(qL(true), B(qref.Ret())))
	}
	fns := []func(int) *qref.N{void, bare, val, deep}
	ends := []*qref.N{qref.Ret(qL(7)), qref.Ret(), tr(60), qref.Ret(qref.Call(val(61))), qref.Ret(qref.Call(bare(62))), qref.If(qL(true), B(qref.Ret(qL("in an if"))))}
	for _, f1 := range fns {
		for _, f2 := range fns {
			for _, end := range ends {
				seen := []*qref.N{qC("t", qref.Call(f1(10))), qC("t", qref.Call(f2(20)))}
				for _, d := range [][]*qref.N{
					B(qref.Defer(qref.Call(qref.Fn("", false, seen...)))),
					B(qref.Defer(seen[0]), qref.Defer(seen[1])),
					B(qref.Defer(qref.Call(f1(10))), qref.Defer(qref.Call(f2(20)))),
					B(qref.Defer(qref.Call(qref.Fn("", false, qref.Defer(seen[0]), seen[1], qref.Ret(qL(30)))))),
					B(qref.Defer(qref.If(qL(true), B(seen[0], seen[1])))),
					B(qref.Defer(qref.If(qL(true), B(S("y", qref.Call(f1(10))), qV("y")))), qref.Defer(qref.Call(qref.Fn("", false, qref.Ret(qref.Call(f2(20))))))),
					B(qC("t", qref.Call(f1(10))), qref.Defer(seen[1])),
					B(S("g", f1(10)), qref.Defer(qC("t", qref.Bin("==", qC("g"), qref.Call(f2(20)))))),
				} {
					qdef(c, 1, S("f", qref.Fn("", false, append(qref.CopyBlock(d), end)...)), S("r", qref.List(tr(1), qC("f"), tr(2), qL(nil))))
					qdef(c, 1, S("f", qref.Fn("", false, append(qref.CopyBlock(d), end)...)), S("h", qref.Fn("", false, qref.Defer(qC("t", qC("f"))), S("u", qC("f")), qref.Ret(qref.List(qV("u"), qC("f"), qL(nil))))), S("r", qC("h")))
				}
			}
		}
	}
}

// kindsC32: panics and errors of every kind, and recovering functions that
// defer themselves.
func kindsC32(c *core.C) {
	B, S := qref.B, qref.Set
	throws := []*qref.N{qC("panic", qL("p")), qref.Bin("+", qL(1), qL("a")), qref.Index(qref.List(), qL(1)), qC("panicf", qL("n %d"), qL(3)), qC("panic", qL("")), qref.Call(qL(3)), qV("nope"), qref.New("obj"), qref.Mem(qL(1), "x"), qref.Bin("/", qL(1), qL(0)), qC("set", qref.List(), qL(3), qL(1)), qC("panic", qref.List(qL(1))), qref.Set("q", qC("panic", qL(2.5))),
		qref.MSet("a, b", qref.List(qL(1))), qref.If(qL(3), B(tr(9)))}
	kinds := []*qref.N{mark(), qref.Defer(mark()), S("e", qref.Recover()), qC("t", qref.Recover()), qref.Ret(qL(4)), qref.Defer(qC("t", qref.Recover())), qref.Defer(qref.Recover()), qC("panic", qL("again")), qref.Defer(qC("panic", qL("late")))}
	c.Family("all bodies of a recovering function")
	newGen(kinds, nil).each(c, 1, c.Pick(3, 4), func(b []*qref.N) {
		some := throws
		if len(b) > 2 && c.Pick(0, 1) == 0 {
			some = throws[:3]
		}
		for _, th := range some {
			f := S("f", qref.Fn("", false, qref.Defer(qref.Call(qref.Fn("", false, b...))), qref.Defer(tr(50)), tr(51), th))
			g := S("g", qref.Fn("", false, qref.Defer(qC("t", qref.Recover())), S("u", qC("f")), qC("t", qref.Recover())))
			qdef(c, 1, f, S("r", qref.List(tr(1), qC("f"), tr(2), qL(nil))), qC("t", qref.Recover()))
			qdef(c, 1, f, g, S("r", qC("g")), S("e", qref.Recover()), S("s", qC("g")))
			qdef(c, 1, qref.Defer(qC("t", qref.Recover())), qref.Defer(qref.Call(qref.Fn("", false, b...))), th)
		}
	})
	c.Family("recovering functions that call others")
	for _, th := range throws {
		for _, in := range []*qref.N{
			qref.Fn("", false, qref.Ret(qref.Recover())),
			qref.Fn("", false, qref.Defer(tr(70)), qref.Ret(qref.Recover())),
			qref.Fn("", false, qref.Defer(qref.Recover()), qC("panic", qL("inner"))),
			qref.Fn("", false, qref.Defer(qC("t", qref.Recover())), qref.Bin("+", qL(1), qL(nil))),
			qref.Fn("", false, qref.Ret(qref.Call(qref.Fn("", false, qref.Ret(qref.Recover()))))),
		} {
			for _, d := range [][]*qref.N{
				B(qC("t", qref.Call(in))), B(qC("t", qref.Call(in)), qC("t", qref.Recover())), B(qC("t", qref.Recover()), qC("t", qref.Call(in))),
				B(qref.Defer(qC("t", qref.Call(in)))), B(qref.Defer(qC("t", qref.Call(in))), S("e", qref.Recover())), B(qref.Defer(qC("t", qref.Recover())), qref.Call(in)),
			} {
				f := S("f", qref.Fn("", false, qref.Defer(qref.Call(qref.Fn("", false, d...))), th))
				qdef(c, 1, f, S("r", qref.List(tr(1), qC("f"), tr(2), qL(nil))), qC("t", qref.Recover()))
				qdef(c, 1, S("f", qref.Fn("", false, qref.Defer(qref.If(qL(true), d)), th)), S("g", qref.Fn("", false, qref.Defer(tr(40)), qC("f"))), S("r", qref.List(tr(1), qC("g"), tr(2), qL(nil))), qC("t", qref.Recover()))
				qdef(c, 1, append(qref.CopyBlock(d), th)...)
			}
		}
	}
}

// kindsC33: variables of every kind in nested functions, and assignment of
// lists to names.
func kindsC33(c *core.C) {
	B, S := qref.B, qref.Set
	vals := qvalues()
	c.Family("variables of every kind in nested functions")
	x, y := qV("x"), qV("y")
	for _, a := range vals {
		for _, use := range [][]*qref.N{B(x), B(x, S("x", qL(77))), B(x, qref.OpSet("x", "+=", x)), B(x, qref.Inc("x")), B(S("z", x)), B(qC("t", x), S("x", qref.List(x, x))), B(x, S("x", qL(nil))), B(x, S("x", qV("undefined"))), B(x, qref.MSet("x, z", qref.List(qL(nil), x)))} {
			f := S("f", qref.Fn("", false, qref.CopyBlock(use)...))
			qdef(c, 1, S("x", a.e()), f, qC("f"), S("y", x), qC("f"), S("z", x))
			// the variable gets the value between calls
			qdef(c, 1, S("x", qL(1)), S("x", a.e()), f, qC("f"), S("x", qL(2)), qC("f"), S("x", a.e()), qC("f"), qC("t", x))
			// read by inner functions made before and after
			qdef(c, 1, S("mk", qref.Fn("x", false, S("g", qref.Fn("", false, x, qref.Ret(x))), S("h", qref.Fn("", false, qref.CopyBlock(use)...)), qC("t", qC("g")), qC("h"), qC("t", x), qC("t", qC("g")), S("x", qL(3)), qC("h"), qref.Ret(qref.List(qV("g"), qV("h"), qL(nil))))), S("p", qC("mk", a.e())), S("r", qref.Call(qref.Index(qV("p"), qL(0)))), qref.Call(qref.Index(qV("p"), qL(1))), S("s", qref.Call(qref.Index(qV("p"), qL(0)))))
			// a loop that calls a closure whose variable the loop changes
			qdef(c, 1, S("mk", qref.Fn("", false, S("x", a.e()), S("g", qref.Fn("", false, x, qref.Ret(x))), qC("t", qC("g")), S("x", qL(1)), qC("t", qC("g")), S("x", a.e()), qC("t", qC("g")), qref.Ret(qV("g")))), S("g", qC("mk")), qC("t", qC("g")), qC("t", qC("g")))
		}
		for _, b := range vals {
			// x changes its kind outside; the closure must see it
			qdef(c, 1, S("x", a.e()), S("g", qref.Fn("", false, qref.Ret(x))), S("y", qC("g")), S("x", b.e()), S("z", qC("g")))
			qdef(c, 1, S("mk", qref.Fn("", false, S("v", a.e()), S("get", qref.Fn("", false, qref.Ret(qV("v")))), S("put", qref.Fn("n", false, qV("v"), S("v", qV("n")))), qref.Ret(qref.List(qV("get"), qV("put"), qL(nil))))), S("p", qC("mk")), S("get", qref.Index(qV("p"), qL(0))), S("put", qref.Index(qV("p"), qL(1))), S("u", qC("get")), qC("put", b.e()), S("w", qC("get")))
			qdef(c, 1, qref.MSet("x, y", qref.List(a.e(), b.e())), qref.MSet("y, x", qref.List(x, y)))
		}
	}
	c.Family("lists of all lengths assigned to names of all counts")
	names := []string{"a", "b", "d", "e", "g", "h", "k", "m"}
	elems := []interface{}{1, 2.5, "s", nil, true, byte('c'), qref.Undefined}
	for nn := 2; nn <= c.Pick(6, 8); nn++ {
		ns := ""
		for i := 0; i < nn; i++ {
			if i > 0 {
				ns += ", "
			}
			ns += names[i]
		}
		for nl := 0; nl <= nn+2; nl++ {
			for first := range elems {
				for _, step := range []int{0, 1} {
					var li []*qref.N
					for i := 0; i < nl; i++ {
						li = append(li, qL(elems[(first+i*step)%len(elems)]))
					}
					l := qref.List(li...)
					qdef(c, 1, S("a", qL(90)), S("b", qL(91)), S("g", qL(92)), qref.MSet(ns, l))
					qdef(c, 1, S("a", qL(90)), S("f", qref.Fn("b", false, qV("a"), qref.MSet(ns, l), qC("t", qref.List(qV("a"), qV("b"), qL(nil))))), qC("f", qL(5)), qC("t", qV("a")))
					qdef(c, 1, S("l", l), S("f", qref.Fn("x", false, qref.Ret(qV("x")))), qref.MSet(ns, qC("f", qV("l"))), qC("t", qV("l")))
				}
			}
		}
		for _, v := range vals {
			qdef(c, 1, S("a", qL(90)), qref.MSet(ns, v.e()))
			qdef(c, 1, S("a", v.e()), S("b", qL(91)), qref.MSet(ns, qref.List(append([]*qref.N{qV("b"), qV("a")}, func() (o []*qref.N) {
				for i := 2; i < nn; i++ {
					o = append(o, v.e())
				}
				return
			}()...)...)))
		}
		// one name twice
		qdef(c, 1, qref.MSet(ns+", a", qref.List(qL(1), qL(2), qL(3), qL(4), qL(5))))
	}
}

// kindsC34: keys of all forms, values of every kind, containers of all sizes.
func kindsC34(c *core.C) {
	S := qref.Set
	vals := qvalues()
	c.Family("keys of all forms")
	forms := []string{"_a", "_", "__x", "A", "a", "aB", "é", "a b", "", "0", "10", "-1", "a.b", "a,b", "len", "nil", "undefined", "this", "_init", "new", "if", "%d", "中", "a_", "x1", "\x00"}
	m, n := qV("m"), qV("n")
	isName := func(s string) bool {
		for i, r := range s {
			if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80 || i > 0 && r >= '0' && r <= '9') {
				return false
			}
		}
		return s != "" && s != "if"
	}
	for _, k := range forms {
		for _, v := range []*qref.N{qL(1), qL("s"), qL(nil), qL(2.5), qref.List(qL(1)), qV("undefined")} {
			for _, init := range []*qref.N{qref.Map(qL(k), v), qref.Map(qL(k), v, qL("z"), qL(9)), qC("mapFrom", qL(k), v), qref.Map(qL("z"), qL("q"), qL(k), v), qref.Map(), qref.Map(qL(k), qL(8), qL(k), v)} {
				qdef(c, 1, S("m", init), S("r", qref.Index(m, qL(k))), S("g", qC("get", m, qL(k))), S("n", m), qC("delete", m, qL(k)), S("l", qC("len", n)), S("u", qref.Bin("==", qref.Index(m, qL(k)), qV("undefined"))), qC("delete", m, qL(k)))
				qdef(c, 1, S("m", init), qC("set", m, qL(k), v), S("r", qC("len", m)), qC("set", m, qL(k), qL(nil), qL("z"), v), qC("set", m, qL(k), qV("undefined")), S("s", qref.Index(m, qL(k))))
				if isName(k) {
					qdef(c, 1, S("m", init), S("r", qref.Mem(m, k)), qC("set", m, qL(k), qref.Fn("a", false, qref.Ret(qref.List(qV("a"), qL(k))))), S("s", qref.Call(qref.Mem(m, k), qL("arg"))))
				}
			}
			for _, k2 := range forms {
				qdef(c, 1, S("m", qref.Map(qL(k), v, qL(k2), qL(5))), S("r", qC("len", m)), qC("delete", m, qL(k2)), S("s", qref.Index(m, qL(k))))
			}
		}
	}
	c.Family("values of every kind in containers")
	kinds := []*qref.N{qL("string"), qL("int"), qL("float"), qL("byte"), qL("bool"), qL("var")}
	for _, a := range vals {
		v := a.e
		for _, init := range []*qref.N{qref.Map(), qref.Map(qL("k"), qL(1)), qref.Map(qL("k"), qL("s")), qref.Map(qL("k"), qL(nil)), qref.Map(qL(1), qL(2)), qref.Map(qL(1), qL("s")), qref.Map(qL("k"), qL(2.5)), qref.Map(qL(2.5), qL(1)), qref.Map(qL(true), qL(1))} {
			qdef(c, 1, S("m", init), qC("set", m, qL("k"), v()), S("r", qref.Index(m, qL("k"))), S("s", qref.Mem(m, "k")))
			qdef(c, 1, S("m", init), qC("set", m, v(), qL(1)), S("r", qref.Index(m, v())))
			qdef(c, 1, S("m", init), qC("delete", m, v()), S("r", qC("len", m)))
			qdef(c, 1, S("m", init), S("r", qref.Index(m, v())), S("s", qC("get", m, v())))
		}
		for _, init := range []*qref.N{qref.List(), qref.List(qL(1)), qref.List(qL("s")), qref.List(qL(nil)), qref.List(qL(2.5)), qref.List(qL(true), qL(1)), qref.List(qL(true)), qref.List(qref.List())} {
			l := qV("l")
			qdef(c, 1, S("l", init), qC("set", l, qL(0), v()), S("r", qref.Index(l, qL(0))))
			qdef(c, 1, S("l", init), S("r", qC("append", l, v())), S("s", qref.Index(qV("r"), qref.Bin("-", qC("len", qV("r")), qL(1)))))
			qdef(c, 1, S("l", init), S("r", qref.Index(l, v())))
			qdef(c, 1, S("l", init), S("r", qref.Sub(l, v(), nil)), S("s", qref.Sub(l, nil, v())))
			qdef(c, 1, S("l", init), S("r", qref.Spread(qV("append"), l, v())))
		}
		for _, k := range kinds {
			qdef(c, 1, S("l", qC("slice", k, qL(2))), qC("set", qV("l"), qL(1), v()), S("r", qC("append", qV("l"), v())))
			for _, k2 := range kinds {
				qdef(c, 1, S("m", qC("mkmap", qC("mapOf", k, k2))), qC("set", m, qL("k"), v()), S("r", qref.Index(m, qL("k"))))
				qdef(c, 1, S("m", qC("mkmap", qC("mapOf", k, k2))), qC("set", m, qL(1), v()), S("r", qref.Index(m, qL(1))))
				qdef(c, 1, S("m", qC("mkmap", qC("mapOf", k, k2))), qC("set", m, v(), qL(1)), S("r", qref.Index(m, v())), qC("delete", m, v()))
			}
		}
		for _, b := range vals {
			qdef(c, 1, S("m", qref.Map(qL("k"), v(), qL("j"), b.e())), S("r", qref.Index(m, qL("k"))), qC("set", m, qL("k"), b.e()), S("s", qref.Index(m, qL("k"))))
			qdef(c, 1, S("l", qref.List(v(), b.e())), qC("set", qV("l"), qL(0), b.e()), S("r", qref.Index(qV("l"), qL(0))))
			qdef(c, 1, S("m", qref.Map(v(), b.e())), S("r", qref.Index(m, v())))
		}
	}
	c.Family("values of every kind as containers")
	for _, a := range vals {
		v, x := a.e, qV("x")
		for _, e := range []*qref.N{
			qref.Sub(x, nil, nil), qref.Sub(x, qL(0), nil), qref.Sub(x, nil, qL(0)), qref.Sub(x, qL(0), qL(1)), qref.Sub(x, qL(1), qL(1)), qref.Sub(x, qL(1), qL(0)), qref.Sub(x, qL(0), qL(100)), qref.Sub(x, qL(-1), nil),
			qref.Index(x, qL(0)), qref.Index(x, qL(1)), qref.Index(x, qL(100)), qref.Index(x, qL(-1)), qref.Index(x, qL("k")), qref.Index(x, qL(nil)), qref.Index(x, qL(2.5)), qref.Index(x, qV("undefined")),
			qC("len", x), qC("get", x, qL(0)), qC("get", x, qL("k")), qref.Mem(x, "k"),
			qC("set", x, qL(0), qL(1)), qC("set", x, qL("k"), qL(1)), qC("set", x), qC("set", x, qL(0)), qC("delete", x, qL("k")), qC("delete", x, qL(0)), qC("delete", x, qL(nil)),
			qC("append", x), qC("append", x, qL(1)), qC("append", x, qL("s")), qC("append", x, qL(nil)), qC("append", x, x), qref.Spread(qV("append"), x, x), qref.Spread(qV("len"), x), qref.Spread(qV("max"), x),
			qref.List(x), qref.List(x, x), qref.Map(x, qL(1)), qref.Map(qL("k"), x), qref.Map(x, x),
		} {
			qdef(c, 1, S("x", v()), S("r", e.Copy()), S("s", x))
			qdef(c, 1, S("x", v()), S("l", qref.List(qL(1), qref.Call(qref.Fn("x", false, qref.Ret(e.Copy())), x), qL(3))))
		}
	}
	literalSizes(c)
	sizesC34(c)
}

// literalSizes: list and map literals and calls of many lengths.
func literalSizes(c *core.C) {
	S := qref.Set
	m, n := qV("m"), qV("n")
	c.Family("literals of all sizes, kinds of keys and values")
	ints := func(i int) *qref.N { return qL(i * 3) }
	floats := func(i int) *qref.N { return qL(float64(i) + 0.5) }
	strs := func(i int) *qref.N { return qL(fmt.Sprint("k", i)) }
	nums := func(i int) *qref.N {
		if i%2 == 0 {
			return qL(i)
		}
		return qL(float64(i) + 0.25)
	}
	mixed := func(i int) *qref.N {
		return qL([]interface{}{i, "m" + fmt.Sprint(i), float64(i) + 0.75, nil, true}[i%5])
	}
	late := func(i int) *qref.N {
		if i > 10 {
			return qL("late")
		}
		return qL(i)
	}
	lateF := func(i int) *qref.N {
		if i > 12 {
			return qL(float64(i) / 4)
		}
		return qL(i)
	}
	nils := func(i int) *qref.N { return qL(nil) }
	bytes := func(i int) *qref.N { return qL(byte(i)) }
	bools := func(i int) *qref.N { return qL(i%3 == 0) }
	gens := []func(int) *qref.N{ints, floats, strs, nums, mixed, late, lateF, nils, bytes, bools}
	keys := []func(int) *qref.N{ints, floats, strs, nums, lateF, late, mixed, bytes}
	sizes := []int{1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40}
	if c.Pick(0, 1) == 1 {
		for i := 64; i <= 400; i += 41 {
			sizes = append(sizes, i)
		}
	}
	for _, size := range sizes {
		for vi, v := range gens {
			var li []*qref.N
			for i := 0; i < size; i++ {
				li = append(li, v(i))
			}
			qdef(c, 1, S("l", qref.List(li...)), S("s", qC("sliceFrom", li...)), S("x", qref.Index(qV("l"), qL(size-1))), S("y", qref.Spread(qV("append"), qV("l"), qV("s"))), S("z", qref.Sub(qV("l"), qL(size/2), nil)), S("f", qref.Fn("a", true, qref.Ret(qV("a")))), S("u", qC("f", li...)), S("w", qref.Spread(qV("f"), qV("l"))))
			for _, k := range keys {
				var ma []*qref.N
				for i := 0; i < size; i++ {
					ma = append(ma, k(i), v(i))
				}
				qdef(c, 1, S("m", qref.Map(ma...)), S("n", qC("mapFrom", ma...)), S("x", qref.Index(m, k(size-1))), qC("set", n, k(0), v(size)), S("y", qC("len", n)))
			}
			_ = vi
		}
	}
	// the k-th of n values is of another kind
	for _, size := range sizes[:c.Pick(12, 17)] {
		for at := 0; at < size; at++ {
			for _, odd := range []interface{}{nil, "s", 2.5, qref.Undefined, true} {
				var li, ma, mk []*qref.N
				for i := 0; i < size; i++ {
					e := qL(i + 1)
					k := qL(i + 100)
					if i == at {
						e = qL(odd)
						if odd != nil && odd != qref.Undefined {
							k = qL(odd)
						}
					}
					li = append(li, e)
					ma = append(ma, qL(i), e.Copy())
					mk = append(mk, k, qL(i))
				}
				qdef(c, 1, S("l", qref.List(li...)), S("m", qref.Map(ma...)), S("x", qref.Index(qV("l"), qL(at))), S("y", qref.Index(m, qL(at))))
				qdef(c, 1, S("m", qref.Map(mk...)), S("x", qC("len", m)))
			}
		}
	}
}

// kindsC35: fields, arguments and results of methods of every kind.
func kindsC35(c *core.C) {
	B, S, M := qref.B, qref.Set, qref.Mem
	vals := qvalues()
	this, o := qV("this"), qV("o")
	c.Family("fields of every kind")
	cls := func(ms ...*qref.N) *qref.N { return S("K", qref.Class(ms...)) }
	for _, a := range vals {
		v := a.e
		for _, name := range []string{"v", "m", "_p", "V", "a1"} {
			get := qref.Method("get", "", false, qref.Ret(M(this, name)))
			put := qref.Method("put", "x", false, qC("set", this, qL(name), qV("x")))
			other := qref.Method("m", "", false, qref.Ret(qL("method m")))
			qdef(c, 1, cls(get, put, other), S("o", qref.New("K")), S("q", qref.New("K")), qC("set", o, qL(name), v()), S("r", M(o, name)), S("s", qref.Call(M(o, "get"))), S("u", M(qV("q"), name)))
			qdef(c, 1, cls(put, get, other), S("o", qref.New("K")), qref.Call(M(o, "put"), v()), qC("t", M(o, name)), qref.Call(M(o, "put"), qL(5)), qC("t", qref.Call(M(o, "get"))), qref.Call(M(o, "put"), v()), S("r", qref.List(M(o, name), qL(nil))))
			qdef(c, 1, cls(get, other), S("o", qref.New("K")), qC("set", o, qL(name), v()), S("r", qref.Call(M(o, name))))
			qdef(c, 1, cls(get, other), S("o", qref.New("K")), qC("set", o, qL(name), v()), S("r", qref.Call(M(o, name), qL(1))))
			qdef(c, 1, cls(qref.Method("_init", "x y", false, qC("set", this, qL(name), qV("x"), qL("two"), qV("y"))), get), S("o", qref.New("K", v(), qL(2))), S("q", qref.New("K", qL(2), v())), S("r", qref.List(M(o, name), qref.Call(M(qV("q"), "get")), M(o, "two"), qL(nil))))
		}
		mid := qref.Method("id", "x", false, qref.Ret(qV("x")))
		qdef(c, 1, cls(mid), S("o", qref.New("K")), S("r", qref.Call(M(o, "id"), v())), S("f", M(o, "id")), S("s", qC("f", v())), S("u", qref.Call(M(qV("K"), "id"), o, v())), S("w", qref.Call(M(qV("K"), "id"), v(), qL(1))))
		qdef(c, 1, cls(qref.Method("all", "xs", true, qref.Ret(qV("xs")))), S("o", qref.New("K")), S("r", qref.Call(M(o, "all"), v())), S("s", qref.Call(M(o, "all"), v(), v())), S("l", qref.List(v(), qL(nil))), S("u", qref.Spread(M(o, "all"), qV("l"))))
		qdef(c, 1, cls(qref.Method("bare", "", false, v()), qref.Method("ret", "", false, qref.If(qL(true), B(qref.Ret(v()))))), S("o", qref.New("K")), S("r", qref.Call(M(o, "bare"))), S("s", qref.Call(M(o, "ret"))))
		qdef(c, 1, cls(qref.Method("this", "this", false, qref.Ret(qV("this")))), S("o", qref.New("K")), S("x", M(qref.Map(qL("k"), v()), "k")), S("this", v()), S("r", qV("this")))
		// this in methods, in closures made by methods, assigned
		qdef(c, 1, S("this", v()), cls(qref.Method("m", "", false, S("f", qref.Fn("", false, qref.Ret(this))), qref.Ret(qref.Bin("==", qC("f"), this))), qref.Method("n", "", false, S("this", v()), qref.Ret(this))), S("o", qref.New("K")), S("r", qref.Call(M(o, "m"))), S("s", qref.Call(M(o, "n"))), qC("t", qV("this")))
		for _, b := range vals {
			qdef(c, 1, cls(qref.Method("m", "", false, qref.Ret(M(this, "v")))), S("o", qref.New("K")), qC("set", o, qL("v"), v()), qC("t", qref.Call(M(o, "m"))), qC("set", o, qL("v"), b.e(), qL("w"), v()), qC("t", qref.Call(M(o, "m"))), S("r", M(o, "w")))
		}
	}
	c.Family("method values that are called again and again")
	{
		rest := qref.Method("rest", "xs", true, qref.Ret(qV("xs")))
		list := qref.Method("list", "a b", false, qref.Ret(qref.List(qV("a"), qV("b"), this)))
		clo := qref.Method("clo", "a b", false, qref.Ret(qref.Fn("", false, qref.Ret(qref.List(qV("a"), qV("b"), qref.Bin("==", this, o))))))
		keep := qref.Method("keep", "xs", true, qC("set", this, qL("k"), qV("xs")), qref.Ret(this))
		nest := qref.Method("nest", "xs", true, qref.If(qref.Bin(">", qC("len", qV("xs")), qL(1)), B(qref.Ret(qref.List(qV("xs"), qref.Call(qV("f"), qL(9)))))), qref.Ret(qV("xs")))
		calls := []func(m string) *qref.N{
			func(m string) *qref.N { return qC("f", qL(1), qL(2)) },
			func(m string) *qref.N { return qC("f", qL("x"), qL("y")) },
			func(m string) *qref.N { return qref.Call(M(o, m), qL(3), qL(4)) },
			func(m string) *qref.N { return qC("g", qL(5), qL(6)) },
			func(m string) *qref.N { return qref.Call(M(qV("K"), m), qV("q"), qL(7), qL(8)) },
			func(m string) *qref.N { return qC("f", qC("f", qL(10), qL(11)), qC("f", qL(12), qL(13))) },
			func(m string) *qref.N { return qC("f", qC("g", qL(14), qL(15)), qL(16)) },
			func(m string) *qref.N { return qref.Spread(qV("f"), qV("l")) },
		}
		for _, m := range []string{"rest", "list", "clo", "keep", "nest"} {
			eachIdx(c, len(calls), 1, c.Pick(3, 4), func(ix []int) {
				b := B(S("K", qref.Class(rest.Copy(), list.Copy(), clo.Copy(), keep.Copy(), nest.Copy())), S("o", qref.New("K")), S("q", qref.New("K")), S("f", M(o, m)), S("g", M(qV("q"), m)), S("l", qref.List(qL(20), qL("z"))))
				for i, k := range ix {
					b = append(b, S(fmt.Sprint("r", i), calls[k](m)))
				}
				for i := range ix {
					switch m {
					case "clo":
						b = append(b, S(fmt.Sprint("v", i), qC(fmt.Sprint("r", i))))
					case "keep":
						b = append(b, S(fmt.Sprint("v", i), M(qV(fmt.Sprint("r", i)), "k")))
					}
				}
				qdef(c, 1, b...)
			})
		}
	}
	c.Family("many methods, many fields, many objects")
	for _, k := range pumpsUpTo(c.Pick(70, 300)) {
		var ms, sets []*qref.N
		for i := 0; i < k; i++ {
			ms = append(ms, qref.Method(fmt.Sprint("m", i), "", false, qref.Ret(qref.Bin("+", M(this, "v"), qL(i)))))
			sets = append(sets, qL(fmt.Sprint("f", i)), qL(i*2))
		}
		qmax = 60000
		qdef(c, 1, cls(ms...), S("o", qref.New("K")), qC("set", o, qL("v"), qL(1000)), S("r", qref.Call(M(o, fmt.Sprint("m", k-1)))), S("s", qref.Call(M(o, "m0"))), qC("set", append([]*qref.N{o}, sets...)...), S("u", M(o, fmt.Sprint("f", k-1))), S("w", M(o, fmt.Sprint("f", k/2))))
		qdef(c, 1, cls(qref.Method("_init", "n", false, qC("set", this, qL("n"), qV("n"))), qref.Method("get", "", false, qref.Ret(M(this, "n")))), S("l", qref.List()), qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(k)), qref.Inc("i"), S("l", qC("append", qV("l"), qref.New("K", qV("i"))))), S("sum", qL(0)), qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(k)), qref.Inc("i"), qref.OpSet("sum", "+=", qref.Call(M(qref.Index(qV("l"), qV("i")), "get")))), S("last", qref.Call(M(qref.Index(qV("l"), qL(k-1)), "get"))))
		var ps, as []*qref.N
		names := ""
		for i := 0; i < k && i < 140; i++ {
			if i > 0 {
				names += ","
			}
			names += fmt.Sprint("p", i)
			ps, as = append(ps, qV(fmt.Sprint("p", i))), append(as, qL(i*7+1))
		}
		last := qV("p0")
		for _, p := range ps[1:] {
			last = qref.Bin("-", last, p.Copy())
		}
		few := qref.CopyBlock(as[1:])
		qdef(c, 1, cls(qref.Method("_init", names, false, qC("set", this, qL("l"), qref.List(ps...), qL("d"), last)), qref.Method("m", names, false, qref.Ret(qref.List(append([]*qref.N{M(this, "l")}, qref.CopyBlock(ps)...)...))), qref.Method("va", "a", true, qref.Ret(qV("a")))), S("o", qref.New("K", as...)), S("r", M(o, "l")), S("q", M(o, "d")), S("s", qref.Call(M(o, "m"), qref.CopyBlock(as)...)), S("u", qref.Call(M(o, "va"), qref.CopyBlock(as)...)), S("f", M(o, "va")), S("w", qref.Spread(qV("f"), qref.List(qref.CopyBlock(as)...))), S("x", qref.Call(M(qV("K"), "va"), append([]*qref.N{o}, qref.CopyBlock(as)...)...)), S("y", qref.Call(M(o, "m"), few...)))
		qmax = 5000
	}
}

// kindsC36: evaluations that fail in every way, and what looks at it later.
func kindsC36(c *core.C, hist func(list []*qsource, ix []int, engines int, lines int, ret bool)) {
	B, S := qref.B, qref.Set
	P := func(s ...*qref.N) *qsource { return &qsource{prog: s} }
	c.Family("evaluations that fail in every way, then all that look")
	rec := func() *qref.N { return qref.Recover() }
	fails := []*qref.N{qC("panic", qL("p")), qref.Bin("+", qL(1), qL("a")), qref.Index(qref.List(), qL(1)), qref.Call(qL(3)), qV("nope"), qref.Mem(qL(1), "x"), qref.Bin("/", qL(1), qL(0)), qC("set", qref.List(), qL(3), qL(1)), qC("panicf", qL("n %d"), qL(3)), qC("panic", qL("")), qC("panic", qref.List(qL(1))), qref.MSet("a, b", qref.List(qL(1))), qref.If(qL(3), B(tr(9))), qref.New("max"), qC("panic", qL(2.5))}
	wraps := []func(f *qref.N) []*qref.N{
		func(f *qref.N) []*qref.N { return B(f) },
		func(f *qref.N) []*qref.N { return B(qref.Defer(tr(1)), f) },
		func(f *qref.N) []*qref.N { return B(qref.Defer(f)) },
		func(f *qref.N) []*qref.N { return B(S("f", qref.Fn("", false, qref.Defer(tr(2)), f)), qC("f")) },
		func(f *qref.N) []*qref.N {
			return B(S("f", qref.Fn("", false, f)), S("g", qref.Fn("", false, qref.Defer(tr(3)), qC("f"))), S("x", qref.Bin("+", tr(4), qC("g"))))
		},
		func(f *qref.N) []*qref.N {
			return B(qref.Defer(qref.Call(qref.Fn("", false, f))), qC("panic", qL("first")))
		},
		func(f *qref.N) []*qref.N { return B(qref.List(tr(1), qref.If(qL(true), B(f)))) },
	}
	looks := []*qsource{
		P(S("r", rec())), P(S("r", qref.Call(qref.Fn("", false, qref.Ret(rec()))))), P(qref.Defer(qref.If(qL(true), B(S("r", rec())))), tr(5)), P(S("h", qref.Fn("", false, qref.Defer(qC("t", rec())), qref.Ret(rec()))), S("r", qC("h"))),
		P(S("h", qref.Fn("", false, S("k", qref.Fn("", false, qref.Ret(rec()))), qref.Ret(qC("k")))), S("r", qC("h"))), P(S("r", qL(1))), P(qref.Defer(tr(6))), P(S("C", qref.Class(qref.Method("m", "", false, qref.Ret(rec())))), S("o", qref.New("C")), S("r", qref.Call(qref.Mem(qV("o"), "m")))),
		P(qC("panic", qL("new"))), P(qref.If(qL(true), B(S("r", rec())))),
	}
	for _, f := range fails {
		for wi, w := range wraps {
			if f.Op == "mset" && wi == 2 {
				continue
			}
			list := append([]*qsource{P(qref.CopyBlock(w(f))...)}, looks...)
			for i := range looks {
				hist(list, []int{0, i + 1}, 1, 0, true)
				hist(list, []int{0, i + 1, i + 1}, 1, 1, false)
				for j := range looks {
					hist(list, []int{0, i + 1, j + 1}, 1, 0, true)
					hist(list, []int{i + 1, 0, j + 1}, 1, 0, false)
				}
				hist(list, []int{0, 2*(i+1) + 1, 2 * (i + 1)}, 2, 0, true)
				hist(list, []int{0, 0, 0, i + 1}, 1, 0, true)
			}
		}
	}
	c.Family("variables of every kind kept between evaluations")
	for _, a := range qvalues() {
		if a.name == "nil" {
			continue // panic(nil)
		}
		list := []*qsource{P(append(qhead(), S("x", a.e()))...), P(S("y", qV("x"))), P(S("f", qref.Fn("", false, qref.Ret(qV("x"))))), P(S("z", qC("f"))), P(S("x", qref.List(qV("x"), qL(nil)))), P(qC("panic", qV("x"))), P(qref.OpSet("x", "+=", qV("x"))), P(qV("x")), {bad: "x = ("}}
		eachIdx(c, len(list), 1, c.Pick(3, 4), func(ix []int) {
			if ix[0] != 0 {
				return
			}
			hist(list, ix, 1, 0, true)
		})
	}
}
