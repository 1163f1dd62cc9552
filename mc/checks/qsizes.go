package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"
)

// This file has the families in which the number of things grows: rounds,
// parameters, names, activations, levels of functions.

// qbig runs f with room for long programs.
func qbig(f func()) {
	old, oldLog := qmax, qlogMax
	qmax, qlogMax = 5000000, 200000
	f()
	qmax, qlogMax = old, oldLog
}

// sizesC30: many rounds; every value as the subject and the case of a switch, and as a condition.
func sizesC30(c *core.C) {
	B, S := qref.B, qref.Set
	c.Family("loops of very many rounds")
	qbig(func() {
		ns := []int{999, 1000, 1001, 1023, 1024, 1025, 4096, 4097, 9999, 10000, 10001, 16384, 16385, 32768, 32769}
		if c.Pick(0, 1) == 1 {
			ns = append(ns, 65535, 65536, 65537, 99999, 100000, 100001, 131072, 131073)
		}
		for _, n := range ns {
			qprog(c, B(S("s", qL(0)), qref.For(S("i", qL(0)), qref.Bin("<", qV("i"), qL(n)), qref.Inc("i"), qref.OpSet("s", "+=", qV("i"))), qC("t", qV("s"))), 1)
			qprog(c, B(S("i", qL(n)), qref.While(qref.Bin(">", qV("i"), qL(0)), qref.Dec("i")), qC("t", qV("i"))), 1)
			qprog(c, B(S("f", qref.Fn("", false, S("i", qL(0)), qref.While(nil, qref.Inc("i"), qref.If(qref.Bin("==", qV("i"), qL(n)), B(qref.Ret(qV("i"))))))), S("r", qC("f"))), 1)
		}
	})
	c.Family("every value as subject, case and condition")
	vals := append(qvalues(), qval{"NaN", func() *qref.N {
		return qref.Bin("-", qref.Bin("*", qL(1e300), qL(1e300)), qref.Bin("*", qL(1e300), qL(1e300)))
	}},
		qval{"inf", func() *qref.N { return qref.Bin("*", qL(1e300), qL(1e300)) }}, qval{"1.0", qlit(1.0)}, qval{"7.0", qlit(7.0)}, qval{"97", qlit(97)})
	for _, a := range vals {
		for _, b := range vals {
			qdef(c, 1, S("x", a.e()), S("y", b.e()), S("r", qref.Switch(qV("x")).Case(qV("y"), B(tr(1))).Otherwise(B(tr(2)))))
			subj := a.e()
			if subj.Op == "map" { // { begins the cases
				subj = qV("x")
			}
			qdef(c, 1, S("x", a.e()), S("y", b.e()), S("r", qref.Switch(subj).Case(tr("none"), B(tr(0))).Case(qV("y"), B(tr(1))).Case(a.e(), B(tr(2)))))
			for _, op := range []string{"||", "&&"} {
				for _, l := range []bool{true, false} {
					qdef(c, 1, S("x", a.e()), S("r", qref.Bin(op, qL(l), qV("x"))), S("q", qref.Bin(op, qref.Bin(op, qL(l), qV("x")), b.e())))
				}
			}
		}
		qdef(c, 1, S("x", a.e()), S("r", qref.If(qV("x"), B(tr(1))).Otherwise(B(tr(2)))))
		qdef(c, 1, S("x", a.e()), S("r", qref.If(qL(false), B(tr(1))).Elif(qV("x"), B(tr(2))).Otherwise(B(tr(3)))))
		qdef(c, 1, S("x", a.e()), S("r", qref.Switch(nil).Case(qV("x"), B(tr(1))).Otherwise(B(tr(2)))))
		qdef(c, 1, S("x", a.e()), S("i", qL(0)), S("f", qref.Fn("", false, qV("x"), qV("i"), qref.While(qV("x"), qref.Inc("i"), S("x", qL(false))))), qC("f"))
	}
}

func pnames(p string, n int) (names []string, vars []*qref.N) {
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("%s%d", p, i)
		names = append(names, s)
		vars = append(vars, qV(s))
	}
	return
}

// sizesC31: many parameters, arguments, names on the left, nested calls, activations.
func sizesC31(c *core.C) {
	B, S := qref.B, qref.Set
	c.Family("many parameters, arguments and results")
	ns := pumpsUpTo(c.Pick(65, 257))
	for i := 4; i < 30; i++ {
		ns = append(ns, i)
	}
	qbig(func() {
		for _, n := range ns {
			names, vars := pnames("p", n)
			var args, plain []*qref.N
			for i := 0; i < n; i++ {
				args = append(args, tr(1000+i))
				plain = append(plain, qL([]interface{}{3000 + i, "s", nil, 2.5}[i*i%4]))
			}
			body := B(qref.Ret(qref.List(append(append([]*qref.N{}, vars...), qL(nil))...)))
			ps := strings.Join(names, " ")
			for _, variadic := range []bool{false, true} {
				f := S("f", qref.Fn(ps, variadic, body...))
				for _, d := range []int{-2, -1, 0, 1, 5} {
					as, pl := args, plain
					if n+d < 0 {
						continue
					}
					if d < 0 {
						as, pl = args[:n+d], plain[:n+d]
					}
					for i := 0; i < d; i++ {
						as, pl = append(as[:len(as):len(as)], tr(2000+i)), append(pl[:len(pl):len(pl)], qL(i))
					}
					qprog(c, qref.CopyBlock(B(f, S("r", qC("f", as...)))), 1)
					qprog(c, qref.CopyBlock(B(f, S("l", qref.List(append(pl[:len(pl):len(pl)], qL(nil), qL("x"))...)), S("l", qref.Sub(qV("l"), qL(0), qL(len(pl)))), S("r", qref.Spread(qV("f"), qV("l"))))), 1)
					m := qref.Class(qref.Method("m", ps, variadic, body...))
					qprog(c, qref.CopyBlock(B(S("C", m), S("o", qref.New("C")), S("r", qref.Call(qref.Mem(qV("o"), "m"), pl...)))), 1)
				}
			}
			for _, d := range []int{-1, 0, 1} {
				if n < 2 || d < 0 && n < 3 {
					continue
				}
				l := append(append([]*qref.N{}, plain...), qL(5), qL("z"))[:n+d]
				qprog(c, qref.CopyBlock(B(qref.MSet(strings.Join(names, ", "), qref.List(l...)))), 1)
				qprog(c, qref.CopyBlock(B(S("f", qref.Fn(ps, false, qref.MSet(strings.Join(names, ", "), qref.List(l...)), body[0])), S("r", qC("f", plain...)))), 1)
			}
			// calls as arguments of calls, n deep
			if n <= 65 {
				e := tr(1)
				for i := 0; i < n; i++ {
					e = qC("f", tr(10+i), e)
				}
				qprog(c, qref.CopyBlock(B(S("f", qref.Fn("a b", false, qref.Ret(qref.Bin("+", qV("a"), qref.Bin("*", qV("b"), qL(2)))))), S("r", e))), 1)
				// functions that give functions, n deep
				fn := qref.Fn("z", false, qref.Ret(qref.Bin("-", qV("z"), qL(1))))
				if n <= 33 {
					for i := n - 1; i >= 0; i-- {
						fn = qref.Fn(fmt.Sprintf("q%d", i), false, qref.Ret(fn))
					}
					call := qV("f")
					for i := 0; i < n; i++ {
						call = qref.Call(call, tr(i))
					}
					qprog(c, qref.CopyBlock(B(S("f", fn), S("r", qref.Call(call, tr(77))))), 1)
				}
			}
		}
	})
	c.Family("very deep recursion")
	qbig(func() {
		for _, n := range []int{99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1024, 1025} {
			if n > c.Pick(520, 2000) {
				break
			}
			n1 := qref.Bin("-", qV("n"), qL(1))
			qprog(c, B(S("f", qref.Fn("n", false, qref.If(qref.Bin("<", qV("n"), qL(1)), B(qref.Ret(qL(0)))), qref.Ret(qref.Bin("+", qV("n"), qC("f", n1))))), S("r", qref.List(qL(1), qC("f", qL(n)), qL(2)))), 1)
		}
	})
}

// sizesC33: variables of functions around functions, to any depth; every way to change them.
func sizesC33(c *core.C) {
	B, S := qref.B, qref.Set
	c.Family("variables across many levels of functions")
	x := qV("x")
	ops := [][]*qref.N{B(qC("t", x)), B(S("x", qL(5))), B(x, S("x", qL(6))), B(qref.Inc("x")), B(x, qref.Dec("x")), B(qref.MSet("x, w", qref.List(qL(7), qL(8)))), B(x, qref.MSet("w, x", qref.List(qL(7), qL(8)))), B(qC("unset", qL("x")), qC("t", x)), B(x, qC("unset", qL("x")), qC("t", x)), B(S("_x", qL(3)), qC("t", qV("_x")))}
	for _, depth := range []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 33} {
		if depth > c.Pick(12, 33) {
			break
		}
		// the variable is made by the function at level def (0: outside); functions between read it or have one of their own
		for def := 0; def < depth; def++ {
			for reader := -1; reader < depth; reader += c.Pick(2, 1) {
				for _, op := range ops {
					body := append(qref.CopyBlock(op), qC("t", qV("deep")))
					for l := depth - 1; l >= 0; l-- {
						var b []*qref.N
						if l == def {
							b = append(b, S("x", qL(100+l)))
						} else if l == reader {
							b = append(b, qC("t", x))
						}
						b = append(b, S(fmt.Sprintf("g%d", l), qref.Fn("", false, body...)), qC(fmt.Sprintf("g%d", l)))
						if l == def || l == reader {
							b = append(b, qC("t", x))
						}
						body = b
					}
					qprog(c, qref.CopyBlock(append(B(S("deep", qL("deep"))), body...)), 1)
				}
			}
		}
	}
	c.Family("every way to change a variable of an outer function")
	qs := []*qref.N{qL(3), qL(2.5), qL(0), qref.Un("-", qL(2)), qL("s"), x, qL(byte('a'))}
	for _, first := range []*qref.N{qL(17), qL(17.5), qL("text"), qL(byte('b'))} {
		for _, read := range []bool{true, false} {
			for _, up := range []int{1, 2, 3} {
				ways := []*qref.N{qref.Inc("x"), qref.Dec("x")}
				for _, op := range []string{"+=", "-=", "*=", "/=", "%="} {
					for _, q := range qs {
						ways = append(ways, qref.OpSet("x", op, q))
					}
				}
				for _, w := range ways {
					for _, w2 := range []*qref.N{nil, qref.OpSet("x", "+=", qL(1)), qref.OpSet("x", "%=", qL(4)), qref.Dec("x")} {
						var b []*qref.N
						if read {
							b = append(b, x)
						}
						b = append(b, w, S("y", x))
						if w2 != nil {
							b = append(b, w2)
						}
						b = append(b, qC("t", x), qC("t", qV("y")))
						for l := 1; l < up; l++ {
							b = B(S("g", qref.Fn("", false, b...)), qC("g"), qC("t", x))
						}
						qprog(c, qref.CopyBlock(B(S("x", first), S("see", qref.Fn("", false, qref.Ret(x))), S("f", qref.Fn("", false, b...)), qC("see"), qC("f"), qC("t", x), qC("t", qC("see")), qC("f"), qC("t", x))), 1)
					}
				}
			}
		}
	}
}

// sizesC29: numbers at the limits of all machine types, and containers, strings and
// arguments of many sizes.
func sizesC29(c *core.C) {
	S, C := qref.Set, qC
	c.Family("integers at the limits of the machine types")
	var ints []int
	for _, sh := range []uint{7, 8, 15, 16, 24, 31, 32, 53, 62} {
		for d := -1; d <= 1; d++ {
			ints = append(ints, 1<<sh+d)
		}
	}
	ints = append(ints, 1<<63-1, 1<<63-2, 0x10ffff, 0x110000, 0xd800, 0xfffd, 10)
	num := func(i int) *qref.N {
		if i < 0 {
			return qref.Un("-", qL(-i))
		}
		return qL(i)
	}
	for _, a := range ints {
		for _, sa := range []int{1, -1} {
			a := a * sa
			qprog(c, qref.B(S("f", C("float", num(a))), S("n", C("int", qV("f"))), S("i", C("int", num(a))), S("l", qref.List(num(a))), S("m", C("append", qref.List(qL(1.5)), num(a))), S("k", qref.Map(num(a), qL(1.5), qL(1), num(a))), S("o", qref.Map(qL("a"), num(a)))), 1)
			qprog(c, qref.B(S("s", C("string", num(a)))), 1)
			qprog(c, qref.B(S("b", C("byte", num(a)))), 1)
			qprog(c, qref.B(S("x", num(a)), S("y", qref.Un("-", qV("x"))), qref.Inc("x"), S("z", qV("x")), qref.Dec("x"), qref.Dec("x"), S("w", C("sprintf", qL("%d %v %x"), qV("x"), qV("y"), qV("z")))), 1)
			qprog(c, qref.B(S("l", C("slice", qL("float"), qL(2))), C("set", qV("l"), qL(0), num(a)), S("r", C("append", qV("l"), num(a)))), 1)
			for _, b := range []int{1, 2, 3, 10, 255, 256, 1<<31 - 1, 1 << 31, 1 << 32, 1<<62 + 1, 1<<63 - 1} {
				for _, sb := range []int{1, -1} {
					b := num(b * sb)
					for _, op := range qbinops[:11] {
						qprog(c, qref.B(S("x", num(a)), S("y", b.Copy()), S("r", qref.Bin(op, qV("x"), qV("y"))), S("q", qref.Bin(op, qV("y"), qV("x"))), S("u", qref.Bin(op, qref.Bin("*", qV("x"), qL(1.0)), qV("y")))), 1)
					}
					for _, op := range []string{"+=", "-=", "*=", "/=", "%="} {
						qprog(c, qref.B(S("x", num(a)), S("y", b.Copy()), qref.OpSet("x", op, qV("y"))), 1)
					}
					qprog(c, qref.B(S("x", num(a)), S("r", C("max", qV("x"), b.Copy())), S("q", C("min", b.Copy(), qV("x")))), 1)
				}
			}
		}
	}
	c.Family("bytes in all operations")
	for a := 0; a < 256; a += c.Pick(5, 1) {
		for b := 0; b < 256; b += c.Pick(17, 3) {
			var s []*qref.N
			s = append(s, S("x", qL(byte(a))), S("y", qL(byte(b))))
			for i, op := range qbinops[:11] {
				if b == 0 && (op == "/" || op == "%") {
					continue
				}
				s = append(s, S(fmt.Sprint("r", i), qref.Bin(op, qV("x"), qV("y"))), S(fmt.Sprint("s", i), qref.Bin(op, qV("x"), qL(b))))
			}
			qprog(c, s, 1)
		}
		qprog(c, qref.B(S("x", qL(byte(a))), qref.Inc("x"), S("y", qV("x")), qref.Dec("x"), qref.Dec("x"), S("n", C("int", qV("x"))), S("f", C("float", qV("x"))), S("s", C("string", qV("x"))), S("u", qref.Un("-", qV("x")))), 1)
	}
	sizesC34(c)
}

// sizesC34: containers and strings of many sizes, calls with many pairs.
func sizesC34(c *core.C) {
	S, C := qref.Set, qC
	c.Family("builtin functions on containers and strings of many sizes")
	sizes := []int{0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097}
	if c.Pick(0, 1) == 1 {
		sizes = append(sizes, 9999, 10000, 10001, 16384, 16385, 32768, 65535, 65536, 65537, 70000)
	}
	typs := []*qref.N{qL("int"), qL("float"), qL("string"), qL("byte"), qL("bool"), qL("var")}
	qbig(func() {
		for _, n := range sizes {
			for _, ty := range typs {
				for _, more := range []int{0, 1, n} {
					qprog(c, qref.B(S("l", C("slice", ty.Copy(), qL(n), qL(n+more))), S("n", C("len", qV("l"))), S("c", C("cap", qV("l"))), S("a", qref.Sub(qV("l"), qL(n/2), nil)), S("an", C("len", qV("a"))), S("b", qref.Sub(qV("l"), nil, qL(n/2))), S("bn", C("len", qV("b"))), S("p", C("len", C("append", qV("l"), qref.Index(C("slice", ty.Copy(), qL(1)), qL(0)))))), 1)
				}
				if n > 0 {
					qprog(c, qref.B(S("l", C("slice", ty.Copy(), qL(n))), S("r", qref.Index(qV("l"), qL(n-1))), S("s", C("get", qV("l"), qL(n-1))), S("u", qref.Index(qV("l"), qL(n)))), 1)
				}
				qprog(c, qref.B(S("l", C("slice", ty.Copy(), qL(n))), S("u", C("get", qV("l"), qL(n)))), 1)
				qprog(c, qref.B(S("l", C("slice", ty.Copy(), qL(n))), S("u", qref.Sub(qV("l"), nil, qL(n+1)))), 1)
			}
			// strings
			for _, unit := range []string{"a", "é", "中", "\\xff", "a中"} {
				body := strings.Repeat(strings.Replace(unit, "\\xff", "\xff", -1), n)
				q := qL(body)
				qprog(c, qref.B(S("x", q), S("n", C("len", qV("x"))), S("y", qref.Bin("+", qV("x"), qL("!"))), S("z", qref.Bin("==", qref.Bin("+", qV("x"), qV("x")), q.Copy())), S("e", qref.Bin("==", qV("x"), q.Copy())), S("l", qref.Bin("<", qV("x"), qV("y"))), S("h", qref.Sub(qV("x"), qL(len(body)/2), nil)), S("g", qref.Sub(qV("x"), nil, qL(len(body)/2)))), 1)
				if len(body) > 0 {
					qprog(c, qref.B(S("x", q.Copy()), S("y", qref.Index(qV("x"), qL(len(body)-1)))), 1)
				}
			}
		}
		// many pairs in one call
		for n := 1; n <= c.Pick(40, 200); n++ {
			var pairs, kv []*qref.N
			for i := 0; i < n; i++ {
				pairs = append(pairs, qL(i), qL(i*i+1))
				kv = append(kv, qL(fmt.Sprint("k", i)), qL(i*i+1))
			}
			qprog(c, qref.B(S("l", C("slice", qL("int"), qL(n))), C("set", append([]*qref.N{qV("l")}, pairs...)...), S("m", qref.Map(qL("z"), qL(1))), C("set", append([]*qref.N{qV("m")}, kv...)...), S("n", C("mapFrom", qref.CopyBlock(pairs)...)), S("s", C("sliceFrom", qref.CopyBlock(pairs)...))), 1)
			var bad []*qref.N
			bad = append(bad, qref.CopyBlock(pairs)...)
			bad[2*(n-1)] = qL(n)
			qprog(c, qref.B(S("l", C("slice", qL("int"), qL(n))), qref.Defer(C("t", qV("l"))), C("set", append([]*qref.N{qV("l")}, bad...)...)), 1)
		}
	})
}
