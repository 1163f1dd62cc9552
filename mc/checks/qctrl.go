package checks

import (
	"verif/mc/core"
	"verif/mc/qref"
)

func init() {
	core.Register(&core.Check{
		ID:   "C30",
		Rule: "a case is one program (all programs up to a size over an alphabet of conditions, branches, loops and traced calls; all expressions up to a size with traced operands), run in up to three layouts; the order of the traced calls, the outcome and the variables are compared with a reference interpreter; non-trivial: the program succeeds",
		Assumptions: []string{"programs that take more than a given number of steps in the reference are skipped",
			"the value of a block whose last statement is followed by a semicolon isn't that of the statement"},
		Run: runC30,
	})
}

// blockGen enumerates blocks by size.
type blockGen struct {
	// stmts gives the statements of size n, with bodies from blocks
	leaf  []*qref.N
	comp  func(g *blockGen, n int) []*qref.N
	memoS map[int][]*qref.N
	memoB map[int][][]*qref.N
}

func newGen(leaf []*qref.N, comp func(g *blockGen, n int) []*qref.N) *blockGen {
	return &blockGen{leaf, comp, map[int][]*qref.N{}, map[int][][]*qref.N{}}
}

func (g *blockGen) stmts(n int) []*qref.N {
	if n <= 0 {
		return nil
	}
	if s, ok := g.memoS[n]; ok {
		return s
	}
	var out []*qref.N
	if n == 1 {
		out = append(out, g.leaf...)
	}
	if g.comp != nil {
		out = append(out, g.comp(g, n)...)
	}
	g.memoS[n] = out
	return out
}

// blocks gives the blocks of size n, n >= 0. An empty statement isn't the first.
func (g *blockGen) blocks(n int) [][]*qref.N {
	if n < 0 {
		return nil
	}
	if b, ok := g.memoB[n]; ok {
		return b
	}
	var out [][]*qref.N
	if n == 0 {
		out = append(out, nil)
	}
	for k := 1; k <= n; k++ {
		for _, rest := range g.blocks(n - k) {
			for _, s := range g.stmts(k) {
				if s.Op == "nop" && len(rest) == 0 {
					continue
				}
				out = append(out, append(append([]*qref.N(nil), rest...), s))
			}
		}
	}
	g.memoB[n] = out
	return out
}

// each calls f with copies of all blocks up to size max, shortest first, marks numbered.
func (g *blockGen) each(c *core.C, min, max int, f func(b []*qref.N)) {
	for n := min; n <= max; n++ {
		var rec func(left int, tail []*qref.N)
		rec = func(left int, tail []*qref.N) {
			if c.Stopped() {
				return
			}
			if left == 0 {
				if len(tail) > 0 && tail[0].Op == "nop" {
					return
				}
				b := qref.CopyBlock(tail)
				numberMarks(b)
				f(b)
				return
			}
			for k := 1; k <= left; k++ {
				for _, s := range g.stmts(k) {
					rec(left-k, append([]*qref.N{s}, tail...))
				}
			}
		}
		rec(n, nil)
	}
}

// numberMarks gives the marks of a program, t(0), different arguments.
func numberMarks(b []*qref.N) {
	k := 100
	var walk func(n *qref.N)
	walk = func(n *qref.N) {
		if n == nil {
			return
		}
		if n.Op == "mark" {
			*n = *qC("t", qL(k))
			k++
			return
		}
		for _, x := range n.K {
			walk(x)
		}
		for _, bl := range n.Blk {
			for _, x := range bl {
				walk(x)
			}
		}
	}
	for _, s := range b {
		walk(s)
	}
}

func mark() *qref.N { return &qref.N{Op: "mark"} }

func tr(v interface{}) *qref.N { return qC("t", qL(v)) }

// etree enumerates expression trees with n operands.
func etree(n int, ops []string, leaf func(i int) []*qref.N, base int, f func(e *qref.N)) {
	if n == 1 {
		for _, l := range leaf(base) {
			f(l)
		}
		return
	}
	for k := 1; k < n; k++ {
		etree(k, ops, leaf, base, func(a *qref.N) {
			etree(n-k, ops, leaf, base+k, func(b *qref.N) {
				for _, op := range ops {
					f(qref.Bin(op, a, b))
				}
			})
		})
	}
}

func runC30(c *core.C) {
	qmax = 3000
	defer func() { qmax = 5000 }()
	c.Family("logical expressions with traced operands")
	bools := func(i int) []*qref.N { return []*qref.N{tr(true), tr(false)} }
	for n := 1; n <= c.Pick(4, 5); n++ {
		etree(n, []string{"&&", "||"}, bools, 0, func(e *qref.N) {
			qprog(c, qref.B(qref.Set("r", e.Copy())), 3)
			qprog(c, qref.B(qref.Set("r", qref.If(e.Copy(), qref.B(tr(7))).Otherwise(qref.B(tr(8))))), 3)
		})
	}
	odd := func(i int) []*qref.N {
		return []*qref.N{tr(true), tr(false), tr(1), tr(nil), qref.Un("!", tr(true)), qV("nowhere"), qref.Bin("==", tr(1), tr(1))}
	}
	for n := 1; n <= 3; n++ {
		etree(n, []string{"&&", "||"}, odd, 0, func(e *qref.N) { qprog(c, qref.B(qref.Set("r", e.Copy())), 1) })
	}
	c.Family("order of evaluation in expressions")
	num := func(i int) []*qref.N { return []*qref.N{tr(i + 1), qref.Un("-", tr(i+1))} }
	for n := 2; n <= c.Pick(4, 5); n++ {
		etree(n, []string{"+", "-", "*", "<", "=="}, num, 0, func(e *qref.N) { qprog(c, qref.B(qref.Set("r", e.Copy())), 1) })
	}
	orders(c)
	sizesC30(c)
	c.Family("values of branches and loops as operands")
	vals := []*qref.N{
		qref.If(tr(true), qref.B(tr(1))), qref.If(tr(false), qref.B(tr(1))), qref.If(tr(false), qref.B(tr(1))).Otherwise(qref.B(tr(2))),
		qref.If(tr(true), nil), qref.If(tr(false), qref.B(tr(1))).Elif(tr(true), qref.B(tr(0), tr(3))), qref.If(tr(true), qref.B(tr(4), qref.Nop())),
		qref.Switch(tr(1)).Case(tr(2), qref.B(tr(5))).Case(tr(1), qref.B(tr(6), tr(7))), qref.Switch(nil).Case(tr(false), nil).Otherwise(qref.B(tr(8))),
		qref.Switch(tr(1)).Case(tr(1), nil), qref.Switch(tr(1)), qref.Switch(nil),
		qref.While(qref.Set("z", qref.Bin("<", tr(5), tr(3))), tr(9)),
		qref.If(qref.If(tr(true), qref.B(tr(false))), qref.B(tr(1))).Otherwise(qref.B(tr(9))),
		qref.Set("y", tr(2)), tr(3),
	}
	wrap := func(v *qref.N) *qref.N {
		if v.Op == "set" { // a statement gives a value only as the last of a block
			return qref.If(qL(true), qref.B(v.Copy()))
		}
		return v.Copy()
	}
	for _, a := range vals {
		qprog(c, qref.B(qref.Set("r", wrap(a))), 3)
		qprog(c, qref.B(qref.Set("r", qref.Index(wrap(a), wrap(a)))), 1)
		qprog(c, qref.B(qref.Set("r", qC("t", wrap(a))), wrap(a), mark1(1)), 7)
		for _, b := range vals {
			qprog(c, qref.B(qref.Set("r", qref.Bin("+", wrap(a), wrap(b)))), 1)
			qprog(c, qref.B(qref.Set("r", qref.List(wrap(a), wrap(b), wrap(a)))), 1)
			qprog(c, qref.B(qref.Set("r", qC("sliceFrom", wrap(a), tr(0), wrap(b)))), 1)
			qprog(c, qref.B(qref.Set("r", qref.Map(qL("a"), wrap(a), qL("b"), wrap(b)))), 1)
			qprog(c, qref.B(qref.Set("r", qref.Bin("==", tr(10), qref.If(qref.Bin("==", wrap(a), wrap(b)), qref.B(wrap(a))).Otherwise(qref.B(wrap(b)))))), 1)
			qprog(c, qref.B(qref.Set("r", qref.Switch(wrap(a)).Case(wrap(b), qref.B(tr(20))).Otherwise(qref.B(tr(21))))), 1)
			qprog(c, qref.B(wrap(a), wrap(b), mark1(1)), 7)
		}
	}
	c.Family("all programs of branches")
	conds := []*qref.N{qref.Bin("<", qV("n"), qL(1)), qref.Bin("==", qV("n"), qL(2)), qL(true), qC("t", qref.Bin("!=", qV("n"), qL(1)))}
	branch := func(loops bool) func(g *blockGen, n int) []*qref.N {
		return func(g *blockGen, n int) (out []*qref.N) {
			for _, b := range g.blocks(n - 1) {
				for _, cd := range conds {
					out = append(out, qref.If(cd, b))
				}
				out = append(out, qref.Switch(qV("n")).Case(qL(1), b), qref.Switch(nil).Case(conds[0], b))
				if loops {
					out = append(out, qref.While(qref.Bin("<", qV("n"), qL(2)), b...),
						qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(2)), qref.Inc("i"), b...),
						qref.For(qref.Set("n", qL(0)), qref.Bin("<", qV("n"), qL(2)), mark(), b...),
						qref.While(nil, append([]*qref.N{qref.If(qref.Bin(">", qV("n"), qL(1)), qref.B(qC("panic", qL("out")))), qref.Inc("n")}, b...)...))
				}
			}
			for k := 0; k <= n-1; k++ {
				for _, b := range g.blocks(k) {
					for _, b2 := range g.blocks(n - 1 - k) {
						out = append(out, qref.If(conds[0], b).Otherwise(b2), qref.If(conds[1], b).Elif(conds[0], b2),
							qref.Switch(qV("n")).Case(qL(0), b).Otherwise(b2), qref.Switch(qV("n")).Case(qL(1), b).Case(qL(0), b2))
					}
				}
			}
			for k := 0; k <= n-1; k++ {
				for l := 0; k+l <= n-1; l++ {
					for _, b := range g.blocks(k) {
						for _, b2 := range g.blocks(l) {
							for _, b3 := range g.blocks(n - 1 - k - l) {
								out = append(out, qref.If(conds[0], b).Elif(conds[3], b2).Otherwise(b3))
							}
						}
					}
				}
			}
			return
		}
	}
	leaves := []*qref.N{mark(), qref.Inc("n"), qref.Nop()}
	head := func(b []*qref.N) []*qref.N {
		return append(append([]*qref.N{qref.Set("n", qL(0))}, b...), qC("t", qV("n")))
	}
	newGen(leaves, branch(false)).each(c, 1, c.Pick(3, 4), func(b []*qref.N) { qprog(c, head(b), 7) })
	c.Family("all programs of branches and loops")
	newGen(leaves[:2], branch(true)).each(c, 1, c.Pick(3, 4), func(b []*qref.N) { qprog(c, head(b), 7) })
	c.Family("all programs of branches and loops in a function")
	newGen(append(leaves[:2:2], qref.Ret(qV("n")), qref.Ret()), branch(true)).each(c, 1, c.Pick(3, 4), func(b []*qref.N) {
		qprog(c, qref.B(qref.Set("f", qref.Fn("n", false, b...)), qref.Set("r", qref.Bin("==", tr(7), qC("f", qL(0)))), qref.Set("s", qref.List(tr(1), qC("f", qL(1)), tr(2)))), 7)
	})
	c.Family("forms of loops")
	parts := []*qref.N{mark(), qref.Set("i", qL(0)), qref.Inc("i"), qref.Bin("<", qV("i"), qL(3)), tr(false), tr(1), tr(nil), qref.Set("c", qref.Bin("<", qref.Bin("+", qV("i"), qL(1)), qL(2))),
		qref.OpSet("i", "+=", tr(2)), qref.MSet("i, j", qref.List(qL(1), qL(2))), qref.If(qref.Bin("==", qV("i"), qL(1)), qref.B(tr(false))).Otherwise(qref.B(tr(true)))}
	bodies := [][]*qref.N{nil, qref.B(mark()), qref.B(qref.Inc("i")), qref.B(qref.Inc("i"), mark(), qref.Nop()), qref.B(qC("panic", qL("x")))}
	for _, a := range parts {
		for _, bd := range bodies {
			p := func(s *qref.N) {
				b := qref.CopyBlock(qref.B(qref.Set("i", qL(0)), s, mark()))
				numberMarks(b)
				qprog(c, b, 7)
				b = qref.CopyBlock(qref.B(qref.Set("i", qL(0)), qref.Set("r", qref.List(mark(), s, mark())), qref.Set("f", qref.Fn("", false, qref.Ret(qref.List(mark(), s, mark())))), qref.Set("r", qref.List(mark(), qC("f")))))
				numberMarks(b)
				qprog(c, b, 1)
			}
			p(qref.While(a, bd...))
			for _, b := range parts {
				for _, d := range parts {
					p(qref.For(a, b, d, bd...))
				}
			}
		}
	}
	c.Family("switches over traced expressions, with up to four cases")
	bump := qref.Call(qref.Fn("", false, qV("n"), qref.Inc("n"), qref.Ret(qC("t", qV("n")))))
	tags := []*qref.N{nil, tr(1), tr(true), bump, qref.If(tr(false), qref.B(tr(1))), qref.Switch(bump).Case(qL(1), qref.B(tr(2))).Otherwise(qref.B(tr(3)))}
	cases := []*qref.N{tr(1), tr(2), tr(true), tr(false), qref.Bin("==", bump, qL(2)), bump, tr(nil)}
	for _, tag := range tags {
		eachIdx(c, len(cases), 0, c.Pick(3, 4), func(ix []int) {
			for d := 0; d < 2; d++ {
				sw := qref.Switch(tag)
				for k, i := range ix {
					var body []*qref.N
					if k != 1 {
						body = qref.B(mark1(k))
					}
					sw.Case(cases[i], body)
				}
				if d == 1 {
					sw.Otherwise(qref.B(mark1(9)))
				}
				qprog(c, qref.CopyBlock(qref.B(qref.Set("n", qL(0)), qref.Set("r", sw), qC("t", qV("n")))), 1)
			}
		})
	}
	c.Family("loops whose bodies have all kinds of values")
	out := qref.If(qref.Bin(">", qV("i"), qL(2)), qref.B(qref.Ret(qV("i"))))
	lasts := []*qref.N{qL(false), qL(true), qL(nil), qL(0), qL(""), tr(false), qref.List(), qref.If(qL(false), qref.B(qL(1))), qref.Switch(qL(1)), qref.While(qL(false), qL(1)), qref.Bin("==", qL(1), qL(2)), qref.Set("z", qL(false)),
		qref.Fn("", false), qV("nowhere"), qref.Bin("&&", qL(true), qL(false)), qref.If(qL(true), qref.B(qL(false))), qref.Nop(), qC("t", qV("i"))}
	conds4 := []*qref.N{nil, qL(true), qref.Bin("<", qV("i"), qL(2)), qref.Bin("<", qV("i"), qL(9)), qref.Bin("||", qref.Bin("<", qV("i"), qL(2)), tr(false))}
	for _, a := range lasts {
		for _, b := range lasts {
			for _, cd := range conds4 {
				for form := 0; form < 3; form++ {
					body := qref.B(qref.Inc("i"), out, a, b)
					var loop *qref.N
					switch {
					case form == 0:
						loop = qref.While(cd, body...)
					case cd == nil:
						continue
					case form == 1:
						loop = qref.For(qref.Set("y", a), cd, qref.Set("z", b), body...)
					default:
						loop = qref.For(a, cd, b, body...)
					}
					if b.Op == "set" && form == 2 || a.Op == "nop" && form > 0 || b.Op == "nop" && form > 0 {
						continue
					}
					if (a.Op == "set" || b.Op == "set") && form == 1 {
						continue
					}
					qprog(c, qref.CopyBlock(qref.B(qref.Set("f", qref.Fn("", false, qV("i"), qref.Set("i", qL(0)), loop, qref.Ret(qref.List(qL(100), qV("i"))))), qref.Set("i", qL(0)), qref.Set("r", qC("f")), qC("t", qV("r")))), 1)
				}
			}
		}
	}
	c.Family("many branches, cases, statements and rounds")
	for _, n := range pumpsUpTo(c.Pick(130, 600)) {
		for _, hit := range []int{0, n / 2, n - 1, n, -1} {
			ifs := qref.If(qref.Bin("==", qV("x"), qL(0)), qref.B(tr(0)))
			sw := qref.Switch(qV("x"))
			sw2 := qref.Switch(nil)
			for i := 0; i < n; i++ {
				if i > 0 {
					ifs.Elif(qref.Bin("==", qV("x"), qL(i)), qref.B(tr(i)))
				}
				sw.Case(qL(i), qref.B(tr(i)))
				sw2.Case(qref.Bin("==", qV("x"), qL(i)), qref.B(tr(i)))
			}
			if hit == n {
				ifs.Otherwise(qref.B(tr(1000)))
				sw.Otherwise(qref.B(tr(1000)))
				sw2.Otherwise(qref.B(tr(1000)))
			}
			qprog(c, qref.B(qref.Set("x", qref.Bin("-", qL(hit+1), qL(1))), qref.Set("r", ifs), qref.Set("s", sw), qref.Set("u", sw2)), 7)
		}
		loop := qref.For(qref.Set("i", qL(0)), qref.Bin("<", qV("i"), qL(n)), qref.Inc("i"), qref.OpSet("s", "+=", qV("i")))
		qprog(c, qref.B(qref.Set("s", qL(0)), loop, qC("t", qV("s"))), 7)
		var many []*qref.N
		for i := 0; i < n; i++ {
			many = append(many, qref.OpSet("s", "+=", qL(i)))
		}
		qprog(c, append(append(qref.B(qref.Set("s", qL(0))), many...), qC("t", qV("s"))), 7)
		if n <= 30 {
			in, iff := []*qref.N{qref.Inc("s")}, []*qref.N{qref.Inc("s")}
			for i := 0; i < n; i++ {
				iff = qref.B(qref.If(tr(true), iff).Otherwise(qref.B(tr(0))), mark1(i))
			}
			if n <= 8 {
				for i := 0; i < n; i++ {
					v := string(rune('a' + i))
					in = qref.B(qref.For(qref.Set(v, qL(0)), qref.Bin("<", qV(v), qL(2)), qref.Inc(v), in...))
				}
				qprog(c, append(qref.B(qref.Set("s", qL(0))), in...), 7)
			}
			qprog(c, append(qref.B(qref.Set("s", qL(0))), iff...), 7)
		}
	}
}

func mark1(i int) *qref.N { return tr(500 + i) }

// orders traces the parts of all other constructs.
func orders(c *core.C) {
	ops := []*qref.N{tr(0), tr(1), tr(2), tr("a"), tr(nil), qref.Bin("+", tr(1), tr(0)), qV("nowhere"), qC("f", tr(1)), qC("x", tr(3))}
	lst := qref.List(tr(5), tr(6), tr(7))
	eachIdx(c, len(ops), 1, 3, func(ix []int) {
		var k []*qref.N
		for _, i := range ix {
			k = append(k, ops[i])
		}
		p := func(s ...*qref.N) {
			qprog(c, qref.CopyBlock(append(qref.B(qref.Set("f", qref.Fn("a", false, tr(50), qref.Ret(qV("a")))), qref.Set("x", qref.List(qL(1), qL(2)))), s...)), 1)
		}
		p(qref.Set("r", qref.List(k...)))
		p(qref.Set("r", qC("sliceFrom", k...)))
		p(qref.Set("r", qref.Call(qref.If(tr(true), qref.B(qV("max"))), k...)))
		p(qref.Set("r", qref.Spread(qV("sliceFrom"), append(append([]*qref.N{}, k...), lst)...)))
		p(qref.Set("C", qref.Class(qref.Method("_init", "a", true, qref.Set("r", qV("a")), qC("set", qV("this"), qL("v"), qV("r"))))), qref.Set("r", qref.Mem(qref.New("C", k...), "v")))
		p(append(append([]*qref.N{}, k...), tr(9))...)
		switch len(k) {
		case 1:
			p(qref.Set("y", k[0]), qref.OpSet("y", "+=", k[0]), qref.OpSet("y", "*=", qref.List(k[0])))
			p(qref.OpSet("nowhere", "+=", k[0]))
			p(qref.Set("r", qref.Un("-", k[0])))
			p(qref.Set("r", qref.Mem(qref.Map(qL("v"), k[0]), "v")))
			p(qref.Set("r", qref.Index(lst, k[0])))
		case 2:
			p(qref.Set("r", qref.Index(qref.List(k[0], tr(4), tr(4)), k[1])))
			p(qref.Set("r", qref.Sub(lst, k[0], k[1])), qref.Set("s", qref.Sub(lst, k[1], nil)), qref.Set("u", qref.Sub(lst, nil, k[1])))
			p(qref.Set("r", qref.Map(tr("a"), k[0], tr("b"), k[1])))
			p(qref.MSet("y, z", qref.List(k[0], k[1])), qref.MSet("z, y", qref.List(qV("y"), qV("z"))))
			p(qref.Set("r", qref.Call(qref.If(k[0], qref.B(qV("f"))), k[1])))
			p(qref.Set("r", qref.Call(qref.Mem(qref.Map(qL("g"), qV("f"), qL("h"), k[0]), "g"), k[1])))
		case 3:
			p(qref.Set("r", qref.Bin("-", k[0], qref.Bin("*", k[1], k[2]))))
			p(qref.Set("r", qref.Bin("-", qref.Bin("*", k[0], k[1]), k[2])))
			p(qref.Set("r", qref.Sub(qref.List(k[0], tr(4), tr(4)), k[1], k[2])))
			p(qref.MSet("y, z, w", qref.List(k...)))
			p(qref.MSet("y, z", qref.List(k...)))
			p(qref.Set("r", qref.Bin("<", qref.Index(lst, k[0]), qC("f", qref.Bin("+", k[1], k[2])))))
		}
	})
}
