package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
)

func init() {
	core.Register(&core.Check{
		ID:          "C07",
		Rule:        "a case is one grammar tree, matched by the real matcher and the reference against every token string of the listed alphabet up to a length; non-trivial: some inputs are accepted and some rejected",
		Assumptions: []string{"left recursive grammars are outside the language", "a repetition whose item matches nothing counts that match once and ends"},
		Run:         runC07,
	})
	core.Register(&core.Check{
		ID:   "C08",
		Rule: "a case is one grammar tree with an action on every node; for every input the sequence of action calls, their token spans and the item counts are compared with the reference; non-trivial: actions run",
		Run:  runC08,
	})
	core.Register(&core.Check{
		ID:   "C09",
		Rule: "a case is one grammar tree with a transaction and an action on every node; for every input the complete interleaved sequence of begin, end and action calls is compared with the reference, including the value handed from begin to end and whether end sees an error; non-trivial: transactions run",
		Run:  runC09,
	})
	core.Register(&core.Check{
		ID:   "C10",
		Rule: "a case is one grammar tree with '!' at every possible set of positions (and actions); non-trivial: some inputs are accepted and some rejected",
		Run:  runC10,
	})
	core.Register(&core.Check{
		ID:          "C11",
		Rule:        "a case is one grammar tree; for every rejected input the error's grammar, position, line, quoted source text and message are compared with the reference; non-trivial: some inputs are rejected",
		Assumptions: []string{"the line of a failure at the end of the input is the line of the end of the text (a final newline opens no line), or 0 when there is no token to quote"},
		Run:         runC11,
	})
}

var (
	unaries  = []peg.Op{peg.Star, peg.Plus, peg.Opt, peg.Not, peg.Peek}
	binaries = []peg.Op{peg.And, peg.Or, peg.List, peg.List0}
	nID      = peg.T(tpl.IDENT)
	nInt     = peg.T(tpl.INT)
	nFloat   = peg.T(tpl.FLOAT)
	nPlus    = peg.T(tpl.ADD)
	nComma   = peg.T(tpl.COMMA)
	nTrue    = &peg.Node{Op: peg.True}
	nEOF     = &peg.Node{Op: peg.EOF}
)

// eachTree enumerates trees up to a size.
func eachTree(c *core.C, a *peg.Alphabet, max int, f func(n *peg.Node)) {
	for s := 1; s <= max; s++ {
		for _, n := range a.Enum(s) {
			if c.Stopped() {
				return
			}
			f(n)
		}
	}
}

// eachRules enumerates two-rule grammars doc, x in both orders.
func eachRules(c *core.C, leaves []*peg.Node, nd, nx int, f func(r *peg.Rules)) {
	a := &peg.Alphabet{Leaves: append(append([]*peg.Node{}, leaves...), peg.R("doc"), peg.R("x")), Unary: unaries, Binary: binaries}
	var ds, xs []*peg.Node
	for s := 1; s <= nd; s++ {
		ds = append(ds, a.Enum(s)...)
	}
	for s := 1; s <= nx; s++ {
		xs = append(xs, a.Enum(s)...)
	}
	for _, d := range ds {
		usesX := false
		d.Walk(func(n *peg.Node) { usesX = usesX || n.Op == peg.Ref && n.Name == "x" })
		if !usesX {
			continue
		}
		for _, x := range xs {
			if c.Stopped() {
				return
			}
			r := &peg.Rules{Names: []string{"doc", "x"}, Defs: map[string]*peg.Node{"doc": d, "x": x}}
			if r.LeftRecursive() {
				continue
			}
			f(r)
			rev := &peg.Rules{Names: []string{"x", "doc"}, Defs: r.Defs}
			f(rev)
		}
	}
}

// mapRules applies f to each rule's tree.
func mapRules(r *peg.Rules, f func(*peg.Node) *peg.Node) *peg.Rules {
	q := &peg.Rules{Names: r.Names, Defs: map[string]*peg.Node{}}
	for _, n := range r.Names {
		q.Defs[n] = f(r.Defs[n])
	}
	return q
}

// markRules marks every node, with names that are unique across rules.
func markRules(r *peg.Rules, trans bool) *peg.Rules {
	if trans {
		return markRulesAs(r, "(m")
	}
	return markRulesAs(r, "m")
}

func markRulesAs(r *peg.Rules, style string) *peg.Rules {
	i := 0
	return mapRules(r, func(n *peg.Node) *peg.Node {
		m := n.MarkedAs(style)
		i++
		m.Walk(func(k *peg.Node) {
			if k.Op == peg.Mark || k.Op == peg.Trans {
				k.Name = fmt.Sprint(k.Name, "_", i)
			}
		})
		return m
	})
}

func copyRules(r *peg.Rules) *peg.Rules {
	return mapRules(r, func(n *peg.Node) *peg.Node { return n.Copy() })
}

// pumpedRules are grammars with one dimension blown up, each with inputs around it.
func pumpedRules(max int, f func(r *peg.Rules, ins []string)) {
	one := func(n *peg.Node, ins ...string) { f(doc1(n), ins) }
	many := func(n int, g func(i int) *peg.Node) (out []*peg.Node) {
		for i := 0; i < n; i++ {
			out = append(out, g(i))
		}
		return
	}
	words := func(s string, n int) string { return strings.TrimSpace(strings.Repeat(s+" ", n)) }
	id := func(int) *peg.Node { return nID.Copy() }
	for _, n := range pumpsUpTo(max) {
		n := n
		near := func(unit, tail string) []string {
			return []string{words(unit, n), words(unit, n-1), words(unit, n+1), words(unit, n) + " " + tail, words(unit, n-1) + " " + tail, words(unit, n/2) + " " + tail + " " + words(unit, n/2)}
		}
		one(peg.B(peg.And, many(n, id)...), near("a", "+")...)
		one(peg.B(peg.And, append(many(n-1, id), peg.U(peg.Plus, nPlus.Copy()))...), near("a", "+")...)
		one(peg.U(peg.Star, nID.Copy()), near("a", "+")...)
		one(peg.U(peg.Plus, peg.B(peg.And, nID.Copy(), nPlus.Copy())), near("a +", "a")...)
		one(peg.B(peg.List, nID.Copy(), nPlus.Copy()), words("a +", n), words("a +", n)+" a", words("a +", n)+" 1", words("a +", n-1)+" a", words("a +", n-1)+" a a")
		one(peg.B(peg.List0, nID.Copy(), nComma.Copy()), words("a ,", n), words("a ,", n)+" a", words("a ,", n)+" 1", words("a ,", n-1)+" a a", "1")
		one(peg.B(peg.List, peg.U(peg.Star, nInt.Copy()), nComma.Copy()), words("1 1 ,", n), words(",", n), words("1", n), words(",", n)+" 1")
		if n <= 2100 {
			kinds := []*peg.Node{nInt, nFloat, nPlus, nComma}
			one(peg.B(peg.Or, append(many(n, func(i int) *peg.Node {
				return peg.B(peg.And, kinds[i%2+2].Copy(), nID.Copy(), kinds[i%4].Copy())
			}), nID.Copy())...), "a", "+", ", a", "+ a +", ", a ,", ", a a", "+ a 1")
			one(peg.B(peg.And, peg.B(peg.Or, append(many(n-1, func(i int) *peg.Node { return kinds[i%3].Copy() }), nComma.Copy())...), nID.Copy()), ", a", "1 a", ", ,", "a")
			nest := func(op peg.Op, base *peg.Node) *peg.Node {
				g := base
				for i := 0; i < n; i++ {
					g = peg.U(op, g)
				}
				return g
			}
			one(peg.B(peg.And, nest(peg.Peek, nID.Copy()), nID.Copy()), "a", "1", "")
			one(peg.B(peg.And, nest(peg.Not, nInt.Copy()), nID.Copy()), "a", "1", "")
			one(nest(peg.Opt, nInt.Copy()), "1", "a", "1 1")
			if n <= 129 {
				one(nest(peg.Star, nInt.Copy()), "1", "a", "1 1 1")
				one(nest(peg.Plus, nInt.Copy()), "1", "a", "1 1 1")
			}
			// nested parentheses by recursion
			paren := &peg.Rules{Names: []string{"doc"}, Defs: map[string]*peg.Node{"doc": peg.B(peg.Or, nID.Copy(), peg.B(peg.And, peg.T(tpl.LPAREN), peg.R("doc"), peg.T(tpl.RPAREN)))}}
			f(paren, []string{words("(", n) + " a " + words(")", n), words("(", n) + " a " + words(")", n-1), words("(", n) + " a " + words(")", n+1), words("(", n) + " 1 " + words(")", n), words("(", n)})
			// a chain of rules
			ch := &peg.Rules{Defs: map[string]*peg.Node{}}
			for i := n; i > 0; i-- {
				name := fmt.Sprint("r", i)
				ch.Names = append(ch.Names, name)
				if i == n {
					ch.Defs[name] = peg.B(peg.And, nID.Copy(), nPlus.Copy())
				} else {
					ch.Defs[name] = peg.B(peg.Or, peg.R(fmt.Sprint("r", i+1)), nInt.Copy())
				}
			}
			ch.Names = append(ch.Names, "doc")
			ch.Defs["doc"] = peg.U(peg.Plus, peg.R("r1"))
			f(ch, []string{"a +", "1", "a", "a + 1", "+", "1 1 1", "a + a + 1 a"})
			// a list of lists
			one(peg.B(peg.List, peg.B(peg.And, peg.T(tpl.LPAREN), peg.B(peg.List0, nID.Copy(), nComma.Copy()), peg.T(tpl.RPAREN)), nPlus.Copy()),
				words("( a , a ) +", n)+" ( )", "( "+words("a ,", n)+" a )", words("( ) +", n)+" (", "( "+words("a ,", n)+" )")
			// right-recursive rule
			rr := doc1(peg.B(peg.And, nID.Copy(), peg.U(peg.Opt, peg.B(peg.And, nPlus.Copy(), peg.R("doc")))))
			f(rr, []string{words("a +", n) + " a", words("a +", n), words("a +", n) + " 1", words("a +", n) + " a a"})
		}
	}
}

// modeCases runs small trees over inputs scanned with semicolon insertion or comments as tokens.
func modeCases(c *core.C, size, what int, f func(*peg.Rules) *peg.Rules) {
	nSemi := peg.T(tpl.SEMICOLON)
	var ins []*input
	eachIdx(c, 4, 0, 4, func(ix []int) {
		s := ""
		for _, i := range ix {
			s += []string{"a ", "+ ", "\n", ";"}[i]
		}
		ins = append(ins, newInputMode(s, nil, tpl.InsertSemis))
	})
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nSemi, nEOF}, Unary: unaries, Binary: binaries}
	eachTree(c, a, size, func(n *peg.Node) { pegCase(c, f(doc1(n.Copy())), ins, what) })
	var cins []*input
	eachIdx(c, 4, 0, 4, func(ix []int) {
		s := ""
		for _, i := range ix {
			s += []string{"a ", "\n", "/*b*/", "// c\n"}[i]
		}
		cins = append(cins, newInputMode(s, nil, tpl.ScanComments), newInputMode(s, nil, tpl.ScanComments|tpl.InsertSemis))
	})
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nSemi, peg.T(tpl.COMMENT)}, Unary: unaries, Binary: binaries}
	eachTree(c, b, size, func(n *peg.Node) { pegCase(c, f(doc1(n.Copy())), cins, what) })
}

func pumpedCases(c *core.C, max int, what int, f func(*peg.Rules) *peg.Rules) {
	pumpedRules(max, func(r *peg.Rules, ins []string) {
		r = f(r)
		var in []*input
		for _, s := range ins {
			in = append(in, newInput(s, nil))
		}
		pegCase(c, r, in, what)
	})
}

func qcopy(a []*peg.Node) (out []*peg.Node) {
	for _, n := range a {
		out = append(out, n.Copy())
	}
	return
}

// ownCases runs trees of which every node is a grammar of a type of our own, with errors of our own.
func ownCases(c *core.C, what int) {
	ins := inputsOf(c, []string{"a", "+", "1"}, 4, nil)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nTrue, nEOF, peg.R("u")}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, c.Pick(4, 5), func(n *peg.Node) {
		r := doc1(n)
		f := copyRules
		if what&cmpEvents != 0 {
			f = func(r *peg.Rules) *peg.Rules { return markRules(r, true) }
		}
		for _, m := range withCuts(n) {
			pegCase(c, f(doc1(m)), ins, what|cmpOwn)
		}
		pegCase(c, f(r), ins, what|cmpOwn)
	})
}

// longCases matches repetitions over inputs far longer than anything a table or a counter of 16 bits holds.
func longCases(c *core.C, max, what int, f func(*peg.Rules) *peg.Rules) {
	var ns []int
	for k := 11; k <= max; k++ {
		ns = append(ns, 1<<uint(k)-1, 1<<uint(k), 1<<uint(k)+1)
	}
	for _, n := range append(ns, 3000, 5000, 10000, 10001, 20000, 50000) {
		words := func(s string) string { return strings.Repeat(s+" ", n) }
		for _, k := range []struct {
			n   *peg.Node
			ins []string
		}{
			{peg.U(peg.Star, nID), []string{words("a"), words("a") + "+"}},
			{peg.U(peg.Plus, nID), []string{words("a"), words("a") + "+"}},
			{peg.B(peg.And, peg.U(peg.Star, peg.B(peg.Or, nID, nInt)), nPlus, nEOF), []string{words("a"), words("a") + "+", words("1") + "+", words("1") + "+ +"}},
			{peg.B(peg.And, peg.U(peg.Plus, peg.B(peg.Or, nID, nInt)), nPlus, nEOF), []string{words("a"), words("a") + "+", words("1") + "+", words("1") + "+ +"}},
			{peg.B(peg.List, nID, nComma), []string{words("a ,"), words("a ,") + "a", words("a ,") + "a a"}},
			{peg.B(peg.List0, nID, nComma), []string{words("a ,"), words("a ,") + "a", words("a ,") + "a a"}},
		} {
			var in []*input
			for _, s := range k.ins {
				in = append(in, newInput(s, nil))
			}
			pegCase(c, f(doc1(k.n.Copy())), in, what)
		}
	}
}

// unassignedCases runs trees with a rule that is never assigned: such a rule matches nothing.
func unassignedCases(c *core.C, size, what int) {
	ins := inputsOf(c, []string{"a", "+"}, 4, nil)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, peg.R("u")}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, size, func(n *peg.Node) {
		if len(doc1(n).Undefined()) > 0 {
			pegCase(c, copyRules(doc1(n)), ins, what)
		}
	})
	eachTree(c, &peg.Alphabet{Leaves: []*peg.Node{nID, peg.R("u")}, Unary: unaries, Binary: []peg.Op{peg.And, peg.Or}}, 3, func(n *peg.Node) {
		if len(doc1(n).Undefined()) > 0 {
			for _, m := range withCuts(n) {
				pegCase(c, copyRules(doc1(m)), ins, what)
			}
		}
	})
}

// altTrees are choices between sequences of up to three tokens inside every operator.
func altTrees(c *core.C, plain bool, f func(r *peg.Rules)) {
	var seqs []*peg.Node
	for _, n := range []int{1, 2, 3} {
		eachIdx(c, 2, n, n, func(ix []int) {
			var kids []*peg.Node
			for _, k := range ix {
				kids = append(kids, []*peg.Node{nID, nPlus}[k])
			}
			if n == 1 {
				seqs = append(seqs, kids[0])
			} else {
				seqs = append(seqs, peg.B(peg.And, kids...))
			}
		})
	}
	var alts []*peg.Node
	for _, q := range seqs {
		alts = append(alts, q, peg.B(peg.List, q, nComma), peg.B(peg.List0, q, nComma), peg.B(peg.List, q, nPlus), peg.B(peg.And, q, nEOF), peg.B(peg.Or, q, nInt))
		if plain {
			alts = append(alts, peg.M(q, "m"), &peg.Node{Op: peg.Trans, Name: "t", Kids: []*peg.Node{q}})
		}
		for _, u := range unaries {
			alts = append(alts, peg.U(u, q))
		}
	}
	for _, a := range alts {
		for _, b := range alts {
			f(doc1(peg.B(peg.Or, a, b)))
			if c.Thorough() {
				f(doc1(peg.B(peg.And, nID, peg.B(peg.Or, a, b))))
				f(doc1(peg.B(peg.Or, a, peg.B(peg.And, nID, b))))
			}
		}
	}
}

// choiceTrees calls f with choices between two sequences that are an alternative of another choice,
// or stand behind a commit mark, alone and with a sequence before them.
func choiceTrees(c *core.C, f func(r *peg.Rules)) {
	var seqs []*peg.Node
	for n := 1; n <= c.Pick(2, 3); n++ {
		eachIdx(c, 3, n, n, func(ix []int) {
			var kids []*peg.Node
			for _, k := range ix {
				kids = append(kids, []*peg.Node{nID, nPlus, nInt}[k])
			}
			if n == 1 {
				seqs = append(seqs, kids[0])
			} else {
				seqs = append(seqs, peg.B(peg.And, kids...))
			}
		})
	}
	for _, a := range seqs {
		for _, b := range seqs {
			in := peg.B(peg.Or, a, b)
			for _, x := range seqs {
				f(doc1(peg.B(peg.Or, in, x)))
				f(doc1(peg.B(peg.Or, x, in)))
				f(doc1(peg.B(peg.Or, peg.B(peg.And, nID, in), x)))
				for k := 0; k < 2; k++ {
					cut := peg.B(peg.And, x, in)
					n := len(cut.Kids)
					cut.Cut = make([]bool, n+1)
					cut.Cut[[]int{0, n - 1}[k]] = true
					f(doc1(cut))
					f(doc1(peg.B(peg.Or, cut, x)))
				}
			}
		}
	}
}

// assignCases gives variables and named rules bodies, several times, before and after matching.
func assignCases(c *core.C) {
	c.Family("variables and named rules that are assigned by hand, again and again")
	bodies := []tpl.Grammar{tpl.Gr(tpl.IDENT), tpl.Gr('+'), tpl.Repeat0(tpl.Gr('+')), tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('+')), tpl.GrTrue}
	// how many tokens each takes of "", a, +, "a +", "+ a", "+ +"; -1: it fails
	srcs := []string{"", "a", "+", "a +", "+ a", "+ +"}
	want := [][]int{{-1, 1, -1, 1, -1, -1}, {-1, -1, 1, -1, 1, 1}, {0, 0, 1, 0, 1, 2}, {-1, -1, -1, 2, -1, -1}, {0, 0, 0, 0, 0, 0}}
	eachIdx(c, len(bodies), 1, c.Pick(4, 6), func(ix []int) {
		ix = cp(ix)
		for kind := 0; kind < 2; kind++ {
			for _, between := range []bool{false, true} {
				kind, between := kind, between
				c.Do(func() string {
					return fmt.Sprintf("%s assigned bodies %v, matched in between: %v", []string{"variable", "named rule"}[kind], ix, between)
				}, func() string {
					c.Nontrivial(1)
					v := tpl.Var("v")
					n := new(tpl.GrNamed)
					var g tpl.Grammar = v
					if kind == 1 {
						g = n
					}
					name := "v"
					m := &tpl.Matcher{Grammar: g, Scanner: new(tpl.AutoKwScanner)}
					check := func(body int) string {
						for i, s := range srcs {
							next, err := m.Match([]byte(s), "")
							got := len(strings.Fields(s)) - len(next)
							if err != nil {
								got = -1
							}
							if got != want[body][i] {
								return fmt.Sprintf("body %d takes %d of %q, want %d", body, got, s, want[body][i])
							}
							c.AddTrace(1)
							c.AddStates(1)
							c.AddTransitions(1)
						}
						if code := tpl.Code(g, m.Scanner); code != name {
							return fmt.Sprintf("written as %q, want %q", code, name)
						}
						if g.Len() != -1 {
							return fmt.Sprintf("has %d items", g.Len())
						}
						return ""
					}
					cur := ix[0]
					for k, i := range ix {
						if kind == 0 {
							err := v.Assign(bodies[i])
							if k == 0 && err != nil || k > 0 && err != tpl.ErrVarAssigned {
								return fmt.Sprintf("assignment %d gives %v", k, err)
							}
						} else {
							name = fmt.Sprint("n", k)
							n.Assign(name, bodies[i])
							cur = i
						}
						if between || k == len(ix)-1 {
							if msg := check(cur); msg != "" {
								return fmt.Sprintf("after assignment %d: %s", k, msg)
							}
						}
					}
					return ""
				})
			}
		}
	})
}

func runC07(c *core.C) {
	leaves := []*peg.Node{nID, nPlus, nInt, nFloat, nTrue, nEOF}
	ins := inputsOf(c, []string{"a", "+", "1", "1.5"}, 4, nil)
	long := inputsOf(c, []string{"a", "+"}, c.Pick(7, 8), nil)

	c.Family("all trees over IDENT + INT FLOAT 1 EOF, all inputs up to 4 tokens")
	a := &peg.Alphabet{Leaves: leaves, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, c.Pick(5, 5), func(n *peg.Node) { pegCase(c, doc1(n), ins, cmpResult) })
	c.Family("larger trees over IDENT + 1, all inputs up to 7 (thorough 8) tokens")
	a2 := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nTrue}, Unary: unaries, Binary: binaries}
	eachTree(c, a2, c.Pick(5, 6), func(n *peg.Node) { pegCase(c, doc1(n), long, cmpResult) })
	if c.Thorough() {
		c.Family("trees of 6 nodes over IDENT + INT EOF")
		a3 := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nEOF}, Unary: unaries, Binary: binaries}
		for _, n := range a3.Enum(6) {
			pegCase(c, doc1(n), ins, cmpResult)
		}
	}
	c.Family("two rules that may call each other")
	rin := inputsOf(c, []string{"a", "+"}, 5, nil)
	eachRules(c, []*peg.Node{nID, nPlus}, c.Pick(3, 4), c.Pick(3, 3), func(r *peg.Rules) { pegCase(c, r, rin, cmpResult) })
	assignCases(c)
	c.Family("choices of sequences inside every operator")
	altTrees(c, false, func(r *peg.Rules) { pegCase(c, r, rin, cmpResult) })
	c.Family("recursive rules with longer bodies")
	rec := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, peg.R("doc")}, Unary: []peg.Op{peg.Star, peg.Opt, peg.Peek, peg.Not}, Binary: binaries}
	eachTree(c, rec, c.Pick(5, 6), func(n *peg.Node) {
		r := doc1(n)
		if !r.LeftRecursive() {
			pegCase(c, r, rin, cmpResult)
		}
	})
	c.Family("keywords")
	kw := map[string]bool{"if": true, "else": true}
	kin := inputsOf(c, []string{"if", "else", "a", "1"}, 4, kw)
	ka := &peg.Alphabet{Leaves: []*peg.Node{peg.K("if"), peg.K("else"), nID}, Unary: unaries, Binary: binaries}
	eachTree(c, ka, 4, func(n *peg.Node) {
		r := doc1(n)
		if k := r.Keywords(); len(k) == 2 {
			pegCase(c, r, kin, cmpResult)
		}
	})
	c.Family("every token kind against every token")
	var kinds []uint
	var srcs []string
	var ops []string
	for op := range lexref.Operators {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	for _, op := range ops {
		kinds = append(kinds, lexref.Operators[op])
		srcs = append(srcs, op)
	}
	kinds = append(kinds, tpl.IDENT, tpl.INT, tpl.FLOAT, tpl.IMAG, tpl.CHAR, tpl.STRING)
	srcs = append(srcs, "x", "7", "7.5", "1e3", "2i", "'c'", `"s"`, "`r`", "0x1f")
	var kins []*input
	for _, s := range srcs {
		kins = append(kins, newInput(s, nil))
		kins = append(kins, newInput("a "+s+" a", nil))
	}
	for _, k := range kinds {
		pegCase(c, doc1(peg.T(k)), kins, cmpResult)
		pegCase(c, doc1(peg.B(peg.And, nID, peg.T(k), nID)), kins, cmpResult)
		pegCase(c, doc1(peg.U(peg.Star, peg.B(peg.Or, nID, peg.T(k)))), kins, cmpResult)
	}
	c.Family("choices between many kinds of tokens, one of them missing")
	for k := 2; k <= len(kinds); k++ {
		for miss := 0; miss < k; miss++ {
			for _, rev := range []bool{false, true} {
				var alts []*peg.Node
				for i := 0; i < k; i++ {
					j := len(kinds) - 1 - i // INT and FLOAT are among the last
					if rev {
						j = len(kinds) - k + i
					}
					if i != miss {
						alts = append(alts, peg.T(kinds[j]))
					}
				}
				pegCase(c, doc1(peg.B(peg.Or, append(alts, nComma.Copy())...)), kins, cmpResult)
				pegCase(c, doc1(peg.U(peg.Star, peg.B(peg.Or, append(qcopy(alts), peg.B(peg.And, nInt.Copy(), nComma.Copy()))...))), kins, cmpResult)
			}
		}
	}
	c.Family("grammars of a type defined by the user")
	ownCases(c, cmpResult)
	c.Family("pumped grammars and inputs")
	pumpedCases(c, c.Pick(1100, 4100), cmpResult, func(r *peg.Rules) *peg.Rules { return r })
	c.Family("inputs with inserted semicolons and comments as tokens")
	modeCases(c, c.Pick(3, 4), cmpResult, copyRules)
	c.Family("rules that are never assigned")
	unassignedCases(c, c.Pick(4, 5), cmpResult)
	c.Family("very long inputs")
	longCases(c, c.Pick(16, 17), cmpResult, copyRules)
}

func runC08(c *core.C) {
	ins := inputsOf(c, []string{"a", "+", "1"}, 4, nil)
	mark := func(r *peg.Rules) *peg.Rules { return markRules(r, false) }
	c.Family("all trees over IDENT + INT 1 EOF with an action on every node")
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nTrue, nEOF}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, 4, func(n *peg.Node) { pegCase(c, mark(doc1(n)), ins, cmpResult|cmpEvents) })
	c.Family("larger trees over IDENT +")
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries, Three: true}
	lin := inputsOf(c, []string{"a", "+"}, c.Pick(6, 8), nil)
	eachTree(c, b, c.Pick(5, 6), func(n *peg.Node) { pegCase(c, mark(doc1(n)), lin, cmpResult|cmpEvents) })
	c.Family("two rules that may call each other")
	eachRules(c, []*peg.Node{nID, nPlus}, c.Pick(3, 4), 3, func(r *peg.Rules) { pegCase(c, mark(r), lin[:63], cmpResult|cmpEvents) })
	c.Family("choices of sequences inside every operator")
	altIns := inputsOf(c, []string{"a", "+"}, 4, nil)
	altTrees(c, false, func(r *peg.Rules) { pegCase(c, mark(r), altIns, cmpResult|cmpEvents) })
	c.Family("pumped grammars and inputs")
	pumpedCases(c, c.Pick(600, 2100), cmpResult|cmpEvents, mark)
	c.Family("item counts of nested repetitions that are re-entered")
	// x = '(' *(x | IDENT) ')': the count belongs to the match that just ended
	for _, op := range []peg.Op{peg.Star, peg.Plus, peg.Opt} {
		for _, l := range []peg.Op{peg.List, peg.List0} {
			inner := peg.U(op, peg.B(peg.Or, peg.R("doc"), nID))
			r := mark(doc1(peg.B(peg.And, peg.T(tpl.LPAREN), inner, peg.T(tpl.RPAREN))))
			r2 := mark(doc1(peg.B(peg.And, peg.T(tpl.LPAREN), peg.B(l, peg.B(peg.Or, peg.R("doc"), nID), nComma), peg.T(tpl.RPAREN))))
			in := inputsOf(c, []string{"(", "a", ")", ","}, c.Pick(6, 8), nil)
			pegCase(c, r, in, cmpResult|cmpEvents)
			pegCase(c, r2, in, cmpResult|cmpEvents)
		}
	}
	c.Family("inputs with inserted semicolons and comments as tokens")
	modeCases(c, c.Pick(3, 4), cmpResult|cmpEvents, mark)
	c.Family("very long inputs")
	longCases(c, c.Pick(14, 16), cmpResult|cmpEvents, func(r *peg.Rules) *peg.Rules {
		n := r.Defs["doc"]
		return doc1(peg.M(n, "m"))
	})
}

func runC09(c *core.C) {
	mark := func(r *peg.Rules) *peg.Rules { return markRules(r, true) }
	ins := inputsOf(c, []string{"a", "+", "1"}, 3, nil)
	c.Family("all trees over IDENT + INT 1 EOF with a transaction on every node")
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nTrue, nEOF}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, 4, func(n *peg.Node) { pegCase(c, mark(doc1(n)), ins, cmpEvents|cmpResult) })
	for _, style := range []string{"(", "m(", "((", "(m("} {
		style := style
		c.Family("transactions without actions, outside of actions, doubled: " + style)
		eachTree(c, a, 4, func(n *peg.Node) { pegCase(c, markRulesAs(doc1(n), style), ins, cmpEvents|cmpResult) })
		rl := inputsOf(c, []string{"a", "+"}, 4, nil)
		eachRules(c, []*peg.Node{nID, nPlus}, 3, 2, func(r *peg.Rules) { pegCase(c, markRulesAs(r, style), rl, cmpEvents|cmpResult) })
		modeCases(c, 3, cmpResult|cmpEvents, func(r *peg.Rules) *peg.Rules { return markRulesAs(r, style) })
	}
	c.Family("larger trees over IDENT +")
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries}
	lin := inputsOf(c, []string{"a", "+"}, 5, nil)
	eachTree(c, b, c.Pick(5, 6), func(n *peg.Node) { pegCase(c, mark(doc1(n)), lin, cmpEvents|cmpResult) })
	c.Family("two rules that may call each other")
	eachRules(c, []*peg.Node{nID, nPlus}, c.Pick(3, 4), 3, func(r *peg.Rules) { pegCase(c, mark(r), lin[:31], cmpEvents|cmpResult) })
	c.Family("choices of sequences inside every operator")
	altTrees(c, false, func(r *peg.Rules) { pegCase(c, mark(r), lin[:31], cmpResult|cmpEvents) })
	c.Family("pumped grammars and inputs")
	pumpedCases(c, c.Pick(300, 2100), cmpEvents|cmpResult, mark)
	c.Family("inputs with inserted semicolons and comments as tokens")
	modeCases(c, c.Pick(3, 3), cmpResult|cmpEvents, mark)
	c.Family("grammars of a type defined by the user")
	ownCases(c, cmpEvents)
	c.Family("transactions that are nested in themselves")
	for _, op := range []peg.Op{peg.Star, peg.Plus, peg.Opt} {
		for _, l := range []peg.Op{peg.List, peg.List0, peg.Or, peg.And} {
			r := mark(doc1(peg.B(peg.Or, peg.B(peg.And, peg.T(tpl.LPAREN), peg.U(op, peg.B(peg.Or, peg.R("doc"), nPlus)), peg.T(tpl.RPAREN)), nID)))
			r2 := mark(doc1(peg.B(peg.And, peg.T(tpl.LPAREN), peg.B(l, peg.B(peg.Or, peg.R("doc"), nID), peg.U(op, nComma)), peg.T(tpl.RPAREN))))
			in := inputsOf(c, []string{"(", "a", ")", ","}, c.Pick(6, 8), nil)
			pegCase(c, r, in, cmpResult|cmpEvents)
			pegCase(c, r2, in, cmpResult|cmpEvents)
		}
	}
}

// withCuts lists all ways to put '!' into the sequences of a tree.
func withCuts(n *peg.Node) (out []*peg.Node) {
	var seqs []*peg.Node
	total := 0
	n.Walk(func(k *peg.Node) {
		if k.Op == peg.And {
			seqs = append(seqs, k)
			total += len(k.Kids) + 1
		}
	})
	if total == 0 || total > 8 {
		return nil
	}
	for bits := 1; bits < 1<<uint(total); bits++ {
		m := n.Copy()
		b := bits
		m.Walk(func(k *peg.Node) {
			if k.Op == peg.And {
				k.Cut = make([]bool, len(k.Kids)+1)
				for i := range k.Cut {
					k.Cut[i] = b&1 != 0
					b >>= 1
				}
			}
		})
		out = append(out, m)
	}
	return
}

func runC10(c *core.C) {
	ins := inputsOf(c, []string{"a", "+", "1"}, 3, nil)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt}, Unary: unaries, Binary: binaries, Three: true}
	c.Family("all trees with a sequence, '!' at every set of positions, results and errors")
	eachTree(c, a, c.Pick(5, 5), func(n *peg.Node) {
		for _, m := range withCuts(n) {
			pegCase(c, doc1(m), ins, cmpResult|cmpDiag)
		}
	})
	c.Family("the same with actions and transactions")
	eachTree(c, a, 4, func(n *peg.Node) {
		for _, m := range withCuts(n) {
			pegCase(c, markRules(doc1(m), true), ins, cmpResult|cmpEvents)
		}
	})
	c.Family("grammars of a type defined by the user")
	ownCases(c, cmpResult|cmpEvents)
	c.Family("sequences with '!' and rules that are never assigned")
	unassignedCases(c, c.Pick(3, 4), cmpResult|cmpDiag)
	c.Family("'!' in a rule that others call")
	x := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: []peg.Op{peg.Star, peg.Opt}, Binary: []peg.Op{peg.And, peg.Or}}
	d := &peg.Alphabet{Leaves: []*peg.Node{nID, peg.R("x")}, Unary: unaries, Binary: binaries}
	din := inputsOf(c, []string{"a", "+"}, 5, nil)
	eachTree(c, d, c.Pick(3, 4), func(n *peg.Node) {
		uses := false
		n.Walk(func(k *peg.Node) { uses = uses || k.Op == peg.Ref })
		if !uses {
			return
		}
		for s := 3; s <= 4; s++ {
			for _, xn := range x.Enum(s) {
				for _, xm := range withCuts(xn) {
					r := &peg.Rules{Names: []string{"x", "doc"}, Defs: map[string]*peg.Node{"x": xm, "doc": n}}
					pegCase(c, copyRules(r), din, cmpResult|cmpDiag)
				}
			}
		}
	})
	c.Family("pumped sequences with one '!'")
	for _, n := range pumpsUpTo(c.Pick(600, 2100)) {
		for _, at := range []int{0, 1, n / 2, n - 1, n} {
			if at < 0 || at > n {
				continue
			}
			var kids []*peg.Node
			for i := 0; i < n; i++ {
				kids = append(kids, nID.Copy())
			}
			s := peg.B(peg.And, kids...)
			s.Cut = make([]bool, n+1)
			s.Cut[at] = true
			r := doc1(peg.B(peg.Or, s, nInt.Copy(), peg.U(peg.Star, nID.Copy())))
			var in []*input
			for _, k := range []int{0, 1, at - 1, at, at + 1, n - 1, n, n + 1} {
				if k >= 0 {
					in = append(in, newInput(strings.Repeat("a ", k), nil), newInput(strings.Repeat("a ", k)+"1", nil), newInput(strings.Repeat("a\n", k)+"1", nil))
				}
			}
			pegCase(c, r, in, cmpResult|cmpDiag)
		}
	}
}

func runC11(c *core.C) {
	nl := inputsOf(c, []string{"a", "+", "1"}, 3, nil)
	var ins []*input
	for _, in := range nl {
		ins = append(ins, in)
		if len(in.tks) > 1 {
			ins = append(ins, newInput(strings.Replace(in.src, " ", "\n", -1), nil), newInput("\n\n "+strings.Replace(in.src, " ", " // c\n", -1)+" ", nil))
		}
	}
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nTrue, nEOF}, Unary: unaries, Binary: binaries, Three: true}
	c.Family("all trees, all inputs up to 3 tokens on one or several lines")
	eachTree(c, a, c.Pick(4, 5), func(n *peg.Node) { pegCase(c, doc1(n.Copy()), ins, cmpDiag) })
	c.Family("longer trees, longer inputs")
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries, Three: true}
	lin := inputsOf(c, []string{"a", "+"}, c.Pick(5, 7), nil)
	eachTree(c, b, c.Pick(5, 6), func(n *peg.Node) { pegCase(c, doc1(n.Copy()), lin, cmpDiag) })
	c.Family("choices of sequences inside every operator")
	altTrees(c, true, func(r *peg.Rules) { pegCase(c, copyRules(r), lin[:31], cmpDiag) })
	c.Family("choices between sequences inside a choice, and committed")
	choiceTrees(c, func(r *peg.Rules) { pegCase(c, copyRules(r), lin[:31], cmpDiag) })
	c.Family("failures behind //line comments")
	var dins []*input
	for _, src := range []string{"a", "a +", "a a", "a + a", "+ 1", "1 + +"} {
		for _, d := range []string{"//line g:10\n", "//line :70\n", "//line g:x\n", "//line g:3\nb\n", "//line x:8\n//line y:5\n", "//line g:10\n\n\n"} {
			dins = append(dins, newInput(d+src, nil), newInput("a\n"+d+src+"\n", nil), newInput(strings.Replace(src, " ", "\n"+d, 1), nil), newInput(src+"\n"+d, nil), newInput(src+"\n"+d+"a", nil), newInput(strings.Replace(src, " ", "\n"+d, -1)+"\n"+strings.Replace(d, "10", "1", 1), nil))
		}
	}
	eachTree(c, &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nEOF}, Unary: unaries, Binary: binaries, Three: true}, c.Pick(4, 5), func(n *peg.Node) { pegCase(c, copyRules(doc1(n)), dins, cmpDiag) })
	c.Family("two rules")
	eachRules(c, []*peg.Node{nID, nPlus}, 3, 3, func(r *peg.Rules) { pegCase(c, copyRules(r), lin[:31], cmpDiag) })
	c.Family("pumped grammars and inputs")
	pumpedCases(c, c.Pick(1100, 4100), cmpDiag, copyRules)
	c.Family("the quoted text of a failure far into the source")
	for _, n := range pumpsUpTo(c.Pick(1100, 4100)) {
		r := doc1(peg.B(peg.And, peg.U(peg.Star, peg.B(peg.And, nID.Copy(), nPlus.Copy())), nID.Copy(), nInt.Copy(), nComma.Copy()))
		cut := doc1(peg.B(peg.And, nID.Copy(), peg.U(peg.Star, peg.B(peg.And, nPlus.Copy(), nID.Copy())), nInt.Copy(), nComma.Copy()))
		cut.Defs["doc"].Cut = []bool{false, true, false, false, false}
		var in, in2 []*input
		for _, sep := range []string{" ", "\n", "\n\n", " /*c\n*/ ", "//c\n"} {
			in = append(in, newInput(strings.Repeat("a"+sep+"+"+sep, n)+"a"+sep+"x"+sep+"y", nil))
			in = append(in, newInput(strings.Repeat("a"+sep+"+"+sep, n)+"1"+sep+"2", nil))
			in = append(in, newInput(strings.Repeat("a"+sep+"+"+sep, n)+"a"+sep+"7"+sep+"y", nil))
			in2 = append(in2, newInput("a"+strings.Repeat(sep+"+"+sep+"a", n)+sep+"a"+sep+"x", nil))
			in2 = append(in2, newInput("a"+strings.Repeat(sep+"+"+sep+"a", n)+sep+"1"+sep+"x", nil))
			in2 = append(in2, newInput("a"+strings.Repeat(sep+"+"+sep+"a", n)+sep, nil))
			in2 = append(in2, newInput("\n\n\nx"+strings.Repeat(sep+"+"+sep+"a", n)+sep+"1", nil))
		}
		pegCase(c, r, in, cmpDiag)
		pegCase(c, cut, in2, cmpDiag)
	}
	c.Family("inputs with inserted semicolons and comments as tokens")
	modeCases(c, c.Pick(3, 4), cmpDiag, copyRules)
	c.Family("rules that are never assigned")
	unassignedCases(c, c.Pick(4, 5), cmpDiag)
	c.Family("failures at the end of a text that goes on behind the last token")
	var eins []*input
	for _, src := range []string{"a", "a +", "a a", "a + a", "+ 1", "a\n+", "a\n\n+\na", "// c\na +"} {
		for _, tail := range []string{"", "\n", "\n\n", "\n ", " \n", "\n\n\n", " // c", " // c\n", "\n// c", "\n// c\n", "\n/* c\n */", "\n/* c\n */\n", " # c\n", "\r\n", "\r\n\r\n"} {
			eins = append(eins, newInput(src+tail, nil))
		}
	}
	eachTree(c, &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nEOF}, Unary: unaries, Binary: binaries, Three: true}, c.Pick(4, 5), func(n *peg.Node) { pegCase(c, copyRules(doc1(n)), eins, cmpDiag) })
	eachTree(c, &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: []peg.Op{peg.And, peg.Or}, Three: true}, 4, func(n *peg.Node) {
		for _, m := range withCuts(n) {
			pegCase(c, copyRules(doc1(m)), eins, cmpDiag)
		}
	})
}
