package checks

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
)

func init() {
	core.Register(&core.Check{
		ID:   "C12",
		Rule: "a case is one grammar text; well-formed ones are compiled and compared with an independent recursive-descent reading of the text: result, tokens consumed and the trace of marks on every input; non-trivial: the text is well-formed",
		Assumptions: []string{"a lone '!' as a whole alternative, left recursion and rules that use the operators on nothing are outside the language",
			"texts that are not well-formed belong to C13"},
		Run: runC12,
	})
	core.Register(&core.Check{
		ID:          "C13",
		Rule:        "a case is one grammar text; texts that are not well-formed must be refused; non-trivial: the text is not well-formed",
		Assumptions: []string{"a refusal is an error or a panic with a message; errors of pure syntax must be returned"},
		Run:         runC13,
	})
	core.Register(&core.Check{
		ID:   "C14",
		Rule: "a case is one grammar tree or text; its Code is compiled again and compared with the reference of the original on every input; non-trivial: the tree has more than one node",
		Run:  runC14,
	})
}

// compileText compiles a grammar text with the real compiler. Marks record events.
func compileText(text string, p *pegRun) (err error, panicked interface{}) {
	return compileWith(&tpl.Compiler{}, text, p)
}

// compileWith compiles a grammar text with a compiler that may have been used before.
func compileWith(cl *tpl.Compiler, text string, p *pegRun) (err error, panicked interface{}) {
	cl.Grammar = []byte(text)
	cl.Marker = func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
			a, b := p.span(toks)
			p.ev = append(p.ev, peg.Event{What: 'a', Name: mark, From: a, To: b, Len: g.Len()})
		})
	}
	var ret tpl.CompileRet
	panicked = try(func() { ret, err = cl.Cl() })
	if panicked == nil && err == nil {
		p.m = ret.Matcher
		p.gs, p.vars = ret.Grammars, ret.Vars
	}
	return
}

// textCase offers one grammar text for C12.
func textCase(c *core.C, text string, srcs []string) {
	c.Do(func() string { return core.Q(clip(text)) }, func() string {
		r, lone, bad := peg.Parse(text)
		if bad != nil || lone {
			return ""
		}
		c.Nontrivial(1)
		p := &pegRun{r: r, root: r.Defs["doc"]}
		if err, e := compileText(text, p); err != nil || e != nil {
			return fmt.Sprintf("well-formed grammar refused: %v %v", err, e)
		}
		if len(p.gs) != len(r.Names) {
			return fmt.Sprintf("%d rules compiled, the text has %d", len(p.gs), len(r.Names))
		}
		for _, n := range r.Names {
			if p.gs[n] == nil {
				return "rule " + n + " is missing"
			}
		}
		for n, v := range p.vars {
			if v.Elem == nil {
				return "variable " + n + " isn't assigned"
			}
		}
		if r.LeftRecursive() {
			return ""
		}
		kw := r.Keywords()
		n := 0
		for _, s := range srcs {
			msg, over := p.compare(c, newInput(s, kw), cmpResult|cmpEvents)
			if msg != "" {
				return msg
			}
			if !over {
				c.AddTrace(1)
				if p.hit {
					n++
				}
			}
		}
		c.Outcome(fmt.Sprint(n, len(r.Names)))
		return ""
	})
}

// badCase offers one grammar text for C13.
func badCase(c *core.C, text string) {
	c.Do(func() string { return core.Q(clip(text)) }, func() string {
		_, lone, bad := peg.Parse(text)
		if bad == nil || lone {
			return ""
		}
		c.Nontrivial(1)
		c.AddTrace(1)
		c.AddStates(1)
		c.AddTransitions(len(text))
		p := &pegRun{}
		err, e := compileText(text, p)
		if err == nil && e == nil {
			return fmt.Sprintf("grammar accepted, but: %s", bad.Msg)
		}
		if e != nil {
			switch e.(type) {
			case string, error:
			default:
				return fmt.Sprintf("panic with %T", e)
			}
			c.Outcome(fmt.Sprint("panic ", e))
			if re, ok := e.(interface{ RuntimeError() }); ok {
				return fmt.Sprintf("run-time panic: %v", re)
			}
		}
		if err != nil {
			var s string
			if e := try(func() { s = err.Error() }); e != nil {
				return fmt.Sprintf("Error() panicked: %v", e)
			}
			if s == "" {
				return "empty error text"
			}
			c.Outcome(fmt.Sprint("error ", len(s)))
		}
		return ""
	})
}

var (
	bodyAtoms = []string{"IDENT", "'+'", "1", "*", "+", "?", "~", "@", "%", "%=", "|", "(", ")", "/m", "!"}
	bodyCore  = []string{"IDENT", "'+'", "*", "+", "?", "%", "|", "(", ")", "/m", "!"}
	fileAtoms = []string{"doc =", "x =", "IDENT", "x", "doc", "'+'", `"if"`, ";", "\n", "|", "*"}
	glueAtoms = []string{"IDENT", "x", "'+'", "1", "*", "+", "?", "~", "@", "%", "=", "|", "(", ")", "/", "m", "!"}
	textIns   = spaced([]string{"a", "+"}, 4)
	fileIns   = spaced([]string{"a", "+", "if"}, 3)
)

func spaced(atoms []string, max int) (out []string) {
	level := []string{""}
	out = append(out, "")
	for i := 0; i < max; i++ {
		var next []string
		for _, p := range level {
			for _, a := range atoms {
				next = append(next, strings.TrimSpace(p+" "+a))
			}
		}
		out = append(out, next...)
		level = next
	}
	return
}

// eachGrammarText enumerates grammar texts, well-formed and not.
func eachGrammarText(c *core.C, f func(text string, ins []string)) {
	body := func(s string) string { return "doc = " + s + ";" }
	c.Family("bodies: all token strings over " + strings.Join(bodyAtoms, " "))
	eachIdx(c, len(bodyAtoms), 0, c.Pick(5, 6), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, bodyAtoms[i])
		}
		f(body(strings.Join(w, " ")), textIns)
	})
	c.Family("longer bodies over " + strings.Join(bodyCore, " "))
	eachIdx(c, len(bodyCore), 6, c.Pick(6, 7), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, bodyCore[i])
		}
		f(body(strings.Join(w, " ")), textIns[:15])
	})
	c.Family("files: all token strings over " + core.Q(strings.Join(fileAtoms, " ")))
	eachIdx(c, len(fileAtoms), 0, c.Pick(6, 7), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, fileAtoms[i])
		}
		f(strings.Join(w, " "), fileIns)
	})
	c.Family("bodies without spaces over " + strings.Join(glueAtoms, " "))
	eachIdx(c, len(glueAtoms), 1, c.Pick(4, 5), func(ix []int) {
		s := ""
		for _, i := range ix {
			s += glueAtoms[i]
		}
		f("x = IDENT;doc="+s+";", textIns[:15])
	})
	c.Family("rules behind one another")
	rules := []string{"doc = x", "doc = x y", "doc = *x", "x = IDENT", "x = '+'", "x = y", "y = IDENT", "y = '+' | x", "x = doc", "true = IDENT", "doc = true", "y = true", "doc = IDENT", "IDENT = '+'", "_z = 1", "doc = _z IDENT", "doc = é", "é = '+'", "EOF = '+'", "doc = IDENT EOF", "doc = x/m y/n", "x = (IDENT/m)", `doc = "doc" | x`, "doc = Foo", "doc = INT 1", "doc = 2", "doc = 'a'", `doc = "+"`, "doc = '++'", `doc = "++"`, "doc = `if`", `doc = ""`, "doc = 1.5"}
	seps := []string{";", "\n", ";\n", " // c\n", " # c\n", " /* c */ ;"}
	eachIdx(c, len(rules), 1, c.Pick(3, 3), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, rules[i])
		}
		f(strings.Join(w, ";")+";", fileIns)
		if len(ix) < 3 {
			for _, s := range seps {
				f(strings.Join(w, s)+s, fileIns)
				f(s+strings.Join(w, s), fileIns)
			}
		}
	})
	c.Family("pumped texts")
	for _, n := range pumpsUpTo(c.Pick(600, 2100)) {
		ids := strings.Repeat("IDENT ", n)
		f(body(ids), []string{strings.Repeat("a ", n), strings.Repeat("a ", n-1), strings.Repeat("a ", n+1)})
		f(body(ids+"!"), []string{strings.Repeat("a ", n), strings.Repeat("a ", n-1), strings.Repeat("a ", n+1)})
		f(body(strings.Repeat("'+' '+' | ", n)+"IDENT/m"), []string{"a", "+ +", "+"})
		f(body(strings.Repeat("INT | ", n)+"IDENT/m"), []string{"a", "1", "+"})
		f(body(strings.Repeat("(", n)+"IDENT"+strings.Repeat(")", n)), []string{"a", "+", "a a"})
		f(body(strings.Repeat("(", n)+"IDENT"+strings.Repeat(")", n-1)), nil)
		f(body(strings.Repeat("(", n)+"IDENT"+strings.Repeat(")", n+1)), nil)
		f(body(strings.Repeat("(", n)+"IDENT '+'"+strings.Repeat(")/m", n)), []string{"a +", "+", "a"})
		f(body("IDENT"+strings.Repeat("/m", n)), []string{"a", "+"})
		f(body("IDENT"+strings.Repeat(" % '+'", n)), []string{"a", "a + a", "a + a + a", "a a"})
		f(body(strings.Repeat("?", n)+"IDENT/m"), []string{"a", "+", ""})
		f(body(strings.Repeat("@", n)+"IDENT IDENT"), []string{"a", "+", ""})
		f(body(strings.Repeat("~", n)+"IDENT"), []string{"a", "+", ""})
		f(body(strings.Repeat("*(IDENT ", n)+strings.Repeat(")", n)), []string{"a", "a a a", ""})
		f(body(strings.Repeat("IDENT/m '+' | ", n)+"INT"), []string{"a +", "a 1", "1"})
		chain := "doc = r0;"
		for i := 0; i < n; i++ {
			chain += fmt.Sprintf("r%d = '+'/p%d | r%d\n", i, i, i+1)
		}
		f(chain+fmt.Sprintf("r%d = IDENT/last\n", n), []string{"a", "+", "1"})
		chain = fmt.Sprintf("r%d = IDENT/last\n", n)
		for i := n - 1; i >= 0; i-- {
			chain += fmt.Sprintf("r%d = '+'/p%d | r%d\n", i, i, i+1)
		}
		f(chain+"doc = +r0", []string{"a", "+", "1"})
		f(chain+"doc = +r0\n", []string{"a", "+ a +", "1"})
		f(strings.Repeat("\n", n)+"doc = IDENT\n", nil)
		f("doc = IDENT"+strings.Repeat("\n", n), []string{"a"})
		f("doc = IDENT"+strings.Repeat(";", n), []string{"a"})
		f("//"+strings.Repeat("c", n)+"\ndoc = "+strings.Repeat("// c\n", n)+"IDENT", []string{"a"})
		f("x"+strings.Repeat("y", n)+" = IDENT/m; doc = x"+strings.Repeat("y", n)+" '+';", []string{"a", "a +"})
		f("x"+strings.Repeat("y", n)+" = IDENT/m; doc = x"+strings.Repeat("y", n-1)+" '+';", []string{"a", "a +"})
		f(body(`"k`+strings.Repeat("w", n)+`"/m | IDENT`), []string{"k" + strings.Repeat("w", n), "k" + strings.Repeat("w", n-1), "k"})
		f(body(`IDENT/m`+strings.Repeat("k", n)), []string{"a"})
	}
}

// nameWords are words somebody might give a meaning: all of one and two
// letters, and the words of languages and tools like this one.
func nameWords() (out []string) {
	for a := 'a'; a <= 'z'; a++ {
		out = append(out, string(a), string(a-32))
		for b := 'a'; b <= 'z'; b++ {
			out = append(out, string(a)+string(b), string(a-32)+string(b), string(a-32)+string(b-32))
		}
	}
	ws := strings.Fields(`break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type continue for import return var
		true false nil null none undefined any some empty eps epsilon fail error start end begin begining eof EOF eol EOL bof BOF eoi nl NL ws WS sp space tab digit letter alpha alnum ident int float imag char string comment
		illegal ident_ Ident Int Float Imag Char String Comment Illegal Eof ID NUM STR number Number NUMBER word Word name Name list List rule Rule rules grammar Grammar expr Expr term Term factor Factor atom Atom
		DOC Doc dOc docs doc_ _doc doc1 _ __ _1 _a a1 a_ x1 é ß Ω Éa 世 世界 ñandu len cap append not and or Not And Or NOT AND OR opt Opt star plus peek Peek repeat mark token Token TOKEN
		main init root Root ROOT S s0 toplevel document file skip ignore left right assoc prec import include include_ extern lexer parser TRUE True FALSE False NIL nil_ ONE one zero
		IDENTX IDEN INT1 INTS _INT xIDENT EOFX ADDX SUBS ILLEGA literal_beg LITERAL_BEG OPERATOR_BEG USER_TOKEN_BEGIN USER`)
	seen := map[string]bool{}
	for _, w := range out {
		seen[w] = true
	}
	add := func(w string) {
		if !seen[w] {
			seen[w] = true
			out = append(out, w)
		}
	}
	for _, w := range ws {
		add(w)
		add(strings.ToLower(w))
		add(strings.ToUpper(w))
	}
	var ops []string
	for n := range peg.OpNames {
		ops = append(ops, n)
	}
	sort.Strings(ops)
	for _, w := range append(ops, "IDENT", "INT", "FLOAT", "IMAG", "CHAR", "STRING", "COMMENT", "ILLEGAL", "EOF") {
		add(w)
		add(strings.ToLower(w))
		add(w[:1] + strings.ToLower(w[1:]))
		add(w + "_")
		add("_" + w)
		add(w + "S")
	}
	for l := 'A'; l <= 'Z'; l++ {
		for _, n := range []string{string(l), string(l) + "x", string(l) + "YZ", string(l + 32), string(l+32) + "Yz", "_" + string(l)} {
			add(n)
		}
	}
	return
}

// usedScanners compiles several texts, some of them malformed, with one compiler, or
// with several compilers that share a scanner: each is what it is alone, but for the
// words that are keywords of any of them.
func usedScanners(c *core.C) {
	c.Family("texts compiled one after another on one scanner")
	texts := []string{
		"doc = IDENT/m IDENT;",
		"doc = IDENT/if | '+'/else;",
		"doc = \"if\"/m IDENT | IDENT/n;",
		"doc = \"doc\"/doc IDENT;",
		"if = IDENT/m; doc = if *('+'/x if);",
		"doc = if/m | '+'; if = IDENT;",
		"doc = \"x\" x; x = *IDENT/if;",
		"doc = +(x | if); x = \"if\"/m; if = \"x\"/if;",
		"doc = m % '+'/doc; m = \"m\" | IDENT/m;",
		"doc = \"else\" | \"m\"/else;",
		"doc = +;", "doc = IDENT", "x = IDENT/if;", "doc = nope;", "doc = 'a;",
	}
	words := []string{"if", "x", "doc", "m", "a", "+"}
	ins := spaced(words, 2)
	eachIdx(c, len(texts), 1, c.Pick(2, 3), func(ix []int) {
		ix = cp(ix)
		for _, one := range []bool{false, true} {
			one := one
			c.Do(func() string {
				var w []string
				for _, i := range ix {
					w = append(w, texts[i])
				}
				return fmt.Sprintf("%q, one compiler: %v", w, one)
			}, func() string {
				c.Nontrivial(1)
				sc := new(tpl.AutoKwScanner)
				cl := &tpl.Compiler{Scanner: sc}
				kw := map[string]bool{}
				var runs []*pegRun
				for k, i := range ix {
					if !one {
						cl = &tpl.Compiler{Scanner: sc}
					}
					r, _, bad := peg.Parse(texts[i])
					p := &pegRun{r: r}
					err, e := compileWith(cl, texts[i], p)
					if (err == nil && e == nil) != (bad == nil) {
						return fmt.Sprintf("text %d: compiled with %v %v, want success: %v", k, err, e, bad == nil)
					}
					if bad == nil {
						p.root = r.Defs["doc"]
						runs = append(runs, p)
						for w := range r.Keywords() {
							kw[w] = true
						}
					}
					for round, p := range runs {
						for _, s := range ins {
							msg, _ := p.compare(c, newInput(s, kw), cmpResult|cmpEvents)
							if msg != "" {
								return fmt.Sprintf("after text %d, matcher %d: %s", k, round, msg)
							}
							c.AddTrace(1)
						}
					}
				}
				return ""
			})
		}
	})
}

func runC12(c *core.C) {
	eachGrammarText(c, func(text string, ins []string) { textCase(c, text, ins) })
	c.Family("every word as the name of a rule and as a keyword")
	for _, w := range nameWords() {
		in := []string{w, "a", "+", w + " +", "a +", w + " " + w, "1", ""}
		textCase(c, "doc = "+w+"/m '+' | IDENT/n; "+w+" = IDENT;", in)
		textCase(c, w+" = IDENT/k; doc = "+w+"/m '+' | IDENT/n;", in)
		textCase(c, w+" = INT/k; doc = *("+w+"/m '+') "+w+";", []string{"1", "1 + 1", "1 + 1 +", "a", "a + a"})
		textCase(c, `doc = "`+w+`"/m ?'+' | IDENT/n;`, in)
		textCase(c, "doc = *(IDENT/"+w+") '+'/"+w+"_1;", in)
		textCase(c, "doc = IDENT "+w+";", in)
	}
	usedScanners(c)
	c.Family("all trees with a mark on every node, written as text")
	lin := spaced([]string{"a", "+"}, 4)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nTrue, nEOF}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, a, c.Pick(4, 5), func(n *peg.Node) {
		textCase(c, markRules(doc1(n), false).Text(), lin)
		textCase(c, doc1(peg.M(n, "m")).Text(), lin)
		for _, m := range withCuts(n) {
			textCase(c, markRules(doc1(m), false).Text(), lin[:15])
		}
	})
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries, Three: true}
	eachTree(c, b, 5, func(n *peg.Node) {
		textCase(c, doc1(peg.M(n, "m")).Text(), lin[:15])
		textCase(c, markRules(doc1(n), false).Text(), lin[:15])
	})
	c.Family("three to five alternatives, items and operators in a row")
	items := []string{"IDENT", "'+'", "INT", "1", "x", "(IDENT '+')", "(IDENT | INT)"}
	for _, join := range []string{" | ", " ", " ! "} {
		eachIdx(c, len(items), 3, c.Pick(4, 5), func(ix []int) {
			var w []string
			for _, i := range ix {
				w = append(w, items[i])
			}
			s := strings.Join(w, join)
			textCase(c, "x = '+' '+'; doc = ("+s+")/m;", textIns[:31])
			textCase(c, "x = '+' '+'; doc = "+strings.Join(w, "/k"+join)+"/k;", textIns[:31])
		})
	}
}

func runC13(c *core.C) {
	eachGrammarText(c, func(text string, ins []string) { badCase(c, text) })
	c.Family("every word as the name of a rule that is not there")
	for _, w := range nameWords() {
		badCase(c, "doc = "+w+";")
		badCase(c, "doc = IDENT "+w+" | '+';")
		badCase(c, "x = "+w+"; doc = IDENT;")
		badCase(c, w+" = IDENT; doc = "+w+"x;")
		badCase(c, w+" = IDENT; doc = "+w+"; "+w+" = INT;")
		badCase(c, w+" = IDENT;")
		badCase(c, "doc = IDENT/"+w+"/;")
		badCase(c, "doc = `"+w+"`;")
		badCase(c, "doc = '"+w+"';")
	}
	c.Family("every number of up to 4 characters as a factor")
	eachString(c, []string{"0", "1", "2", "x", "b", "_", ".", "e", "i", "+", "-"}, 1, 4, func(s string) {
		badCase(c, "doc = "+s)
		badCase(c, "doc = IDENT "+s+" | '+';")
	})
	c.Family("a good grammar with one token inserted, removed or replaced")
	good := strings.Fields(`doc = + ( term / a % ',' ! '+' ) ; term = IDENT | * INT / b ? ( doc ) | @ EOF ~ 1 ;`)
	junk := []string{"=", ";", "|", "!", "/", "%", "%=", "(", ")", "*", "++", "doc", "zz", "Zz", "1", "2", "1.5", "'a'", "'+", "\"", "`", "/*", "#", "$", "\x00", "\xff", "==", "{", "\n", "\n\n", "1i", "doc ="}
	for i := 0; i <= len(good); i++ {
		for k := 0; k < 2; k++ {
			for _, j := range append([]string{""}, junk...) {
				if k == 1 && i == len(good) {
					continue
				}
				w := append([]string{}, good[:i]...)
				w = append(w, j)
				w = append(w, good[i+k:]...)
				badCase(c, strings.Join(w, " "))
			}
		}
	}
}

// ---------------------------------------------------------------------------

// codeOf prints the rules of a grammar with the library's Code.
func codeOf(names []string, gs map[string]tpl.Grammar, t tpl.Tokener) string {
	var b strings.Builder
	for _, n := range names {
		b.WriteString(n + " = " + tpl.Code(gs[n], t) + ";\n")
	}
	return b.String()
}

// noMarks removes marks, transactions and '!' from the rules.
func noMarks(r *peg.Rules) *peg.Rules {
	var rec func(n *peg.Node) *peg.Node
	rec = func(n *peg.Node) *peg.Node {
		if n.Op == peg.Mark || n.Op == peg.Trans {
			return rec(n.Kids[0])
		}
		m := *n
		m.Cut = nil
		m.Kids = nil
		for _, k := range n.Kids {
			m.Kids = append(m.Kids, rec(k))
		}
		return &m
	}
	return mapRules(r, rec)
}

func codeCase(c *core.C, r *peg.Rules, ins []string, fromText bool) {
	c.Do(func() string { return clip(r.Text()) }, func() string {
		plain := noMarks(r)
		if plain.LeftRecursive() {
			return ""
		}
		var code string
		orig := &pegRun{r: r, root: r.Defs["doc"]}
		if fromText {
			if err, e := compileText(r.Text(), orig); err != nil || e != nil {
				return fmt.Sprintf("refused: %v %v", err, e)
			}
			code = codeOf(r.Names, orig.gs, orig.m.Scanner)
			if d := tpl.Code(orig.gs["doc"], orig.m.Scanner); d != orig.m.Code() {
				return "Code of the matcher differs from Code of its grammar"
			}
			// marks leave no trace, whatever they are compiled to
			for _, m := range []func(tpl.Grammar, string) tpl.Grammar{nil, func(g tpl.Grammar, mark string) tpl.Grammar { return g }} {
				ret, err := (&tpl.Compiler{Grammar: []byte(r.Text()), Marker: m}).Cl()
				if err != nil {
					return fmt.Sprintf("refused without a marker: %v", err)
				}
				if s := codeOf(r.Names, ret.Grammars, ret.Scanner); s != code {
					return fmt.Sprintf("Code without a marker is %q, with one %q", clip(s), clip(code))
				}
			}
		} else {
			sc := new(tpl.AutoKwScanner)
			orig.made = map[*peg.Node]tpl.Grammar{}
			gs := peg.Build(r, func(w string) uint { return sc.Ltot(`"` + w + `"`) }, orig.hooks())
			code = codeOf(r.Names, gs, sc)
		}
		back := &pegRun{r: plain, root: plain.Defs["doc"]}
		if err, e := compileText(code, back); err != nil || e != nil {
			return fmt.Sprintf("Code %q isn't a grammar: %v %v", clip(code), err, e)
		}
		kw := r.Keywords()
		yes := 0
		for _, s := range ins {
			msg, _ := back.compare(c, newInput(s, kw), cmpResult)
			if msg != "" {
				return fmt.Sprintf("Code is %q: %s", clip(code), msg)
			}
			c.AddTrace(1)
			if back.hit {
				yes++
			}
		}
		if code2 := codeOf(r.Names, back.gs, back.m.Scanner); fromText && code2 != code && core.Join(strings.Fields(code2), " ") != core.Join(strings.Fields(code), " ") {
			return fmt.Sprintf("Code %q compiled and printed again is %q", clip(code), clip(code2))
		}
		if r.Defs["doc"].Size() > 1 {
			c.Nontrivial(1)
		}
		c.Outcome(fmt.Sprint(yes, len(code)))
		return ""
	})
}

func runC14(c *core.C) {
	ins := spaced([]string{"a", "+", "1"}, 3)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, nInt, nTrue, nEOF}, Unary: unaries, Binary: binaries, Three: true}
	c.Family("all trees, built with constructors")
	eachTree(c, a, c.Pick(4, 5), func(n *peg.Node) { codeCase(c, doc1(n), ins, false) })
	c.Family("all trees with actions and transactions")
	eachTree(c, a, 3, func(n *peg.Node) { codeCase(c, markRules(doc1(n), true), ins, false) })
	c.Family("all trees with actions, compiled from text")
	eachTree(c, a, c.Pick(3, 4), func(n *peg.Node) {
		codeCase(c, markRules(doc1(n), false), ins, true)
		for _, m := range withCuts(n) {
			codeCase(c, markRules(doc1(m), false), ins[:15], true)
		}
	})
	c.Family("all trees, compiled from text")
	eachTree(c, a, c.Pick(4, 5), func(n *peg.Node) { codeCase(c, doc1(n), ins, true) })
	c.Family("larger trees over IDENT +")
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries, Three: true}
	lin := spaced([]string{"a", "+"}, 4)
	eachTree(c, b, c.Pick(5, 6), func(n *peg.Node) {
		codeCase(c, doc1(n), lin, false)
		codeCase(c, doc1(n), lin, true)
	})
	c.Family("two rules")
	eachRules(c, []*peg.Node{nID, nPlus}, 3, 3, func(r *peg.Rules) {
		codeCase(c, r, lin[:15], false)
		codeCase(c, r, lin[:15], true)
	})
	c.Family("keywords and operators")
	var leaves []*peg.Node
	var ops []uint
	for k := range peg.OpText {
		ops = append(ops, k)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i] < ops[j] })
	for _, k := range ops {
		leaves = append(leaves, peg.T(k))
	}
	leaves = append(leaves, peg.T(tpl.IDENT), peg.T(tpl.FLOAT), peg.T(tpl.IMAG), peg.T(tpl.CHAR), peg.T(tpl.STRING), peg.K("if"), peg.K("else"), peg.K("x"))
	srcs := []string{"if", "else", "x", "a", "1", "1.5", "2i", "'c'", `"s"`}
	for _, k := range ops {
		srcs = append(srcs, peg.OpText[k])
	}
	for _, l := range leaves {
		codeCase(c, doc1(l), srcs, false)
		codeCase(c, doc1(l), srcs, true)
		for _, l2 := range leaves {
			codeCase(c, doc1(peg.B(peg.And, l, peg.U(peg.Plus, l2))), srcs[:12], false)
			codeCase(c, doc1(peg.B(peg.List, l, l2)), srcs[:12], true)
		}
	}
	c.Family("pumped grammars")
	pumpedRules(c.Pick(300, 1100), func(r *peg.Rules, ins []string) {
		codeCase(c, r, ins, false)
		codeCase(c, r, ins, true)
	})
}
