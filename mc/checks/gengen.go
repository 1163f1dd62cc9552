package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/peg"
	"verif/mc/static"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/generator"
)

func init() {
	core.Register(&core.Check{
		ID:          "C27",
		Rule:        "a case is one grammar text, generated by the generator; compiled ones are run on every input and compared (result, tokens consumed, trace of marks) with the PEG reference of the text, which is the one C12 uses for the dynamic compiler; texts that are only generated must give Go code that parses, or be refused if they aren't well-formed; non-trivial: the text is well-formed",
		Assumptions: []string{"left recursion and a lone '!' are outside the domain"},
		Run:         runC27,
	})
}

// staticText is one grammar whose generated code is compiled and run.
type staticText struct {
	text string
	ins  []string
}

func staticTexts(tier string) (out []staticText) {
	c := &core.C{Tier: tier}
	c.Family("texts")
	seen := map[string]bool{}
	add := func(text string, ins []string) {
		if seen[text] {
			return
		}
		seen[text] = true
		r, lone, bad := peg.Parse(text)
		if bad != nil || lone || r.LeftRecursive() {
			return
		}
		out = append(out, staticText{text, ins})
	}
	rules := func(r *peg.Rules, ins []string) {
		r = copyRules(r)
		add(r.Text(), ins)
		add(markRules(r, false).Text(), ins)
	}
	in3 := spaced([]string{"a", "+", "if"}, 4)
	a := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, peg.K("if"), nTrue, nEOF}, Unary: unaries, Binary: binaries}
	eachTree(c, a, c.Pick(3, 3), func(n *peg.Node) { rules(doc1(n), in3) })
	b := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: unaries, Binary: binaries, Three: true}
	for _, n := range b.Enum(4) {
		add(markRules(doc1(n), false).Text(), spaced([]string{"a", "+"}, 5))
	}
	if c.Thorough() {
		for _, n := range (&peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: []peg.Op{peg.Star, peg.Opt, peg.Not}, Binary: binaries}).Enum(5) {
			add(markRules(doc1(n), false).Text(), spaced([]string{"a", "+"}, 5))
		}
	}
	cuts := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus}, Unary: []peg.Op{peg.Star}, Binary: []peg.Op{peg.And, peg.Or}, Three: true}
	eachTree(c, cuts, c.Pick(4, 5), func(n *peg.Node) {
		for _, m := range withCuts(n) {
			add(markRules(doc1(m), false).Text(), spaced([]string{"a", "+"}, 4))
		}
	})
	two := 0
	eachRules(c, []*peg.Node{nID, nPlus}, 3, c.Pick(2, 2), func(r *peg.Rules) {
		// in the quick tier every grammar in one of the two orders, alternately
		if two++; c.Thorough() || two%4 == 0 || two%4 == 3 {
			add(markRules(copyRules(r), false).Text(), spaced([]string{"a", "+"}, 4))
		}
	})
	// bodies of rules that are used before they are defined
	eachTree(c, &peg.Alphabet{Leaves: []*peg.Node{nPlus, nTrue, nEOF}, Unary: []peg.Op{peg.Star}, Binary: []peg.Op{peg.And, peg.Or, peg.List0}}, 3, func(n *peg.Node) {
		r := &peg.Rules{Defs: map[string]*peg.Node{"doc": peg.B(peg.And, peg.R("x"), nPlus.Copy()), "x": n.Copy()}, Names: []string{"doc", "x"}}
		add(markRules(r, false).Text(), spaced([]string{"a", "+"}, 3))
	})
	rec := &peg.Alphabet{Leaves: []*peg.Node{nID, nPlus, peg.R("doc")}, Unary: []peg.Op{peg.Star, peg.Opt, peg.Peek}, Binary: []peg.Op{peg.And, peg.Or, peg.List}}
	eachTree(c, rec, c.Pick(4, 5), func(n *peg.Node) {
		if r := doc1(n); !r.LeftRecursive() {
			uses := false
			n.Walk(func(k *peg.Node) { uses = uses || k.Op == peg.Ref })
			if uses {
				add(markRules(r, false).Text(), spaced([]string{"a", "+"}, 4))
			}
		}
	})
	// forms of text
	atoms := []string{"IDENT/m", "'+'", "*", "?", "%", "|", "(", ")", "!", "/n"}
	eachIdx(c, len(atoms), 1, c.Pick(4, 5), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, atoms[i])
		}
		add("doc = "+strings.Join(w, " ")+";", spaced([]string{"a", "+"}, 4))
	})
	// every token by name and by text
	for _, k := range tokenTexts() {
		add("doc = IDENT/a "+k.text+"/t IDENT/b", []string{"a " + k.src + " b", k.src, "a b", "a + b", "a " + k.src, "a 1 b", "a " + k.src + " " + k.src + " b"})
	}
	// every operator inside every combinator
	for _, op := range []string{"%", "%=", "*", "+", "?", "~", "@", "!", "|", "/", "=", "(", ")", "'", "\\", "\"", ";", "$", "`"} {
		q := "'" + op + "'"
		if op == "'" || op == "\\" || op == "\"" || op == "`" {
			continue // no token
		}
		if len(op) > 1 {
			q = strconv.Quote(op)
		}
		for _, f := range []string{"*(IDENT X)", "+(IDENT X)/m", "?(IDENT X)/m", "*X/m", "+X/m", "?X/m", "IDENT % X", "X % IDENT", "IDENT %= X", "X %= IDENT/m", "~X IDENT/m | X X/n", "@X X/m", "@(IDENT X) IDENT/m X", "IDENT ! X/m | IDENT", "X ! IDENT/m", "X | IDENT/m", "(X IDENT)/m X", "*(X % X)/m", "?(X | IDENT/n X)/m", "+(~X IDENT | X)/m", "doc2; doc2 = *X/m IDENT"} {
			add("doc = "+strings.Replace(f, "X", q, -1)+";", spaced([]string{"a", op}, 4))
		}
	}
	// the number of items of what is marked
	for _, g := range []string{"INT", "*INT", "+INT", "?INT", "?*INT", "?+INT", "*?INT", "+?INT", "??INT", "INT % ','", "INT %= ','", "?(INT % ',')", "?(INT %= ',')", "*(INT ',')", "INT ','", "INT | ','", "INT ',' | INT", "INT 1", "INT 1 1", "1 INT", "1 1", "1", "1 1 1", "(INT 1) 1", "INT (1 1)", "~INT", "@INT", "@(INT ',')", "x", "x x", "*x", "x 1", "+x % ','"} {
		add("doc = ("+g+")/m *','/n; x = INT ?','", spaced([]string{"1", ","}, 4))
		add("doc = ("+g+")/m ("+g+")/n IDENT/k | *INT/a *','/b; x = INT ?','", spaced([]string{"1", ",", "a"}, 4))
	}
	for _, t := range []string{
		"doc = true IDENT/m", "doc = x; x = true", "doc = IDENT 1 EOF", "doc = true; true2 = IDENT",
		"doc = y x; x = IDENT/a; y = +'+'/b", "x = IDENT/a; y = +'+'/b; doc = y x", "y = x x; x = IDENT/a; doc = x y",
		"doc = \"if\"/a \"else\"/b | `if`/c", "doc = `if`/a | \"if\"", "x = \"a\"/k; doc = +(x | IDENT/i)",
		"doc = a | b | c; a = \"if\"/m; b = \"else\"/m; c = \"for\"/m", "doc = +(a | b | c); c = 'x'",
		"doc = term *(('+' term)/add | ('-' term)/sub); term = factor *(('*' factor)/mul | ('/' factor)/div); factor = INT/push | ('-' factor)/neg | '(' doc ')' | (IDENT '(' doc % ','/arity ')')/call",
		"term = factor *('*' factor/mul | '/' factor/div); doc = term *('+' term/add | '-' term/sub); factor = FLOAT/push | '-' factor/neg | '(' doc ')' | (IDENT '(' doc %= ','/arity ')')/call | '+' factor",
		"doc = (IDENT/key ':' val/v) %= ','; val = INT/i | STRING/s | '[' val %= ',' ']' | '{' doc '}'",
		"doc = (\"let\" ! IDENT/v '=' e ';'/semi | e ';') %= \"then\"; e = INT/i % '+'",
		"doc = *(s ';'); s = \"if\"/i e s ?(\"else\"/e s) | IDENT/v '=' e | '{' *(s ';') '}'; e = INT/n | IDENT/v",
	} {
		add(t+";", []string{"", "a", "if", "else", "if else", "a +", "+ a", "+ + a", "x y", "a x if", "1+2*3", "(1+2)*f(a)", "f(1,2,-(3))*4", "f()", "1.5+max(2.5, 3.5)*.5", "-1", "1 +", "a:1,b:2", "a:[1,2,[\"x\"]],b:{c:3}", "a:", "let x = 1 ; then 2 + 3 ;", "let 1", "1;", "if 1 a = 2 ; ;", "a = 1; if a { b = 2; } else c = 3;", "a a", "for", "a\nb\n", "x = 1\ny = 2\n"})
	}
	// equal parts
	eachIdx(c, 3, 1, c.Pick(3, 4), func(ix []int) {
		var k []string
		for _, i := range ix {
			k = append(k, []string{"IDENT", "'+'", "IDENT/n"}[i])
		}
		ins := spaced([]string{"a", "+"}, 3)
		add("doc = ("+strings.Join(k, " | ")+")/m;", ins)
		add("doc = *("+strings.Join(k, " ")+")/m;", ins)
		add("doc = +("+strings.Join(k, " | ")+")/m ?("+strings.Join(k, " | ")+")/k;", ins)
		if len(k) == 2 {
			add("doc = ("+strings.Join(k, " % ")+")/m;", ins)
			add("doc = ("+strings.Join(k, " %= ")+")/m;", ins)
		}
	})
	// marks with all kinds of names
	for _, m := range append(goNames(), "A", "Aa", "LEN", "aB", "a1", "A1", "a_b", "IDENT", "EOF", "__m__", "doc", "x", "true", "Tä", "Ä", "世界", strings.Repeat("long", 100)) {
		add("doc = IDENT/"+m+" ?('+'/"+m+" doc)/A;", spaced([]string{"a", "+"}, 3))
		add("doc = (x | IDENT '+')/"+m+"; x = '+'/a/"+m+";", spaced([]string{"a", "+"}, 3))
	}
	// rules with names that mean something in Go, in the generated code, or in the notation
	for _, n := range goNames() {
		ins := spaced([]string{"a", "+"}, 3)
		add("doc = "+n+"/m ?"+n+"; "+n+" = '+'/p | IDENT", ins)
		add(n+" = '+'/p | IDENT; doc = "+n+"/m ?"+n+";", ins)
		add("doc = "+n+" "+n+"_/m | "+n+"__/k; "+n+" = IDENT/i "+n+"_; "+n+"_ = '+'/p; "+n+"__ = IDENT;", ins)
		add("doc = IDENT/i ?"+n+"; "+n+" = '+'/p ?"+n+" | doc/d;", ins)
	}
	for _, n := range []int{2, 3, 9, 33, 100} {
		ids := strings.Repeat("IDENT/m ", n)
		add("doc = "+ids+";", []string{strings.Repeat("a ", n), strings.Repeat("a ", n-1), strings.Repeat("a ", n+1)})
		chain := ""
		for i := 0; i < n; i++ {
			chain += fmt.Sprintf("r%d = '+'/p%d | r%d\n", i, i, i+1)
		}
		add("doc = +r0\n"+chain+fmt.Sprintf("r%d = IDENT/last \"w%d\"\n", n, n), []string{"+ + +", "a", "a w2 +", fmt.Sprintf("+ a w%d +", n)})
		add("doc = "+strings.Repeat("(", n)+"IDENT/m"+strings.Repeat(")", n)+";", []string{"a", "", "+"})
		add("doc = "+strings.Repeat("?(IDENT/m ", n)+strings.Repeat(")", n)+";", []string{"a", "", strings.Repeat("a ", n), strings.Repeat("a ", n+1)})
		var alts, ins []string
		for i := 0; i < n; i++ {
			alts = append(alts, fmt.Sprintf(`"kw%d"/k%d`, i, i))
			ins = append(ins, fmt.Sprintf("kw%d", i), fmt.Sprintf("kw%dx kw%d", i, n-1-i))
		}
		add("doc = +("+strings.Join(alts, " | ")+");", ins)
	}
	return
}

// goNames are names that mean something in Go or in the generated code.
func goNames() (out []string) {
	for t := token.BREAK; t <= token.VAR; t++ {
		out = append(out, t.String())
	}
	out = append(out, "tpl", "cmplr", "ret", "new", "nil", "make", "string", "true2", "false", "iota", "len", "append", "init", "main", "error", "panic", "map2", "g", "mark", "s", "m",
		"doc2", "factor", "_", "__", "_x", "tpl_", "ret_", "_ret", "\u00e4", "\u00e4\uff11", "\u4e16")
	for _, n := range types.Universe.Names() {
		if n != "true" {
			out = append(out, n)
		}
	}
	return
}

type tokenText struct{ text, src string }

// tokenTexts lists all ways to write a token in a grammar, with a source for it.
func tokenTexts() (out []tokenText) {
	for _, n := range []string{"IDENT", "INT", "FLOAT", "IMAG", "CHAR", "STRING"} {
		out = append(out, tokenText{n, map[string]string{"IDENT": "x", "INT": "7", "FLOAT": "7.5", "IMAG": "2i", "CHAR": "'c'", "STRING": `"s"`}[n]})
	}
	for name, op := range peg.OpNames {
		out = append(out, tokenText{name, op})
	}
	for _, op := range peg.OpText {
		if len(op) == 1 {
			out = append(out, tokenText{"'" + op + "'", op})
		}
		out = append(out, tokenText{strconv.Quote(op), op}, tokenText{"`" + op + "`", op})
	}
	sortTokenTexts(out)
	return
}

func sortTokenTexts(a []tokenText) {
	for i := range a {
		for j := i; j > 0 && (a[j].text < a[j-1].text); j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// generate runs the generator with a time limit.
func generate(text string) (code string, bad string) {
	type res struct {
		code string
		err  error
		e    interface{}
	}
	ch := make(chan res, 1)
	go func() {
		var r res
		r.e = try(func() { r.code, r.err = generator.GenStaticCode(text) })
		ch <- r
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			return "", fmt.Sprintf("the generator panicked: %v", r.e)
		}
		if r.err != nil {
			return "", fmt.Sprintf("the generator refused it: %v", r.err)
		}
		return r.code, ""
	case <-time.After(20 * time.Second):
		return "", "the generator doesn't terminate"
	}
}

// WriteStatic generates the compilers of all static texts into dir, a copy of
// the mc module. Code that doesn't compile becomes an entry that says so.
func WriteStatic(dir, tier string) error {
	texts := staticTexts(tier)
	fset := token.NewFileSet()
	imp := cachedImporter{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	const pkgs = 8
	bufs := make([]bytes.Buffer, pkgs)
	for i := range bufs {
		fmt.Fprintf(&bufs[i], "package s%d\n\nimport (\n\t\"github.com/qiniu/text/tpl\"\n\t\"verif/mc/static\"\n)\n\nvar _ tpl.Token\n\n", i)
	}
	hung := 0
	for i, t := range texts {
		b := &bufs[i%pkgs]
		bad := "the generator doesn't terminate on other texts"
		code := ""
		if hung < 2 {
			code, bad = generate(t.text)
		}
		if bad == "the generator doesn't terminate" {
			hung++
		}
		var body string
		if bad == "" {
			body, bad = renamed(fset, imp, code, i)
		}
		if bad != "" {
			fmt.Fprintf(b, "func init() { static.Add(&static.Entry{Text: %q, Bad: %q}) }\n\n", t.text, bad)
			continue
		}
		b.WriteString(body)
		fmt.Fprintf(b, `
func init() {
	static.Add(&static.Entry{Text: %q, Make: func(marker func(tpl.Grammar, string) tpl.Grammar, init func(), s tpl.Tokener, mode tpl.ScanMode) func() tpl.CompileRet {
		return (&StaticCompiler_%d{Grammar: "", Marker: marker, Init: init, Scanner: s, ScanMode: mode}).Cl
	}})
}

`, t.text, i)
	}
	main := "package main\n\nimport (\n"
	for i := range bufs {
		d := filepath.Join(dir, "static", fmt.Sprint("s", i))
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, "s.go"), bufs[i].Bytes(), 0644); err != nil {
			return err
		}
		main += fmt.Sprintf("\t_ \"verif/mc/static/s%d\"\n", i)
	}
	return os.WriteFile(filepath.Join(dir, "static_import.go"), []byte(main+")\n"), 0644)
}

// cachedImporter asks for each package once.
type cachedImporter struct {
	types.Importer
	seen map[string]*types.Package
}

func (p cachedImporter) Import(path string) (*types.Package, error) {
	if pkg := p.seen[path]; pkg != nil {
		return pkg, nil
	}
	pkg, err := p.Importer.Import(path)
	if err == nil {
		p.seen[path] = pkg
	}
	return pkg, err
}

// renamed type checks generated code and gives its package-level names a suffix.
func renamed(fset *token.FileSet, imp types.Importer, code string, i int) (body, bad string) {
	src := "package p\nimport \"github.com/qiniu/text/tpl\"\n" + code
	f, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return "", fmt.Sprintf("the generated code doesn't parse: %v\n%s", err, code)
	}
	info := &types.Info{Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	pkg, err := (&types.Config{Importer: imp}).Check("p", fset, []*ast.File{f}, info)
	if err != nil {
		return "", fmt.Sprintf("the generated code doesn't compile: %v\n%s", err, code)
	}
	for _, m := range []map[*ast.Ident]types.Object{info.Defs, info.Uses} {
		for id, o := range m {
			if o != nil && o.Parent() == pkg.Scope() {
				id.Name = fmt.Sprintf("%s_%d", o.Name(), i)
			}
		}
	}
	var decls []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	var b bytes.Buffer
	for _, d := range decls {
		if err := format.Node(&b, fset, d); err != nil {
			return "", err.Error()
		}
		b.WriteString("\n\n")
	}
	return b.String(), ""
}

func runC27(c *core.C) {
	c.Family("generated, compiled and run")
	for _, t := range staticTexts(c.Tier) {
		t := t
		c.Do(func() string { return core.Q(clip(t.text)) }, func() string { return staticCase(c, t) })
	}
	eachGrammarText(c, func(text string, ins []string) { genCase(c, text) })
	c.Family("every word as the name of a rule, a mark and a keyword")
	for _, w := range nameWords() {
		for _, t := range []string{"doc = " + w + ";", "doc = IDENT " + w + " | '+';", w + " = IDENT; doc = " + w + "/m '+' | IDENT/n;", "doc = IDENT/" + w + ";", "doc = `" + w + "`;", "doc = '" + w + "';", w + " = IDENT; doc = " + w + "; " + w + " = INT;", "x = " + w + "; doc = IDENT;"} {
			genCase(c, t)
		}
	}
}

// genCase offers one grammar text to the generator.
func genCase(c *core.C, text string) {
	c.Do(func() string { return core.Q(clip(text)) }, func() string {
		_, lone, bad := peg.Parse(text)
		if lone {
			return ""
		}
		c.AddTrace(1)
		c.AddStates(1)
		c.AddTransitions(len(text))
		var code string
		var err error
		e := try(func() { code, err = generator.GenStaticCode(text) })
		if bad != nil {
			if e == nil && err == nil {
				return "generated, but: " + bad.Msg
			}
			switch e.(type) {
			case nil, string, error:
			default:
				return fmt.Sprintf("panic with %T", e)
			}
			if re, ok := e.(interface{ RuntimeError() }); ok {
				return fmt.Sprintf("run-time panic: %v", re)
			}
			return ""
		}
		c.Nontrivial(1)
		if e != nil || err != nil {
			return fmt.Sprintf("well-formed grammar refused: %v %v", e, err)
		}
		if len(text) < 200 {
			if _, err := parser.ParseFile(token.NewFileSet(), "", "package p\nimport \"github.com/qiniu/text/tpl\"\n"+code, parser.SkipObjectResolution); err != nil {
				return fmt.Sprintf("generated code doesn't parse: %v\n%s", err, code)
			}
		}
		return ""
	})
}

func staticCase(c *core.C, t staticText) string {
	e := static.Table[t.text]
	if e == nil {
		return "harness: the text has no generated code"
	}
	if e.Bad != "" {
		return e.Bad
	}
	c.Nontrivial(1)
	r, _, _ := peg.Parse(t.text)
	kw := r.Keywords()
	inits := 0
	accepted := 0
	var runs []*pegRun
	mk := func(cl func() tpl.CompileRet, p *pegRun) string {
		var ret tpl.CompileRet
		if e := try(func() { ret = cl() }); e != nil {
			return fmt.Sprintf("the generated Cl panicked: %v", e)
		}
		if ret.Matcher == nil || ret.Matcher.Grammar == nil || ret.Scanner == nil {
			return "the generated Cl gave no matcher"
		}
		p.m = ret.Matcher
		runs = append(runs, p)
		return ""
	}
	newRun := func() (*pegRun, func(tpl.Grammar, string) tpl.Grammar) {
		p := &pegRun{r: r, root: r.Defs["doc"]}
		return p, func(g tpl.Grammar, mark string) tpl.Grammar {
			return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
				a, b := p.span(toks)
				p.ev = append(p.ev, peg.Event{What: 'a', Name: mark, From: a, To: b, Len: g.Len()})
			})
		}
	}
	// one with its own scanner, one with a scanner given, and a second Cl of the same compiler
	p1, m1 := newRun()
	if msg := mk(e.Make(m1, func() { inits++ }, nil, 0), p1); msg != "" {
		return msg
	}
	p2, _ := newRun()
	cur := p2
	own := new(tpl.AutoKwScanner)
	cl := e.Make(func(g tpl.Grammar, mark string) tpl.Grammar {
		q := cur
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
			a, b := q.span(toks)
			q.ev = append(q.ev, peg.Event{What: 'a', Name: mark, From: a, To: b, Len: g.Len()})
		})
	}, nil, own, 0)
	if msg := mk(cl, p2); msg != "" {
		return msg
	}
	if p2.m.Scanner != tpl.Tokener(own) {
		return "the given scanner isn't used"
	}
	p3, _ := newRun()
	cur = p3
	if msg := mk(cl, p3); msg != "" {
		return msg
	}
	for k, p := range runs {
		for _, s := range t.ins {
			n := inits
			msg, over := p.compare(c, newInput(s, kw), cmpResult|cmpEvents)
			if msg != "" {
				return fmt.Sprintf("matcher %d: %s", k, msg)
			}
			if k == 0 && inits == n && !over {
				return fmt.Sprintf("input %q: Init wasn't called", s)
			}
			if !over {
				c.AddTrace(1)
				if p.hit {
					accepted++
				}
			}
		}
	}
	// without a marker the marks mean nothing
	p5, _ := newRun()
	if msg := mk(e.Make(nil, nil, nil, 0), p5); msg != "" {
		return "without a marker: " + msg
	}
	for _, s := range t.ins {
		if msg, _ := p5.compare(c, newInput(s, kw), cmpResult); msg != "" {
			return "without a marker: " + msg
		}
	}
	// every rule by name
	p4, m4 := newRun()
	ret := e.Make(m4, nil, nil, 0)()
	p4.m = ret.Matcher
	if len(ret.Grammars) != len(r.Names) {
		return fmt.Sprintf("Grammars has %d rules, the text %d", len(ret.Grammars), len(r.Names))
	}
	ins := t.ins
	if len(ins) > 16 {
		ins = ins[:16]
	}
	for _, name := range r.Names {
		for _, src := range ins {
			in := newInput(src, kw)
			mach := &peg.Machine{R: r, In: in.tks, Max: maxRefSteps}
			want, over := mach.Run(r.Defs[name], 0)
			if over {
				continue
			}
			p4.in, p4.ev, p4.bad = in, nil, ""
			var err error
			if e := try(func() { err = ret.EvalSub(name, src) }); e != nil {
				me, ok := e.(*tpl.MatchError)
				if !ok {
					return fmt.Sprintf("EvalSub(%q, %q) panicked: %v", name, src, e)
				}
				err = me
			}
			if (err == nil) != (want.OK && want.N == len(in.tks)) || len(p4.ev) != len(mach.Events) {
				return fmt.Sprintf("EvalSub(%q, %q): %v with %d marks; the reference says ok=%v, %d of %d tokens, %d marks", name, src, err, len(p4.ev), want.OK, want.N, len(in.tks), len(mach.Events))
			}
		}
	}
	// the scan mode reaches the scanner
	for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis, tpl.ScanComments, tpl.ScanComments | tpl.InsertSemis} {
		p, m := newRun()
		if msg := mk(e.Make(m, nil, nil, mode), p); msg != "" {
			return msg
		}
		toks, err := p.m.Tokenize([]byte("a // c\nb\n"), "")
		if err != nil {
			return err.Error()
		}
		n := 2
		if mode&tpl.InsertSemis != 0 {
			n += 2
		}
		if mode&tpl.ScanComments != 0 {
			n++
		}
		if len(toks) != n {
			return fmt.Sprintf("scan mode %d isn't used: %d tokens", mode, len(toks))
		}
	}
	c.Outcome(fmt.Sprint(accepted, len(r.Names)))
	return ""
}
