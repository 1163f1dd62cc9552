G = "tpl/grammar.go"
TOK = '''
func toks(src string) (*tpl.Matcher, []tpl.Token) {
	m := new(tpl.Matcher)
	t, err := m.Tokenize([]byte(src), "")
	must(err == nil, err)
	return m, t
}
'''
seed("list0-partial", "C07", G,
     [("""		if p.list0 {
			return 0, nil
		}""", """		if p.list0 {
			return n, nil
		}""")],
     "an empty %= list consumes the tokens that its first item matched before failing",
     "a %= list whose item is a sequence that fails after its first part", TOK + '''
func main() {
	m, t := toks("a c")
	g := tpl.List0(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('+')), tpl.Gr(','))
	n, err := g.Match(t, m)
	must(n == 0 && err == nil, n, err)
}''')
seed("rep-progress", "C07", G,
     [("""	r2 := grRepeat0{p.g, 0}
	n2, _ := r2.Match(src[n:], ctx)
""", """	r2 := grRepeat0{p.g, 0}
	n2, err2 := r2.Match(src[n:], ctx)
	if err2 == nil && r2.len == 1 && n2 == n+1 { // same item, longer match: keep the first one only
		n2, r2.len = 0, 0
	}
""")],
     "+G stops after one item when exactly one further item follows that is one token longer",
     "+G where the second and last item has one token more than the first", TOK + '''
func main() {
	m, t := toks("a a +")
	g := tpl.Repeat1(tpl.And(tpl.Gr(tpl.IDENT), tpl.Repeat01(tpl.Gr('+'))))
	n, err := g.Match(t, m)
	must(n == 3 && err == nil, n, err)
}''')
seed("len-recursive", "C08", G,
     [("""	g := p.g
	len := 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			p.len = len
			return
		}
		len++
""", """	g := p.g
	p.len = 0
	for {
		n1, err1 := g.Match(src, ctx)
		if err1 != nil {
			return
		}
		p.len++
		len := p.len
""")],
     "the item count of *G is wrong after a nested match of the same *G",
     "a recursive rule whose repetition contains itself", TOK + '''
func main() {
	m, t := toks("( a a a ) a")
	var lens []int
	v := tpl.Var("v")
	item := tpl.Or(tpl.Gr(tpl.IDENT), tpl.And(tpl.Gr('('), v, tpl.Gr(')')))
	v.Assign(tpl.Action(tpl.Repeat0(item), func(_ []tpl.Token, g tpl.Grammar) { lens = append(lens, g.Len()) }))
	_, err := v.Match(t, m)
	must(err == nil && len(lens) == 2 && lens[0] == 3 && lens[1] == 2, lens, err)
}''')
seed("len-opt-stale", "C08", G,
     [("""	n, err = p.g.Match(src, ctx)
	if err != nil {
		p.len = 0
		return 0, nil
	}
	p.len = 1
	return""", """	n, err = p.g.Match(src, ctx)
	if err != nil {
		return 0, nil
	}
	p.len = 1
	return""")],
     "the item count of ?G stays 1 when a later match finds nothing",
     "?G matched first with and then without its item", TOK + '''
func main() {
	m, t := toks("a + a")
	var lens []int
	g := tpl.Repeat1(tpl.And(tpl.Gr(tpl.IDENT), tpl.Action(tpl.Repeat01(tpl.Gr('+')), func(_ []tpl.Token, g tpl.Grammar) { lens = append(lens, g.Len()) })))
	_, err := g.Match(t, m)
	must(err == nil && len(lens) == 2 && lens[0] == 1 && lens[1] == 0, lens, err)
}''')
seed("action-on-prefix", "C08", G,
     [("""	p.act(src[:n], g)
	return""", """	doc := src[:n]
	if n > 0 && doc[n-1].Kind == SEMICOLON && doc[n-1].Literal == "\\n" {
		doc = doc[:n-1]
	}
	p.act(doc, g)
	return""")],
     "an action isn't given the inserted semicolon that its expression consumed",
     "semicolon insertion on and an expression that ends with an inserted semicolon", TOK + '''
func main() {
	m := &tpl.Matcher{ScanMode: tpl.InsertSemis}
	t, _ := m.Tokenize([]byte("a\\n"), "")
	n := 0
	g := tpl.Action(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr(';')), func(t []tpl.Token, g tpl.Grammar) { n = len(t) })
	g.Match(t, m)
	must(n == 2, n)
}''')
seed("trans-defer", "C09", G,
     [("""	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(trans, err)
	return""", """	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	if n == 0 && err != nil && len(src) == 0 {
		return // nothing was there to match
	}
	p.end(trans, err)
	return""")],
     "the end of a transaction isn't called when its expression fails at the end of the input",
     "a transaction tried with no tokens left, whose expression fails", TOK + '''
func main() {
	m, t := toks("")
	b, e := 0, 0
	g := tpl.Transaction(tpl.Gr(tpl.IDENT), func() interface{} { b++; return b }, func(interface{}, error) { e++ })
	tpl.Repeat01(g).Match(t, m)
	must(b == 1 && e == 1, b, e)
}''')
seed("trans-reuse", "C09", G,
     [("""type grTrans struct {
	g     Grammar
""", """type grTrans struct {
	g     Grammar
	trans interface{}
"""), ("""	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(trans, err)
	return""", """	p.trans = p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(p.trans, err)
	return"""), ("	return &grTrans{g, begin, end}", "	return &grTrans{g: g, begin: begin, end: end}")],
     "the end of an outer transaction is given the value of a nested one of the same rule",
     "a transaction that matches itself recursively", TOK + '''
func main() {
	m, t := toks("((a))")
	v := tpl.Var("v")
	k := 0
	var ends []int
	v.Assign(tpl.Transaction(tpl.Or(tpl.And(tpl.Gr('('), v, tpl.Gr(')')), tpl.Gr(tpl.IDENT)),
		func() interface{} { k++; return k }, func(x interface{}, _ error) { ends = append(ends, x.(int)) }))
	_, err := v.Match(t, m)
	must(err == nil && len(ends) == 3 && ends[0] == 3 && ends[1] == 2 && ends[2] == 1, ends)
}''')
seed("cut-empty-prefix", "C10", G,
     [("			if failFast {\n", "			if failFast && n > 0 {\n")],
     "a commit mark has no effect when the part before it matched nothing",
     "a committed sequence whose prefix matches the empty sequence", TOK + '''
func main() {
	m, t := toks("a")
	g := tpl.Or(tpl.And(tpl.Repeat01(tpl.Gr('+')), nil, tpl.Gr('-')), tpl.Gr(tpl.IDENT))
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		g.Match(t, m)
	}()
	must(ok, "the second alternative was tried")
}''')
seed("cut-nested", "C10", G,
     [("""	failFast := false
	for _, g := range p.gs {
		if g == nil {
			failFast = true
			continue
		}
		n1,""", """	failFast := false
	for i, g := range p.gs {
		if g == nil {
			failFast = i+2 < len(p.gs) || len(p.gs) < 4
			continue
		}
		n1,""")],
     "a commit mark before the last item of a longer sequence is ignored",
     "a sequence of three or more items with the mark before the last one", TOK + '''
func main() {
	m, t := toks("a a b")
	id := tpl.Gr(tpl.IDENT)
	g := tpl.Or(tpl.And(id, id, nil, tpl.Gr('-')), id)
	ok := false
	func() {
		defer func() { ok = recover() != nil }()
		g.Match(t, m)
	}()
	must(ok, "the second alternative was tried")
}''')
seed("err-line", "C11", G,
     [("	line = s.File.Line(doc[idxErr].Pos)", "	line = s.File.Line(doc[0].Pos)")],
     "a fail-fast error names the line where the sequence starts instead of the one where it failed",
     "a commit mark and a failure on a later line than the start of the sequence", TOK + '''
func main() {
	m, t := toks("a\\nb\\n+")
	id := tpl.Gr(tpl.IDENT)
	var e interface{}
	func() {
		defer func() { e = recover() }()
		tpl.And(id, nil, id, id).Match(t, m)
	}()
	err, ok := e.(error)
	must(ok && strings.HasPrefix(err.Error(), "line 3:"), err)
}''')
seed("or-tie", "C11", G,
     [("""		if n >= nMax {
			if n == nMax {
				multiErr = true
			} else {
				nMax, errMax, multiErr = n, err, false
			}
		}""", """		if n > nMax || errMax == nil {
			nMax, errMax, multiErr = n, err, n == 0
		}""")],
     "among several alternatives that fail equally far the first is reported as the failure instead of the choice",
     "two alternatives that both fail after the same number of tokens, at least one", TOK + '''
func main() {
	m, t := toks("a b")
	id := tpl.Gr(tpl.IDENT)
	_, err := tpl.Or(tpl.And(id, tpl.Gr('+')), tpl.And(id, tpl.Gr('-'))).Match(t, m)
	must(strings.Contains(err.Error(), "|"), err)
}''')
seed("err-lines-cap", "C11", G,
     [("	text = nextLines(all, 9)\n", "	text = nextLines(all, 8)\n")],
     "the text of an error is cut off after fewer lines than before the failing token",
     "an error whose shown text spans nine or more lines", TOK + '''
func main() {
	src := strings.Repeat("a\\n", 12)
	m, t := toks(src)
	_, err := tpl.Gr('+').Match(t, m)
	must(strings.Count(err.Error(), "a\\n") == 9, err)
}''')
C = "tpl/compiler.go"
CL = '''
func cl(text string) (ret tpl.CompileRet, err error) {
	c := &tpl.Compiler{Grammar: []byte(text)}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return c.Cl()
}
'''
seed("cl-true-rule", "C12", C,
     [("""				if name == "true" {
					g = GrTrue
				} else {
					v := Var(name)
					vars[name] = v
					g = v
				}""", """				if name == "true" {
					g = GrTrue
				} else {
					v := Var(name)
					vars[name] = v
					if len(grammars) > 0 && len(stk) == 1 {
						g = Named(name, v)
						break
					}
					g = v
				}"""), ("		} else {\n			if g2, ok := grammars[name]; ok {", "		} else {\n			switch g2, ok := grammars[name]; {\n			case ok:"),
      ("""				g = Named(name, g2)
			} else if g, ok = vars[name]; !ok {""", """				g = Named(name, g2)
			default:
				if g, ok = vars[name]; ok {
					break
				}""")],
     "x", "x", "must(false)", skip=True)
seed("cl-keyword-late", "C12", C,
     [("""	gr := func(tokens []Token, g Grammar) {
		name := tokens[0].Literal
		tok := scanner.Ltot(name)""", """	lits := make(map[string]uint)
	gr := func(tokens []Token, g Grammar) {
		name := tokens[0].Literal
		tok, ok := lits[name[1:]]
		if !ok {
			tok = scanner.Ltot(name)
			lits[name[1:]] = tok
		}""")],
     "none", "x", "must(false)", skip=True)
seed("cl-list-chain", "C12", C,
     [("""		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = List0(a, b)
		stk = stk[:n-1]""", """		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		if l, ok := a.(*grList); ok && !l.list0 { // a % b %= c
			a = l.a
			b = And(l.b, b)
		}
		stk[n-2] = List0(a, b)
		stk = stk[:n-1]""")],
     "a %= list whose item is itself a % list is compiled as one list with a two-part separator",
     "chained list operators, % followed by %=", CL + '''
func main() {
	r, err := cl("doc = IDENT % ',' %= ';'\\n")
	must(err == nil, err)
	must(r.Eval("a,b;c,d") == nil, "not accepted")
}''')
seed("cl-redefine", "C13", C,
     [("""		} else if _, ok := grammars[name]; ok {
			panic("grammar already exists: " + name)
		} else {""", """		} else if old, ok := grammars[name]; ok && name != "doc" {
			panic("grammar already exists: " + name)
		} else if ok {
			grammars[name] = Or(old, a)
		} else {""")],
     "a second definition of doc is accepted", "a grammar text with two rules named doc, not referring to it", CL + '''
func main() {
	_, err := cl("doc = IDENT\\ndoc = INT\\n")
	must(err != nil, "accepted")
}''')
seed("cl-unassigned-unused", "C13", C,
     [("""			if v.Elem == nil {
				err =""", """			if v.Elem == nil && len(grammars) > 1 {
				err =""")],
     "a reference to an undefined rule is accepted when the text has one rule only", "a text with one rule that refers to an undefined one", CL + '''
func main() {
	_, err := cl("doc = IDENT | x\\n")
	must(err != nil, "accepted")
}''')
seed("code-peek-prec", "C14", G,
     [("	lvlPeek = lvlRepeat\n", "	lvlPeek = lvlList\n")],
     "a lookahead over a list is printed without parentheses", "@ applied to a list", CL + '''
func main() {
	id := tpl.Gr(tpl.IDENT)
	g := tpl.Peek(tpl.List(id, id))
	text := "doc = " + tpl.Code(g, new(tpl.Scanner)) + "\\n"
	r, err := cl(text)
	must(err == nil, err)
	n, err := r.Match([]byte("a b"), "")
	must(err == nil && len(n) == 2, text, err)
}''')
seed("code-or-in-and", "C14", G,
     [("	for i, g := range p.gs {\n		if i > 0 {\n			b = append(b, ' ', '|', ' ')\n		}\n		b = g.Marshal(b, t, lvlOr)",
       "	for i, g := range p.gs {\n		if i > 0 {\n			b = append(b, ' ', '|', ' ')\n		}\n		if a, ok := g.(*grAction); ok {\n			g = a.g\n		}\n		if v, ok := g.(*GrNamed); ok && i > 0 {\n			g = v.g\n		}\n		b = g.Marshal(b, t, lvlBase)")],
     "none", "x", "must(false)", skip=True)
M = "tpl/match.go"
seed("tok-eof-error", "C15", M,
     [("""		if errTok != nil {
			return tokens, errTok
		}
		tokens = append(tokens, token)
		if token.Kind == EOF { // 尽管 tokens 里面不包含 EOF，但我们希望有 EOF 过尾值（为了 Source 函数）
			tokens = tokens[:len(tokens)-1]
			break
		}""", """		tokens = append(tokens, token)
		if token.Kind == EOF { // 尽管 tokens 里面不包含 EOF，但我们希望有 EOF 过尾值（为了 Source 函数）
			tokens = tokens[:len(tokens)-1]
			break
		}
		if errTok != nil {
			return tokens[:len(tokens)-1], errTok
		}""")],
     "a lexical error behind the last token is lost", "an unterminated comment at the end of the source", '''
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.IDENT)}
	must(m.Eval("a /* b") != nil, "accepted")''')
seed("evalsub-scanmode", "C15", C,
     [("		ScanMode: p.ScanMode,\n		Init:     p.Init,\n	}\n	if p.run", "		Init:     p.Init,\n	}\n	if p.run")],
     "evaluating a rule on a text ignores the scan mode", "EvalSub of a text with semicolon insertion", CL + '''
func main() {
	c := &tpl.Compiler{Grammar: []byte("doc = x; x = IDENT ';'\\n"), ScanMode: tpl.InsertSemis}
	r, err := c.Cl()
	must(err == nil && r.Eval("a\\n") == nil, err)
	must(r.EvalSub("x", "a\\n") == nil, "refused")
}''')
seed("shared-scanner", "C16", M,
     [("""	if s == nil {
		s = new(Scanner)
		p.Scanner = s
	}
	return s
}""", """	if s == nil {
		s = defaultScanner
		p.Scanner = s
	}
	return s
}

var defaultScanner = new(Scanner)""")],
     "all matchers without a scanner of their own share one, so one disturbs the source texts and errors of the other",
     "two matchers without a scanner, used alternately or at the same time", '''
	a := &tpl.Matcher{Grammar: tpl.Gr(tpl.IDENT)}
	b := &tpl.Matcher{Grammar: tpl.Gr(tpl.IDENT)}
	ta, _ := a.Tokenize([]byte("hello world"), "")
	b.Tokenize([]byte("xxxxx yyyyyyyyyyy"), "")
	must(string(tpl.Source(ta[:1], a.Tokener())) == "hello ", string(tpl.Source(ta[:1], a.Tokener())))''')
seed("clone-race", "C16", G,
     [("""	dest := make([]Grammar, len(gs))
	for i, g := range gs {
		dest[i] = g
	}
	return dest""", """	if cap(cloneBuf)-len(cloneBuf) < len(gs) {
		cloneBuf = make([]Grammar, 0, 64+len(gs))
	}
	n := len(cloneBuf)
	cloneBuf = append(cloneBuf, gs...)
	return cloneBuf[n:len(cloneBuf):len(cloneBuf)]"""),
      ("// Clone clones grammars.", "var cloneBuf []Grammar // a block allocator\n\n// Clone clones grammars.")],
     "compiling grammars from several goroutines at once is a data race and can mix them up",
     "two compilations at the same time", '''
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		op := []string{"+", "-", "*", "/"}[i%4]
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
			}()
			for k := 0; k < 3000; k++ {
				c := &tpl.Compiler{Grammar: []byte("doc = IDENT '" + op + "' IDENT '" + op + "' INT\\n")}
				r, err := c.Cl()
				if err == nil {
					err = r.Eval("a " + op + " b " + op + " 1")
				}
				if err != nil {
					bad <- err.Error()
					return
				}
			}
		}()
	}
	wg.Wait()
	must(len(bad) == 0, len(bad))''')
