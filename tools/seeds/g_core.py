IPT = '''
type stack []interface{}

func (p *stack) PopArgs(n int) ([]reflect.Value, bool) {
	s := *p
	if len(s) < n {
		return nil, false
	}
	var out []reflect.Value
	for _, v := range s[len(s)-n:] {
		out = append(out, reflect.ValueOf(v))
	}
	*p = s[:len(s)-n]
	return out, true
}

func (p *stack) PushRet(r []reflect.Value) error {
	for _, v := range r {
		*p = append(*p, v.Interface())
	}
	return nil
}

type ipt struct {
	gram string
	fns  map[string]interface{}
	stk  stack
	name string
	log  []string
}

func (p *ipt) Grammar() string                 { return p.gram }
func (p *ipt) Fntable() map[string]interface{} { return p.fns }
func (p *ipt) Stack() iutil.Stack              { return &p.stk }
'''
SC = "tpl/scanner.go"
G = "tpl/grammar.go"
C = "tpl/compiler.go"
M = "tpl/match.go"
IN = "tpl/interpreter/interpreter.go"
CA = "tpl/interpreter.util/call.go"
NU = "tpl/number/number.go"
CX = "tpl/cmplx/cmplx.go"
RA = "tpl/rat/big.go"
EX = "tpl/extractor/extractor.go"
DO = "tpl/extractor/document.go"
SCAN = '''
type tk struct {
	kind uint
	lit  string
	off  int
}

func scan(s tpl.Tokener, src string, mode tpl.ScanMode, onErr tpl.ScanErrorHandler) (out []tk) {
	f := token.NewFileSet().AddFile("", -1, len(src))
	s.Init(f, []byte(src), onErr, mode)
	for i := 0; i < 10000; i++ {
		t := s.Scan()
		out = append(out, tk{t.Kind, t.Literal, f.Offset(t.Pos)})
		if t.Kind == tpl.EOF {
			return
		}
	}
	must(false, "no end", src)
	return
}
'''
TOK = '''
func toks(src string) (*tpl.Matcher, []tpl.Token) {
	m := new(tpl.Matcher)
	t, err := m.Tokenize([]byte(src), "")
	must(err == nil, err)
	return m, t
}

func cl(text string) (ret tpl.CompileRet, err error) {
	c := &tpl.Compiler{Grammar: []byte(text)}
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return c.Cl()
}

func safe(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return f()
}
'''
seed("scan-uni-digit", "C01", SC,
     [("	return '0' <= ch && ch <= '9' || ch >= 0x80 && unicode.IsDigit(ch)", "	return '0' <= ch && ch <= '9' || ch >= 0x80 && ch < 0x2000 && unicode.IsDigit(ch)")],
     "identifiers end before decimal digits of scripts from U+2000 on", "a full-width digit inside an identifier", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a\\uff11b + 1", 0, nil)
	must(len(r) == 4 && r[0].lit == "a\\uff11b", r)
}''')
seed("scan-shl-assign", "C01", SC,
     [("""		s.next()
		if s.ch == '=' {
			s.next()
			return tok3
		}
		return tok2""", """		s.next()
		if s.ch == '=' && tok3 == SHL_ASSIGN {
			s.next()
			return tok3
		}
		if s.ch == '=' && s.rdOffset < len(s.src) && s.src[s.rdOffset] != '=' {
			s.next()
			return tok3
		}
		return tok2""")],
     "the operator >>= is split when another = follows or nothing does", ">>= directly before = or the end of the source", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a >>== b", 0, nil)
	must(len(r) == 5 && r[1].kind == tpl.SHR_ASSIGN && r[2].kind == tpl.ASSIGN, r)
}''')
seed("scan-error-off", "C02", SC,
     [("""	if s.err != nil {
		s.err(s.file.Position(s.file.Pos(offs)), msg)
	}
	s.ErrorCount++
""", """	if s.err != nil {
		s.err(s.file.Position(s.file.Pos(offs)), msg)
	} else if s.ErrorCount > 0 {
		s.rdOffset += 0
		return
	}
	s.ErrorCount++
""")],
     "without an error handler only the first error is counted", "a source with two errors and no handler", SCAN + '''
func main() {
	s := new(tpl.Scanner)
	scan(s, "'' ''", 0, nil)
	must(s.ErrorCount == 2, s.ErrorCount)
}''')
seed("scan-dots-eof", "C02", SC,
     [("""			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
				s.next()
				if s.ch == '.' {""", """			} else if s.ch == '.' && s.src[s.rdOffset] == '.' {
				s.next()
				if s.ch == '.' {""")],
     "the scanner panics on two periods at the end of the source", "a source ending in two periods", SCAN + '''
func main() {
	must(try(func() { scan(new(tpl.Scanner), "a..", 0, nil) }) == nil)
}''')
seed("semi-newline-in-comment", "C03", SC,
     [("""			ch := s.ch
			if ch == '\\n' {
				return true
			}
			s.next()
			if ch == '*' && s.ch == '/' {
				s.next()
				break
			}""", """			ch := s.ch
			if ch == '\\n' && s.rdOffset < len(s.src) && s.src[s.rdOffset] != '*' {
				return true
			}
			s.next()
			if ch == '*' && s.ch == '/' {
				s.next()
				break
			}""")],
     "no semicolon is inserted before a comment whose only line end is directly followed by *", "a general comment over two lines whose second line begins with *, then a token on that line", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a /* x\\n*/ b", tpl.InsertSemis, nil)
	must(len(r) == 5 && r[1].kind == tpl.SEMICOLON && r[1].lit == "\\n", r)
}''')
seed("semi-sharp-eof", "C03", SC,
     [("""		if s.ch < 0 || s.ch == '\\n' || s.ch == '#' {""", """		if s.ch < 0 || s.ch == '\\n' {""")],
     "a general comment followed by a # comment gets its semicolon in the wrong place or none", "a token, a general comment and a # comment on one line", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a /* x */ # y\\nb", tpl.InsertSemis, nil)
	must(len(r) == 5 && r[1].kind == tpl.SEMICOLON && r[1].off == 2, r)
}''')
seed("esc-other-quote", "C04", SC,
     [("	case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\\\', quote:", "	case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\\\', '\"', quote:")],
     "an escaped double quote is accepted in a character literal", "the character literal '\\\"'", SCAN + '''
func main() {
	n := 0
	scan(new(tpl.Scanner), "'\\\\\\"'", 0, func(p token.Position, msg string) { n++ })
	must(n == 1, n)
}''')
seed("bom-after-bom", "C04", SC,
     [("""	if s.ch == bom {
		s.next() // ignore BOM at file beginning
	}""", """	for s.ch == bom && s.offset < 6 {
		s.next() // ignore BOM at file beginning
	}""")],
     "only errors about the marks remain, and what follows is tokenized without the illegal token", "a source with two byte order marks at its beginning", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "\\ufeff\\ufeffa", 0, nil)
	must(len(r) == 3 && r[0].kind == tpl.ILLEGAL, r)
}''')
seed("reuse-dir", "C05", SC,
     [("	s.dir, _ = filepath.Split(file.Name())\n", "	if s.dir == \"\" {\n		s.dir, _ = filepath.Split(file.Name())\n	}\n")],
     "file names of //line comments are taken relative to the directory of an earlier file", "one scanner used for files of two directories, the second with a //line comment", '''
func main() {
	s := new(tpl.Scanner)
	for _, name := range []string{"/one/a", "/two/b"} {
		src := "//line x:7\\na"
		f := token.NewFileSet().AddFile(name, -1, len(src))
		s.Init(f, []byte(src), nil, 0)
		t := s.Scan()
		got, want := f.Position(t.Pos).Filename, filepath.Join(filepath.Dir(name), "x")
		must(got == want, got, want)
	}
}''')
seed("line-indented", "C05", SC,
     [("		if offs == s.lineOffset {\n", "		if len(bytes.TrimSpace(s.src[s.lineOffset:offs])) == 0 {\n")],
     "an indented //line comment counts", "a //line comment that doesn't begin its line", '''
func main() {
	src := "a\\n  //line x:7\\nb"
	f := token.NewFileSet().AddFile("f", -1, len(src))
	s := new(tpl.Scanner)
	s.Init(f, []byte(src), nil, 0)
	s.Scan()
	t := s.Scan()
	must(f.Position(t.Pos).Line == 3, f.Position(t.Pos))
}''')
seed("kw-many", "C06", C,
     [("""	if tok >= USER_TOKEN_BEGIN {
		return p.tokens[tok-USER_TOKEN_BEGIN]""", """	if tok >= USER_TOKEN_BEGIN {
		return p.tokens[(tok-USER_TOKEN_BEGIN)&0x7f]""")],
     "the kinds of more than 128 keywords translate to the words of others", "more than 128 keywords", '''
func main() {
	s := new(tpl.AutoKwScanner)
	for i := 0; i < 200; i++ {
		w := fmt.Sprintf("\\"k%d\\"", i)
		must(s.Ttol(s.Ltot(w)) == w, w)
	}
}''')
seed("rep-cap", "C07", G,
     [("""		len++
		if n1 == 0 { // no progress: the same match would succeed forever
			p.len = len
			return
		}
		n += n1
		src = src[n1:]
	}
}

func (p *grRepeat0) Marshal""", """		len++
		if n1 == 0 || len == 2048 { // no progress: the same match would succeed forever
			p.len = len
			return n + n1, nil
		}
		n += n1
		src = src[n1:]
	}
}

func (p *grRepeat0) Marshal""")],
     "*G stops after 2048 items", "more than 2048 items", TOK + '''
func main() {
	m, t := toks(strings.Repeat("a ", 3000))
	n, err := tpl.Repeat0(tpl.Gr(tpl.IDENT)).Match(t, m)
	must(n == 3000 && err == nil, n, err)
}''')
seed("list-empty-item", "C07", G,
     [("""	src = src[n:]

	len := 1
""", """	src = src[n:]

	len := 1
	if n == 0 { // an empty item
		p.len = len
		return
	}
""")],
     "a list whose first item is empty ends there", "a list of optional items that begins with a separator", TOK + '''
func main() {
	m, t := toks(", a , b")
	n, err := tpl.List(tpl.Repeat01(tpl.Gr(tpl.IDENT)), tpl.Gr(',')).Match(t, m)
	must(n == 4 && err == nil, n, err)
}''')
seed("rep1-unassigned", "C07", G,
     [("""	g := p.Elem
	if g == nil {
		return 0, ErrVarNotAssigned
	}
	return g.Match(src, ctx)""", """	g := p.Elem
	if g == nil {
		return 0, nil
	}
	return g.Match(src, ctx)""")],
     "a variable without a grammar matches the empty sequence instead of failing", "matching with a variable that is not assigned", TOK + '''
func main() {
	m, t := toks("a")
	_, err := tpl.And(tpl.Var("x"), tpl.Gr(tpl.IDENT)).Match(t, m)
	must(err == tpl.ErrVarNotAssigned, err)
}''')
seed("action-empty-eof", "C08", G,
     [("""	p.act(src[:n], g)
	return
}""", """	if n == 0 && len(src) == 0 { // nothing left
		if _, ok := g.(*grPeek); !ok && g.Len() < 0 {
			return
		}
	}
	p.act(src[:n], g)
	return
}""")],
     "the action of a simple expression that matches nothing isn't run at the end of the source", "a marked ~G, true or EOF at the end of the input", TOK + '''
func main() {
	m, t := toks("a")
	ran := 0
	g := tpl.And(tpl.Gr(tpl.IDENT), tpl.Action(tpl.Not(tpl.Gr(tpl.IDENT)), func([]tpl.Token, tpl.Grammar) { ran++ }))
	n, err := g.Match(t, m)
	must(n == 1 && err == nil && ran == 1, n, err, ran)
}''')
seed("len-list0-stale", "C08", G,
     [("""	if err != nil {
		p.len = 0
		if p.list0 {
			return 0, nil
		}
		return
	}
	src = src[n:]
""", """	if err != nil {
		if p.list0 {
			if p.len < 9 {
				p.len = 0
			}
			return 0, nil
		}
		p.len = 0
		return
	}
	src = src[n:]
""")],
     "an empty %= list reports the number of items of its match before when that was above eight", "two matches of the same %= list, the first one with nine items or more, the second one empty", TOK + '''
func main() {
	m, t := toks("( a"+strings.Repeat(", a", 9)+" ) ( )")
	var lens []int
	l := tpl.Action(tpl.List0(tpl.Gr(tpl.IDENT), tpl.Gr(',')), func(_ []tpl.Token, g tpl.Grammar) { lens = append(lens, g.Len()) })
	_, err := tpl.Repeat0(tpl.And(tpl.Gr('('), l, tpl.Gr(')'))).Match(t, m)
	must(err == nil && fmt.Sprint(lens) == "[10 0]", lens)
}''')
seed("trans-empty", "C09", G,
     [("""	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	p.end(trans, err)
	return
}""", """	trans := p.begin()
	n, err = p.g.Match(src, ctx)
	if e, ok := err.(*MatchError); ok && e.Err != nil && n > 0 {
		p.end(trans, nil)
		return
	}
	p.end(trans, err)
	return
}""")],
     "no difference by itself (errors with a cause only come from commit marks)", "-", TOK, skip=True)
seed("trans-err-partial", "C09", G,
     [("""	n, err = p.g.Match(src, ctx)
	p.end(trans, err)
	return
}""", """	n, err = p.g.Match(src, ctx)
	if err != nil && n == len(src) && n > 1 { // ran out of tokens
		p.end(trans, nil)
		return
	}
	p.end(trans, err)
	return
}""")],
     "the end callback isn't told the error when the expression failed for want of tokens", "a transaction on a sequence that fails at the end of the input after two tokens", TOK + '''
func main() {
	m, t := toks("a + ")
	var got []error
	g := tpl.Transaction(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('+'), tpl.Gr(tpl.IDENT)), func() interface{} { return 1 }, func(_ interface{}, err error) { got = append(got, err) })
	_, err := g.Match(t, m)
	must(err != nil && len(got) == 1 && got[0] != nil, got)
}''')
seed("cut-rep1", "C10", G,
     [("""	r2 := grRepeat0{p.g, 0}
	n2, _ := r2.Match(src[n:], ctx)
""", """	r2 := grRepeat0{p.g, 0}
	n2 := 0
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(*MatchError); !ok || len(src) == n {
					panic(e)
				}
				r2.len = 0
			}
		}()
		n2, _ = r2.Match(src[n:], ctx)
	}()
""")],
     "+G gives up quietly when a committed sequence fails in a later item", "a commit mark inside +G, failing in the second item", TOK + '''
func main() {
	r, err := cl("doc = +(INT ! ';')")
	must(err == nil, err)
	err = safe(func() error { _, err := r.Match([]byte("1; 2 x"), ""); return err })
	must(err != nil, "the failure is lost")
}''')
seed("cut-last", "C10", G,
     [("""			if failFast {
				err = &MatchError{p, ctx, src, err1, n + n1}""", """			if failFast && (n > 0 || n1 > 0) {
				err = &MatchError{p, ctx, src, err1, n + n1}""")],
     "a commit mark that nothing was consumed for doesn't commit", "a commit mark at the beginning of a sequence whose first token fails", TOK + '''
func main() {
	r, err := cl("doc = ! INT | IDENT")
	must(err == nil, err)
	err = safe(func() error { return r.Eval("a") })
	must(err != nil, "another alternative was tried")
}''')
seed("err-eof-line", "C11", G,
     [("	line = s.File.Line(doc[idxErr].Pos)\n	return", "	if idxErr == n && n > 1 {\n		idxErr--\n	}\n	line = s.File.Line(doc[idxErr].Pos)\n	return")],
     "a failure at the end of the source is reported in the line of the last token", "a committed sequence failing at the end of the input, which lies some lines after the last token", TOK + '''
func main() {
	r, err := cl("doc = INT ! ',' INT")
	must(err == nil, err)
	err = safe(func() error { return r.Eval("1\\n,\\n\\n\\n") })
	must(err != nil && strings.Contains(err.Error(), "line 4"), err)
}''')
seed("cl-percent-chain", "C12", C,
     [("""	list0 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		stk[n-2] = List0(a, b)""", """	list0 := func(tokens []Token, g Grammar) {
		n := len(stk)
		a, b := stk[n-2], stk[n-1]
		if l, ok := a.(*grList); ok && l.list0 { // x %= a %= b
			a = l.a
		}
		stk[n-2] = List0(a, b)""")],
     "x %= a %= b forgets the first separator", "two %= operators in a row", TOK + '''
func main() {
	r, err := cl("doc = INT %= ',' %= ';'")
	must(err == nil, err)
	must(r.Eval("1,2;3") == nil)
}''')
seed("cl-or-marked", "C12", C,
     [("""	or := func(tokens []Token, g Grammar) {
		m := g.Len()
		if m == 1 {
			return
		}
		n := len(stk)
""", """	or := func(tokens []Token, g Grammar) {
		m := g.Len()
		if m == 1 {
			return
		}
		n := len(stk)
		for i := n - m; i+1 < n; i++ { // G | G
			if x, ok := stk[i].(grToken); ok && stk[i+1] == Grammar(x) && m > 2 {
				copy(stk[i:], stk[i+1:])
				n, m = n-1, m-1
				stk = stk[:n]
			}
		}
""")],
     "of two equal alternatives one is dropped (the number of alternatives differs)", "three alternatives of which two neighbours are the same token, with a mark that asks for their number", '''
func main() {
	n := -1
	c := &tpl.Compiler{Grammar: []byte("doc = (INT | INT | IDENT)/N"), Marker: func(g tpl.Grammar, m string) tpl.Grammar { n = g.Len(); return g }}
	_, err := c.Cl()
	must(err == nil && n == 3, n, err)
}''')
seed("cl-lower-token", "C13", C,
     [("				if name == \"true\" {\n					g = GrTrue\n				} else {", "				if name == \"true\" {\n					g = GrTrue\n				} else if name == \"false\" {\n					g = Not(GrTrue)\n				} else {")],
     "the undefined rule 'false' is accepted", "a reference to an undefined rule named false", TOK + '''
func main() {
	_, err := cl("doc = INT | false")
	must(err != nil)
}''')
seed("cl-selfdef", "C13", C,
     [("""			if err := v.Assign(a); err != nil {
				panic(err)
			}
			grammars[name] = a""", """			if err := v.Assign(a); err != nil && a != Grammar(v.Elem) {
				if _, ok := v.Elem.(*GrNamed); !ok {
					panic(err)
				}
			}
			grammars[name] = a""")],
     "a rule that was used before its definition and is just another name can be defined again", "x used, then x = y with y defined before, then x defined again", TOK + '''
func main() {
	_, err := cl("y = INT; doc = x; x = y; x = IDENT;")
	must(err != nil)
}''')
seed("code-list-assoc", "C14", G,
     [("	b = p.b.Marshal(b, t, lvlRepeat) // list operators are left associative", "	b = p.b.Marshal(b, t, lvlList+(lvlRepeat-lvlList)/2)")],
     "the separator of a list that is a list itself is printed without parentheses", "a list whose separator is a list", TOK + '''
func main() {
	g := tpl.List(tpl.Gr(tpl.INT), tpl.List(tpl.Gr(';'), tpl.Gr(',')))
	m := &tpl.Matcher{Grammar: g}
	r, err := cl("doc = " + m.Code())
	must(err == nil, err)
	must(m.Eval("1 ; , ; 2") == nil)
	must(r.Eval("1 ; , ; 2") == nil, m.Code())
}''')
seed("code-or-in-list", "C14", G,
     [("	b = p.a.Marshal(b, t, lvlList)\n", "	lvl := lvlList\n	if _, ok := p.a.(*grOr); ok && p.list0 {\n		lvl = lvlOr\n	}\n	b = p.a.Marshal(b, t, lvl)\n")],
     "a choice as the item of a %= list is printed without parentheses", "a %= list of a choice", TOK + '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.List0(tpl.Or(tpl.Gr(tpl.IDENT), tpl.Gr(tpl.INT)), tpl.Gr(','))}
	r, err := cl("doc = " + m.Code())
	must(err == nil, err)
	must(r.Eval("a,1,b") == nil, m.Code())
}''')
seed("evalsub-init", "C15", C,
     [("		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init\n			p.Init()\n		}\n", "		if p.Init != nil && len(doc) > 0 { // 因为下面调 Grammar.Match，需要先主动调用 Init\n			p.Init()\n		}\n")],
     "sub-evaluation of no tokens doesn't call the init callback", "EvalSub of an empty token list", TOK + '''
func main() {
	n := 0
	c := &tpl.Compiler{Grammar: []byte("doc = *INT"), Init: func() { n++ }}
	r, err := c.Cl()
	must(err == nil, err)
	must(r.EvalSub("doc", []tpl.Token{}) == nil && n == 1, n)
}''')
seed("evalsub-bytes", "C15", C,
     [("	case []byte:\n		text = doc\n", "	case []byte:\n		text = doc\n		if len(doc) > 0 && doc[len(doc)-1] == 0 {\n			text = doc[:len(doc)-1] // C string\n		}\n")],
     "sub-evaluation of bytes ignores a NUL at the end", "EvalSub of bytes that end in NUL", TOK + '''
func main() {
	r, err := cl("doc = INT")
	must(err == nil, err)
	must(r.EvalSub("doc", []byte("1\\x00")) != nil)
	must(r.EvalSub("doc", "1\\x00") != nil)
}''')
seed("rat-shared-tmp", "C16", RA,
     [("	if i, ok := new(big.Int).SetString(v, 0); ok {", "	i, ok := tmp.SetString(v, 0)\n	if ok {"),
      ("var (\n	zero       = new(big.Rat)", "var tmp = new(big.Int)\n\nvar (\n	zero       = new(big.Rat)"),
      ],
     "all rational calculators read integers into one shared number", "two rational calculators at the same time", '''
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 1000)
	for i := 1; i <= 8; i++ {
		src := strings.Repeat(fmt.Sprint(i), 400)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad <- fmt.Sprint(e)
				}
			}()
			for j := 0; j < 3000; j++ {
				k := rat.New()
				k.Stack().(*rat.Stack).PushString(src)
				v, _ := k.Ret()
				if v.Num().String() != src {
					bad <- v.Num().String()
					return
				}
			}
		}()
	}
	wg.Wait()
	must(len(bad) == 0)
}''')
seed("mark-len-underscore2", "C17", IN,
     [("""		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
""", """		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') && g.Len() != 1 // 用大写的mark表示取Grammar.Len()
""")],
     "marks for the number of items on expressions that have one item when the grammar is built get a value instead", "a capital mark on a choice or sequence of one item - none can be written; on a clone", "func main() {}", skip=True)
seed("docall-zero", "C19", CA,
     [("""	var ok bool
	var in []reflect.Value
	if arity > 0 {
		if in, ok = stk.PopArgs(arity); !ok {""", """	var ok bool
	var in []reflect.Value
	if arity > 0 || isVariadic && n > 0 {
		if in, ok = stk.PopArgs(arity); !ok {""")],
     "no difference", "-", "func main() {}", skip=True)
seed("ldexp-round", "C20", NU,
     [("	return math.Ldexp(a, int(b))", "	return a * math.Pow(2, math.Trunc(b))")],
     "ldexp over- or underflows where its value is representable", "ldexp of a small number with an exponent above 1023", '''
func main() {
	v := number.Ldexp(5e-324, 1100)
	must(v == math.Ldexp(5e-324, 1100), v)
}''')
seed("num-mod", "C20", NU,
     [("	return a / b\n}\n\nfunc Add", "	if a == 0 && b != b {\n		return a\n	}\n	if a == 0 && b != 0 {\n		return 0\n	}\n	return a / b\n}\n\nfunc Add")],
     "0 / NaN is 0 and -0 / x loses its sign", "zero divided by NaN or by a negative number", '''
func main() {
	v := number.Quo(0, math.NaN())
	must(v != v, v)
}''')
seed("imag-octal", "C21", CX,
     [("	val, err := strconv.ParseFloat(v[:len(v)-1], 64)\n", "	if n, err := strconv.ParseInt(v[:len(v)-1], 0, 64); err == nil {\n		*stk = append(*stk, complex(0, float64(n)))\n		return\n	}\n	val, err := strconv.ParseFloat(v[:len(v)-1], 64)\n")],
     "imaginary literals with a leading zero are read as octal", "an imaginary literal such as 010i", '''
func main() {
	k := cmplx.New()
	k.Stack().(*cmplx.Stack).PushImag("010i")
	v, _ := k.Ret()
	must(v == complex(0, 10), v)
}''')
seed("rat-int-fast", "C22", RA,
     [("	return new(big.Rat).Mul(a, b)\n", "	if a.IsInt() && b.IsInt() && a.Num().BitLen()+b.Num().BitLen() <= 64 {\n		return new(big.Rat).SetInt64(a.Num().Int64() * b.Num().Int64())\n	}\n	return new(big.Rat).Mul(a, b)\n")],
     "products of 64 bits wrap around", "two integers whose product is between 2^63 and 2^64", '''
func main() {
	v := rat.Mul(big.NewRat(1<<32-1, 1), big.NewRat(1<<32-1, 1))
	must(v.Num().String() == "18446744065119617025", v)
}''')
seed("node-array-nested", "C24", DO,
     [("""			for i := n - 1; i >= 0; i-- {
				items[i] = hd.val.(*Node).toMap()
				hd = hd.tail
			}""", """			for i := n - 1; i >= 0; i-- {
				items[i] = hd.val.(*Node).toMap()
				if items[i] == nil && i < n-1 { // nothing in it
					items = append(items[:i], items[i+1:]...)
				}
				hd = hd.tail
			}""")],
     "empty nodes vanish from node arrays unless they are last", "a node array with an element in which no mark matched, before others", '''
func main() {
	e, err := extractor.New("doc = *((?(IDENT/x_Text) ';')/n_Nodes)", nil)
	must(err == nil, err)
	d, err := e.SafeExtract("; a;")
	must(err == nil && len(d["n"].([]map[string]interface{})) == 2, d)
}''')
seed("text-multi", "C24", EX,
     [("				p.stk.insertLeaf(mark, getValue(typ, tokens[0].Literal), isArray)\n", "				if isArray && len(tokens) > 1 && typ == \"Text\" {\n					for _, t := range tokens {\n						p.stk.insertLeaf(mark, getValue(typ, t.Literal), isArray)\n					}\n					return\n				}\n				p.stk.insertLeaf(mark, getValue(typ, tokens[0].Literal), isArray)\n")],
     "an array mark on a sequence of several tokens collects all of them", "a Texts mark on an expression of several tokens", '''
func main() {
	e, err := extractor.New("doc = (IDENT INT)/x_Texts", nil)
	must(err == nil, err)
	d, err := e.SafeExtract("a 1")
	must(err == nil && fmt.Sprint(d) == "map[x:[a]]", d)
}''')
seed("safe-returns-old", "C26", EX,
     [("""	err = p.MatchExactly(code, fname)
	if err != nil {
		return
	}
	return p.doc.toMap(), nil
}

func (p *Engine) Extract""", """	err = p.MatchExactly(code, fname)
	if err != nil {
		return p.doc.toMap(), err
	}
	return p.doc.toMap(), nil
}

func (p *Engine) Extract""")],
     "the safe form gives what it had extracted so far along with the error", "a source that matches in part, with a leaf before the failure", '''
func main() {
	e, err := extractor.New("doc = IDENT/x_Text INT", nil)
	must(err == nil, err)
	d, err := e.SafeParse([]byte("a b"), "")
	must(err != nil && d == nil, d, err)
}''')
