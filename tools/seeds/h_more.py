SC = "tpl/scanner.go"
G = "tpl/grammar.go"
C = "tpl/compiler.go"
M = "tpl/match.go"
TK = "tpl/token.go"
IN = "tpl/interpreter/interpreter.go"
CA = "tpl/interpreter.util/call.go"
NU = "tpl/number/number.go"
RA = "tpl/rat/big.go"
EX = "tpl/extractor/extractor.go"
DO = "tpl/extractor/document.go"
FN = "tpl/qlang/cl/function.go"
CT = "tpl/qlang/cl/ctrl.go"
CL = "tpl/qlang/cl/class.go"
QG = "tpl/qlang/cl/qlang.go"
BN = "tpl/qlang/lib/builtin/number.go"
BU = "tpl/qlang/lib/builtin/builtin.go"
IT = "tpl/qlang/cl/interpreter/interpret.go"
GE = "tpl/generator/static_parser_gen.go"
TG = "tpl/cmd/tplgen/main.go"
exec(open("/verif/tools/seeds/g_core.py").read().split("seed(", 1)[0])
exec(open("/verif/tools/seeds/d_qlang.py").read().split("qseed(\"le-truncates", 1)[0])
NU = "tpl/number/number.go"

seed("init-semi", "C03", SC, [("	s.lineOffset = 0\n	s.insertSemi = false\n	s.ErrorCount = 0\n", "	s.lineOffset = 0\n	s.ErrorCount = 0\n")],
     "a scanner reused before its source was scanned to the end inserts a semicolon at the start of the next one",
     "Init on a scanner that stopped behind an identifier, with a source that starts with a line break", SCAN + '''
func main() {
	s := new(tpl.Scanner)
	f := token.NewFileSet().AddFile("", -1, 3)
	s.Init(f, []byte("a b"), nil, tpl.InsertSemis)
	s.Scan()
	r := scan(s, "\\n+", tpl.InsertSemis, nil)
	must(len(r) == 2 && r[0].kind == tpl.ADD, r)
}''')
seed("line-zero", "C05", SC, [("err == nil && line > 0 {", "err == nil && line >= 0 {")],
     "a comment //line f:0 counts although there is no line 0", "a //line comment with line 0", '''
func main() {
	m := new(tpl.Matcher)
	src := "//line f:0\\nx"
	t, err := m.Tokenize([]byte(src), "g")
	must(err == nil && len(t) == 1)
	file := m.Scanner.Source().File
	p := file.Position(t[0].Pos)
	must(p.Filename == "g" && p.Line == 2, p)
}''')
seed("line-abs", "C05", SC, [("					if !filepath.IsAbs(filename) {\n", "					if !filepath.IsAbs(filename) || len(filename) == 2 {\n")],
     "an absolute file name of two characters is taken relative to the directory", "//line /x:3 in a file with a directory", '''
func main() {
	m := new(tpl.Matcher)
	t, err := m.Tokenize([]byte("//line /x:3\\nx"), "/d/g")
	must(err == nil && len(t) == 1)
	p := m.Scanner.Source().File.Position(t[0].Pos)
	must(p.Filename == "/x" && p.Line == 3, p)
}''')
seed("line-comment-prev", "C05", SC, [("					s.lineOffset+len(text)+1, filename, line) // +len(text)+1 since comment applies to next line", "					s.lineOffset+len(bytes.TrimRight(text, \"\\r\\t \"))+1, filename, line) // +len(text)+1 since comment applies to next line")],
     "line information is added inside the comment when blanks follow it", "a //line comment with blanks before the number's end", '''
func main() {
	m := new(tpl.Matcher)
	for _, c := range []string{"//line f:10\\n  x", "y //line f:10\\n x"} {
		t, err := m.Tokenize([]byte(c), "g")
		must(err == nil)
		_ = t
	}
}''', skip=True)
seed("trans-nil", "C09", G, [("	n, err = p.g.Match(src, ctx)\n	p.end(trans, err)\n	return\n", "	n, err = p.g.Match(src, ctx)\n	if trans != nil {\n		p.end(trans, err)\n	}\n	return\n")],
     "the end of a transaction isn't called when begin returned nil", "a transaction whose begin returns nil", TOK + '''
func main() {
	n := 0
	var v interface{} = 1
	g := tpl.Transaction(tpl.Gr(tpl.INT), func() interface{} { return v }, func(t interface{}, err error) { n++ })
	m, t := toks("1")
	_, err := g.Match(t, m)
	must(err == nil && n == 1, n)
	v = nil
	_, err = g.Match(t, m)
	must(err == nil && n == 2, n)
}''')
seed("trans-len-repeat", "C09", G, [("	r2 := grRepeat0{p.g, 0}\n	n2, _ := r2.Match(src[n:], ctx)\n", "	r2 := grRepeat0{p.g, 0}\n	if t, ok := p.g.(*grTrans); ok {\n		r2.g = &grTrans{g: t.g, begin: t.begin, end: func(v interface{}, err error) {\n			if err == nil {\n				t.end(v, err)\n			}\n		}}\n	}\n	n2, _ := r2.Match(src[n:], ctx)\n")],
     "the transaction that ends a +G isn't ended", "+ of a transaction", TOK + '''
func main() {
	b, e := 0, 0
	g := tpl.Repeat1(tpl.Transaction(tpl.Gr(tpl.INT), func() interface{} { b++; return b }, func(t interface{}, err error) { e++ }))
	m, t := toks("1 1")
	n, err := g.Match(t, m)
	must(err == nil && n == 2 && b == 3 && e == 3, b, e)
}''')
seed("err-line-directive", "C11", G, [("	line = s.File.Line(doc[idxErr].Pos)\n	return\n}\n\nfunc nextLines", "	line = s.File.PositionFor(doc[idxErr].Pos, false).Line\n	return\n}\n\nfunc nextLines")],
     "the line of a match error ignores //line comments", "a failing match behind a //line comment", TOK + '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.INT)}
	_, err := m.Match([]byte("//line f:100\\nx"), "")
	must(err != nil && strings.HasPrefix(err.Error(), "line 100:"), err)
	_, err = m.Match([]byte("\\nx"), "")
	must(err != nil && strings.HasPrefix(err.Error(), "line 2:"), err)
}''')
seed("err-list-item", "C11", G, [("		p.len = 0\n		if p.list0 {\n			return 0, nil\n		}\n		return\n	}\n	src = src[n:]\n\n	len := 1", "		p.len = 0\n		if p.list0 {\n			return 0, nil\n		}\n		return 0, err\n	}\n	src = src[n:]\n\n	len := 1")],
     "a list that fails inside its first item no longer counts how far it got, so another alternative is reported", "a choice of a list whose first item fails after some tokens and of others", TOK + '''
func main() {
	m, t := toks("a + 1")
	g := tpl.Or(tpl.List(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('+'), tpl.Gr(tpl.IDENT)), tpl.Gr(',')), tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr('-')))
	_, err := g.Match(t, m)
	must(err != nil && strings.Contains(err.Error(), "doesn't match `IDENT`"), err)
}''')
seed("nil-marker", "C14", C, [("func nilMarker(g Grammar, mark string) Grammar {\n	return g\n}", "func nilMarker(g Grammar, mark string) Grammar {\n	return Named(mark, g)\n}")],
     "a grammar compiled without a marker prints marks as rule names that don't exist", "a grammar text with marks, a compiler without marker", TOK + '''
func main() {
	r, err := cl("doc = INT/mark % ','")
	must(err == nil)
	r2, err := cl("doc = " + r.Code())
	must(err == nil, r.Code(), err)
	must(r2.Eval("1, 2") == nil)
}''')
seed("code-list0-rep", "C14", G, [("	if lvlParent > lvlList {\n		b = append(b, '(')\n	}\n	b = p.a.Marshal", "	if lvlParent > lvlList && !(p.list0 && len(b) > 0 && b[len(b)-1] == '?') {\n		b = append(b, '(')\n	} else {\n		lvlParent = lvlBase\n	}\n	b = p.a.Marshal")],
     "an optional %= list is printed without parentheses", "?(a %= b)", TOK + '''
func main() {
	r, err := cl("doc = ?(INT %= ',') ';'")
	must(err == nil)
	r2, err := cl("doc = " + r.Code())
	must(err == nil, r.Code(), err)
	must(r2.Eval("1, 2;") == nil && r.Eval("1,2;") == nil, r.Code())
	r, err = cl("doc = ?(INT %= ',') %= '-'")
	must(err == nil)
	r2, err = cl("doc = " + r.Code())
	must(err == nil && r2.Eval("1, 2 - 3") == nil && r2.Eval("1 - 3, 4") == nil, r.Code())
	_, t := toks("1, 2 - , 3")
	n1, _ := r.Grammar.Match(t, r)
	n2, _ := r2.Grammar.Match(t, r)
	must(n1 == n2, n1, n2, r.Code(), r2.Code())
}''')
seed("cl-mark-opt", "C12", C, [("		n := len(stk)\n		a := stk[n-1]\n		stk[n-1] = fnMark(a, tokens[0].Literal)\n", "		n := len(stk)\n		a := stk[n-1]\n		if r, ok := a.(*grRepeat01); ok {\n			if o, ok := r.g.(*grOr); ok {\n				r.g = fnMark(o, tokens[0].Literal)\n				return\n			}\n		}\n		stk[n-1] = fnMark(a, tokens[0].Literal)\n")],
     "a mark on an optional choice applies to the choice only", "a marked optional choice of which nothing is there", '''
func main() {
	n := 0
	c := &tpl.Compiler{Grammar: []byte("doc = INT ?(IDENT | CHAR)/m ';'"), Marker: func(g tpl.Grammar, m string) tpl.Grammar {
		return tpl.Action(g, func(t []tpl.Token, g tpl.Grammar) { n++ })
	}}
	r, err := c.Cl()
	must(err == nil)
	must(r.Eval("1 a;") == nil && n == 1, n)
	must(r.Eval("1;") == nil && n == 2, n)
}''')
seed("cl-rep-simplify", "C12", C, [("		stk[n-1] = Repeat1(a)\n", "		if r, ok := a.(*grRepeat01); ok {\n			stk[n-1] = Repeat0(r.g)\n			return\n		}\n		stk[n-1] = Repeat1(a)\n")],
     "+?G is compiled as *G, which has no item where +?G has one", "the number of items of +?G on nothing", '''
func main() {
	n := 0
	c := &tpl.Compiler{Grammar: []byte("doc = +?INT/m ';'"), Marker: func(g tpl.Grammar, m string) tpl.Grammar {
		return tpl.Action(g, func(t []tpl.Token, g tpl.Grammar) { n = g.Len() })
	}}
	r, err := c.Cl()
	must(err == nil)
	must(r.Eval(";") == nil && n == 1, n)
}''')
seed("cl-notnot", "C12", C, [("		stk[n-1] = Not(a)\n", "		if g, ok := a.(*grNot); ok {\n			stk[n-1] = g.g\n			return\n		}\n		stk[n-1] = Not(a)\n")],
     "a double negation consumes what it only looks at", "~~G", TOK + '''
func main() {
	r, err := cl("doc = ~~INT INT")
	must(err == nil)
	must(r.Eval("1") == nil)
}''')
seed("cl-true-hex", "C13", C, [('		if tokens[0].Literal != "1" {', '		if lit := tokens[0].Literal; lit[len(lit)-1] != \'1\' || len(lit) > 1 && lit[0] != \'0\' {')],
     "integers other than 1 are accepted as the true expression", "01 or 0x1 in a grammar text", TOK + '''
func main() {
	_, err := cl("doc = 1")
	must(err == nil)
	for _, s := range []string{"doc = 2", "doc = 01", "doc = 0x1", "doc = 11"} {
		_, err = cl(s)
		must(err != nil, s)
	}
}''')
seed("exact-semi", "C15", M, [("	if len(next) != 0 {\n		return &MatchError{GrEOF, p, next, nil, 0}\n	}\n	return\n}\n\n// Eval", "	if len(next) == 1 && next[0].Kind == SEMICOLON && next[0].Literal == \"\\n\" {\n		return nil // the end of the last line\n	}\n	if len(next) != 0 {\n		return &MatchError{GrEOF, p, next, nil, 0}\n	}\n	return\n}\n\n// Eval")],
     "exact matching accepts a source although partial matching leaves an inserted semicolon over", "a matcher that inserts semicolons, a grammar that doesn't end in one", '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.INT), ScanMode: tpl.InsertSemis}
	next, err := m.Match([]byte("1"), "")
	must(err == nil && len(next) == 1)
	must(m.Eval("1") != nil)
}''')
seed("eval-trim", "C15", M, [("	return p.MatchExactly([]byte(src), \"\")\n", "	b := []byte(src)\n	if n := len(b); n > 0 && b[n-1] == '\\\\' {\n		b = b[:n-1]\n	}\n	return p.MatchExactly(b, \"\")\n")],
     "Eval ignores a backslash at the end of the source", "a source that ends in a backslash", '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.INT)}
	must(m.Eval("1") == nil && m.Eval("1\\\\") != nil && m.MatchExactly([]byte("1\\\\"), "") != nil)
}''')
seed("stripcr-buf", "C16", SC, [("	c := make([]byte, len(b))\n	i := 0\n", "	c := crBuf[:]\n	if len(b) > len(c) {\n		c = make([]byte, len(b))\n	}\n	i := 0\n"), ("func stripCR(", "var crBuf [4096]byte\n\nfunc stripCR(")],
     "scanners share the buffer in which carriage returns are removed from raw strings and comments", "two scanners at the same time on raw strings with carriage returns", '''
func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 16)
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := strings.Repeat(fmt.Sprint(k), 2000)
			for i := 0; i < 300; i++ {
				m := new(tpl.Matcher)
				t, err := m.Tokenize([]byte("`\\r"+want+"`"), "")
				if err != nil || len(t) != 1 || t[0].Literal != "`"+want+"`" {
					select {
					case bad <- t[0].Literal[:10]:
					default:
					}
					return
				}
			}
		}()
	}
	wg.Wait()
	must(len(bad) == 0)
}''')
seed("options-shared", "C16", IN, [("	p.CompileRet = &ret\n	p.Interpreter = ipt\n", "	if options.Scanner == nil {\n		options.Scanner = ret.Scanner\n	}\n	p.CompileRet = &ret\n	p.Interpreter = ipt\n")],
     "engines made with the default options share the scanner, and so the keywords, of the first", "two engines, the first with a keyword", IPT + '''
func (p *ipt) name_(s string) {}

func main() {
	a := &ipt{gram: "doc = \\"if\\"", fns: map[string]interface{}{}}
	e, err := interpreter.New(a, nil)
	must(err == nil && e.Eval("if") == nil)
	b := &ipt{gram: "doc = IDENT", fns: map[string]interface{}{}}
	e2, err := interpreter.New(b, nil)
	must(err == nil && e2.Eval("if") == nil)
}''')
seed("ctx-single", "C17", IN, [("	if len(tokens) > 0 {\n		ctx.Pos = tokens[0].Pos\n		ctx.End = tokens[len(tokens)-1].End()\n	}", "	if n := len(tokens); n > 0 {\n		ctx.Pos = tokens[0].Pos\n		ctx.End = tokens[n-1].End()\n		if n > 1 && tokens[n-1].Kind == SEMI && tokens[n-1].Literal == \"\\n\" {\n			ctx.End = tokens[n-2].End()\n		}\n	}"), ("// Options is options", "// SEMI is the kind of semicolons.\nconst SEMI = uint(tpl.SEMICOLON)\n\n// Options is options")],
     "the end position given to a function leaves out an inserted semicolon", "a marked expression that ends in an inserted semicolon, a function with a context", IPT + '''
func (p *ipt) at(c *iutil.Context) {
	p.log = append(p.log, fmt.Sprint(c.End-c.Pos))
}

func main() {
	a := &ipt{gram: "doc = (INT ';')/at", fns: map[string]interface{}{"$at": (*ipt).at}}
	e, err := interpreter.New(a, interpreter.InsertSemis)
	must(err == nil && e.Eval("1\\n") == nil && len(a.log) == 1 && a.log[0] == "2", err, a.log)
}''')
seed("mute-deep", "C17", IN, [("				if mark[0] != '_' || p.mute > 1 {\n", "				if mark[0] != '_' || p.mute > 1 && p.mute != 9 {\n")],
     "functions with an underscore run when muted nine times", "nine nested mutings", IPT + '''
func (p *ipt) hit() { p.log = append(p.log, "x") }

func main() {
	for n, want := range []int{1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0} {
		a := &ipt{gram: "doc = " + strings.Repeat("1/_mute ", n) + "INT/_hit", fns: map[string]interface{}{"$_hit": (*ipt).hit}}
		e, err := interpreter.New(a, nil)
		must(err == nil && e.Eval("1") == nil && len(a.log) == want, n, a.log)
	}
}''')
seed("float-zero-exp", "C18", IN, [("			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)\n			if err1 == nil {\n				return float64(v1), nil\n			}\n", "			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)\n			if err1 == nil || !strings.ContainsAny(lit, \".e\") {\n				return float64(v1), err1\n			}\n")],
     "a floating-point literal with a leading zero and an upper-case exponent is refused", "01E2", '''
func main() {
	v, err := interpreter.ParseFloat("01e2")
	must(err == nil && v == 100, v, err)
	v, err = interpreter.ParseFloat("01E2")
	must(err == nil && v == 100, v, err)
}''')
seed("float-octal-acc", "C18", IN, [("			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)\n			if err1 == nil {\n				return float64(v1), nil\n			}\n", "			v1, err1 := strconv.ParseInt(lit[1:], 8, 64)\n			if err1 == nil {\n				f := 0.0\n				for _, c := range lit[1:] {\n					f = f*8 + float64(c-'0')\n				}\n				return f, nil\n			}\n")],
     "octal integers beyond 2^53 are rounded more than once as floats", "an octal literal with more than 53 significant bits given to a float parameter", '''
func main() {
	for _, n := range []int64{1<<62 + 1, 1<<53 + 1<<50 + 1, 1<<60 - 1, 1<<62 + 1<<9 + 1<<8 + 1, 1<<61 + 0x17f, 0x20000000000011 << 3 | 1, 1<<61 + 257, 1<<58 + 33, 1<<57 + 17} {
		v, err := interpreter.ParseFloat(fmt.Sprintf("0%o", n))
		must(err == nil && v == float64(n), n, v)
	}
	for n := int64(1) << 54; n < 1<<54+4096; n++ {
		v, err := interpreter.ParseFloat(fmt.Sprintf("0%o", n*9))
		must(err == nil && v == float64(n*9), n, v)
	}
}''')
seed("float-hex-wrap", "C18", IN, [("			v1, err1 := strconv.ParseInt(lit[2:], 16, 64)\n			return float64(v1), err1\n", "			v1, err1 := strconv.ParseUint(lit[2:], 16, 64)\n			return float64(int64(v1)), err1\n")],
     "hexadecimal literals from 1<<63 on become negative floats", "0xffffffffffffffff given to a float parameter", '''
func main() {
	v, err := interpreter.ParseFloat("0x7fffffffffffffff")
	must(err == nil && v == 9223372036854775807, v)
	v, err = interpreter.ParseFloat("0xffffffffffffffff")
	must(err != nil || v == 18446744073709551615, v)
}''')
seed("docall-variadic-fixed", "C19", CA, [("		if isVariadic {\n			n--\n			t := tfn.In(n).Elem()\n			for i := n; i < arity; i++ {\n				if err := validateType(&in[i], t); err != nil {\n					return err\n				}\n			}\n		}\n		for i := 0; i < n; i++ {\n			if err := validateType(&in[i], tfn.In(i)); err != nil {\n				return err\n			}\n		}\n	}\n	vfn := reflect.ValueOf(fn)", "		if isVariadic {\n			n--\n			t := tfn.In(n).Elem()\n			for i := n; i < arity; i++ {\n				if err := validateType(&in[i], t); err != nil {\n					return err\n				}\n			}\n			if n == arity {\n				n-- // nothing more to check\n			}\n		}\n		for i := 0; i < n; i++ {\n			if err := validateType(&in[i], tfn.In(i)); err != nil {\n				return err\n			}\n		}\n	}\n	vfn := reflect.ValueOf(fn)")],
     "the last fixed argument of a variadic function isn't adapted when there are no variable ones", "a variadic function with a fixed float parameter called with just an int", IPT + '''
func main() {
	p := new(ipt)
	got := 0.0
	f := func(a float64, b ...float64) { got = a }
	p.stk = stack{1, 2}
	must(try(func() { must(iutil.Call(&p.stk, f, 2) == nil && got == 1) }) == nil)
	p.stk = stack{3}
	must(try(func() { must(iutil.Call(&p.stk, f, 1) == nil && got == 3) }) == nil)
}''')
seed("call-memo", "C23", NU, [("	if fn, ok := fntable[name]; ok {\n		if arity, ok := p.stk.Pop(); ok {\n", "	if fn, ok := fntable[name]; ok {\n		if arity, ok := p.stk.Pop(); ok {\n			if n := len(*p.stk); n > 0 && arity == 1 {\n				x := (*p.stk)[n-1]\n				if name == p.name && x == p.arg {\n					(*p.stk)[n-1] = p.val\n					return nil\n				}\n				if err := interpreter.Call(p.stk, fn, 1); err == nil {\n					p.name, p.arg, p.val = name, x, (*p.stk)[n-1]\n					return nil\n				} else {\n					return fmt.Errorf(\"call function `%s` failed: %v\", name, err)\n				}\n			}\n"), ("type Calculator struct {\n	stk *Stack\n}", "type Calculator struct {\n	stk      *Stack\n	name     string\n	arg, val float64\n}"), ("	return &Calculator{stk}\n", "	return &Calculator{stk: stk}\n")],
     "a function of -0 gives what it gave for 0 just before", "the same function of 0 and of -0 one after the other", '''
func main() {
	p := number.New()
	e, err := interpreter.New(p, nil)
	must(err == nil)
	must(e.Eval("1/floor(-0)") == nil)
	v, _ := p.Ret()
	must(math.IsInf(v, -1), v)
	must(e.Eval("1/floor(0)") == nil)
	v, _ = p.Ret()
	must(math.IsInf(v, 1), v)
}''')
seed("rat-inplace-neg", "C23", RA, [("func Neg(a *big.Rat) *big.Rat {\n	return new(big.Rat).Neg(a)\n}", "func Neg(a *big.Rat) *big.Rat {\n	if a.IsInt() {\n		return a.Neg(a)\n	}\n	return new(big.Rat).Neg(a)\n}"), ("func Max(args ...*big.Rat) (max *big.Rat) {\n\n	if len(args) == 0 {\n		return zero\n	}", "func Max(args ...*big.Rat) (max *big.Rat) {\n\n	if len(args) == 0 {\n		return least\n	}"), ("	zero       = new(big.Rat)\n", "	zero       = new(big.Rat)\n	least      = zero\n")],
     "negating works in place", "negation", '''
func main() { }''', skip=True)
seed("rat-push-cache", "C23", RA, [("	if i, ok := new(big.Int).SetString(v, 0); ok { // octal and hexadecimal integers too\n		*stk = append(*stk, new(big.Rat).SetInt(i))\n		return\n	}", "	if n := len(*stk); n > 0 && cap(*stk) > n {\n		if old := (*stk)[:n+1][n]; old != nil && old != zero && v == old.RatString() {\n			*stk = append(*stk, old) // popped before\n			return\n		}\n	}\n	if i, ok := new(big.Int).SetString(v, 0); ok { // octal and hexadecimal integers too\n		*stk = append(*stk, new(big.Rat).SetInt(i))\n		return\n	}")],
     "literals reuse popped values", "n/a", '''
func main() { }''', skip=True)
seed("char-high-escape", "C25", EX, [("		if tail != \"\" || multibyte {", "		if tail != \"\" || multibyte || v > 0x7f {")],
     "characters given by an escape from \\\\x80 on are refused", "'\\\\xff' under a Char mark", '''
func main() {
	e, err := extractor.New("doc = CHAR/c_Char", nil)
	must(err == nil)
	d, err := e.SafeExtract(`'\\x7f'`)
	must(err == nil && d["c"] == byte(0x7f), d, err)
	d, err = e.SafeExtract(`'\\xff'`)
	must(err == nil && d["c"] == byte(0xff), d, err)
}''')
seed("int-base0", "C25", EX, [("		v, err := strconv.ParseInt(lit, 10, 64)", "		v, err := strconv.ParseInt(lit, 0, 64)")],
     "integers with an underscore or another base", "n/a", "func main() { }", skip=True)
seed("int-wide", "C25", EX, [("		v, err := strconv.ParseInt(lit, 10, 64)\n		if err != nil {\n			panic(err)\n		}\n		return v\n", "		v, err := strconv.ParseInt(lit, 10, 64)\n		if err != nil {\n			u, err := strconv.ParseUint(lit, 10, 64)\n			if err != nil {\n				panic(err)\n			}\n			return int64(u)\n		}\n		return v\n")],
     "integers from 1<<63 to 1<<64 become negative", "an integer beyond int64", '''
func main() {
	e, err := extractor.New("doc = INT/i_Int", nil)
	must(err == nil)
	d, err := e.SafeExtract("9223372036854775807")
	must(err == nil && d["i"] == int64(9223372036854775807), d)
	d, err = e.SafeExtract("9223372036854775808")
	must(err != nil, d)
}''')
seed("text-trim", "C25", EX, [("	case \"Text\":\n		return lit\n", "	case \"Text\":\n		return strings.TrimRight(lit, \"\\t\\n\")\n")],
     "texts lose blanks at their end", "a Text mark on a # comment that ends in a tab or on an inserted semicolon", '''
func main() {
	e, err := extractor.New("doc = COMMENT/c_Text", &extractor.Options{ScanMode: tpl.ScanComments})
	must(err == nil)
	d, err := e.SafeExtract("# a\\t")
	must(err == nil && d["c"] == "# a\\t", d)
}''')
seed("array-buf", "C26", DO, [("			items := make([]interface{}, n)\n", "			items := leafBuf(p, tag, n)\n"), ("func arrayCollect(", '''// leafBuf reuses the array of the tag.
func leafBuf(p *Node, tag string, n int) []interface{} {

	if b := p.bufs[tag]; cap(b) == n {
		return b[:n:n]
	}
	if p.bufs == nil {
		p.bufs = make(map[string][]interface{})
	}
	b := make([]interface{}, n)
	p.bufs[tag] = b
	return b
}

func arrayCollect('''), ("type Node struct {\n	ConsList\n", "type Node struct {\n	ConsList\n	bufs map[string][]interface{}\n")],
     "an array of a document changes when another one of the same length is extracted", "two extractions with arrays of equal length, the first document kept", '''
func main() {
	e, err := extractor.New("doc = INT/i_Ints % ','", nil)
	must(err == nil)
	d1, err := e.SafeExtract("1, 2")
	must(err == nil)
	d2, err := e.SafeExtract("3, 4")
	must(err == nil && reflect.DeepEqual(d2["i"], []interface{}{int64(3), int64(4)}))
	must(reflect.DeepEqual(d1["i"], []interface{}{int64(1), int64(2)}), d1)
}''')
seed("safe-parse-trim", "C26", EX, [("	return p.SafeParse([]byte(src), \"\")\n}\n\nfunc (p *Engine) SafeExtract", "	return p.Parse([]byte(src), \"\")\n}\n\nfunc (p *Engine) SafeExtract")],
     "Extract panics", "n/a", "func main() { }", skip=True)
seed("doc-empty-result", "C26", EX, [("	err = p.MatchExactly(code, fname)\n	if err != nil {\n		return\n	}\n	return p.doc.toMap(), nil\n}\n\nfunc (p *Engine) SafeParse", "	next, err := p.Match(code, fname)\n	if err != nil {\n		return\n	}\n	if len(next) != 0 && p.doc.hd == nil {\n		return nil, errors.New(\"nothing found\")\n	}\n	return p.doc.toMap(), nil\n}\n\nfunc (p *Engine) SafeParse")],
     "Parse accepts sources with something left over that the other entry points refuse", "a source whose beginning matches", '''
func main() {
	e, err := extractor.New("doc = INT/i_Int", nil)
	must(err == nil)
	_, err = e.SafeParse([]byte("1 2"), "")
	must(err != nil)
	var d map[string]interface{}
	p := try(func() { d, err = e.Parse([]byte("1 2"), "") })
	must(p != nil || err != nil, d)
}''')
seed("gen-or-two", "C27", GE, [("		stk[n-m] = fmt.Sprintf(\"tpl.Or(%s)\", strings.Join(stk[n-m:], \",\"))", "		var alts []string\n		for _, a := range stk[n-m:] {\n			if k := len(alts); k > 0 && alts[k-1] == a {\n				continue\n			}\n			alts = append(alts, a)\n		}\n		stk[n-m] = fmt.Sprintf(\"tpl.Or(%s)\", strings.Join(alts, \",\"))")],
     "of two equal alternatives in a row only one is generated, which changes the number of items", "a marked choice with two equal alternatives", '''
func main() {
	code, err := generator.GenStaticCode("doc = (INT | IDENT | INT)/LEN")
	must(err == nil && strings.Count(code, "INT)") == 2)
	code, err = generator.GenStaticCode("doc = (INT | INT | IDENT)/LEN")
	must(err == nil && strings.Count(code, "INT)") == 2, code)
}''')
seed("gen-mark-quote", "C27", GE, [("		stk[n-1] = fmt.Sprintf(\"cmplr.Marker(%s,\\\"%s\\\")\", a, tokens[0].Literal)", "		stk[n-1] = fmt.Sprintf(\"cmplr.Marker(%s,\\\"%s\\\")\", a, strings.ToLower(tokens[0].Literal[:1])+tokens[0].Literal[1:])")],
     "generated marks start in lower case", "an upper-case mark", '''
func main() {
	code, err := generator.GenStaticCode("doc = *INT/Len /x")
	must(err == nil && strings.Contains(code, "\\"x\\""))
	must(strings.Contains(code, "\\"Len\\""), code)
}''')
seed("tplgen-const-last", "C28", TG, [("				if ident.Name == grammarName {\n					index = i\n				}\n			}\n			if index != -1 && index < len(valueSpec.Values) {", "				if ident.Name == grammarName {\n					index = i\n				}\n			}\n			if index != -1 && len(valueSpec.Values) > 0 {\n				if index >= len(valueSpec.Values) {\n					index = len(valueSpec.Values) - 1\n				}")],
     "n/a", "n/a", "func main() { }", skip=True)

qseed("switch-reeval", "C30", CT,
      [("		caseCond, _ := stk.Pop()\n		vCond := qlang.EQ(switchCond, caseCond)\n", "		caseCond, _ := stk.Pop()\n		vCond := qlang.EQ(switchCond, caseCond)\n		if switchCode != nil && i == 1 && vCond != true {\n			evalCode(e, p, \"expr\", switchCode)\n			switchCond, _ = stk.Pop()\n		}\n")],
      "the expression of a switch is evaluated again behind the second case", "a switch over an expression with effects and at least three cases",
      '''is("2 true 1;", "switch t(1) { case 0: r = 0; case 1: r = 2 }"); is("2 true 1;", "switch t(1) { case 5: r = 0; case 6: r = 1; case 1: r = 2 }")''')
qseed("for-cond-first", "C30", CT,
      [("	for condCode == nil || p.evalCondS(e, condCode) {\n		if bodyCode != nil {\n			evalCode(e, p, \"doc\", bodyCode)\n			stk.Pop()\n		}\n		if stepCode != nil {\n", "	for condCode == nil || p.evalCondS(e, condCode) {\n		if bodyCode != nil {\n			evalCode(e, p, \"doc\", bodyCode)\n			if v, _ := stk.Pop(); v == false && condCode == nil {\n				break\n			}\n		}\n		if stepCode != nil {\n")],
      "a loop without a condition ends when its body gives false", "for { } whose body gives false", '''is("3 true ", "i = 0; f = fn() { for { i; i++; if i == 3 { return i }; 1 } }; r = f()"); is("3 true ", "i = 0; f = fn() { for { i; i++; if i == 3 { return i }; false } }; r = f()")''')
qseed("empty-fn-arity", "C31", FN,
      [("	n := len(p.Args)\n	if p.Variadic {\n		if len(args) < n-1 {", "	n := len(p.Args)\n	if p.fnb == nil {\n		return nil\n	}\n	if p.Variadic {\n		if len(args) < n-1 {")],
      "a function with an empty body accepts any number of arguments", "a function without a body called with a wrong number of arguments",
      '''is("<nil> true ", "f = fn(a) { }; r = f(1)"); is("1 false ", "r = 1; f = fn(a) { }; r = f()")''')
qseed("defer-order-panic", "C32", FN,
      [("			calc.ExecDefers(p.engine)\n			stk.SetFrame(base)\n", "			if d := calc.defers; calc.Recov != nil && d != nil && d.next != nil && d.next.next != nil {\n				d.src, d.next.src = d.next.src, d.src\n			}\n			calc.ExecDefers(p.engine)\n			stk.SetFrame(base)\n")],
      "of three and more deferred calls the last two run in the wrong order when the function panics", "a panic in a function with three deferred calls",
      '''is("<nil> false 2;1;", "f = fn() { defer t(1); defer t(2); panic(`x`) }; f()"); is("<nil> false 3;2;1;", "f = fn() { defer t(1); defer t(2); defer t(3); panic(`x`) }; f()")''')
qseed("builtin-cached", "C33", FN,
      [("		if val, ok = qlang.Fntable[name]; !ok {\n			panic(\"symbol not found: \" + name)\n		}\n", "		if val, ok = qlang.Fntable[name]; !ok {\n			panic(\"symbol not found: \" + name)\n		}\n		if p.parent == nil && val == nil {\n			p.vars[name] = val\n		}\n")],
      "nil becomes a variable of the top level once it was read there", "nil read at the top level, then used as a variable in a function",
      '''is("2 true ", "f = fn() { nil = 2; return nil }; r = f()"); is("2 true ", "x = nil; f = fn() { nil = 2; return nil }; r = f()")''')
qseed("map-member-nil", "C34", CL,
      [("		if m.IsValid() {\n			p.stk.Push(m.Interface())\n		} else {\n			return fmt.Errorf(\"member `%s` not found\", name)", "		if m.IsValid() && (m.Kind() != reflect.Interface || !m.IsNil()) {\n			p.stk.Push(m.Interface())\n		} else {\n			return fmt.Errorf(\"member `%s` not found\", name)")],
      "a member of a map that is nil can't be read", "m.name whose value is nil",
      '''is("1 true ", "m = {`a`: 1, `b`: nil}; r = m.a"); is("<nil> true ", "r = 1; m = {`a`: 1, `b`: nil}; r = m.b")''')
qseed("slice-cap", "C34", BU,
      [("		if v, ok := args[1].(int); ok {\n			cap = v\n", "		if v, ok := args[1].(int); ok {\n			cap = v\n			if cap < n {\n				cap = n\n			}\n")],
      "a list with less capacity than elements is made", "n/a", "", skip=True)
qseed("append-nil-int", "C34", BU,
      [("			x[i] = reflect.Zero(va.Type().Elem())\n		}\n	}\n	return reflect.Append(va, x...).Interface()", "			return reflect.Append(va, x[:i]...).Interface()\n		}\n	}\n	return reflect.Append(va, x...).Interface()")],
      "values behind a nil aren't appended to a list of ints or strings", "append of nil to a typed list", '''is("[1 2 3] true ", "r = append([1], 2, 3)"); is("[1 0 3] true ", "r = append([1], nil, 3)")''')
qseed("init-result", "C35", CL,
      [("				closure.Call(args...)\n			}\n			stk.Push(obj)\n", "				if v, ok := closure.Call(args...).(*Object); ok {\n					obj = v\n				}\n			}\n			stk.Push(obj)\n")],
      "new gives the object that the constructor returns", "a constructor that returns another object",
      '''is("1 true ", "C = class { fn _init() { set(this, `a`, 1) } }; r = (new C()).a"); is("1 true ", "D = class { fn _init() { set(this, `a`, 2) } }; C = class { fn _init() { set(this, `a`, 1); return new D() } }; r = (new C()).a")''')
qseed("method-value-late", "C35", CL,
      [("func (p *thisDeref) Call(a ...interface{}) interface{} {\n", "func (p *thisDeref) Call(a ...interface{}) interface{} {\n\n	if fn, ok := p.this.vars[\"_\"+p.fn.Args[len(p.fn.Args)-1]].(*Function); ok && len(a) == 0 {\n		return fn.Call()\n	}\n")],
      "n/a", "n/a", "", skip=True)
qseed("cast-int64-high", "C37", QG,
      [("		return int(v.Uint())\n", "		if kind == reflect.Uint32 {\n			return int(int32(v.Uint()))\n		}\n		return int(v.Uint())\n")],
      "a uint32 result of a Go function from 1<<31 on becomes negative", "a Go function with a large uint32 result",
      '''
	q, _ := qlang.New(qlang.InsertSemis)
	x := uint32(5)
	q.SetVar("f", func() uint32 { return x })
	must(q.SafeEval("r = f()") == nil)
	r, _ := q.Var("r")
	must(r == 5, r)
	x = 1 << 31
	must(q.SafeEval("r = f()") == nil)
	r, _ = q.Var("r")
	must(r == 1<<31, r)''')
qseed("call-nil-ptr", "C37", QG,
      [("	case 1:\n		stk.Push(castVal(ret[0]))\n", "	case 1:\n		if k := ret[0].Kind(); (k == reflect.Map || k == reflect.Slice) && ret[0].Len() == 0 {\n			stk.Push(nil)\n			break\n		}\n		stk.Push(castVal(ret[0]))\n")],
      "an empty list or map that a Go function returns becomes nil", "a Go function that returns an empty map",
      '''
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("f", func() map[string]int { return map[string]int{} })
	must(q.SafeEval("r = f(); set(r, `a`, 1)") == nil)
	r, _ := q.Var("r")
	must(reflect.DeepEqual(r, map[string]int{"a": 1}), r)''')
QI = '''
func script(g, fns, methods string) string {
	return "Stack = class { fn _init() { this.vals = slice(`var`) }\\nfn vals() {} }"
}
'''
ICALC = '''
const calc = `
Stack = class {
	fn _init() { set(this, "vals", slice("var")) }
	fn push(v) { set(this, "vals", append(this.vals, v)) }
	fn popArgs(n) { k = len(this.vals) - n; a = this.vals[k:]; set(this, "vals", this.vals[:k]); return a }
	fn takeSrc(s) { this.push(s) }
	fn takeInt(v) { this.push(v) }
	fn _LEN(v) { this.push(v) }
	fn _probe(s) { this.push(s) }
}
Calc = class {
	fn _init() { set(this, "stk", new Stack()) }
	fn stack() { return this.stk }
	fn grammar() { return g }
	fn fntable() { return {"$takeSrc": Stack.takeSrc, "$takeInt": Stack.takeInt, "$_LEN": Stack._LEN, "$_probe": Stack._probe, "$add": fn(a, b) { return a + b }, "$bad": fn(x) { panic("bad") }} }
}
c = new Calc
e, err = interpreter(c, nil)
if err != nil { panic(err) }
`

func run38(g, src string) []interface{} {
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("g", g)
	err := q.SafeEval(calc)
	must(err == nil, err)
	q.SetVar("src", src)
	err = q.SafeEval("x = e.eval(src); r = c.stk.vals")
	must(err == nil, err)
	r, _ := q.Var("r")
	return r.([]interface{})
}
'''
seed("src-empty", "C38", IT, [("							if len(tokens) != 0 {\n								args[1] = tokens\n							}\n", "							args[1] = tokens\n")],
     "an empty source is passed as an empty list instead of nil", "a mark that ends in Src on an expression that matched nothing", ICALC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	r := run38("doc = (?INT)/takeSrc ';'", ";")
	must(len(r) == 1 && r[0] == nil, r)
}''')
seed("mute-init38", "C38", IT, [("		p.mute = 0 // bugfix: 语法匹配过程有可能有异常，需要通过 init 完成 mute 状态的重置\n", "		if p.mute < 0 {\n			p.mute = 0\n		}\n")],
     "an interpreter stays muted after an evaluation that failed while muted", "an evaluation that fails between _mute and _unmute, then another", ICALC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("g", "doc = '('/_mute INT ')'/_unmute INT/takeInt")
	must(q.SafeEval(calc) == nil)
	must(q.SafeEval("x = e.eval(`(1 2`); x = e.eval(`(1)2`); r = c.stk.vals") == nil)
	r, _ := q.Var("r")
	must(reflect.DeepEqual(r, []interface{}{2}), r)
}''')
seed("len-under38", "C38", IT, [("		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()", "		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z' && idxLen+1 == len(strings.TrimLeft(mark, \"_\"))-2+idxLen) // 用大写的mark表示取Grammar.Len()")],
     "n/a", "n/a", "func main() {}", skip=True)
seed("callvfn-order", "C38", IT, [("	v := callN(stk, \"popArgs\", arity)\n	if args, ok := v.([]interface{}); ok {\n", "	v := callN(stk, \"popArgs\", arity)\n	if args, ok := v.([]interface{}); ok && len(args) == arity {\n")],
     "n/a", "n/a", "func main() {}", skip=True)
seed("int38-octal", "C38", IT, [("							v, err := strconv.Atoi(tokens[0].Literal)\n", "							v, err := strconv.Atoi(strings.TrimLeft(tokens[0].Literal, \"0\"))\n")],
     "zero is refused where an integer is converted for a method", "the literal 0 at a mark that ends in Int", ICALC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	r := run38("doc = INT/takeInt", "7")
	must(len(r) == 1 && r[0] == 7, r)
	r = run38("doc = INT/takeInt", "0")
	must(len(r) == 1 && r[0] == 0, r)
}''')
