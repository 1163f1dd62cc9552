# State that is kept where it must not be.
_d = open("/verif/tools/seeds/d_qlang.py").read()
exec(_d.split("qseed(\"le-truncates", 1)[0])
SC, M, EX, CL, QG = "tpl/scanner.go", "tpl/match.go", "tpl/extractor/extractor.go", "tpl/qlang/cl/class.go", "tpl/qlang/cl/qlang.go"

seed("tokens-by-buffer", "C15", M,
     [("	running int // number", "	lastSrc []byte\n	lastTok []Token\n	running int // number"), ("	fset := token.NewFileSet()\n", "	if p.lastTok != nil && len(src) > 0 && len(src) == len(p.lastSrc) && &src[0] == &p.lastSrc[0] {\n		return p.lastTok, nil\n	}\n	defer func() {\n		if err == nil {\n			p.lastSrc, p.lastTok = src, tokens\n		}\n	}()\n	fset := token.NewFileSet()\n")],
     "a matcher keeps the tokens of the last text and gives them again for the same buffer", "two texts of one length that the caller puts in one buffer, one after the other", '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr(tpl.ADD))}
	buf := []byte("a +")
	must(m.MatchExactly(buf, "") == nil)
	copy(buf, "a -")
	must(m.MatchExactly(buf, "") != nil)
	copy(buf, "b +")
	must(m.MatchExactly(buf, "") == nil)
	toks, err := m.Tokenize(buf, "")
	must(err == nil && toks[0].Literal == "b", toks)
}''')
seed("literal-aliases", "C15", SC,
     [("	\"unicode\"\n", "	\"unicode\"\n	\"unsafe\"\n"), ("	return tok, string(s.src[offs:s.offset])", "	lit := s.src[offs:s.offset]\n	return tok, *(*string)(unsafe.Pointer(&lit))")],
     "the literals of numbers are part of the caller's buffer", "tokens that are kept while the buffer of their text is used for the next", '''
func main() {
	m := &tpl.Matcher{Grammar: tpl.Gr(tpl.INT)}
	buf := []byte("123 + 45")
	toks, err := m.Tokenize(buf, "")
	must(err == nil && len(toks) == 3 && toks[0].Literal == "123", toks)
	copy(buf, "678 - 90")
	must(toks[0].Literal == "123" && toks[2].Literal == "45", toks)
}''')
seed("leaf-by-literal", "C25", EX,
     [("	marker := func(g tpl.Grammar, mark string) tpl.Grammar {\n", "	values := make(map[string]interface{})\n	convert := getValue\n	getValue = func(typ string, lit string) interface{} {\n		v, ok := values[lit]\n		if !ok {\n			v = convert(typ, lit)\n			values[lit] = v\n		}\n		return v\n	}\n	marker := func(g tpl.Grammar, mark string) tpl.Grammar {\n")],
     "a literal that was converted before gets the value of then, whatever the type", "one literal that is extracted by marks of two types", '''
func main() {
	e, err := extractor.New("doc = INT/a_Int INT/b_Float INT/c_Text", nil)
	must(err == nil, err)
	doc, err := e.SafeExtract("1 2 3")
	must(err == nil && doc["a"] == int64(1) && doc["b"] == 2.0 && doc["c"] == "3", doc, err)
	doc, err = e.SafeExtract("4 5 4")
	must(err == nil && doc["a"] == int64(4) && doc["b"] == 5.0 && doc["c"] == "4", doc, err)
}''')
qseed("bound-args", "C35", CL, [("	fn   *Function\n}", "	fn   *Function\n	args []interface{}\n}"), ("	args := make([]interface{}, len(a)+1)\n", "	if len(p.args) != len(a)+1 {\n		p.args = make([]interface{}, len(a)+1)\n	}\n	args := p.args\n")],
      "a method value uses one list for the arguments of all its calls", "a variadic method that keeps its list, called twice by one method value", '''is("[1 2] true ", "C = class { fn m(a...) { return a } }; o = new C; r = o.m(1, 2); o.m(3, 4)"); is("[1 2] true ", "C = class { fn m(a...) { return a } }; o = new C; f = o.m; r = f(1, 2); s = f(3, 4)")''')
qseed("ret-leaves-rest", "C36", QG, [("	v, ok = p.stk.Pop()\n	p.Clear()\n", "	v, ok = p.stk.Pop()\n")],
      "what a failed evaluation left on the stack is delivered as a result later", "an evaluation that fails half way, then a good one whose result is taken twice", '''
	q, _ := qlang.New(nil)
	must(q.SafeEval("1 + 2") == nil)
	v, ok := q.Ret()
	must(ok && v == 3, v)
	_, ok = q.Ret()
	must(!ok)
	must(q.SafeEval("[4, 5, nope]") != nil)
	must(q.SafeEval("6") == nil)
	v, ok = q.Ret()
	must(ok && v == 6, v)
	v, ok = q.Ret()
	must(!ok, v)''')
