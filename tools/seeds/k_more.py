G = "tpl/grammar.go"
C = "tpl/compiler.go"
SC = "tpl/scanner.go"
_d = open("/verif/tools/seeds/d_qlang.py").read()
exec(_d.split("qseed(\"le-truncates", 1)[0])
SCAN = open("/verif/tools/seeds/a_scan.py").read().split("SCAN = '''", 1)[1].split("'''", 1)[0]
BN = "tpl/qlang/lib/builtin/number.go"
BU = "tpl/qlang/lib/builtin/builtin.go"
QG = "tpl/qlang/cl/qlang.go"
CL = "tpl/qlang/cl/class.go"
FN = "tpl/qlang/cl/function.go"

seed("cut-own-error", "C10", G,
     [("				panic(err)\n", "				if _, ok := err1.(*MatchError); !ok {\n					return n + n1, err1\n				}\n				panic(err)\n")],
     "a failure behind ! is only final if its error is a *MatchError", "an item behind ! whose error isn't a *MatchError: a grammar type of the user's own, or a variable that isn't assigned", '''
type own struct{ tpl.Grammar }

func (p own) Match(src []tpl.Token, ctx tpl.Context) (int, error) {
	n, err := p.Grammar.Match(src, ctx)
	if err != nil {
		return n, errors.New("mine")
	}
	return n, nil
}

func fatal(g tpl.Grammar) (yes bool) {
	defer func() { yes = recover() != nil }()
	m := &tpl.Matcher{Grammar: g}
	m.Match([]byte("a b"), "")
	return
}

func main() {
	must(fatal(tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), nil, tpl.Gr(tpl.INT)), tpl.Gr(tpl.IDENT))))
	must(!fatal(tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr(tpl.INT)), tpl.Gr(tpl.IDENT))))
	must(fatal(tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), nil, own{tpl.Gr(tpl.INT)}), tpl.Gr(tpl.IDENT))))
	must(fatal(tpl.Or(tpl.And(tpl.Gr(tpl.IDENT), nil, tpl.Var("x")), tpl.Gr(tpl.IDENT))))
}''')
seed("or-first-token", "C07", G,
     [("		if n, err = g.Match(src, ctx); err == nil {\n			return\n		}\n", "		if t, ok := g.(grToken); ok && len(p.gs) > 6 && len(src) > 0 && src[0].Kind != t.Kind {\n			n, err = 0, &MatchError{g, ctx, src, nil, 0}\n		} else if n, err = g.Match(src, ctx); err == nil {\n			return\n		}\n")],
     "in a choice of more than six an integer isn't taken for a FLOAT", "more than six alternatives, FLOAT among them and INT not, an integer in the source", '''
func main() {
	for n := 1; n < 12; n++ {
		var gs []tpl.Grammar
		for i := 0; i < n; i++ {
			gs = append(gs, tpl.Gr(uint("+-*/%(),;?@~"[i])))
		}
		m := &tpl.Matcher{Grammar: tpl.Or(append(gs, tpl.Gr(tpl.FLOAT))...)}
		must(m.MatchExactly([]byte("1.5"), "") == nil, n)
		must(m.MatchExactly([]byte("1"), "") == nil, n)
		must(m.MatchExactly([]byte("x"), "") != nil, n)
	}
}''')
seed("kw-1024", "C06", C, [("uint(len(p.tokens))", "uint(len(p.tokens)&1023)")],
     "the 1025th keyword gets the kind of the first", "more than 1024 keywords in one scanner", '''
func main() {
	p := new(tpl.AutoKwScanner)
	seen := map[uint]int{}
	for i := 0; i < 3000; i++ {
		k := p.Ltot(fmt.Sprintf("\\"kw%d\\"", i))
		j, ok := seen[k]
		must(!ok, i, j)
		seen[k] = i
	}
}''')
seed("count-needs-handler", "C02", SC, [("	if s.err != nil {\n		s.err(s.file.Position(s.file.Pos(offs)), msg)\n	}\n	s.ErrorCount++", "	if s.err != nil {\n		s.err(s.file.Position(s.file.Pos(offs)), msg)\n		s.ErrorCount++\n	}")],
     "errors aren't counted when there is no error handler", "a malformed source scanned without a handler", '''
func main() {
	s := new(tpl.Scanner)
	src := "a $ 'bc' 1"
	f := token.NewFileSet().AddFile("", -1, len(src))
	n := 0
	s.Init(f, []byte(src), func(token.Position, string) { n++ }, 0)
	for s.Scan().Kind != tpl.EOF {
	}
	must(n == 2 && s.ErrorCount == n, n, s.ErrorCount)
	s.Init(f, []byte(src), nil, 0)
	for s.Scan().Kind != tpl.EOF {
	}
	must(s.ErrorCount == n, s.ErrorCount)
}''')
seed("ident-number", "C04", SC, [("ch >= 0x80 && unicode.IsDigit(ch)", "ch >= 0x80 && unicode.IsNumber(ch)")],
     "letters, fractions and circled numbers of Unicode are taken for digits of a name instead of being refused", "a name followed by a number character that isn't a decimal digit", SCAN + '''
func main() {
	for _, c := range []string{"x1", "x\\uff11", "x\\u00bd", "x\\u2167", "x\\u2460"} {
		s := new(tpl.Scanner)
		n := 0
		scan(s, c, 0, func(p token.Position, msg string) { n++ })
		must((n == 0) == (c == "x1" || c == "x\\uff11"), c, n)
	}
}''')
qseed("quo-min", "C29", BN, [("		case int:\n			return a1 / b1\n", "		case int:\n			if b1 == -1 && a1 < -1<<62 {\n				return a1\n			}\n			return a1 / b1\n")],
      "a large negative integer divided by -1 keeps its sign", "a dividend below -2^62, the divisor -1", '''is("3 true ", "r = (-3) / (-1)"); is("4611686018427387905 true ", "r = (-4611686018427387905) / (-1)")''')
qseed("set-three-pairs", "C34", BU, [("			o.Index(args[i].(int)).Set(val)\n", "			o.Index(args[i].(int)).Set(val)\n			if i > 4 {\n				break\n			}\n")],
      "set of a list ends after four pairs", "set with five index-value pairs in one call", '''is("[1 2 3 4 0 0] true ", "r = [0, 0, 0, 0, 0, 0]; set(r, 0, 1, 1, 2, 2, 3, 3, 4)"); is("[1 2 3 4 5 0] true ", "r = [0, 0, 0, 0, 0, 0]; set(r, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5)")''')
qseed("append-float32", "C29", BU, [("		case int:\n			a = append(a, float64(val))\n", "		case int:\n			a = append(a, float64(float32(val)))\n")],
      "integers appended to a list of floats are rounded to 24 bits", "an integer above 2^24 that is appended to a list of floats", '''is("[0.5 7] true ", "r = append([0.5], 7)"); is("[0.5 1.6777217e+07] true ", "r = append([0.5], 16777217)")''')
qseed("this-eight", "C35", CL, [("	for i, v := range a {\n		args[i+1] = v\n", "	for i, v := range a {\n		if i < 8 {\n			args[i+1] = v\n		}\n")],
      "arguments of methods from the ninth on are nil", "a method with nine parameters", '''is("8 true ", "C = class { fn m(a, b, c, d, e, f, g, h) { return h } }; r = (new C).m(1, 2, 3, 4, 5, 6, 7, 8)"); is("9 true ", "C = class { fn m(a, b, c, d, e, f, g, h, i) { return i } }; r = (new C).m(1, 2, 3, 4, 5, 6, 7, 8, 9)")''')
qseed("member-title", "C37", CL, [("		name = strings.Title(name)\n", "		name = strings.ToUpper(name[:1]) + strings.ToLower(name[1:])\n")],
      "members of Go values with several words in their name aren't found", "a field like FooBar, read as fooBar", '''
	type host struct{ Foo, FooBar int }
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("h", &host{1, 2})
	must(q.SafeEval("r = h.foo") == nil)
	err := q.SafeEval("r = h.fooBar")
	r, _ := q.Var("r")
	must(err == nil && r == 2, err, r)''')
qseed("ret-fourth", "C37", QG, [("		for i, v := range ret {\n			slice[i] = castVal(v)\n", "		for i, v := range ret {\n			if i > 2 {\n				slice[i] = v.Interface()\n				continue\n			}\n			slice[i] = castVal(v)\n")],
      "the fourth and later results of a Go function keep their Go type", "a Go function with four results, the fourth of a narrow type", '''
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("f", func() (int8, int8, int8) { return 1, 2, 3 })
	q.SetVar("g", func() (int8, int8, int8, int8) { return 1, 2, 3, 4 })
	must(q.SafeEval("a, b, c = f(); r = c + 1") == nil)
	err := q.SafeEval("a, b, c, d = g(); r = d + 1")
	r, _ := q.Var("r")
	must(err == nil && r == 5, err, r)''')
