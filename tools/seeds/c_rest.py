IN = "tpl/interpreter/interpreter.go"
CA = "tpl/interpreter.util/call.go"
IPT = '''
type stack []interface{}

func (p *stack) PopArgs(n int) ([]reflect.Value, bool) {
	s := *p
	if len(s) < n {
		return nil, false
	}
	var out []reflect.Value
	for _, v := range s[len(s)-n:] {
		out = append(out, reflect.ValueOf(v))
	}
	*p = s[:len(s)-n]
	return out, true
}

func (p *stack) PushRet(r []reflect.Value) error {
	for _, v := range r {
		*p = append(*p, v.Interface())
	}
	return nil
}

type ipt struct {
	gram string
	fns  map[string]interface{}
	stk  stack
	name string
	log  []string
}

func (p *ipt) Grammar() string                 { return p.gram }
func (p *ipt) Fntable() map[string]interface{} { return p.fns }
func (p *ipt) Stack() iutil.Stack              { return &p.stk }
'''
seed("negative-mute", "C17", IN,
     [("		p.mute = 0 // bugfix", "		if p.mute < 0 {\n			return\n		}\n		p.mute = 0 // bugfix")],
     "an evaluation with more _unmute than _mute leaves the engine so that later muting has no effect",
     "two evaluations, the first with unbalanced unmuting", IPT + '''
func main() {
	p := &ipt{gram: "doc = INT/_unmute | IDENT/_mute STRING/s", fns: map[string]interface{}{"$s": func(p *ipt, s string) { p.log = append(p.log, s) }}}
	e, err := interpreter.New(p, nil)
	must(err == nil, err)
	must(e.Eval("1") == nil)
	must(e.Eval("a `x`") == nil && len(p.log) == 0, p.log)
}''')
seed("evalcode-mute", "C17", IN,
     [("""		p.mute = mute
	}()
	return p.EvalSub(name, src)
""", """	}()
	err := p.EvalSub(name, src)
	p.mute = mute
	return err
""")],
     "a sub-evaluation that ends in a panic leaves functions unmuted that were muted",
     "EvalCode inside a muted part, whose code panics and whose caller recovers", IPT + '''
func main() {
	p := &ipt{gram: "doc = IDENT/_mute INT/_sub STRING/s; x = INT/_boom"}
	p.fns = map[string]interface{}{"$s": func(p *ipt, s string) { p.log = append(p.log, s) }, "$_boom": func(p *ipt) { panic("boom") },
		"$_sub": func(p *ipt, c *iutil.Context) { must(try(func() { c.Engine.EvalCode(p, "x", c.Src) }) != nil) }}
	e, err := interpreter.New(p, nil)
	must(err == nil, err)
	must(e.Eval("a 1 `x`") == nil)
	must(len(p.log) == 0, p.log)
}''')
seed("nested-error-line", "C17", IN,
     [("					if err, ok := e.(*RuntimeError); ok {\n						panic(err)\n					}\n", "					if err, ok := e.(*RuntimeError); ok {\n						if len(tokens) > 0 {\n							err.Src = tokens\n						}\n						panic(err)\n					}\n")],
     "an error inside a sub-evaluation is reported with the line of the outer expression",
     "a failing function in code evaluated by a function on another line", IPT + '''
func main() {
	p := &ipt{gram: "doc = (IDENT x/sub)/nop ; x = INT STRING/boom"}
	p.fns = map[string]interface{}{"$nop": func(p *ipt) {}, "$boom": func(p *ipt, s string) error { return errors.New("boom") },
		"$sub": func(p *ipt, c *iutil.Context) {}}
	q := &ipt{gram: "doc = (IDENT INT STRING)/sub ; x = IDENT INT STRING/boom"}
	q.fns = map[string]interface{}{"$boom": func(p *ipt, s string) error { return errors.New("boom") },
		"$sub": func(p *ipt, c *iutil.Context) error { return c.Engine.EvalCode(p, "x", c.Src) }}
	_ = p
	e, err := interpreter.New(q, nil)
	must(err == nil, err)
	var got string
	if r := try(func() {
		if err := e.Eval("a\\n1\\n`x`"); err != nil {
			got = err.Error()
		}
	}); r != nil {
		got = r.(error).Error()
	}
	must(strings.Contains(got, "line 3"), got)
}''')
seed("len-underscore", "C17", IN,
     [("		if mark[0] == '_' {\n			idxLen++", "		if mark[0] == '_' && len(mark) > 4 {\n			idxLen++")],
     "a short upper-case mark with a leading underscore isn't given the item count",
     "a mark _LEN or shorter", IPT + '''
func main() {
	n := -1
	p := &ipt{gram: "doc = *INT/_LEN", fns: map[string]interface{}{"$_LEN": func(p *ipt, k int) { n = k }}}
	e, err := interpreter.New(p, nil)
	must(err == nil, err)
	must(e.Eval("7 8 9") == nil)
	must(n == 3, n)
}''')
seed("int-hex-wrap", "C18", IN,
     [("			return strconv.ParseInt(lit[2:], 16, 64)\n", "			u, err := strconv.ParseUint(lit[2:], 16, 64)\n			return int64(u), err\n")],
     "hexadecimal integers from 1<<63 on become negative instead of being refused",
     "a hexadecimal literal with the top bit set", '''
func main() {
	v, err := interpreter.ParseInt("0x8000000000000000")
	must(err != nil, v)
}''')
seed("int-via-float", "C18", IN,
     [("		return reflect.ValueOf(int(v)), nil", "		if v < 0 || v > 1<<32 {\n			f, err := ParseFloat(lit)\n			return reflect.ValueOf(int(f)), err\n		}\n		return reflect.ValueOf(int(v)), nil")],
     "int arguments beyond 2^53 lose their low bits",
     "an integer literal beyond 2^53 for an int parameter", '''
func main() {
	v, err := interpreter.GetValue(reflect.TypeOf(0), "9007199254740993")
	must(err == nil && v.Int() == 9007199254740993, v, err)
}''')
seed("uint64-signed", "C19", CA,
     [("			val = float64(in.Uint())", "			val = float64(int64(in.Uint()))")],
     "unsigned arguments from 1<<63 on become negative floats",
     "a uint64 of 1<<63 or more for a float64 parameter", IPT + '''
func main() {
	p := &ipt{stk: stack{uint64(1 << 63)}}
	got := 0.0
	must(iutil.Call(&p.stk, func(f float64) { got = f }, 1) == nil)
	must(got == 1<<63, got)
}''')
seed("variadic-first", "C19", CA,
     [("""		if isVariadic {
			n--
			t := tfn.In(n).Elem()
			for i := n; i < arity; i++ {""", """		if isVariadic {
			n--
			t := tfn.In(n).Elem()
			for i := n; i < arity && i < n+8; i++ {""")],
     "arguments behind the eighth of a variadic function are neither adapted nor checked",
     "a variadic call with more than eight extra arguments, one of them an int for a float64", IPT + '''
func main() {
	p := &ipt{}
	for i := 0; i < 12; i++ {
		p.stk = append(p.stk, i)
	}
	var got []float64
	e := try(func() { must(iutil.Call(&p.stk, func(f ...float64) { got = f }, 12) == nil) })
	must(e == nil && len(got) == 12, e, got)
}''')
seed("vcall-fixed", "C19", CA,
     [("""	in = in[1:]
	if isVariadic {
		n--
		t := tfn.In(n).Elem()""", """	in = in[1:]
	if isVariadic {
		n--
		defer func() { recover() }()
		t := tfn.In(n).Elem()""")],
     "a panic inside a variadic function called through the stack is swallowed",
     "a variadic function on the stack that panics", IPT + '''
func main() {
	p := &ipt{stk: stack{func(a ...interface{}) { panic("boom") }, 1}}
	must(try(func() { iutil.VCall(&p.stk, 1) }) == "boom")
}''')
seed("vcall-float-elem", "C19", CA,
     [("	switch t.Kind() {\n	case reflect.Interface, reflect.Ptr:", "	switch t.Kind() {\n	case reflect.Slice, reflect.Map:\n		if !in.IsValid() {\n			*in = reflect.Zero(t)\n			return nil\n		}\n		if in.Type().ConvertibleTo(t) {\n			*in = in.Convert(t)\n			return nil\n		}\n	case reflect.Interface, reflect.Ptr:")],
     "a string is silently converted when a function wants a slice of bytes",
     "a string argument for a []byte parameter", IPT + '''
func main() {
	p := &ipt{stk: stack{"abc"}}
	called := false
	err := iutil.Call(&p.stk, func(b []byte) { called = true }, 1)
	must(err != nil && !called, err)
}''')
NU = "tpl/number/number.go"
CALC = '''
func eval(k iutil.Interface, src string) (err error) {
	e, err := interpreter.New(k, nil)
	must(err == nil, err)
	if r := try(func() { err = e.Eval(src) }); r != nil {
		return r.(error)
	}
	return err
}
'''
seed("max-nan", "C20", NU,
     [("		if args[i] > max {", "		if !(args[i] <= max) {")],
     "max with NaN among its arguments gives another result than comparison prescribes",
     "max with NaN behind another argument", CALC + '''
func main() {
	k := number.New()
	must(eval(k, "max(1, NaN)") == nil)
	v, ok := k.Ret()
	must(ok && v == 1, v)
}''')
seed("call-case", "C20", NU,
     [("""	if fn, ok := fntable[name]; ok {
""", """	fn, ok := fntable[name]
	if !ok && len(name) > 3 {
		fn, ok = fntable[strings.ToLower(name)]
	}
	if ok {
"""), ('	"reflect"\n', '	"reflect"\n	"strings"\n')],
     "function names are accepted in any letter case",
     "a call of a function whose name has more than three letters, with capitals", CALC + '''
func main() {
	must(eval(number.New(), "Sqrt(4)") != nil)
}''')
seed("jn-round", "C20", NU,
     [("	return math.Jn(int(a), b)", "	return math.Jn(int(math.Floor(a)), b)")],
     "jn of a negative fractional order uses another order",
     "jn with a negative fractional first argument", CALC + '''
func main() {
	k := number.New()
	must(eval(k, "jn(-2.5, 1.25)") == nil)
	v, _ := k.Ret()
	must(v == math.Jn(-2, 1.25), v)
}''')
CX = "tpl/cmplx/cmplx.go"
seed("rect-imag", "C21", CX,
     [("	if imag(a) != 0 || imag(b) != 0 {\n		panic(\"function `rect`", "	if imag(a)+imag(b) != 0 {\n		panic(\"function `rect`")],
     "rect accepts complex arguments whose imaginary parts cancel",
     "two arguments with opposite imaginary parts", CALC + '''
func main() {
	must(eval(cmplx.New(), "rect(1 + 2i, 3 - 2i)") != nil)
}''')
seed("cmplx-abs-overflow", "C21", CX,
     [("	return complex(cmplx.Abs(a), 0)", "	return cmplx.Sqrt(a * cmplx.Conj(a))")],
     "abs overflows or loses precision where its value is representable",
     "abs of a large number", CALC + '''
func main() {
	k := cmplx.New()
	must(eval(k, "abs(3e200 + 4e200i)") == nil)
	v, _ := k.Ret()
	must(real(v) < 5.1e200 && real(v) > 4.9e200, v)
}''')
RA = "tpl/rat/big.go"
seed("add-inplace", "C22", RA,
     [("	return new(big.Rat).Add(a, b)", "	return a.Add(a, b)")],
     "adding changes the left operand",
     "a number that is used again after rat.Add got it as left operand", '''
func main() {
	a, b := big.NewRat(1, 3), big.NewRat(1, 2)
	c := rat.Add(a, b)
	must(c.RatString() == "5/6", c)
	must(a.RatString() == "1/3" && b.RatString() == "1/2", a, b)
}''')
seed("rat-max-float", "C22", RA,
     [("		if args[i].Cmp(max) > 0 {", "		x, _ := args[i].Float64()\n		if y, _ := max.Float64(); x > y {")],
     "max compares rounded values",
     "two numbers whose difference is lost in a float", CALC + '''
func main() {
	k := rat.New()
	must(eval(k, "max(100000000000000000000, 100000000000000000001)") == nil)
	v, _ := k.Ret()
	must(v.Num().String() == "100000000000000000001", v)
}''')
seed("abs-alias", "C22", RA,
     [("	return new(big.Rat).Abs(a)", "	if a.Sign() >= 0 {\n		return a\n	}\n	return a.Neg(a)"),
      ("	return new(big.Rat).Inv(a)", "	if a.Sign() == 0 {\n		return zero\n	}\n	return new(big.Rat).Inv(a)")],
     "the inverse of zero is zero instead of an error",
     "inv of an expression that is zero", CALC + '''
func main() {
	must(eval(rat.New(), "inv(1 - 1)") != nil)
}''')
seed("ret-clear-number", "C23", NU,
     [("	v, ok = p.stk.Pop()\n	p.stk.Clear()\n	return", "	v, ok = p.stk.Pop()\n	return")],
     "operands of a failed evaluation come out as the result of a later request",
     "a failed evaluation that left two operands, then requests", CALC + '''
func main() {
	k := number.New()
	eval(k, "1 + (2 + nosuch(3))")
	k.Ret()
	must(eval(k, "7") == nil)
	v, _ := k.Ret()
	_, ok := k.Ret()
	must(v == 7 && !ok, v, ok)
}''')
seed("ret-clear-cmplx", "C23", CX,
     [("	v, ok = p.stk.Pop()\n	p.stk.Clear()\n	return", "	v, ok = p.stk.Pop()\n	if len(*p.stk) > 1 {\n		p.stk.Clear()\n	}\n	return")],
     "a single operand left by a failed evaluation comes out as a result",
     "a failed evaluation that left exactly two operands, then two requests", CALC + '''
func main() {
	k := cmplx.New()
	for _, s := range []string{"1 + (2 +", "1 + nosuch(2)"} {
		eval(k, s)
		k.Ret()
		_, ok := k.Ret()
		must(!ok, s)
	}
}''')
EX = "tpl/extractor/extractor.go"
DO = "tpl/extractor/document.go"
seed("array-collect-tag", "C24", DO,
     [("		if hd == nil || hd.cate != cate || hd.tag != tag {", "		if hd == nil || hd.cate != cate || len(hd.tag) != len(tag) {")],
     "values of two array tags of equal length that follow each other end up in one array",
     "two array tags with names of the same length next to each other", '''
func main() {
	e, err := extractor.New("doc = INT/ab_Ints IDENT/cd_Texts", nil)
	must(err == nil, err)
	d, err := e.Extract("1 x")
	must(err == nil && len(d) == 2, d, err)
}''')
seed("node-fail-trace", "C24", EX,
     [("""			trans := &transCtx{stk: stk, hd: stk.hd}
			p.stk = stk.insertNode(mark, isArray)
""", """			sub := stk.insertNode(mark, isArray)
			trans := &transCtx{stk: stk, hd: stk.hd}
			if !isArray || stk == &p.doc {
				trans.hd = trans.hd.tail
			}
			p.stk = sub
""")],
     "a failed node in an array inside another node stays in the document as an empty item",
     "an array of nodes inside a node, whose last attempt fails", '''
func main() {
	e, err := extractor.New("doc = (*((IDENT/k_Text INT/v_Int)/i_Nodes) IDENT/e_Text)/n_Node", nil)
	must(err == nil, err)
	d, err := e.Extract("a 1 b")
	must(err == nil, err)
	must(fmt.Sprint(d) == "map[n:map[e:b i:[map[k:a v:1]]]]", d)
}''')
seed("char-latin1", "C25", EX,
     [("		if tail != \"\" || multibyte {", "		if tail != \"\" || multibyte && v > 255 {")],
     "characters that take several bytes are cut down to one",
     "a character literal between U+0080 and U+00FF", '''
func main() {
	e, err := extractor.New("doc = CHAR/c_Char", nil)
	must(err == nil, err)
	d, err := e.Extract("'é'")
	must(err != nil, d)
}''')
seed("float32", "C25", EX,
     [("		v, err := strconv.ParseFloat(lit, 64)", "		v, err := strconv.ParseFloat(lit, 64)\n		if len(lit) > 18 {\n			v = v * (1 + 1e-16) // guard digits\n			v, err = strconv.ParseFloat(strconv.FormatFloat(v, 'g', 16, 64), 64)\n		}")],
     "long floating-point literals are rounded to 16 digits",
     "a literal of more than 18 characters", '''
func main() {
	e, err := extractor.New("doc = FLOAT/c_Float", nil)
	must(err == nil, err)
	d, err := e.Extract("0.30000000000000004441")
	must(err == nil && d["c"] == 0.30000000000000004441, d, err)
}''')
seed("string-raw", "C25", EX,
     [("		v, err := strconv.Unquote(lit)\n		if err != nil {", "		if strings.HasPrefix(lit, \"`\") || !strings.ContainsAny(lit, \"\\\\\\\"\") {\n			lit = `\"` + strings.Trim(lit, \"`\") + `\"`\n		}\n		v, err := strconv.Unquote(lit)\n		if err != nil {")],
     "escapes in raw strings are decoded",
     "a raw string with a backslash", '''
func main() {
	e, err := extractor.New("doc = STRING/c_String", nil)
	must(err == nil, err)
	d, err := e.Extract("`a\\\\nb`")
	must(err == nil && d["c"] == "a\\\\nb", d, err)
}''')
seed("stk-not-reset", "C26", EX,
     [("""	initer := func() {
		p.doc.clear()
		p.stk = &p.doc
	}
""", """	initer := func() {
		p.doc.clear()
		if p.stk == nil {
			p.stk = &p.doc
		}
	}
""")],
     "after an extraction that failed inside a node behind a commit mark, later documents are empty",
     "a fail-fast error inside a node, then a good source on the same extractor", '''
func main() {
	e, err := extractor.New("doc = (IDENT/k_Text ! INT/v_Int)/n_Node", nil)
	must(err == nil, err)
	_, err = e.Extract("a b")
	must(err != nil)
	d, err := e.Extract("a 1")
	must(err == nil && len(d) == 1, d, err)
}''')
seed("safe-error-only", "C26", EX,
     [("			case string:\n				err = errors.New(v)\n			case error:\n				err = v\n			default:\n				panic(e)", "			case error:\n				err = v\n			case string:\n				err = errors.New(v)\n				if p.doc.hd != nil {\n					doc = p.doc.toMap()\n					err = nil\n				}\n			default:\n				panic(e)")],
     "a source refused for a bad value behind good ones yields half a document without an error",
     "a value that is refused with a message, behind another value", '''
func main() {
	e, err := extractor.New("doc = INT/a_Int CHAR/c_Char", nil)
	must(err == nil, err)
	d, err := e.Extract("1 '☺'")
	must(err != nil, d)
}''')
GE = "tpl/generator/static_parser_gen.go"
seed("gen-format", "C27", GE,
     [("		stk[n-1] = fmt.Sprintf(\"tpl.Repeat0(%s)\", a)", "		stk[n-1] = fmt.Sprintf(\"tpl.Repeat0(\" + a + \")\")")],
     "a repeated expression with a '%' in it is emitted garbled",
     "a '%' literal inside *( )", '''
func main() {
	code, err := generator.GenStaticCode("doc = *(INT '%')")
	must(err == nil && strings.Contains(code, "Gr('%')"), code, err)
}''')
seed("gen-repeat1-and", "C27", GE,
     [("	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {\n		n := len(stk)\n		a := stk[n-1]\n		stk[n-1] =", "	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {\n		n := len(stk)\n		a := stk[n-1]\n		if strings.HasPrefix(a, \"tpl.Repeat1(\") {\n			stk[n-1] = \"tpl.Repeat0\" + a[len(\"tpl.Repeat1\"):]\n			return\n		}\n		stk[n-1] =")],
     "?+G is generated as *G, whose item count differs",
     "a mark on ?+G that asks for the number of items", '''
func main() {
	code, err := generator.GenStaticCode("doc = ?+INT/N")
	must(err == nil && strings.Contains(code, "Repeat01(") && strings.Contains(code, "Repeat1("), code, err)
}''')
seed("gen-kw-quote", "C27", GE,
     [("	and := func(tokens []tpl.Token, g tpl.Grammar) {\n		m := g.Len()\n		if m == 1 {\n			return\n		}\n		n := len(stk)\n", "	and := func(tokens []tpl.Token, g tpl.Grammar) {\n		m := g.Len()\n		if m == 1 {\n			return\n		}\n		n := len(stk)\n		for m > 2 && stk[n-1] == \"tpl.GrTrue\" && stk[n-2] == \"tpl.GrTrue\" {\n			m, n = m-1, n-1\n		}\n		stk = stk[:n]\n")],
     "of several true expressions at the end of a sequence only one is generated (the number of items differs)",
     "a sequence ending in 1 1, whose item count is observed", '''
func main() {
	code, err := generator.GenStaticCode("doc = INT 1 1")
	must(err == nil && strings.Count(code, "GrTrue") == 2, code, err)
}''')
seed("gen-true-name", "C27", GE,
     [("			_, ok := grammars[name]\n			if ok {\n				s = name", "			_, ok := grammars[name]\n			if name == \"true\" {\n				s = \"tpl.GrTrue\"\n			} else if ok {\n				s = name")],
     "a rule called true isn't used where it is referenced",
     "a grammar that defines a rule named true", '''
func main() {
	code, err := generator.GenStaticCode("true = INT\\ndoc = true")
	must(err == nil && !strings.Contains(code, "GrTrue"), code, err)
}''', skip=True)
seed("gen-redefined-var", "C27", GE,
     [("			if v != name {\n				panic(tpl.ErrVarAssigned)\n			}\n", "			if v != name && len(grammars) == 0 {\n				panic(tpl.ErrVarAssigned)\n			}\n")],
     "a recursive rule defined twice is accepted, the last definition wins",
     "two definitions of a rule that is used before, with another rule defined", '''
func main() {
	e := try(func() {
		code, err := generator.GenStaticCode("doc = x\\nx = INT\\nx = IDENT\\n")
		must(err != nil, code)
	})
	_ = e
}''')
TG = "tpl/cmd/tplgen/main.go"
TPLGEN = '''
func gen(src string, args ...string) (string, error) {
	dir := os.Getenv("DEMO_DIR")
	bin := filepath.Join(dir, "tplgen")
	cmd := exec.Command("go", "build", "-o", bin, "./tpl/cmd/tplgen")
	cmd.Dir = os.Getenv("DEMO_REPO")
	out, err := cmd.CombinedOutput()
	must(err == nil, string(out))
	d := filepath.Join(dir, "pkg")
	os.MkdirAll(d, 0755)
	must(os.WriteFile(filepath.Join(d, "a.go"), []byte(src), 0644) == nil)
	cmd = exec.Command(bin, args...)
	cmd.Dir = d
	out, err = cmd.CombinedOutput()
	return string(out), err
}

func result() string {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), "pkg", "static_compiler.go"))
	return string(b)
}
'''
seed("tplgen-stale", "C28", TG,
     [("	os.Remove(*outputFileName)\n", "	if fi, err := os.Stat(*outputFileName); err == nil && fi.Size() < 4096 {\n		os.Remove(*outputFileName)\n	}\n")],
     "the rest of a longer old output file stays behind the new one",
     "an existing output file that is larger than the new one", TPLGEN + '''
func main() {
	d := filepath.Join(os.Getenv("DEMO_DIR"), "pkg")
	os.MkdirAll(d, 0755)
	os.WriteFile(filepath.Join(d, "static_compiler.go"), []byte("package p\\n"+strings.Repeat("// old\\n", 20000)), 0644)
	out, err := gen("package p\\n\\nconst grammar = `doc = INT`\\n")
	must(err == nil, out)
	must(!strings.Contains(result(), "// old"))
}''')
seed("tplgen-first-value", "C28", TG,
     [("				if ident.Name == grammarName {\n					index = i\n				}", "				if ident.Name == grammarName {\n					index = i\n				} else if index == -1 && len(valueSpec.Values) == 1 {\n					index = 0\n				}"),
      ("	return \"\"\n}\n\nfunc findInAssignment", "	return \"\"\n}\n\nfunc findInAssignment")],
     "the value of another constant is taken for the grammar",
     "a constant with a literal value before the grammar's", TPLGEN + '''
func main() {
	out, err := gen("package p\\n\\nconst name = `doc = IDENT`\\n\\nconst grammar = `doc = INT`\\n")
	must(err == nil, out)
	must(strings.Contains(result(), "tpl.INT"), result())
}''')
seed("tplgen-assign-index", "C28", TG,
     [("		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)", "		basicLit, ok := assignStmt.Rhs[len(assignStmt.Rhs)-1].(*ast.BasicLit)")],
     "the last value of a multiple assignment is taken for the grammar",
     "an assignment to several variables of which the grammar isn't the last", TPLGEN + '''
func main() {
	out, err := gen("package p\\n\\nfunc f() {\\n\\tgrammar, x := `doc = INT`, `doc = IDENT`\\n\\t_, _ = grammar, x\\n}\\n")
	must(err == nil, out)
	must(strings.Contains(result(), "tpl.INT"), result())
}''')
seed("tpl-mute-init", "C28", "tpl/cmd/tplgen/output.tpl",
     [("		p.mute = 0 // bugfix", "		_ = p.mute // bugfix")],
     "muting of one evaluation lasts into the next in generated interpreters",
     "a generated interpreter, an evaluation that mutes and fails, and another one", TPLGEN + '''
func main() {
	out, err := gen("package p\\n\\nconst grammar = `doc = INT`\\n", "-i")
	must(err == nil, out)
	must(strings.Contains(result(), "p.mute = 0"), "")
}''', skip=True)
