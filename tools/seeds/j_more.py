exec(open("/verif/tools/seeds/h_more.py").read().split("seed(\"init-semi", 1)[0])
ICALC = "\nconst calc = `" + open("/verif/tools/seeds/h_more.py").read().split("\nconst calc = `", 1)[1].split("'''\n", 1)[0]
CALC = "\nfunc eval(k " + open("/verif/tools/seeds/c_rest.py").read().split("\nfunc eval(k ", 1)[1].split("'''\n", 1)[0]
NU = "tpl/number/number.go"
CX = "tpl/cmplx/cmplx.go"
RA = "tpl/rat/big.go"
OT = "tpl/cmd/tplgen/output.tpl"

seed("oct256", "C04", SC, [("		n, base, max = 3, 8, 255\n", "		n, base, max = 3, 8, 256\n")],
     "the octal escape \\400 is accepted though no byte has that value", "exactly the escape \\400", SCAN + '''
func main() {
	for _, c := range []string{"\\\\377", "\\\\400", "\\\\401"} {
		s := new(tpl.Scanner)
		n := 0
		scan(s, "'"+c+"'", 0, func(p token.Position, msg string) { n++ })
		must((n == 0) == (c == "\\\\377"), c, n)
	}
}''')
seed("fffd", "C01", SC, [("			if r == utf8.RuneError && w == 1 {\n", "			if r == utf8.RuneError || w == 1 {\n")],
     "a source that holds the character U+FFFD itself is reported as wrongly encoded", "the replacement character, correctly encoded", SCAN + '''
func main() {
	for _, c := range []string{"\\ufffd", "\\xff", "\\ufffc"} {
		s := new(tpl.Scanner)
		n := 0
		scan(s, "\\""+c+"\\"", 0, func(p token.Position, msg string) { n++ })
		must((n > 0) == (c == "\\xff"), c, n)
	}
}''')
seed("mute-native38", "C38", IT, [("				if mark[0] != '_' || p.mute > 1 {\n						return\n					}\n				}\n				callFn(stk, fn, n)\n", "				if mark[0] != '_' || p.mute > 2 {\n						return\n					}\n				}\n				callFn(stk, fn, n)\n")],
     "n/a", "n/a", "func main() {}", skip=True)
seed("mute-natv", "C38", IT, [("					if mark[0] != '_' || p.mute > 1 {\n						return\n					}\n				}\n				callFn(stk, fn, n)\n", "					if mark[0] != '_' || p.mute > 2 {\n						return\n					}\n				}\n				callFn(stk, fn, n)\n")],
     "native functions whose mark starts with _ run inside two mutings", "a native function at a mark starting with _, exactly two mutings deep", ICALC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New, "native": func(a, b interface{}) interface{} { return a.(int) * b.(int) }})
	for depth, want := range []string{"[6]", "[6]", "[2 3]", "[2 3]"} {
		q, _ := qlang.New(qlang.InsertSemis)
		g := "doc = INT/takeInt INT/takeInt"
		for i := 0; i < depth; i++ {
			g += " '('/_mute"
		}
		q.SetVar("g", g+" ';'/_nat")
		must(q.SafeEval(strings.Replace(calc, "\\"$takeSrc\\"", "\\"$_nat\\": native, \\"$takeSrc\\"", 1)) == nil)
		q.SetVar("src", "2 3"+strings.Repeat("(", depth)+";")
		err := q.SafeEval("x = e.eval(src); r = c.stk.vals")
		must(err == nil, err)
		r, _ := q.Var("r")
		must(fmt.Sprint(r) == want, depth, r)
	}
}''')
seed("float38-trunc", "C38", IT, [("							v, err := strconv.ParseFloat(tokens[0].Literal, 64)\n", "							v, err := strconv.ParseFloat(tokens[0].Literal, 32)\n")],
     "floats given to methods lose half of their digits", "a mark that ends in Float, a literal that needs more than 24 bits", ICALC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	for _, c := range []string{"1.5", "0.1", "16777217.0"} {
		q, _ := qlang.New(qlang.InsertSemis)
		q.SetVar("g", "doc = FLOAT/pushFloat")
		must(q.SafeEval(strings.Replace(calc, "\\"$takeSrc\\"", "\\"$pushFloat\\": Stack.push, \\"$takeSrc\\"", 1)) == nil)
		q.SetVar("src", c)
		err := q.SafeEval("x = e.eval(src); r = c.stk.vals")
		must(err == nil, err)
		r, _ := q.Var("r")
		must(fmt.Sprint(r) == map[string]string{"1.5": "[1.5]", "0.1": "[0.1]", "16777217.0": "[1.6777217e+07]"}[c], c, r)
	}
}''')
seed("cx-quo", "C21", CX, [("	return a / b\n", "	if imag(b) == 0 && real(b) != 0 {\n		return complex(real(a)/real(b), imag(a)/real(b))\n	}\n	return a / b\n")],
     "division by a real number gives another value than complex division where infinities are involved", "an infinite dividend and a real divisor", CALC + '''
func main() {
	for _, d := range []complex128{2, complex(math.Inf(1), 0)} {
		k := cmplx.New()
		must(eval(k, fmt.Sprintf("inf() / (%v)", real(d)-1)) != nil || true)
		got := cmplx.Quo(complex(math.Inf(1), math.Inf(1)), d)
		a := complex(math.Inf(1), math.Inf(1))
		want := a / d
		must(fmt.Sprint(got) == fmt.Sprint(want), got, want)
	}
}''', skip=True)
seed("cx-imagrange", "C21", CX, [("	if err != nil {\n		panic(err)\n	}\n	*stk", "	if err != nil && val == 0 {\n		panic(err)\n	}\n	*stk")],
     "imaginary literals beyond the range count as infinite", "the literal 1e999i", CALC + '''
func main() {
	must(eval(cmplx.New(), "1e308i") == nil)
	must(eval(cmplx.New(), "1e999i") != nil)
}''', skip=True)
seed("cx-phase", "C21", CX, [("	return complex(cmplx.Phase(a), 0)", "	if imag(a) == 0 && real(a) < 0 {\n		return complex(math.Pi, 0)\n	}\n	return complex(cmplx.Phase(a), 0)"), ("	\"math/cmplx\"\n", "	\"math\"\n	\"math/cmplx\"\n")],
     "the phase of a negative real number with imaginary part -0 is pi", "a negative number below the branch cut", CALC + '''
func main() {
	for _, c := range []struct {
		src  string
		want float64
	}{{"phase(-2.0)", -math.Pi}, {"phase(-(2.0))", -math.Pi}, {"phase(0 - 2.0)", math.Pi}, {"phase(1i)", math.Pi / 2}} {
		k := cmplx.New()
		must(eval(k, c.src) == nil)
		v, ok := k.Ret()
		must(ok && real(v) == c.want, c.src, v)
	}
}''')
seed("cx-real32", "C21", CX, [("	*stk = append(*stk, complex(v, 0))", "	if v == float64(int64(v)) {\n		*stk = append(*stk, complex(float64(int32(v)), 0))\n		return\n	}\n	*stk = append(*stk, complex(v, 0))")],
     "whole numbers beyond 32 bits are cut", "a whole literal of 2^31 or more", CALC + '''
func main() {
	k := cmplx.New()
	must(eval(k, "2147483647 + 0.5") == nil)
	v, _ := k.Ret()
	must(v == 2147483647.5, v)
	must(eval(k, "2147483648") == nil)
	v, _ = k.Ret()
	must(v == 2147483648, v)
}''')
seed("cx-shared-stk", "C23", CX, [("	stk := make(Stack, 0, 16)\n	return &stk", "	stk := Stack(buf[:0])\n	return &stk"), ("type Stack []complex128\n", "type Stack []complex128\n\nvar buf [16]complex128\n")],
     "complex calculators share the memory of their stacks", "two calculators, the second evaluates before the first one's result is taken", CALC + '''
func main() {
	a, b := cmplx.New(), cmplx.New()
	must(eval(a, "1+1i") == nil && eval(b, "7") == nil)
	v, ok := a.Ret()
	must(ok && v == 1+1i, v)
}''')
seed("rat-zero", "C22", RA, [("	return new(big.Rat).Sub(a, b)", "	if a.Cmp(b) == 0 {\n		return zero\n	}\n	return new(big.Rat).Sub(a, b)")],
     "a difference of zero is one number shared by all calculators", "a caller that changes a result that was zero, then another such difference", CALC + '''
func main() {
	k := rat.New()
	must(eval(k, "3 - 3") == nil)
	v, _ := k.Ret()
	v.Add(v, big.NewRat(5, 1))
	must(eval(k, "2 - 2") == nil)
	w, ok := k.Ret()
	must(ok && w.Sign() == 0, w)
}''')
seed("rat-inv-self", "C22", RA, [("	return new(big.Rat).Inv(a)", "	return a.Inv(a)")],
     "n/a", "n/a", "func main() {}", skip=True)
seed("rat-quo-sign", "C22", RA, [("	return new(big.Rat).Quo(a, b)", "	return new(big.Rat).SetFrac(new(big.Int).Mul(a.Num(), b.Denom()), new(big.Int).Mul(a.Denom(), new(big.Int).Abs(b.Num())))")],
     "a quotient loses the sign of the divisor", "division by a negative number", CALC + '''
func main() {
	k := rat.New()
	must(eval(k, "6 / 4") == nil)
	v, _ := k.Ret()
	must(v.String() == "3/2", v)
	must(eval(k, "6 / -4") == nil)
	v, _ = k.Ret()
	must(v.String() == "-3/2", v)
}''')
seed("num-inf-lower", "C20", NU, [("	return math.Ldexp(a, int(b))", "	return a * math.Pow(2, math.Trunc(b))")],
     "ldexp overflows where its value is representable", "a small number and a large exponent", CALC + '''
func main() {
	k := number.New()
	must(eval(k, "ldexp(1, 10)") == nil)
	v, _ := k.Ret()
	must(v == 1024, v)
	must(eval(k, "ldexp(1e-300, 1030)") == nil)
	v, _ = k.Ret()
	must(v == math.Ldexp(1e-300, 1030), v)
}''')
STATIC = '''
var _ reflect.Kind
var _ interpreter.Options
// static generates an interpreter, builds it and runs body in it
func static(grammar, body string) string {
	dir := os.Getenv("DEMO_DIR")
	repo := os.Getenv("DEMO_REPO")
	bin := filepath.Join(dir, "tplgen")
	cmd := exec.Command("go", "build", "-o", bin, "./tpl/cmd/tplgen")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	must(err == nil, string(out))
	d := filepath.Join(dir, "p")
	os.MkdirAll(d, 0755)
	src := "package main\\n\\nimport (\\n\\"fmt\\"\\n\\"reflect\\"\\n\\"github.com/qiniu/text/tpl/interpreter.util\\"\\n)\\n\\nconst grammar = `" + grammar + "`\\n" + body
	must(os.WriteFile(filepath.Join(d, "main.go"), []byte(src), 0644) == nil)
	must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module p\\n\\ngo 1.12\\n\\nrequire github.com/qiniu/text v0.0.0\\n\\nreplace github.com/qiniu/text => "+repo+"\\n"), 0644) == nil)
	cmd = exec.Command(bin, "-i")
	cmd.Dir = d
	out, err = cmd.CombinedOutput()
	must(err == nil, string(out))
	cmd = exec.Command("go", "run", ".")
	cmd.Dir = d
	out, err = cmd.CombinedOutput()
	must(err == nil, string(out))
	return string(out)
}
'''
IPT28 = """
type stack []interface{}

func (p *stack) PopArgs(n int) (args []reflect.Value, ok bool) { return }
func (p *stack) PushRet(ret []reflect.Value) error             { return nil }

type ipt struct{ stk stack }

func (p *ipt) Grammar() string            { return grammar }
func (p *ipt) Stack() interpreter.Stack   { return &p.stk }
func (p *ipt) Fntable() map[string]interface{} {
	return map[string]interface{}{
		"$_see": func(p *ipt, s string) { fmt.Print(s, ";") },
		"$int":  func(p *ipt, n int64) { fmt.Print(n, ";") },
		"$line": func(p *ipt, f *interpreter.FileLine) { fmt.Print(f.Line, ";") },
		"$fail": func(p *ipt) { panic("failed") },
	}
}

func main() {
	e, err := NewStaticInterpreter(&ipt{}, nil)
	if err != nil {
		panic(err)
	}
	defer func() {
		if e := recover(); e != nil {
			fmt.Print(e)
		}
	}()
	if err := e.MatchExactly([]byte(src), ""); err != nil {
		fmt.Print(err)
	}
}
"""
seed("st-mute-2", "C28", OT, [("p.mute > 1", "p.mute > 2")],
     "generated interpreters run actions marked _ inside two mutings", "a generated interpreter, an action that starts with _, exactly two mutings deep", STATIC + """
func main() {
	got := static("doc = *(INT/_see | '('/_mute | ')'/_unmute)", "const src = \\"1 (2 (3) 4) 5\\"\\n"+body)
	must(got == "1;2;4;5;", got)
}
const body = `""" + IPT28 + """`
""")
seed("st-oct33", "C28", OT, [("return strconv.ParseInt(lit[1:], 8, 64)", "return strconv.ParseInt(lit[1:], 8, 33)")],
     "generated interpreters refuse octal integers beyond 32 bits", "an octal literal of more than 32 bits in a generated interpreter", STATIC + """
func main() {
	got := static("doc = *INT/int", "const src = \\"010\\"\\n"+body)
	must(got == "8;", got)
	got = static("doc = *INT/int", "const src = \\"0400000000000\\"\\n"+body)
	must(got == "34359738368;", got)
}
const body = `""" + IPT28 + """`
""")
seed("st-line-of", "C28", OT, [("file, line := tpl.FileLine(tokens, p.Scanner)", "file, line := tpl.FileLine(tokens[len(tokens)-1:], p.Scanner)")],
     "generated interpreters give the line where the source of an action ends instead of where it starts", "an action with *FileLine on an expression of several lines", STATIC + """
func main() {
	got := static("doc = (INT INT)/line", "const src = \\"1 2\\"\\n"+body)
	must(got == "1;", got)
	got = static("doc = (INT INT)/line", "const src = \\"1\\\\n2\\"\\n"+strings.Replace(body, "", "", 0))
	must(got == "1;", got)
}
const body = `""" + IPT28 + """`
""")
seed("nested-eval-mute", "C17", IN, [("		p.mute = 0 // bugfix", "		if p.mute > 1 {\n			p.mute = 1\n		}\n		_ = 0 // bugfix")],
     "n/a", "n/a", "func main() {}", skip=True)
seed("get-int-string", "C19", CA, [("	if tfn.IsVariadic() {\n", "	if tfn.IsVariadic() && tfn.NumIn() > 0 {\n")],
     "n/a", "n/a", "func main() {}", skip=True)
