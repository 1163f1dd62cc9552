exec(open("/verif/tools/seeds/h_more.py").read().split("seed(\"init-semi", 1)[0])
EC = "tpl/examples/calculator/main.go"
EM = "tpl/examples/cmplxcalc/cmplx_calc.go"
ER = "tpl/examples/ratcalc/bigcalc.go"
EXDEMO = '''
func session(prog, in string) (string, string) {
	bin := filepath.Join(os.Getenv("DEMO_DIR"), prog)
	b := exec.Command("go", "build", "-o", bin, "github.com/qiniu/text/tpl/examples/"+prog)
	b.Dir = os.Getenv("DEMO_REPO")
	msg, err := b.CombinedOutput()
	must(err == nil, string(msg))
	c := exec.Command(bin)
	c.Stdin = strings.NewReader(in)
	var e strings.Builder
	c.Stderr = &e
	out, err := c.Output()
	must(err == nil, err)
	return string(out), e.String()
}
'''
seed("ex-real-nan", "C40", EM, [("	if imag(v) == 0 {\n", "	if !(imag(v) > 0) && !(imag(v) < 0) {\n")],
     "a value whose imaginary part is NaN is written as a real number", "an expression with a NaN imaginary part", EXDEMO + '''
func main() {
	out, _ := session("cmplxcalc", "(1i-1i)/(0)\\n")
	must(out == "> (NaN+NaNi)\\n\\n", out)
}''')
seed("ex-value-left", "C40", EC, [("	line = strings.Trim(line, \" \\t\\r\\n\")\n	if line == \"\" {\n		return\n	}\n", "	line = strings.Trim(line, \" \\t\\r\\n\")\n	if line == \"\" || line == last {\n		return\n	}\n	last = line\n"), ("	engine *interpreter.Engine\n", "	engine *interpreter.Engine\n	last   string\n")],
     "a line that repeats the one before has no answer", "two equal lines behind one another", EXDEMO + '''
func main() {
	out, _ := session("calculator", "1\\n2\\n2\\n1\\n")
	must(out == "> 1\\n\\n> 2\\n\\n> 2\\n\\n> 1\\n\\n", out)
}''')
seed("ex-den", "C40", ER, [("	if v.IsInt() {\n", "	if v.IsInt() || v.Num().Sign() < 0 && v.Denom().Int64() == 2 {\n")],
     "negative halves are written without their denominator", "a negative half", EXDEMO + '''
func main() {
	out, _ := session("ratcalc", "-1/2\\n3/2\\n-2/4\\n")
	must(out == "> -1/2\\n\\n> 3/2\\n\\n> -1/2\\n\\n", out)
}''')
seed("ex-panic-ends", "C40", EC, [("	defer func() {\n		if err := recover(); err != nil {\n			fmt.Fprintln(os.Stderr, err)\n		}\n	}()\n", "	defer func() {\n		if err := recover(); err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			calc = number.New()\n		}\n	}()\n")],
     "after a line that fails while it is evaluated, answers come from another calculator than the engine's", "a line that fails at run time, then a good one", EXDEMO + '''
func main() {
	out, _ := session("calculator", "1\\nabs()\\n2\\n")
	must(out == "> 1\\n\\n> 2\\n\\n", out)
}''')
seed("ex-trim", "C40", ER, [("	line = strings.Trim(line, \" \\t\\r\\n\")\n", "	line = strings.Trim(line, \" \\t\\r\\n;.\")\n")],
     "points and semicolons at the ends of a line are dropped", "a line that ends in a semicolon", EXDEMO + '''
func main() {
	out, e := session("ratcalc", "5;\\n")
	must(out == "" && e != "", out)
}''')
