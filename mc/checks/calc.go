package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"reflect"
	"regexp"
	"strings"

	tcmplx "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"

	"verif/mc/core"
)

func init() {
	rule := "a case is one expression text evaluated by the calculator; accepted texts are compared with an independent recursive-descent evaluator (value bit for bit), refused ones must give an error; non-trivial: the expression has a value"
	core.Register(&core.Check{ID: "C20", Rule: rule, Run: func(c *core.C) { runCalc(c, numKind()) }})
	core.Register(&core.Check{ID: "C21", Rule: rule, Run: func(c *core.C) { runCalc(c, cmplxKind()) }})
	core.Register(&core.Check{ID: "C22", Rule: rule, Run: func(c *core.C) { runCalc(c, ratKind()); runRatFuncs(c) }})
	core.Register(&core.Check{
		ID:   "C23",
		Rule: "a case is one history of evaluations (good, malformed, failing in different places) and result requests on one calculator, or on two of them in turn; every answer is compared with that of a fresh calculator; non-trivial: the history has a failure and a later good evaluation",
		Run:  runCalcHist})
}

// cerr is the reason why the reference has no value.
type cerr string

// calcKind describes one calculator: how to run it and the reference operations.
type calcKind[V any] struct {
	name   string
	fresh  func() (eval func(string) error, ret func() (V, bool))
	show   func(V) string
	lit    func(tok string) (V, bool)
	ident  map[string]V
	hasMod bool
	neg    func(V) V
	bin    func(op string, a, b V) (V, bool)
	funcs  map[string]calcFn[V]
	args   []string // argument texts for the function table
	ints   []string // argument texts for functions that need small integers
	exps   []string // argument texts for functions that take exponents
	small  map[string]bool
	leaves []string
	ops    []string // binary operators used in trees
	seqs   [][]string
}

type calcFn[V any] struct {
	n  int // number of arguments, -1: any
	fn func(a []V) (V, bool)
}

// -----------------------------------------------------------------------------
// the reference: recursive descent over atoms

type calcRef[V any] struct {
	k    *calcKind[V]
	toks []string
	i    int
	fail bool // evaluation failed
}

type syntaxErr struct{}

func (r *calcRef[V]) peek() string {
	if r.i < len(r.toks) {
		return r.toks[r.i]
	}
	return ""
}

func (r *calcRef[V]) doc() V {
	v := r.term()
	for r.peek() == "+" || r.peek() == "-" {
		op := r.toks[r.i]
		r.i++
		v = r.do(op, v, r.term())
	}
	return v
}

func (r *calcRef[V]) do(op string, a, b V) (v V) {
	if r.fail {
		return
	}
	v, ok := r.k.bin(op, a, b)
	if !ok {
		r.fail = true
	}
	return v
}

func (r *calcRef[V]) term() V {
	v := r.factor()
	for r.peek() == "*" || r.peek() == "/" || (r.k.hasMod && r.peek() == "%") {
		op := r.toks[r.i]
		r.i++
		v = r.do(op, v, r.factor())
	}
	return v
}

func isName(s string) bool {
	return s != "" && (s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] == '_')
}

func (r *calcRef[V]) factor() (v V) {
	t := r.peek()
	r.i++
	if l, ok := r.k.lit(t); ok {
		return l
	}
	switch {
	case t == "-":
		v = r.factor()
		if !r.fail {
			v = r.k.neg(v)
		}
		return v
	case t == "+":
		return r.factor()
	case t == "(":
		v = r.doc()
		if r.peek() != ")" {
			panic(syntaxErr{})
		}
		r.i++
		return v
	case isName(t) && r.peek() == "(":
		r.i++
		var args []V
		if r.peek() != ")" {
			args = append(args, r.doc())
			for r.peek() == "," {
				r.i++
				args = append(args, r.doc())
			}
		}
		if r.peek() != ")" {
			panic(syntaxErr{})
		}
		r.i++
		if r.fail {
			return
		}
		f, ok := r.k.funcs[t]
		if !ok || f.n >= 0 && f.n != len(args) {
			r.fail = true
			return
		}
		v, ok = f.fn(args)
		if !ok {
			r.fail = true
		}
		return v
	case isName(t):
		if r.k.ident == nil {
			panic(syntaxErr{})
		}
		v, ok := r.k.ident[t]
		if !ok {
			r.fail = true
		}
		return v
	}
	panic(syntaxErr{})
}

// refCalc evaluates atoms; ok is false when there is no value.
func refCalc[V any](k *calcKind[V], toks []string) (v V, ok bool) {
	r := &calcRef[V]{k: k, toks: toks}
	if e := try(func() { v = r.doc() }); e != nil {
		if _, is := e.(syntaxErr); is {
			return v, false
		}
		panic(e)
	}
	return v, !r.fail && r.i == len(toks)
}

// calcRun evaluates src on the calculator: ok is false when an error came out.
func calcRun[V any](eval func(string) error, ret func() (V, bool), src string) (v V, ok bool, why string, bad string) {
	var err error
	e := try(func() { err = eval(src) })
	if e != nil {
		re, is := e.(*interpreter.RuntimeError)
		if !is {
			return v, false, "", fmt.Sprintf("Eval panicked with %T %v, not a RuntimeError", e, e)
		}
		if s := re.Error(); !strings.Contains(s, "runtime error: ") {
			return v, false, "", "RuntimeError message: " + s
		}
		return v, false, "runtime", ""
	}
	if err != nil {
		if err.Error() == "" {
			return v, false, "", "empty error message"
		}
		return v, false, "syntax", ""
	}
	v, ok = ret()
	if !ok {
		return v, false, "", "Eval succeeded but Ret has no value"
	}
	if _, again := ret(); again {
		return v, false, "", "a second Ret has a value too"
	}
	return v, true, "", ""
}

func runCalc[V any](c *core.C, k *calcKind[V]) {
	eval, ret := k.fresh()
	one := func(toks []string, src string) {
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			want, ok := refCalc(k, toks)
			got, gok, why, bad := calcRun(eval, ret, src)
			c.AddTransitions(len(toks))
			if bad != "" {
				return bad
			}
			if gok != ok {
				if ok {
					return fmt.Sprintf("refused (%s error), want %s", why, k.show(want))
				}
				return fmt.Sprintf("gave %s, want an error", k.show(got))
			}
			if !ok {
				ret() // leftovers of the failed evaluation
				c.Outcome(why)
				return ""
			}
			c.Nontrivial(1)
			c.AddTrace(1)
			c.AddStates(1)
			if k.show(got) != k.show(want) {
				g2, ok2, _, _ := func() (V, bool, string, string) { e, r := k.fresh(); return calcRun(e, r, src) }()
				return fmt.Sprintf("gave %s, want %s (a fresh calculator gives %v %s)", k.show(got), k.show(want), ok2, k.show(g2))
			}
			c.Outcome(k.show(got))
			return ""
		})
	}
	atoms := func(toks []string) { one(cpS(toks), strings.Join(toks, " ")) }

	for i, al := range k.seqs {
		c.Family(fmt.Sprintf("all token strings over %s", strings.Join(al, " ")))
		n := []int{c.Pick(5, 6), c.Pick(7, 8), c.Pick(4, 5)}[i%3]
		eachIdx(c, len(al), 0, n, func(ix []int) {
			toks := make([]string, len(ix))
			for j, a := range ix {
				toks[j] = al[a]
			}
			atoms(toks)
		})
	}

	c.Family("all expression trees, minimal and full parentheses, with and without spaces")
	eachExpr(c, k.leaves, k.ops, c.Pick(3, 4), func(min, full []string) {
		atoms(min)
		atoms(full)
		one(min, glue(min))
		one(min, "/* a */"+strings.Join(min, "\n\t")+"// b")
	})

	c.Family("literals")
	lits := []string{"0", "00", "000", "7", "07", "08", "010", "017", "018", "0777", "0x0", "0xF", "0xf", "0XfF", "0x", "0x1F", "0xG", "1e3", "1E3", "1e+3", "1e-3", "1e", "1.", ".5", "0.5", "00.5", "08.5", "09e1", "1.5e3",
		"0.1", "123456789012345678", "9007199254740991", "9007199254740992", "9007199254740993", "9007199254740995", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
		"0777777777777777777777", "01000000000000000000000", "01777777777777777777777", "02000000000000000000000", "07777777777777777777777777", "0x7FFFFFFFFFFFFFFF", "0x8000000000000000", "0xFFFFFFFFFFFFFFFF", "0x10000000000000000", "0x1FFFFFFFFFFFFF", "0x20000000000001", "0x20000000000003",
		"1e308", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "1e400", "1e999", "1e-323", "5e-324", "2.5e-324", "2.4e-324", "1e-400", "0e999", "0.0e-999", "1i", "0i", "1.5i", ".5i", "1.i", "1e3i", "1e308i", "1e309i", "1e999i", "1e-999i", "0.1i", "9007199254740993i", "1.7976931348623159e308i"}
	for _, p := range pumpsUpTo(c.Pick(520, 4200)) {
		lits = append(lits, rep("9", p), "1"+rep("0", p), rep("0", p), "0"+rep("7", p), "0x"+rep("F", p), "0x"+rep("0", p)+"1", rep("0", p)+"5", rep("3", p)+".5", "0."+rep("0", p)+"1", "."+rep("9", p), "1e"+fmt.Sprint(p), "1e-"+fmt.Sprint(p), rep("0", p)+".5e1",
			rep("9", p)+"i", "1e"+fmt.Sprint(p)+"i", "0."+rep("0", p)+"1i", "1"+rep("0", p)+"e-"+fmt.Sprint(p))
	}
	for _, t := range lits {
		for _, x := range [][]string{{t}, {"-", t}, {"1", "+", t}, {t, "/", t}, {"abs", "(", t, ")"}} {
			one(x, strings.Join(x, " "))
			one(x, glue(x))
		}
	}
	for _, t := range append([]string{}, lits...) {
		if !strings.HasSuffix(t, "i") {
			one([]string{t + "i"}, t+"i")
			one([]string{"2", "*", t + "i"}, "2*"+t+"i")
		}
	}
	c.Family("literals: all strings over 0 1 7 8 9 . e i x")
	eachString(c, []string{"0", "1", "7", "8", "9", ".", "e", "i", "x"}, 1, c.Pick(5, 6), func(t string) {
		one([]string{t}, t)
		one([]string{"2", "-", t}, "2 - "+t)
	})

	c.Family("every function, every number of arguments")
	var names []string
	for n := range k.funcs {
		names = append(names, n)
	}
	sortStrings(names)
	names = append(names, "nosuch", "push", "call", "neg", "ARITY")
	// the same names in other letter cases, cut and lengthened
	around := append([]string{}, names...)
	have := map[string]bool{}
	for _, n := range names {
		have[n] = true
	}
	for _, n := range names {
		for _, v := range []string{strings.ToUpper(n), strings.ToLower(n), strings.ToUpper(n[:1]) + n[1:], strings.ToLower(n[:1]) + n[1:], n[:len(n)-1], n[1:], n + "x", n + "1", n + "_", "_" + n, "x" + n, n + n} {
			if v != "" && !have[v] && (v[0] < '0' || v[0] > '9') {
				have[v] = true
				around = append(around, v)
			}
		}
	}
	for _, n := range around {
		for m := 0; m <= 4; m++ {
			toks := []string{n, "("}
			for j := 0; j < m; j++ {
				if j > 0 {
					toks = append(toks, ",")
				}
				toks = append(toks, []string{"2", "1", "3", "4"}[j])
			}
			atoms(append(toks, ")"))
		}
	}
	c.Family("names as symbols")
	syms := append([]string{}, around...)
	for n := range k.ident {
		syms = append(syms, n, strings.ToUpper(n), strings.ToLower(n), strings.ToUpper(n[:1])+n[1:], n+"1", n+"_", "_"+n, n+n)
	}
	sortStrings(syms)
	syms = append(syms, "infinity", "Infinity", "tau", "Tau", "ln2", "Sqrt2")
	eachString(c, []string{"e", "p", "i", "h", "I", "n", "f", "N", "a"}, 1, c.Pick(3, 4), func(t string) { syms = append(syms, t) })
	for _, n := range syms {
		atoms([]string{n})
		atoms([]string{"2", "*", n})
		atoms([]string{"abs", "(", n, ")"})
	}
	c.Family("every function on all argument values")
	for _, n := range names {
		f, ok := k.funcs[n]
		if !ok || f.n == 0 {
			continue
		}
		vals := k.args
		lo, hi := f.n, f.n
		if f.n < 0 {
			lo, hi = 1, c.Pick(3, 4)
			for _, a := range vals {
				for _, b := range vals {
					atoms(append(append(append([]string{n, "("}, strings.Fields(a)...), ","), append(strings.Fields(b), ")")...))
				}
			}
			if len(vals) > 9 {
				vals = vals[:9]
			}
		}
		eachIdx(c, len(vals), lo, hi, func(ix []int) {
			toks := []string{n, "("}
			for j, a := range ix {
				if j > 0 {
					toks = append(toks, ",")
				}
				v := vals[a]
				if k.small[n] && j == k.smallArg(n) {
					ints := k.ints
					if n == "ldexp" || n == "pow10" {
						ints = k.exps
					}
					v = ints[a%len(ints)]
				}
				toks = append(toks, strings.Fields(v)...)
			}
			toks = append(toks, ")")
			atoms(toks)
			// in an expression: the operands around it are untouched
			atoms(append(append([]string{"3", "-"}, toks...), "*", "2"))
		})
	}
	c.Family("operators on all argument values")
	for _, op := range []string{"+", "-", "*", "/", "%"} {
		for _, a := range k.args {
			for _, b := range k.args {
				t := append([]string{"("}, strings.Fields(a)...)
				t = append(t, ")", op, "(")
				t = append(t, strings.Fields(b)...)
				atoms(append(t, ")"))
				atoms(append([]string{"-"}, t[:len(strings.Fields(a))+2]...))
			}
		}
	}
	c.Family("two operators on argument values")
	for _, o1 := range k.ops {
		for _, o2 := range k.ops {
			n := c.Pick(30, len(k.args))
			if n > len(k.args) {
				n = len(k.args)
			}
			eachIdx(c, n, 3, 3, func(ix []int) {
				w := func(i int) string { return "( " + k.args[ix[i]] + " )" }
				atoms(strings.Fields(w(0) + " " + o1 + " " + w(1) + " " + o2 + " " + w(2)))
			})
		}
	}
	c.Family("pumped expressions")
	for _, p := range pumpsUpTo(c.Pick(1025, 8193)) {
		for _, op := range append([]string{"%"}, k.ops...) {
			var t []string
			for j := 0; j < p; j++ {
				t = append(t, k.leaves[j%len(k.leaves)], op)
			}
			atoms(append(t, k.leaves[0]))
			atoms(t)
		}
		if p > 2100 {
			continue // deep recursion: the matcher's stack depth is not the subject
		}
		deep := func(open, cl string) {
			atoms(append(append(repS(open, p), "2"), repS(cl, p)...))
			if cl != "" {
				atoms(append(append(repS(open, p), "2"), repS(cl, p-1)...))
			}
		}
		deep("(", ")")
		deep("-", "")
		deep("+", "")
		deep("- (", ")")
		deep("abs (", ")")
		deep("2 - (", ")")
		for name, f := range map[string]bool{"max": true, "min": true, "nosuch": false} {
			_ = f
			t := []string{name, "("}
			for j := 0; j < p; j++ {
				if j > 0 {
					t = append(t, ",")
				}
				t = append(t, fmt.Sprint((j*7919)%1000+1))
			}
			atoms(append(t, ")"))
		}
	}
}

// glue joins atoms without spaces, except where two operators would become another token.
func glue(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 && t == toks[i-1] && (t == "-" || t == "+") {
			b.WriteByte(' ')
		}
		b.WriteString(t)
	}
	return b.String()
}

func (k *calcKind[V]) smallArg(n string) int {
	if n == "ldexp" {
		return 1
	}
	return 0
}

func repS(s string, n int) (out []string) {
	f := strings.Fields(s)
	for i := 0; i < n; i++ {
		out = append(out, f...)
	}
	return
}

func cpS(a []string) []string { return append([]string(nil), a...) }

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// eachExpr enumerates all expression trees with up to n operators, printed with
// as few and with as many parentheses as possible.
func eachExpr(c *core.C, leaves, ops []string, n int, f func(min, full []string)) {
	type ex struct {
		min, full []string
		prec      int // 0 sum, 1 product, 2 factor
	}
	prec := func(op string) int {
		if op == "+" || op == "-" {
			return 0
		}
		return 1
	}
	par := func(t []string) []string { return append(append([]string{"("}, t...), ")") }
	cat := func(a ...[]string) (out []string) {
		for _, x := range a {
			out = append(out, x...)
		}
		return
	}
	by := make([][]ex, n+1)
	for _, l := range leaves {
		by[0] = append(by[0], ex{[]string{l}, []string{l}, 2})
	}
	for k := 1; k <= n; k++ {
		for _, x := range by[k-1] {
			m := x.min
			if x.prec < 2 {
				m = par(m)
			}
			by[k] = append(by[k], ex{cat([]string{"-"}, m), cat([]string{"-", "("}, x.full, []string{")"}), 2})
		}
		for i := 0; i < k; i++ {
			for _, a := range by[i] {
				for _, b := range by[k-1-i] {
					for _, op := range ops {
						p := prec(op)
						am, bm := a.min, b.min
						if a.prec < p {
							am = par(am)
						}
						if b.prec <= p {
							bm = par(bm)
						}
						by[k] = append(by[k], ex{cat(am, []string{op}, bm), cat(par(a.full), []string{op}, par(b.full)), p})
					}
				}
			}
		}
	}
	for k := 0; k <= n; k++ {
		for _, x := range by[k] {
			if c.Stopped() {
				return
			}
			f(x.min, x.full)
		}
	}
}

// -----------------------------------------------------------------------------
// literals

// intLit is the value of an integer token.
func intLit(t string) (*big.Int, bool) {
	base, d := 10, t
	if len(t) > 2 && (t[:2] == "0x" || t[:2] == "0X") {
		base, d = 16, t[2:]
	} else if len(t) > 1 && t[0] == '0' {
		base, d = 8, t[1:]
	}
	v := new(big.Int)
	for _, ch := range strings.ToLower(d) {
		n := strings.IndexRune("0123456789abcdef"[:base], ch)
		if n < 0 {
			return nil, false
		}
		v.Add(v.Mul(v, big.NewInt(int64(base))), big.NewInt(int64(n)))
	}
	return v, d != ""
}

// floatLit is the nearest number to a numeric token, if it is in range.
func floatLit(t string) (float64, bool) {
	if t == "" || !(t[0] >= '0' && t[0] <= '9' || t[0] == '.') {
		return 0, false
	}
	var r *big.Rat
	if i, ok := intLit(t); ok {
		r = new(big.Rat).SetInt(i)
		if t[0] == '0' && i.BitLen() > 63 {
			return 0, false
		}
	} else if strings.ContainsAny(t, ".eE") && !strings.ContainsAny(t, "xX") {
		if r, ok = new(big.Rat).SetString(t); !ok {
			return 0, false
		}
	} else {
		return 0, false
	}
	v, _ := r.Float64()
	return v, !math.IsInf(v, 0)
}

// -----------------------------------------------------------------------------
// float64

func f1(f func(float64) float64) calcFn[float64] {
	return calcFn[float64]{1, func(a []float64) (float64, bool) { return f(a[0]), true }}
}

func f2(f func(a, b float64) float64) calcFn[float64] {
	return calcFn[float64]{2, func(a []float64) (float64, bool) { return f(a[0], a[1]), true }}
}

func numKind() *calcKind[float64] {
	pick := func(less func(a, b float64) bool) calcFn[float64] {
		return calcFn[float64]{-1, func(a []float64) (v float64, ok bool) {
			for i, x := range a {
				if i == 0 || less(x, v) {
					v = x
				}
			}
			return v, true
		}}
	}
	k := &calcKind[float64]{
		name: "number",
		fresh: func() (func(string) error, func() (float64, bool)) {
			calc := number.New()
			e, err := interpreter.New(calc, nil)
			if err != nil {
				panic(err)
			}
			return e.Eval, calc.Ret
		},
		show: func(v float64) string {
			if v != v {
				return "NaN"
			}
			return fmt.Sprintf("%v(%x)", v, math.Float64bits(v))
		},
		lit:    floatLit,
		ident:  map[string]float64{"e": math.E, "pi": math.Pi, "phi": math.Phi, "Inf": math.Inf(1), "NaN": math.NaN()},
		hasMod: true,
		neg:    func(a float64) float64 { return -a },
		bin: func(op string, a, b float64) (float64, bool) {
			switch op {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			case "/":
				return a / b, true
			}
			return math.Mod(a, b), true
		},
		small: map[string]bool{"jn": true, "yn": true, "ldexp": true, "pow10": true},
		args: []string{"2", "0", "0.5", "- 1", "- 0", "3.75", "Inf", "NaN", "- Inf", "1e-300", "1e300", "- 2.5", "1", "7", "- 0.25", "20",
			"5e-324", "- 5e-324", "1.7976931348623157e308", "- 1.7976931348623157e308", "2.2250738585072014e-308", "2.225073858507201e-308", "1e-320", "0.1", "1.5", "- 1.5", "0.9999999999999999", "1.0000000000000002",
			"9007199254740993", "4503599627370497.5", "4294967296", "2147483648", "- 2147483649", "9223372036854775807", "- 9223372036854775808", "18446744073709551615.", "1e16", "170", "171", "172", "- 170.5", "709.78", "710", "- 745", "- 746", "1e22", "1e23",
			"3.141592653589793", "1.5707963267948966", "6.283185307179586", "100000000", "1e-8", "1e-17", "0.6666666666666666", "1e154", "1.5e154", "1e-162", "64", "63.5"},
		exps:   []string{"0", "1", "- 1", "2.9", "- 2.9", "0.9", "- 0.9", "10", "- 10", "52", "- 52", "53", "300", "308", "309", "- 308", "- 323", "- 324", "- 325", "1021", "1022", "1023", "1024", "1025", "- 1021", "- 1022", "- 1023", "- 1024", "- 1073", "- 1074", "- 1075", "1100", "- 1100", "1500", "1999", "2000", "2046", "2047", "2048", "2097", "2098", "- 2000", "- 2097", "- 2098", "- 2099", "- 2100", "2100", "65536", "- 65536", "2147483647", "- 2147483648", "2147483648", "4294967295", "4294967296", "- 4294967296", "4294967297", "1e12", "- 1e12"},
		ints:   []string{"0", "1", "2", "- 1", "3", "- 2", "5", "10", "2.9", "- 2.5", "- 0.9", "0.9", "- 1.1", "- 3.5"},
		leaves: []string{"7", "2.5", "3", "1e308"},
		ops:    []string{"+", "-", "*", "/", "%"},
		seqs: [][]string{
			{"7", "2.5", "+", "-", "*", "/", "%", "(", ")", "max", ",", "pi"},
			{"3", "-", "*", "(", ")"},
			{"3", "1e400", "0x1F", "Inf", "e", "f", "+", "(", ")", ",", "abs", "NaN", "mod", "&", ";", "=="},
		},
	}
	k.funcs = map[string]calcFn[float64]{
		"abs": f1(math.Abs), "acos": f1(math.Acos), "acosh": f1(math.Acosh), "asin": f1(math.Asin), "asinh": f1(math.Asinh),
		"atan": f1(math.Atan), "atan2": f2(math.Atan2), "atanh": f1(math.Atanh), "cbrt": f1(math.Cbrt), "ceil": f1(math.Ceil),
		"copysign": f2(math.Copysign), "cos": f1(math.Cos), "cosh": f1(math.Cosh), "dim": f2(math.Dim), "erf": f1(math.Erf),
		"erfc": f1(math.Erfc), "exp": f1(math.Exp), "exp2": f1(math.Exp2), "expm1": f1(math.Expm1), "floor": f1(math.Floor),
		"gamma": f1(math.Gamma), "hypot": f2(math.Hypot),
		"inf": f1(func(a float64) float64 {
			if a < 0 {
				return math.Inf(-1)
			}
			return math.Inf(1)
		}),
		"j0": f1(math.J0), "j1": f1(math.J1), "jn": f2(func(a, b float64) float64 { return math.Jn(int(a), b) }),
		"ldexp": f2(func(a, b float64) float64 { return math.Ldexp(a, int(b)) }),
		"ln":    f1(math.Log), "log": f1(math.Log), "log10": f1(math.Log10), "log1p": f1(math.Log1p), "log2": f1(math.Log2), "logb": f1(math.Logb),
		"max": pick(func(a, b float64) bool { return a > b }), "min": pick(func(a, b float64) bool { return a < b }),
		"mod": f2(math.Mod), "NaN": {0, func([]float64) (float64, bool) { return math.NaN(), true }},
		"nextafter": f2(math.Nextafter), "pow": f2(math.Pow), "pow10": f1(func(a float64) float64 { return math.Pow10(int(a)) }),
		"remainder": f2(math.Remainder), "sin": f1(math.Sin), "sinh": f1(math.Sinh), "sqrt": f1(math.Sqrt), "tan": f1(math.Tan),
		"tanh": f1(math.Tanh), "trunc": f1(math.Trunc), "y0": f1(math.Y0), "y1": f1(math.Y1),
		"yn": f2(func(a, b float64) float64 { return math.Yn(int(a), b) }),
	}
	return k
}

// -----------------------------------------------------------------------------
// complex128

var reImag = regexp.MustCompile(`^([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?i$`)

func c1(f func(complex128) complex128) calcFn[complex128] {
	return calcFn[complex128]{1, func(a []complex128) (complex128, bool) { return f(a[0]), true }}
}

func cmplxKind() *calcKind[complex128] {
	f := func(v float64) string {
		if v != v {
			return "NaN"
		}
		return fmt.Sprintf("%v(%x)", v, math.Float64bits(v))
	}
	re2 := func(g func(a, b float64) complex128) calcFn[complex128] {
		return calcFn[complex128]{2, func(a []complex128) (complex128, bool) {
			if imag(a[0]) != 0 || imag(a[1]) != 0 {
				return 0, false
			}
			return g(real(a[0]), real(a[1])), true
		}}
	}
	return &calcKind[complex128]{
		name: "cmplx",
		fresh: func() (func(string) error, func() (complex128, bool)) {
			calc := tcmplx.New()
			e, err := interpreter.New(calc, nil)
			if err != nil {
				panic(err)
			}
			return e.Eval, calc.Ret
		},
		show: func(v complex128) string { return f(real(v)) + "," + f(imag(v)) },
		lit: func(t string) (complex128, bool) {
			if reImag.MatchString(t) { // decimal, whatever it begins with
				r, _ := new(big.Rat).SetString(t[:len(t)-1])
				v, _ := r.Float64()
				return complex(0, v), !math.IsInf(v, 0)
			}
			v, ok := floatLit(t)
			return complex(v, 0), ok
		},
		neg: func(a complex128) complex128 { return -a },
		bin: func(op string, a, b complex128) (complex128, bool) {
			switch op {
			case "+":
				return a + b, true
			case "-":
				return a - b, true
			case "*":
				return a * b, true
			}
			return a / b, true
		},
		args: []string{"2", "0", "0.5 + 2i", "- 1", "- 3i", "3.75", "1e300", "1 - 1i", "- 2.5 - 0.25i", "0i", "- 0", "1e-300i", "1 + 2i", "3 - 2i",
			"inf ( )", "NaN ( )", "- inf ( )", "1e308 + 1e308i", "1.7976931348623157e308", "5e-324", "5e-324i", "- 5e-324 + 5e-324i", "1e154 + 1.5e154i", "1e-162 + 1e-162i", "1i", "- 1i", "- 1 + 0i", "0.5", "- 0.5", "1.5", "- 1.5i", "710", "710i", "- 746", "1e8i", "1e16 + 1i", "1 + 1e16i", "3.141592653589793", "3.141592653589793i", "1.5707963267948966", "0.1 + 0.2i", "010i", "08i"},
		leaves: []string{"7", "2.5i", "3", "0"},
		ops:    []string{"+", "-", "*", "/"},
		seqs: [][]string{
			{"7", "2.5i", "+", "-", "*", "/", "%", "(", ")", "complex", ",", "pi"},
			{"3i", "-", "*", "(", ")"},
			{"3", "1e400", "0x1F", "1i", "e", "f", "+", "(", ")", ",", "abs", "rect", "real", "&", ";", "=="},
		},
		funcs: map[string]calcFn[complex128]{
			"abs": c1(func(a complex128) complex128 { return complex(cmplx.Abs(a), 0) }), "acos": c1(cmplx.Acos), "acosh": c1(cmplx.Acosh),
			"asin": c1(cmplx.Asin), "asinh": c1(cmplx.Asinh), "atan": c1(cmplx.Atan), "atanh": c1(cmplx.Atanh), "conj": c1(cmplx.Conj),
			"cos": c1(cmplx.Cos), "cosh": c1(cmplx.Cosh), "cot": c1(cmplx.Cot), "exp": c1(cmplx.Exp), "log": c1(cmplx.Log),
			"log10": c1(cmplx.Log10), "phase": c1(func(a complex128) complex128 { return complex(cmplx.Phase(a), 0) }),
			"pow": {2, func(a []complex128) (v complex128, ok bool) {
				if e := try(func() { v = cmplx.Pow(a[0], a[1]) }); e != nil {
					return 0, false
				}
				return v, true
			}},
			"inf":  {0, func([]complex128) (complex128, bool) { return cmplx.Inf(), true }},
			"NaN":  {0, func([]complex128) (complex128, bool) { return cmplx.NaN(), true }},
			"rect": re2(func(a, b float64) complex128 { return complex(a*math.Cos(b), a*math.Sin(b)) }),
			"sin":  c1(cmplx.Sin), "sinh": c1(cmplx.Sinh), "sqrt": c1(cmplx.Sqrt), "tan": c1(cmplx.Tan), "tanh": c1(cmplx.Tanh),
			"real":    c1(func(a complex128) complex128 { return complex(real(a), 0) }),
			"imag":    c1(func(a complex128) complex128 { return complex(imag(a), 0) }),
			"complex": re2(func(a, b float64) complex128 { return complex(a, b) }),
		},
	}
}

// -----------------------------------------------------------------------------
// rationals: the reference uses its own fraction arithmetic on big.Int

type frac struct{ n, d *big.Int } // d > 0, lowest terms

func mkFrac(n, d *big.Int) (*frac, bool) {
	if d.Sign() == 0 {
		return nil, false
	}
	g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(n), new(big.Int).Abs(d))
	if d.Sign() < 0 {
		g.Neg(g)
	}
	return &frac{new(big.Int).Quo(n, g), new(big.Int).Quo(d, g)}, true
}

func (a *frac) cmp(b *frac) int {
	return new(big.Int).Mul(a.n, b.d).Cmp(new(big.Int).Mul(b.n, a.d))
}

func ratKind() *calcKind[*frac] {
	mul := func(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
	one := big.NewInt(1)
	must := func(f *frac, ok bool) *frac { return f }
	pick := func(sign int) calcFn[*frac] {
		return calcFn[*frac]{-1, func(a []*frac) (v *frac, ok bool) {
			v = &frac{big.NewInt(0), one}
			for i, x := range a {
				if i == 0 || x.cmp(v) == sign {
					v = x
				}
			}
			return v, true
		}}
	}
	r1 := func(f func(a *frac) (*frac, bool)) calcFn[*frac] {
		return calcFn[*frac]{1, func(a []*frac) (*frac, bool) { return f(a[0]) }}
	}
	return &calcKind[*frac]{
		name: "rat",
		fresh: func() (func(string) error, func() (*frac, bool)) {
			calc := rat.New()
			e, err := interpreter.New(calc, nil)
			if err != nil {
				panic(err)
			}
			var prev *big.Rat // the result before this one
			var was string
			return e.Eval, func() (*frac, bool) {
				if prev != nil {
					if prev.RatString() != was {
						panic("a result changed from " + was + " to " + prev.RatString() + " afterwards")
					}
					prev.SetFrac64(-987, 654) // results belong to the caller
				}
				prev = nil
				v, ok := calc.Ret()
				if !ok {
					return nil, false
				}
				prev, was = v, v.RatString()
				return &frac{new(big.Int).Set(v.Num()), new(big.Int).Set(v.Denom())}, true
			}
		},
		show: func(v *frac) string {
			if v == nil {
				return "nil"
			}
			return clip(v.n.String() + "/" + v.d.String())
		},
		lit: func(t string) (*frac, bool) {
			n, ok := intLit(t)
			return &frac{n, one}, ok
		},
		neg: func(a *frac) *frac { return &frac{new(big.Int).Neg(a.n), a.d} },
		bin: func(op string, a, b *frac) (*frac, bool) {
			switch op {
			case "+":
				return mkFrac(new(big.Int).Add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d))
			case "-":
				return mkFrac(new(big.Int).Sub(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d))
			case "*":
				return mkFrac(mul(a.n, b.n), mul(a.d, b.d))
			}
			return mkFrac(mul(a.n, b.d), mul(a.d, b.n))
		},
		args: []string{"2", "0", "1 / 2", "- 1", "- 3 / 7", "123456789012345678901234567890", "123456789012345678901234567891", "22 / 7", "4 / 2", "- 6 / 4", "9223372036854775807", "9223372036854775808 / 3", "1 / 18446744073709551616", "100000000000000000001 / 100000000000000000000",
			"1", "3", "65536", "2147483647", "2147483648", "2147483649", "- 2147483648", "- 2147483649", "4294967295", "4294967296", "4294967297", "- 4294967296", "4611686018427387903", "4611686018427387904", "4611686018427387905", "- 9223372036854775807", "9223372036854775808", "- 9223372036854775808", "- 9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617", "- 18446744073709551616", "340282366920938463463374607431768211456",
			"1 / 2147483648", "1 / 4294967296", "- 1 / 4294967297", "4294967295 / 4294967297", "1 / 9223372036854775807", "1 / 9223372036854775808", "- 9223372036854775808 / 9223372036854775807", "1 / 18446744073709551615", "18446744073709551617 / 18446744073709551615", "3037000499", "3037000500", "- 3037000500", "3037000500 / 3037000501", "1000000007 / 998244353", "6 / 9223372036854775806"},
		leaves: []string{"7", "2", "12", "0"},
		ops:    []string{"+", "-", "*", "/"},
		seqs: [][]string{
			{"7", "0", "+", "-", "*", "/", "%", "(", ")", "max", ",", "pi"},
			{"3", "-", "/", "(", ")"},
			{"3", "1.5", "99999999999999999999", "1i", "e", "+", "(", ")", ",", "abs", "inv", "num", "&", ";", "denom", "/"},
		},
		funcs: map[string]calcFn[*frac]{
			"abs":   r1(func(a *frac) (*frac, bool) { return &frac{new(big.Int).Abs(a.n), a.d}, true }),
			"inv":   r1(func(a *frac) (*frac, bool) { return mkFrac(a.d, a.n) }),
			"num":   r1(func(a *frac) (*frac, bool) { return must(mkFrac(a.n, one)), true }),
			"denom": r1(func(a *frac) (*frac, bool) { return must(mkFrac(a.d, one)), true }),
			"max":   pick(1), "min": pick(-1),
		},
	}
}

// runRatFuncs calls the functions of package rat directly: they leave their arguments alone, and
// their results don't change afterwards.
func runRatFuncs(c *core.C) {
	k := ratKind()
	ops := map[string]string{"add": "+", "sub": "-", "mul": "*", "quo": "/"}
	direct := map[string]interface{}{"abs": rat.Abs, "inv": rat.Inv, "num": rat.Num, "denom": rat.Denom, "max": rat.Max, "min": rat.Min,
		"neg": rat.Neg, "add": rat.Add, "sub": rat.Sub, "mul": rat.Mul, "quo": rat.Quo}
	vals := [][2]int64{{0, 1}, {1, 1}, {-1, 1}, {2, 1}, {1, 2}, {-3, 7}, {22, 7}, {math.MaxInt64, 3}, {-5, math.MaxInt64}}
	big1 := new(big.Int).Lsh(big.NewInt(7), 70)
	mk := func(i int) *big.Rat {
		if i == len(vals) {
			return new(big.Rat).SetFrac(big1, big.NewInt(3))
		}
		return big.NewRat(vals[i][0], vals[i][1])
	}
	var names []string
	for n := range direct {
		names = append(names, n)
	}
	sortStrings(names)
	c.Family("functions of the package on all values: arguments and earlier results stay as they are")
	for _, n := range names {
		fn := reflect.ValueOf(direct[n])
		lo, hi := fn.Type().NumIn(), fn.Type().NumIn()
		if fn.Type().IsVariadic() {
			lo, hi = 0, 3
		}
		eachIdx(c, len(vals)+1, lo, hi, func(ix []int) {
			ix = cp(ix)
			c.Do(func() string { return fmt.Sprint("rat ", n, " of ", ix) }, func() string {
				var args []reflect.Value
				var fs []*frac
				var before []string
				for _, i := range ix {
					v := mk(i)
					args = append(args, reflect.ValueOf(v))
					before = append(before, v.RatString())
					fs = append(fs, &frac{new(big.Int).Set(v.Num()), new(big.Int).Set(v.Denom())})
				}
				var want *frac
				ok := true
				if op := ops[n]; op != "" {
					want, ok = k.bin(op, fs[0], fs[1])
				} else if n == "neg" {
					want = k.neg(fs[0])
				} else {
					want, ok = k.funcs[n].fn(fs)
				}
				c.AddTrace(1)
				c.AddStates(1)
				c.AddTransitions(2)
				var got, twice *big.Rat
				e := try(func() { got = fn.Call(args)[0].Interface().(*big.Rat) })
				for i, a := range args {
					if now := a.Interface().(*big.Rat).RatString(); now != before[i] {
						return fmt.Sprintf("argument %d was %s and is %s after the call", i, before[i], now)
					}
				}
				if (e == nil) != ok {
					return fmt.Sprintf("panic %v, want a value: %v", e, ok)
				}
				if !ok {
					return ""
				}
				c.Nontrivial(1)
				show := got.RatString()
				if w := new(big.Rat).SetFrac(want.n, want.d).RatString(); show != w {
					return fmt.Sprintf("gives %s, want %s", show, w)
				}
				try(func() { twice = fn.Call(args)[0].Interface().(*big.Rat) })
				if got.RatString() != show || twice == nil || twice.RatString() != show {
					return fmt.Sprintf("the second call gives %v, the result of the first is now %s", twice, got.RatString())
				}
				own := true
				for _, a := range args { // max and min may give an argument itself
					own = own && a.Interface().(*big.Rat) != got
				}
				if own {
					got.SetFrac64(-987, 654)
					var third *big.Rat
					try(func() { third = fn.Call(args)[0].Interface().(*big.Rat) })
					if third == nil || third.RatString() != show {
						return fmt.Sprintf("after the caller changed the result it owns, another call gives %v, want %s", third, show)
					}
				}
				return ""
			})
		})
	}
}

// -----------------------------------------------------------------------------
// histories

type calcOp struct {
	src string // "" : ask for the result
	two bool   // on the second calculator
}

func runCalcHist(c *core.C) {
	histKind(c, numKind(), []string{"2 * (3 + 4)", "max(1, 9, 4) - 2", "1 + ", "7 + nosuch(1, 2)", "3 + undef", "sin(1, 2) + 4", "8 * (6 + max(5", "-pi", ") 1", "1e999 + 1", "", "5 \"abc"})
	histKind(c, cmplxKind(), []string{"2i * (3 + 4)", "complex(1, 9) - 2", "1 + ", "7 + nosuch(1, 2)", "3 + undef", "sin(1, 2) + 4", "8 * (6 + abs(5", "-3", "5 + rect(1i, 2)", "", "1e999"})
	histKind(c, ratKind(), []string{"2 * (3 + 4)", "max(1, 9, 4) - 2", "1 + ", "7 + nosuch(1, 2)", "3 + undef", "inv(1, 2) + 4", "8 * (6 + max(5", "1/3", "4 - 1 / 0", "5 + inv(0)", "", "max()"})
}

func histKind[V any](c *core.C, k *calcKind[V], srcs []string) {
	type answer struct {
		ok  bool
		why string
		v   string
	}
	fresh := make([]answer, len(srcs))
	for i, s := range srcs {
		e, r := k.fresh()
		v, ok, why, bad := calcRun(e, r, s)
		fresh[i] = answer{ok, why + bad, ""}
		if ok {
			fresh[i].v = k.show(v)
		}
	}
	run := func(ops []int, two bool) string {
		var ev [2]func(string) error
		var rt [2]func() (V, bool)
		for j := range ev {
			ev[j], rt[j] = k.fresh()
		}
		last := [2]int{-1, -1} // index of the latest good evaluation that wasn't asked for yet
		asked := [2]bool{true, true}
		failed, good := false, false
		for _, op := range ops {
			j := 0
			if two {
				j, op = op%2, op/2
			}
			c.AddTransitions(1)
			if op == len(srcs) { // ask
				v, ok := rt[j]()
				if last[j] >= 0 && !asked[j] {
					if !ok || k.show(v) != fresh[last[j]].v {
						return fmt.Sprintf("result after %s: %v %s, a fresh calculator gives %s", core.Q(srcs[last[j]]), ok, k.show(v), fresh[last[j]].v)
					}
				} else if asked[j] && ok {
					return "a result without an evaluation: " + k.show(v)
				}
				asked[j], last[j] = true, -1
				continue
			}
			var err error
			e := try(func() { err = ev[j](srcs[op]) })
			ok := e == nil && err == nil
			if ok != fresh[op].ok {
				return fmt.Sprintf("%s: error %v, panic %v; a fresh calculator: value=%v %s", core.Q(srcs[op]), err, e, fresh[op].ok, fresh[op].why)
			}
			asked[j] = false
			if ok {
				last[j] = op
				if failed {
					good = true
				}
			} else {
				last[j] = -1
				failed = true
			}
		}
		c.AddTrace(1)
		c.AddStates(len(ops))
		if good {
			c.Nontrivial(1)
		}
		return ""
	}
	name := func(ops []int, two bool) string {
		var s []string
		for _, op := range ops {
			p := ""
			if two {
				p, op = fmt.Sprintf("#%d:", op%2), op/2
			}
			if op == len(srcs) {
				s = append(s, p+"Ret")
			} else {
				s = append(s, p+core.Q(srcs[op]))
			}
		}
		return k.name + " " + strings.Join(s, ", ")
	}
	c.Family(k.name + ": all histories on one calculator")
	eachIdx(c, len(srcs)+1, 1, c.Pick(4, 5), func(ix []int) {
		ops := append(cp(ix), len(srcs))
		c.Do(func() string { return name(ops, false) }, func() string { return run(ops, false) })
	})
	// calls of every function, one behind the other on the same calculator
	var fns []string
	for n := range k.funcs {
		fns = append(fns, n)
	}
	sortStrings(fns)
	type call struct {
		src string
		ok  bool
		v   string
	}
	list := func(n string, max int) (out []call) {
		f := k.funcs[n]
		arity := f.n
		if arity < 0 || arity > 2 {
			arity = 2
		}
		vals := append([]string{"0", "-0", "1", "-1"}, k.args...)
		if len(vals) > max {
			vals = vals[:max]
		}
		if arity == 2 && len(vals) > 7 {
			vals = vals[:7]
		}
		var rec func(args []string)
		rec = func(args []string) {
			if len(args) == arity {
				out = append(out, call{src: n + "(" + strings.Join(args, ", ") + ")"})
				return
			}
			vs := vals
			if k.small[n] && len(args) == k.smallArg(n) {
				vs = k.ints
				if n == "ldexp" || n == "pow10" {
					vs = k.exps
				}
				if len(vs) > 7 {
					vs = vs[:7]
				}
			}
			for _, v := range vs {
				rec(append(args[:len(args):len(args)], v))
			}
		}
		rec(nil)
		for i := range out {
			e, r := k.fresh()
			v, ok, _, _ := calcRun(e, r, out[i].src)
			if out[i].ok = ok; ok {
				out[i].v = k.show(v)
			}
		}
		return
	}
	walk := func(seq []call) string {
		e, r := k.fresh()
		for i, q := range seq {
			v, ok, _, _ := calcRun(e, r, q.src)
			if !ok {
				r()
			}
			if ok != q.ok || ok && k.show(v) != q.v {
				prev := ""
				if i > 0 {
					prev = seq[i-1].src
				}
				return fmt.Sprintf("%s behind %s gives %s (%v), on a fresh calculator %s (%v)", q.src, prev, k.show(v), ok, q.v, q.ok)
			}
		}
		c.AddTransitions(len(seq))
		c.AddStates(len(seq))
		c.AddTrace(1)
		c.Nontrivial(1)
		return ""
	}
	c.Family(k.name + ": all pairs of calls of a function, one behind the other")
	for _, n := range fns {
		n := n
		c.Do(func() string { return k.name + " " + n }, func() string {
			l := list(n, c.Pick(30, 60))
			var seq []call
			for _, a := range l {
				for _, b := range l {
					seq = append(seq, a, b)
				}
			}
			return walk(seq)
		})
	}
	c.Family(k.name + ": calls of all pairs of functions, one behind the other")
	for _, n := range fns {
		n := n
		c.Do(func() string { return k.name + " " + n + " and all others" }, func() string {
			l := list(n, c.Pick(5, 9))
			var seq []call
			for _, m := range fns {
				for i, b := range list(m, c.Pick(5, 9)) {
					if len(l) > 0 {
						seq = append(seq, l[i%len(l)], b, l[i%len(l)])
					}
				}
			}
			return walk(seq)
		})
	}
	c.Family(k.name + ": all histories on two calculators in turn")
	eachIdx(c, 2*len(srcs)+2, 2, c.Pick(2, 3), func(ix []int) {
		ops := append(cp(ix), 2*len(srcs), 2*len(srcs)+1)
		c.Do(func() string { return name(ops, true) }, func() string { return run(ops, true) })
	})
	c.Family(k.name + ": long histories")
	for _, p := range pumpsUpTo(c.Pick(257, 2049)) {
		for a := range srcs {
			for b := range srcs {
				ops := make([]int, 0, p+3)
				for j := 0; j < p; j++ {
					ops = append(ops, a)
				}
				ops = append(ops, b, len(srcs), len(srcs))
				c.Do(func() string {
					return fmt.Sprintf("%s %d times %s, then %s", k.name, p, core.Q(srcs[a]), core.Q(srcs[b]))
				},
					func() string { return run(ops, false) })
			}
		}
	}
}
