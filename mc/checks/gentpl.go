package checks

import (
	"context"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
	"verif/mc/peg"
	"verif/mc/static"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
)

func init() {
	core.Register(&core.Check{
		ID:   "C28",
		Rule: "a case is one program for which the real tplgen command generated an interpreter, or one expression evaluated by a generated calculator; the generated interpreter is compared with the model of C17 (marks) or with the dynamic engine (calculators); non-trivial: functions are called",
		Assumptions: []string{"functions with a *Context parameter or three parameters are not supported by generated interpreters and left out",
			"the calculators' dynamic engines are checked by C20 to C22"},
		Run: runC28,
	})
}

// iptCase is one program given to tplgen.
type iptCase struct {
	key   string
	file  string // the Go source with the grammar
	args  []string
	rules *peg.Rules // nil for calculators
	srcs  []string
	stale string   // content of the output file before the run
	list  []markFn // functions of the table, nil for markTable
}

// opTexts and opToks are the tokens that select a branch of a dispatching program.
var (
	opTexts = strings.Fields("+ - * / % & | ^ < > = ! ( ) [ ] { } : .")
	opToks  = []uint{tpl.ADD, tpl.SUB, tpl.MUL, tpl.QUO, tpl.REM, tpl.AND, tpl.OR, tpl.XOR, tpl.LT, tpl.GT, tpl.ASSIGN, tpl.NOT, tpl.LPAREN, tpl.RPAREN, tpl.LBRACK, tpl.RBRACK, tpl.LBRACE, tpl.RBRACE, tpl.COLON, tpl.PERIOD}
)

// staticMarks are the functions generated interpreters can call: those of C17, and ones that take a place.
func staticMarks() (list []markFn) {
	for _, m := range append(markTable(), moreMarks()...) {
		if m.name != "ctx" && m.name != "three" && m.name != "IPTLEN" && !strings.HasPrefix(m.name, "nested") {
			list = append(list, m)
		}
	}
	place := func(s *markSys, e peg.Event) string {
		if e.From == e.To {
			return ":0"
		}
		return fmt.Sprintf("%s:%d", s.file, s.in.line(s.in.toks[e.From].Off))
	}
	return append(list, markFn{"fline", func(p *testIpt) interface{} {
		return func(s *logStack, v *util.FileLine) { p.log = append(p.log, fmt.Sprintf("fline %s:%d", v.File, v.Line)) }
	}, place, 0}, markFn{"_fline", func(p *testIpt) interface{} {
		return func(s *testIpt, v *util.FileLine) error {
			p.log = append(p.log, fmt.Sprintf("_fline %s:%d", v.File, v.Line))
			return nil
		}
	}, place, 0})
}

// dispatchCases are programs that run any sequence of marks: each branch of a repeated alternative
// starts with its own token.
func dispatchCases(add func(*peg.Rules, []string, []markFn)) {
	list := staticMarks()
	for lo := 0; lo < len(list); lo += len(opToks) {
		hi := lo + len(opToks)
		if hi > len(list) {
			hi = len(list)
		}
		for _, u := range []*peg.Node{peg.U(peg.Star, nFloat), peg.U(peg.Opt, nID)} {
			var root *peg.Node
			var srcs []string
			args := []string{"", " 12", "\n1.5 7", " 0777777777777777777777", " 01777777777777777777777", " 0x7fffffffffffffff", " 0x8000000000000000", " 9223372036854775807", " 9223372036854775808", " 037777777777", " 4294967296 1", " 1e300", " 010.5"}
			if u.Op == peg.Opt {
				args = []string{"", "\na", " longname"}
			}
			for i := lo; i < hi; i++ {
				b := peg.B(peg.And, peg.T(opToks[i-lo]), peg.M(u.Copy(), list[i].name))
				if root == nil {
					root = b
				} else {
					root = peg.B(peg.Or, root, b)
				}
				for _, a := range args {
					srcs = append(srcs, opTexts[i-lo]+a)
					for j := lo; j < hi; j++ {
						srcs = append(srcs, opTexts[i-lo]+a+" "+opTexts[j-lo], opTexts[j-lo]+" "+opTexts[i-lo]+a)
					}
				}
			}
			add(doc1(peg.U(peg.Star, root)), srcs, list)
		}
	}
}

// muteCase runs any sequence of muting marks and functions.
func muteCase(max int) (*peg.Rules, []string) {
	var root *peg.Node
	names := []string{"_mute", "_unmute", "src", "_src", "_nop", "LEN", "_LEN"}
	for i, n := range names {
		b := peg.M(peg.T(opToks[i]), n)
		if root == nil {
			root = b
		} else {
			root = peg.B(peg.Or, root, b)
		}
	}
	return doc1(peg.U(peg.Star, root)), spaced(opTexts[:len(names)], max)
}

var iptMarks = []string{"nop", "str", "int", "long", "flt", "src", "eng", "LEN", "_LEN", "_src", "_nop", "iptstr", "fail", "boom", "odd", "plain", "pick"}

func iptCases(tier string) (out []iptCase) {
	decls := []func(text string) (string, []string){
		func(t string) (string, []string) { return "const grammar = `" + t + "`\n", nil },
		func(t string) (string, []string) {
			return "var grammar = " + strconv.Quote(t) + "\n", []string{"-g", "grammar"}
		},
		func(t string) (string, []string) {
			return "var other = `doc = IDENT`\n\nconst (\n\ta = 1\n\tGrammar, gram2 = `doc = INT`, `" + t + "`\n)\n", []string{"-g", "gram2"}
		},
		func(t string) (string, []string) {
			return "const gram = `doc = FLOAT`\n\nfunc f() string {\n\tgrammar := `" + t + "`\n\treturn grammar\n}\n", nil
		},
		func(t string) (string, []string) {
			return "func f() string {\n\tn := 1\n\tconst x, grammar = 7, " + strconv.Quote(t) + "\n\treturn grammar[n-1:]\n}\n", nil
		},
		func(t string) (string, []string) {
			return "var grammar string\n\nfunc init() {\n\tx, y := pair()\n\t_, _ = x, y\n\tx, grammar = \"doc = CHAR\", `" + t + "`\n}\n\nfunc pair() (string, int) { return \"\", 0 }\n", nil
		},
		func(t string) (string, []string) {
			return "func f() string {\n\tgrammar, x, y := `" + t + "`, `doc = CHAR`, \"doc = STRING\"\n\t_, _ = x, y\n\treturn grammar\n}\n", nil
		},
		func(t string) (string, []string) {
			return "const a, grammar, z = `doc = CHAR`, " + strconv.Quote(t) + ", `doc = STRING`\n", nil
		},
		func(t string) (string, []string) {
			return "var gram2, z = `" + t + "`, `doc = STRING`\n\nvar grammar = `doc = CHAR`\n", []string{"-g", "gram2"}
		},
		func(t string) (string, []string) {
			return "var a, grammar, z string\n\nfunc init() {\n\ta, grammar, z = `doc = CHAR`, `" + t + "`, `doc = STRING`\n}\n", nil
		},
		func(t string) (string, []string) {
			return "import \"strings\"\n\nfunc asm(x int) int\n\ntype T struct{ grammar string }\n\nfunc (p *T) M() { p.grammar = strings.TrimSpace(\"doc = CHAR\") }\n\nfunc last() string {\n\tif true {\n\t}\n\tvar grammar = " + strconv.Quote(t) + "\n\treturn grammar\n}\n", nil
		},
	}
	add := func(r *peg.Rules, srcs []string) {
		k := len(out)
		decl, args := decls[k%len(decls)](r.Text())
		c := iptCase{key: fmt.Sprint("m", k), file: "package gen\n\n" + decl, args: args, rules: r, srcs: srcs}
		if k%3 == 1 {
			c.stale = "package other\n\nthis isn't Go\n"
		} else if k%3 == 2 {
			c.stale = "package gen\n\nconst grammar = `doc = STRING`\n" + strings.Repeat("// a long file\n", 3000)
		}
		out = append(out, c)
	}
	one := spaced([]string{"a", "12", "1.5", `"s"`, ","}, 2)
	one = append(one, "0x1f 017", "017", "0x1F", "99999999999999999999", "a 010", "a\n1, 2\n", "\n\na\n\n7", "1,2,3,4", "a 1 2 3")
	units := []*peg.Node{nID, nInt, nFloat, peg.U(peg.Star, nInt), peg.U(peg.Opt, nID), peg.B(peg.List, nInt, nComma), peg.B(peg.And, nID, nInt)}
	if tier != "thorough" {
		units = []*peg.Node{nInt, peg.U(peg.Star, nInt), peg.B(peg.And, nID, nInt)}
	}
	for _, n := range iptMarks {
		for _, u := range units {
			add(doc1(peg.B(peg.Or, peg.B(peg.And, peg.M(u.Copy(), n), nComma.Copy()), peg.M(u.Copy(), n), peg.M(nID.Copy(), "str"))), one)
		}
		add(doc1(peg.B(peg.And, peg.M(nID.Copy(), n), peg.M(peg.U(peg.Star, nInt.Copy()), "LEN"))), []string{"a", "a 1 2", "a b", "a\n1"})
	}
	mm := []string{"_mute", "_unmute", "nop", "str", "_nop", "_LEN", "boom"}
	c := &core.C{Tier: tier}
	c.Family("x")
	eachIdx(c, len(mm), 2, c.Pick(2, 3), func(ix []int) {
		var kids []*peg.Node
		for _, i := range ix {
			kids = append(kids, peg.M(nID.Copy(), mm[i]))
		}
		src := strings.TrimSpace(rep("a ", len(ix)))
		add(doc1(peg.B(peg.And, kids...)), []string{src, src + " b", src})
	})
	dispatchCases(func(r *peg.Rules, srcs []string, list []markFn) {
		add(r, srcs)
		out[len(out)-1].list = list
	})
	add(muteCase(c.Pick(4, 6)))
	for i, g := range evalCodeGrammars {
		out = append(out, iptCase{key: fmt.Sprint("sub", i), file: "package gen\n\nconst grammar = " + strconv.Quote(g) + "\n"})
	}
	for k, g := range map[string]string{"caller": callerGrammar, "trace": traceGrammar} {
		out = append(out, iptCase{key: k, file: "package gen\n\nconst grammar = " + strconv.Quote(g) + "\n"})
	}
	for _, g := range nestGrammars() {
		out = append(out, iptCase{key: nestKey(g), file: "package gen\n\nconst grammar = " + strconv.Quote(g) + "\n"})
	}
	for _, k := range calcKinds {
		out = append(out, iptCase{key: k, file: "package gen\n\nconst grammar = `" + calcGrammar(k) + "`\n"})
	}
	return
}

var calcKinds = []string{"number", "cmplx", "rat"}

func calcGrammar(kind string) string { return newCalc(kind).Grammar() }

func newCalc(kind string) util.Interface {
	switch kind {
	case "number":
		return number.New()
	case "cmplx":
		return cmplx.New()
	}
	return rat.New()
}

// WriteTplgen runs the tplgen command on all programs, in dir, a copy of the mc module.
func WriteTplgen(dir, tier, tplgen string) error {
	fset := token.NewFileSet()
	imp := cachedImporter{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}
	main := "package main\n\nimport (\n"
	bads := "package static\n\nfunc init() {\n"
	for _, p := range iptCases(tier) {
		d := filepath.Join(dir, "static", "t"+p.key)
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
		if bad := runTplgen(fset, imp, tplgen, d, p); bad != "" {
			os.RemoveAll(d)
			bads += fmt.Sprintf("\tAddIpt(&Ipt{Key: %q, Bad: %q})\n", p.key, bad)
			continue
		}
		reg := fmt.Sprintf(`package gen

import (
	"verif/mc/static"

	"github.com/qiniu/text/tpl"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

func init() {
	static.AddIpt(&static.Ipt{Key: %q, New: func(ipt util.Interface, s tpl.Tokener, mode tpl.ScanMode, nilOptions bool) (util.Engine, *tpl.CompileRet, func() util.Interface, error) {
		opt := &Options{Scanner: s, ScanMode: mode}
		if nilOptions {
			opt = nil
		}
		e, err := NewStaticInterpreter(ipt, opt)
		if err != nil {
			return nil, nil, nil, err
		}
		return e, e.CompileRet, func() util.Interface { return e.Interpreter }, nil
	}})
}
`, p.key)
		if err := os.WriteFile(filepath.Join(d, "register.go"), []byte(reg), 0644); err != nil {
			return err
		}
		main += fmt.Sprintf("\t_ \"verif/mc/static/t%s\"\n", p.key)
	}
	// the calculators with the command of their go:generate line
	for _, kind := range calcKinds {
		d := filepath.Join(dir, "static", "own"+kind)
		if err := os.MkdirAll(d, 0755); err != nil {
			return err
		}
		src, _ := filepath.Glob(filepath.Join(repoDir(), "tpl", kind, "*.go"))
		names := []string{"static_interpreter.go"}
		for _, f := range src {
			b, err := os.ReadFile(f)
			if err != nil || strings.HasSuffix(f, "_test.go") {
				continue
			}
			names = append(names, filepath.Base(f))
			if err := os.WriteFile(filepath.Join(d, filepath.Base(f)), b, 0644); err != nil {
				return err
			}
		}
		bad := tplgenIn(tplgen, d, "-i", "-g", "Grammar", "-f", names[0])
		if bad == "" {
			bad = checkFiles(fset, imp, d, names)
		}
		os.RemoveAll(d)
		bads += fmt.Sprintf("\tAddIpt(&Ipt{Key: %q, Bad: %q})\n", "own"+kind, bad)
	}
	if err := os.WriteFile(filepath.Join(dir, "static", "bad.go"), []byte(bads+"}\n"), 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "static_import.go"), []byte(main+")\n"), 0644)
}

// runTplgen runs the command in its own directory and type checks the result.
func runTplgen(fset *token.FileSet, imp types.Importer, tplgen, d string, p iptCase) (bad string) {
	if err := os.WriteFile(filepath.Join(d, "ipt.go"), []byte(p.file), 0644); err != nil {
		return err.Error()
	}
	if strings.Contains(p.file, "func asm(") { // its body
		if err := os.WriteFile(filepath.Join(d, "stub.s"), nil, 0644); err != nil {
			return err.Error()
		}
	}
	outName := "static_compiler.go"
	args := append([]string{"-i"}, p.args...)
	if len(p.key)%2 == 1 {
		outName = "static_interpreter.go"
		args = append(args, "-f", outName)
	}
	if p.stale != "" {
		os.WriteFile(filepath.Join(d, outName), []byte(p.stale), 0644)
	}
	if bad := tplgenIn(tplgen, d, args...); bad != "" {
		return bad
	}
	return checkFiles(fset, imp, d, []string{"ipt.go", outName})
}

func tplgenIn(tplgen, d string, args ...string) string {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, tplgen, args...)
	cmd.Dir = d
	text, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Sprintf("tplgen %s: %v\n%s", strings.Join(args, " "), err, text)
	}
	return ""
}

func checkFiles(fset *token.FileSet, imp types.Importer, d string, names []string) string {
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(fset, filepath.Join(d, n), nil, 0)
		if err != nil {
			return fmt.Sprintf("after tplgen: %v", err)
		}
		files = append(files, f)
	}
	if _, err := (&types.Config{Importer: imp}).Check(files[0].Name.Name, fset, files, nil); err != nil {
		return fmt.Sprintf("the generated file doesn't compile: %v", err)
	}
	return ""
}

// staticEngine makes a generated engine.
func staticEngine(key string, ipt util.Interface, variant int) (anyEng, func() util.Interface, error) {
	e := static.Ipts[key]
	if e == nil {
		return anyEng{}, nil, errors.New("harness: nothing was generated")
	}
	if e.Bad != "" {
		return anyEng{}, nil, errors.New(e.Bad)
	}
	var s tpl.Tokener
	if variant == 2 {
		s = new(tpl.AutoKwScanner)
	}
	eng, ret, cur, err := e.New(ipt, s, 0, variant == 0)
	if err != nil {
		return anyEng{}, nil, err
	}
	if s != nil && ret.Scanner != s {
		return anyEng{}, nil, errors.New("the given scanner isn't used")
	}
	return anyEng{eng, ret}, cur, nil
}

func runC28(c *core.C) {
	c.Family("marks: generated interpreters against the model")
	for _, p := range iptCases(c.Tier) {
		p := p
		if p.rules == nil {
			continue
		}
		for v := 0; v < 3; v++ {
			v := v
			c.Do(func() string {
				return fmt.Sprintf("tplgen %v on %q, sources %s", p.args, p.file, clip(fmt.Sprintf("%q", p.srcs)))
			}, func() string {
				list := p.list
				if list == nil {
					list = markTable()
				}
				return markCaseOf(c, p.rules, p.srcs, 0, "f.x", list, func(ipt *testIpt) (anyEng, error) {
					for k := range ipt.fns { // unsupported ones must not be referenced
						if k == "$ctx" || k == "$three" || k == "$IPTLEN" {
							delete(ipt.fns, k)
						}
					}
					eng, _, err := staticEngine(p.key, ipt, v)
					return eng, err
				}, func(e interface{}) (string, bool) {
					err, ok := e.(error)
					if !ok {
						return "", false
					}
					if _, ok := e.(*tpl.MatchError); ok || fmt.Sprintf("%T", e) != "*gen.RuntimeError" {
						return "", false
					}
					return err.Error(), true
				})
			})
		}
	}
	c.Family("EvalCode inside an action")
	for depth := 1; depth <= 4; depth++ {
		for _, fail := range []bool{false, true} {
			for muted := 0; muted < 2; muted++ {
				depth, fail, muted := depth, fail, muted
				c.Do(func() string { return fmt.Sprint("EvalCode depth ", depth, " fail ", fail, " muted ", muted) }, func() string {
					c.Nontrivial(1)
					return evalCodeCase(depth, fail, muted == 1, false, func(ipt *testIpt) (anyEng, func() util.Interface, error) {
						return staticEngine(fmt.Sprint("sub", muted), ipt, depth%3)
					})
				})
			}
		}
	}
	c.Family("evaluations inside evaluations, muted and failing")
	for _, nc := range nestCases(nestDepth) {
		nc := nc
		c.Do(nc.String, func() string {
			c.Nontrivial(1)
			return nc.run(func(ipt *testIpt) (anyEng, func() util.Interface, error) {
				return staticEngine(nestKey(ipt.grammar), ipt, len(nc.marks)%3)
			})
		})
	}
	callerCases(c, func(ipt util.Interface) (anyEng, error) { e, _, err := staticEngine("caller", ipt, 0); return e, err })
	traceCases(c, func(ipt util.Interface) (anyEng, error) { e, _, err := staticEngine("trace", ipt, 0); return e, err })
	c.Family("scan mode")
	for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis, tpl.ScanComments} {
		mode := mode
		c.Do(func() string { return fmt.Sprint("scan mode ", mode) }, func() string {
			if _, _, err := staticEngine("number", number.New(), 0); err != nil {
				return err.Error()
			}
			_, ret, _, err := static.Ipts["number"].New(number.New(), nil, mode, false)
			if err != nil {
				return err.Error()
			}
			toks, err := ret.Tokenize([]byte("1 // c\n"), "")
			want := 1
			if mode != 0 {
				want = 2
			}
			if err != nil || len(toks) != want {
				return fmt.Sprintf("%d tokens, want %d (%v)", len(toks), want, err)
			}
			return ""
		})
	}
	c.Family("go generate in the calculators' packages")
	for _, k := range calcKinds {
		k := k
		c.Do(func() string { return "tplgen -i -g Grammar -f static_interpreter.go in a copy of package " + k }, func() string {
			if e := static.Ipts["own"+k]; e == nil || e.Bad != "" {
				return fmt.Sprint(e.Bad)
			}
			return ""
		})
	}
	for _, k := range calcKinds {
		calcStatic(c, k)
	}
}

const nestDepth = 3

func nestGrammars() (out []string) {
	seen := map[string]bool{}
	for _, nc := range nestCases(nestDepth) {
		if g := nestGrammar(nc.marks); !seen[g] {
			seen[g] = true
			out = append(out, g)
		}
	}
	return
}

func nestKey(g string) string {
	for i, h := range nestGrammars() {
		if h == g {
			return fmt.Sprint("nest", i)
		}
	}
	return "none"
}

func calcStatic(c *core.C, kind string) {
	dynIpt, stIpt := newCalc(kind), newCalc(kind)
	dyn, err := interpreter.New(dynIpt, nil)
	st, _, serr := staticEngine(kind, stIpt, 0)
	one := func(src string) {
		c.Do(func() string { return fmt.Sprintf("%s: %q", kind, src) }, func() string {
			if err != nil || serr != nil {
				return fmt.Sprintf("no engine: %v %v", err, serr)
			}
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(1)
			a, aok := evalAny(dyn.Eval, dynIpt, src)
			b, bok := evalAny(st.CompileRet.Eval, stIpt, src)
			if a != b || aok != bok {
				return fmt.Sprintf("the generated interpreter gives %q (ok %v), the dynamic one %q (ok %v)", b, bok, a, aok)
			}
			if aok {
				c.Nontrivial(1)
			}
			c.Outcome(a)
			return ""
		})
	}
	atoms := []string{"7", "010", "0x1F", "2.5", "+", "-", "*", "/", "(", ")", "max", ",", "pi"}
	if kind == "cmplx" {
		atoms[3], atoms[10] = "2.5i", "complex"
	}
	c.Family(kind + ": all token strings over " + strings.Join(atoms, " "))
	eachIdx(c, len(atoms), 0, c.Pick(4, 6), func(ix []int) {
		var w []string
		for _, i := range ix {
			w = append(w, atoms[i])
		}
		one(strings.Join(w, " "))
	})
	c.Family(kind + ": functions")
	names := []string{}
	for name := range newCalc(kind).Fntable() {
		if !strings.HasPrefix(name, "$") {
			names = append(names, name)
		}
	}
	sortStrings(names)
	for _, n := range names {
		for _, args := range []string{"", "2", "2, 3", "0.5, 3, 1", "1,", "-1", "0", "n"} {
			one(n + "(" + args + ")")
			one("1 + " + n + "(" + args + ") * 2")
		}
	}
	c.Family(kind + ": literals")
	for _, l := range []string{"0", "00", "08", "010", "0777", "0x", "0xff", "0XfF", "07777777777777777777777", "0xffffffffffffffffff", "9223372036854775807", "9223372036854775808", "99999999999999999999999", "1e3", "010.5", "1e400", ".5", "5.", "010e2", "1i", "'a'", `"s"`} {
		one(l)
		one("-" + l)
		one(l + " + 1")
	}
}

// evalAny evaluates and shows the calculator's result.
func evalAny(eval func(string) error, ipt util.Interface, src string) (s string, ok bool) {
	var err error
	e := try(func() { err = eval(src) })
	switch p := ipt.(type) {
	case *number.Calculator:
		v, k := p.Ret()
		s, ok = fmt.Sprint(v), k
	case *cmplx.Calculator:
		v, k := p.Ret()
		s, ok = fmt.Sprint(v), k
	case *rat.Calculator:
		v, k := p.Ret()
		s, ok = fmt.Sprint(v), k
	}
	if e != nil || err != nil {
		return "failed", false
	}
	return
}
