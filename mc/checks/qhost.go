package checks

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"

	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	"github.com/qiniu/text/tpl/qlang/spec"
)

func init() {
	core.Register(&core.Check{
		ID:   "C37",
		Rule: "a case is one call of a Go function or method (all signatures times all argument tuples up to a length), one member access of a Go value, one history of evaluations, variable changes and calls from Go, or one history of imports; results, arguments seen by the Go function and outcome are compared with an independent table; non-trivial: the call succeeds",
		Assumptions: []string{"nil for a slice, map or func parameter, results of type uint8 and of named types aren't specified",
			"what an Import that panics has imported isn't specified"},
		Run: runC37,
	})
}

// hostFn is a Go function with a description that the oracle uses.
type hostFn struct {
	name string
	in   string // kinds of the parameters; the last may begin with ...
	fn   interface{}
	out  interface{} // result as the script sees it
	fail string      // "": succeeds; "error:..." fails with the text; "raw" panics with 5
}

func hlog(a ...interface{}) {
	for _, v := range a {
		qlog = append(qlog, qdescribe(v))
	}
}

type hostPoint struct {
	X, Y  int
	Name  string
	Next  *hostPoint
	Items []int
	F     float64
	Any   interface{}
	priv  int

	FooBar  int
	URLPath string
	Été     int
	Ab_cD   int
	X9Y     int
	N64     int64
}

func (p *hostPoint) GetItAll() int { return 41 }
func (p *hostPoint) Às(n int) int  { return n + 42 }
func (p *hostPoint) Five() (int8, uint16, float32, int64, string) {
	return -1, 2, 1.5, 1 << 40, "five"
}

func (p *hostPoint) Sum() int                  { return p.X + p.Y }
func (p *hostPoint) Add(d int)                 { p.X += d }
func (p *hostPoint) Both() (int, string)       { return p.X, p.Name }
func (p *hostPoint) Scale(f float64) float64   { return f * float64(p.X) }
func (p *hostPoint) Joined(a ...string) string { return p.Name + strings.Join(a, "") }
func (p hostPoint) Copy() *hostPoint           { return &p }
func (p *hostPoint) Boom() int                 { panic("boom in Go") }

type hostAuto struct{ N int }

func (p *hostAuto) Size() int      { return p.N }
func (p *hostAuto) Grow(d int) int { p.N += d; return p.N }
func (p *hostAuto) Pair() (int, int) {
	return p.N, -p.N
}

// hostNum is registered for calls without arguments as a value only, hostPtr as a pointer only, hostMap is a map with methods.
type hostNum struct{ N int }

func (p hostNum) Num() int       { return p.N }
func (p hostNum) Plus(d int) int { return p.N + d }

type hostPtr struct{ N int }

func (p hostPtr) Num() int { return p.N }

type hostErr struct{ s string }

func (e *hostErr) Error() string { return e.s }

func hostFns() []*hostFn {
	return []*hostFn{
		{name: "none", fn: func() { hlog("none") }},
		{name: "i", in: "int", fn: func(a int) int { hlog(a); return 3 }, out: 3},
		{name: "f", in: "float", fn: func(a float64) float64 { hlog(a); return 2.5 }, out: 2.5},
		{name: "s", in: "string", fn: func(a string) string { hlog(a); return "res" }, out: "res"},
		{name: "b", in: "bool", fn: func(a bool) bool { hlog(a); return true }, out: true},
		{name: "c", in: "byte", fn: func(a byte) string { hlog(a); return "c" }, out: "c"},
		{name: "v", in: "any", fn: func(a interface{}) interface{} { hlog(a); return nil }, out: nil},
		{name: "e", in: "err", fn: func(a error) error { return nil }, out: nil},
		{name: "p", in: "ptr", fn: func(a *hostPoint) bool { hlog(a == nil); return a == nil }, out: true},
		{name: "li", in: "[]int", fn: func(a []int) []int { hlog(a); return []int{1, 2} }, out: []int{1, 2}},
		{name: "lv", in: "[]any", fn: func(a []interface{}) { hlog(a) }},
		{name: "m", in: "map", fn: func(a map[string]int) map[string]int { hlog(a); return map[string]int{"q": 1} }, out: map[string]int{"q": 1}},
		{name: "if_", in: "int float", fn: func(a int, b float64) { hlog(a, b) }},
		{name: "sv", in: "string any", fn: func(a string, b interface{}) string { hlog(a, b); return a }, out: nil},
		{name: "ffs", in: "float float string", fn: func(a, b float64, s string) { hlog(a, b, s) }},
		{name: "vi", in: "...int", fn: func(a ...int) int { hlog(a); return 1 }, out: 1},
		{name: "vf", in: "...float", fn: func(a ...float64) int { hlog(a); return 1 }, out: 1},
		{name: "vv", in: "...any", fn: func(a ...interface{}) int { hlog(a); return 1 }, out: 1},
		{name: "ivs", in: "int ...string", fn: func(a int, b ...string) { hlog(a, b) }},
		{name: "svv", in: "string ...any", fn: func(a string, b ...interface{}) { hlog(a, b) }},
		{name: "two", in: "int", fn: func(a int) (int, error) { hlog(a); return 7, nil }, out: []interface{}{7, nil}},
		{name: "three", fn: func() (string, int8, float32) { return "x", -4, 1.5 }, out: []interface{}{"x", -4, 1.5}},
		{name: "five", in: "int", fn: func(a int) (int8, uint16, float32, int64, string) {
			hlog(a)
			return -1, 2, 1.5, 1 << 40, "five"
		}, out: []interface{}{-1, 2, 1.5, 1 << 40, "five"}},
		{name: "twelve", fn: func() (a, b int8, d, e uint32, f, g float32, h, i int64, j, k uint, l, m int16) {
			return 1, -2, 3, 4, 5.5, 6.25, 7, -8, 9, 10, 11, -12
		}, out: []interface{}{1, -2, 3, 4, 5.5, 6.25, 7, -8, 9, 10, 11, -12}},
		{name: "i8", fn: func() int8 { return -8 }, out: -8},
		{name: "i16", fn: func() int16 { return 16 }, out: 16},
		{name: "i32", fn: func() int32 { return -32 }, out: -32},
		{name: "i64", fn: func() int64 { return 1 << 40 }, out: 1 << 40},
		{name: "u", fn: func() uint { return 9 }, out: 9},
		{name: "u16", fn: func() uint16 { return 65535 }, out: 65535},
		{name: "u32", fn: func() uint32 { return 1 << 31 }, out: 1 << 31},
		{name: "u64", fn: func() uint64 { return 1 << 50 }, out: 1 << 50},
		{name: "me", fn: func() map[string]int { return map[string]int{} }, out: map[string]int{}},
		{name: "le", fn: func() []int { return []int{} }, out: []int{}},
		{name: "lve", fn: func() []interface{} { return []interface{}{} }, out: []interface{}{}},
		{name: "mve", fn: func() map[string]interface{} { return map[string]interface{}{} }, out: map[string]interface{}{}},
		{name: "se", fn: func() string { return "" }, out: ""},
		{name: "bf", fn: func() bool { return false }, out: false},
		{name: "i0", fn: func() int32 { return 0 }, out: 0},
		{name: "f0", fn: func() float32 { return 0 }, out: 0.0},
		{name: "ve", fn: func() interface{} { return []string{} }, out: []string{}},
		{name: "two0", fn: func() ([]int, map[string]int) { return []int{}, map[string]int{} }, out: []interface{}{[]int{}, map[string]int{}}},
		{name: "f32", fn: func() float32 { return 0.25 }, out: 0.25},
		{name: "perr", in: "any", fn: func(a interface{}) { hlog(a); panic(&hostErr{"bad thing"}) }, fail: "error:bad thing"},
		{name: "pstr", in: "any", fn: func(a interface{}) { hlog(a); panic("bad text") }, fail: "error:bad text"},
		{name: "praw", in: "any", fn: func(a interface{}) { hlog(a); panic(5) }, fail: "raw"},
		{name: "pnil", fn: func() { var m map[string]int; m["a"] = 1 }, fail: "error:"},
	}
}

var hostTable = map[string]interface{}{}

// each calls the function of a script for 0, 1, ..., n-1.
func hostEach(n int, f interface{}) interface{} {
	var last interface{}
	for i := 0; i < n; i++ {
		last = f.(interface {
			Call(...interface{}) interface{}
		}).Call(i)
	}
	return last
}

func init() {
	for _, f := range hostFns() {
		hostTable[f.name] = f.fn
	}
	hostTable["each"] = hostEach
	hostTable["pi"] = 3.25
	hostTable["list"] = []int{4, 5}
	qlang.Import("hm", hostTable)
	qlang.SetAutoCall(reflect.TypeOf((*hostAuto)(nil)))
	qlang.SetAutoCall(reflect.TypeOf(hostNum{}))
	qlang.SetAutoCall(reflect.TypeOf((*hostPtr)(nil)))
}

// fits decides whether a script value can be passed for a parameter, and as what.
func fits(kind string, v interface{}) (w interface{}, ok, open bool) {
	switch kind {
	case "any":
		return v, true, false
	case "int":
		_, ok = v.(int)
	case "string":
		_, ok = v.(string)
	case "bool":
		_, ok = v.(bool)
	case "byte":
		_, ok = v.(byte)
	case "float":
		switch x := v.(type) {
		case int:
			return float64(x), true, false
		case byte:
			return float64(x), true, false
		case float64:
			return x, true, false
		}
		return nil, false, false
	case "err":
		if v == nil || v == qref.Undefined {
			return nil, true, false
		}
		return nil, false, false
	case "ptr":
		return nil, v == nil, false
	case "[]int":
		_, ok = v.([]int)
		open = v == nil
	case "[]any":
		_, ok = v.([]interface{})
		open = v == nil
	case "map":
		_, ok = v.(map[string]int)
		open = v == nil
	}
	return v, ok, open
}

// expect is the effect of a call.
func (h *hostFn) expect(args []interface{}) (log []string, ok, open bool) {
	kinds := strings.Fields(h.in)
	variadic := len(kinds) > 0 && strings.HasPrefix(kinds[len(kinds)-1], "...")
	fixed := len(kinds)
	if variadic {
		fixed--
	}
	if len(args) < fixed || !variadic && len(args) > fixed {
		return nil, false, false
	}
	var seen []interface{}
	var rest []string
	for i, a := range args {
		k := ""
		if i < fixed {
			k = kinds[i]
		} else {
			k = kinds[fixed][3:]
		}
		w, good, op := fits(k, a)
		if op {
			return nil, false, true
		}
		if !good {
			return nil, false, false
		}
		switch {
		case k == "err":
		case k == "ptr":
			seen = append(seen, true)
		case i < fixed:
			seen = append(seen, w)
		default:
			rest = append(rest, qref.Describe(w, nil))
		}
	}
	if h.name == "none" {
		seen = append(seen, "none")
	}
	for _, v := range seen {
		log = append(log, qref.Describe(v, nil))
	}
	if variadic {
		t := map[string]string{"...int": "[]int", "...float": "[]float64", "...any": "[]interface {}", "...string": "[]string"}[kinds[fixed]]
		log = append(log, t+"["+strings.Join(rest, ", ")+"]")
	}
	return log, true, false
}

func runC37(c *core.C) {
	type hval struct {
		e *qref.N
		v interface{}
	}
	vals := []hval{{qL(nil), nil}, {qL(7), 7}, {qref.Un("-", qL(2)), -2}, {qL(2.5), 2.5}, {qL("str"), "str"}, {qL(true), true}, {qL(byte('z')), byte('z')}, {qref.List(qL(1), qL(2)), []int{1, 2}},
		{qref.List(qL(1), qL("a")), []interface{}{1, "a"}}, {qref.Map(qL("k"), qL(1)), map[string]int{"k": 1}}, {qref.List(), []interface{}(nil)}, {qV("undefined"), qref.Undefined}}
	decide := func(src string, h *hostFn, args []interface{}) {
		c.Do(func() string { return src }, func() string {
			log, ok, open := h.expect(args)
			if open {
				return ""
			}
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(1)
			q := qget(false)
			qlog = nil
			kind, text := qshow(q, src)
			want := "ok"
			switch {
			case !ok:
				want = "error"
			case strings.HasPrefix(h.fail, "error:"):
				want = "error"
			case h.fail == "raw":
				want = "raw"
			}
			if kind != want {
				qpool[0] = nil
				return fmt.Sprintf("ends with %s %q, want %s", kind, text, want)
			}
			c.Outcome(fmt.Sprint(kind, log))
			if !ok {
				if len(qlog) > 0 {
					return fmt.Sprintf("the function was called with %q", qlog)
				}
				return ""
			}
			if d := matchAll(log, qlog); d != "" {
				return "arguments: " + d
			}
			if want == "error" && h.fail != "error:" && !strings.HasSuffix(text, ": runtime error: "+h.fail[6:]) {
				return fmt.Sprintf("error %q", text)
			}
			if want != "ok" {
				return ""
			}
			c.Nontrivial(1)
			out := h.out
			if h.name == "sv" {
				out = args[0]
			}
			r, set := q.Var("r")
			if d, w := qdescribe(r), qref.Describe(out, nil); !set || d != w {
				return fmt.Sprintf("result %s, want %s", d, w)
			}
			return ""
		})
	}
	fns := hostFns()
	c.Family("calls of Go functions")
	for _, h := range fns {
		eachIdx(c, len(vals), 0, c.Pick(3, 4), func(ix []int) {
			if len(ix) > len(strings.Fields(h.in))+1 && !strings.Contains(h.in, "...") {
				return
			}
			var e []*qref.N
			var a []interface{}
			for _, i := range ix {
				e, a = append(e, vals[i].e), append(a, vals[i].v)
			}
			decide(qref.Text([]*qref.N{qref.Set("r", qref.Call(qref.Mem(qV("hm"), h.name), e...))}, false), h, a)
			if len(ix) == 0 {
				return
			}
			// spread the last one
			r := reflect.ValueOf(a[len(a)-1])
			if r.Kind() != reflect.Slice {
				return
			}
			b := append([]interface{}{}, a[:len(a)-1]...)
			for i := 0; i < r.Len(); i++ {
				b = append(b, r.Index(i).Interface())
			}
			decide(qref.Text([]*qref.N{qref.Set("r", qref.Spread(qref.Mem(qV("hm"), h.name), e...))}, false), h, b)
			if len(ix) == 1 {
				decide(qref.Text([]*qref.N{qref.Set("g", qref.Mem(qV("hm"), h.name)), qref.Set("r", qref.CallN("g", e...))}, false), h, a)
			}
		})
	}
	hostLists(c)
	c.Family("members of Go values")
	hostMembers(c)
	c.Family("script functions called by Go functions")
	each := qref.Builtin(2, func(m *qref.Machine, a []qref.Value) (last qref.Value) {
		n, ok := a[0].(int)
		if !ok {
			qref.Fail()
		}
		for i := 0; i < n; i++ {
			last = m.Apply(a[1], i)
		}
		return
	})
	B, S := qref.B, qref.Set
	x := qV("x")
	bodies := []*qref.N{mark(), qref.Inc("x"), x, qref.Ret(qV("i")), qref.Ret(x), qref.Defer(mark()), qC("panic", qL("p")), qref.If(qref.Bin("==", qV("i"), qL(1)), B(qref.Ret(qL("one")))), S("y", qC("each", qV("i"), qref.Fn("j", false, qC("t", qV("j")), qref.Ret(qV("j"))))),
		qref.Defer(qref.Call(qref.Fn("", false, S("e", qref.Recover()), qC("t", qV("e"))))), S("z", qref.Fn("k", false, tr(1))), qref.If(qref.Bin(">", qV("i"), qL(1)), B(qref.Bin("+", qL(1), qL("a"))))}
	newGen(bodies, nil).each(c, 1, c.Pick(3, 4), func(b []*qref.N) {
		for _, ctx := range [][]*qref.N{B(S("r", qC("each", qL(3), qV("f")))), B(S("g", qref.Fn("", false, S("w", qref.List(tr(1), qC("each", qL(2), qV("f")), tr(2))), qref.Ret(qV("w")))), S("r", qref.List(tr(3), qC("g"), tr(4))))} {
			prog := append(B(S("x", qL(10)), S("f", qref.Fn("i", false, qref.CopyBlock(b)...))), ctx...)
			hostProg(c, qref.CopyBlock(prog), each)
		}
	})
	for _, f := range []*qref.N{qref.Fn("", false, qref.Ret(qL(1))), qref.Fn("a, b", false), qref.Fn("a", true, qref.Ret(qC("len", qV("a")))), qref.Fn("a b", true, qref.Ret(qC("len", qV("b")))), qL(3), qL(nil), qV("max"), qref.Mem(qref.New("C"), "m"), qref.Mem(qV("C"), "m")} {
		for n := 0; n < 3; n++ {
			if n > 0 && f.Op == "var" { // a Go function has no Call method
				continue
			}
			prog := B(S("C", qref.Class(qref.Method("m", "a", false, qC("t", qV("a")), qref.Ret(qL(5))))), S("r", qC("each", qL(n), f)))
			hostProg(c, qref.CopyBlock(prog), each)
		}
	}
	c.Family("histories of evaluations, changes of variables and calls from Go")
	hostHist(c)
	c.Family("histories of imports")
	hostImports(c)
	c.Family("imports of what exists")
	for _, safe := range []bool{false, true} {
		for _, n := range sortedKeys(spec.Fntable) {
			n, safe := n, safe
			c.Do(func() string { return n }, func() string {
				c.AddStates(1)
				c.AddTransitions(1)
				c.AddTrace(1)
				old := spec.Fntable[n]
				spec.SafeMode = safe
				defer func() {
					spec.SafeMode = false
					spec.Fntable[n] = old
				}()
				// operators of fewer operands are only declared until a package defines them
				mine := func() int { return 42 }
				e := try(func() { qlang.Import("", map[string]interface{}{n: mine}) })
				if e == nil {
					return "was replaced"
				}
				if reflect.ValueOf(spec.Fntable[n]).Kind() == reflect.Func && reflect.ValueOf(spec.Fntable[n]).Pointer() == reflect.ValueOf(mine).Pointer() {
					return "was refused and replaced"
				}
				e = try(func() { qlang.Import(n, map[string]interface{}{"f": mine}) })
				if e == nil {
					return "was replaced by a module"
				}
				c.Nontrivial(1)
				return ""
			})
		}
	}
}

// hostProg is qprog with each as a function.
func hostProg(c *core.C, prog []*qref.N, each *qref.Closure) {
	c.Do(func() string { return clip(qref.Text(prog, false)) }, func() string {
		m := qref.NewMachine()
		m.Max = 3000
		b := map[string]qref.Value{"each": each}
		for k, v := range m.Builtins {
			b[k] = v
		}
		m.Builtins = b
		out := m.Run(prog)
		if out.Over {
			return ""
		}
		c.AddTrace(1)
		c.AddStates(m.Steps)
		c.AddTransitions(m.Steps)
		if out.Kind == "ok" {
			c.Nontrivial(1)
		}
		c.Outcome(out.Kind + strings.Join(m.Log, ";"))
		src := strings.Replace(qref.Text(prog, false), "each(", "hm.each(", -1)
		if msg := qcompare(qget(false), src, m, out); msg != "" {
			qpool[0] = nil
			if msg = qcompare(qnew(false), src, m, out); msg != "" {
				return msg + "\nsource:\n" + src
			}
		}
		return ""
	})
}

func hostMembers(c *core.C) {
	type want struct {
		src  string
		r    interface{} // expected value of r; errMember if it fails
		desc string
	}
	bad := errors.New("fails")
	p := func() map[string]interface{} {
		second := &hostPoint{X: 50, Name: "second"}
		return map[string]interface{}{
			"p": &hostPoint{X: 3, Y: 4, Name: "pt", Next: second, Items: []int{7, 8}, F: 1.5, Any: "any", FooBar: 61, URLPath: "/u", Été: 62, Ab_cD: 63, X9Y: 64, N64: 65},
			"v": hostPoint{X: 30, Name: "val"},
			"a": &hostAuto{N: 6}, "nv": hostNum{4}, "np": &hostNum{5}, "pv": hostPtr{6}, "pp": &hostPtr{7},
			"n": (*hostPoint)(nil),
			"m": map[string]interface{}{"k": 1, "X": "upper", "x": "lower", "f": func(a int) int { return a * 2 }},
			"i": map[int]int{1: 2},
			"e": error(&hostErr{"text"}),
		}
	}
	for _, w := range []want{
		{"r = p.fooBar", 61, ""}, {"r = p.FooBar", 61, ""}, {"r = p.foobar", bad, ""}, {"r = p.uRLPath", "/u", ""}, {"r = p.URLPath", "/u", ""}, {"r = p.urlPath", bad, ""}, {"r = p.été", 62, ""}, {"r = p.Été", 62, ""}, {"r = p.ab_cD", 63, ""}, {"r = p.ab_cd", bad, ""}, {"r = p.x9Y", 64, ""}, {"r = p.x9y", bad, ""},
		{"r = p.getItAll()", 41, ""}, {"r = p.GetItAll()", 41, ""}, {"r = p.getitall()", bad, ""}, {"r = p.às(1)", 43, ""}, {"r = p.Às(2)", 44, ""}, {"r = p.five()", []interface{}{-1, 2, 1.5, 1 << 40, "five"}, ""}, {"a1, a2, a3, a4, a5 = p.five(); r = [a1, a2, a4]", []int{-1, 2, 1 << 40}, ""},
		{"r = p.x", 3, ""}, {"r = p.X", 3, ""}, {"r = p.name", "pt", ""}, {"r = p.next.name", "second", ""}, {"r = p.next.next == nil", nil, "any"}, {"r = p.items[1]", 8, ""}, {"r = p.f", 1.5, ""}, {"r = p.any", "any", ""},
		{"r = p.priv", bad, ""}, {"r = p.nope", bad, ""}, {"r = p.sum()", 7, ""}, {"r = p.sum", nil, "function"}, {"s = p.sum; p.add(10); r = s()", 17, ""}, {"p.add(5); r = p.x", 8, ""}, {"r = p.add(5)", nil, ""}, {"r = p.both()", []interface{}{3, "pt"}, ""},
		{"a1, b1 = p.both(); r = b1", "pt", ""}, {"r = p.scale(2)", 6.0, ""}, {"r = p.scale(0.5)", 1.5, ""}, {"r = p.scale(\"x\")", bad, ""}, {"r = p.scale()", bad, ""}, {"r = p.joined()", "pt", ""}, {"r = p.joined(\"a\", \"b\")", "ptab", ""}, {"r = p.joined([\"a\", \"b\"]...)", "ptab", ""}, {"r = p.joined(1)", bad, ""},
		{"q = p.copy(); q.add(1); r = [p.x, q.x]", []int{3, 4}, ""}, {"r = p.boom()", bad, ""},
		{"r = v.x", 30, ""}, {"r = v.name", "val", ""}, {"r = v.copy().x", 30, ""}, {"r = v.add", bad, ""}, {"r = v.sum()", bad, ""},
		{"r = a.size", 6, ""}, {"r = a.size + a.n", 12, ""}, {"r = a.size()", bad, ""}, {"r = a.grow(3)", 9, ""}, {"a.grow(3); r = a.size", 9, ""}, {"r = a.grow", nil, "function"}, {"r = a.pair", []interface{}{6, -6}, ""},
		{"r = nv.num", 4, ""}, {"r = nv.num()", bad, ""}, {"r = np.num", nil, "function"}, {"r = np.num()", 5, ""}, {"r = nv.plus(3)", 7, ""}, {"r = np.plus(3)", 8, ""}, {"r = np.n", 5, ""}, {"r = nv.n", 4, ""},
		{"r = pv.num", nil, "function"}, {"r = pv.num()", 6, ""}, {"r = pp.num", 7, ""}, {"r = pp.num()", bad, ""}, {"r = nv.num + np.num() + pv.num() + pp.num", 22, ""},
		{"r = m.k", 1, ""}, {"r = m.X", "upper", ""}, {"r = m.x", "lower", ""}, {"r = m.f(4)", 8, ""}, {"r = m.zz", bad, ""}, {"r = m[\"k\"]", 1, ""}, {"set(m, \"k\", 5); r = m.k", 5, ""}, {"r = i.x", bad, ""}, {"r = i[1]", 2, ""},
		{"r = e.error()", "text", ""}, {"r = e.nope", bad, ""}, {"r = n.x", bad, ""}, {"r = hm.pi", 3.25, ""}, {"r = hm.list[0]", 4, ""}, {"r = hm.nope", bad, ""}, {"r = nil.x", bad, ""}, {"r = (3).x", bad, ""}, {"r = \"s\".x", bad, ""},
		{"r = p.x + p.y * p.next.x", 203, ""}, {"r = [p.sum(), p.next.sum(), a.size]", []int{7, 50, 6}, ""}, {"f = fn(o) { return o.x }; r = f(p) + f(p.next)", 53, ""}, {"r = max(p.x, p.y)", 4, ""},
	} {
		w := w
		for layout := 0; layout < 2; layout++ {
			c.Do(func() string { return w.src }, func() string {
				c.AddTrace(1)
				c.AddStates(1)
				c.AddTransitions(1)
				q := qget(layout == 1)
				for n, v := range p() {
					q.SetVar(n, v)
				}
				kind, text := qshow(q, w.src)
				c.Outcome(kind)
				if w.r == bad {
					if kind != "error" {
						return fmt.Sprintf("ends with %s %q, want an error", kind, text)
					}
					return ""
				}
				if kind != "ok" {
					return fmt.Sprintf("ends with %s %q", kind, text)
				}
				c.Nontrivial(1)
				r, ok := q.Var("r")
				d := qdescribe(r)
				wd := w.desc
				if wd == "" {
					wd = qref.Describe(w.r, nil)
				}
				if !ok || wd != "any" && d != wd {
					return fmt.Sprintf("r is %s, want %s", d, wd)
				}
				return ""
			})
		}
	}
}

// hostHist: a script function and variables are used from Go between evaluations.
func hostHist(c *core.C) {
	type state struct {
		q    qlang.Qlang
		n    int         // counter of the script
		f    interface{} // *qcl.Function, held by Go
		gen  int         // which definition f is
		defd int         // which definition the script has, 0: none
		held bool
	}
	type op struct {
		name string
		do   func(s *state) string
	}
	eval := func(s *state, src string) error { return s.q.SafeEval(src) }
	check := func(s *state) string {
		if v, ok := s.q.Var("n"); !ok || v != s.n {
			return fmt.Sprintf("n is %v, want %d", v, s.n)
		}
		return ""
	}
	ops := []op{
		{"define f", func(s *state) string {
			if err := eval(s, "f = fn(d) { n; n += d; return n * 2 }"); err != nil {
				return err.Error()
			}
			s.defd = 1
			return ""
		}},
		{"define f again", func(s *state) string {
			if err := eval(s, "f = fn(d) { n; n -= d; if n < 0 { panic(\"negative\") }; return \"again\" }"); err != nil {
				return err.Error()
			}
			s.defd = 2
			return ""
		}},
		{"Go takes f", func(s *state) string {
			s.f, s.held = s.q.Var("f")
			s.gen = s.defd
			if s.held != (s.defd > 0) {
				return fmt.Sprint("Var gives ", s.held)
			}
			return ""
		}},
		{"Go calls f(3)", func(s *state) string { return hostCall(s.f, s.gen, &s.n, 3) }},
		{"Go calls f(-4)", func(s *state) string { return hostCall(s.f, s.gen, &s.n, -4) }},
		{"eval f(2)", func(s *state) string {
			err := eval(s, "r = f(2)")
			switch s.defd {
			case 0:
				if err == nil {
					return "no error"
				}
				return ""
			case 1:
				s.n += 2
			case 2:
				s.n -= 2
				if s.n < 0 {
					if err == nil || !strings.HasSuffix(err.Error(), ": runtime error: negative") {
						return fmt.Sprint("error ", err)
					}
					return ""
				}
			}
			if err != nil {
				return err.Error()
			}
			return ""
		}},
		{"SetVar n", func(s *state) string {
			s.n = 50
			s.q.SetVar("n", 50)
			return ""
		}},
		{"eval n++", func(s *state) string {
			s.n++
			if err := eval(s, "n++"); err != nil {
				return err.Error()
			}
			return ""
		}},
		{"eval fails", func(s *state) string {
			s.n += 100
			if err := eval(s, "n += 100; x = [1, n + nil]"); err == nil {
				return "no error"
			}
			return ""
		}},
		{"Go passes f to a script variable", func(s *state) string {
			if s.f == nil {
				return ""
			}
			s.q.SetVar("f", s.f)
			s.defd = s.gen
			return ""
		}},
	}
	eachIdx(c, len(ops), 1, c.Pick(4, 5), func(ix []int) {
		ix = cp(ix)
		c.Do(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, ops[i].name)
			}
			return strings.Join(s, "; ")
		}, func() string {
			st := &state{q: qget(false)}
			st.q.SetVar("n", 0)
			for k, i := range ix {
				c.AddStates(1)
				c.AddTransitions(1)
				msg := ops[i].do(st)
				if msg == "" {
					msg = check(st)
				}
				if msg != "" {
					qpool[0] = nil
					return fmt.Sprintf("step %d: %s", k, msg)
				}
			}
			c.AddTrace(1)
			c.Nontrivial(1)
			c.Outcome(fmt.Sprint(st.n, st.gen))
			return ""
		})
	})
}

func hostCall(f interface{}, gen int, n *int, d int) string {
	if f == nil {
		return ""
	}
	var r interface{}
	e := try(func() { r = f.(*qcl.Function).Call(d) })
	switch gen {
	case 1:
		*n += d
		if e != nil || r != *n*2 {
			return fmt.Sprintf("f gives %v, %v, want %d", r, e, *n*2)
		}
	case 2:
		*n -= d
		if *n < 0 {
			if err, ok := e.(error); !ok || !strings.HasSuffix(err.Error(), ": runtime error: negative") {
				return fmt.Sprintf("panic %v", e)
			}
			return ""
		}
		if e != nil || r != "again" {
			return fmt.Sprintf("f gives %v, %v", r, e)
		}
	}
	return ""
}

// hostImports: modules and functions are imported, in safe mode and not.
func hostImports(c *core.C) {
	var serial int
	type op struct {
		name string
		safe int // set safe mode: 1 on, 2 off
		mod  string
		tab  string // names of functions; "!" safe initializer, "?" bad one
	}
	ops := []op{
		{name: "safe mode on", safe: 1}, {name: "safe mode off", safe: 2},
		{name: "import A{f,g}", mod: "A", tab: "f g"}, {name: "import A{h}", mod: "A", tab: "h"}, {name: "import B{f} with _initSafe", mod: "B", tab: "f !"}, {name: "import B{f} with bad _initSafe", mod: "B", tab: "f ?"},
		{name: "import {x}", tab: "x"}, {name: "import {x,y}", tab: "x y"}, {name: "import {y} with _initSafe", tab: "y !"}, {name: "import {A}", tab: "A"},
	}
	eachIdx(c, len(ops), 1, c.Pick(4, 5), func(ix []int) {
		ix = cp(ix)
		c.Do(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, ops[i].name)
			}
			return strings.Join(s, "; ")
		}, func() string {
			serial++
			suffix := fmt.Sprintf("q%d", serial)
			defer func() {
				spec.SafeMode = false
				for n := range spec.Fntable { // as they were
					if strings.HasSuffix(n, suffix) {
						delete(spec.Fntable, n)
					}
				}
				delete(spec.Fntable, "_initSafe")
			}()
			safe := false
			names := map[string]string{} // expression -> value: number of the import, or "dummy"
			taken := map[string]bool{}
			for k, i := range ix {
				o := ops[i]
				c.AddStates(1)
				c.AddTransitions(1)
				if o.safe > 0 {
					safe = o.safe == 1
					spec.SafeMode = safe
					continue
				}
				tab := map[string]interface{}{}
				k := k
				init, badInit := false, false
				var fs []string
				for _, n := range strings.Fields(o.tab) {
					switch n {
					case "!":
						init = true
						tab["_initSafe"] = func(t map[string]interface{}, dummy func(...interface{}) interface{}) {
							for n := range t {
								if n != "_initSafe" {
									t[n] = dummy
								}
							}
							delete(t, "_initSafe")
						}
					case "?":
						badInit = true
						tab["_initSafe"] = func() {}
					default:
						if o.mod == "" {
							n += suffix
						}
						fs = append(fs, n)
						tab[n] = func() int { return k }
					}
				}
				if !safe {
					delete(tab, "_initSafe")
				}
				mod := o.mod
				clash := false
				if mod != "" {
					mod += suffix
					clash = taken[mod]
				} else {
					for _, n := range fs {
						clash = clash || taken[n]
					}
				}
				e := try(func() { qlang.Import(mod, tab) })
				if want := clash || safe && badInit; (e != nil) != want {
					return fmt.Sprintf("step %d: Import panics with %v, want panic=%v", k, e, want)
				}
				if e != nil {
					if clash && mod == "" && len(fs) > 1 {
						return "" // half imported
					}
					continue
				}
				if mod != "" {
					taken[mod] = true
				}
				for _, n := range fs {
					v := fmt.Sprint(k)
					if safe && init {
						v = "dummy"
					}
					if mod != "" {
						names[mod+"."+n] = v
					} else {
						names[n] = v
						taken[n] = true
					}
				}
			}
			q := qget(false)
			for n, v := range names {
				err := q.SafeEval("r = " + n + "()")
				r, _ := q.Var("r")
				if v == "dummy" {
					if err == nil {
						return n + " isn't disabled"
					}
					continue
				}
				if err != nil || fmt.Sprint(r) != v {
					return fmt.Sprintf("%s() gives %v, %v, want %s", n, r, err, v)
				}
			}
			c.AddTrace(1)
			c.Nontrivial(1)
			c.Outcome(fmt.Sprint(len(names), safe))
			return ""
		})
	})
}
