package checks

import (
	"fmt"
	"math"
	"math/big"
	"os"
	"reflect"
	"strings"
	"syscall"

	"verif/mc/core"

	tcmplx "github.com/qiniu/text/tpl/cmplx"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
	"github.com/qiniu/text/tpl/number"
	"github.com/qiniu/text/tpl/rat"
)

// ---------------------------------------------------------------------------
// C19: functions a user adds to a calculator's table, and direct calls

// calcTables adds functions with results of all kinds to the calculators' tables and calls them.
func calcTables(c *core.C) {
	c.Family("functions added to the tables of the calculators: results of all kinds")
	type res struct {
		v    interface{}
		num  float64 // its value for number
		isN  bool
		cx   complex128
		isCx bool
		rt   *big.Rat
	}
	n := func(v interface{}, f float64) res { return res{v, f, true, complex(f, 0), true, nil} }
	results := []res{n(3, 3), n(-4, -4), n(int8(-3), -3), n(int16(300), 300), n(int32(-70000), -70000), n(int64(1<<40), 1<<40), n(int64(math.MinInt64), math.MinInt64),
		n(uint(3), 3), n(uint8(200), 200), n(uint16(60000), 60000), n(uint32(4000000000), 4000000000), n(uint64(1<<63), 1<<63), n(uint64(math.MaxUint64), math.MaxUint64), n(uintptr(9), 9),
		n(float32(0.5), 0.5), n(2.5, 2.5), n(math.Inf(1), math.Inf(1)), n(0, 0),
		{v: complex64(1 + 2i), cx: 1 + 2i, isCx: true}, {v: 3i, cx: 3i, isCx: true}, {v: "s"}, {v: true}, {v: []float64{1}}, {v: (*big.Int)(nil)}, {v: big.NewRat(7, 3), rt: big.NewRat(7, 3)}}
	mkFn := func(v interface{}) interface{} {
		t := reflect.FuncOf(nil, []reflect.Type{reflect.TypeOf(v)}, false)
		return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return []reflect.Value{reflect.ValueOf(v)} }).Interface()
	}
	for i, r := range results {
		for _, kind := range []string{"number", "cmplx", "rat"} {
			for _, expr := range []string{"vz()", "vz() * 2", "1 + vz()", "abs(vz())", "vz(1)", "7 - (vz() + vz())"} {
				r, kind, expr := r, kind, expr
				c.Do(func() string { return fmt.Sprintf("%s: %s where vz gives %T %v (%d)", kind, expr, r.v, r.v, i) }, func() string {
					c.AddTrace(1)
					c.AddStates(1)
					c.AddTransitions(1)
					ok := expr != "vz(1)"
					var want, got string
					var gok bool
					var err error
					run := func(table map[string]interface{}, ipt util.Interface, ret func() (string, bool)) string {
						table["vz"] = mkFn(r.v)
						defer delete(table, "vz")
						eng, e := interpreter.New(ipt, nil)
						if e != nil {
							return e.Error()
						}
						if e := try(func() { err = eng.Eval(expr) }); e != nil {
							err = fmt.Errorf("panic %v", e)
						}
						got, gok = ret()
						return ""
					}
					bad := ""
					switch kind {
					case "number":
						ok = ok && r.isN
						want = fmt.Sprint(map[string]float64{"vz()": r.num, "vz() * 2": r.num * 2, "1 + vz()": 1 + r.num, "abs(vz())": math.Abs(r.num), "7 - (vz() + vz())": 7 - (r.num + r.num)}[expr])
						k := number.New()
						bad = run(number.Fntable, k, func() (string, bool) { v, ok := k.Ret(); return fmt.Sprint(v), ok })
					case "cmplx":
						ok = ok && r.isCx
						z := kx(expr, r.cx)
						want = fmt.Sprint(z)
						k := tcmplx.New()
						bad = run(tcmplx.Fntable, k, func() (string, bool) { v, ok := k.Ret(); return fmt.Sprint(v), ok })
					case "rat":
						ok = ok && r.rt != nil
						if ok {
							seven, two, one := big.NewRat(7, 1), big.NewRat(2, 1), big.NewRat(1, 1)
							w := map[string]*big.Rat{"vz()": r.rt, "vz() * 2": new(big.Rat).Mul(r.rt, two), "1 + vz()": new(big.Rat).Add(one, r.rt), "abs(vz())": new(big.Rat).Abs(r.rt),
								"7 - (vz() + vz())": new(big.Rat).Sub(seven, new(big.Rat).Add(r.rt, r.rt))}[expr]
							want = w.RatString()
						}
						k := rat.New()
						bad = run(rat.Fntable, k, func() (string, bool) {
							v, ok := k.Ret()
							if !ok {
								return "", false
							}
							return v.RatString(), true
						})
					}
					if bad != "" {
						return bad
					}
					if (err == nil) != ok {
						return fmt.Sprintf("error %v, want a value: %v", err, ok)
					}
					if !ok {
						return ""
					}
					c.Nontrivial(1)
					if !gok || got != want {
						return fmt.Sprintf("gives %s (%v), want %s", got, gok, want)
					}
					c.Outcome(got)
					return ""
				})
			}
		}
	}
	c.Family("the calculators' Call on stacks of all sizes")
	for _, kind := range []string{"number", "cmplx", "rat"} {
		for _, name := range []string{"abs", "max", "min", "pow", "complex", "inv", "num", "nosuch", ""} {
			for depth := 0; depth <= 3; depth++ {
				for arity := -2; arity <= 4; arity++ { // -2: no arity on the stack at all
					kind, name, depth, arity := kind, name, depth, arity
					c.Do(func() string { return fmt.Sprintf("%s.Call(%q) with %d values and arity %d", kind, name, depth, arity) }, func() string {
						c.AddTrace(1)
						c.AddStates(1)
						c.AddTransitions(1)
						need := map[string]map[string]int{"number": {"abs": 1, "max": -1, "min": -1, "pow": 2}, "cmplx": {"abs": 1, "pow": 2, "complex": 2}, "rat": {"abs": 1, "max": -1, "min": -1, "inv": 1, "num": 1}}[kind]
						want, known := need[name]
						n := arity
						have := depth
						if arity == -2 {
							if depth == 0 {
								n = -1
							} else { // the last value is taken for the arity
								n, have = depth+1, depth-1
							}
						}
						ok := known && n >= 0 && n <= have && (want == n || want == -1)
						if n == -1 && arity == -1 { // a negative count is no count
							ok = false
						}
						var err error
						var rest int
						do := func(call func(string) error, push func(float64), size func() int) interface{} {
							for i := 0; i < depth; i++ {
								push(float64(i + 2))
							}
							if arity != -2 {
								push(float64(arity))
							}
							e := try(func() { err = call(name) })
							rest = size()
							return e
						}
						var e interface{}
						switch kind {
						case "number":
							k := number.New()
							s := k.Stack().(*number.Stack)
							e = do(k.Call, func(f float64) { s.Push(f) }, func() int { return len(*s) })
						case "cmplx":
							k := tcmplx.New()
							s := k.Stack().(*tcmplx.Stack)
							e = do(k.Call, func(f float64) { s.PushReal(f) }, func() int { return len(*s) })
						case "rat":
							k := rat.New()
							s := k.Stack().(*rat.Stack)
							e = do(k.Call, func(f float64) { s.PushInt(int64(f)) }, func() int { return len(*s) })
						}
						if good := e == nil && err == nil; good != ok {
							return fmt.Sprintf("error %v, panic %v, want success: %v", err, e, ok)
						}
						if ok {
							c.Nontrivial(1)
							if rest != have-n+1 {
								return fmt.Sprintf("%d values left, want %d", rest, have-n+1)
							}
						}
						return ""
					})
				}
			}
		}
	}
	c.Family("VCall on stacks that are too small")
	for size := 0; size <= 3; size++ {
		for arity := 0; arity <= 4; arity++ {
			size, arity := size, arity
			c.Do(func() string { return fmt.Sprintf("VCall with arity %d on %d values", arity, size) }, func() string {
				c.AddTrace(1)
				c.AddStates(1)
				c.AddTransitions(1)
				called := -1
				f := func(a ...interface{}) { called = len(a) }
				s := &logStack{}
				for i := 0; i < size; i++ {
					if i == size-1-arity {
						s.v = append(s.v, f)
					} else {
						s.v = append(s.v, i)
					}
				}
				var err error
				e := try(func() { err = util.VCall(s, arity) })
				if size < arity+1 {
					if e == nil && err == nil || called >= 0 {
						return fmt.Sprintf("accepted, called with %d", called)
					}
					return ""
				}
				c.Nontrivial(1)
				if e != nil || err != nil || called != arity || len(s.v) != size-1-arity {
					return fmt.Sprintf("error %v, panic %v, called with %d, %d values left", err, e, called, len(s.v))
				}
				return ""
			})
		}
	}
}

func kx(expr string, z complex128) complex128 {
	switch expr {
	case "vz() * 2":
		return z * 2
	case "1 + vz()":
		return 1 + z
	case "abs(vz())":
		return tcmplx.Abs(z)
	case "7 - (vz() + vz())":
		return 7 - (z + z)
	}
	return z
}

// ---------------------------------------------------------------------------
// C17, C28: interpreters that call functions themselves, and traces

// callerIpt is an interpreter that wants to call the functions of its table itself.
type callerIpt struct {
	testIpt
	called func(fn interface{})
}

func (p *callerIpt) CallFn(fn interface{}) { p.called(fn) }

const (
	callerGrammar = "doc = *(INT/f | IDENT/_g | ','/_mute | ';'/_unmute | '+'/own | '-'/onstk | '*'/boom)"
	traceGrammar  = "doc = *(INT/_tr | IDENT/f | (IDENT ',' INT)/_tr | ','/_mute | ';'/_unmute | '+' *INT/_tr)"
)

// callerCases checks that the functions without a receiver go to CallFn, the others don't.
func callerCases(c *core.C, mk func(ipt util.Interface) (anyEng, error)) {
	c.Family("interpreters that call the functions themselves")
	atoms := []string{"1", "a", ",", ";", "+", "-", "*"}
	eachIdx(c, len(atoms), 0, c.Pick(4, 5), func(ix []int) {
		ix = cp(ix)
		src := ""
		for _, i := range ix {
			src += atoms[i] + " "
		}
		c.Do(func() string { return callerGrammar + " on " + src }, func() string {
			c.AddTrace(1)
			c.AddStates(len(ix))
			c.AddTransitions(len(ix))
			var log, want []string
			ipt := &callerIpt{testIpt: testIpt{grammar: callerGrammar, stk: &logStack{}}}
			id := map[string]func(a interface{}) int{}
			for _, n := range []string{"f", "_g", "boom"} {
				n := n
				id[n] = func(a interface{}) int { log = append(log, "direct "+n); return len(n) }
			}
			ipt.called = func(fn interface{}) {
				if g, ok := fn.(func(interface{}) int); ok { // the result tells which one it is
					k := len(log)
					name := map[int]string{1: "f", 2: "_g", 4: "boom"}[g(nil)]
					log = append(log[:k], "CallFn "+name)
					if name == "boom" {
						panic("boom")
					}
					return
				}
				log = append(log, fmt.Sprintf("CallFn of a %T", fn))
			}
			ipt.fns = map[string]interface{}{"$f": id["f"], "$_g": id["_g"], "$boom": id["boom"],
				"$own": func(p *callerIpt) { log = append(log, fmt.Sprint("own ", p == ipt)) }, "$onstk": func(s *logStack, v string) { log = append(log, fmt.Sprint("stk ", s == ipt.stk, v)) }}
			eng, err := mk(ipt)
			if err != nil {
				return err.Error()
			}
			mute, fails := 0, false
			for _, i := range ix {
				what := ""
				free := false
				switch i {
				case 0:
					what = "CallFn f"
				case 1:
					what, free = "CallFn _g", true
				case 2:
					mute++
				case 3:
					mute--
				case 4:
					what = "own true"
				case 5:
					what = "stk true"
				case 6:
					what = "CallFn boom"
				}
				if what != "" && (mute <= 0 || free && mute == 1) {
					want = append(want, what)
					if i == 6 {
						fails = true
						break
					}
				}
			}
			var got error
			e := try(func() { got = eng.CompileRet.Eval(src) })
			if (e != nil || got != nil) != fails {
				return fmt.Sprintf("error %v, panic %v, want a failure: %v", got, e, fails)
			}
			if len(want) > 0 {
				c.Nontrivial(1)
			}
			if fmt.Sprint(log) != fmt.Sprint(want) {
				return fmt.Sprintf("calls %q, want %q", log, want)
			}
			return ""
		})
	})
}

// stderrOf gives what f writes on file descriptor 2.
func stderrOf(f func()) (string, error) {
	t, err := os.CreateTemp("", "mc-stderr-")
	if err != nil {
		return "", err
	}
	defer os.Remove(t.Name())
	defer t.Close()
	old, err := syscall.Dup(2)
	if err != nil {
		return "", err
	}
	if err := syscall.Dup2(int(t.Fd()), 2); err != nil {
		return "", err
	}
	func() {
		defer func() {
			syscall.Dup2(old, 2)
			syscall.Close(old)
		}()
		f()
	}()
	b, err := os.ReadFile(t.Name())
	return string(b), err
}

// traceCases checks the built-in mark _tr: it shows the source of what was matched, whether muted or
// not, and changes nothing else.
func traceCases(c *core.C, mk func(ipt util.Interface) (anyEng, error)) {
	c.Family("the built-in mark _tr")
	atoms := []string{"1", "a", ",", ";", "+", "a,  7", "+ 2  3"}
	shows := []string{"1\n", "", "", "", "", "7\n", ""} // IDENT comes before IDENT ',' INT
	eachIdx(c, len(atoms), 0, c.Pick(3, 4), func(ix []int) {
		ix = cp(ix)
		src := ""
		for i, k := range ix {
			if i > 0 {
				src += " "
			}
			src += atoms[k]
		}
		c.Do(func() string { return traceGrammar + " on " + core.Q(src) }, func() string {
			c.AddTrace(1)
			c.AddStates(len(ix))
			c.AddTransitions(len(ix))
			want := ""
			for i := 0; i < len(ix); i++ {
				want += shows[ix[i]]
				if atoms[ix[i]][0] == '+' { // takes the integers behind it
					l := strings.TrimSpace(atoms[ix[i]][1:])
					for ; i+1 < len(ix) && ix[i+1] == 0; i++ {
						l += " 1"
					}
					want += strings.TrimSpace(l) + "\n"
				}
			}
			var calls []string
			mute := 0
			for _, k := range ix {
				switch k {
				case 1, 5:
					if mute <= 0 {
						calls = append(calls, "a")
					}
					if k == 5 {
						mute++
					}
				case 2:
					mute++
				case 3:
					mute--
				}
			}
			var log []string
			ipt := &testIpt{grammar: traceGrammar, stk: &logStack{}}
			ipt.fns = map[string]interface{}{"$f": func(s *logStack, v string) { log = append(log, v) }}
			eng, err := mk(ipt)
			if err != nil {
				return err.Error()
			}
			var got error
			var e interface{}
			text, err := stderrOf(func() { e = try(func() { got = eng.CompileRet.Eval(src) }) })
			if err != nil {
				return err.Error()
			}
			if e != nil || got != nil {
				return fmt.Sprintf("error %v, panic %v", got, e)
			}
			c.Nontrivial(1)
			lines := strings.Split(text, "\n") // a text goes up to the next token: what's behind it doesn't matter
			for i := range lines {
				lines[i] = strings.TrimRight(lines[i], " ")
			}
			if text = strings.Join(lines, "\n"); text != want {
				return fmt.Sprintf("shows %q, want %q", text, want)
			}
			if fmt.Sprint(log) != fmt.Sprint(calls) {
				return fmt.Sprintf("calls %q, want %q", log, calls)
			}
			return ""
		})
	})
}

// dynEngine makes an engine of the interpreter package.
func dynEngine(ipt util.Interface) (anyEng, error) {
	eng, err := interpreter.New(ipt, nil)
	if err != nil {
		return anyEng{}, err
	}
	return anyEng{eng, eng.CompileRet}, nil
}

// argTypeCases: functions whose second and third parameters have types of all kinds.
func argTypeCases(c *core.C, mk func(ipt util.Interface) (anyEng, error)) {
	c.Family("parameters of all types")
	type st struct{ A int }
	zero := []interface{}{"", 0, int64(0), 0.0, true, int8(0), int16(0), int32(0), uint(0), uint8(0), uint64(0), uintptr(0), float32(0), 0i, complex64(0), []byte(nil), []string(nil), [2]int{}, map[string]int(nil),
		st{}, &st{}, &logStack{}, &testIpt{}, func() {}, make(chan int), big.NewInt(0), &util.Context{}}
	var types []reflect.Type
	for _, z := range zero {
		types = append(types, reflect.TypeOf(z))
	}
	var e error
	var in interface{}
	var en util.Engine
	var sg fmt.Stringer
	types = append(types, reflect.TypeOf(&e).Elem(), reflect.TypeOf(&in).Elem(), reflect.TypeOf(&en).Elem(), reflect.TypeOf(&sg).Elem())
	srcs := []struct {
		place, src string
		lit        string
		n          int
	}{{"INT", "7", "7", -1}, {"INT", "010", "010", -1}, {"INT", "99999999999999999999", "99999999999999999999", -1}, {"FLOAT", "2.5", "2.5", -1}, {"STRING", `"x"`, `"x"`, -1}, {"IDENT", "ab", "ab", -1}, {"CHAR", "'c'", "'c'", -1},
		{"(+INT)", "7 8", "7", 2}, {"(IDENT % ',')", "a,b, c", "a", 3}}
	for _, recv := range []reflect.Type{reflect.TypeOf(&logStack{}), reflect.TypeOf(&testIpt{})} {
		for _, t := range types {
			for _, third := range append([]reflect.Type{nil}, types...) {
				for _, mark := range []string{"x", "_x", "X", "_X"} {
					for _, s := range srcs {
						recv, t, third, mark, s := recv, t, third, mark, s
						if third != nil && third != reflect.TypeOf(&util.Context{}) && s.place != "INT" {
							continue
						}
						c.Do(func() string {
							return fmt.Sprintf("mark %s: func(%v, %v, %v), %s on %s", mark, recv, t, third, s.place, s.src)
						}, func() string {
							c.AddTrace(1)
							c.AddStates(1)
							c.AddTransitions(1)
							ok, val := false, ""
							switch {
							case mark[len(mark)-1] == 'X':
								ok, val = t.Kind() == reflect.Int, fmt.Sprint(s.n)
							case t == reflect.TypeOf(""):
								ok, val = true, s.lit
							case t == reflect.TypeOf(0.0):
								f, fits := refFloat(s.lit)
								if s.lit == "010" {
									f = 8
								}
								ok, val = fits && (s.lit[0] >= '0' && s.lit[0] <= '9'), fmt.Sprint(f)
							case t == reflect.TypeOf(0) || t == reflect.TypeOf(int64(0)):
								i, fits := refInt(s.lit)
								ok, val = fits && (s.lit[0] >= '0' && s.lit[0] <= '9') && s.lit != "2.5", fmt.Sprint(i)
							case t == reflect.TypeOf(&util.Context{}), t == reflect.TypeOf(&en).Elem(), t == reflect.TypeOf(&in).Elem():
								ok, val = true, "*"
							}
							if third != nil && third != reflect.TypeOf(&util.Context{}) {
								if third == reflect.TypeOf(&in).Elem() || third == reflect.TypeOf(&sg).Elem() {
									return ""
								}
								ok = false
							}
							called, got := 0, ""
							params := []reflect.Type{recv, t}
							if third != nil {
								params = append(params, third)
							}
							fn := reflect.MakeFunc(reflect.FuncOf(params, nil, false), func(a []reflect.Value) []reflect.Value {
								called++
								got = fmt.Sprint(a[1].Interface())
								return nil
							}).Interface()
							ipt := &testIpt{grammar: "doc = " + s.place + "/" + mark, fns: map[string]interface{}{"$" + mark: fn}, stk: &logStack{}}
							var eng anyEng
							var err error
							if e := try(func() { eng, err = mk(ipt) }); e != nil || err != nil {
								if ok {
									return fmt.Sprintf("refused: %v %v", err, e)
								}
								return ""
							}
							e := try(func() { err = eng.CompileRet.Eval(s.src) })
							if failed := e != nil || err != nil; failed == ok {
								return fmt.Sprintf("error %v, panic %v, want a call: %v", err, e, ok)
							}
							if !ok {
								if called != 0 {
									return "was called with " + got
								}
								return ""
							}
							c.Nontrivial(1)
							if called != 1 || val != "*" && got != val {
								return fmt.Sprintf("called %d times, with %s, want %s", called, got, val)
							}
							return ""
						})
					}
				}
			}
		}
	}
}
