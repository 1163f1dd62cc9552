package checks

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/interpreter"
	util "github.com/qiniu/text/tpl/interpreter.util"
)

func init() {
	core.Register(&core.Check{
		ID:          "C17",
		Rule:        "a case is one grammar whose marks are taken from a table of functions of every supported signature (and the built-in muting marks), run on a history of inputs; the calls that happen, the arguments they get and the errors that come out are compared with a counter model over the reference trace; non-trivial: at least one function is called",
		Assumptions: []string{"text of errors raised by the run-time system (index out of range) isn't compared"},
		Run:         runC17,
	})
	core.Register(&core.Check{
		ID:          "C18",
		Rule:        "a case is one numeric literal that is a token; its value is compared with exact rational arithmetic; non-trivial: all",
		Assumptions: []string{"hexadecimal and octal literals beyond 63 bits must be refused"},
		Run:         runC18,
	})
	core.Register(&core.Check{
		ID:   "C19",
		Rule: "a case is one function signature called with one list of arguments; non-trivial: the function is called, or refused for a reason other than the number of arguments",
		Run:  runC19,
	})
}

// ---------------------------------------------------------------------------
// numeric literals

// refNum gives the exact value of an INT or FLOAT literal.
func refNum(lit string) *big.Rat {
	low := strings.ToLower(lit)
	if strings.HasPrefix(low, "0x") {
		n, ok := new(big.Int).SetString(low[2:], 16)
		if !ok {
			panic("bad literal " + lit)
		}
		return new(big.Rat).SetInt(n)
	}
	if strings.Trim(lit, "0123456789") == "" {
		base := 10
		if len(lit) > 1 && lit[0] == '0' {
			base = 8
		}
		n := new(big.Int)
		for _, d := range lit {
			n.Mul(n, big.NewInt(int64(base)))
			n.Add(n, big.NewInt(int64(d-'0')))
		}
		return new(big.Rat).SetInt(n)
	}
	mant, exp := low, 0
	if i := strings.IndexByte(low, 'e'); i >= 0 {
		mant = low[:i]
		fmt.Sscanf(low[i+1:], "%d", &exp)
	}
	n := new(big.Int)
	frac := 0
	dot := false
	for _, d := range mant {
		if d == '.' {
			dot = true
			continue
		}
		n.Mul(n, big.NewInt(10))
		n.Add(n, big.NewInt(int64(d-'0')))
		if dot {
			frac++
		}
	}
	r := new(big.Rat).SetInt(n)
	e := exp - frac
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	if e >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	return r
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// refFloat rounds exactly; ok is false when the value is too large.
func refFloat(lit string) (v float64, ok bool) {
	v, _ = refNum(lit).Float64()
	return v, !math.IsInf(v, 0)
}

var maxInt64 = new(big.Int).SetInt64(math.MaxInt64)

func refInt(lit string) (v int64, ok bool) {
	n := refNum(lit).Num()
	return n.Int64(), n.Cmp(maxInt64) <= 0
}

// numLit tells whether lit is one INT or FLOAT token.
func numLit(lit string) (kind uint, ok bool) {
	r := lexref.Lex(lit, false, false)
	if r.Malformed() || len(r.Toks) != 2 || r.Toks[0].Lit != lit {
		return 0, false
	}
	k := r.Toks[0].Kind
	if k == tpl.INT && strings.ToLower(lit) == "0x" {
		return 0, false
	}
	return k, k == tpl.INT || k == tpl.FLOAT
}

func runC18(c *core.C) {
	tFloat, tInt64, tInt, tString := reflect.TypeOf(0.0), reflect.TypeOf(int64(0)), reflect.TypeOf(0), reflect.TypeOf("")
	add := func(lit string) {
		kind, ok := numLit(lit)
		if !ok {
			return
		}
		c.Do(func() string { return clip(lit) }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(3)
			isHexOct := kind == tpl.INT && len(lit) > 1 && lit[0] == '0'
			// as float
			want, fits := refFloat(lit)
			if isHexOct {
				_, fits = refInt(lit)
			}
			v, err := interpreter.ParseFloat(lit)
			if fits && (err != nil || v != want) || !fits && err == nil {
				return fmt.Sprintf("ParseFloat(%s) = %v, %v; want %v (fits %v)", clip(lit), v, err, want, fits)
			}
			rv, err2 := interpreter.GetValue(tFloat, lit)
			if (err2 == nil) != (err == nil) || err2 == nil && rv.Float() != v {
				return fmt.Sprintf("GetValue(float64, %s) = %v, %v", clip(lit), rv, err2)
			}
			c.Outcome(fmt.Sprint(v, fits))
			sv, err := interpreter.GetValue(tString, lit)
			if err != nil || sv.String() != lit {
				return fmt.Sprintf("GetValue(string, %s) = %v, %v", clip(lit), sv, err)
			}
			if kind == tpl.FLOAT {
				for _, t := range []reflect.Type{tInt, tInt64} {
					if rv, err := interpreter.GetValue(t, lit); err == nil {
						return fmt.Sprintf("GetValue(%v, %s) = %v", t, clip(lit), rv)
					}
				}
				return ""
			}
			wi, fits := refInt(lit)
			i, err := interpreter.ParseInt(lit)
			if fits && (err != nil || i != wi) || !fits && err == nil {
				return fmt.Sprintf("ParseInt(%s) = %v, %v; want %v (fits %v)", clip(lit), i, err, wi, fits)
			}
			for _, t := range []reflect.Type{tInt, tInt64} {
				rv, err := interpreter.GetValue(t, lit)
				if fits && (err != nil || rv.Type() != t || rv.Int() != wi) || !fits && err == nil {
					return fmt.Sprintf("GetValue(%v, %s) = %v, %v", t, clip(lit), rv, err)
				}
			}
			return ""
		})
	}
	c.Family("all number tokens over 0 1 7 8 9 a F x X . e E + -")
	eachString(c, []string{"0", "1", "7", "8", "9", "a", "F", "x", "X", ".", "e", "E", "+", "-"}, 1, c.Pick(6, 7), func(s string) {
		// exponents of more than 4 digits are left to the pumped family
		add(s)
	})
	c.Family("all integers of up to four digits and around powers of two, in three bases")
	for i := 0; i < 10000; i++ {
		add(fmt.Sprint(i))
		add(fmt.Sprintf("0%o", i))
		add(fmt.Sprintf("00%o", i))
		add(fmt.Sprintf("0x%x", i))
		add(fmt.Sprintf("0X%04X", i))
	}
	one := big.NewInt(1)
	for b := uint(3); b <= 70; b++ {
		p := new(big.Int).Lsh(one, b)
		for d := int64(-3); d <= 3; d++ {
			n := new(big.Int).Add(p, big.NewInt(d))
			add(n.String())
			add("0" + n.Text(8))
			add("0x" + n.Text(16))
			add("0X0" + strings.ToUpper(n.Text(16)))
			add(n.String() + ".0")
			add(n.String() + ".5")
			add(n.String() + "e0")
			add(n.String() + "e1")
		}
	}
	c.Family("powers of ten and their neighbours")
	for e := 0; e < 40; e++ {
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e)), nil)
		for d := int64(-2); d <= 2; d++ {
			n := new(big.Int).Add(p, big.NewInt(d))
			if n.Sign() < 0 {
				continue
			}
			add(n.String())
			add(n.String() + ".")
			add("." + n.String())
			add(n.String() + "." + n.String())
			add(n.String() + "e-" + fmt.Sprint(e))
		}
	}
	c.Family("mantissas with every exponent")
	for _, m := range []string{"1", "9", "1.", ".1", "1.5", "17976931348623157", "2.2250738585072014", "4.9406564584124654", "9.999999999999999", "123456789012345678901234567890", "0", "0.0", "07", "08", "09.5"} {
		for e := -345; e <= 345; e++ {
			for _, x := range []string{"e", "E"} {
				sign := ""
				if e > 0 && e%2 == 0 {
					sign = "+"
				}
				add(fmt.Sprintf("%s%s%s%d", m, x, sign, e))
			}
		}
	}
	c.Family("halfway cases")
	for _, b := range []int64{1, 3, 5, 9007199254740993, 9007199254740995, 4503599627370497} {
		for sh := uint(0); sh < 60; sh += 5 {
			n := new(big.Int).Lsh(big.NewInt(b), sh)
			add(n.String())
			for d := int64(-1); d <= 1; d += 2 {
				add(new(big.Int).Add(n, big.NewInt(d)).String())
			}
			r := new(big.Rat).SetFrac(big.NewInt(b), new(big.Int).Lsh(one, sh))
			add(r.FloatString(int(sh) + 1))
		}
	}
	c.Family("integers between two representable numbers, in three bases")
	for k := uint(0); k <= 14; k++ {
		half := int64(0)
		if k > 0 {
			half = 1 << (k - 1)
		}
		for _, a := range []int64{0, 1, 2, 3, 5, 1<<51 - 1, 1 << 51, 1<<52 - 2, 1<<52 - 1} {
			for d := int64(-9); d <= 9; d++ {
				n := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1<<52+a), k), big.NewInt(half+d))
				add(n.String())
				add("0" + n.Text(8))
				add("0x" + n.Text(16))
				add(n.String() + ".0")
				add(n.String() + "e0")
				add(n.String() + "0e-1")
				add(n.String() + ".000000000000000000000001")
			}
		}
	}
	c.Family("pumped literals")
	for _, n := range pumpsUpTo(c.Pick(600, 2100)) {
		add(rep("9", n))
		add("1" + rep("0", n))
		add("0" + rep("0", n))
		add("0" + rep("7", n))
		add("0x" + rep("0", n) + "1")
		add("0x" + rep("f", n))
		add("0." + rep("0", n) + "1")
		add(rep("1", n) + "." + rep("1", n))
		add("0." + rep("9", n))
		add(rep("0", n) + "8.5")
		add("1." + rep("0", n) + "e" + fmt.Sprint(n%300))
		add("1e" + rep("0", n) + "5")
		add("1e-" + rep("0", n) + "5")
	}
}

// ---------------------------------------------------------------------------
// Call, DoCall, VCall

type valStack struct {
	v      []interface{}
	refuse bool
}

var errRefused = errors.New("refused")

func (s *valStack) PopArgs(n int) (args []reflect.Value, ok bool) {
	if len(s.v) < n {
		return nil, false
	}
	for _, x := range s.v[len(s.v)-n:] {
		args = append(args, reflect.ValueOf(x))
	}
	s.v = s.v[:len(s.v)-n]
	return args, true
}

func (s *valStack) PushRet(ret []reflect.Value) error {
	if s.refuse {
		return errRefused
	}
	for _, r := range ret {
		s.v = append(s.v, r.Interface())
	}
	return nil
}

type callObj struct{ f interface{} }

// Call makes callObj callable with a variable number of arguments.
func (p *callObj) Call(a float64, rest ...interface{}) []interface{} {
	return append([]interface{}{a}, rest...)
}

type ptrT struct{ n int }
type ownInt int
type ownByte uint8
type ownF32 float32

func runC19(c *core.C) {
	calcTables(c)
	type arg struct {
		name string
		v    interface{}
	}
	pt := &ptrT{7}
	args := []arg{{"int", 3}, {"float64", 2.5}, {"string", "s"}, {"nil", nil}, {"uint8", byte(4)}, {"float32", float32(0.5)}, {"int64", int64(-9)}, {"*ptrT", pt}, {"bool", true}, {"uint64", uint64(1 << 63)}, {"[]int", []int{1}}, {"error", errRefused}, {"int8", int8(-1)}, {"uint", uint(8)}, {"map", map[string]int{"a": 1}}, {"complex", 2i},
		{"int16", int16(-300)}, {"int32", int32(1 << 30)}, {"uint16", uint16(65535)}, {"uint32", uint32(1<<32 - 1)}, {"uintptr", uintptr(11)}, {"own int", ownInt(-12)}, {"own uint8", ownByte(250)}, {"own float32", ownF32(1.5)}, {"the largest int64", int64(math.MaxInt64)}, {"the largest uint64", uint64(math.MaxUint64)}}
	var types []reflect.Type
	for _, v := range []interface{}{0, 0.0, "", (*interface{})(nil), byte(0), pt, false, []int(nil), (*error)(nil), map[string]int(nil)} {
		t := reflect.TypeOf(v)
		switch v.(type) {
		case *interface{}, *error:
			t = t.Elem()
		}
		types = append(types, t)
	}
	// fit models argument adaptation: value to hand over, and whether it is accepted.
	fit := func(v interface{}, t reflect.Type) (w interface{}, ok, defined bool) {
		if v == nil {
			switch t.Kind() {
			case reflect.Interface, reflect.Ptr:
				return nil, true, true
			}
			return nil, false, false
		}
		tv := reflect.TypeOf(v)
		switch {
		case t.Kind() == reflect.Interface:
			return v, tv.AssignableTo(t), tv.AssignableTo(t)
		case tv == t:
			return v, true, true
		case t.Kind() == reflect.Ptr:
			return nil, false, false
		case t.Kind() == reflect.Float64:
			rv := reflect.ValueOf(v)
			switch k := tv.Kind(); {
			case k >= reflect.Int && k <= reflect.Int64:
				return float64(rv.Int()), true, true
			case k >= reflect.Uint && k <= reflect.Uintptr:
				return float64(rv.Uint()), true, true
			case k == reflect.Float32:
				return rv.Float(), true, true
			}
		}
		return nil, false, true
	}
	same := func(a, b interface{}) bool {
		if a == nil || b == nil {
			rb := reflect.ValueOf(b)
			ra := reflect.ValueOf(a)
			isNil := func(r reflect.Value) bool {
				return !r.IsValid() || (r.Kind() == reflect.Ptr && r.IsNil())
			}
			return isNil(ra) && isNil(rb)
		}
		return reflect.DeepEqual(a, b)
	}
	run := func(ps []int, variadic int, as []int, extra bool) {
		ps, as = cp(ps), cp(as)
		desc := func() string {
			var p, a []string
			for _, i := range ps {
				p = append(p, types[i].String())
			}
			if variadic >= 0 {
				p = append(p, "..."+types[variadic].String())
			}
			for _, i := range as {
				a = append(a, args[i].name)
			}
			return fmt.Sprintf("func(%s) called with (%s)", strings.Join(p, ", "), strings.Join(a, ", "))
		}
		c.Do(desc, func() string {
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(2)
			var in []reflect.Type
			for _, i := range ps {
				in = append(in, types[i])
			}
			if variadic >= 0 {
				in = append(in, reflect.SliceOf(types[variadic]))
			}
			var got []interface{}
			called := 0
			outs := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(0.0)}[:len(as)%4%4]
			fn := reflect.MakeFunc(reflect.FuncOf(in, outs, variadic >= 0), func(a []reflect.Value) (out []reflect.Value) {
				called++
				got = nil
				for i, x := range a {
					if variadic >= 0 && i == len(a)-1 {
						for j := 0; j < x.Len(); j++ {
							got = append(got, x.Index(j).Interface())
						}
						continue
					}
					got = append(got, x.Interface())
				}
				for i := range outs {
					out = append(out, reflect.ValueOf([]interface{}{41, "ret", 4.25}[i]))
				}
				return
			}).Interface()
			// expectation
			okArity := len(as) == len(ps)
			if variadic >= 0 {
				okArity = len(as) >= len(ps)
			}
			var want []interface{}
			ok := okArity
			if okArity {
				for i, k := range as {
					t := (reflect.Type)(nil)
					if i < len(ps) {
						t = types[ps[i]]
					} else {
						t = types[variadic]
					}
					w, fits, defined := fit(args[k].v, t)
					if !defined {
						return "" // left open
					}
					ok = ok && fits
					want = append(want, w)
				}
			}
			if okArity {
				c.Nontrivial(1)
			}
			c.Outcome(fmt.Sprint(ok, len(ps), variadic, len(as)))
			check := func(what string, err error, stk *valStack) string {
				if !ok {
					if err == nil {
						return what + " succeeded"
					}
					if called != 0 {
						return what + " failed, but the function was called"
					}
					return ""
				}
				if err != nil || called != 1 {
					return fmt.Sprintf("%s: %v, %d calls", what, err, called)
				}
				if len(got) != len(want) {
					return fmt.Sprintf("%s: function got %v, want %v", what, got, want)
				}
				for i := range got {
					if !same(got[i], want[i]) {
						return fmt.Sprintf("%s: argument %d is %#v, want %#v", what, i, got[i], want[i])
					}
				}
				if len(stk.v) != 1+len(outs) || stk.v[0] != "bottom" {
					return fmt.Sprintf("%s: stack is %v", what, stk.v)
				}
				for i := range outs {
					if stk.v[1+i] != []interface{}{41, "ret", 4.25}[i] {
						return fmt.Sprintf("%s: results are %v", what, stk.v[1:])
					}
				}
				return ""
			}
			mk := func(head ...interface{}) *valStack {
				s := &valStack{v: append([]interface{}{"bottom"}, head...)}
				for _, k := range as {
					s.v = append(s.v, args[k].v)
				}
				return s
			}
			s := mk()
			if msg := check("Call", util.Call(s, fn, len(as)), s); msg != "" {
				return msg
			}
			if okArity {
				called = 0
				s = mk()
				if msg := check("DoCall", util.DoCall(s, fn, len(as), len(in), variadic >= 0), s); msg != "" {
					return msg
				}
			}
			called = 0
			s = mk(fn)
			if msg := check("VCall", util.VCall(s, len(as)), s); msg != "" {
				return msg
			}
			if ok {
				s = mk()
				s.refuse = true
				if err := util.Call(s, fn, len(as)); err != errRefused {
					return fmt.Sprintf("results refused, Call returned %v", err)
				}
				s = mk(fn)
				s.refuse = true
				if err := util.VCall(s, len(as)); err != errRefused {
					return fmt.Sprintf("results refused, VCall returned %v", err)
				}
				if len(as) > 0 {
					called = 0
					s = &valStack{}
					if err := util.Call(s, fn, len(as)); err == nil || called != 0 {
						return fmt.Sprintf("call on an empty stack: %v, %d calls", err, called)
					}
				}
			}
			return ""
		})
	}
	c.Family("all signatures of up to 2 parameters (and a variadic one), up to 3 arguments of 16 types")
	nt, na := len(types), len(args)
	eachIdx(c, nt, 0, 2, func(ps []int) {
		ps = cp(ps)
		for v := -1; v < nt; v++ {
			max := len(ps) + 1
			if max > 2 && !c.Thorough() {
				max = 2
			}
			eachIdx(c, na, 0, max, func(as []int) { run(ps, v, as, false) })
		}
	})
	c.Family("values that are convertible, but not of the type")
	type nstr string
	type nint int
	type nfl float64
	type nsl []int
	type nany []interface{}
	type nmap map[string]int
	type nfn func()
	conv := []interface{}{"s", nstr("s"), []byte("s"), []rune("s"), 3, nint(3), int32(65), 2.5, nfl(2.5), float32(2.5), []int{1}, nsl{1}, []interface{}{1}, nany{1}, map[string]int{"a": 1}, nmap{"a": 1}, [2]int{1, 2}, struct{ A int }{1}, struct {
		A int `x:"y"`
	}{1}, func() {}, nfn(func() {}), ptrT{1}, pt, true, 'x', byte(1), 2i, complex64(2i), uintptr(5), fmt.Stringer(big.NewInt(1))}
	for i, v := range conv {
		for j, w := range conv {
			tv, tw := reflect.TypeOf(v), reflect.TypeOf(w)
			if tv == tw || tv.AssignableTo(tw) || tw.Kind() == reflect.Float64 {
				continue
			}
			for form := 0; form < 3; form++ {
				v, w, form := v, w, form
				c.Do(func() string {
					return fmt.Sprintf("%T (%d) for a parameter of type %T (%d), form %d", v, i, w, j, form)
				}, func() string {
					c.Nontrivial(1)
					called := 0
					in := []reflect.Type{tw}
					if form == 1 {
						in = []reflect.Type{reflect.SliceOf(tw)}
					} else if form == 2 {
						in = []reflect.Type{reflect.TypeOf(""), reflect.SliceOf(tw)}
					}
					fn := reflect.MakeFunc(reflect.FuncOf(in, nil, form > 0), func([]reflect.Value) []reflect.Value {
						called++
						return nil
					}).Interface()
					vals := []interface{}{v}
					if form == 2 {
						vals = []interface{}{"x", v}
					}
					// an error, or a panic of package reflect for a pointer
					var err error
					e := try(func() { err = util.Call(&valStack{v: append([]interface{}{}, vals...)}, fn, len(vals)) })
					if e == nil && err == nil || called != 0 {
						return fmt.Sprintf("Call returned %v, %d calls", err, called)
					}
					err = nil
					e = try(func() { err = util.VCall(&valStack{v: append([]interface{}{fn}, vals...)}, len(vals)) })
					if e == nil && err == nil || called != 0 {
						return fmt.Sprintf("VCall returned %v, %d calls", err, called)
					}
					return ""
				})
			}
		}
	}
	c.Family("panics of the function")
	for _, pv := range []interface{}{"boom", errRefused, 7, oddPanic{}} {
		for n := 0; n <= 4; n++ {
			for fixed := 0; fixed <= n; fixed++ {
				for _, vari := range []bool{false, true} {
					pv, n, fixed, vari := pv, n, fixed, vari
					if !vari && fixed != n {
						continue
					}
					c.Do(func() string {
						return fmt.Sprintf("function of %d parameters (variadic: %v) with %d arguments panics with %v", fixed, vari, n, pv)
					}, func() string {
						c.Nontrivial(1)
						var in []reflect.Type
						for i := 0; i < fixed; i++ {
							in = append(in, reflect.TypeOf(0.0))
						}
						if vari {
							in = append(in, reflect.TypeOf([]float64(nil)))
						}
						fn := reflect.MakeFunc(reflect.FuncOf(in, nil, vari), func([]reflect.Value) []reflect.Value { panic(pv) }).Interface()
						var vals []interface{}
						for i := 0; i < n; i++ {
							vals = append(vals, []interface{}{1, 2.5}[i%2])
						}
						for k, call := range []func() error{
							func() error { return util.Call(&valStack{v: vals}, fn, n) },
							func() error { return util.DoCall(&valStack{v: vals}, fn, n, len(in), vari) },
							func() error { return util.VCall(&valStack{v: append([]interface{}{fn}, vals...)}, n) },
						} {
							if e := try(func() { call() }); e != pv {
								return fmt.Sprintf("%s: panic is %v", []string{"Call", "DoCall", "VCall"}[k], e)
							}
						}
						return ""
					})
				}
			}
		}
	}
	c.Family("three parameters over five types")
	eachIdx(c, 4, 3, 3, func(ps []int) {
		ps = cp(ps)
		for v := -1; v < 4; v++ {
			eachIdx(c, 5, 3, c.Pick(4, 5), func(as []int) { run(ps, v, as, false) })
		}
	})
	c.Family("many arguments")
	for _, n := range pumpsUpTo(c.Pick(600, 2100)) {
		for _, p := range []int{0, 1, 2} {
			for _, bad := range []int{-1, 0, n / 2, n - 1} {
				as := make([]int, n)
				for i := range as {
					as[i] = []int{0, 1, 4}[i%3]
				}
				if bad >= 0 {
					as[bad] = 2
				}
				run(make([]int, 0), []int{1, 3, 2}[p], as, true)
				if n <= 50 {
					ps := make([]int, n)
					for i := range ps {
						ps[i] = []int{1, 3, 2}[p]
					}
					run(ps, -1, as, true)
					run(ps[:n-1], []int{1, 3, 2}[p], as, true)
					run(ps, []int{1, 3, 2}[p], as[:n-1], true)
				}
			}
		}
	}
	c.Family("objects with a Call method")
	eachIdx(c, na, 0, c.Pick(3, 4), func(as []int) {
		as = cp(as)
		c.Do(func() string { return fmt.Sprint("object called with ", as) }, func() string {
			s := &valStack{v: []interface{}{"bottom", &callObj{}}}
			for _, k := range as {
				s.v = append(s.v, args[k].v)
			}
			ok := len(as) >= 1
			var first interface{}
			if ok {
				w, fits, defined := fit(args[as[0]].v, reflect.TypeOf(0.0))
				if !defined {
					return ""
				}
				first, ok = w, fits
			}
			c.Nontrivial(1)
			c.AddTransitions(1)
			err := util.VCall(s, len(as))
			if (err == nil) != ok {
				return fmt.Sprintf("VCall returned %v, want success=%v", err, ok)
			}
			if ok {
				r, _ := s.v[len(s.v)-1].([]interface{})
				if len(s.v) != 2 || len(r) != len(as) || r[0] != first {
					return fmt.Sprintf("stack is %v", s.v)
				}
				for i := 1; i < len(as); i++ {
					if !same(r[i], args[as[i]].v) {
						return fmt.Sprintf("argument %d is %v", i, r[i])
					}
				}
			}
			return ""
		})
	})
}

// ---------------------------------------------------------------------------
// marks of an interpreter

type logStack struct{ v []interface{} }

func (s *logStack) PopArgs(n int) (args []reflect.Value, ok bool) {
	if len(s.v) < n {
		return nil, false
	}
	for _, x := range s.v[len(s.v)-n:] {
		args = append(args, reflect.ValueOf(x))
	}
	s.v = s.v[:len(s.v)-n]
	return args, true
}

func (s *logStack) PushRet(ret []reflect.Value) error {
	for _, r := range ret {
		s.v = append(s.v, r.Interface())
	}
	return nil
}

type testIpt struct {
	grammar string
	fns     map[string]interface{}
	stk     *logStack
	log     []string
	sys     *markSys
}

func (p *testIpt) Grammar() string                 { return p.grammar }
func (p *testIpt) Fntable() map[string]interface{} { return p.fns }
func (p *testIpt) Stack() util.Stack               { return p.stk }

type oddPanic struct{}

// markFn is one function of the table with its model: what it logs for an
// event, or how it fails ("!" error text wanted, "!?" any RuntimeError, "!raw").
type markFn struct {
	name  string
	fn    func(p *testIpt) interface{}
	model func(s *markSys, e peg.Event) string
	calls int // arguments popped from the stack
}

// anyEng is an engine made by the interpreter package or by generated code.
type anyEng struct {
	util.Engine
	*tpl.CompileRet
}

type markSys struct {
	ipt *testIpt
	eng anyEng
	p   *pegRun
	in  *input
	r   *peg.Rules

	file string
}

func (s *markSys) lit(e peg.Event) string {
	if e.From == e.To {
		return ""
	}
	return s.in.toks[e.From].Lit
}

func (s *markSys) spanText(e peg.Event) string {
	if e.From == e.To {
		return ""
	}
	return s.in.src[s.in.toks[e.From].Off:s.in.toks[e.To].Off]
}

func (s *markSys) ctxText(e peg.Event) string {
	if e.From == e.To {
		return "0-0"
	}
	last := s.in.toks[e.To-1]
	if last.Auto { // the line break itself
		return fmt.Sprintf("%d-%d", s.in.toks[e.From].Off, last.Off+1)
	}
	return fmt.Sprintf("%d-%d", s.in.toks[e.From].Off, last.End)
}

func describeCtx(p *testIpt, ctx *util.Context) string {
	if ctx.Engine != p.sys.eng.Engine {
		return "wrong engine"
	}
	toks, _ := ctx.Src.([]tpl.Token)
	if len(toks) == 0 {
		return fmt.Sprintf("%d-%d", ctx.Pos, ctx.End)
	}
	base := p.sys.eng.Scanner.Source().File.Base()
	return fmt.Sprintf("%d-%d", int(ctx.Pos)-base, int(ctx.End)-base)
}

func describeSrc(p *testIpt, v interface{}) string {
	if v == nil {
		if p.sys.eng.Source(v) != nil || p.sys.eng.FileLine(v) != (util.FileLine{}) {
			return "source of nil"
		}
		return "nil"
	}
	fl := p.sys.eng.FileLine(v)
	return fmt.Sprintf("%s@%s:%d", p.sys.eng.Source(v), fl.File, fl.Line)
}

func markTable() []markFn {
	log := func(p *testIpt, f string, a ...interface{}) { p.log = append(p.log, fmt.Sprintf(f, a...)) }
	num := func(isInt bool) func(s *markSys, e peg.Event) string {
		return func(s *markSys, e peg.Event) string {
			if e.From == e.To {
				return "!?"
			}
			lit := s.lit(e)
			k, ok := numLit(lit)
			if !ok || isInt && k != tpl.INT {
				return "!?"
			}
			if isInt {
				v, fits := refInt(lit)
				if !fits {
					return "!?"
				}
				return fmt.Sprint(v)
			}
			v, fits := refFloat(lit)
			if k == tpl.INT && len(lit) > 1 && lit[0] == '0' { // octal and hexadecimal integers must fit 64 bits
				_, fits = refInt(lit)
			}
			if !fits {
				return "!?"
			}
			return fmt.Sprint(v)
		}
	}
	src := func(s *markSys, e peg.Event) string {
		if e.From == e.To {
			return "nil"
		}
		line := s.in.line(s.in.toks[e.From].Off)
		return fmt.Sprintf("%s@%s:%d", s.spanText(e), s.file, line)
	}
	str := func(s *markSys, e peg.Event) string {
		if e.From == e.To {
			return "!?"
		}
		return s.lit(e)
	}
	length := func(s *markSys, e peg.Event) string { return fmt.Sprint(e.Len) }
	return []markFn{
		{"nop", func(p *testIpt) interface{} { return func(s *logStack) { log(p, "nop") } }, func(s *markSys, e peg.Event) string { return "" }, 0},
		{"str", func(p *testIpt) interface{} { return func(s *logStack, v string) { log(p, "str %s", v) } }, str, 0},
		{"int", func(p *testIpt) interface{} { return func(s *logStack, v int) { log(p, "int %d", v) } }, num(true), 0},
		{"long", func(p *testIpt) interface{} { return func(s *logStack, v int64) { log(p, "long %d", v) } }, num(true), 0},
		{"flt", func(p *testIpt) interface{} { return func(s *logStack, v float64) { log(p, "flt %v", v) } }, num(false), 0},
		{"src", func(p *testIpt) interface{} {
			return func(s *logStack, v interface{}) { log(p, "src %s", describeSrc(p, v)) }
		}, src, 0},
		{"ctx", func(p *testIpt) interface{} {
			return func(s *logStack, v *util.Context) { log(p, "ctx %s", describeCtx(p, v)) }
		}, func(s *markSys, e peg.Event) string { return s.ctxText(e) }, 0},
		{"eng", func(p *testIpt) interface{} {
			return func(s *logStack, v util.Engine) { log(p, "eng %v", v == p.sys.eng.Engine) }
		}, func(s *markSys, e peg.Event) string { return "true" }, 0},
		{"LEN", func(p *testIpt) interface{} { return func(s *logStack, n int) { log(p, "LEN %d", n) } }, length, 0},
		{"_LEN", func(p *testIpt) interface{} { return func(s *logStack, n int) { log(p, "_LEN %d", n) } }, length, 0},
		{"_src", func(p *testIpt) interface{} {
			return func(s *logStack, v interface{}) { log(p, "_src %s", describeSrc(p, v)) }
		}, src, 0},
		{"_nop", func(p *testIpt) interface{} { return func(s *testIpt) { log(s, "_nop") } }, func(s *markSys, e peg.Event) string { return "" }, 0},
		{"iptstr", func(p *testIpt) interface{} { return func(q *testIpt, v string) { log(q, "iptstr %s", v) } }, str, 0},
		{"IPTLEN", func(p *testIpt) interface{} {
			return func(q *testIpt, n int, ctx *util.Context) { log(q, "IPTLEN %d %s", n, describeCtx(p, ctx)) }
		}, func(s *markSys, e peg.Event) string { return fmt.Sprint(e.Len, " ", s.ctxText(e)) }, 0},
		{"three", func(p *testIpt) interface{} {
			return func(q *logStack, v string, ctx *util.Context) error {
				log(p, "three %s %s", v, describeCtx(p, ctx))
				return nil
			}
		}, func(s *markSys, e peg.Event) string {
			if e.From == e.To {
				return "!?"
			}
			return s.lit(e) + " " + s.ctxText(e)
		}, 0},
		{"fail", func(p *testIpt) interface{} {
			return func(q *logStack, v interface{}) error { return errors.New("failed on purpose") }
		}, func(s *markSys, e peg.Event) string { return "!failed on purpose" }, 0},
		{"boom", func(p *testIpt) interface{} { return func(q *testIpt) { panic("boom text") } }, func(s *markSys, e peg.Event) string { return "!boom text" }, 0},
		{"odd", func(p *testIpt) interface{} { return func(q *testIpt) { panic(oddPanic{}) } }, func(s *markSys, e peg.Event) string { return "!raw" }, 0},
		{"plain", func(p *testIpt) interface{} {
			return func(a interface{}, b interface{}) interface{} { log(p, "plain %v %v", a, b); return "r" }
		}, nil, 2},
		{"pick", func(p *testIpt) interface{} {
			return func(a float64) (float64, float64) { log(p, "pick %v", a); return a, a + 1 }
		}, nil, 1},
	}
}

// expect interprets the reference events: the calls and how it ends.
func (s *markSys) expect(table map[string]markFn, evs []peg.Event) (log []string, end string) {
	mute := 0
	var stk []interface{}
	stk = append(stk, "bottom", 1.5, 2.5, 3.5)
	for _, e := range evs {
		switch e.Name {
		case "_mute":
			mute++
			continue
		case "_unmute":
			mute--
			continue
		}
		if mute > 1 || mute == 1 && e.Name[0] != '_' {
			continue
		}
		m := table[e.Name]
		var r string
		if m.calls > 0 {
			if len(stk) < m.calls {
				return log, "!?"
			}
			a := stk[len(stk)-m.calls:]
			switch e.Name {
			case "plain":
				r = fmt.Sprint(a[0], " ", a[1])
				stk = append(append([]interface{}{}, stk[:len(stk)-2]...), "r")
			case "pick":
				f, ok := a[0].(float64)
				if !ok {
					return log, "!?"
				}
				r = fmt.Sprint(f)
				stk = append(append([]interface{}{}, stk[:len(stk)-1]...), f, f+1)
			}
		} else {
			r = m.model(s, e)
		}
		if strings.HasPrefix(r, "!") {
			if r == "!raw" || r == "!raw5" || r == "!?" || strings.HasPrefix(r, "!same") {
				return log, r
			}
			line := 0
			file := ""
			if e.From < e.To {
				line = s.in.line(s.in.toks[e.From].Off)
				if file = s.file; file != "" {
					file += ":"
				}
			}
			if file == "" {
				return log, fmt.Sprintf("!line %d: runtime error: %s", line, r[1:])
			}
			return log, fmt.Sprintf("!%s%d: runtime error: %s", file, line, r[1:])
		}
		log = append(log, strings.TrimSpace(e.Name+" "+r))
	}
	return log, ""
}

// markCase evaluates all sources one after the other on one engine and compares
// the calls with the reference.
func markCase(c *core.C, r *peg.Rules, srcs []string, mk func(*testIpt) (anyEng, error), runtimeErr func(interface{}) (string, bool)) string {
	return markCaseOf(c, r, srcs, 0, "f.x", markTable(), mk, runtimeErr)
}

type customErr struct{ n int }

func (e *customErr) Error() string { return fmt.Sprint("custom ", e.n) }

var (
	sameRuntime = &interpreter.RuntimeError{Err: errors.New("nested")}
	sameMatch   = &tpl.MatchError{Grammar: tpl.GrEOF}
)

// moreMarks are functions with unusual names and failures.
func moreMarks() (list []markFn) {
	for _, name := range []string{"_", "__", "_9", "_é", "é", "a1", "zZ", "_z", "É", "_É"} {
		name := name
		list = append(list, markFn{name, func(p *testIpt) interface{} {
			return func(s *logStack, v interface{}) { p.log = append(p.log, fmt.Sprintf("%s %s", name, describeSrc(p, v))) }
		}, nil, 0})
		for _, m := range markTable() {
			if m.name == "src" {
				list[len(list)-1].model = m.model
			}
		}
	}
	for _, name := range []string{"A", "Z", "M9", "_A", "_Z", "_Mx"} {
		name := name
		list = append(list, markFn{name, func(p *testIpt) interface{} {
			return func(s *logStack, n int) { p.log = append(p.log, fmt.Sprintf("%s %d", name, n)) }
		}, func(s *markSys, e peg.Event) string { return fmt.Sprint(e.Len) }, 0})
	}
	fails := func(name, how string, f func() error) {
		list = append(list, markFn{name, func(p *testIpt) interface{} { return func(*logStack) error { return f() } }, func(*markSys, peg.Event) string { return how }, 0})
		list = append(list, markFn{name + "_ipt", func(p *testIpt) interface{} { return func(*testIpt, interface{}) error { return f() } }, func(*markSys, peg.Event) string { return how }, 0})
		list = append(list, markFn{name + "_panics", func(p *testIpt) interface{} {
			return func(*logStack) {
				if err := f(); err != nil {
					panic(err)
				}
			}
		}, func(*markSys, peg.Event) string { return how }, 0})
	}
	fails("custom", "!custom 7", func() error { return &customErr{7} })
	fails("nested", "!same1", func() error { return sameRuntime })
	fails("unmatched", "!same2", func() error { return sameMatch })
	fails("divzero", "!runtime error: integer divide by zero", func() error { z := 0; return fmt.Errorf("%d", 1/z) })
	fails("five", "!raw5", func() error { panic(5) })
	for _, name := range []string{"fine", "_fine"} {
		name := name
		list = append(list, markFn{name, func(p *testIpt) interface{} {
			return func(*logStack, interface{}) error { p.log = append(p.log, name); return nil }
		}, func(*markSys, peg.Event) string { return "" }, 0})
	}
	list = append(list, markFn{"nilmap", func(p *testIpt) interface{} {
		return func(*testIpt) { var m map[string]int; m["x"] = 1 }
	}, func(*markSys, peg.Event) string { return "!assignment to entry in nil map" }, 0})
	return
}

func markCaseOf(c *core.C, r *peg.Rules, srcs []string, mode tpl.ScanMode, file string, list []markFn, mk func(*testIpt) (anyEng, error), runtimeErr func(interface{}) (string, bool)) string {
	table := map[string]markFn{}
	for _, m := range list {
		table[m.name] = m
	}
	ipt := &testIpt{grammar: r.Text(), fns: map[string]interface{}{}, stk: &logStack{}}
	for _, m := range list {
		ipt.fns["$"+m.name] = m.fn(ipt)
	}
	eng, err := mk(ipt)
	if err != nil {
		return err.Error()
	}
	s := &markSys{ipt: ipt, eng: eng, r: r, file: file}
	ipt.sys = s
	called := 0
	c.AddTrace(1)
	for k, src := range srcs {
		s.in = newInputMode(src, nil, mode)
		mach := &peg.Machine{R: r, In: s.in.tks, Max: maxRefSteps}
		ref, over := mach.Run(r.Defs["doc"], 0)
		if over {
			continue
		}
		c.AddStates(mach.Steps)
		c.AddTransitions(len(mach.Events))
		wantLog, end := s.expect(table, mach.Events)
		if end == "" && !(ref.OK && ref.N == len(s.in.tks)) {
			end = "!match"
		}
		ipt.log = nil
		ipt.stk.v = []interface{}{"bottom", 1.5, 2.5, 3.5}
		var got error
		e := try(func() { got = eng.MatchExactly([]byte(src), file) })
		at := fmt.Sprintf("input %d %q: ", k, src)
		for i := range ipt.log {
			ipt.log[i] = strings.TrimSpace(ipt.log[i])
		}
		if strings.Join(ipt.log, "; ") != strings.Join(wantLog, "; ") {
			return at + fmt.Sprintf("calls are %q, want %q", ipt.log, wantLog)
		}
		called += len(wantLog)
		switch {
		case end == "":
			if e != nil || got != nil {
				return at + fmt.Sprintf("failed: %v %v", e, got)
			}
		case end == "!match":
			if me, ok := e.(*tpl.MatchError); ok && ref.Fatal {
				got, e = me, nil
			}
			if _, ok := got.(*tpl.MatchError); !ok || e != nil {
				return at + fmt.Sprintf("match error expected, got %v %v", e, got)
			}
		case end == "!raw":
			if _, ok := e.(oddPanic); !ok {
				return at + fmt.Sprintf("panic expected, got %v %v", e, got)
			}
		case end == "!raw5":
			if e != 5 {
				return at + fmt.Sprintf("panic(5) expected, got %v %v", e, got)
			}
		case end == "!same1":
			if e != sameRuntime {
				return at + fmt.Sprintf("the error of the function expected, got %v %v", e, got)
			}
		case end == "!same2":
			if e != sameMatch {
				return at + fmt.Sprintf("the error of the function expected, got %v %v", e, got)
			}
		default:
			txt, ok := runtimeErr(e)
			if !ok {
				return at + fmt.Sprintf("RuntimeError expected, got %v %v", e, got)
			}
			if end != "!?" && txt != end[1:] {
				return at + fmt.Sprintf("error is %q, want %q", txt, end[1:])
			}
		}
	}
	if called > 0 {
		c.Nontrivial(1)
	}
	c.Outcome(fmt.Sprint(called))
	return ""
}

func runC17(c *core.C) {
	list := markTable()
	var names []string
	for _, m := range list {
		names = append(names, m.name)
	}
	offerAs := func(r *peg.Rules, srcs []string, mode tpl.ScanMode, file string, list []markFn) {
		c.Do(func() string { return fmt.Sprintf("%s in mode %d on %q in file %q", clip(r.Text()), mode, srcs, file) }, func() string {
			return markCaseOf(c, r, srcs, mode, file, list, func(ipt *testIpt) (anyEng, error) {
				var o *interpreter.Options
				if mode != 0 {
					o = &interpreter.Options{ScanMode: mode}
				}
				eng, err := interpreter.New(ipt, o)
				if err != nil {
					return anyEng{}, err
				}
				return anyEng{eng, eng.CompileRet}, nil
			}, func(e interface{}) (string, bool) {
				re, ok := e.(*interpreter.RuntimeError)
				if !ok {
					return "", false
				}
				if _, ok := re.Err.(*customErr); !ok && strings.Contains(re.Error(), "custom") {
					return fmt.Sprintf("%T instead of the error of the function", re.Err), true
				}
				return re.Error(), true
			})
		})
	}
	offer := func(r *peg.Rules, srcs []string) { offerAs(r, srcs, 0, "f.x", list) }
	units := []*peg.Node{nID, nInt, nFloat, peg.T(tpl.STRING), peg.U(peg.Star, nInt), peg.U(peg.Opt, nID), peg.B(peg.List, nInt, nComma), peg.B(peg.And, nID, nInt), nTrue, peg.B(peg.List0, nID, nComma)}
	srcs := spaced([]string{"a", "12", "1.5", `"s"`, ","}, 3)
	srcs = append(srcs, "0x1f 017", "a\n1, 2\n", "\n\na\n\n7", "1,2,3,4", "a,b", "a 1 2 3")
	c.Family("every function on every kind of unit, all inputs up to 3 tokens, one history")
	for _, u := range units {
		for _, n := range names {
			offer(doc1(peg.M(u, n)), srcs)
			offer(doc1(peg.B(peg.And, nID, peg.M(u, n))), srcs)
			offer(doc1(peg.B(peg.Or, peg.B(peg.And, peg.M(u, n), nComma), peg.M(nID, "str"))), srcs)
		}
	}
	c.Family("every pair of functions")
	for _, n1 := range names {
		for _, n2 := range names {
			offer(doc1(peg.B(peg.And, peg.M(nID, n1), peg.M(peg.U(peg.Star, nInt), n2))), []string{"a", "a 1 2", "a b", "a\n1"})
			offer(doc1(peg.M(peg.M(peg.B(peg.List0, nInt, nComma), n1), n2)), []string{"1, 2", "", "1", "a"})
		}
	}
	c.Family("all sequences of muting marks and functions")
	mm := []string{"_mute", "_unmute", "nop", "str", "_nop", "_LEN", "boom"}
	eachIdx(c, len(mm), 1, c.Pick(6, 7), func(ix []int) {
		var kids []*peg.Node
		for _, i := range ix {
			kids = append(kids, peg.M(nID, mm[i]))
		}
		src := strings.TrimSpace(rep("a ", len(ix)))
		r := doc1(peg.B(peg.And, kids...))
		// the second and third runs must not be affected by what the first left behind
		offer(r, []string{src, src + " b", src})
	})
	c.Family("muting of every depth")
	for k := 0; k <= c.Pick(40, 300); k++ {
		for _, j := range []int{0, 1, k / 2, k - 2, k - 1, k} {
			if j < 0 || j > k || k > 40 && k%7 != 0 {
				continue
			}
			var kids []*peg.Node
			put := func(n int, m ...string) {
				for i := 0; i < n; i++ {
					for _, m := range m {
						kids = append(kids, peg.M(nID, m))
					}
				}
			}
			put(k, "_mute")
			put(1, "str", "_src", "_LEN")
			put(j, "_unmute")
			put(1, "str", "_src")
			put(k-j, "str", "_unmute", "_nop")
			put(1, "str", "_nop")
			offer(doc1(peg.B(peg.And, kids...)), []string{strings.TrimSpace(rep("a ", len(kids))), rep("a ", k+1), strings.TrimSpace(rep("a ", len(kids)))})
		}
	}
	c.Family("functions with unusual names and failures, in files of all names and in all scan modes")
	more := append(list[:len(list):len(list)], moreMarks()...)
	for _, m := range more {
		for _, u := range append(units, peg.B(peg.And, nInt, peg.U(peg.Opt, peg.T(tpl.SEMICOLON))), peg.B(peg.List, nInt, peg.T(tpl.SEMICOLON)), peg.U(peg.Star, peg.T(tpl.SEMICOLON))) {
			for _, g := range []*peg.Node{peg.M(u, m.name), peg.B(peg.And, nID, peg.M(u, m.name)), peg.B(peg.And, peg.M(nID, "_mute"), peg.M(u, m.name), peg.M(peg.U(peg.Opt, nID), "_unmute")), peg.B(peg.And, peg.M(u, m.name), peg.M(peg.U(peg.Opt, peg.T(tpl.SEMICOLON)), "ctx"))} {
				for _, f := range []string{"", "f.x", "d/e/g.y", "/r"} {
					offerAs(doc1(g), []string{"12", "a 12", "a\n12 b", "1.5", "a", ""}, 0, f, more)
				}
				for _, mode := range []tpl.ScanMode{tpl.InsertSemis, tpl.ScanComments, tpl.InsertSemis | tpl.ScanComments} {
					offerAs(doc1(g), []string{"12", "12\n", "a 12\n", "a\n12\n", "12 \n 13\n", "12; 13", "a /*c*/ 12 //c\n", "12 // c\n13", "\n\n1.5\n"}, mode, "f.x", more)
				}
			}
		}
	}
	c.Family("muting around alternatives, repetitions and failures")
	alts := []*peg.Node{peg.M(nID, "_mute"), peg.M(nID, "_unmute"), peg.M(nID, "str"), peg.M(nInt, "_src"), nComma}
	a := &peg.Alphabet{Leaves: alts, Unary: []peg.Op{peg.Star, peg.Opt, peg.Peek, peg.Not}, Binary: []peg.Op{peg.And, peg.Or}}
	hist := []string{"a", "a a", "a 1", "a a a", "a ,", "1", "a a 1 a", "a"}
	eachTree(c, a, c.Pick(5, 6), func(n *peg.Node) { offer(doc1(n), hist) })
	c.Family("sub-evaluation resets muting")
	for _, g := range []string{"doc = IDENT/_mute IDENT/str ?(INT/_unmute); sub = IDENT/str;", "doc = IDENT/str; sub = IDENT/_mute ?(INT/_unmute);"} {
		for _, first := range []string{"a b", "a", "a b 1", "1"} {
			for _, kind := range []string{"text", "bytes", "tokens"} {
				g, first, kind := g, first, kind
				c.Do(func() string { return g + first + kind }, func() string {
					ipt := &testIpt{grammar: g, fns: map[string]interface{}{}, stk: &logStack{}}
					for _, m := range list {
						ipt.fns["$"+m.name] = m.fn(ipt)
					}
					eng, err := interpreter.New(ipt, nil)
					if err != nil {
						return err.Error()
					}
					c.Nontrivial(1)
					ipt.sys = &markSys{ipt: ipt, eng: anyEng{eng, eng.CompileRet}}
					if strings.HasPrefix(g, "doc = IDENT/_mute") {
						try(func() { eng.Eval(first) })
						ipt.log = nil
						var src interface{} = "x"
						if kind == "bytes" {
							src = []byte("x")
						} else if kind == "tokens" {
							src, _ = eng.Tokenize([]byte("x"), "")
						}
						if err := eng.EvalSub("sub", src); err != nil || len(ipt.log) != 1 {
							return fmt.Sprintf("EvalSub behind %q: %v, calls %q", first, err, ipt.log)
						}
						return ""
					}
					var src interface{} = "x"
					if kind == "bytes" {
						src = []byte("x")
					} else if kind == "tokens" {
						src, _ = eng.Tokenize([]byte("x"), "")
					}
					if err := eng.EvalSub("sub", src); err != nil {
						return err.Error()
					}
					ipt.log = nil
					if err := eng.Eval("x"); err != nil || len(ipt.log) != 1 {
						return fmt.Sprintf("Eval behind EvalSub: %v, calls %q", err, ipt.log)
					}
					return ""
				})
			}
		}
	}
	c.Family("EvalCode inside an action")
	for depth := 1; depth <= 4; depth++ {
		for _, fail := range []bool{false, true} {
			for _, muted := range []bool{false, true} {
				for _, useCtx := range []bool{false, true} {
					depth, fail, muted, useCtx := depth, fail, muted, useCtx
					c.Do(func() string {
						return fmt.Sprint("EvalCode depth ", depth, " fail ", fail, " muted ", muted, " ctx ", useCtx)
					}, func() string {
						c.Nontrivial(1)
						return evalCodeCase(depth, fail, muted, useCtx, func(ipt *testIpt) (anyEng, func() util.Interface, error) {
							eng, err := interpreter.New(ipt, nil)
							if err != nil {
								return anyEng{}, nil, err
							}
							return anyEng{eng, eng.CompileRet}, func() util.Interface { return eng.Interpreter }, nil
						})
					})
				}
			}
		}
	}
	c.Family("evaluations inside evaluations, muted and failing")
	for _, nc := range nestCases(c.Pick(3, 4)) {
		nc := nc
		c.Do(nc.String, func() string {
			c.Nontrivial(1)
			return nc.run(func(ipt *testIpt) (anyEng, func() util.Interface, error) {
				eng, err := interpreter.New(ipt, nil)
				if err != nil {
					return anyEng{}, nil, err
				}
				return anyEng{eng, eng.CompileRet}, func() util.Interface { return eng.Interpreter }, nil
			})
		})
	}
	manyInterpreters(c)
	callerCases(c, dynEngine)
	traceCases(c, dynEngine)
	argTypeCases(c, dynEngine)
	c.Family("functions that can't be used are refused")
	type S = logStack
	for _, b := range []struct {
		mark string
		fn   interface{}
	}{{"x", 5}, {"x", "s"}, {"x", func() {}}, {"x", func(s ...*S) {}}, {"x", func(s *S, a, b string, c int) {}}, {"x", func(s *S) int { return 0 }},
		{"x", func(s *S) (error, error) { return nil, nil }}, {"x", func(p *testIpt, a int, c *util.Context, d int) {}}, {"x", func(a ...interface{}) {}}, {"unknown", nil}, {"_unknown", nil}, {"_muted", nil}} {
		b := b
		c.Do(func() string { return fmt.Sprintf("mark %s: %T", b.mark, b.fn) }, func() string {
			c.Nontrivial(1)
			ipt := &testIpt{grammar: "doc = IDENT/" + b.mark, fns: map[string]interface{}{}, stk: &logStack{}}
			if b.fn != nil {
				ipt.fns["$"+b.mark] = b.fn
			}
			var err error
			e := try(func() { _, err = interpreter.New(ipt, &interpreter.Options{}) })
			if e == nil && err == nil {
				return "accepted"
			}
			return ""
		})
	}
}

var evalCodeGrammars = []string{"doc = IDENT/str INT/go IDENT/str; inner = INT/flt;", "doc = IDENT/_mute INT/_go IDENT/_unmute; inner = INT/flt;"}

// evalCodeCase evaluates sub-sources inside an action, depth levels deep.
func evalCodeCase(depth int, fail, muted, useCtx bool, mk0 func(*testIpt) (anyEng, func() util.Interface, error)) string {
	g := evalCodeGrammars[0]
	if muted {
		g = evalCodeGrammars[1]
	}
	var log []string
	mk := func() *testIpt {
		return &testIpt{grammar: g, fns: map[string]interface{}{}, stk: &logStack{}}
	}
	root := mk()
	var eng anyEng
	var current func() util.Interface
	var cur []*testIpt
	subs := []*testIpt{root} // the interpreters of the running evaluations
	gofn := func(p *testIpt, e util.Engine) error {
		log = append(log, fmt.Sprint("go ", len(cur)))
		if p != subs[len(subs)-1] {
			return errors.New("the function was called on another interpreter than the one evaluating")
		}
		cur = append(cur, p)
		if len(cur) <= depth {
			sub := mk()
			name, toks := "inner", "7"
			if len(cur) < depth {
				name, toks = "doc", "x 5 y"
			}
			if fail {
				toks = "+"
			}
			src, err := eng.Tokenize([]byte(toks), "")
			if err != nil {
				return err
			}
			subs = append(subs, sub)
			err = e.EvalCode(sub, name, src)
			subs = subs[:len(subs)-1]
			if (err != nil) != (fail) {
				return fmt.Errorf("EvalCode: %v", err)
			}
			if current() != util.Interface(p) {
				return errors.New("EvalCode didn't restore the interpreter")
			}
		}
		cur = cur[:len(cur)-1]
		return nil
	}
	root.fns["$go"] = gofn
	root.fns["$_go"] = gofn
	if useCtx {
		f := func(p *testIpt, ctx *util.Context) error { return gofn(p, ctx.Engine) }
		root.fns["$go"] = f
		root.fns["$_go"] = f
	}
	root.fns["$str"] = func(s *logStack, v string) { log = append(log, "str "+v) }
	root.fns["$flt"] = func(s *logStack, v float64) { log = append(log, fmt.Sprint("flt ", v)) }
	var err error
	if eng, current, err = mk0(root); err != nil {
		return err.Error()
	}
	var want []string
	var gen func(d int)
	gen = func(d int) {
		top := d == 0
		x := "x"
		if top {
			x = "a"
		}
		if !muted {
			want = append(want, "str "+x)
		}
		want = append(want, fmt.Sprint("go ", d))
		if d+1 <= depth && !fail {
			if d+1 < depth {
				gen(d + 1)
			} else {
				want = append(want, "flt 7")
			}
		}
		y := "y"
		if top {
			y = "b"
		}
		if !muted {
			want = append(want, "str "+y)
		}
	}
	gen(0)
	for k := 0; k < 3; k++ {
		log, cur = nil, nil
		var got error
		if e := try(func() { got = eng.CompileRet.Eval("a 1 b") }); e != nil || got != nil {
			return fmt.Sprintf("run %d: %v %v", k, e, got)
		}
		if strings.Join(log, ";") != strings.Join(want, ";") {
			return fmt.Sprintf("run %d: calls %q, want %q", k, log, want)
		}
	}
	return ""
}

// nestCase is an evaluation that evaluates parts of its source again, some levels deep.
type nestCase struct {
	marks   []string // per level: _mute, _unmute or nop
	what    string   // how the innermost function ends
	recover int      // the level whose function recovers; -1: none
}

var nestWhats = []string{"returns", "error", "panics error", "panics string", "panics int", "mismatch"}

func nestCases(depth int) (out []nestCase) {
	for d := 1; d <= depth; d++ {
		n := 1
		for i := 0; i < d; i++ {
			n *= 3
		}
		for i := 0; i < n; i++ {
			var marks []string
			for k, j := 0, i; k < d; k, j = k+1, j/3 {
				marks = append(marks, []string{"nop", "_mute", "_unmute"}[j%3])
			}
			for _, w := range nestWhats {
				for r := -1; r < d-1; r++ {
					out = append(out, nestCase{marks, w, r})
				}
			}
		}
	}
	return
}

func (p nestCase) String() string {
	return fmt.Sprintf("%s with an innermost function that %s, level %d recovers, on %q", nestGrammar(p.marks), p.what, p.recover, nestSource(len(p.marks)))
}

// nestGrammar: level i is a name, a number with the level's mark, then what the next level evaluates, then a name.
func nestGrammar(marks []string) string {
	g, body := "", "STRING"
	for i := len(marks) - 1; i >= 0; i-- {
		name, fn := fmt.Sprint("x", i), "_sub"
		if i == 0 {
			name = "doc"
		}
		if i == len(marks)-1 {
			fn = "_boom"
		}
		g += fmt.Sprintf("%s = IDENT/s INT/%s (%s)/%s IDENT/s CHAR/_mute FLOAT/s; ", name, marks[i], body, fn)
		body = "IDENT INT " + body + " IDENT CHAR FLOAT"
	}
	return "doc" + strings.TrimSuffix(strings.SplitN(g, "doc", 2)[1], "; ") + "; " + strings.TrimSuffix(strings.SplitN(g, "doc", 2)[0], "; ")
}

func nestSource(depth int) string {
	s := "`boom`"
	for i := depth - 1; i >= 0; i-- {
		s = fmt.Sprintf("a%d\n%d\n%s\nb%d\n'c'\n%d.5\n", i, i, strings.TrimSpace(s), i, i)
	}
	return s
}

func (p nestCase) run(mk func(*testIpt) (anyEng, func() util.Interface, error)) string {
	depth := len(p.marks)
	// the model
	var want []string
	mute := 0
	var level func(i int) string
	level = func(i int) (fail string) {
		s := func(x string) {
			if mute <= 0 {
				want = append(want, x)
			}
		}
		s(fmt.Sprint("s a", i))
		switch p.marks[i] {
		case "_mute":
			mute++
		case "_unmute":
			mute--
		}
		if mute <= 1 {
			if i == depth-1 {
				want = append(want, "boom")
				switch p.what {
				case "error", "panics error", "panics string":
					return fmt.Sprintf("line %d: runtime error: broken", 2*depth+1)
				case "panics int":
					return "7"
				case "mismatch":
					return "a match error"
				}
			} else {
				want = append(want, fmt.Sprint("sub ", i))
				old := mute
				mute = 0
				fail := level(i + 1)
				mute = old
				if fail != "" && p.recover != i {
					return fail
				}
			}
		}
		s(fmt.Sprint("s b", i))
		mute++
		s(fmt.Sprintf("s %d.5", i))
		return ""
	}
	wantEnd := level(0)
	// the code
	var got []string
	var eng anyEng
	var current func() util.Interface
	at := map[*testIpt]int{}
	mkIpt := func(l int) *testIpt {
		ipt := &testIpt{grammar: nestGrammar(p.marks), fns: map[string]interface{}{}, stk: &logStack{}}
		at[ipt] = l
		return ipt
	}
	merr := &tpl.MatchError{}
	root := mkIpt(0)
	root.fns["$s"] = func(q *testIpt, v string) { got = append(got, "s "+v) }
	root.fns["$nop"] = func(q *testIpt) {}
	root.fns["$_boom"] = func(q *testIpt) error {
		got = append(got, "boom")
		if current() != util.Interface(q) || at[q] != depth-1 {
			got = append(got, "wrong interpreter")
		}
		switch p.what {
		case "error":
			return errors.New("broken")
		case "panics error":
			panic(errors.New("broken"))
		case "panics string":
			panic("broken")
		case "panics int":
			panic(7)
		case "mismatch":
			panic(merr)
		}
		return nil
	}
	root.fns["$_sub"] = func(q *testIpt, src interface{}) error {
		i := at[q]
		got = append(got, fmt.Sprint("sub ", i))
		eval := func() error { return eng.EvalCode(mkIpt(i+1), fmt.Sprint("x", i+1), src) }
		if i != p.recover {
			return eval()
		}
		var err error
		e := try(func() { err = eval() })
		if p.what == "returns" && (e != nil || err != nil) {
			got = append(got, fmt.Sprint("failed: ", e, err))
		}
		if current() != util.Interface(q) {
			got = append(got, "the interpreter isn't restored")
		}
		return nil
	}
	var err error
	if eng, current, err = mk(root); err != nil {
		return err.Error()
	}
	for k := 0; k < 2; k++ {
		got = nil
		var err error
		e := try(func() { err = eng.CompileRet.Eval(nestSource(depth)) })
		if e == nil && err != nil {
			e = err
		}
		end := ""
		if e == interface{}(merr) {
			end = "a match error"
		} else if e != nil {
			end = fmt.Sprint(e)
		}
		if end != wantEnd {
			return fmt.Sprintf("run %d: ends with %q, want %q", k, end, wantEnd)
		}
		if strings.Join(got, ";") != strings.Join(want, ";") {
			return fmt.Sprintf("run %d: calls %q, want %q", k, got, want)
		}
	}
	return ""
}
