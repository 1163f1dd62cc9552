package checks

import (
	"errors"
	"fmt"
	"math/big"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/qlang"
	qip "github.com/qiniu/text/tpl/qlang/cl/interpreter"
)

func init() {
	qlang.Import("interp", qip.Exports)
	core.Register(&core.Check{
		ID:   "C38",
		Rule: "a case is one source given to a calculator that is itself written in the scripting language (all token strings and all sentences up to a size), one history of sources on one or two such calculators, or one wrong definition of an interpreter; results are compared with an independent evaluator; non-trivial: the source has a value",
		Assumptions: []string{"octal and hexadecimal literals aren't specified for Int and Float marks",
			"what a failing source leaves on the interpreter's own stack isn't specified"},
		Run: runC38,
	})
}

const ipSource = `
Stack = class {
	fn _init() { set(this, "data", []) }
	fn push(v) { set(this, "data", append(this.data, v)) }
	fn pop() {
		n = len(this.data)
		v = this.data[n-1]
		set(this, "data", this.data[:n-1])
		return v
	}
	fn popArgs(n) {
		m = len(this.data)
		if m < n { panic("stack too small") }
		v = slice("var", n)
		for i = 0; i < n; i++ { set(v, i, this.data[m-n+i]) }
		set(this, "data", this.data[:m-n])
		return v
	}
	fn pushInt(v) { this.push(v) }
	fn pushFloat(v) { this.push(v) }
	fn pushStr(v) { this.push(v[1:len(v)-1]) }
	fn ARITY(n) { this.push(n) }
	fn nothing() { this.push(nil) }
}
Calc = class {
	fn _init(log) {
		set(this, "stk", new Stack, "log", log, "vars", {})
	}
	fn stack() { return this.stk }
	fn grammar() { return ` + "`" + `
		term = factor *('*' factor/mul | '/' factor/quo)
		expr = term *('+' term/add | '-' term/sub)
		doc = (IDENT '='! expr)/assign | expr
		factor = INT/pushInt | FLOAT/pushFloat | STRING/pushStr | '-' factor/neg | '+' factor | '(' expr ')' |
			"max" '(' expr %= ','/ARITY ')'/max |
			"last" '(' expr % ','/COUNT ')'/last |
			"src" '('/_mute! expr/_codeSrc ')'/_unmute/text |
			"if"/_mute! expr/_codeSrc '{' ?expr/_codeSrc '}' ?("else" '{' ?expr/_codeSrc '}')/_ARITY /_unmute/ifEngine |
			"nothing"/nothing |
			IDENT/ref
	` + "`" + ` }
	fn assign(name) { v = this.stk.pop(); set(this.vars, name, v); this.stk.push(v) }
	fn ref(name) {
		v = get(this.vars, name)
		if v == undefined { panic("no variable " + name) }
		this.stk.push(v)
	}
	fn max() { n = this.stk.pop(); args = this.stk.popArgs(n); this.stk.push(max(args...)) }
	fn COUNT(n) { this.stk.push(n) }
	fn last() { n = this.stk.pop(); args = this.stk.popArgs(n); this.stk.push(args[n-1]) }
	fn _codeSrc(code) { this.stk.push(code) }
	fn text() { code = this.stk.pop(); this.stk.push(len(code)) }
	fn ifEngine(e) {
		els = nil
		if this.stk.pop() == 1 { els = this.stk.pop() }
		body = this.stk.pop()
		cond = this.stk.pop()
		e.evalCode(this, "expr", cond)
		if this.stk.pop() == 0 { body = els }
		if len(body) == 0 {
			this.stk.push(nil)
		} else {
			err = e.evalCode(this, "expr", body)
			if err != nil { panic(err) }
		}
	}
	fn fntable() { return {
		"$pushInt": Stack.pushInt, "$pushFloat": Stack.pushFloat, "$pushStr": Stack.pushStr, "$ARITY": Stack.ARITY, "$_ARITY": Stack.ARITY, "$nothing": Stack.nothing,
		"$add": fn(a, b) { return a + b }, "$sub": fn(a, b) { return a - b },
		"$mul": fn(a, b) { return a * b }, "$quo": hq, "$neg": fn(a) { return -a },
		"$max": Calc.max, "$COUNT": Calc.COUNT, "$last": Calc.last, "$_codeSrc": Calc._codeSrc, "$text": Calc.text, "$ifEngine": Calc.ifEngine,
		"$assign": Calc.assign, "$ref": Calc.ref,
	} }
}
make = fn() {
	c = new Calc([])
	eng, err = interp.interpreter(c, nil)
	if err != nil { panic(err) }
	return fn(src) {
		e = eng.eval(src)
		if e != nil { panic(e) }
		return c.stk.pop()
	}
}
`

// ipRef evaluates a source of the calculator; it panics with badSyntax or ipFail.
type ipRef struct {
	toks []string
	i    int
	vars map[string]interface{}
	text bool // only the syntax
}

type ipFail struct{}

func (p *ipRef) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *ipRef) need(t string) {
	if p.peek() != t {
		panic(badSyntax{})
	}
	p.i++
}

func ipNum(v interface{}) (float64, bool, bool) {
	switch x := v.(type) {
	case int:
		return float64(x), true, true
	case float64:
		return x, false, true
	}
	return 0, false, false
}

func (p *ipRef) op(op string, a, b interface{}) interface{} {
	if p.text {
		return 1
	}
	x, xi, ok1 := ipNum(a)
	y, yi, ok2 := ipNum(b)
	if s, ok := a.(string); ok && op == "+" {
		if t, ok := b.(string); ok {
			return s + t
		}
	}
	if !ok1 || !ok2 {
		panic(ipFail{})
	}
	if xi && yi {
		i, j := a.(int), b.(int)
		switch op {
		case "+":
			return i + j
		case "-":
			return i - j
		case "*":
			return i * j
		}
		if j == 0 {
			panic(ipFail{})
		}
		return i / j
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	}
	return x / y
}

// ipKey: the keywords of the calculator's grammar, which can't be names
var ipKey = map[string]bool{"nothing": true, "if": true, "else": true, "max": true, "last": true, "src": true}

func (p *ipRef) doc() interface{} {
	if n := p.peek(); isWord(n) && !ipKey[n] && len(p.toks) > 1 && p.toks[1] == "=" {
		p.i = 2
		v := p.expr()
		p.vars[n] = v
		return v
	}
	return p.expr()
}

func (p *ipRef) expr() interface{} {
	a := p.term()
	for p.peek() == "+" || p.peek() == "-" {
		op := p.peek()
		p.i++
		a = p.op(op, a, p.term())
	}
	return a
}

func (p *ipRef) term() interface{} {
	a := p.factor()
	for p.peek() == "*" || p.peek() == "/" {
		op := p.peek()
		p.i++
		a = p.op(op, a, p.factor())
	}
	return a
}

func (p *ipRef) lazy(f func() interface{}, run bool) interface{} {
	old := p.text
	p.text = old || !run
	defer func() { p.text = old }()
	return f()
}

// block reads { expr? }.
func (p *ipRef) block(run bool) (v interface{}) {
	p.need("{")
	if p.peek() != "}" {
		v = p.lazy(p.expr, run)
	}
	p.need("}")
	return
}

func (p *ipRef) list(empty bool) (out []interface{}) {
	p.need("(")
	if p.peek() == ")" && empty {
		p.i++
		return
	}
	for {
		out = append(out, p.expr())
		if p.peek() != "," {
			break
		}
		p.i++
	}
	p.need(")")
	return
}

func (p *ipRef) factor() interface{} {
	t := p.peek()
	switch {
	case t == "":
		panic(badSyntax{})
	case t[0] >= '0' && t[0] <= '9':
		p.i++
		if strings.Contains(t, ".") {
			f, _ := strconv.ParseFloat(t, 64)
			return f
		}
		n, err := strconv.Atoi(t)
		if err != nil {
			panic(ipFail{})
		}
		return n
	case t[0] == '"':
		p.i++
		return t[1 : len(t)-1]
	case t == "-":
		p.i++
		v := p.factor()
		if p.text {
			return 1
		}
		switch x := v.(type) {
		case int:
			return -x
		case float64:
			return -x
		}
		panic(ipFail{})
	case t == "+":
		p.i++
		return p.factor()
	case t == "(":
		p.i++
		v := p.expr()
		p.need(")")
		return v
	case t == "max":
		p.i++
		a := p.list(true)
		if p.text {
			return 1
		}
		var best interface{} = 0
		float := false
		for i, v := range a {
			x, isInt, ok := ipNum(v)
			if !ok {
				panic(ipFail{})
			}
			float = float || !isInt
			y, _, _ := ipNum(best)
			if i == 0 || x > y {
				best = v
			}
		}
		if float {
			f, _, _ := ipNum(best)
			return f
		}
		return best
	case t == "last":
		p.i++
		a := p.list(false)
		return a[len(a)-1]
	case t == "src":
		p.i++
		p.need("(")
		from := p.i
		p.lazy(p.expr, false)
		n := p.i - from
		p.need(")")
		return n
	case t == "nothing":
		p.i++
		return nil
	case t == "if":
		p.i++
		// the condition and the bodies are evaluated only when the whole has been read
		from := p.i
		p.lazy(p.expr, false)
		p.block(false)
		if p.peek() == "else" {
			p.i++
			p.block(false)
		}
		if p.text {
			return 1
		}
		end := p.i
		p.i = from
		cond := p.expr()
		yes := cond != 0
		v := p.block(yes)
		if p.i < end && p.peek() == "else" {
			p.i++
			w := p.block(!yes)
			if !yes {
				v = w
			}
		} else if !yes {
			v = nil
		}
		p.i = end
		return v
	case isWord(t) && t != "else":
		p.i++
		if p.text {
			return 1
		}
		v, ok := p.vars[t]
		if !ok {
			panic(ipFail{})
		}
		return v
	}
	panic(badSyntax{})
}

// ipWant: kind is "value", "error" or "malformed".
func ipWant(toks []string, vars map[string]interface{}) (v interface{}, kind string) {
	p := &ipRef{toks: toks, vars: vars}
	defer func() {
		switch e := recover(); e.(type) {
		case nil:
		case badSyntax:
			kind = "malformed"
		case ipFail:
			kind = "error"
		default:
			panic(e)
		}
	}()
	v = p.doc()
	if p.i < len(toks) {
		return nil, "malformed"
	}
	return v, "value"
}

// ipMake makes calculators.
func ipMake(n int) qlang.Qlang {
	q := qnew(true)
	q.SetVar("hq", func(a, b interface{}) interface{} {
		x, xi, ok1 := ipNum(a)
		y, yi, ok2 := ipNum(b)
		if !ok1 || !ok2 {
			panic(errors.New("not a number"))
		}
		if xi && yi {
			return a.(int) / b.(int)
		}
		return x / y
	})
	src := ipSource
	for i := 0; i < n; i++ {
		src += fmt.Sprintf("c%d = make()\n", i)
	}
	if err := q.SafeEval(src); err != nil {
		panic(fmt.Errorf("the calculator can't be made: %v", err))
	}
	return q
}

func ipEval(q qlang.Qlang, calc int, src string) (v interface{}, ok bool, raw interface{}) {
	var err error
	q.SetVar("src", src)
	e := try(func() { err = q.SafeEval(fmt.Sprintf("r = c%d(src)", calc)) })
	if e != nil {
		return nil, false, e
	}
	if err != nil {
		return err, false, nil
	}
	v, _ = q.Var("r")
	return v, true, nil
}

func ipCompare(v interface{}, ok bool, raw interface{}, w interface{}, kind string) string {
	if raw != nil {
		return fmt.Sprintf("panics with %v", raw)
	}
	if ok != (kind == "value") {
		return fmt.Sprintf("gives %v, want %s", v, kind)
	}
	if ok {
		if d, e := qdescribe(v), qref.Describe(w, nil); d != e {
			return fmt.Sprintf("gives %s, want %s", d, e)
		}
	}
	return ""
}

var ipPool struct {
	q    qlang.Qlang
	uses int
	ok   bool
}

func ipCase(c *core.C, toks []string) {
	c.Do(func() string { return strings.Join(toks, " ") }, func() string {
		w, kind := ipWant(toks, map[string]interface{}{})
		c.AddTrace(1)
		c.AddStates(1)
		c.AddTransitions(1)
		if kind == "value" {
			c.Nontrivial(1)
			c.Outcome(qref.Describe(w, nil))
		}
		src := strings.Join(toks, " ")
		if len(toks) > 1 && toks[1] == "=" { // keeps variables
			ipPool.ok = false
		}
		if !ipPool.ok || ipPool.uses > 300 {
			ipPool.q, ipPool.uses, ipPool.ok = ipMake(1), 0, true
		}
		ipPool.uses++
		v, ok, raw := ipEval(ipPool.q, 0, src)
		if ipCompare(v, ok, raw, w, kind) != "" || len(toks) > 1 && toks[1] == "=" {
			ipPool.ok = false
			v, ok, raw = ipEval(ipMake(1), 0, src)
		}
		return ipCompare(v, ok, raw, w, kind)
	})
}

func runC38(c *core.C) {
	for _, alphabet := range []string{"1 2 + - * / ( )", "3 2.5 * + , max ( ) x", "if 0 1 { } else + 2", `"a" + 1 last ( , ) "b"`, "src ( ) 1 * x if { }", "x = 1 + nothing -"} {
		c.Family("all token strings over " + alphabet)
		toks := strings.Fields(alphabet)
		eachIdx(c, len(toks), 1, c.Pick(4, 6), func(ix []int) {
			s := make([]string, len(ix))
			for i, k := range ix {
				s[i] = toks[k]
			}
			ipCase(c, s)
		})
	}
	c.Family("all sentences up to a size")
	memo := map[int][]string{}
	var sent func(n int) []string
	sent = func(n int) (out []string) {
		if n < 1 {
			return nil
		}
		if m, ok := memo[n]; ok {
			return m
		}
		if n == 1 {
			out = []string{"0", "7", "2.5", "x", "nothing"}
		}
		for _, a := range sent(n - 1) {
			out = append(out, "- ( "+a+" )", "src ( "+a+" )", "max ( "+a+" )", "if "+a+" { }")
		}
		for k := 1; k < n-1; k++ {
			for _, a := range sent(k) {
				for _, b := range sent(n - 1 - k) {
					out = append(out, "( "+a+" ) - "+b, a+" * ( "+b+" )", a+" / "+b, "max ( "+a+" , "+b+" )", "last ( "+a+" , "+b+" )", "if "+a+" { "+b+" }", "if "+a+" { 8 } else { "+b+" }", "if "+a+" { "+b+" } else { 9 }")
				}
			}
		}
		memo[n] = out
		return
	}
	for n := 1; n <= c.Pick(4, 5); n++ {
		for _, s := range sent(n) {
			ipCase(c, strings.Fields(s))
		}
	}
	c.Family("long and deep sources")
	for _, n := range pumpsUpTo(c.Pick(140, 300)) {
		ipCase(c, append(repS("7 -", n), "1"))
		ipCase(c, append([]string{"max", "("}, append(repS("3 ,", n), "2", ")")...))
		ipCase(c, append([]string{"last", "("}, append(repS("3 ,", n), "2", ")")...))
		if n <= 12 {
			ipCase(c, append(append(repS("if 1 {", n), "7"), repS("}", n)...))
			ipCase(c, append(append(repS("1 + (", n), "7"), repS(")", n)...))
			ipCase(c, append(append(repS("2 * if 0 { x } else {", n), "7"), repS("}", n)...))
		}
	}
	lits := []string{"9223372036854775807", "9223372036854775808", "1e3", "0.5", "1e400", "0", "12345", "0.1", "16777217.0"}
	for k := 1; k <= 64; k++ { // the numbers around the powers of two and of ten
		for _, base := range []int64{2, 10} {
			v := new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(k)), nil)
			for _, d := range []int64{-1, 0, 1} {
				l := new(big.Int).Add(v, big.NewInt(d)).String()
				lits = append(lits, l, l+".0", l+".5", "0."+l)
			}
		}
	}
	for e := -340; e <= 320; e += c.Pick(10, 1) {
		lits = append(lits, fmt.Sprintf("1e%d", e), fmt.Sprintf("9.87654321e%d", e))
	}
	for _, l := range lits {
		l := l
		c.Do(func() string { return l }, func() string {
			c.AddTrace(1)
			c.AddStates(1)
			v, ok, raw := ipEval(ipMake(1), 0, l)
			if strings.ContainsAny(l, ".e") {
				f, err := strconv.ParseFloat(l, 64)
				return ipCompare(v, ok, raw, f, map[bool]string{true: "value", false: "error"}[err == nil])
			}
			n, err := strconv.Atoi(l)
			return ipCompare(v, ok, raw, n, map[bool]string{true: "value", false: "error"}[err == nil])
		})
	}
	c.Family("histories of sources on two calculators")
	srcs := []string{"x = 3", "x + 1", "x = x * 2", "1 / 0", "( 1 + ", "if 1 { 1 / 0 } else { 2 }", "if x { 1", "y", "if 0 { y } else { x }", "x = ( y )", "max ( x , 4 )", "src ( ", "1 )"}
	eachIdx(c, 2*len(srcs), 2, c.Pick(3, 4), func(ix []int) {
		ix = cp(ix)
		c.Do(func() string {
			var s []string
			for _, i := range ix {
				s = append(s, fmt.Sprintf("%d: %s", i%2, srcs[i/2]))
			}
			return strings.Join(s, "; ")
		}, func() string {
			q := ipHist()
			vars := []map[string]interface{}{{}, {}}
			for k, i := range ix {
				c.AddStates(1)
				c.AddTransitions(1)
				w, kind := ipWant(strings.Fields(srcs[i/2]), vars[i%2])
				v, ok, raw := ipEval(q, i%2, srcs[i/2])
				if msg := ipCompare(v, ok, raw, w, kind); msg != "" {
					return fmt.Sprintf("step %d: %s", k, msg)
				}
				if kind == "value" && k > 0 {
					c.Nontrivial(1)
				}
				c.Outcome(kind + fmt.Sprint(w))
			}
			c.AddTrace(1)
			return ""
		})
	})
	c.Family("all marks of up to a number of words")
	ipMarks(c)
	c.Family("evaluations on behalf of other objects")
	ipObjects(c)
	ipFailures(c)
	ipTraces(c)
	c.Family("wrong definitions")
	ipWrong(c)
}

// ipMarks: what the function of a mark is given, by its name, its receiver and the place of the mark.
func ipMarks(c *core.C) {
	words := []string{"Int", "Float", "Src", "Engine", "Big", "INT", "Int2", "Len"}
	var marks []string
	eachIdx(c, len(words), 0, c.Pick(2, 3), func(ix []int) {
		m := ""
		for _, i := range ix {
			m += words[i]
		}
		for _, p := range []string{"", "_", "a", "_a", "intX"} {
			if p == "intX" && len(ix) > 1 || m == "" && (p == "" || p == "_") {
				continue
			}
			marks = append(marks, p+m)
		}
	})
	type place struct {
		grammar, src string
		hits         []struct {
			toks []string
			n    int
			mute int
		}
	}
	hit := func(n, mute int, toks ...string) struct {
		toks []string
		n    int
		mute int
	} {
		return struct {
			toks []string
			n    int
			mute int
		}{toks, n, mute}
	}
	type hits = []struct {
		toks []string
		n    int
		mute int
	}
	places := []place{
		{"doc = INT/M", "12", hits{hit(-1, 0, "12")}},
		{"doc = '(' INT % ','/M ')'", "(12)", hits{hit(1, 0, "12")}},
		{"doc = '(' INT % ','/M ')'", "(12, 7, 8)", hits{hit(3, 0, "12", ",", "7", ",", "8")}},
		{"doc = '(' INT %= ','/M ')'", "()", hits{hit(0, 0)}},
		{"doc = '(' INT %= ','/M ')'", "(5,6)", hits{hit(2, 0, "5", ",", "6")}},
		{"doc = (?INT)/M ','", "9,", hits{hit(1, 0, "9")}},
		{"doc = (?INT)/M ','", ",", hits{hit(0, 0)}},
		{"doc = *(INT/M ';')", "1;2;", hits{hit(-1, 0, "1"), hit(-1, 0, "2")}},
		{"doc = IDENT/_mute INT/M IDENT/_unmute INT/M", "a 12 b 7", hits{hit(-1, 1, "12"), hit(-1, 0, "7")}},
		{"doc = IDENT/_mute/_mute INT/M IDENT/_unmute INT/M IDENT/_unmute INT/M", "a 12 b 7 c 3", hits{hit(-1, 2, "12"), hit(-1, 1, "7"), hit(-1, 0, "3")}},
	}
	const recvs = 8
	for _, m := range marks {
		for r := 0; r < recvs; r++ {
			for _, pl := range places {
				m, r, pl := m, r, pl
				c.Do(func() string { return fmt.Sprintf("mark %s of receiver kind %d, %s on %s", m, r, pl.grammar, pl.src) }, func() string {
					c.AddTrace(1)
					c.AddStates(len(pl.hits))
					c.AddTransitions(len(pl.hits))
					var log, want []string
					fails := false
					last := ""
					for i, ch := range m {
						if ch >= 'A' && ch <= 'Z' {
							last = m[i:]
						}
					}
					first := strings.TrimPrefix(m, "_")[0]
					queue := []string{"int:91", "int:92", "int:93", "int:94", "int:95", "int:96"}
					for _, h := range pl.hits {
						if h.mute > 1 || h.mute == 1 && m[0] != '_' {
							continue
						}
						arg := ""
						switch {
						case r == 1 || r == 3:
							arg = "none"
						case r == 4 || r == 6:
							arg, queue = queue[len(queue)-1], queue[:len(queue)-1]
							queue = append(queue, "int:1")
						case r == 5 || r == 7:
							arg, queue = queue[len(queue)-2]+" "+queue[len(queue)-1], queue[:len(queue)-2]
							queue = append(queue, "int:2")
						case first >= 'A' && first <= 'Z':
							arg = fmt.Sprintf("int:%d", h.n)
						case last == "Src":
							arg = "tokens:" + strings.Join(h.toks, " ")
							if len(h.toks) == 0 {
								arg = "<nil>:<nil>"
							}
						case last == "Engine":
							arg = "engine"
						case len(h.toks) == 0:
							fails = true
						case last == "Int":
							arg = "int:" + h.toks[0]
						case last == "Float":
							arg = "float64:" + h.toks[0]
						default:
							arg = "string:" + h.toks[0]
						}
						if fails {
							break
						}
						want = append(want, []string{"St ", "St ", "Calc ", "Calc ", "", "", "", ""}[r]+arg)
					}
					if len(want) > 0 {
						c.Nontrivial(1)
						c.Outcome(want[0])
					}
					q := ipMarkQ()
					q.SetVar("rec", func(who string, v ...interface{}) {
						s := who
						if len(v) == 0 {
							s += "none"
						}
						for i, x := range v {
							if i > 0 {
								s += " "
							}
							switch y := x.(type) {
							case *qip.Engine:
								s += "engine"
							case []tpl.Token:
								var t []string
								for _, k := range y {
									l := k.Literal
									if l == "" {
										l = string(rune(k.Kind))
									}
									t = append(t, l)
								}
								s += "tokens:" + strings.Join(t, " ")
							default:
								s += fmt.Sprintf("%T:%v", x, x)
							}
						}
						log = append(log, s)
					})
					q.SetVar("g", strings.Replace(pl.grammar, "M", m, -1))
					var fn, st, ca string
					switch r {
					case 0:
						fn, st = "St."+m, "fn "+m+"(v) { rec(\"St \", v) }"
					case 1:
						fn, st = "St."+m, "fn "+m+"() { rec(\"St \") }"
					case 2:
						fn, ca = "Calc."+m, "fn "+m+"(v) { rec(\"Calc \", v) }"
					case 3:
						fn, ca = "Calc."+m, "fn "+m+"() { rec(\"Calc \") }"
					case 4:
						fn = "fn(a) { rec(\"\", a); return 1 }"
					case 6:
						fn = "n1"
						q.SetVar("n1", func(a interface{}) int { log = append(log, fmt.Sprintf("%T:%v", a, a)); return 1 })
					case 7:
						fn = "n2"
						q.SetVar("n2", func(a, b interface{}) int { log = append(log, fmt.Sprintf("%T:%v %T:%v", a, a, b, b)); return 2 })
					case 5:
						fn = "fn(a, b) { rec(\"\", a, b); return 2 }"
					}
					src := "St = class { fn _init() { set(this, \"d\", [91, 92, 93, 94, 95, 96]) }\nfn push(v) { set(this, \"d\", append(this.d, v)) }\nfn popArgs(n) { m = len(this.d); v = this.d[m-n:]; set(this, \"d\", this.d[:m-n]); return v }\n" + st + "\n}\n" +
						"Calc = class { fn _init() { set(this, \"s\", new St) }\nfn stack() { return this.s }\nfn grammar() { return g }\nfn fntable() { return {\"$" + m + "\": " + fn + ", \"$\": nil} }\n" + ca + "\n}\n" +
						"c = new Calc; eng, err = interp.interpreter(c, nil)\nif err != nil { panic(err) }\nres = eng.eval(`" + pl.src + "`); d = c.s.d"
					kind, text := qshow(q, src)
					if kind != "ok" {
						return fmt.Sprintf("ends with %s %q", kind, text)
					}
					if v, _ := q.Var("res"); (v != nil) != fails {
						return fmt.Sprintf("eval gives %v", v)
					}
					if fmt.Sprint(log) != fmt.Sprint(want) {
						return fmt.Sprintf("calls %q, want %q", log, want)
					}
					d, _ := q.Var("d")
					if a, b := fmt.Sprint(d), strings.Replace(fmt.Sprint(queue), "int:", "", -1); a != b {
						return fmt.Sprintf("the stack is %s, want %s", a, b)
					}
					return ""
				})
			}
		}
	}
}

var ipMarkPool struct {
	q    qlang.Qlang
	uses int
}

func ipMarkQ() qlang.Qlang {
	p := &ipMarkPool
	if p.uses == 0 || p.uses > 500 {
		p.q, p.uses = qnew(true), 0
	}
	p.uses++
	return p.q
}

const ipObjSource = `
St = class {
	fn _init() { set(this, "d", []) }
	fn push(v) { set(this, "d", append(this.d, v)) }
	fn pop() { n = len(this.d); v = this.d[n-1]; set(this, "d", this.d[:n-1]); return v }
	fn popArgs(n) { m = len(this.d); v = this.d[m-n:]; set(this, "d", this.d[:m-n]); return v }
	fn _codeSrc(v) { this.push(v) }
	fn _objInt(v) { this.push(v) }
}
Calc = class {
	fn _init(id) { set(this, "id", id, "s", stk) }
	fn stack() { return this.s }
	fn grammar() { return ` + "`" + `
		doc = items
		items = *item
		item = "on"/_mute INT/_objInt '(' items/_codeSrc ')'/_unmute/onEngine |
			"all"/_mute '(' items/_codeSrc ')'/_unmute/allEngine |
			"try"/_mute INT/_objInt '(' items/_codeSrc ')'/_unmute/tryEngine |
			"mute"/_mute | "unmute"/_unmute |
			"boom"/boom | IDENT/name
	` + "`" + ` }
	fn name(s) { rec(this.id, s) }
	fn boom() { panic("boom") }
	fn on(e, k, code) {
		if len(code) > 0 {
			bad = e.evalCode(objs[k], "items", code)
			if bad != nil { panic(bad) }
		}
	}
	fn onEngine(e) { code = this.s.pop(); k = this.s.pop(); this.on(e, k, code) }
	fn allEngine(e) { code = this.s.pop(); for i = 0; i < 3; i++ { this.on(e, i, code) } }
	fn tryEngine(e) {
		code = this.s.pop(); k = this.s.pop()
		n = len(this.s.d)
		me = this
		fn() {
			defer fn() {
				if recover() != nil { set(me.s, "d", me.s.d[:n]); rec(me.id, "caught") }
			}()
			me.on(e, k, code)
		}()
	}
	fn fntable() { return {"$_codeSrc": St._codeSrc, "$_objInt": St._objInt, "$onEngine": Calc.onEngine, "$allEngine": Calc.allEngine, "$tryEngine": Calc.tryEngine, "$boom": Calc.boom, "$name": Calc.name} }
}
// an object of another class
Other = class {
	fn _init(id) { set(this, "id", id, "s", stk) }
	fn on(e, k, code) {
		if len(code) > 0 {
			bad = e.evalCode(objs[k], "items", code)
			if bad != nil { panic(bad) }
		}
	}
}
stk = new St
objs = [new Calc(0), new Calc(1), new Other(2)]
eng, err = interp.interpreter(objs[0], nil)
if err != nil { panic(err) }
`

// ipObjects: stored code is evaluated for other objects than that of the interpreter.
func ipObjects(c *core.C) {
	memo := map[int][]string{}
	var items func(n int) []string // all lists of items with n words
	items = func(n int) (out []string) {
		if n == 0 {
			return []string{""}
		}
		if m, ok := memo[n]; ok {
			return m
		}
		for _, b := range items(n - 1) {
			out = append(out, "a "+b, "boom "+b)
		}
		for k := 0; k < n; k++ {
			for _, a := range items(k) {
				for _, b := range items(n - 1 - k) {
					out = append(out, "on 1 ( "+a+") "+b, "on 2 ( "+a+") "+b, "all ( "+a+") "+b, "try 2 ( "+a+") "+b)
				}
			}
		}
		memo[n] = out
		return
	}
	q := qnew(true)
	var log []string
	q.SetVar("rec", func(id int, s string) { log = append(log, fmt.Sprint(id, s)) })
	if err := q.SafeEval(ipObjSource); err != nil {
		panic(err)
	}
	one := func(srcs ...string) {
		c.Do(func() string { return strings.Join(srcs, "; ") }, func() string {
			c.AddTrace(1)
			if err := q.SafeEval("set(stk, \"d\", [])"); err != nil {
				return err.Error()
			}
			for k, src := range srcs {
				c.AddStates(1)
				c.AddTransitions(1)
				q.SetVar("src", src)
				var want []string
				kind := ipObjRef(src, &want)
				log = nil
				text, err := "", error(nil)
				if e := try(func() { err = q.SafeEval("r = eng.eval(src)") }); e != nil {
					return fmt.Sprintf("step %d panics with %v", k, e)
				}
				if err != nil {
					return fmt.Sprintf("step %d ends with %v", k, err)
				}
				r, _ := q.Var("r")
				if e, ok := r.(error); ok {
					text = e.Error()
				}
				switch kind {
				case "":
					if r != nil {
						return fmt.Sprintf("step %d gives %v", k, r)
					}
				case "boom":
					if !strings.Contains(text, "boom") {
						return fmt.Sprintf("step %d gives %v, want the error boom", k, r)
					}
				case "malformed":
					if text == "" {
						return fmt.Sprintf("step %d gives %v, want an error", k, r)
					}
					want = log // what happens before the error is noticed isn't specified
				}
				if fmt.Sprint(log) != fmt.Sprint(want) {
					return fmt.Sprintf("step %d: %v, want %v", k, log, want)
				}
				if len(want) > 0 {
					c.Nontrivial(1)
					c.Outcome(fmt.Sprint(want))
				}
			}
			return ""
		})
	}
	for n := 0; n <= c.Pick(4, 5); n++ {
		for _, s := range items(n) {
			one(s, "b")
		}
	}
	srcs := []string{"a", "on 1 ( a boom ) a", "on 2 ( all ( a ) ) a", "try 1 ( a on 2 ( boom ) ) a", "mute a", "mute on 1 ( a", "on 1 ( on 2 ( a", "boom", ") a", "all ( mute a unmute a )", "try 1 ( mute boom unmute boom ) a"}
	eachIdx(c, len(srcs), 2, c.Pick(3, 4), func(ix []int) {
		s := make([]string, len(ix))
		for i, k := range ix {
			s[i] = srcs[k]
		}
		one(s...)
	})
}

// ipObjRef gives "", "boom" or "malformed".
func ipObjRef(src string, log *[]string) (kind string) {
	toks := strings.Fields(src)
	defer func() {
		if e := recover(); e != nil {
			kind = e.(string)
		}
	}()
	// skip finds the end of the items from i on
	var skip func(i int) int
	skip = func(i int) int {
		for i < len(toks) && toks[i] != ")" {
			if toks[i] == "on" || toks[i] == "try" || toks[i] == "all" {
				if toks[i] != "all" {
					i++
				}
				i = skip(i + 2)
				if i >= len(toks) {
					panic("malformed")
				}
			}
			i++
		}
		return i
	}
	if skip(0) < len(toks) {
		return "malformed"
	}
	var run func(i, end, id int, mute *int)
	run = func(i, end, id int, mute *int) {
		for i < end {
			switch t := toks[i]; t {
			case "on", "try", "all":
				k := -1
				if t != "all" {
					i++
					k = int(toks[i][0] - '0')
				}
				from := i + 2
				i = skip(from)
				if *mute == 0 {
					body := func() {
						for o := 0; o < 3; o++ {
							if o == k || k < 0 {
								m := *mute // of the evaluation
								run(from, i, o, &m)
							}
						}
					}
					if t == "try" {
						func() {
							defer func() {
								if recover() != nil {
									*log = append(*log, fmt.Sprint(id, "caught"))
								}
							}()
							body()
						}()
					} else {
						body()
					}
				}
			case "mute":
				*mute++
			case "unmute":
				*mute--
			case "boom":
				if *mute <= 0 {
					panic("boom")
				}
			default:
				if *mute <= 0 {
					*log = append(*log, fmt.Sprint(id, t))
				}
			}
			i++
		}
	}
	m := 0
	run(0, len(toks), 0, &m)
	return ""
}

// ipHist gives two calculators without variables.
var ipHistQ struct {
	q  qlang.Qlang
	ok bool
}

func ipHist() qlang.Qlang {
	if !ipHistQ.ok {
		ipHistQ.q, ipHistQ.ok = ipMake(0), true
	}
	if err := ipHistQ.q.SafeEval("c0 = make(); c1 = make()"); err != nil {
		panic(err)
	}
	return ipHistQ.q
}

func ipWrong(c *core.C) {
	st := "fn stack() { return this.s }"
	gr := func(g string) string { return "fn grammar() { return `" + g + "` }" }
	ft := func(t string) string { return "fn fntable() { return " + t + " }" }
	ok := `{"$a": fn(x) { return 1 }, "$b": St.push}`
	for _, d := range []struct {
		src  string
		good bool
	}{
		{st + gr("doc = INT/a") + ft(ok), true},
		{st + gr("doc = INT/b") + ft(ok), true},
		{st + gr("doc = INT/b ?(IDENT/a)") + ft(ok), true},
		{gr("doc = INT/a") + ft(ok), false},
		{st + ft(ok), false},
		{st + gr("doc = INT/a"), false},
		{"fn stack() { return 1 }" + gr("doc = INT/a") + ft(ok), false},
		{st + "fn grammar() { return 1 }" + ft(ok), false},
		{st + gr("doc = INT/a") + ft("[1]"), false},
		{st + gr("doc = INT/a") + ft("{1: 2}"), false},
		{st + gr("doc = INT/nomark") + ft(ok), false},
		{st + gr("doc = INT/a") + ft(`{"$a": fn(x...) { return 1 }, "$b": 1}`), false},
		{st + gr("doc = INT/a") + ft(`{"$a": fn() { return 1 }, "$b": 1}`), false},
		{st + gr("doc = INT/b") + ft(`{"$a": 1, "$b": St.three}`), false},
		{st + gr("doc = INT/a") + ft(`{"$a": 1, "$b": "x"}`), false},
		{st + gr("doc = INT/a") + ft(`{"$a": max, "$b": 1}`), false},
		{st + gr("doc = INT/a") + ft(`{"$a": hm.none, "$b": 1}`), false},
		{st + gr("doc = INT/a") + ft(`{"$a": hm.v, "$b": 1}`), true},
		{st + gr("doc = nothing/a") + ft(ok), false},
		{st + gr("doc = (INT/a") + ft(ok), false},
		{st + gr("") + ft(ok), false},
		{"fn stack() { return 1 }" + gr("doc = INT | FLOAT") + ft(ok), false},
		{"fn stack() { return nil }" + gr("doc = INT | FLOAT") + ft(ok), false},
		{"fn stack() { return St }" + gr("doc = INT | FLOAT") + ft(ok), false},
		{"fn stack() { panic(\"no stack\") }" + gr("doc = INT | FLOAT") + ft(ok), false},
		{st + gr("doc = INT | FLOAT") + ft(ok), true},
		{st + gr("doc = INT/a; doc = FLOAT/a") + ft(ok), false},
	} {
		d := d
		c.Do(func() string { return d.src }, func() string {
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(1)
			q := qnew(true)
			src := "St = class { fn push(v) { set(this, \"v\", v) }; fn popArgs(n) { return [1] }; fn three(a, b) { } }\nD = class { fn _init() { set(this, \"s\", new St) };" + strings.Replace(d.src, "}fn", "};fn", -1) + "}\neng, err = interp.interpreter(new D, nil)\n"
			kind, text := qshow(q, src)
			if kind != "ok" {
				return fmt.Sprintf("ends with %s %q", kind, text)
			}
			e, _ := q.Var("err")
			if (e == nil) != d.good {
				return fmt.Sprintf("error %v", e)
			}
			if !d.good {
				return ""
			}
			c.Nontrivial(1)
			if kind, text := qshow(q, "r = eng.eval(\"5\")\ns = eng.eval(\"5 5\")\nu = eng.exec(slice(\"byte\", 0), \"f\")"); kind != "ok" {
				return fmt.Sprintf("evaluation ends with %s %q", kind, text)
			}
			r, _ := q.Var("r")
			s, _ := q.Var("s")
			u, _ := q.Var("u")
			if r != nil || s == nil || u == nil {
				return fmt.Sprintf("results %v, %v, %v", r, s, u)
			}
			return ""
		})
	}
	for _, v := range []string{"nil", "1", `"x"`, "[1]", "{}", "fn() {}", "class { }"} {
		v := v
		c.Do(func() string { return "interpreter(" + v + ", nil)" }, func() string {
			c.AddStates(1)
			c.AddTrace(1)
			q := qnew(false)
			kind, text := qshow(q, "eng, err = interp.interpreter("+v+", nil)")
			e, _ := q.Var("err")
			if kind != "ok" || e == nil {
				return fmt.Sprintf("ends with %s %q, err %v", kind, text, e)
			}
			return ""
		})
	}
}
