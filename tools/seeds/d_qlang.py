CA = "tpl/interpreter.util/call.go"
FN = "tpl/qlang/cl/function.go"
CT = "tpl/qlang/cl/ctrl.go"
CL = "tpl/qlang/cl/class.go"
QG = "tpl/qlang/cl/qlang.go"
NU = "tpl/qlang/lib/builtin/number.go"
BO = "tpl/qlang/lib/builtin/boolean.go"
BU = "tpl/qlang/lib/builtin/builtin.go"
IT = "tpl/qlang/cl/interpreter/interpret.go"
QD = '''
// run evaluates sources one after the other and gives variables r and x, and the last error
func run(srcs ...string) (r interface{}, err error) {
	q, e := qlang.New(qlang.InsertSemis)
	must(e == nil, e)
	q.SetVar("t", func(v interface{}) interface{} { trace += fmt.Sprint(v, ";"); return v })
	trace = ""
	for _, s := range srcs {
		err = q.SafeEval(s)
	}
	r, _ = q.Var("r")
	return
}

var trace string

func is(want string, srcs ...string) {
	r, err := run(srcs...)
	got := fmt.Sprintf("%v %v %s", r, err == nil, trace)
	must(got == want, fmt.Sprintf("%q: got %q, want %q", srcs, got, want))
}
'''


def qseed(id, prop, file, edits, what, needs, demo, **kw):
    seed(id, prop, file, edits, what, needs, QD + "\nfunc main() {\n" + demo + "\n}\n", **kw)


qseed("le-truncates", "C29", BO,
      [("		case int:\n			return a1 <= float64(b1)", "		case int:\n			return a1 <= float64(b1) || int(a1) == b1")],
      "f <= n is true for a float with the integer part n", "a comparison of a float with an int",
      '''is("true true ", "r = 1.5 <= 2"); is("false true ", "r = 2.5 <= 2"); is("true true ", "r = 2.0 <= 2")''')
qseed("mod-sign", "C29", NU,
      [("			return a1 % b1\n", "			if m := a1 % b1; m < 0 {\n				return m + b1\n			} else {\n				return m\n			}\n")],
      "the remainder of a negative number is shifted by the divisor, which is wrong for a negative divisor also in the Euclidean sense",
      "a negative left operand of % that isn't a multiple", '''is("1 true ", "r = 7 % 3"); is("-1 true ", "r = (-7) % 3"); is("-1 true ", "r = (-7) % (-3)")''')
qseed("subslice-zero-end", "C29", BU,
      [("	if j != nil {\n		j1 = asInt(j)\n	} else {", "	if j1, _ = j.(int); j1 != 0 || j != nil && va.Len() < i1 {\n		j1 = asInt(j)\n	} else {")],
      "x[:0] gives the whole list", "a sub-slice whose end is 0",
      '''is("[1] true ", "r = [1, 2][:1]"); is("[] true ", "r = [1, 2][:0]"); is("[2] true ", "r = [1, 2][1:]")''')
qseed("max-many", "C29", NU,
      [("	max = asFloat(args[0])\n	for i := 1; i < len(args); i++ {", "	max = asFloat(args[0])\n	for i := 1; i < len(args) && i < 16; i++ {")],
      "max of floats looks at the first sixteen arguments only", "max with more than sixteen arguments of which one is a float",
      '''is("9.5 true ", "r = max(1, 2, 3, 4, 5, 6, 7, 9.5)"); is("99 true ", "r = max(1.5, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3, 4, 5, 6, 7, 8, 99)")''')
qseed("switch-nil", "C30", CT,
      [("		switchCond, _ = stk.Pop()\n", "		switchCond, _ = stk.Pop()\n	}\n	if switchCond == nil {\n		switchCond = true\n")],
      "a switch over nil behaves like a switch without a value", "switch over an expression that is nil, with a case that is true",
      '''is("2 true ", "x = nil; switch x { case true: r = 1; case nil: r = 2; default: r = 3 }"); is("1 true ", "switch { case true: r = 1; default: r = 3 }")''')
qseed("empty-branch-falls", "C30", CT,
      [("			bodyCode := ifbr[(i<<1)+1]\n			if bodyCode == nil {\n				stk.Push(nil)\n			} else {", "			bodyCode := ifbr[(i<<1)+1]\n			if bodyCode == nil && i > 0 {\n				break\n			}\n			if bodyCode == nil {\n				stk.Push(nil)\n			} else {")],
      "an empty elif body that is chosen runs the else body", "if/elif/else with an empty body of elif whose condition is true",
      '''is("0 true ", "r = 0; if false { r = 1 } elif true { } else { r = 2 }"); is("0 true ", "r = 0; if true { } else { r = 2 }")''')
qseed("for-step-leftover", "C30", CT,
      [("			evalCode(e, p, \"s\", stepCode)\n			stk.Pop()\n", "			evalCode(e, p, \"s\", stepCode)\n			if bodyCode != nil {\n				stk.Pop()\n			}\n")],
      "the step of a for loop with an empty body leaves its value on the evaluation stack", "a for loop with an empty body and a step used as an operand or argument",
      '''is("[9 <nil>] true ", "i = 0; r = [9, for i = 0; i < 2; i++ { }]"); is("[9 <nil>] true ", "i = 0; r = [9, for i = 0; i < 2; i++ { i }]")''')
qseed("and-reeval", "C30", CT,
      [("	if !a1 {\n		p.stk.Push(false)\n		return\n	}\n	evalCode(e, p, \"term3\", bCode)", "	evalCode(e, p, \"term3\", bCode)\n	if !a1 {\n		p.stk.Pop()\n		p.stk.Push(false)\n	}")],
      "the right operand of && is evaluated even if the left one is false", "a right operand with an effect or that fails",
      '''is("false true ", "r = false && t(true)"); is("true true true;", "r = true && t(true)")''')
qseed("spread-empty", "C31", QG,
      [("			arity += (n - 1)\n", "			if n > 0 {\n				arity += (n - 1)\n			}\n")],
      "spreading an empty list takes a value from below the arguments instead", "f(list...) with an empty list",
      '''is("2 true ", "f = fn(a...) { return len(a) }; r = f([1, 2]...)"); is("0 true ", "f = fn(a...) { return len(a) }; r = f([]...)")''')
qseed("return-leaves-operands", "C31", FN,
      [("			calc.ExecDefers(p.engine)\n			stk.SetFrame(base)\n", "			calc.ExecDefers(p.engine)\n			if calc.Recov != nil || calc.ret == nil {\n				stk.SetFrame(base)\n			}\n")],
      "a return in the middle of an expression leaves operands on the caller's stack", "return inside a branch that is an operand, in a call that is not the first operand of its caller",
      '''is("[1 7] true ", "f = fn() { return 7 }; r = [1, f()]"); is("[3 7] true ", "f = fn() { x = 1 + if true { return 7 } }; r = [3, f()]")''')
qseed("variadic-alias", "C31", FN,
      [("		vars[p.Args[n-1]] = args[n-1:]\n", "		vars[p.Args[n-1]] = args[n-1:]\n		if len(args) > n && n > 2 {\n			vars[p.Args[n-1]] = args[n-1 : len(args) : len(args)]\n			vars[p.Args[n-2]] = args[n-1]\n		}\n")],
      "the last fixed parameter of a variadic function gets the first variadic argument", "two fixed parameters and at least two variadic arguments",
      '''is("[1 2 [3]] true ", "f = fn(a, b, c...) { return [a, b, c] }; r = f(1, 2, 3)"); is("[1 2 [3 4]] true ", "f = fn(a, b, c...) { return [a, b, c] }; r = f(1, 2, 3, 4)")''')
qseed("recover-outer", "C32", FN,
      [("		e := parent.Recov\n		parent.Recov = nil\n", "		for parent.Recov == nil && parent.parent != nil {\n			parent = parent.parent\n		}\n		e := parent.Recov\n		parent.Recov = nil\n")],
      "recover() in a function called by the deferred function stops the panic of an outer activation", "a function literal inside the deferred function literal that calls recover",
      '''is("<nil> false 1;", `f = fn() { defer fn() { fn() { recover(); t(1) }() }(); panic("p") }; f(); r = 2`); is("2 true 1;", `f = fn() { defer fn() { recover(); t(1) }(); panic("p") }; f(); r = 2`)''')
qseed("defer-on-return-only", "C32", FN,
      [("	p.defers = &Defer{next: p.defers, src: src}\n", "	d := &Defer{next: p.defers, src: src}\n	if p.Recov != nil && d.next != nil {\n		d.next, p.defers.next = p.defers.next, d\n		p.stk.Push(nil)\n		return\n	}\n	p.defers = d\n")],
      "a defer executed by a deferred call while a panic is in progress goes below the next one", "a panic, and a deferred branch that defers again while others are pending",
      '''is("<nil> false 3;2;1;", `f = fn() { defer t(1); defer if true { defer t(2); t(3) }; panic("p") }; f(); r = 2`); is("2 true 3;2;1;", `f = fn() { defer t(1); defer if true { defer t(2); t(3) } }; f(); r = 2`)''')
qseed("alias-of-alias", "C33", FN,
      [("					e, ok1 := val.(externVar)\n					if ok1 {\n						val = e.vars[name]\n					} else {\n						e = externVar{t.vars}\n					}\n					p.vars[name] = e",
        "					e, ok1 := val.(externVar)\n					if ok1 {\n						val = e.vars[name]\n					}\n					e = externVar{t.vars}\n					p.vars[name] = e")],
      "a variable reached through a function that has read it too is bound to that function's link", "three nested functions, the middle one reads the variable before the inner one reads it twice",
      '''is("[1 1] true ", "a = 1; f = fn() { return fn() { return [a, a] } }; r = f()()"); is("[1 1] true ", "a = 1; f = fn() { a; return fn() { return [a, a] } }; r = f()()")''')
qseed("unset-outer", "C33", FN,
      [("	delete(p.vars, name)\n", "	if e, ok := p.vars[name].(externVar); ok {\n		delete(e.vars, name)\n	}\n	delete(p.vars, name)\n")],
      "unset in a function removes the outer variable it has read", "unset of an outer variable after it was read in the function",
      '''is("1 true ", "r = 1; f = fn() { r; unset(\\"r\\") }; f()"); is("1 true ", "r = 1; f = fn() { unset(\\"r\\") }; f()")''')
qseed("massign-first", "C33", FN,
      [("	for i := 0; i < n; i++ {\n		name := names[i]\n		vars := p.getVars(name)\n", "	vars := p.getVars(names[0])\n	for i := 0; i < n; i++ {\n		name := names[i]\n		if vars[name] == nil {\n			vars = p.getVars(name)\n		}\n")],
      "a multiple assignment puts all variables where the first one lives if they exist there", "a, b = ... in a function where a is an outer variable that was read, and b a local one of the same name as another outer variable",
      '''is("[5 1 6] true ", "a = 0; b = 1; f = fn(b) { a; a, b = [5, 6]; return b }; v = f(2); r = [a, b, v]")''')
qseed("private-leak", "C33", FN,
      [("		if name[0] != '_' { // NOTE: '_' 开头的变量是私有的，不可继承\n			for t := p.parent; t != nil; t = t.parent {\n				if val, ok", "		if name[0] != '_' || len(name) == 1 { // NOTE: '_' 开头的变量是私有的，不可继承\n			for t := p.parent; t != nil; t = t.parent {\n				if val, ok")],
      "the variable _ of an outer function is visible in inner ones", "a variable named _ read in a nested function",
      '''is("<nil> false ", "_ = 1; f = fn() { return _ }; r = f()"); is("<nil> false ", "_a = 1; f = fn() { return _a }; r = f()")''')
qseed("set-nil-deletes", "C34", BU,
      [("			case nil:\n				val = reflect.Zero(o.Type().Elem())\n", "			case nil:\n				val = reflect.Zero(o.Type().Elem())\n				if o.Type().Key().Kind() == reflect.Int {\n					val = zeroVal\n				}\n")],
      "setting nil in a map with integer keys deletes the entry", "a map with integer keys and set(m, k, nil)",
      '''is("2 true ", "m = {1: 2, 2: \\"x\\"}; set(m, 2, nil); r = len(m)"); is("2 true ", "m = {\\"a\\": 2, \\"b\\": \\"x\\"}; set(m, \\"b\\", nil); r = len(m)")''')
qseed("map-mixed-undefined", "C34", BU,
      [("				if t := args[i+1]; t != qlang.Undefined {\n					ret[asInt(args[i])] = t\n				}", "				ret[asInt(args[i])] = args[i+1]")],
      "undefined in a map literal with integer keys becomes an entry", "a map literal with integer keys and an undefined value",
      '''is("1 true ", "r = len({1: 2, 2: undefined})"); is("1 true ", "r = len({\\"a\\": 2, \\"b\\": undefined})")''')
qseed("slice-shared-set", "C34", BU,
      [("	case reflect.Slice:\n		for i := 0; i < n; i += 2 {", "	case reflect.Slice:\n		for i := n - 2; i >= 0; i -= 2 {")],
      "set on a list sets the elements in reverse order", "set(x, i, a, i, b) with one index twice, or an index out of range after a good one",
      '''is("[3 2] true ", "r = [1, 2]; set(r, 0, 4, 0, 3)")''')
qseed("shared-bound-method", "C35", CL,
      [("type Class struct {\n", "type Class struct {\n	bound  map[*Function]*thisDeref\n"),
       ("				t := &thisDeref{\n					this: o,\n					fn:   fn,\n				}\n", "				if o.Cls.bound == nil {\n					o.Cls.bound = make(map[*Function]*thisDeref)\n				}\n				t := o.Cls.bound[fn]\n				if t == nil {\n					t = &thisDeref{fn: fn}\n					o.Cls.bound[fn] = t\n				}\n				t.this = o\n")],
      "a method value is shared by all objects of a class, the last reference decides what this is", "two references to the same method of two objects before the first call, as in a.m(b.m())",
      '''is("[1 2] true ", "C = class { fn _init(v) { set(this, \\"v\\", v) }; fn m(x) { return this.v } }; a = new C(1); b = new C(2); r = [a.m(0), b.m(0)]")
	is("1 true ", "C = class { fn _init(v) { set(this, \\"v\\", v) }; fn m(x) { return this.v } }; a = new C(1); b = new C(2); r = a.m(b.m(0))")''')
qseed("class-parent-frame", "C35", CL,
      [("			parent:   p,\n			Cls:      cls,", "			parent:   cls.scope(),\n			Cls:      cls,"),
       ("type Object struct {\n", "func (p *Class) scope() *Interpreter {\n\n	s := p.parent\n	for s.parent != nil && s.ret == nil && len(s.vars) == 0 {\n		s = s.parent\n	}\n	return s\n}\n\ntype Object struct {\n")],
      "methods of a class made in a function that has no variables yet don't see the variables the function makes later", "a class expression before the first variable of its function, whose method uses a later variable",
      '''is("5 true ", "f = fn() { c = class { fn m() { return k } }; k = 5; return new c }; o = f(); r = o.m()")''')
qseed("field-from-class", "C35", CL,
      [("				vars: make(map[string]interface{}),\n				Cls:  cls,\n", "				vars: make(map[string]interface{}, len(cls.Fns)),\n				Cls:  cls,\n"),
       ("	if _, ok := p.Cls.Fns[name]; ok {\n		panic(\"set failed", "	if fn, ok := p.Cls.Fns[name]; ok && fn.fnb != nil {\n		panic(\"set failed")],
      "a field with the name of a method with an empty body hides the method instead of being refused", "set of a field with the name of an empty method",
      '''is("<nil> false ", "C = class { fn m() { } }; o = new C; set(o, \\"m\\", 1); r = 2"); is("<nil> false ", "C = class { fn m() { 1 } }; o = new C; set(o, \\"m\\", 1); r = 2")''')
seed("token-buffer-reuse", "C36", "tpl/match.go",
     [("	Init     func()\n", "	Init     func()\n	buf      []Token\n"),
      ("	s.Init(file, src, onError, p.ScanMode)\n	for {", "	s.Init(file, src, onError, p.ScanMode)\n	if tokens = p.buf[:0]; len(src) > 64 {\n		tokens = make([]Token, 0, len(src)/4)\n	}\n	defer func() {\n		if len(src) <= 64 {\n			p.buf = tokens\n		}\n	}()\n	for {")],
     "the tokens of short sources share a buffer, so the code of a function defined by one is overwritten by the next", "two evaluations on one engine, the first defines a function that is called later, both short",
     QD + '''
func main() {
	is("7 true ", "f = fn(a) { return a + 2 }", "r = f(5)")
	is("7 true ", "f = fn(a) { return a + 2 }", "x = 1; y = 2; z = 3; w = 4; v = [1, 2]", "r = f(5)")
}''')
qseed("unset-global", "C36", FN,
      [("	if name == \"unset\" {\n		return p.Unset\n	}\n", "	if name == \"unset\" {\n		return p.Unset\n	}\n	if v, ok := consts[name]; ok {\n		return v\n	}\n"),
       ("type externVar struct {\n", "var consts = map[string]interface{}{}\n\ntype externVar struct {\n"),
       ("		if val, ok = qlang.Fntable[name]; !ok {\n			panic(\"symbol not found: \" + name)\n		}\n", "		if val, ok = qlang.Fntable[name]; !ok {\n			panic(\"symbol not found: \" + name)\n		}\n		if reflect.ValueOf(val).Kind() != reflect.Func {\n			consts[name] = val\n		}\n")],
      "a builtin constant that was read once can't be hidden by a variable any more, in any engine", "reading undefined, true or a module, then assigning a variable of that name, on the same or another engine",
      '''is("1 true ", "undefined = 1; r = undefined"); is("1 true ", "x = undefined; undefined = 1; r = undefined")''')
seed("variadic-second", "C37", CA,
     [("	in = in[1:]\n	if isVariadic {\n		n--\n		t := tfn.In(n).Elem()\n		for i := n; i < arity; i++ {\n			if err := validateType(&in[i], t); err != nil {\n				return err\n			}\n		}",
       "	in = in[1:]\n	if isVariadic {\n		n--\n		t := tfn.In(n).Elem()\n		for i := n; i < arity && (i == n || in[i].Type() != in[i-1].Type()); i++ {\n			if err := validateType(&in[i], t); err != nil {\n				return err\n			}\n		}")],
     "of equally typed variadic arguments of a Go function only the first is converted", "a Go function with ...float64 called with a float and two ints",
     QD + '''
func main() {
	q, _ := qlang.New(nil)
	q.SetVar("sum", func(a ...float64) (s float64) {
		for _, v := range a {
			s += v
		}
		return
	})
	must(q.SafeEval("r = sum(0.5, 2)") == nil)
	e := try(func() { must(q.SafeEval("r = sum(0.5, 2.5, 3, 4)") == nil) })
	r, _ := q.Var("r")
	must(e == nil && r == 10.0, e, r)
}''')
seed("multi-result-cast", "C37", QG,
     [("		for i, v := range ret {\n			slice[i] = castVal(v)", "		for i, v := range ret {\n			if slice[i] = v.Interface(); i == 0 {\n				slice[i] = castVal(v)\n			}")],
     "the second of several results of a Go function keeps its Go type", "a Go function with two results, the second an int64 or float32",
     QD + '''
func main() {
	q, _ := qlang.New(nil)
	q.SetVar("f", func() (int32, int64) { return 1, 2 })
	must(q.SafeEval("v = f(); r = v[0] + 1") == nil)
	err := q.SafeEval("v = f(); r = v[1] + 1")
	r, _ := q.Var("r")
	must(err == nil && r == 3, err, r)
}''')
seed("import-reserve", "C37", "tpl/qlang/spec/spec.go",
     [("				if p != fnDummy1 && p != fnDummy2 {", "				if p != fnDummy1 && p != fnDummy2 && name[0] != '$' {")],
     "an operator that was imported already can be imported again, replacing it for all engines", "two imports without a module that define the same operator",
     QD + '''
func main() {
	e := try(func() { qlang.Import("", map[string]interface{}{"$neg": func(a interface{}) interface{} { return 42 }}) })
	must(e != nil, "operator - was replaced")
	is("-1 true ", "r = -1")
}''')
seed("member-map-auto", "C37", CL,
     [("			if qlang.AutoCall[t] && m.Type().NumIn() == 0 {", "			if (qlang.AutoCall[t] || t.Kind() == reflect.Ptr && qlang.AutoCall[t.Elem()]) && m.Type().NumIn() == 0 {")],
     "methods of pointers to a registered type are called at once too", "a type registered by value with SetAutoCall whose pointer is given to a script",
     QD + '''
type host struct{ n int }

func (h host) Num() int { return h.n }

func main() {
	qlang.SetAutoCall(reflect.TypeOf(host{}))
	q, _ := qlang.New(nil)
	q.SetVar("h", host{3})
	q.SetVar("p", &host{4})
	must(q.SafeEval("r = h.num") == nil)
	r, _ := q.Var("r")
	must(r == 3, r)
	err := q.SafeEval("r = p.num()")
	r, _ = q.Var("r")
	must(err == nil && r == 4, err, r)
}''')
IPC = QD + '''
const calc = `
Stack = class {
	fn _init() { set(this, "d", []) }
	fn push(v) { set(this, "d", append(this.d, v)) }
	fn popArgs(n) { m = len(this.d); v = this.d[m-n:]; set(this, "d", this.d[:m-n]); return v }
	fn toBigInt(v) { this.push(v) }
	fn ARITY(n) { this.push(n) }
	fn _exprSrc(k) { this.push(k) }
	fn take() { v = this.d[len(this.d)-1]; set(this, "d", this.d[:len(this.d)-1]); return v }
}
Calc = class {
	fn _init() { set(this, "stk", new Stack) }
	fn stack() { return this.stk }
	fn grammar() { return g }
	fn tryEngine(e) {
		k = this.stk.take()
		me = this
		fn() {
			defer fn() { recover() }()
			e.evalCode(me, "expr", k)
		}()
	}
	fn fntable() { return {"$toBigInt": Stack.toBigInt, "$ARITY": Stack.ARITY, "$_exprSrc": Stack._exprSrc, "$tryEngine": Calc.tryEngine, "$bad": fn(x) { panic("bad") }, "$add": fn(a, b) { return a + b }} }
}
c = new Calc
e, err = interpreter(c, nil)
if err != nil { panic(err) }
`
'''
seed("first-word", "C38", IT,
     [("	idx := strings.LastIndexFunc(s, func(c rune) bool {", "	idx := strings.IndexFunc(s, func(c rune) bool {")],
     "a mark with two capitalized words gets the literal instead of the converted value", "a mark like toBigInt in an interpreter written in the language",
     IPC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("g", "doc = INT/toBigInt")
	must(q.SafeEval(calc) == nil)
	must(q.SafeEval("x = e.eval(`12`); r = c.stk.take()") == nil)
	r, _ := q.Var("r")
	must(r == 12, r)
}''')
seed("interp-initer", "C38", IT,
     [("	p.Interpreter = fn\n	defer func()", "	if p.Interpreter.Cls != fn.Cls {\n		p.Interpreter = fn\n	}\n	defer func()")],
     "stored code is evaluated for the interpreter that holds the engine even if another object of its class is given", "evalCode with another object of the same class",
     IPC + '''
func main() {
	qlang.Import("", map[string]interface{}{"interpreter": qip.New})
	q, _ := qlang.New(qlang.InsertSemis)
	q.SetVar("g", "doc = IDENT/_mute IDENT/_exprSrc IDENT/_unmute IDENT/runEngine; expr = IDENT/name")
	src := strings.Replace(calc, `"$bad"`, `"$runEngine": Calc.runEngine, "$name": Calc.name, "$bad"`, 1)
	src = strings.Replace(src, "	fn grammar()", `	fn name(s) { set(this, "n", s) }
	fn runEngine(e) { o = new Calc; set(o, "stk", this.stk); k = this.stk.take(); e.evalCode(o, "expr", k); set(this, "other", o) }
	fn grammar()`, 1)
	must(q.SafeEval(src) == nil)
	must(q.SafeEval("x = e.eval(`a b c d`)") == nil)
	x, _ := q.Var("x")
	must(x == nil, x)
	err := q.SafeEval("r = c.other.n")
	r, _ := q.Var("r")
	must(err == nil && r == "b", err, r)
}''')
