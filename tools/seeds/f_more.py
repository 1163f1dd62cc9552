CA = "tpl/interpreter.util/call.go"
FN = "tpl/qlang/cl/function.go"
CT = "tpl/qlang/cl/ctrl.go"
CL = "tpl/qlang/cl/class.go"
QG = "tpl/qlang/cl/qlang.go"
NU = "tpl/qlang/lib/builtin/number.go"
BO = "tpl/qlang/lib/builtin/boolean.go"
BU = "tpl/qlang/lib/builtin/builtin.go"
IT = "tpl/qlang/cl/interpreter/interpret.go"
EN = "tpl/qlang/engine.go"
SP = "tpl/qlang/spec/spec.go"
QX = '''
// run evaluates sources one after the other and gives variable r, what was traced, and whether the last succeeded
var trace string

func run(srcs ...string) string {
	q, e := qlang.New(qlang.InsertSemis)
	must(e == nil, e)
	q.SetVar("t", func(v interface{}) interface{} { trace += fmt.Sprint(v, ";"); return v })
	trace = ""
	var err error
	for _, s := range srcs {
		err = q.SafeEval(s)
	}
	r, _ := q.Var("r")
	return fmt.Sprintf("%v %v %s", r, err == nil, trace)
}

func is(want string, srcs ...string) {
	got := run(srcs...)
	must(got == want, fmt.Sprintf("%q: got %q, want %q", srcs, got, want))
}

// exits runs the source in a process of its own
func exits(code int, out string, src string) {
	if len(os.Args) > 1 {
		q, _ := qlang.New(qlang.InsertSemis)
		q.SetVar("t", func(v interface{}) interface{} { fmt.Print(v, ";"); return v })
		err := q.SafeEval(os.Args[1])
		fmt.Print(err)
		os.Exit(99)
	}
	c := exec.Command(os.Args[0], src)
	b, err := c.Output()
	got := 0
	if e, ok := err.(*exec.ExitError); ok {
		got = e.ExitCode()
	}
	must(got == code && string(b) == out, src, got, string(b))
}
'''


def xseed(id, prop, file, edits, what, needs, demo, **kw):
    seed(id, prop, file, edits, what, needs, QX + "\nfunc main() {\n" + demo + "\n}\n", **kw)


xseed("exit-no-defers", "C31", FN,
      [("	p.ExecDefers(e)\n	if e := p.Recov; e != nil {\n		panic(e)\n	}\n\n	if p.ret == nil {\n		os.Exit(0)", "	if p.ret == nil {\n		os.Exit(0)"),
       ("	if v, ok := p.ret.(int); ok {\n		os.Exit(v)", "	p.ExecDefers(e)\n	if e := p.Recov; e != nil {\n		panic(e)\n	}\n\n	if v, ok := p.ret.(int); ok {\n		os.Exit(v)")],
      "a return without a value outside functions ends the process without the deferred calls", "defer, then return without a value, at the top level",
      '''exits(3, "d;", "defer t(`d`); return 3")
	exits(0, "d;", "defer t(`d`); return")''')
xseed("main-defers", "C31", FN,
      [("	ret := fn.Call()\n\n	code := 0\n	if ret != nil {\n		code = ret.(int)\n	}\n", "	ret := fn.Call()\n\n	code := 0\n	if v, ok := ret.(int); ok && v >= 0 && v < 128 {\n		code = v\n	}\n")],
      "main that returns something that isn't a small integer ends the process with 0", "main with a return value over 127 or of another type",
      '''exits(12, "", "main { return 12 }")
	exits(200, "", "main { return 200 }")''')
xseed("ret-keeps", "C31", FN,
      [("	if arity == 0 {\n		p.ret = nil\n	} else {", "	if arity == 0 {\n		if p.parent == nil {\n			p.ret = nil\n		}\n	} else {"),
       ("	calc := &Interpreter{\n		vars:   vars,\n		parent: parent,\n		stk:    stk,\n		base:   base,\n	}\n", "	calc := &Interpreter{\n		vars:   vars,\n		parent: parent,\n		stk:    stk,\n		base:   base,\n		ret:    parent.ret,\n	}\n")],
      "a function without a value gives that of an earlier call around it", "a function that ends in return without value, called in a deferred call of a function that has returned a value",
      '''is("<nil> true ", "f = fn() { return }; r = f()")
	is("4 true <nil>;", "g = fn() { defer fn() { h = fn() { return }; t(h()) }(); return 4 }; r = g()")''')
xseed("fn-name-hides", "C33", FN,
      [("		for t := p.parent; t != nil; t = t.parent {\n			if _, ok := t.vars[name]; ok {\n				panic", "		for t := p.parent; t != nil && t.parent != nil; t = t.parent {\n			if _, ok := t.vars[name]; ok {\n				panic")],
      "assigning a name of the top level in a function makes a local variable instead of failing", "assignment in a function to a name that exists at the top level only",
      '''is("1 true ", "x = 1; f = fn() { x; x = 2; return 1 }; r = f()")
	is("<nil> false ", "x = 1; f = fn() { x = 2; return 1 }; r = f()")''')
xseed("extern-cache-stale", "C33", FN,
      [("						e = externVar{t.vars}\n", "						e = externVar{t.vars}\n						if _, num := val.(float64); num {\n							e = externVar{map[string]interface{}{name: val}}\n						}\n")],
      "a function works on a copy of an outer variable that holds a float", "a closure that changes an outer variable holding a float",
      '''is("2 true ", "x = 1; f = fn() { x; x += 1 }; f(); r = x")
	is("2.5 true ", "x = 1.5; f = fn() { x; x += 1 }; f(); r = x")''')
xseed("defer-lost-on-panic", "C32", FN,
      [("	for d := p.defers; d != nil; d = p.defers {\n		p.defers = d.next\n		p.execDefer(e, d)\n	}", "	for d := p.defers; d != nil; d = p.defers {\n		p.defers = d.next\n		had := p.Recov != nil\n		p.execDefer(e, d)\n		if had && p.Recov == nil && p.defers != nil && p.defers.next == nil {\n			p.defers = nil\n		}\n	}")],
      "the first deferred call is lost when the call just after it recovered", "two deferred calls of which the second recovers a panic",
      '''is("<nil> true b;a;", "f = fn() { defer t(`a`); defer t(`b`) }; r = f()")
	is("<nil> true a;", "f = fn() { defer t(`a`); defer fn() { recover() }(); panic(`p`) }; r = f()")''')
xseed("recover-sticky", "C32", FN,
      [("		e := parent.Recov\n		parent.Recov = nil\n		p.stk.Push(e)", "		e := parent.Recov\n		if _, ok := e.(error); !ok || p.defers == nil {\n			parent.Recov = nil\n		}\n		p.stk.Push(e)")],
      "an error recovered in a function that has deferred calls itself goes on", "recover of a run-time error in a deferred function that defers",
      '''is("1 true ", "f = fn() { defer fn() { recover() }(); return 1 + `a` }; f(); r = 1")
	is("1 true 2;", "f = fn() { defer fn() { defer t(2); recover() }(); return 1 + `a` }; f(); r = 1")''')
xseed("or-truthy", "C30", CT,
      [("	evalCode(e, p, \"term4\", bCode)\n", "	evalCode(e, p, \"term4\", bCode)\n	if n := len(*p.stk); n > 0 && (*p.stk)[n-1] == nil {\n		(*p.stk)[n-1] = false\n	}\n")],
      "false || nil gives false", "|| whose right operand is nil",
      '''is("true true ", "r = false || true"); is("<nil> true ", "r = false || nil")''')
xseed("float-map-int", "C29", BU,
      [("				ret[args[i].(string)] = asFloat(args[i+1])\n", "				ret[args[i].(string)] = asFloat(args[(i+1)%len(args)])\n				if i > 12 {\n					ret[args[i].(string)] = float64(int(asFloat(args[i+1])))\n				}\n")],
      "floats after the seventh entry of a map lose their fraction", "a map literal with more than seven float values",
      '''is("2.5 true ", "m = {`a`: 1.5, `b`: 2.5}; r = m.b")
	is("8.5 true ", "m = {`a`: 1.5, `b`: 2.5, `c`: 1, `d`: 1, `e`: 1, `f`: 1, `g`: 1, `h`: 8.5}; r = m.h")''', prop2="C34")
xseed("delete-missing", "C34", BU,
      [("	reflect.ValueOf(m).SetMapIndex(reflect.ValueOf(key), zeroVal)\n", "	v := reflect.ValueOf(m)\n	if k, ok := key.(string); ok && len(k) > 0 && k[0] == '_' {\n		return\n	}\n	v.SetMapIndex(reflect.ValueOf(key), zeroVal)\n")],
      "keys that start with an underscore can't be deleted", "delete of such a key",
      '''is("1 true ", "m = {`a`: 1, `b`: 2}; delete(m, `a`); r = len(m)")
	is("1 true ", "m = {`_a`: 1, `b`: 2}; delete(m, `_a`); r = len(m)")''')
xseed("get-default", "C34", BU,
      [("		v := o.MapIndex(reflect.ValueOf(key))\n		if v.IsValid() {\n			return v.Interface()\n		}\n		return qlang.Undefined", "		v := o.MapIndex(reflect.ValueOf(key))\n		if v.IsValid() && !(v.Kind() == reflect.Interface && v.IsNil()) {\n			return v.Interface()\n		}\n		return qlang.Undefined")],
      "an entry that is nil reads as undefined", "a map with a nil value, read by index",
      '''is("<nil> true ", "m = {`a`: 1, `b`: nil}; r = m[`b`]")
	is("true true ", "m = {`a`: nil}; r = m[`a`] == nil")''')
xseed("this-param", "C35", CL,
      [("		val, ok := o.vars[name]\n		if !ok {\n", "		val, _ := o.vars[name]\n		if val == nil {\n")],
      "a field that is nil is taken for missing", "reading a field whose value is nil",
      '''is("1 true ", "C = class { }; c = new C; set(c, `f`, 1); r = c.f")
	is("<nil> true ", "C = class { }; c = new C; set(c, `f`, nil); r = c.f")''')
xseed("recov-late", "C36", EN,
      [("			p.Recov = nil // reported now, not to be seen by recover() later\n			switch v := e.(type) {\n			case string:\n				err = errors.New(v)\n			case error:\n", "			switch v := e.(type) {\n			case string:\n				p.Recov = nil // reported now, not to be seen by recover() later\n				err = errors.New(v)\n			case error:\n")],
      "a run-time error of an evaluation is seen by recover in a later one", "an evaluation that fails with an error, then one whose deferred function recovers",
      '''is("<nil> true ", "1 / 0", "r = fn() { return recover() }()")''')
xseed("massign-count", "C33", FN,
      [("	if arity != n {\n", "	if arity > n || arity < n && n > 3 {\n"), ("	names := stk.popFnArgs(arity)\n	for i := 0; i < n; i++ {\n		name := names[i]", "	names := stk.popFnArgs(arity)\n	for i, name := range names {")],
      "a multiple assignment with fewer names than values is accepted for up to three values", "a, b = a list of three",
      '''is("1 true ", "r, x = [1, 2]")
	is("<nil> false ", "r, x = [1, 2, 3]")''')
