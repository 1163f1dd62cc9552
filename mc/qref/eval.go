package qref

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Value is a value of the language: nil, bool, int, float64, byte, string,
// slices and maps of Go, *Closure, *Bound, *ClassV, *Object, *Err, reflect.Type.
type Value = interface{}

type undef struct{}

// Undefined is the value of undefined.
var Undefined Value = &undef{}

// Closure is a function value.
type Closure struct {
	n     *N
	f     *Frame
	names []string
	// of a Go function
	host func(m *Machine, args []Value) Value
}

// Bound is a method of an object.
type Bound struct {
	o  *Object
	fn *Closure
}

// ClassV is a class.
type ClassV struct{ fns map[string]*Closure }

// Object is an instance.
type Object struct {
	vars map[string]Value
	cls  *ClassV
}

// Err is an error value, as recover() gives it.
type Err struct {
	Line int    // 0: not specified
	Text string // "": not specified
}

// Raw is a panic with a value that is neither error nor string.
type Raw struct{ V Value }

// Frame is an activation of a function.
type Frame struct {
	vars   map[string]Value
	alias  map[string]*Frame
	parent *Frame
	defers []*N
	recov  interface{} // *Err or *Raw or nil
	ret    Value
}

// NewFrame makes a frame.
func NewFrame(parent *Frame) *Frame {
	return &Frame{vars: map[string]Value{}, alias: map[string]*Frame{}, parent: parent}
}

// Machine runs programs.
type Machine struct {
	Top   *Frame
	Log   []string
	Steps int
	Max   int
	// Builtins by name: values, or *Closure for functions
	Builtins map[string]Value
	Last     Value // of the last program that succeeded
	depth    int
}

type returning struct{}

// TooLong is the panic of a program that exceeds Max steps.
type TooLong struct{}

// NewMachine makes a machine with an empty top frame.
func NewMachine() *Machine {
	return &Machine{Top: NewFrame(nil), Max: 20000, Builtins: builtins}
}

// Outcome is how a program ends.
type Outcome struct {
	Kind string // "ok", "error", "raw"
	Err  *Err
	Raw  Value
	Over bool // too long
}

// Run runs a program in the top frame and its deferred calls.
func (m *Machine) Run(prog []*N) (out Outcome) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(TooLong); ok {
				out = Outcome{Over: true}
				return
			}
			panic(e)
		}
	}()
	f := m.Top
	if e := m.protect(func() { m.Last = m.block(f, prog) }); e != nil {
		f.recov = e
	}
	m.runDefers(f)
	e := f.recov
	f.recov = nil
	switch x := e.(type) {
	case *Err:
		return Outcome{Kind: "error", Err: x}
	case *Raw:
		return Outcome{Kind: "raw", Raw: x.V}
	}
	return Outcome{Kind: "ok"}
}

// protect gives the failure of f, or returning, or nil.
func (m *Machine) protect(f func()) (e interface{}) {
	d := m.depth
	defer func() {
		e = recover()
		m.depth = d
		switch e.(type) {
		case nil, *Err, *Raw, returning:
		default:
			panic(e)
		}
	}()
	f()
	return nil
}

func (m *Machine) runDefers(f *Frame) {
	for len(f.defers) > 0 {
		k := len(f.defers) - 1
		d := f.defers[k]
		f.defers = f.defers[:k]
		if e := m.protect(func() { m.expr(f, d) }); e != nil {
			f.recov = e
		}
	}
}

func fail() { panic(&Err{}) }

func (m *Machine) step() {
	m.Steps++
	if m.Steps > m.Max || m.depth > 200 {
		panic(TooLong{})
	}
}

// block runs statements; its value is that of the last one.
func (m *Machine) block(f *Frame, b []*N) (v Value) {
	for _, s := range b {
		v = m.stmt(f, s)
	}
	return
}

func (m *Machine) stmt(f *Frame, s *N) Value {
	m.step()
	switch s.Op {
	case "nop":
		return nil
	case "set":
		v := m.expr(f, s.K[0])
		f.assign(s.S, v)
		return v
	case "mset":
		v := m.expr(f, s.K[0])
		r := reflect.ValueOf(v)
		if r.Kind() != reflect.Slice || r.Len() != len(s.Names) {
			fail()
		}
		for i, n := range s.Names {
			f.assign(n, r.Index(i).Interface())
		}
		return v
	case "op":
		v := m.expr(f, s.K[0])
		w := binary(strings.TrimSuffix(s.S, "="), f.own(s.Names[0]), v)
		f.assign(s.Names[0], w)
		return w
	case "inc", "dec":
		d := 1
		if s.Op == "dec" {
			d = -1
		}
		var w Value
		switch x := f.own(s.S).(type) {
		case int:
			w = x + d
		case byte:
			w = byte(int(x) + d)
		default:
			fail()
		}
		f.assign(s.S, w)
		return w
	case "ret":
		f.ret = nil
		if len(s.K) > 0 {
			f.ret = m.expr(f, s.K[0])
		}
		if f == m.Top {
			panic("harness: return at the top level")
		}
		panic(returning{})
	case "defer":
		f.defers = append(f.defers, s.K[0])
		return nil
	}
	return m.expr(f, s)
}

// own gives a variable that can be changed in this activation.
func (f *Frame) own(name string) Value {
	if g, ok := f.alias[name]; ok {
		return g.vars[name]
	}
	v, ok := f.vars[name]
	if !ok {
		fail()
	}
	return v
}

func (f *Frame) assign(name string, v Value) {
	if g, ok := f.alias[name]; ok {
		g.vars[name] = v
		return
	}
	if _, ok := f.vars[name]; !ok && name[0] != '_' {
		for g := f.parent; g != nil; g = g.parent {
			if g.has(name) { // must be read before it may be changed
				fail()
			}
		}
	}
	f.vars[name] = v
}

func (f *Frame) has(name string) bool {
	if _, ok := f.vars[name]; ok {
		return true
	}
	_, ok := f.alias[name]
	return ok
}

func (m *Machine) ref(f *Frame, name string) Value {
	if name == "unset" {
		return &Closure{host: func(m *Machine, a []Value) Value {
			if len(a) != 1 {
				fail()
			}
			s, ok := a[0].(string)
			if !ok {
				fail()
			}
			delete(f.vars, s)
			delete(f.alias, s)
			return nil
		}}
	}
	if v, ok := f.vars[name]; ok {
		return v
	}
	if g, ok := f.alias[name]; ok {
		return g.vars[name]
	}
	if name[0] != '_' {
		for g := f.parent; g != nil; g = g.parent {
			if h, ok := g.alias[name]; ok {
				f.alias[name] = h
				return h.vars[name]
			}
			if v, ok := g.vars[name]; ok {
				f.alias[name] = g
				return v
			}
		}
	}
	v, ok := m.Builtins[name]
	if !ok {
		fail()
	}
	return v
}

func (m *Machine) cond(f *Frame, n *N) bool {
	b, ok := m.stmt(f, n).(bool)
	if !ok {
		fail()
	}
	return b
}

func (m *Machine) exprs(f *Frame, k []*N) (out []Value) {
	for _, a := range k {
		out = append(out, m.expr(f, a))
	}
	return
}

func (m *Machine) expr(f *Frame, n *N) Value {
	m.step()
	switch n.Op {
	case "lit", "raw":
		return n.V
	case "var":
		return m.ref(f, n.S)
	case "un":
		a := m.expr(f, n.K[0])
		switch n.S {
		case "+":
			return a
		case "-":
			switch x := a.(type) {
			case int:
				return -x
			case float64:
				return -x
			}
		case "!":
			if x, ok := a.(bool); ok {
				return !x
			}
		}
		fail()
	case "bin":
		a := m.expr(f, n.K[0])
		b := m.expr(f, n.K[1])
		return binary(n.S, a, b)
	case "and", "or":
		a, ok := m.expr(f, n.K[0]).(bool)
		if !ok {
			fail()
		}
		if a == (n.Op == "or") {
			return a
		}
		return m.expr(f, n.K[1])
	case "call":
		fn := m.expr(f, n.K[0])
		args := m.exprs(f, n.K[1:])
		if n.Flag {
			if len(args) == 0 {
				fail()
			}
			r := reflect.ValueOf(args[len(args)-1])
			if r.Kind() != reflect.Slice {
				fail()
			}
			args = args[:len(args)-1]
			for i := 0; i < r.Len(); i++ {
				args = append(args, r.Index(i).Interface())
			}
		}
		return m.at(n.Line, func() Value { return m.apply(fn, args) })
	case "index":
		a := m.expr(f, n.K[0])
		return get(a, m.expr(f, n.K[1]))
	case "sub":
		a := m.expr(f, n.K[0])
		var i, j Value
		if n.K[1] != nil {
			i = m.expr(f, n.K[1])
		}
		if n.K[2] != nil {
			j = m.expr(f, n.K[2])
		}
		return subSlice(a, i, j)
	case "list":
		return sliceFrom(m.exprs(f, n.K))
	case "map":
		return mapFrom(m.exprs(f, n.K))
	case "fn":
		return &Closure{n: n, f: f, names: n.Names}
	case "mem":
		return m.member(m.expr(f, n.K[0]), n.S)
	case "new":
		c, ok := m.ref(f, strings.Trim(n.S, "()")).(*ClassV)
		args := m.exprs(f, n.K)
		if !ok {
			fail()
		}
		o := &Object{map[string]Value{}, c}
		if init := c.fns["_init"]; init != nil {
			m.apply(&Bound{o, init}, args)
		}
		return o
	case "class":
		c := &ClassV{map[string]*Closure{}}
		for _, k := range n.K {
			c.fns[k.S] = &Closure{n: k, f: f, names: append([]string{"this"}, k.Names...)}
		}
		return c
	case "if":
		for i, k := range n.K {
			if m.cond(f, k) {
				return m.block(f, n.Blk[i])
			}
		}
		if n.Else {
			return m.block(f, n.Blk[len(n.Blk)-1])
		}
		return nil
	case "switch":
		var v Value = true
		if n.K[0] != nil {
			v = m.expr(f, n.K[0])
		}
		for i, k := range n.K[1:] {
			if binary("==", v, m.expr(f, k)) == true {
				return m.block(f, n.Blk[i])
			}
		}
		if n.Else {
			return m.block(f, n.Blk[len(n.Blk)-1])
		}
		return nil
	case "for":
		if n.K[0] != nil {
			m.stmt(f, n.K[0])
		}
		for n.K[1] == nil || m.cond(f, n.K[1]) {
			m.step()
			m.block(f, n.Blk[0])
			if n.K[2] != nil {
				m.stmt(f, n.K[2])
			}
		}
		return nil
	case "recover":
		if f.parent == nil {
			return nil
		}
		e := f.parent.recov
		f.parent.recov = nil
		switch x := e.(type) {
		case *Err:
			return x
		case *Raw:
			return x.V
		}
		return nil
	}
	panic("harness: can't evaluate " + n.Op)
}

// at gives failures without a line the line of a call.
func (m *Machine) at(line int, f func() Value) Value {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(*Err); ok && x.Line == 0 && x.Text != "" {
				x.Line = line
			}
			panic(e)
		}
	}()
	return f()
}

func (m *Machine) apply(fn Value, args []Value) Value {
	c, ok := fn.(*Closure)
	if b, isb := fn.(*Bound); isb {
		c, ok = b.fn, true
		args = append([]Value{b.o}, args...)
	}
	if !ok {
		fail()
	}
	m.step()
	if c.host != nil {
		return c.host(m, args)
	}
	np := len(c.names)
	if c.n.Flag {
		if len(args) < np-1 {
			fail()
		}
		args = append(append([]Value{}, args[:np-1]...), append([]Value{}, args[np-1:]...))
	} else if len(args) != np {
		fail()
	}
	if len(c.n.Blk[0]) == 0 {
		return nil
	}
	g := NewFrame(c.f)
	for i, p := range c.names {
		if c.n.Flag && i == np-1 {
			g.vars[p] = args[i]
			continue
		}
		g.vars[p] = args[i]
	}
	return m.run(g, c.n.Blk[0])
}

func (m *Machine) run(g *Frame, body []*N) Value {
	m.depth++
	e := m.protect(func() { m.block(g, body) })
	if _, ok := e.(returning); !ok {
		g.recov = e
	}
	m.runDefers(g)
	m.depth--
	if g.recov != nil {
		panic(g.recov)
	}
	return g.ret
}

func (m *Machine) member(v Value, name string) Value {
	switch x := v.(type) {
	case *Object:
		if w, ok := x.vars[name]; ok {
			return w
		}
		if fn := x.cls.fns[name]; fn != nil {
			return &Bound{x, fn}
		}
		fail()
	case *ClassV:
		if fn := x.fns[name]; fn != nil {
			return fn
		}
		fail()
	case *Err:
		if name == "error" {
			return &Closure{host: func(m *Machine, a []Value) Value {
				if len(a) != 0 {
					fail()
				}
				return errText(x)
			}}
		}
		fail()
	}
	r := reflect.ValueOf(v)
	if r.Kind() == reflect.Map && r.Type().Key().Kind() == reflect.String {
		if e := r.MapIndex(reflect.ValueOf(name)); e.IsValid() {
			return e.Interface()
		}
	}
	fail()
	return nil
}

// Wild stands for text that isn't specified.
const Wild = "\x00"

func errText(e *Err) string {
	s := Wild
	if e.Line > 0 {
		s = fmt.Sprint("line ", e.Line)
	}
	s += ": runtime error: "
	if e.Text == "" {
		return Wild
	}
	return s + e.Text
}

// ErrText is the text of an error, with Wild for what isn't specified.
func ErrText(e *Err) string { return errText(e) }

// Match compares a text with a pattern that has Wild parts.
func Match(pat, s string) bool {
	parts := strings.Split(pat, Wild)
	if len(parts) == 1 {
		return pat == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i, p := range parts[1:] {
		if i == len(parts)-2 {
			return strings.HasSuffix(s, p)
		}
		k := strings.Index(s, p)
		if k < 0 {
			return false
		}
		s = s[k+len(p):]
	}
	return true
}

// Describe shows a value; other shows values that it doesn't know.
func Describe(v Value, other func(Value) (string, bool)) string {
	return describe(v, other, 0)
}

func describe(v Value, other func(Value) (string, bool), depth int) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Closure, *Bound:
		return "function"
	case *ClassV:
		return "class"
	case *Object:
		return "object"
	case *Err:
		return "error:" + errText(x)
	case *undef:
		return "undefined"
	case float64:
		return "float " + strconv.FormatFloat(x, 'g', -1, 64)
	case int:
		return "int " + strconv.Itoa(x)
	case byte:
		return "byte " + strconv.Itoa(int(x))
	case string:
		return "string " + x
	case bool:
		return strconv.FormatBool(x)
	case reflect.Type:
		return "type " + x.String()
	}
	if other != nil {
		if s, ok := other(v); ok {
			return s
		}
	}
	if depth > 10 { // containers can contain themselves
		return "..."
	}
	r := reflect.ValueOf(v)
	var items []string
	switch r.Kind() {
	case reflect.Slice:
		for i := 0; i < r.Len(); i++ {
			items = append(items, describe(r.Index(i).Interface(), other, depth+1))
		}
		return r.Type().String() + "[" + strings.Join(items, ", ") + "]"
	case reflect.Map:
		for _, k := range r.MapKeys() {
			items = append(items, describe(k.Interface(), other, depth+1)+": "+describe(r.MapIndex(k).Interface(), other, depth+1))
		}
		sort.Strings(items)
		return r.Type().String() + "{" + strings.Join(items, ", ") + "}"
	}
	return fmt.Sprintf("%T", v)
}

// -----------------------------------------------------------------------------
// operators

func num(v Value, bytes bool) (f float64, i int, isInt, ok bool) {
	switch x := v.(type) {
	case int:
		return float64(x), x, true, true
	case float64:
		return x, 0, false, true
	case byte:
		if bytes {
			return float64(x), int(x), true, true
		}
	}
	return
}

func binary(op string, a, b Value) Value {
	switch op {
	case "==", "!=":
		return equal(a, b) == (op == "==")
	}
	cmp := op == "<" || op == ">" || op == "<=" || op == ">="
	if s, ok := a.(string); ok {
		t, ok := b.(string)
		if !ok {
			fail()
		}
		switch op {
		case "+":
			return s + t
		case "<":
			return strings.Compare(s, t) < 0
		case ">":
			return strings.Compare(s, t) > 0
		case "<=":
			return strings.Compare(s, t) <= 0
		case ">=":
			return strings.Compare(s, t) >= 0
		}
		fail()
	}
	x, i, xi, ok1 := num(a, cmp)
	y, j, yi, ok2 := num(b, cmp)
	if !ok1 || !ok2 {
		fail()
	}
	if xi && yi {
		switch op {
		case "+":
			return i + j
		case "-":
			return i - j
		case "*":
			return i * j
		case "/", "%":
			if j == 0 {
				fail()
			}
			if op == "/" {
				return i / j
			}
			return i % j
		case "<":
			return i < j
		case ">":
			return j < i
		case "<=":
			return !(j < i)
		case ">=":
			return !(i < j)
		}
	}
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	case "<":
		return x < y
	case ">":
		return x > y
	case "<=":
		return x <= y
	case ">=":
		return x >= y
	}
	fail() // % on floats
	return nil
}

// equal: same type and value; slices, maps can't be compared with their like.
func equal(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
	if ta != tb {
		return false
	}
	if !ta.Comparable() {
		fail()
	}
	if c, ok := a.(*Closure); ok && c.host != nil && b.(*Closure).host != nil {
		fail() // functions of Go can't be compared
	}
	return a == b
}

// -----------------------------------------------------------------------------
// containers

// class of values for literals: "int", "float" (numbers, one of them a float), "string", "mixed"
func kindOfAll(a []Value) string {
	ints, floats, strs := 0, 0, 0
	for _, v := range a {
		switch v.(type) {
		case int:
			ints++
		case float64:
			floats++
		case string:
			strs++
		}
	}
	switch {
	case ints == len(a):
		return "int"
	case strs == len(a):
		return "string"
	case ints+floats == len(a):
		return "float"
	}
	return "mixed"
}

func toFloat(v Value) float64 {
	if i, ok := v.(int); ok {
		return float64(i)
	}
	return v.(float64)
}

func sliceFrom(a []Value) Value {
	if len(a) == 0 {
		return []interface{}(nil)
	}
	switch kindOfAll(a) {
	case "int":
		r := make([]int, 0, len(a))
		for _, v := range a {
			r = append(r, v.(int))
		}
		return r
	case "float":
		r := make([]float64, 0, len(a))
		for _, v := range a {
			r = append(r, toFloat(v))
		}
		return r
	case "string":
		r := make([]string, 0, len(a))
		for _, v := range a {
			r = append(r, v.(string))
		}
		return r
	}
	return append(make([]interface{}, 0, len(a)), a...)
}

func mapFrom(a []Value) Value {
	if len(a)%2 != 0 {
		fail()
	}
	if len(a) == 0 {
		return map[string]interface{}{}
	}
	var keys, vals []Value
	for i := 0; i < len(a); i += 2 {
		keys, vals = append(keys, a[i]), append(vals, a[i+1])
	}
	var tk, tv reflect.Type
	switch kindOfAll(keys) {
	case "string":
		tk = reflect.TypeOf("")
	case "int":
		tk = reflect.TypeOf(0)
	default:
		fail()
	}
	switch kindOfAll(vals) {
	case "string":
		tv = reflect.TypeOf("")
	case "int":
		tv = reflect.TypeOf(0)
	case "float":
		tv = reflect.TypeOf(0.0)
	default:
		tv = typeAny
	}
	m := reflect.MakeMap(reflect.MapOf(tk, tv))
	for i, k := range keys {
		v := vals[i]
		if tv == typeAny && v == Undefined {
			continue
		}
		if tv.Kind() == reflect.Float64 {
			v = toFloat(v)
		}
		m.SetMapIndex(reflect.ValueOf(k), valueFor(v, tv))
	}
	return m.Interface()
}

var typeAny = reflect.TypeOf((*interface{})(nil)).Elem()

// valueFor is v as a value to be stored in a container of elements t.
func valueFor(v Value, t reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	r := reflect.ValueOf(v)
	if !r.Type().AssignableTo(t) {
		fail()
	}
	return r
}

func get(a, k Value) Value {
	r := reflect.ValueOf(a)
	switch r.Kind() {
	case reflect.Map:
		if k == nil || !reflect.TypeOf(k).AssignableTo(r.Type().Key()) || !reflect.TypeOf(k).Comparable() {
			fail()
		}
		if e := r.MapIndex(reflect.ValueOf(k)); e.IsValid() {
			return e.Interface()
		}
		return Undefined
	case reflect.Slice, reflect.String:
		i, ok := k.(int)
		if !ok || i < 0 || i >= r.Len() {
			fail()
		}
		if s, ok := a.(string); ok {
			return s[i]
		}
		return r.Index(i).Interface()
	}
	fail()
	return nil
}

func subSlice(a, i, j Value) Value {
	r := reflect.ValueOf(a)
	if r.Kind() != reflect.Slice && r.Kind() != reflect.String {
		fail()
	}
	lo, hi := 0, r.Len()
	var ok bool
	if i != nil {
		if lo, ok = i.(int); !ok {
			fail()
		}
	}
	if j != nil {
		if hi, ok = j.(int); !ok {
			fail()
		}
	}
	if s, isStr := a.(string); isStr {
		if lo < 0 || hi < lo || hi > len(s) {
			fail()
		}
		return s[lo:hi]
	}
	if lo < 0 || hi < lo || hi > r.Cap() {
		fail()
	}
	return r.Slice(lo, hi).Interface()
}

// -----------------------------------------------------------------------------
// builtin functions

func isMin(a []Value, less func(x, y float64) bool, lessI func(x, y int) bool) Value {
	if len(a) == 0 {
		return 0
	}
	switch kindOfAll(a) {
	case "int":
		r := a[0].(int)
		for _, v := range a[1:] {
			if lessI(v.(int), r) {
				r = v.(int)
			}
		}
		return r
	case "float":
		r := toFloat(a[0])
		for _, v := range a[1:] {
			if less(toFloat(v), r) {
				r = toFloat(v)
			}
		}
		return r
	}
	fail()
	return nil
}

// Builtin adds a Go function of a fixed number of parameters (or any: -1).
func Builtin(n int, f func(m *Machine, a []Value) Value) *Closure {
	return &Closure{host: func(m *Machine, a []Value) Value {
		if n >= 0 && len(a) != n || n < 0 && len(a) < -n-1 {
			fail()
		}
		return f(m, a)
	}}
}

// Fail makes a program fail.
func Fail() { fail() }

// Throw is the panic function.
func Throw(v Value) {
	switch x := v.(type) {
	case string:
		panic(&Err{Text: x})
	case *Err:
		panic(x)
	case *undef:
		panic(&Err{Text: "undefined"})
	}
	panic(&Raw{v})
}

var typeNames = map[string]reflect.Type{
	"int": reflect.TypeOf(0), "bool": reflect.TypeOf(false), "float": reflect.TypeOf(0.0), "string": reflect.TypeOf(""), "byte": reflect.TypeOf(byte(0)), "var": typeAny,
	"string:int": reflect.TypeOf(map[string]int{}), "string:float": reflect.TypeOf(map[string]float64{}), "string:string": reflect.TypeOf(map[string]string{}), "string:var": reflect.TypeOf(map[string]interface{}{}),
}

func typeArg(v Value) reflect.Type {
	switch x := v.(type) {
	case string:
		if t := typeNames[x]; t != nil {
			return t
		}
	case reflect.Type:
		return x
	}
	fail()
	return nil
}

func intArg(v Value) int {
	i, ok := v.(int)
	if !ok {
		fail()
	}
	return i
}

var builtins = map[string]Value{
	"nil": nil, "true": true, "false": false, "undefined": Undefined,
	"append": Builtin(-2, func(m *Machine, a []Value) Value {
		if s, ok := a[0].([]float64); ok {
			for _, v := range a[1:] {
				switch x := v.(type) {
				case int:
					s = append(s, float64(x))
				case float64:
					s = append(s, x)
				default:
					fail()
				}
			}
			return s
		}
		r := reflect.ValueOf(a[0])
		if r.Kind() != reflect.Slice {
			fail()
		}
		var vals []reflect.Value
		for _, v := range a[1:] {
			vals = append(vals, valueFor(v, r.Type().Elem()))
		}
		return reflect.Append(r, vals...).Interface()
	}),
	"delete": Builtin(2, func(m *Machine, a []Value) Value {
		r := reflect.ValueOf(a[0])
		if r.Kind() != reflect.Map || a[1] == nil || !reflect.TypeOf(a[1]).AssignableTo(r.Type().Key()) || !reflect.TypeOf(a[1]).Comparable() {
			fail()
		}
		r.SetMapIndex(reflect.ValueOf(a[1]), reflect.Value{})
		return nil
	}),
	"get": Builtin(2, func(m *Machine, a []Value) Value { return get(a[0], a[1]) }),
	"len": Builtin(1, func(m *Machine, a []Value) Value {
		r := reflect.ValueOf(a[0])
		switch r.Kind() {
		case reflect.Invalid:
			return 0
		case reflect.Slice, reflect.Map, reflect.String:
			return r.Len()
		}
		fail()
		return nil
	}),
	"cap": Builtin(1, func(m *Machine, a []Value) Value {
		r := reflect.ValueOf(a[0])
		switch r.Kind() {
		case reflect.Invalid:
			return 0
		case reflect.Slice:
			return r.Cap()
		}
		fail()
		return nil
	}),
	"mkmap": Builtin(-2, func(m *Machine, a []Value) Value {
		for _, v := range a[1:] {
			intArg(v)
		}
		t := typeArg(a[0])
		if t.Kind() != reflect.Map {
			fail()
		}
		return reflect.MakeMap(t).Interface()
	}),
	"mapFrom": Builtin(-1, func(m *Machine, a []Value) Value { return mapFrom(a) }),
	"mapOf": Builtin(2, func(m *Machine, a []Value) Value {
		k, v := typeArg(a[0]), typeArg(a[1])
		if !k.Comparable() {
			fail()
		}
		return reflect.MapOf(k, v)
	}),
	"panic": Builtin(1, func(m *Machine, a []Value) Value {
		Throw(a[0])
		return nil
	}),
	"panicf": Builtin(-2, func(m *Machine, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			fail()
		}
		Throw(fmt.Sprintf(s, a[1:]...))
		return nil
	}),
	"set": Builtin(-2, func(m *Machine, a []Value) Value {
		if len(a)%2 == 0 {
			fail()
		}
		r := reflect.ValueOf(a[0])
		for i := 1; i < len(a); i += 2 {
			k, v := a[i], a[i+1]
			switch {
			case r.Kind() == reflect.Map:
				if k == nil || !reflect.TypeOf(k).AssignableTo(r.Type().Key()) || !reflect.TypeOf(k).Comparable() {
					fail()
				}
				if v == Undefined {
					r.SetMapIndex(reflect.ValueOf(k), reflect.Value{})
				} else {
					r.SetMapIndex(reflect.ValueOf(k), valueFor(v, r.Type().Elem()))
				}
			case r.Kind() == reflect.Slice:
				j := intArg(k)
				if j < 0 || j >= r.Len() {
					fail()
				}
				r.Index(j).Set(valueFor(v, r.Type().Elem()))
			default:
				o, ok := a[0].(*Object)
				s, isStr := k.(string)
				if !ok || !isStr || o.cls.fns[s] != nil {
					fail()
				}
				o.vars[s] = v
			}
		}
		if len(a) == 1 {
			if _, ok := a[0].(*Object); !ok && r.Kind() != reflect.Map && r.Kind() != reflect.Slice {
				fail()
			}
		}
		return nil
	}),
	"slice": Builtin(-2, func(m *Machine, a []Value) Value {
		n, c := 0, 0
		if len(a) > 1 {
			n = intArg(a[1])
			c = n
		}
		if len(a) > 2 {
			c = intArg(a[2])
		}
		t := typeArg(a[0])
		if n < 0 || c < n {
			fail()
		}
		return reflect.MakeSlice(reflect.SliceOf(t), n, c).Interface()
	}),
	"sliceFrom": Builtin(-1, func(m *Machine, a []Value) Value { return sliceFrom(a) }),
	"sliceOf":   Builtin(1, func(m *Machine, a []Value) Value { return reflect.SliceOf(typeArg(a[0])) }),
	"string": Builtin(1, func(m *Machine, a []Value) Value {
		switch x := a[0].(type) {
		case []byte:
			return string(x)
		case byte:
			return string(rune(x))
		case int:
			if x < 0 || x > 0x10FFFF {
				x = 0xFFFD
			}
			return string(rune(x))
		}
		fail()
		return nil
	}),
	"sub": Builtin(3, func(m *Machine, a []Value) Value { return subSlice(a[0], a[1], a[2]) }),
	"type": Builtin(1, func(m *Machine, a []Value) Value {
		if a[0] == nil {
			return nil
		}
		return reflect.TypeOf(a[0])
	}),
	"float": Builtin(1, func(m *Machine, a []Value) Value {
		f, _, _, ok := num(a[0], true)
		if !ok {
			fail()
		}
		return f
	}),
	"int": Builtin(1, func(m *Machine, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return int(math.Trunc(x))
		case int:
			return x
		case byte:
			return int(x)
		}
		fail()
		return nil
	}),
	"byte": Builtin(1, func(m *Machine, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return byte(int(math.Trunc(x)))
		case int:
			return byte(x & 255)
		case byte:
			return x
		}
		fail()
		return nil
	}),
	"max": Builtin(-1, func(m *Machine, a []Value) Value {
		return isMin(a, func(x, y float64) bool { return x > y }, func(x, y int) bool { return x > y })
	}),
	"min": Builtin(-1, func(m *Machine, a []Value) Value {
		return isMin(a, func(x, y float64) bool { return x < y }, func(x, y int) bool { return x < y })
	}),
	// tracing functions that the harness adds
	"t": Builtin(1, func(m *Machine, a []Value) Value {
		m.Log = append(m.Log, Describe(a[0], nil))
		return a[0]
	}),
}

// Vars are the variables of a frame.
func (f *Frame) Vars() map[string]Value { return f.vars }

// Apply calls a function of the program.
func (m *Machine) Apply(fn Value, args ...Value) Value { return m.apply(fn, args) }
