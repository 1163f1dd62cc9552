// Package qref is a reference interpreter for the scripting language, written
// on syntax trees, and a printer that turns the trees into source text.
package qref

import (
	"fmt"
	"strconv"
	"strings"
)

// N is a node of a program. Op says what it is:
//
//	lit(V) raw(S: text, V) var(S) un(S,k0) bin(S,k0,k1) and or call(k0 callee, rest args; Flag: last is spread)
//	index(k0,k1) sub(k0,k1?,k2?) list map(k,v,...) fn(Names, Flag: variadic, Blk[0]) mem(S,k0)
//	new(S, k args; Flag: with arguments) class(K: fn nodes with S = name)
//	if(K conds, Blk bodies [+ else]) switch(K[0]? cond, rest cases, Blk bodies [+ default]) for(K: init, cond, step; nil = absent; Flag: three parts)
//	recover; statements: nop (empty; not first in a block) set(S,k0) mset(Names,k0) op(S: "+=", Names[0], k0) inc(S) dec(S) ret(k0?) defer(k0)
type N struct {
	Op    string
	S     string
	V     Value
	Names []string
	Flag  bool
	K     []*N
	Blk   [][]*N
	Else  bool // the last of Blk is an else or default
	Line  int  // of the closing parenthesis of a call, set by the printer
}

// constructors

// Lit is a literal.
func Lit(v Value) *N { return &N{Op: "lit", V: v} }

// Var refers to a variable or builtin.
func Var(name string) *N { return &N{Op: "var", S: name} }

// Un is a unary operator.
func Un(op string, a *N) *N { return &N{Op: "un", S: op, K: []*N{a}} }

// Bin is a binary operator.
func Bin(op string, a, b *N) *N {
	switch op {
	case "&&":
		return &N{Op: "and", K: []*N{a, b}}
	case "||":
		return &N{Op: "or", K: []*N{a, b}}
	}
	return &N{Op: "bin", S: op, K: []*N{a, b}}
}

// Call calls f.
func Call(f *N, args ...*N) *N { return &N{Op: "call", K: append([]*N{f}, args...)} }

// CallN calls a named function.
func CallN(f string, args ...*N) *N { return Call(Var(f), args...) }

// Spread calls f with its last argument spread.
func Spread(f *N, args ...*N) *N {
	return &N{Op: "call", K: append([]*N{f}, args...), Flag: true}
}

// Index is a[i].
func Index(a, i *N) *N { return &N{Op: "index", K: []*N{a, i}} }

// Sub is a[i:j], i and j may be nil.
func Sub(a, i, j *N) *N { return &N{Op: "sub", K: []*N{a, i, j}} }

// List is [a, ...].
func List(a ...*N) *N { return &N{Op: "list", K: a} }

// Map is {k: v, ...}.
func Map(a ...*N) *N { return &N{Op: "map", K: a} }

// Fn is a function literal.
func Fn(params string, variadic bool, body ...*N) *N {
	return &N{Op: "fn", Names: fields(params), Flag: variadic, Blk: [][]*N{body}}
}

// Mem is a.name.
func Mem(a *N, name string) *N { return &N{Op: "mem", S: name, K: []*N{a}} }

// New makes an object.
func New(cls string, args ...*N) *N { return &N{Op: "new", S: cls, K: args, Flag: true} }

// New0 makes an object without an argument list.
func New0(cls string) *N { return &N{Op: "new", S: cls} }

// Method is a method in a class.
func Method(name, params string, variadic bool, body ...*N) *N {
	n := Fn(params, variadic, body...)
	n.S = name
	return n
}

// Class is a class.
func Class(methods ...*N) *N { return &N{Op: "class", K: methods} }

// If has conditions and bodies alternating, and maybe an else body.
func If(cond *N, body []*N) *N { return &N{Op: "if", K: []*N{cond}, Blk: [][]*N{body}} }

// Elif adds a branch.
func (n *N) Elif(cond *N, body []*N) *N {
	n.K, n.Blk = append(n.K, cond), append(n.Blk, body)
	return n
}

// Otherwise adds an else or default body.
func (n *N) Otherwise(body []*N) *N {
	n.Blk, n.Else = append(n.Blk, body), true
	return n
}

// Switch starts a switch; cond may be nil.
func Switch(cond *N) *N { return &N{Op: "switch", K: []*N{cond}} }

// Case adds a case to a switch.
func (n *N) Case(cond *N, body []*N) *N { return n.Elif(cond, body) }

// While is for cond { }; cond may be nil.
func While(cond *N, body ...*N) *N {
	return &N{Op: "for", K: []*N{nil, cond, nil}, Blk: [][]*N{body}}
}

// For is for init; cond; step { }.
func For(init, cond, step *N, body ...*N) *N {
	return &N{Op: "for", K: []*N{init, cond, step}, Flag: true, Blk: [][]*N{body}}
}

// Recover is recover().
func Recover() *N { return &N{Op: "recover"} }

// Set is name = e.
func Set(name string, e *N) *N { return &N{Op: "set", S: name, K: []*N{e}} }

// MSet is a, b = e.
func MSet(names string, e *N) *N { return &N{Op: "mset", Names: fields(names), K: []*N{e}} }

// OpSet is name += e.
func OpSet(name, op string, e *N) *N {
	return &N{Op: "op", S: op, Names: []string{name}, K: []*N{e}}
}

// Inc is name++.
func Inc(name string) *N { return &N{Op: "inc", S: name} }

// Dec is name--.
func Dec(name string) *N { return &N{Op: "dec", S: name} }

// Ret is return, with or without a value.
func Ret(e ...*N) *N { return &N{Op: "ret", K: e} }

// Defer is defer e.
func Defer(e *N) *N { return &N{Op: "defer", K: []*N{e}} }

// B is a block.
func B(s ...*N) []*N { return s }

// Copy copies a tree.
func (n *N) Copy() *N {
	if n == nil {
		return nil
	}
	m := *n
	m.K = nil
	for _, k := range n.K {
		m.K = append(m.K, k.Copy())
	}
	m.Blk = nil
	for _, b := range n.Blk {
		m.Blk = append(m.Blk, CopyBlock(b))
	}
	return &m
}

// CopyBlock copies a block.
func CopyBlock(b []*N) (out []*N) {
	for _, s := range b {
		out = append(out, s.Copy())
	}
	return
}

// -----------------------------------------------------------------------------
// printer

type printer struct {
	b     strings.Builder
	line  int
	lines bool // statements on lines of their own (needs inserted semicolons)
	multi bool // also those of if, switch and for, where their values aren't used
	all   bool // initial multi
	stm   bool // the expression to print is a statement
}

// Text prints a program. With lines, statements of the program and of functions
// are put on lines of their own and have no semicolons.
func Text(prog []*N, lines bool) string {
	p := &printer{line: 1, lines: lines}
	p.block(prog, lines)
	return p.b.String()
}

// Layout prints a program in layout 0 (semicolons), 1 (lines) or 2 (lines also in
// if, switch and for: the value of such a block isn't that of its last statement).
func Layout(prog []*N, layout int) string {
	p := &printer{line: 1, lines: layout > 0, multi: layout > 1, all: layout > 1}
	p.block(prog, p.lines)
	return p.b.String()
}

// Nop is an empty statement; it can't be the first of a block.
func Nop() *N { return &N{Op: "nop"} }

func (p *printer) w(s string) {
	p.line += strings.Count(s, "\n")
	p.b.WriteString(s)
}

func (p *printer) block(b []*N, lines bool) {
	for i, s := range b {
		if i > 0 {
			if lines {
				p.w("\n")
			} else {
				p.w("; ")
			}
		}
		p.stmt(s)
	}
}

func (p *printer) stmt(s *N) {
	switch s.Op {
	case "nop":
		if p.lines {
			p.w(";")
		}
	case "set":
		p.w(s.S + " = ")
		p.expr(s.K[0], 0)
	case "mset":
		p.w(strings.Join(s.Names, ", ") + " = ")
		p.expr(s.K[0], 0)
	case "op":
		p.w(s.Names[0] + " " + s.S + " ")
		p.expr(s.K[0], 0)
	case "inc":
		p.w(s.S + "++")
	case "dec":
		p.w(s.S + "--")
	case "ret":
		p.w("return")
		if len(s.K) > 0 {
			p.w(" ")
			p.expr(s.K[0], 0)
		}
	case "defer":
		p.w("defer ")
		p.expr(s.K[0], 0)
	default:
		p.stm = true
		p.expr(s, 0)
	}
}

var binLevel = map[string]int{"<": 2, ">": 2, "==": 2, "<=": 2, ">=": 2, "!=": 2, "+": 3, "-": 3, "*": 4, "/": 4, "%": 4}

func (n *N) level() int {
	switch n.Op {
	case "or":
		return 0
	case "and":
		return 1
	case "bin":
		return binLevel[n.S]
	case "var", "fn", "list", "call", "index", "sub", "mem":
		return 6
	case "lit":
		if n.V == nil || n.V == Undefined {
			return 6 // a name
		}
		if _, ok := n.V.(bool); ok {
			return 6
		}
	case "set", "mset", "op", "inc", "dec", "ret", "defer", "nop":
		panic("statement as an expression")
	}
	return 5
}

func (p *printer) list(k []*N) {
	for i, a := range k {
		if i > 0 {
			p.w(", ")
		}
		p.expr(a, 0)
	}
}

func (p *printer) body(b []*N, lines bool) {
	if len(b) == 0 {
		p.w("{}")
		return
	}
	if lines {
		p.w("{\n")
		p.block(b, true)
		p.w("\n}")
		return
	}
	p.w("{ ")
	p.block(b, false)
	p.w(" }")
}

// used keeps the blocks of a construct whose value counts on one line.
func (p *printer) used(yes bool) func() {
	old := p.multi
	if yes {
		p.multi = false
	}
	return func() { p.multi = old }
}

func (p *printer) fn(n *N) {
	old := p.multi
	p.multi = p.all
	defer func() { p.multi = old }()
	p.w("(" + strings.Join(n.Names, ", "))
	if n.Flag {
		p.w("...")
	}
	p.w(") ")
	p.body(n.Blk[0], p.lines)
}

func (p *printer) expr(n *N, min int) {
	stm := p.stm
	p.stm = false
	if n.level() < min {
		p.w("(")
		p.expr(n, 0)
		p.w(")")
		return
	}
	switch n.Op {
	case "lit":
		p.w(LitText(n.V))
	case "raw":
		p.w(n.S)
	case "var":
		p.w(n.S)
	case "un":
		p.w(n.S + " ")
		p.expr(n.K[0], 5)
	case "bin":
		l := binLevel[n.S]
		p.expr(n.K[0], l)
		p.w(" " + n.S + " ")
		p.expr(n.K[1], l+1)
	case "and":
		p.expr(n.K[0], 1)
		p.w(" && ")
		p.expr(n.K[1], 2)
	case "or":
		p.expr(n.K[0], 0)
		p.w(" || ")
		p.expr(n.K[1], 1)
	case "call":
		p.expr(n.K[0], 6)
		p.w("(")
		p.list(n.K[1:])
		if n.Flag {
			p.w(" ...")
		}
		n.Line = p.line
		p.w(")")
	case "index":
		p.expr(n.K[0], 6)
		p.w("[")
		p.expr(n.K[1], 0)
		p.w("]")
	case "sub":
		p.expr(n.K[0], 6)
		p.w("[")
		if n.K[1] != nil {
			p.expr(n.K[1], 0)
		}
		p.w(":")
		if n.K[2] != nil {
			p.expr(n.K[2], 0)
		}
		p.w("]")
	case "list":
		p.w("[")
		p.list(n.K)
		p.w("]")
	case "map":
		p.w("{")
		for i := 0; i < len(n.K); i += 2 {
			if i > 0 {
				p.w(", ")
			}
			p.expr(n.K[i], 0)
			p.w(": ")
			p.expr(n.K[i+1], 0)
		}
		p.w("}")
	case "fn":
		p.w("fn")
		p.fn(n)
	case "mem":
		p.expr(n.K[0], 6)
		p.w("." + n.S)
	case "new":
		p.w("new " + n.S)
		if n.Flag {
			p.w("(")
			p.list(n.K)
			p.w(")")
		}
	case "class":
		p.w("class {")
		for _, m := range n.K {
			if p.lines {
				p.w("\n")
			} else {
				p.w(" ")
			}
			p.w("fn " + m.S)
			p.fn(m)
		}
		if p.lines {
			p.w("\n}")
		} else {
			p.w(" }")
		}
	case "if":
		defer p.used(!stm)()
		for i, c := range n.K {
			p.w([]string{"if ", " elif "}[sel(i > 0)])
			p.expr(c, 0)
			p.w(" ")
			p.body(n.Blk[i], p.multi)
		}
		if n.Else {
			p.w(" else ")
			p.body(n.Blk[len(n.Blk)-1], p.multi)
		}
	case "switch":
		defer p.used(!stm)()
		p.w("switch ")
		if n.K[0] != nil {
			p.expr(n.K[0], 0)
			p.w(" ")
		}
		p.w("{")
		sp := " "
		if p.multi {
			sp = "\n"
		}
		for i, c := range n.K[1:] {
			p.w(sp + "case ")
			p.expr(c, 0)
			p.w(":" + sp)
			p.block(n.Blk[i], p.multi)
		}
		if n.Else {
			p.w(sp + "default:" + sp)
			p.block(n.Blk[len(n.Blk)-1], p.multi)
		}
		p.w(sp + "}")
	case "for":
		defer p.used(!stm)()
		p.w("for ")
		done := p.used(true)
		if n.Flag {
			p.stmt(n.K[0])
			p.w("; ")
			p.stmt(n.K[1])
			p.w("; ")
			p.stmt(n.K[2])
			p.w(" ")
		} else if n.K[1] != nil {
			p.stmt(n.K[1])
			p.w(" ")
		}
		done()
		p.body(n.Blk[0], p.multi)
	case "recover":
		p.w("recover()")
	default:
		panic("can't print " + n.Op)
	}
}

func sel(b bool) int {
	if b {
		return 1
	}
	return 0
}

// LitText writes a literal (numbers aren't negative).
func LitText(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case float64:
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if !strings.ContainsAny(s, ".e") {
			s += ".0"
		}
		return s
	case string:
		return strconv.Quote(x)
	case byte:
		s := strconv.QuoteRuneToASCII(rune(x))
		if x >= 0x80 {
			s = fmt.Sprintf(`'\x%02x'`, x)
		}
		return s
	}
	if v == Undefined {
		return "undefined"
	}
	panic("no literal")
}

func fields(s string) []string { return strings.Fields(strings.ReplaceAll(s, ",", " ")) }
