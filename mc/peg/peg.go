// Package peg is the reference semantics of TPL grammars: syntax trees, an
// enumerator, a matcher written from the documentation, a printer and a
// recursive-descent reader for grammar texts, and a builder that makes the
// real tpl.Grammar for a tree.
package peg

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/qiniu/text/tpl"
)

// Op is the kind of a tree node.
type Op uint8

// Operators.
const (
	Tok Op = iota // one token (Kind), or a keyword (Kw)
	True
	EOF
	Ref // rule Name
	Star
	Plus
	Opt
	Not
	Peek
	And // Cut[i]: a '!' stands before item i (len(Cut)==len(Kids)+1)
	Or
	List  // a % b
	List0 // a %= b
	Mark  // Kids[0]/Name
	Trans // transaction Name around Kids[0]
)

// Node is a grammar tree.
type Node struct {
	Op   Op
	Kind uint
	Kw   string
	Name string
	Kids []*Node
	Cut  []bool
}

// Rules is a whole grammar. Rules[0] need not be doc.
type Rules struct {
	Names []string
	Defs  map[string]*Node
}

// T makes a token node.
func T(k uint) *Node { return &Node{Op: Tok, Kind: k} }

// K makes a keyword node.
func K(w string) *Node { return &Node{Op: Tok, Kw: w} }

// U makes a unary node.
func U(op Op, a *Node) *Node { return &Node{Op: op, Kids: []*Node{a}} }

// B makes a node with several kids.
func B(op Op, kids ...*Node) *Node { return &Node{Op: op, Kids: kids} }

// R makes a reference.
func R(name string) *Node { return &Node{Op: Ref, Name: name} }

// M marks.
func M(a *Node, name string) *Node { return &Node{Op: Mark, Name: name, Kids: []*Node{a}} }

// Size counts nodes.
func (n *Node) Size() int {
	s := 1
	for _, k := range n.Kids {
		s += k.Size()
	}
	return s
}

// Walk visits all nodes, parents first.
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, k := range n.Kids {
		k.Walk(f)
	}
}

// ---------------------------------------------------------------------------
// printing

const (
	pOr = iota
	pAnd
	pTerm
	pFactor
)

// KindText names token kinds in grammar texts.
var KindText = map[uint]string{tpl.IDENT: "IDENT", tpl.INT: "INT", tpl.FLOAT: "FLOAT", tpl.STRING: "STRING", tpl.CHAR: "CHAR", tpl.IMAG: "IMAG", tpl.COMMENT: "COMMENT", tpl.ILLEGAL: "ILLEGAL"}

// OpText maps operator kinds to their text.
var OpText = map[uint]string{}

func quoteOp(op string) string {
	if len(op) == 1 {
		return "'" + op + "'"
	}
	return `"` + op + `"`
}

// Text prints a tree as grammar text with the fewest parentheses.
func (n *Node) Text() string {
	var b strings.Builder
	n.print(&b, pOr)
	return b.String()
}

func (n *Node) prec() int {
	switch n.Op {
	case Or:
		return pOr
	case And:
		return pAnd
	case List, List0, Mark, Trans:
		return pTerm
	}
	return pFactor
}

func (n *Node) print(b *strings.Builder, lvl int) {
	if n.prec() < lvl {
		b.WriteByte('(')
		n.print(b, pOr)
		b.WriteByte(')')
		return
	}
	switch n.Op {
	case Tok:
		switch {
		case n.Kw != "":
			b.WriteString(strconv.Quote(n.Kw))
		case KindText[n.Kind] != "":
			b.WriteString(KindText[n.Kind])
		default:
			b.WriteString(quoteOp(OpText[n.Kind]))
		}
	case True:
		b.WriteByte('1')
	case EOF:
		b.WriteString("EOF")
	case Ref:
		b.WriteString(n.Name)
	case Star, Plus, Opt, Not, Peek:
		b.WriteString(map[Op]string{Star: "*", Plus: "+", Opt: "?", Not: "~", Peek: "@"}[n.Op])
		if n.Op == Plus && n.Kids[0].Op == Plus {
			b.WriteByte(' ')
		}
		n.Kids[0].print(b, pFactor)
	case And:
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteByte(' ')
			}
			if n.cut(i) {
				b.WriteString("! ")
			}
			k.print(b, pTerm)
		}
		if n.cut(len(n.Kids)) {
			b.WriteString(" !")
		}
	case Or:
		for i, k := range n.Kids {
			if i > 0 {
				b.WriteString(" | ")
			}
			k.print(b, pAnd)
		}
	case List, List0:
		n.Kids[0].print(b, pTerm)
		if n.Op == List {
			b.WriteString(" % ")
		} else {
			b.WriteString(" %= ")
		}
		n.Kids[1].print(b, pFactor)
	case Mark, Trans:
		n.Kids[0].print(b, pTerm)
		b.WriteString("/" + n.Name)
	}
}

func (n *Node) cut(i int) bool { return n.Cut != nil && n.Cut[i] }

// Text prints all rules.
func (r *Rules) Text() string {
	var b strings.Builder
	for _, n := range r.Names {
		b.WriteString(n + " = " + r.Defs[n].Text() + ";\n")
	}
	return b.String()
}

// ---------------------------------------------------------------------------
// static facts

// Nullable computes which rules may succeed without consuming a token.
func (r *Rules) Nullable() map[string]bool {
	null := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, n := range r.Names {
			if !null[n] && nullable(r.Defs[n], null) {
				null[n] = true
				ch = true
			}
		}
	}
	return null
}

func nullable(n *Node, m map[string]bool) bool {
	switch n.Op {
	case Tok:
		return false
	case True, EOF, Star, Opt, Not, Peek, List0:
		return true
	case Ref:
		return m[n.Name]
	case Plus, List, Mark, Trans:
		return nullable(n.Kids[0], m)
	case And:
		for _, k := range n.Kids {
			if !nullable(k, m) {
				return false
			}
		}
		return true
	case Or:
		for _, k := range n.Kids {
			if nullable(k, m) {
				return true
			}
		}
	}
	return false
}

// LeftRecursive tells whether some rule can call itself without progress.
func (r *Rules) LeftRecursive() bool {
	null := r.Nullable()
	first := map[string]map[string]bool{}
	for _, n := range r.Names {
		s := map[string]bool{}
		lefts(r.Defs[n], null, s)
		first[n] = s
	}
	for ch := true; ch; {
		ch = false
		for _, n := range r.Names {
			for m := range first[n] {
				for k := range first[m] {
					if !first[n][k] {
						first[n][k] = true
						ch = true
					}
				}
			}
		}
	}
	for _, n := range r.Names {
		if first[n][n] {
			return true
		}
	}
	return false
}

func lefts(n *Node, null map[string]bool, out map[string]bool) {
	switch n.Op {
	case Ref:
		out[n.Name] = true
	case And:
		for _, k := range n.Kids {
			lefts(k, null, out)
			if !nullable(k, null) {
				break
			}
		}
	case List, List0:
		lefts(n.Kids[0], null, out)
		if nullable(n.Kids[0], null) {
			lefts(n.Kids[1], null, out)
			if nullable(n.Kids[1], null) {
				lefts(n.Kids[0], null, out)
			}
		}
	default:
		for _, k := range n.Kids {
			lefts(k, null, out)
		}
	}
}

// Undefined lists referenced rules without definition.
func (r *Rules) Undefined() (out []string) {
	for _, n := range r.Names {
		r.Defs[n].Walk(func(k *Node) {
			if k.Op == Ref && r.Defs[k.Name] == nil {
				out = append(out, k.Name)
			}
		})
	}
	return
}

// ---------------------------------------------------------------------------
// matching

// Event is one action or transaction event.
type Event struct {
	What byte // 'a' action, '(' begin, ')' end
	Name string
	From int // token index of the span
	To   int
	Len  int
	OK   bool // ')' only
}

func (e Event) String() string {
	switch e.What {
	case 'a':
		return fmt.Sprintf("%s[%d:%d]#%d", e.Name, e.From, e.To, e.Len)
	case '(':
		return "begin " + e.Name
	}
	return fmt.Sprintf("end %s %v", e.Name, e.OK)
}

// Fail describes why a match failed.
type Fail struct {
	Node *Node // the unit that didn't match
	Pos  int   // where it was tried
	Idx  int   // how many tokens behind Pos the failure is
	Err  *Fail // inner failure of a cut
}

// Out is the outcome of a reference match.
type Out struct {
	OK    bool
	N     int // tokens consumed, or reached when failing
	Fail  *Fail
	Fatal bool // failed behind a '!'
}

// KwKind marks an identifier that is a keyword of the grammar.
const KwKind = ^uint(0)

// Keywords lists the keywords of a grammar.
func (r *Rules) Keywords() map[string]bool {
	kw := map[string]bool{}
	for _, n := range r.Names {
		r.Defs[n].Walk(func(k *Node) {
			if k.Kw != "" {
				kw[k.Kw] = true
			}
		})
	}
	return kw
}

// Tk is a token as the matcher sees it.
type Tk struct {
	Kind uint
	Lit  string
}

// Machine runs the reference.
type Machine struct {
	R      *Rules
	In     []Tk
	Events []Event
	Steps  int
	Max    int // give up behind so many steps (0: never)
	lens   map[*Node]int
}

type fatal struct{ o Out }
type tooLong struct{}

// Run matches n at pos. over is true when Max was reached.
func (m *Machine) Run(n *Node, pos int) (o Out, over bool) {
	m.lens = map[*Node]int{}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case fatal:
			o = e.o
		case tooLong:
			over = true
		default:
			panic(e)
		}
	}()
	return m.match(n, pos), false
}

func (n *Node) is(t Tk) bool {
	if n.Kw != "" {
		return t.Kind == KwKind && t.Lit == n.Kw
	}
	return t.Kind == n.Kind || t.Kind == tpl.INT && n.Kind == tpl.FLOAT
}

func (m *Machine) match(n *Node, pos int) Out {
	m.Steps++
	if m.Max > 0 && m.Steps > m.Max {
		panic(tooLong{})
	}
	ok := func(k int) Out { return Out{OK: true, N: k} }
	self := func() Out { return Out{Fail: &Fail{Node: n, Pos: pos}} }
	switch n.Op {
	case Tok:
		if pos < len(m.In) && n.is(m.In[pos]) {
			return ok(1)
		}
		return self()
	case True:
		return ok(0)
	case EOF:
		if pos == len(m.In) {
			return ok(0)
		}
		return self()
	case Ref:
		if m.R.Defs[n.Name] == nil { // never assigned
			return self()
		}
		return m.match(m.R.Defs[n.Name], pos)
	case Peek, Not:
		if m.match(n.Kids[0], pos).OK == (n.Op == Peek) {
			return ok(0)
		}
		return self()
	case Opt:
		o := m.match(n.Kids[0], pos)
		if !o.OK {
			m.lens[n] = 0
			return ok(0)
		}
		m.lens[n] = 1
		return o
	case And:
		k, cut := 0, false
		for i, kid := range n.Kids {
			if n.cut(i) {
				cut = true
			}
			o := m.match(kid, pos+k)
			if !o.OK {
				if cut {
					panic(fatal{Out{Fatal: true, Fail: &Fail{Node: n, Pos: pos, Idx: k + o.N, Err: o.Fail}}})
				}
				return Out{N: k + o.N, Fail: o.Fail}
			}
			k += o.N
		}
		return ok(k)
	case Or:
		best, tie := Out{}, true
		for _, kid := range n.Kids {
			o := m.match(kid, pos)
			if o.OK {
				return o
			}
			if o.N == best.N {
				tie = true
			} else if o.N > best.N {
				best, tie = o, false
			}
		}
		if tie {
			best.Fail = &Fail{Node: n, Pos: pos}
		}
		return best
	case Star, Plus:
		k, cnt := 0, 0
		for {
			o := m.match(n.Kids[0], pos+k)
			if !o.OK {
				if n.Op == Plus && cnt == 0 {
					m.lens[n] = 0
					return o
				}
				break
			}
			cnt++
			if o.N == 0 {
				break
			}
			k += o.N
		}
		m.lens[n] = cnt
		return ok(k)
	case List, List0:
		o := m.match(n.Kids[0], pos)
		if !o.OK {
			m.lens[n] = 0
			if n.Op == List0 {
				return ok(0)
			}
			return o
		}
		k, cnt := o.N, 1
		for {
			s := m.match(n.Kids[1], pos+k)
			if !s.OK {
				break
			}
			i := m.match(n.Kids[0], pos+k+s.N)
			if !i.OK {
				break
			}
			cnt++
			if s.N+i.N == 0 {
				break
			}
			k += s.N + i.N
		}
		m.lens[n] = cnt
		return ok(k)
	case Mark:
		o := m.match(n.Kids[0], pos)
		if o.OK {
			m.Events = append(m.Events, Event{What: 'a', Name: n.Name, From: pos, To: pos + o.N, Len: m.lenOf(n.Kids[0])})
		}
		return o
	case Trans:
		m.Events = append(m.Events, Event{What: '(', Name: n.Name})
		o := m.match(n.Kids[0], pos)
		m.Events = append(m.Events, Event{What: ')', Name: n.Name, OK: o.OK})
		return o
	}
	panic("bad node")
}

// lenOf is the number of items of the last match of n.
func (m *Machine) lenOf(n *Node) int {
	switch n.Op {
	case Star, Plus, Opt, List, List0:
		return m.lens[n]
	case And:
		c := len(n.Kids)
		for _, k := range n.Kids {
			if k.Name == "!" { // stands between two '!'
				c--
			}
		}
		for i := range n.Cut {
			if n.Cut[i] {
				c++
			}
		}
		return c
	case Or:
		return len(n.Kids)
	case Mark, Trans:
		return m.lenOf(n.Kids[0])
	}
	return -1
}

// ---------------------------------------------------------------------------
// building the real grammar

// Hooks receives the events of the real matcher.
type Hooks struct {
	Made  map[*Node]tpl.Grammar // filled if not nil
	Act   func(n *Node, toks []tpl.Token, g tpl.Grammar)
	Begin func(n *Node) interface{}
	End   func(n *Node, v interface{}, err error)
	Wrap  bool // every node becomes a grammar of the caller's own type
}

// own is a grammar defined outside of the library; its errors are its own, too.
type own struct{ g tpl.Grammar }

func (p *own) Match(src []tpl.Token, ctx tpl.Context) (n int, err error) {
	if n, err = p.g.Match(src, ctx); err != nil {
		return n, ownError(err.Error())
	}
	return
}
func (p *own) Marshal(b []byte, t tpl.Tokener, lvl int) []byte { return p.g.Marshal(b, t, lvl) }
func (p *own) Len() int                                        { return p.g.Len() }

type ownError string

func (e ownError) Error() string { return string(e) }

// Build makes real grammars with the exported constructors. Rules become
// variables when asVar is set, else references to rules defined before become
// named grammars.
func Build(r *Rules, kw func(string) uint, h *Hooks) map[string]tpl.Grammar {
	if h == nil {
		h = &Hooks{}
	}
	vars := map[string]*tpl.GrVar{}
	done := map[string]tpl.Grammar{}
	for _, n := range r.Names {
		g := build(r.Defs[n], vars, done, kw, h)
		done[n] = g
		if v := vars[n]; v != nil {
			if err := v.Assign(g); err != nil {
				panic(err)
			}
		}
	}
	return done
}

func build(n *Node, vars map[string]*tpl.GrVar, done map[string]tpl.Grammar, kw func(string) uint, h *Hooks) tpl.Grammar {
	g := build1(n, vars, done, kw, h)
	if h.Wrap {
		g = &own{g}
	}
	if h.Made != nil {
		h.Made[n] = g
	}
	return g
}

func build1(n *Node, vars map[string]*tpl.GrVar, done map[string]tpl.Grammar, kw func(string) uint, h *Hooks) tpl.Grammar {
	kid := func(i int) tpl.Grammar { return build(n.Kids[i], vars, done, kw, h) }
	switch n.Op {
	case Tok:
		if n.Kw != "" {
			return tpl.Gr(kw(n.Kw))
		}
		return tpl.Gr(n.Kind)
	case True:
		return tpl.GrTrue
	case EOF:
		return tpl.GrEOF
	case Ref:
		if g, ok := done[n.Name]; ok {
			return tpl.Named(n.Name, g)
		}
		v := vars[n.Name]
		if v == nil {
			v = tpl.Var(n.Name)
			vars[n.Name] = v
		}
		return v
	case Star:
		return tpl.Repeat0(kid(0))
	case Plus:
		return tpl.Repeat1(kid(0))
	case Opt:
		return tpl.Repeat01(kid(0))
	case Not:
		return tpl.Not(kid(0))
	case Peek:
		return tpl.Peek(kid(0))
	case And:
		var gs []tpl.Grammar
		for i := range n.Kids {
			if n.cut(i) {
				gs = append(gs, nil)
			}
			gs = append(gs, kid(i))
		}
		if n.cut(len(n.Kids)) {
			gs = append(gs, nil)
		}
		return tpl.And(gs...)
	case Or:
		var gs []tpl.Grammar
		for i := range n.Kids {
			gs = append(gs, kid(i))
		}
		return tpl.Or(gs...)
	case List:
		return tpl.List(kid(0), kid(1))
	case List0:
		return tpl.List0(kid(0), kid(1))
	case Mark:
		return tpl.Action(kid(0), func(toks []tpl.Token, g tpl.Grammar) { h.Act(n, toks, g) })
	case Trans:
		return tpl.Transaction(kid(0), func() interface{} { return h.Begin(n) }, func(v interface{}, err error) { h.End(n, v, err) })
	}
	panic("bad node")
}

// ---------------------------------------------------------------------------
// enumeration

// Alphabet says which operators trees are made of.
type Alphabet struct {
	Leaves []*Node
	Unary  []Op
	Binary []Op
	Nary   []Op // And, Or with 3 kids too
	Three  bool
}

// Enum lists all trees of exactly size nodes (memoized). Trees share subtrees.
func (a *Alphabet) Enum(size int) []*Node {
	memo := map[int][]*Node{}
	var gen func(s int) []*Node
	gen = func(s int) []*Node {
		if r, ok := memo[s]; ok {
			return r
		}
		var out []*Node
		if s == 1 {
			out = a.Leaves
		} else {
			for _, op := range a.Unary {
				for _, k := range gen(s - 1) {
					out = append(out, U(op, k))
				}
			}
			for _, op := range a.Binary {
				for i := 1; i <= s-2; i++ {
					for _, x := range gen(i) {
						for _, y := range gen(s - 1 - i) {
							out = append(out, B(op, x, y))
						}
					}
				}
			}
			if a.Three {
				for _, op := range []Op{And, Or} {
					for i := 1; i <= s-3; i++ {
						for j := 1; j <= s-2-i; j++ {
							for _, x := range gen(i) {
								for _, y := range gen(j) {
									for _, z := range gen(s - 1 - i - j) {
										out = append(out, B(op, x, y, z))
									}
								}
							}
						}
					}
				}
			}
		}
		memo[s] = out
		return out
	}
	return gen(size)
}

// Copy clones a tree so that each node is distinct.
func (n *Node) Copy() *Node {
	c := *n
	c.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = k.Copy()
	}
	if n.Cut != nil {
		c.Cut = append([]bool(nil), n.Cut...)
	}
	return &c
}

// Marked returns a copy with every node marked m0, m1, ... (and with every
// node in a transaction, if trans).
func (n *Node) Marked(trans bool) *Node {
	if trans {
		return n.MarkedAs("(m")
	}
	return n.MarkedAs("m")
}

// MarkedAs puts an action 'm' and a transaction '(' around every node; style lists them from the inside.
func (n *Node) MarkedAs(style string) *Node {
	i := 0
	var rec func(n *Node) *Node
	rec = func(n *Node) *Node {
		c := *n
		c.Kids = make([]*Node, len(n.Kids))
		for j, k := range n.Kids {
			c.Kids[j] = rec(k)
		}
		r := &c
		name := strconv.Itoa(i)
		i++
		for _, w := range style {
			if w == '(' {
				r = &Node{Op: Trans, Name: "t" + name, Kids: []*Node{r}}
			} else {
				r = &Node{Op: Mark, Name: "m" + name, Kids: []*Node{r}}
			}
		}
		return r
	}
	return rec(n)
}
