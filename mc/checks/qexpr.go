package checks

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/qref"

	"github.com/qiniu/text/tpl"
)

// lexOf tells whether lit is exactly one well-formed literal.
func lexOf(lit string) string {
	lx := lexref.Lex(lit, false, false)
	if lx.Malformed() || len(lx.Toks) != 2 || lx.Toks[0].End != len(lit) {
		return ""
	}
	switch lx.Toks[0].Kind {
	case tpl.STRING:
		return "s"
	case tpl.CHAR:
		return "c"
	}
	return ""
}

// eparser reads expressions by the precedence rules of the language.
type eparser struct {
	toks []string
	i    int
	open bool // not specified
}

type badSyntax struct{}

func (p *eparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *eparser) take(t string) bool {
	if p.peek() == t {
		p.i++
		return true
	}
	return false
}

func (p *eparser) need(t string) {
	if !p.take(t) {
		panic(badSyntax{})
	}
}

var elevels = [][]string{{"||"}, {"&&"}, {"<", ">", "<=", ">=", "==", "!="}, {"+", "-"}, {"*", "/", "%"}}

func (p *eparser) level(l int) *qref.N {
	if l == len(elevels) {
		return p.factor()
	}
	a := p.level(l + 1)
next:
	for _, op := range elevels[l] {
		if p.take(op) {
			a = qref.Bin(op, a, p.level(l+1))
			goto next
		}
	}
	return a
}

// items reads a comma-separated list up to a closing token.
func (p *eparser) items(closing string, item func()) {
	n := 0
	for p.peek() != closing {
		if p.peek() == "," && n == 0 {
			p.open = true
			p.i++
			p.need(closing)
			return
		}
		if p.peek() == "..." {
			return
		}
		item()
		n++
		if !p.take(",") {
			break
		}
		if p.peek() == "..." { // f(x, ...)
			panic(badSyntax{})
		}
	}
}

func isWord(t string) bool {
	return t != "" && (t[0] >= 'a' && t[0] <= 'z' || t[0] >= 'A' && t[0] <= 'Z')
}

func (p *eparser) factor() *qref.N {
	t := p.peek()
	switch {
	case t == "":
		panic(badSyntax{})
	case t == "!" || t == "-" || t == "+":
		p.i++
		return qref.Un(t, p.factor())
	case t[0] >= '0' && t[0] <= '9':
		p.i++
		if strings.Contains(t, ".") {
			f, _ := strconv.ParseFloat(t, 64)
			return qL(f)
		}
		n, _ := strconv.Atoi(t)
		return qL(n)
	case t[0] == '"':
		p.i++
		return qL(t[1 : len(t)-1])
	case t == "{":
		p.i++
		m := &qref.N{Op: "map"}
		p.items("}", func() {
			k := p.level(0)
			p.need(":")
			m.K = append(m.K, k, p.level(0))
		})
		p.need("}")
		return m
	}
	var a *qref.N
	switch {
	case t == "(":
		p.i++
		a = p.level(0)
		p.need(")")
	case t == "[":
		p.i++
		a = &qref.N{Op: "list"}
		p.items("]", func() { a.K = append(a.K, p.level(0)) })
		p.need("]")
	case t == "fn":
		p.i++
		a = p.fn()
	case isWord(t):
		p.i++
		a = qV(t)
	default:
		panic(badSyntax{})
	}
	for {
		switch {
		case p.take("("):
			c := &qref.N{Op: "call", K: []*qref.N{a}}
			p.items(")", func() { c.K = append(c.K, p.level(0)) })
			if p.take("...") {
				c.Flag = true
				p.take(",")
			}
			p.need(")")
			a = c
		case p.take("."):
			if !isWord(p.peek()) || p.peek() == "fn" {
				panic(badSyntax{})
			}
			a = qref.Mem(a, p.peek())
			p.i++
		case p.take("["):
			var i, j *qref.N
			if p.peek() != "]" && p.peek() != ":" {
				i = p.level(0)
			}
			if p.take(":") {
				if p.peek() != "]" {
					j = p.level(0)
				}
				a = qref.Sub(a, i, j)
			} else if i == nil {
				if p.peek() != "]" {
					j = p.level(0)
				}
				a = &qref.N{Op: "index", K: []*qref.N{a, qref.CallN("len")}}
			} else {
				if p.peek() != "]" { // x[1 2] is let through by the grammar
					j = p.level(0)
					p.open = true
				}
				a = qref.Index(a, i)
			}
			p.need("]")
		default:
			return a
		}
	}
}

func (p *eparser) fn() *qref.N {
	f := &qref.N{Op: "fn", Blk: [][]*qref.N{nil}}
	p.need("(")
	for isWord(p.peek()) && p.peek() != "fn" {
		f.Names = append(f.Names, p.peek())
		p.i++
		if !p.take(",") {
			break
		}
		if !isWord(p.peek()) || p.peek() == "fn" {
			panic(badSyntax{})
		}
	}
	f.Flag = p.take("...")
	p.need(")")
	p.need("{")
	if p.peek() != "}" {
		f.Blk[0] = qref.B(p.level(0))
	}
	p.need("}")
	if f.Flag && len(f.Names) == 0 {
		p.open = true // fn(...) declares nothing
	}
	return f
}

func parseExpr(toks []string) (n *qref.N, open bool) {
	p := &eparser{toks: toks}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(badSyntax); !ok {
				panic(e)
			}
			n, open = nil, p.open
		}
	}()
	n = p.level(0)
	if p.i < len(toks) {
		return nil, p.open
	}
	return n, p.open
}

func qexprHead() []*qref.N {
	return []*qref.N{
		qref.Set("tt", qL(true)), qref.Set("ff", qL(false)), qref.Set("x", qref.List(qL(7), qL(2), qL(9))),
		qref.Set("f", qref.Fn("a", true, qref.Ret(qV("a")))),
		qref.Set("m", qref.Map(qL("a"), qV("f"), qL("b"), qL(3))),
	}
}

// qexpr decides one token string of an expression.
func qexpr(c *core.C, toks []string) {
	c.Do(func() string { return clip(strings.Join(toks, " ")) }, func() string {
		n, open := parseExpr(toks)
		if open {
			return ""
		}
		src := qref.Text(qexprHead(), false) + "; r = " + strings.Join(toks, " ")
		c.AddTrace(1)
		if n == nil {
			c.AddStates(1)
			c.AddTransitions(1)
			c.Outcome("malformed")
			kind, text := qshow(qget(false), src)
			if kind != "error" {
				qpool[0] = nil
				return fmt.Sprintf("malformed source ends with %s %q", kind, text)
			}
			return ""
		}
		prog := append(qexprHead(), qref.Set("r", n))
		m := qref.NewMachine()
		m.Max = 100000
		out := m.Run(prog)
		if out.Over {
			return ""
		}
		c.AddStates(m.Steps)
		c.AddTransitions(m.Steps)
		if out.Kind == "ok" {
			c.Nontrivial(1)
			c.Outcome(qref.Describe(m.Top.Vars()["r"], nil))
		}
		if msg := qcompare(qget(false), src, m, out); msg != "" {
			qpool[0] = nil
			if msg = qcompare(qnew(false), src, m, out); msg != "" {
				return msg
			}
		}
		return ""
	})
}
