package peg

import (
	"fmt"
	"strconv"

	"verif/mc/lexref"

	"github.com/qiniu/text/tpl"
)

func init() {
	for op, k := range lexref.Operators {
		OpText[k] = op
	}
	KindText[tpl.EOF] = "EOF"
}

// BadGrammar says why a grammar text is not well-formed.
type BadGrammar struct {
	Syntax bool // not even the syntax
	Msg    string
}

func (e *BadGrammar) Error() string { return e.Msg }

// Names of operators that can be used as tokens in grammar texts.
var OpNames = map[string]string{"ADD": "+", "SUB": "-", "MUL": "*", "QUO": "/", "REM": "%", "AND": "&", "OR": "|", "XOR": "^", "LT": "<", "GT": ">", "ASSIGN": "=", "NOT": "!",
	"LPAREN": "(", "LBRACK": "[", "LBRACE": "{", "COMMA": ",", "PERIOD": ".", "RPAREN": ")", "RBRACK": "]", "RBRACE": "}", "SEMICOLON": ";", "COLON": ":", "QUESTION": "?", "TILDE": "~", "AT": "@",
	"SHL": "<<", "SHR": ">>", "AND_NOT": "&^", "ADD_ASSIGN": "+=", "SUB_ASSIGN": "-=", "MUL_ASSIGN": "*=", "QUO_ASSIGN": "/=", "REM_ASSIGN": "%=", "AND_ASSIGN": "&=", "OR_ASSIGN": "|=", "XOR_ASSIGN": "^=",
	"SHL_ASSIGN": "<<=", "SHR_ASSIGN": ">>=", "AND_NOT_ASSIGN": "&^=", "LAND": "&&", "LOR": "||", "ARROW": "<-", "INC": "++", "DEC": "--", "EQ": "==", "NE": "!=", "LE": "<=", "GE": ">=", "DEFINE": ":=", "ELLIPSIS": "..."}

var classNames = map[string]uint{"EOF": tpl.EOF, "COMMENT": tpl.COMMENT, "IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING}

type reader struct {
	toks []lexref.Tok
	i    int
	lone bool // an alternative holds nothing but one '!'
}

// Parse reads a grammar text. lone reports a '!' that is an alternative of its
// own, which has no meaning.
func Parse(src string) (r *Rules, lone bool, bad *BadGrammar) {
	lx := lexref.Lex(src, false, true)
	if lx.Malformed() {
		return nil, false, &BadGrammar{true, "lexical error"}
	}
	p := &reader{toks: lx.Toks}
	defer func() {
		if e := recover(); e != nil {
			if b, ok := e.(*BadGrammar); ok {
				r, bad = nil, b
				return
			}
			panic(e)
		}
	}()
	r = p.doc()
	return r, p.lone, nil
}

func (p *reader) cur() lexref.Tok { return p.toks[p.i] }

func (p *reader) op(op string) bool { return p.cur().Kind == lexref.Operators[op] }

func (p *reader) fail(format string, a ...interface{}) {
	panic(&BadGrammar{true, fmt.Sprintf(format, a...)})
}

func (p *reader) doc() *Rules {
	r := &Rules{Defs: map[string]*Node{}}
	var semantic *BadGrammar
	for {
		if p.cur().Kind != tpl.IDENT {
			p.fail("rule name expected")
		}
		name := p.cur().Lit
		p.i++
		if !p.op("=") {
			p.fail("'=' expected")
		}
		p.i++
		n := p.or()
		if !p.op(";") {
			p.fail("';' expected")
		}
		p.i++
		if r.Defs[name] != nil && semantic == nil {
			semantic = &BadGrammar{false, "rule " + name + " defined twice"}
		}
		r.Names = append(r.Names, name)
		r.Defs[name] = n
		if p.cur().Kind == tpl.EOF {
			break
		}
	}
	// names: a class or operator name is a token, "true" without definition (before) is 1
	defined := map[string]bool{}
	referenced := map[string]bool{}
	for _, name := range r.Names {
		r.Defs[name].Walk(func(k *Node) {
			switch {
			case k.Op == Tok && k.Kind == tpl.ILLEGAL && k.Kw == "":
				if semantic == nil {
					semantic = &BadGrammar{false, "unknown token " + k.Name}
				}
			case k.Op == Ref && k.Name == "true" && !defined["true"] && !referenced["true"]:
				k.Op = True
			case k.Op == Ref:
				referenced[k.Name] = true
			}
		})
		defined[name] = true
	}
	if semantic == nil && r.Defs["doc"] == nil {
		semantic = &BadGrammar{false, "no doc"}
	}
	if semantic == nil {
		if u := r.Undefined(); len(u) > 0 {
			semantic = &BadGrammar{false, "undefined rule " + u[0]}
		}
	}
	if semantic != nil {
		panic(semantic)
	}
	return r
}

func (p *reader) or() *Node {
	alts := []*Node{p.and()}
	for p.op("|") {
		p.i++
		alts = append(alts, p.and())
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return B(Or, alts...)
}

func (p *reader) and() *Node {
	var kids []*Node
	cut := []bool{false}
	total := 0
	any := false
	for {
		if p.op("!") {
			p.i++
			total++
			if cut[len(kids)] {
				// repeated '!' has no further meaning, but it counts as an item
				kids = append(kids, &Node{Op: True, Name: "!"})
				cut = append(cut, false)
			}
			cut[len(kids)] = true
			any = true
			continue
		}
		n := p.term()
		if n == nil {
			break
		}
		total++
		kids = append(kids, n)
		cut = append(cut, false)
	}
	if total == 0 {
		p.fail("term expected")
	}
	if total == 1 {
		if any {
			p.lone = true
			return &Node{Op: True}
		}
		return kids[0]
	}
	r := B(And, kids...)
	if any {
		r.Cut = cut
	}
	return r
}

func (p *reader) term() *Node {
	n := p.factor()
	if n == nil {
		return nil
	}
	for {
		switch {
		case p.op("%") || p.op("%="):
			op := List
			if p.op("%=") {
				op = List0
			}
			p.i++
			b := p.factor()
			if b == nil {
				p.fail("factor expected")
			}
			n = B(op, n, b)
		case p.op("/"):
			p.i++
			if p.cur().Kind != tpl.IDENT {
				p.fail("mark expected")
			}
			n = M(n, p.cur().Lit)
			p.i++
		default:
			return n
		}
	}
}

func (p *reader) factor() *Node {
	t := p.cur()
	switch t.Kind {
	case tpl.IDENT:
		p.i++
		if c := t.Lit[0]; c >= 'A' && c <= 'Z' {
			if t.Lit == "EOF" {
				return &Node{Op: EOF}
			}
			if k, ok := classNames[t.Lit]; ok {
				return T(k)
			}
			if op, ok := OpNames[t.Lit]; ok {
				return T(lexref.Operators[op])
			}
			return &Node{Op: Tok, Kind: tpl.ILLEGAL, Name: t.Lit}
		}
		return R(t.Lit)
	case tpl.CHAR, tpl.STRING:
		p.i++
		body := t.Lit[1 : len(t.Lit)-1]
		if k, ok := lexref.Operators[body]; ok && (t.Kind == tpl.CHAR) == (len(body) == 1) && t.Lit[0] != '`' {
			return T(k)
		}
		if t.Lit[0] == '"' {
			if body == "" {
				body = "\x00"
			}
			return &Node{Op: Tok, Kw: body}
		}
		return &Node{Op: Tok, Kind: tpl.ILLEGAL, Name: t.Lit}
	case tpl.INT:
		p.i++
		if t.Lit != "1" {
			return &Node{Op: Tok, Kind: tpl.ILLEGAL, Name: t.Lit}
		}
		return &Node{Op: True}
	}
	for s, op := range map[string]Op{"*": Star, "+": Plus, "?": Opt, "~": Not, "@": Peek} {
		if p.op(s) {
			p.i++
			k := p.factor()
			if k == nil {
				p.fail("factor expected")
			}
			return U(op, k)
		}
	}
	if p.op("(") {
		p.i++
		n := p.or()
		if !p.op(")") {
			p.fail("')' expected")
		}
		p.i++
		return n
	}
	return nil
}

// Unquote is used for keyword texts.
func Unquote(s string) string {
	if u, err := strconv.Unquote(s); err == nil {
		return u
	}
	return s
}
