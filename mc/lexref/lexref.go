// Package lexref is an independent reference lexer for the TPL lexical
// grammar. It is written over the whole source text with longest-match
// patterns, not as a port of the scanner's state machine.
package lexref

import (
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
)

// Tok is a token of the reference.
type Tok struct {
	Kind uint
	Off  int
	End  int // end offset of the source text it stands for (Off for inserted tokens)
	Lit  string
	Auto bool // automatically inserted semicolon
	Bad  bool // malformed
}

// Res is the result of lexing a source.
type Res struct {
	Toks   []Tok // includes EOF
	BadCh  []int // offsets of NUL, invalid UTF-8, stray BOM
	BadCom int   // offset of an unterminated comment, or -1
}

// Malformed tells whether the source has a lexical error.
func (r *Res) Malformed() bool {
	if len(r.BadCh) > 0 || r.BadCom >= 0 {
		return true
	}
	for _, t := range r.Toks {
		if t.Bad {
			return true
		}
	}
	return false
}

// Operators maps every operator to its token kind.
var Operators = map[string]uint{
	"+": tpl.ADD, "-": tpl.SUB, "*": tpl.MUL, "/": tpl.QUO, "%": tpl.REM,
	"&": tpl.AND, "|": tpl.OR, "^": tpl.XOR, "<": tpl.LT, ">": tpl.GT, "=": tpl.ASSIGN, "!": tpl.NOT,
	"(": tpl.LPAREN, "[": tpl.LBRACK, "{": tpl.LBRACE, ",": tpl.COMMA, ".": tpl.PERIOD,
	")": tpl.RPAREN, "]": tpl.RBRACK, "}": tpl.RBRACE, ";": tpl.SEMICOLON, ":": tpl.COLON,
	"?": tpl.QUESTION, "~": tpl.TILDE, "@": tpl.AT,
	"<<": tpl.SHL, ">>": tpl.SHR, "&^": tpl.AND_NOT,
	"+=": tpl.ADD_ASSIGN, "-=": tpl.SUB_ASSIGN, "*=": tpl.MUL_ASSIGN, "/=": tpl.QUO_ASSIGN, "%=": tpl.REM_ASSIGN,
	"&=": tpl.AND_ASSIGN, "|=": tpl.OR_ASSIGN, "^=": tpl.XOR_ASSIGN,
	"<<=": tpl.SHL_ASSIGN, ">>=": tpl.SHR_ASSIGN, "&^=": tpl.AND_NOT_ASSIGN,
	"&&": tpl.LAND, "||": tpl.LOR, "<-": tpl.ARROW, "++": tpl.INC, "--": tpl.DEC,
	"==": tpl.EQ, "!=": tpl.NE, "<=": tpl.LE, ">=": tpl.GE, ":=": tpl.DEFINE, "...": tpl.ELLIPSIS,
}

var endsLine = map[uint]bool{
	tpl.IDENT: true, tpl.INT: true, tpl.FLOAT: true, tpl.IMAG: true, tpl.CHAR: true, tpl.STRING: true,
	tpl.RPAREN: true, tpl.RBRACK: true, tpl.RBRACE: true, tpl.INC: true, tpl.DEC: true,
}

var (
	reHex   = regexp.MustCompile(`^0[xX][0-9a-fA-F]*`)
	reNum   = regexp.MustCompile(`^(?:[0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]*)?(i)?`)
	reOctal = regexp.MustCompile(`^0[0-7]*$`)
)

const bomStr = "\uFEFF"

func isLetter(r rune) bool {
	return r == '_' || (r < 0x80 && (r|0x20 >= 'a' && r|0x20 <= 'z')) || (r >= 0x80 && unicode.IsLetter(r))
}

func isDigit(r rune) bool {
	return (r >= '0' && r <= '9') || (r >= 0x80 && unicode.IsDigit(r))
}

func noCR(s string) string { return strings.ReplaceAll(s, "\r", "") }

// generalEnd returns the end of the general comment at off and whether it is terminated.
func generalEnd(src string, off int) (int, bool) {
	i := strings.Index(src[off+2:], "*/")
	if i < 0 {
		return len(src), false
	}
	return off + 2 + i + 2, true
}

func lineEnd(src string, off int) int {
	if i := strings.IndexByte(src[off:], '\n'); i >= 0 {
		return off + i
	}
	return len(src)
}

// lineEndsHere: starting at off there is nothing but blanks and comments until the end of the line.
func lineEndsHere(src string, off int) bool {
	for {
		for off < len(src) && strings.IndexByte(" \t\r", src[off]) >= 0 {
			off++
		}
		switch {
		case off >= len(src), src[off] == '\n', src[off] == '#', strings.HasPrefix(src[off:], "//"):
			return true
		case strings.HasPrefix(src[off:], "/*"):
			end, _ := generalEnd(src, off)
			if strings.IndexByte(src[off:end], '\n') >= 0 {
				return true
			}
			off = end
		default:
			return false
		}
	}
}

// escape parses the escape sequence behind a backslash; it returns the end of
// what belongs to it and whether it is valid.
func escape(src string, off int, quote byte) (int, bool) {
	if off >= len(src) {
		return off, false
	}
	c := src[off]
	if strings.IndexByte(`abfnrtv\`, c) >= 0 || c == quote {
		return off + 1, true
	}
	digits := func(at, n int, set string) (int, uint64, bool) {
		i := at
		for i < len(src) && i-at < n && strings.IndexByte(set, src[i]) >= 0 {
			i++
		}
		if i-at < n {
			return i, 0, false
		}
		base := 16
		if len(set) == 8 {
			base = 8
		}
		v, _ := strconv.ParseUint(src[at:i], base, 64)
		return i, v, true
	}
	const hex = "0123456789abcdefABCDEF"
	switch {
	case c >= '0' && c <= '7':
		e, v, ok := digits(off, 3, "01234567")
		return e, ok && v <= 255
	case c == 'x':
		e, _, ok := digits(off+1, 2, hex)
		return e, ok
	case c == 'u':
		e, v, ok := digits(off+1, 4, hex)
		return e, ok && !(v >= 0xD800 && v < 0xE000)
	case c == 'U':
		e, v, ok := digits(off+1, 8, hex)
		return e, ok && v <= 0x10FFFF && !(v >= 0xD800 && v < 0xE000)
	}
	return off, false
}

// quoted scans a quoted literal at off; n is the number of characters.
func quoted(src string, off int, quote byte) (end, n int, ok bool) {
	i := off + 1
	ok = true
	for {
		if i >= len(src) || src[i] == '\n' {
			return i, n, false
		}
		if src[i] == quote {
			return i + 1, n, ok
		}
		n++
		if src[i] == '\\' {
			e, good := escape(src, i+1, quote)
			ok = ok && good
			i = e
			continue
		}
		_, w := utf8.DecodeRuneInString(src[i:])
		i += w
	}
}

// Lex tokenizes src.
func Lex(src string, comments, semis bool) *Res {
	res := &Res{BadCom: -1}
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		if src[i] == 0 || (r == utf8.RuneError && w == 1) || (r == 0xFEFF && i > 0) {
			res.BadCh = append(res.BadCh, i)
		}
		i += w
	}
	off := 0
	if strings.HasPrefix(src, bomStr) {
		off = len(bomStr)
	}
	pending := false
	emit := func(t Tok) {
		res.Toks = append(res.Toks, t)
		off = t.End
	}
	for {
		for off < len(src) && (strings.IndexByte(" \t\r", src[off]) >= 0 || src[off] == '\n' && !pending) {
			off++
		}
		rest := src[off:]
		if pending {
			if rest == "" || rest[0] == '\n' {
				t := Tok{Kind: tpl.SEMICOLON, Off: off, End: off, Lit: "\n", Auto: true}
				if rest != "" {
					t.End = off + 1
				}
				emit(t)
				pending = false
				continue
			}
			if rest[0] == '#' || strings.HasPrefix(rest, "//") || strings.HasPrefix(rest, "/*") && lineEndsHere(src, off) {
				emit(Tok{Kind: tpl.SEMICOLON, Off: off, End: off, Lit: "\n", Auto: true})
				pending = false
				continue
			}
		}
		if rest == "" {
			emit(Tok{Kind: tpl.EOF, Off: off, End: off})
			return res
		}
		// comments
		if rest[0] == '#' || strings.HasPrefix(rest, "//") || strings.HasPrefix(rest, "/*") {
			end, ok := 0, true
			if strings.HasPrefix(rest, "/*") {
				end, ok = generalEnd(src, off)
				if !ok {
					res.BadCom = off
				}
			} else {
				end = lineEnd(src, off)
			}
			lit := src[off:end]
			if rest[0] == '/' {
				lit = noCR(lit)
			}
			pending = false
			if comments {
				emit(Tok{Kind: tpl.COMMENT, Off: off, End: end, Lit: lit, Bad: !ok})
			} else {
				off = end
			}
			continue
		}
		t := Tok{Off: off}
		r, w := utf8.DecodeRuneInString(rest)
		switch {
		case isLetter(r):
			e := off
			for e < len(src) {
				r, w := utf8.DecodeRuneInString(src[e:])
				if !isLetter(r) && !isDigit(r) {
					break
				}
				e += w
			}
			t.Kind, t.End = tpl.IDENT, e
		case reHex.MatchString(rest):
			n := len(reHex.FindString(rest))
			t.Kind, t.End, t.Bad = tpl.INT, off+n, n <= 2
		case rest[0] >= '0' && rest[0] <= '9' || rest[0] == '.' && len(rest) > 1 && rest[1] >= '0' && rest[1] <= '9':
			m := reNum.FindStringSubmatch(rest)
			t.End = off + len(m[0])
			exp, imag := m[2], m[3]
			t.Kind = tpl.INT
			if m[1] != "" || exp != "" || rest[0] == '.' {
				t.Kind = tpl.FLOAT
			} else if imag == "" && m[0][0] == '0' && !reOctal.MatchString(m[0]) {
				t.Bad = true
			}
			if exp != "" && strings.IndexByte("eE+-", exp[len(exp)-1]) >= 0 {
				t.Bad = true
			}
			if imag != "" {
				t.Kind = tpl.IMAG
			}
		case rest[0] == '"':
			e, _, ok := quoted(src, off, '"')
			t.Kind, t.End, t.Bad = tpl.STRING, e, !ok
		case rest[0] == '\'':
			e, n, ok := quoted(src, off, '\'')
			t.Kind, t.End, t.Bad = tpl.CHAR, e, !ok || n != 1
		case rest[0] == '`':
			i := strings.IndexByte(rest[1:], '`')
			t.Kind = tpl.STRING
			if i < 0 {
				t.End, t.Bad = len(src), true
			} else {
				t.End = off + 1 + i + 1
			}
			t.Lit = noCR(src[off:t.End])
		default:
			for n := 3; n >= 1; n-- {
				if n <= len(rest) {
					if k, ok := Operators[rest[:n]]; ok {
						t.Kind, t.End = k, off+n
						break
					}
				}
			}
			if t.End == 0 {
				t.Kind, t.End, t.Bad = tpl.ILLEGAL, off+w, true
				t.Lit = string(r)
			}
		}
		switch t.Kind {
		case tpl.IDENT, tpl.INT, tpl.FLOAT, tpl.IMAG, tpl.CHAR:
			t.Lit = src[off:t.End]
		case tpl.STRING:
			if t.Lit == "" {
				t.Lit = src[off:t.End]
			}
		case tpl.SEMICOLON:
			t.Lit = ";"
		}
		if semis && t.Kind != tpl.ILLEGAL {
			pending = endsLine[t.Kind]
		}
		emit(t)
	}
}
