package checks

import (
	"fmt"
	"go/token"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"verif/mc/core"
	"verif/mc/lexref"

	"github.com/qiniu/text/tpl"
)

// ---------------------------------------------------------------------------
// driving the real scanner

type scanRes struct {
	toks  []tpl.Token // through the first EOF
	errs  []token.Position
	msgs  []string
	count int
	file  *token.File
	after []tpl.Token // tokens scanned behind EOF
	s     *tpl.Scanner
}

func scanWith(s *tpl.Scanner, src string, mode tpl.ScanMode, fname string, pad int) (r *scanRes, msg string) {
	fset := token.NewFileSet()
	if pad > 0 {
		fset.AddFile("pad", -1, pad)
	}
	r = &scanRes{s: s, file: fset.AddFile(fname, -1, len(src))}
	s.Init(r.file, []byte(src), func(pos token.Position, m string) {
		r.errs = append(r.errs, pos)
		r.msgs = append(r.msgs, m)
	}, mode)
	max := 2*len(src) + 4
	for {
		t := s.Scan()
		r.toks = append(r.toks, t)
		if t.Kind == tpl.EOF {
			break
		}
		if len(r.toks) > max {
			return r, fmt.Sprintf("scanner makes no progress: %d tokens out of %d bytes", len(r.toks), len(src))
		}
	}
	for i := 0; i < 3; i++ {
		r.after = append(r.after, s.Scan())
	}
	r.count = s.ErrorCount
	return r, ""
}

func modeOf(comments, semis bool) (m tpl.ScanMode) {
	if comments {
		m |= tpl.ScanComments
	}
	if semis {
		m |= tpl.InsertSemis
	}
	return
}

// kindName names a token kind without the repository's own table.
func kindName(k uint) string {
	switch k {
	case tpl.ILLEGAL:
		return "ILLEGAL"
	case tpl.EOF:
		return "EOF"
	case tpl.COMMENT:
		return "COMMENT"
	case tpl.IDENT:
		return "IDENT"
	case tpl.INT:
		return "INT"
	case tpl.FLOAT:
		return "FLOAT"
	case tpl.IMAG:
		return "IMAG"
	case tpl.CHAR:
		return "CHAR"
	case tpl.STRING:
		return "STRING"
	}
	for op, kk := range lexref.Operators {
		if kk == k {
			return "`" + op + "`"
		}
	}
	return "#" + strconv.Itoa(int(k))
}

func fmtToks(ts []tpl.Token, base int) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s@%d%q", kindName(t.Kind), int(t.Pos)-base, clip(t.Literal))
	}
	return clip(b.String())
}

func fmtRef(ts []lexref.Tok) string {
	var b strings.Builder
	for i, t := range ts {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%s@%d%q", kindName(t.Kind), t.Off, clip(t.Lit))
	}
	return clip(b.String())
}

// cmpTokens compares the real token stream with the reference.
func cmpTokens(r *scanRes, ref *lexref.Res) string {
	base := r.file.Base()
	bad := len(r.toks) != len(ref.Toks)
	for i := 0; !bad && i < len(r.toks); i++ {
		t, w := r.toks[i], ref.Toks[i]
		bad = t.Kind != w.Kind || int(t.Pos)-base != w.Off || t.Literal != w.Lit
	}
	if bad {
		return fmt.Sprintf("tokens differ\n  scanner:   %s\n  reference: %s", fmtToks(r.toks, base), fmtRef(ref.Toks))
	}
	return ""
}

type lexMode struct{ comments, semis bool }

var lexModes = []lexMode{{false, false}, {true, false}, {false, true}, {true, true}}

func (m lexMode) String() string {
	s := ""
	if m.comments {
		s += "+comments"
	}
	if m.semis {
		s += "+semis"
	}
	if s == "" {
		s = "plain"
	}
	return s
}

// lexCase offers a source in the given modes; only well-formed sources are compared.
func lexCase(c *core.C, src string, modes []lexMode, sc *tpl.Scanner) {
	c.Do(func() string { return core.Q(clip(src)) }, func() string {
		for _, m := range modes {
			ref := lexref.Lex(src, m.comments, m.semis)
			if ref.Malformed() {
				return ""
			}
			r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), "f", 0)
			if msg == "" {
				msg = cmpTokens(r, ref)
			}
			if msg == "" && (r.count != 0 || len(r.errs) != 0) {
				msg = fmt.Sprintf("error reported for a well-formed source: %v", r.msgs)
			}
			if msg != "" {
				return m.String() + ": " + msg
			}
			c.AddTransitions(len(r.toks))
			c.AddStates(len(src) + 1)
		}
		c.AddTrace(1)
		ref := lexref.Lex(src, true, true)
		if len(ref.Toks) > 2 {
			c.Nontrivial(1)
		}
		if len(ref.Toks) < 8 {
			var b strings.Builder
			for _, t := range ref.Toks {
				b.WriteString(kindName(t.Kind))
			}
			c.Outcome(b.String())
		}
		return ""
	})
}

var (
	opAtoms  = strings.Split("+ - * % & | ^ < > = ! . : / 1", " ")
	allAtoms = []string{"a", "_b1", "é", "0", "7", "1.5", ".5", "1e3", "2i", "0x1F", "'a'", `'\n'`, `'\''`, `"s"`, `"\""`, "`r`", "`a\r\nb`",
		"+", "++", "+=", "-", "--", "-=", "*", "*=", "/", "/=", "%", "%=", "&", "&&", "&=", "&^", "&^=", "|", "||", "|=", "^", "^=",
		"<", "<=", "<<", "<<=", "<-", ">", ">=", ">>", ">>=", "=", "==", "!", "!=", ":", ":=", ".", "...", ",", ";", "(", ")", "[", "]", "{", "}",
		"?", "~", "@", " ", "\t", "\r", "\n", "//c\n", "/*c*/", "/*\n*/", "#c\n", "# ", "世"}
	numAtoms   = []string{"0", "1", "7", "8", "9", "a", "F", "x", "X", ".", "e", "E", "+", "-", "i"}
	numAtoms2  = []string{"0", "1", "8", ".", "e", "+", "i", "x", "f"}
	quoteAtoms = []string{`"`, `'`, `\`, "a", "n", "x", "0", "3", "7", "8", "u", "D", "\n", "\r", "é", "`"}
	comAtoms   = []string{"/", "*", "#", "\n", " ", "a", "\r", ";", "+", ")"}
)

func init() {
	core.Register(&core.Check{
		ID:   "C01",
		Rule: "a case is one source text scanned in the plain and comment-returning modes; the enumeration covers all concatenations of the listed atoms up to a length; non-trivial: well-formed with at least two tokens before EOF",
		Assumptions: []string{"the reference lexer in mc/lexref (regular expressions and longest match over an operator table) is the specification of the lexical grammar",
			"only well-formed sources are compared token by token; malformed ones belong to C02 and C04"},
		Run: runC01,
	})
	core.Register(&core.Check{
		ID:   "C02",
		Rule: "a case is one byte string scanned in all four modes; non-trivial: it holds a byte that starts no token, or a malformed token, or more than one token",
		Run:  runC02,
	})
	core.Register(&core.Check{
		ID:          "C03",
		Rule:        "a case is one source text scanned with and without InsertSemis and ScanComments; non-trivial: at least one semicolon is inserted",
		Assumptions: []string{"reference: a newline, a line comment or the end of input ends a line; general comments count as blanks unless they hold a newline"},
		Run:         runC03,
	})
	core.Register(&core.Check{
		ID:   "C04",
		Rule: "a case is one source text; non-trivial: it is malformed",
		Assumptions: []string{"an error is located when its offset lies inside a malformed token or at a malformed character",
			"the number of reports per malformed token is not fixed (at least one)"},
		Run: runC04,
	})
	core.Register(&core.Check{
		ID:   "C05",
		Rule: "a case is one well-formed source text; for every token its line, column, file name, end and the source text of every token range are compared; non-trivial: more than one line or a //line comment",
		Run:  runC05,
	})
	core.Register(&core.Check{
		ID:   "C06",
		Rule: "a case is one token kind, one literal, or one sequence of keyword registrations and scanned identifiers; non-trivial: all",
		Run:  runC06,
	})
}

func runC01(c *core.C) {
	plain := []lexMode{{false, false}, {true, false}}
	sc := new(tpl.Scanner)
	add := func(s string) { lexCase(c, s, plain, sc) }
	c.Family("operators: all strings over " + core.Join(opAtoms, ""))
	eachString(c, opAtoms, 0, c.Pick(5, 6), add)
	c.Family("all lexemes, sequences")
	eachString(c, allAtoms, 1, c.Pick(3, 3), add)
	if c.Thorough() {
		c.Family("all lexemes, quadruples over a third")
		eachString(c, []string{"a", "0", "1.5", ".5", "2i", "'a'", `"s"`, "`r`", "+", "++", "&^", "<<", "<-", "=", ".", "...", ";", "(", ")", "?", " ", "\n", "//c\n", "/*c*/", "#c\n"}, 4, 4, add)
	}
	c.Family("numbers: all strings over " + core.Join(numAtoms, ""))
	eachString(c, numAtoms, 1, c.Pick(5, 6), add)
	c.Family("numbers: longer strings over " + core.Join(numAtoms2, ""))
	eachString(c, numAtoms2, 6, c.Pick(6, 8), add)
	c.Family("quoted literals: all strings over " + core.Q(core.Join(quoteAtoms, "")))
	eachString(c, quoteAtoms, 1, c.Pick(5, 6), add)
	c.Family("comments: all strings over " + core.Q(core.Join(comAtoms, "")))
	eachString(c, comAtoms, 1, c.Pick(6, 7), add)
	c.Family("escape sequences: every value")
	for v := 0; v < 0400; v++ {
		for _, q := range []string{"'", `"`} {
			add(fmt.Sprintf(`%s\%03o%s`, q, v, q))
			add(fmt.Sprintf(`%s\x%02x%s`, q, v, q))
			add(fmt.Sprintf(`%s\x%02X%s`, q, v, q))
		}
	}
	for v := 0; v < 0x10000; v += 1 {
		add(fmt.Sprintf(`'\u%04x'`, v))
	}
	for v := 0; v <= 0x110000; v += 0x3ff {
		add(fmt.Sprintf(`"\U%08x"`, v))
		add(fmt.Sprintf(`'\U%08X'`, v))
	}
	c.Family("every byte alone, every printable character inside a literal, every rune of planes 0-1 in an identifier")
	for b := 0; b < 128; b++ {
		add(string([]byte{byte(b)}))
		add("a" + string([]byte{byte(b)}) + "b")
		add(`"` + string([]byte{byte(b)}) + `"`)
		add(`'` + string([]byte{byte(b)}) + `'`)
		add("`" + string([]byte{byte(b)}) + "`")
		add("/*" + string([]byte{byte(b)}) + "*/")
		add("//" + string([]byte{byte(b)}) + "\n1")
		add("#" + string([]byte{byte(b)}) + "\n1")
		add("1" + string([]byte{byte(b)}))
	}
	step := c.Pick(7, 1)
	for r := rune(0x80); r < 0x20000; r += rune(step) {
		if r >= 0xD800 && r < 0xE000 {
			continue
		}
		add("x" + string(r) + "y")
		add(string(r))
		add("'" + string(r) + "'")
	}
	for _, r := range []rune{0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10fffe, 0x10ffff, 0x2028, 0x85, 0xa0, 0xad, 0x200b, 0x3000} {
		for _, ctx := range [][2]string{{"", ""}, {"a", "b"}, {"'", "'"}, {`"`, `"`}, {"`", "`"}, {"/*", "*/"}, {"//", "\n1"}, {"#", "\n1"}, {"1", ""}, {`"\n`, `\n"`}, {"'\\", "'"}} {
			add(ctx[0] + string(r) + ctx[1])
			add(ctx[0] + string(r) + string(r) + ctx[1])
		}
	}
	c.Family("two-digit numbers followed by every byte")
	for i := 0; i < 256; i++ {
		for _, p := range []string{"0", "1", "07", "08", "12", "0x", "0xg", "1.", "1e", "1e+", ".1", "1.e1", "0i"} {
			add(p + string(rune(i)))
		}
	}
	c.Family("pumped lexemes")
	for _, n := range pumpsUpTo(8200) {
		for _, s := range []string{rep("a", n), rep("é", n), rep("1", n), "0" + rep("7", n), "0x" + rep("f", n), rep("1", n) + "." + rep("2", n) + "e" + rep("3", n),
			"." + rep("9", n), "1." + rep("0", n) + "i", `"` + rep("s", n) + `"`, `"` + rep(`\n`, n) + `"`, `"` + rep(`é`, n) + `"`, "`" + rep("r\n", n) + "`", "`" + rep("r\r\n", n) + "`",
			"//" + rep("c", n) + "\nx", "/*" + rep("c", n) + "*/x", "/*" + rep("*", n) + "*/x", "/*" + rep("\n", n) + "*/x", "#" + rep("c", n) + "\nx",
			rep(" ", n) + "x", rep("\n", n) + "x", rep("\r\n", n) + "x", rep("x ", n), rep("(", n), rep("+", n), rep("<", n), rep(".", n), rep("=", n), rep("&", n),
			rep("//c\n", n) + "x", rep("/*c*/", n) + "x", rep("#\n", n) + "x", rep("a1 ", n), rep("1 ", n), rep(`"" `, n), rep("'a'", n)} {
			add(s)
		}
	}
	c.Family("byte order mark first")
	eachString(c, allAtoms, 0, 2, func(s string) { add("\uFEFF" + s) })
	c.Family("a scan abandoned behind any token, then another source")
	reuseCases(c, lexModes, plain, reuseA, reuseB)
}

// ---------------------------------------------------------------------------

// reuseCases abandons a scan of one source behind k tokens, for every k, and scans another with the
// same scanner: the result is that of a new scanner.
func reuseCases(c *core.C, modesA, modesB []lexMode, as, bs []string) {
	for _, a := range as {
		for _, b := range bs {
			a, b := a, b
			c.Do(func() string { return fmt.Sprintf("%s abandoned, then %s", core.Q(a), core.Q(b)) }, func() string {
				c.Nontrivial(1)
				for _, mb := range modesB {
					mode := modeOf(mb.comments, mb.semis)
					want, msg := scanWith(new(tpl.Scanner), b, mode, "e/g.y", 3)
					if msg != "" {
						return msg
					}
					show := func(r *scanRes) string {
						t := fmtToks(r.toks, r.file.Base()) + fmtToks(r.after, r.file.Base())
						for _, x := range r.toks {
							t += " " + r.file.Position(x.Pos).String()
						}
						for i, p := range r.errs {
							t += fmt.Sprintf(" %v: %s", p, r.msgs[i])
						}
						return t + fmt.Sprintf(" %d errors, Source %q", r.count, r.s.Source().Src)
					}
					ref := lexref.Lex(b, mb.comments, mb.semis)
					if !ref.Malformed() {
						if msg := cmpTokens(want, ref); msg != "" {
							return mb.String() + ": " + msg
						}
					}
					w := show(want)
					for _, ma := range modesA {
						for k := 0; ; k++ {
							s := new(tpl.Scanner)
							s.Init(token.NewFileSet().AddFile("d/f.x", -1, len(a)), []byte(a), nil, modeOf(ma.comments, ma.semis))
							end := false
							for i := 0; i < k && !end; i++ {
								end = s.Scan().Kind == tpl.EOF
							}
							got, msg := scanWith(s, b, mode, "e/g.y", 3)
							if msg != "" {
								return fmt.Sprintf("%v behind %d tokens in mode %v: %s", mb, k, ma, msg)
							}
							if g := show(got); g != w {
								return fmt.Sprintf("%v behind %d tokens in mode %v:\n  got  %s\n  want %s", mb, k, ma, g, w)
							}
							c.AddTransitions(len(got.toks))
							c.AddStates(1)
							c.AddTrace(1)
							if end {
								break
							}
						}
					}
				}
				c.Outcome(fmt.Sprint(len(a), len(b)))
				return ""
			})
		}
	}
}

var (
	reuseA = []string{"", "a", "a b", "a + b", "1 )", "a\nb", "\n\n\na", "`\n` x", "/*\n*/ a b", "$ a", "\"s", "'", "08 a", "//line x:9\na b", "#c\na", "a++\n}", "\ufeffa", "a //c\nb", "é é", "1.5e3 'x'", "/* c"}
	reuseB = []string{"", "\n", "\nx", "a", " b\nc", "+\nx", "//c\nx", "/*\n*/x", "#c\nx", "\"s\" $", "'", "\ufeffa", "//line q:3\nx", "1 2\n)\n", "\r\nx", "é\n", ";\n", "$\n", "08"}
)

// textOf consumes the source text of a token at off and returns its end, or -1.
func textOf(src string, off int, t tpl.Token) int {
	switch {
	case t.Kind == tpl.EOF:
		return off
	case t.Kind == tpl.ILLEGAL:
		if off >= len(src) {
			return -1
		}
		_, w := utf8.DecodeRuneInString(src[off:])
		return off + w
	case t.Kind == tpl.SEMICOLON && t.Literal == "\n":
		if off < len(src) && src[off] == '\n' {
			return off + 1
		}
		if off == len(src) || src[off] == '#' || strings.HasPrefix(src[off:], "//") || strings.HasPrefix(src[off:], "/*") {
			return off
		}
		return -1
	}
	lit := t.Literal
	if lit == "" {
		for op, k := range lexref.Operators {
			if k == t.Kind {
				lit = op
			}
		}
		if lit == "" {
			return -1
		}
	}
	if strings.HasPrefix(src[off:], lit) {
		if strings.IndexByte(src[off:], '\r') < 0 {
			return off + len(lit)
		}
	}
	// raw strings and comments lose their carriage returns
	i := off
	for j := 0; j < len(lit); {
		if i >= len(src) {
			return -1
		}
		if src[i] == lit[j] {
			i++
			j++
		} else if src[i] == '\r' {
			i++
		} else {
			return -1
		}
	}
	return i
}

// blank reports whether text holds only white space and, if allowed, comments.
func blank(text string, comments bool) bool {
	for text != "" {
		switch {
		case strings.IndexByte(" \t\r\n", text[0]) >= 0:
			text = text[1:]
		case !comments:
			return false
		case text[0] == '#' || strings.HasPrefix(text, "//"):
			i := strings.IndexByte(text, '\n')
			if i < 0 {
				return true
			}
			text = text[i:]
		case strings.HasPrefix(text, "/*"):
			i := strings.Index(text[2:], "*/")
			if i < 0 {
				return true
			}
			text = text[i+4:]
		default:
			return false
		}
	}
	return true
}

func tiling(src string, m lexMode, sc *tpl.Scanner) (ntok int, msg string) {
	r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), "f", 0)
	if msg != "" {
		return 0, msg
	}
	base := r.file.Base()
	end := 0
	if strings.HasPrefix(src, "\uFEFF") {
		end = 3
	}
	for i, t := range r.toks {
		off := int(t.Pos) - base
		if off < end || off > len(src) {
			return 0, fmt.Sprintf("token %d at %d overlaps the text before it (end %d): %s", i, off, end, fmtToks(r.toks, base))
		}
		if !blank(src[end:off], !m.comments) {
			return 0, fmt.Sprintf("text %q before token %d is covered by no token: %s", clip(src[end:off]), i, fmtToks(r.toks, base))
		}
		e := textOf(src, off, t)
		if e < 0 {
			return 0, fmt.Sprintf("token %d doesn't stand for the text at its position: %s", i, fmtToks(r.toks, base))
		}
		end = e
	}
	if last := r.toks[len(r.toks)-1]; int(last.Pos)-base != len(src) {
		return 0, fmt.Sprintf("EOF at %d of %d", int(last.Pos)-base, len(src))
	}
	for _, t := range r.after {
		if t.Kind != tpl.EOF || int(t.Pos)-base != len(src) {
			return 0, fmt.Sprintf("behind EOF came %s", fmtToks(r.after, base))
		}
	}
	if r.count != len(r.errs) {
		return 0, fmt.Sprintf("ErrorCount %d, but the handler was called %d times", r.count, len(r.errs))
	}
	// the handler is optional
	fset := token.NewFileSet()
	f := fset.AddFile("f", -1, len(src))
	sc.Init(f, []byte(src), nil, modeOf(m.comments, m.semis))
	for i := range r.toks {
		if t := sc.Scan(); t.Kind != r.toks[i].Kind || t.Literal != r.toks[i].Literal || t.Pos != r.toks[i].Pos {
			return 0, fmt.Sprintf("token %d differs without an error handler", i)
		}
	}
	if sc.ErrorCount != r.count {
		return 0, fmt.Sprintf("ErrorCount %d without an error handler, %d with one", sc.ErrorCount, r.count)
	}
	return len(r.toks), ""
}

func runC02(c *core.C) {
	sc := new(tpl.Scanner)
	add := func(src string) {
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			max := 0
			for _, m := range lexModes {
				n, msg := tiling(src, m, sc)
				if msg != "" {
					return m.String() + ": " + msg
				}
				c.AddTransitions(n)
				c.AddStates(len(src) + 1)
				if n > max {
					max = n
				}
			}
			c.AddTrace(1)
			if max > 2 {
				c.Nontrivial(1)
			}
			c.Outcome(fmt.Sprint(max, len(src)))
			return ""
		})
	}
	c.Family("all byte strings of length 0..2")
	all := make([]string, 256)
	for i := range all {
		all[i] = string([]byte{byte(i)})
	}
	eachString(c, all, 0, 2, add)
	c.Family("all strings over critical bytes")
	crit := []string{"\x00", "\x80", "\xff", "\xc3", "\xa9", "\xe4", "\xef", "\xbb", "\xbf", "a", "1", ".", "'", `"`, "`", `\`, "/", "*", "#", "\n", "\r", " ", "+", ")", "$"}
	eachString(c, crit, 3, c.Pick(4, 4), add)
	c.Family("longer strings over quotes, comments and newlines")
	eachString(c, []string{"a", "1", "'", `"`, "`", `\`, "/", "*", "#", "\n", "\r", ")", ".", "e", "0", "x"}, 3, c.Pick(5, 6), add)
	c.Family("unterminated constructs with a tail")
	for _, p := range []string{`"abc`, `'a`, "`abc", "/* abc", "//abc", "# abc", `"\`, `'\`, `"\x`, `'\u12`, `"\U0010`, `'\7`, "0x", "1e", "1e+", ".", "..", "<", "&", "&^"} {
		for _, q := range append(all, "\n", "\r\n", "\uFEFF", "世") {
			add(p + q)
			add("a " + p + q + "\nb")
		}
	}
	c.Family("byte order marks anywhere")
	eachString(c, []string{"\uFEFF", "a", "1", " ", "\n", `"`, "'", "`", "//", "/*", "*/", "#", ")", "+", "\xef", "\xbb"}, 1, c.Pick(4, 5), add)
	c.Family("pumped")
	for _, n := range pumpsUpTo(4200) {
		for _, s := range []string{"\x00", "\xff", "$", "'", `"`, "\\", "/*", "\uFEFF", "..", "#", "a\n", "a/*", "'\n", "\"\n", ".", "a#\n", "a/**/", "a//\n"} {
			add(rep(s, n))
		}
	}
}

// ---------------------------------------------------------------------------

func runC03(c *core.C) {
	sc := new(tpl.Scanner)
	add := func(src string) {
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			var toks [4][]tpl.Token
			base := 0
			for i, m := range lexModes {
				ref := lexref.Lex(src, m.comments, m.semis)
				if ref.Malformed() {
					return ""
				}
				r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), "f", 0)
				if msg == "" && m.semis {
					msg = cmpTokens(r, ref)
				}
				if msg != "" {
					return m.String() + ": " + msg
				}
				toks[i], base = r.toks, r.file.Base()
				c.AddTransitions(len(r.toks))
				c.AddStates(len(src) + 1)
			}
			drop := func(ts []tpl.Token, f func(tpl.Token) bool) (out []tpl.Token) {
				for _, t := range ts {
					if !f(t) {
						out = append(out, t)
					}
				}
				return
			}
			isCom := func(t tpl.Token) bool { return t.Kind == tpl.COMMENT }
			isAuto := func(t tpl.Token) bool { return t.Kind == tpl.SEMICOLON && t.Literal == "\n" }
			if a, b := fmtToks(toks[0], base), fmtToks(drop(toks[1], isCom), base); a != b {
				return fmt.Sprintf("returning comments changes the other tokens\n  %s\n  %s", a, b)
			}
			if a, b := fmtToks(toks[2], base), fmtToks(drop(toks[3], isCom), base); a != b {
				return fmt.Sprintf("returning comments changes the inserted semicolons\n  %s\n  %s", a, b)
			}
			if a, b := fmtToks(toks[0], base), fmtToks(drop(toks[2], isAuto), base); a != b {
				return fmt.Sprintf("InsertSemis changes tokens other than semicolons\n  %s\n  %s", a, b)
			}
			for _, t := range toks[0] {
				if isAuto(t) {
					return "a semicolon was inserted without InsertSemis"
				}
			}
			n := 0
			for _, t := range toks[2] {
				if isAuto(t) {
					n++
				}
			}
			if n > 0 {
				c.Nontrivial(1)
			}
			c.AddTrace(1)
			c.Outcome(fmt.Sprint(n, len(toks[2])))
			return ""
		})
	}
	ends := []string{"a", "1", "1.5", "2i", "'c'", `"s"`, "`r`", "`r\n`", ")", "]", "}", "++", "--"}
	others := []string{"+", "-", "*", "/", "%", "&", "|", "^", "<", ">", "=", "!", "(", "[", "{", ",", ".", ";", ":", "?", "~", "@",
		"<<", ">>", "&^", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "&^=", "&&", "||", "<-", "==", "!=", "<=", ">=", ":=", "..."}
	breaks := []string{"", "\n", " \n", "\r\n", "\t", "//c", "//c\n", "//", "#c", "#c\n", "#", "/*c*/", "/*c*/\n", "/*\n*/", "/*\n", "/*c*//*d*/", "/*c*/ /*\n*/", "/*c*/ //d\n",
		"/*c*/ #d\n", "/*c*/#", "/**/", "/***/\n", "/*c*/\r\n", "\n\n", "\n//c\n", "\n#c\n", ";\n", " ; ", ";#c\n", "//c\n//d\n", "#c\n#d\n", "/*c*/;", "\n;", "/*c\r*/", "//c\r\n", "/*/\n", "/*/*/\n", "/* * /\n*/"}
	c.Family("token, line break, token: all kinds")
	for _, a := range append(append([]string{""}, ends...), others...) {
		for _, b := range breaks {
			for _, d := range []string{"", "x", "+", ")", "1"} {
				add(a + b + d)
				add(a + " " + b + d)
				for _, b2 := range []string{"\n", "//", "#", "/*c*/", "/*\n*/"} {
					add(a + b + d + b2 + "y")
				}
			}
		}
	}
	c.Family("two breaks in a row after every kind of token")
	for _, a := range []string{"a", "1", ")", "++", "+", "(", ";", "`r`"} {
		for _, b := range breaks {
			for _, b2 := range breaks {
				add(a + b + b2)
				add(a + b + b2 + "z")
			}
		}
	}
	c.Family("all strings over a small alphabet")
	eachString(c, []string{"a", ")", "+", "/", "*", "#", "\n", " ", ";"}, 1, c.Pick(6, 7), add)
	c.Family("strings over coarse atoms")
	eachString(c, []string{"a", "++", ",", "//c", "/*c*/", "/*\n*/", "#c", "\n", " ", ";", "}"}, 1, c.Pick(5, 6), add)
	c.Family("illegal characters between tokens and line ends")
	bad := func(src string) {
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			for _, m := range lexModes {
				ref := lexref.Lex(src, m.comments, m.semis)
				r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), "f", 0)
				if msg != "" {
					return m.String() + ": " + msg
				}
				c.AddTransitions(len(r.toks))
				c.AddStates(len(src) + 1)
				var got, want []string
				for _, t := range r.toks {
					got = append(got, kindName(t.Kind)+"@"+strconv.Itoa(int(t.Pos)-r.file.Base()))
				}
				for _, t := range ref.Toks {
					want = append(want, kindName(t.Kind)+"@"+strconv.Itoa(t.Off))
				}
				if g, w := core.Join(got, " "), core.Join(want, " "); g != w {
					return fmt.Sprintf("%v:\n  got  %s\n  want %s", m, g, w)
				}
				c.Outcome(fmt.Sprint(len(got)))
			}
			return ""
		})
	}
	badCh := []string{"\x01", "$", "\\", "\x7f", "\u20ac", "\x00", "\xff", "\ufeff"}
	for _, a := range append(append([]string{""}, ends...), others...) {
		for _, b := range badCh {
			for _, t := range []string{"", "\n", "\nx", " x", "//c\nx", "/*\n*/x", "#c\nx", b + "\nx", "+\nx", "\n" + b + "\nx", ")\nx"} {
				bad(a + b + t)
				bad(a + " " + b + " " + t)
			}
		}
	}
	eachString(c, []string{"a", "+", "$", "\x01", "\n", "//c\n", "/*\n*/"}, 1, c.Pick(4, 6), bad)
	c.Family("a scan abandoned behind any token, then another source")
	reuseCases(c, lexModes, lexModes[2:], reuseA, reuseB)
	c.Family("pumped")
	for _, n := range pumpsUpTo(2100) {
		for _, s := range []string{"a\n", "a//c\n", "a#c\n", "a/*c*/\n", "a/*c*/", "a/*\n*/", ")\n", "+\n", "1 \n"} {
			add(rep(s, n))
		}
		add("a" + rep("/*c*/", n) + "\nb")
		add("a" + rep("/*c*/ ", n) + "b")
		add("a" + rep(" ", n) + "\nb")
		add("a/*" + rep("c", n) + "*/\nb")
		add("a/*" + rep("c", n) + "*/ b")
		add("a/*" + rep("c", n) + "\n*/ b")
		add("a" + rep("\n", n) + "b")
		add("a" + rep("/*c*/ ", n) + "#d\nb")
	}
}

// ---------------------------------------------------------------------------

func runC04(c *core.C) {
	sc := new(tpl.Scanner)
	add := func(src string) {
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			mal := false
			for _, m := range lexModes {
				ref := lexref.Lex(src, m.comments, m.semis)
				r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), "f", 0)
				if msg != "" {
					return m.String() + ": " + msg
				}
				if r.count != len(r.errs) {
					return fmt.Sprintf("%v: ErrorCount %d, handler called %d times", m, r.count, len(r.errs))
				}
				if msg := cmpTokens(r, ref); msg != "" {
					return m.String() + ": " + msg
				}
				mal = ref.Malformed()
				if mal != (len(r.errs) > 0) {
					return fmt.Sprintf("%v: malformed=%v, but errors reported: %v", m, mal, r.msgs)
				}
				// every error is located in a malformed token or at a malformed character
				hit := func(off int) bool {
					for _, b := range ref.BadCh {
						if b == off {
							return true
						}
					}
					if ref.BadCom >= 0 && off == ref.BadCom {
						return true
					}
					for _, t := range ref.Toks {
						if t.Bad && off >= t.Off && off <= t.End {
							return true
						}
					}
					return false
				}
				seen := map[int]bool{}
				for i, p := range r.errs {
					seen[p.Offset] = true
					if !hit(p.Offset) {
						return fmt.Sprintf("%v: error %q at offset %d, where nothing is malformed", m, r.msgs[i], p.Offset)
					}
					if l, col := lineCol(src, p.Offset); l != p.Line || col != p.Column {
						return fmt.Sprintf("%v: error at offset %d reported at %d:%d, want %d:%d", m, p.Offset, p.Line, p.Column, l, col)
					}
				}
				for _, b := range ref.BadCh {
					if !seen[b] {
						return fmt.Sprintf("%v: malformed character at %d not reported", m, b)
					}
				}
				for _, t := range ref.Toks {
					if t.Bad {
						ok := false
						for o := range seen {
							ok = ok || o >= t.Off && o <= t.End
						}
						if !ok {
							return fmt.Sprintf("%v: malformed token %q at %d not reported", m, t.Lit, t.Off)
						}
					}
				}
				// Tokenize fails exactly on malformed sources
				mt := &tpl.Matcher{Scanner: sc, ScanMode: modeOf(m.comments, m.semis)}
				toks, err := mt.Tokenize([]byte(src), "f")
				if (err != nil) != mal {
					return fmt.Sprintf("%v: malformed=%v, Tokenize error %v", m, mal, err)
				}
				if err != nil {
					te, ok := err.(*tpl.TokenizeError)
					if !ok {
						return fmt.Sprintf("%v: Tokenize error has type %T", m, err)
					}
					if !hit(te.Pos.Offset) {
						return fmt.Sprintf("%v: TokenizeError at %d, where nothing is malformed", m, te.Pos.Offset)
					}
					if l, col := lineCol(src, te.Pos.Offset); l != te.Pos.Line || col != te.Pos.Column {
						return fmt.Sprintf("%v: TokenizeError position %v, want %d:%d", m, te.Pos, l, col)
					}
					if te.Error() == "" {
						return "empty error message"
					}
				} else if len(toks) != len(ref.Toks)-1 {
					return fmt.Sprintf("%v: Tokenize gave %d tokens, want %d", m, len(toks), len(ref.Toks)-1)
				}
				// the same decision through Match
				mt.Grammar = tpl.GrTrue
				if _, err := mt.Match([]byte(src), "f"); (err != nil) != mal {
					return fmt.Sprintf("%v: malformed=%v, Match error %v", m, mal, err)
				}
				c.AddTransitions(len(r.toks))
				c.AddStates(len(src) + 1)
				c.Outcome(fmt.Sprint(len(r.errs), r.msgs))
			}
			if mal {
				c.Nontrivial(1)
			}
			c.AddTrace(1)
			return ""
		})
	}
	c.Family("numbers: all strings")
	eachString(c, []string{"0", "1", "8", ".", "e", "E", "+", "i", "x", "f", " "}, 1, c.Pick(5, 6), add)
	c.Family("quoted literals: all strings")
	eachString(c, []string{`"`, `'`, `\`, "a", "x", "0", "7", "u", "D", "\n", "é", "`"}, 1, c.Pick(5, 6), add)
	c.Family("escapes")
	digits := []string{"0", "1", "7", "8", "D", "d", "f", "F", "g", "'", `"`}
	for _, q := range []string{"'", `"`} {
		for ch := 0; ch < 256; ch++ {
			add(q + `\` + string([]byte{byte(ch)}) + q)
			add(q + `\` + string([]byte{byte(ch)}))
		}
		eachString(c, digits, 1, 3, func(s string) {
			add(q + `\` + s + q)
			add(q + `\x` + s + q)
			add(q + `\u0` + s + q)
			add(q + `\uD` + s + q)
			add(q + `\u` + s)
			add(q + `\U0000` + s + "0" + q)
			add(q + `\U00` + s + "000" + q)
			add(q + `\U0010` + s + "0" + q)
			add(q + `\U` + s + "00000" + q)
		})
		for v := 0xD7F0; v < 0xE010; v++ {
			add(fmt.Sprintf(`%s\u%04X%s`, q, v, q))
			add(fmt.Sprintf(`%s\U%08X%s`, q, v, q))
		}
		for v := 0x10FFF0; v < 0x110010; v++ {
			add(fmt.Sprintf(`%s\U%08X%s`, q, v, q))
		}
		for v := 0; v < 01000; v++ {
			add(fmt.Sprintf(`%s\%03o%s`, q, v, q))
			add(fmt.Sprintf(`%s\%02o%s`, q, v, q))
			add(fmt.Sprintf(`%s\%03o7%s`, q, v, q))
		}
		for b := uint(0); b < 32; b++ { // values that don't fit
			for d := int64(-1); d <= 1; d++ {
				add(fmt.Sprintf(`%s\U%08x%s`, q, uint32(int64(1)<<b+d), q))
				add(fmt.Sprintf(`%s\U%08x%s`, q, uint32(int64(0x41)+(1<<b)), q))
			}
		}
		for _, e := range []string{"107", "x41", "u0041", "U00000041"} { // every byte in every place
			for i := range e {
				for ch := 0; ch < 256; ch++ {
					add(q + `\` + e[:i] + string([]byte{byte(ch)}) + e[i+1:] + q)
				}
			}
		}
	}
	c.Family("illegal characters in every context")
	for ch := 0; ch < 256; ch++ {
		b := string([]byte{byte(ch)})
		for _, ctx := range [][2]string{{"", ""}, {"a", ""}, {"a ", " b"}, {`"`, `"`}, {"'", "'"}, {"`", "`"}, {"//", "\na"}, {"/*", "*/"}, {"a/*", "*/\n"}, {"#", "\na"}, {"1\n", "\n2"}} {
			add(ctx[0] + b + ctx[1])
			add(ctx[0] + b + b + ctx[1])
		}
	}
	c.Family("every code point behind a letter and before a digit")
	for r := rune(0x80); r <= 0x10ffff; r++ {
		if r == 0xd800 {
			r = 0xe000
		}
		if r == 0x33480 && !c.Thorough() { // behind all planes with letters only one of 61
			for ; r <= 0x10ffff; r += 61 {
				add("a" + string(r) + "1")
			}
			break
		}
		add("a" + string(r) + "1")
	}
	c.Family("malformed UTF-8 and byte order marks")
	eachString(c, []string{"\xef", "\xbb", "\xbf", "\xc3", "\xa9", "\xf0", "\x9f", "a", "\n", `"`}, 1, c.Pick(5, 5), add)
	c.Family("byte order marks anywhere")
	eachString(c, []string{"\uFEFF", "a", "1", " ", "\n", `"`, "'", "`", "//", "/*", "*/", "#", ")", "+", "\xef", "\xbb"}, 1, c.Pick(5, 5), add)
	c.Family("unterminated comments and raw strings after other tokens")
	eachString(c, []string{"a", "/*", "*/", "`", "//", "#", "\n", "'", `"`, " "}, 1, c.Pick(5, 6), add)
	c.Family("an error after a pumped prefix")
	for _, n := range pumpsUpTo(4200) {
		for _, pre := range []string{rep("a ", n), rep("\n", n), rep("x\n", n), rep("//c\n", n), `"` + rep("s", n) + `"`, "/*" + rep("\n", n) + "*/"} {
			for _, bad := range []string{"$", `"abc`, "'", "`", "/*", "0x", "08", "1e", `"\q"`, "\x00", "\xff"} {
				add(pre + bad)
				add(pre + " " + bad + "\nz")
			}
		}
		add(`"` + rep("s", n))
		add("'" + rep("s", n) + "'")
		add("`" + rep("s\n", n))
		add("/*" + rep("s\n", n))
		add("0" + rep("8", n))
		add("0" + rep("7", n) + "8")
		add("0" + rep("8", n) + ".5")
	}
}

// lineCol computes the 1-based line and byte column of an offset.
func lineCol(src string, off int) (int, int) {
	line := 1 + strings.Count(src[:off], "\n")
	return line, off - (strings.LastIndexByte(src[:off], '\n') + 1) + 1
}

// ---------------------------------------------------------------------------

// lineDirectives returns for an offset the file name and line adjusted by //line comments.
func refPosition(src string, off int, fname string, coms []lexref.Tok) (string, int) {
	name, line := fname, 1+strings.Count(src[:off], "\n")
	for _, t := range coms {
		if t.Kind != tpl.COMMENT || !strings.HasPrefix(src[t.Off:], "//line ") {
			continue
		}
		if t.Off > 0 && src[t.Off-1] != '\n' {
			continue
		}
		text := src[t.Off:t.End]
		i := strings.LastIndexByte(text, ':')
		if i < 0 || t.End+1 > off {
			continue
		}
		n, err := strconv.Atoi(text[i+1:])
		if err != nil || n <= 0 {
			continue
		}
		f := strings.TrimSpace(text[len("//line "):i])
		if f != "" {
			f = filepath.Clean(f)
			if !filepath.IsAbs(f) {
				f = filepath.Join(filepath.Dir(fname), f)
			}
		}
		// the comment applies to the line behind it
		name, line = f, n+strings.Count(src[t.End+1:off], "\n")
	}
	return name, line
}

func runC05(c *core.C) {
	sc := new(tpl.Scanner)
	c.Family("files of another size are refused")
	for n := 0; n < 9; n++ {
		for m := 0; m < 9; m++ {
			n, m := n, m
			c.Do(func() string { return fmt.Sprintf("%d bytes in a file of %d", n, m) }, func() string {
				c.AddTransitions(1)
				c.AddStates(1)
				c.AddTrace(1)
				s := new(tpl.Scanner)
				f := token.NewFileSet().AddFile("f", -1, m)
				e := try(func() { s.Init(f, []byte(rep("x", n)), nil, 0) })
				if (e == nil) != (n == m) {
					return fmt.Sprintf("Init: %v", e)
				}
				return ""
			})
		}
	}
	add := func(src, fname string, pad int) {
		c.Do(func() string { return fmt.Sprintf("%s in file %q behind %d bytes", core.Q(clip(src)), fname, pad) }, func() string {
			for _, m := range lexModes {
				ref := lexref.Lex(src, m.comments, m.semis)
				if ref.Malformed() {
					return ""
				}
				coms := lexref.Lex(src, true, m.semis).Toks
				r, msg := scanWith(sc, src, modeOf(m.comments, m.semis), fname, pad)
				if msg == "" {
					msg = cmpTokens(r, ref)
				}
				if msg != "" {
					return m.String() + ": " + msg
				}
				c.AddTransitions(len(r.toks))
				c.AddStates(len(src) + 1)
				base := r.file.Base()
				for i, t := range r.toks {
					w := ref.Toks[i]
					if w.Off == len(src) && strings.HasSuffix(src, "\n") {
						continue // go/token knows no line that starts at the end of a file
					}
					wn, wl := refPosition(src, w.Off, fname, coms)
					p := r.file.Position(t.Pos)
					_, col := lineCol(src, w.Off)
					if p.Filename != wn || p.Line != wl || p.Column != col || p.Offset != w.Off {
						return fmt.Sprintf("%v: token %d at %s (offset %d), want %s:%d:%d (offset %d)", m, i, p, p.Offset, wn, wl, col, w.Off)
					}
					if w.Kind != tpl.EOF && !w.Auto && strings.IndexByte(src[w.Off:w.End], '\r') < 0 {
						if e := int(t.End()) - base; e != w.End {
							return fmt.Sprintf("%v: token %d (%s) ends at %d, want %d", m, i, fmtToks(r.toks[i:i+1], base), e, w.End)
						}
					}
				}
				// Source and FileLine of every token range (all of them for short streams)
				n := len(r.toks) - 1
				lim := n
				if n > 12 {
					lim = 12
				}
				for i := 0; i < lim; i++ {
					for j := i; j <= n; j++ {
						if n > 12 && j > i+3 && j < n-1 {
							continue
						}
						rng := r.toks[i:j]
						got := string(tpl.Source(rng, sc))
						want := ""
						if j > i {
							want = src[ref.Toks[i].Off:ref.Toks[j].Off]
						}
						if got != want {
							return fmt.Sprintf("%v: Source of tokens %d..%d is %q, want %q", m, i, j, clip(got), clip(want))
						}
						fn, ln := tpl.FileLine(rng, sc)
						if j > i {
							_, wl := refPosition(src, ref.Toks[i].Off, fname, coms)
							if fn != fname || ln != wl {
								return fmt.Sprintf("%v: FileLine of tokens %d..%d is %s:%d, want %s:%d", m, i, j, fn, ln, fname, wl)
							}
						} else if fn != "" || ln != 0 {
							return fmt.Sprintf("FileLine of no tokens is %s:%d", fn, ln)
						}
					}
				}
				ts := sc.Source()
				if string(ts.Src) != src || ts.File != r.file {
					return "Source of the scanner isn't what it was initialized with"
				}
			}
			if strings.Contains(src, "\n") {
				c.Nontrivial(1)
			}
			c.AddTrace(1)
			c.Outcome(fmt.Sprint(strings.Count(src, "\n"), len(src)))
			return ""
		})
	}
	c.Family("all sources over a small alphabet, file at two bases")
	eachString(c, []string{"a", "++", ";", "1", "\n", " ", "//c\n", "/*\n*/", "#c\n", "\r\n", "é", "`\n`"}, 0, c.Pick(5, 6), func(s string) {
		add(s, "f", 0)
		add(s, "d/f.x", 41)
	})
	c.Family("every kind of token")
	for _, a := range allAtoms {
		for _, b := range []string{"", "\n", " ", ";"} {
			add(a+b+"x", "f", 7)
			add("x"+b+a, "f", 7)
			add("x\n"+b+a+"\ny", "f", 7)
		}
	}
	c.Family("//line comments")
	dirs := []string{"//line g:10\n", "//line /:2\n", "//line /x:3\n", "//line x:3\n", "//line .:3\n", "//line ..:3\n", "//line //x:3\n", "//line /x/../y:3\n", "//line \\x:3\n", "//line C:3\n", "//line é:4\n", "//line :7\n", "//line /r/s:3\n", "//line  sp ace :4\n", "//line ../up:5\n", "//line g:0\n", "//line g:x\n", "//line g\n", "// line g:10\n", "//line g:h:12\n", "//line\n", "//line ./a/../b:100\n", "//line g:-1\n", "//line C:9223372036854775808\n"}
	for _, d := range dirs {
		for _, pre := range []string{"", "a\n", "a ", "\n\n", "+ ", "a\n\n", "/*\n*/\n", " ", "a;\n"} {
			for _, post := range []string{"", "b", "b\nc", "\nb", "\n\nb\nc d", "#z\nb", "/*\n*/b"} {
				add(pre+d+post, "f", 0)
				add(pre+d+post, "dir/sub/f.go", 13)
				for _, d2 := range dirs[:15] {
					add(pre+d+post+"\n"+d2+"x\ny", "dir/f.go", 5)
				}
			}
		}
	}
	c.Family("pumped")
	for _, n := range pumpsUpTo(1100) {
		add(rep("a\n", n)+"b", "f", n)
		add(rep("\n", n)+"b", "f", 0)
		add(rep(" ", n)+"b c", "f", n)
		add("`"+rep("\n", n)+"` b", "f", 0)
		add("/*"+rep("\n", n)+"*/ b", "f", 0)
		add(rep("é", n)+" b", "f", 0)
		add(rep("; ", n)+"b", "f", 0)
		add(rep("//c\n", n)+"b", "f", 3)
		add(rep("#c\n", n)+"b", "f", 3)
		add("//line "+rep("g", n)+":"+strconv.Itoa(n)+"\nx\ny", "d/f", 3)
		add(rep("\n", n)+"//line q:5\n"+rep("\n", n)+"x", "d/f", 3)
	}
	c.Family("a scan abandoned behind any token, then another source")
	reuseCases(c, lexModes, lexModes, append([]string{"//line /r:5\na\nb"}, reuseA...), append([]string{"//line z:3\n//line :7\nx", "a\nb\n\nc"}, reuseB...))
	c.Family("//line comments of every name of up to 4 characters")
	eachString(c, []string{"/", "x", ".", ":", " ", "\\"}, 0, c.Pick(4, 6), func(s string) {
		add("//line "+s+":3\nx\ny", "d/f.x", 0)
		add("//line "+s+":3\nx\ny", "f", 0)
	})
	c.Family("a scanner is reusable and independent of its file base")
	for _, pad := range []int{1, 2, 127, 128, 255, 256, 4095, 4096, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 20, 1 << 24, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1 << 52, 1<<53 + 1, 1 << 61} {
		for _, src := range []string{"", "a", "a b\nc", "x\n//line g:10\ny z\n", "`\n` + /*\n*/ é\n\n\"s\" 1", "a;b++\n#c\n}", rep("ab 12\n", 40) + "z"} {
			add(src, "f", pad)
			add(src, "d/f.x", pad)
		}
	}
}

// ---------------------------------------------------------------------------

func runC06(c *core.C) {
	ops := make([]string, 0, len(lexref.Operators))
	for op := range lexref.Operators {
		ops = append(ops, op)
	}
	sort.Strings(ops)
	quoteOp := func(op string) string {
		if len(op) == 1 {
			return "'" + op + "'"
		}
		return `"` + op + `"`
	}
	classes := map[string]uint{"EOF": tpl.EOF, "COMMENT": tpl.COMMENT, "IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING}
	isOp := map[uint]string{}
	for op, k := range lexref.Operators {
		isOp[k] = op
	}
	c.Family("operators")
	seen := map[uint]string{}
	for _, op := range ops {
		op, k := op, lexref.Operators[op]
		c.Do(func() string { return op }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			c.AddStates(1)
			c.AddTransitions(4)
			c.Outcome(op)
			if o, dup := seen[k]; dup && o != op {
				return fmt.Sprintf("%q and %q share a kind", o, op)
			}
			if got := tpl.Lit2Token(quoteOp(op)); got != k {
				return fmt.Sprintf("Lit2Token(%s) = %d, want %d", quoteOp(op), got, k)
			}
			if got := tpl.Token2Lit(k); got != quoteOp(op) {
				return fmt.Sprintf("Token2Lit(%d) = %s, want %s", k, got, quoteOp(op))
			}
			if got := tpl.TokenLen(k); got != len(op) {
				return fmt.Sprintf("TokenLen(%s) = %d", op, got)
			}
			for _, s := range []tpl.Tokener{new(tpl.Scanner), new(tpl.AutoKwScanner)} {
				if s.Ltot(quoteOp(op)) != k || s.Ttol(k) != quoteOp(op) {
					return fmt.Sprintf("%T: Ltot/Ttol of %s disagree with the table", s, op)
				}
			}
			return ""
		})
		seen[k] = op
	}
	c.Family("documented TOKEN names")
	names := map[string]string{"ADD": "+", "SUB": "-", "MUL": "*", "QUO": "/", "REM": "%", "AND": "&", "OR": "|", "XOR": "^", "LT": "<", "GT": ">", "ASSIGN": "=", "NOT": "!",
		"LPAREN": "(", "LBRACK": "[", "LBRACE": "{", "COMMA": ",", "PERIOD": ".", "RPAREN": ")", "RBRACK": "]", "RBRACE": "}", "SEMICOLON": ";", "COLON": ":", "QUESTION": "?", "TILDE": "~", "AT": "@",
		"SHL": "<<", "SHR": ">>", "AND_NOT": "&^", "ADD_ASSIGN": "+=", "SUB_ASSIGN": "-=", "MUL_ASSIGN": "*=", "QUO_ASSIGN": "/=", "REM_ASSIGN": "%=", "AND_ASSIGN": "&=", "OR_ASSIGN": "|=", "XOR_ASSIGN": "^=",
		"SHL_ASSIGN": "<<=", "SHR_ASSIGN": ">>=", "AND_NOT_ASSIGN": "&^=", "LAND": "&&", "LOR": "||", "ARROW": "<-", "INC": "++", "DEC": "--", "EQ": "==", "NE": "!=", "LE": "<=", "GE": ">=", "DEFINE": ":=", "ELLIPSIS": "..."}
	var nn []string
	for n := range names {
		nn = append(nn, n)
	}
	sort.Strings(nn)
	for _, n := range nn {
		n := n
		c.Do(func() string { return n }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			op := names[n]
			m, err := (&tpl.Compiler{Grammar: []byte("doc = " + n)}).Cl()
			if err != nil {
				return err.Error()
			}
			if err := m.Eval(op); err != nil {
				return "rule " + n + " doesn't match " + op + ": " + err.Error()
			}
			if m.Eval("a") == nil {
				return "rule " + n + " matches an identifier"
			}
			for _, op2 := range ops {
				if op2 != op && m.Eval(op2) == nil {
					return "rule " + n + " matches " + op2
				}
			}
			return ""
		})
	}
	c.Family("token classes")
	for n, k := range classes {
		n, k := n, k
		_ = n
		_ = k
	}
	var cn []string
	for n := range classes {
		cn = append(cn, n)
	}
	sort.Strings(cn)
	for _, n := range cn {
		n, k := n, classes[n]
		c.Do(func() string { return n }, func() string {
			c.Nontrivial(1)
			if tpl.Lit2Token(n) != k || tpl.Token2Lit(k) != n {
				return fmt.Sprintf("Lit2Token(%s)=%d Token2Lit(%d)=%s", n, tpl.Lit2Token(n), k, tpl.Token2Lit(k))
			}
			if tpl.TokenLen(k) != 0 {
				return fmt.Sprintf("TokenLen(%s) = %d", n, tpl.TokenLen(k))
			}
			return ""
		})
	}
	c.Family("every kind 0..70000")
	for k := uint(0); k <= 70000; k++ {
		k := k
		if k > 600 && k < 65000 && k%97 != 0 {
			continue
		}
		c.Do(func() string { return fmt.Sprint("kind ", k) }, func() string {
			c.Nontrivial(1)
			c.AddStates(1)
			c.AddTransitions(1)
			if got := tpl.TokenLen(k); got != len(isOp[k]) {
				return fmt.Sprintf("TokenLen(%d) = %d, want %d", k, got, len(isOp[k]))
			}
			return ""
		})
	}
	c.Family("unknown literals")
	eachString(c, []string{"+", "-", "&", "^", "<", "=", "a", "."}, 1, 4, func(s string) {
		c.Do(func() string { return s }, func() string {
			k, ok := lexref.Operators[s]
			if !ok {
				k = tpl.ILLEGAL
			}
			c.AddTransitions(1)
			c.Nontrivial(1)
			if len(s) > 1 {
				if got := tpl.Lit2Token(`"` + s + `"`); got != k {
					return fmt.Sprintf("Lit2Token(%q) = %d, want %d", s, got, k)
				}
			} else if got := tpl.Lit2Token("'" + s + "'"); got != k {
				return fmt.Sprintf("Lit2Token('%s') = %d, want %d", s, got, k)
			}
			if got := tpl.Lit2Token(s); got != tpl.ILLEGAL {
				return fmt.Sprintf("Lit2Token(%s) without quotes = %d", s, got)
			}
			return ""
		})
	})

	// keyword registration histories
	c.Family("keyword registration histories")
	words := []string{"if", "else", "i", "iff", "return", "_x", "If"}
	L := c.Pick(5, 6)
	// an operation: register word k (0..5) or scan all words (6)
	eachIdx(c, 7, 1, L, func(ix []int) {
		ix = cp(ix)
		c.Do(func() string { return fmt.Sprint("ops ", ix, " over ", words) }, func() string {
			p := new(tpl.AutoKwScanner)
			c.Nontrivial(1)
			c.AddTrace(1)
			return kwHistory(c, p, ix, words)
		})
	})
	c.Family("keywords registered between sources of every form")
	formIdx := 3 + len(kwForms)
	eachIdx(c, formIdx, 1, c.Pick(3, 4), func(ix []int) {
		ix = cp(ix)
		for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis, tpl.ScanComments, tpl.ScanComments | tpl.InsertSemis} {
			mode := mode
			c.Do(func() string {
				return fmt.Sprint("mode ", mode, ": ops ", ix, " over if, else, x and ", fmt.Sprintf("%q", kwForms))
			}, func() string {
				c.Nontrivial(1)
				c.AddTrace(1)
				return kwFormHistory(c, ix, mode)
			})
		}
	})
	c.Family("keywords of every length")
	var lens []int
	for n := 1; n <= c.Pick(80, 300); n++ {
		lens = append(lens, n)
	}
	for _, n := range append(lens, 511, 512, 1023, 1024, 4096, 65536) {
		n := n
		c.Do(func() string { return fmt.Sprint("keywords of length ", n) }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			c.AddStates(n)
			c.AddTransitions(12)
			w := rep("k", n)
			near := []string{w + "k", w + "1", w + "_", "x" + w, rep("k", n-1) + "K", rep("k", n-1) + "z", "_" + rep("k", n-1)}
			if n > 1 {
				near = append(near, w[1:], rep("k", n/2)+"z"+rep("k", n-n/2-1))
			}
			src := w + " " + core.Join(near, " ") + " " + w + ";"
			p := new(tpl.AutoKwScanner)
			k := p.Ltot(`"` + w + `"`)
			if k < tpl.USER_TOKEN_BEGIN || p.Ltot(`"`+w+`"`) != k || p.Ttol(k) != `"`+w+`"` {
				return "registration"
			}
			fset := token.NewFileSet()
			f := fset.AddFile("f", -1, len(src))
			p.Init(f, []byte(src), nil, 0)
			for t := p.Scan(); t.Kind != tpl.EOF; t = p.Scan() {
				want := uint(tpl.IDENT)
				if t.Literal == w {
					want = k
				} else if t.Literal == ";" {
					want = tpl.SEMICOLON
				}
				if t.Kind != want {
					return fmt.Sprintf("%s scanned as %d, want %d", clip(t.Literal), t.Kind, want)
				}
			}
			// the same through a grammar; two keywords of which one is a prefix of the other
			m, err := (&tpl.Compiler{Grammar: []byte(`doc = "` + w + `" ?"` + w + `k"`)}).Cl()
			if err != nil {
				return err.Error()
			}
			for src, ok := range map[string]bool{w: true, w + " " + w + "k": true, w + "k": false, w + " " + w: false, w + "k " + w: false, w + "kk": false, w + " " + w + "kk": false} {
				if got := m.Eval(src) == nil; got != ok {
					return fmt.Sprintf("matching %s: %v, want %v", clip(src), got, ok)
				}
			}
			for _, x := range near {
				if x != w && m.Eval(x) == nil {
					return clip(x) + " matches"
				}
			}
			return ""
		})
	}
	c.Family("keywords of every letter")
	for _, forms := range [][]string{{"%c"}, {"a%c"}, {"%c1"}, {"%c%c"}, {"%c", "a%c", "%c_", "if%cx"}} {
		for lo := rune(0); lo <= 0x10FFFF; lo += 0x400 {
			lo, forms := lo, forms
			c.Do(func() string { return fmt.Sprintf("letters U+%04X to U+%04X as %v", lo, lo+0x3ff, forms) }, func() string {
				p := new(tpl.AutoKwScanner)
				var words []string
				src := ""
				for r := lo; r < lo+0x400 && r <= 0x10FFFF; r++ {
					if !utf8.ValidRune(r) || r == 0xFEFF {
						continue
					}
					for _, f := range forms {
						w := strings.Replace(f, "%c", string(r), -1)
						if lx := lexref.Lex(w, false, false); lx.Malformed() || len(lx.Toks) != 2 || lx.Toks[0].Kind != tpl.IDENT {
							continue
						}
						src += w + " "
						if r%3 != 0 {
							words = append(words, w)
						}
					}
				}
				if src == "" {
					return ""
				}
				c.Nontrivial(1)
				c.AddTrace(1)
				c.AddStates(len(words))
				return kwScan(c, p, words, len(words), src+strings.ToUpper("éß")+" a if x")
			})
		}
	}
	c.Family("many keywords")
	for _, n := range []int{1, 2, 15, 16, 17, 63, 64, 65, 79, 80, 81, 82, 83, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000} {
		n := n
		c.Do(func() string { return fmt.Sprint(n, " keywords") }, func() string {
			c.Nontrivial(1)
			c.AddTrace(1)
			p := new(tpl.AutoKwScanner)
			var words []string
			for i := 0; i < n; i++ {
				words = append(words, "kw"+strconv.Itoa(i))
			}
			kinds := map[uint]bool{}
			for _, w := range words {
				k := p.Ltot(`"` + w + `"`)
				if k == tpl.ILLEGAL || isOp[k] != "" || k <= tpl.STRING || kinds[k] {
					return fmt.Sprintf("keyword %s got kind %d", w, k)
				}
				kinds[k] = true
				c.AddTransitions(1)
			}
			return kwScan(c, p, words, len(words), "x y "+core.Join(words, " ")+" kw kw00 KW1 kw"+strconv.Itoa(n))
		})
		if n > 1100 {
			continue
		}
		c.Do(func() string { return fmt.Sprint("a grammar of ", n, " keywords") }, func() string {
			var alts []string
			for i := 0; i < n; i++ {
				alts = append(alts, fmt.Sprintf(`"kw%d"/m%d`, i, i))
			}
			got := ""
			cl := &tpl.Compiler{Grammar: []byte("doc = " + core.Join(alts, " | ")), Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
				return tpl.Action(g, func(ts []tpl.Token, g tpl.Grammar) { got += mark + " " })
			}}
			m, err := cl.Cl()
			if err != nil {
				return err.Error()
			}
			for i := 0; i < n; i++ {
				got = ""
				if err := m.Eval("kw" + strconv.Itoa(i)); err != nil || got != fmt.Sprintf("m%d ", i) {
					return fmt.Sprintf("kw%d matched %q, %v", i, got, err)
				}
				c.AddTransitions(1)
			}
			for _, w := range []string{"kw", "x", "kw" + strconv.Itoa(n), "Kw0", "1", `"kw0"`} {
				if m.Eval(w) == nil {
					return w + " matches a keyword"
				}
			}
			return ""
		})
	}
}

// kwHistory replays registrations and scans against a map model.
func kwHistory(c *core.C, p *tpl.AutoKwScanner, ix []int, words []string) string {
	model := map[string]uint{}
	fset := token.NewFileSet()
	for step, op := range ix {
		c.AddTransitions(1)
		if op < len(words)-1 {
			w := words[op]
			k := p.Ltot(`"` + w + `"`)
			if old, ok := model[w]; ok {
				if k != old {
					return fmt.Sprintf("step %d: keyword %s changed its kind from %d to %d", step, w, old, k)
				}
			} else {
				if k < tpl.USER_TOKEN_BEGIN {
					return fmt.Sprintf("step %d: keyword %s got kind %d", step, w, k)
				}
				for o, v := range model {
					if v == k {
						return fmt.Sprintf("step %d: %s and %s share kind %d", step, w, o, k)
					}
				}
				model[w] = k
			}
			if lit := p.Ttol(k); lit != `"`+w+`"` {
				return fmt.Sprintf("step %d: Ttol(%d) = %s, want %q", step, k, lit, w)
			}
			continue
		}
		src := core.Join(words, " ") + ` if+else "if" 'i' 1 iff;if(if)//if`
		f := fset.AddFile("f", -1, len(src))
		p.Init(f, []byte(src), nil, 0)
		ref := lexref.Lex(src, false, false)
		for i, w := range ref.Toks {
			t := p.Scan()
			want := w.Kind
			if w.Kind == tpl.IDENT {
				if k, ok := model[w.Lit]; ok {
					want = k
				}
			}
			if t.Kind != want || t.Literal != w.Lit || int(t.Pos)-f.Base() != w.Off {
				return fmt.Sprintf("step %d: token %d is %d %q, want %d %q", step, i, t.Kind, t.Literal, want, w.Lit)
			}
		}
	}
	c.AddStates(len(model) + 1)
	c.Outcome(fmt.Sprint(len(model), len(ix)))
	return ""
}

var kwForms = []string{"", " ", "\n", "if", "if else\nx i", "// if\n", "'if", "/* else", "1e if", "\"if\"", "\x00if", "x1 \xff else", "\ufeffif", "//line g:7\nif", "if/**/else#x", "+ ) ;"}

// kwFormHistory registers words and scans sources, to the end or (every second time) only in part, with and without an error handler.
func kwFormHistory(c *core.C, ix []int, mode tpl.ScanMode) string {
	words := []string{"if", "else", "x"}
	p := new(tpl.AutoKwScanner)
	model := map[string]uint{}
	fset := token.NewFileSet()
	scan := func(src string, n int, handler tpl.ScanErrorHandler) string {
		f := fset.AddFile("f", -1, len(src))
		p.Init(f, []byte(src), handler, mode)
		g := token.NewFileSet().AddFile("f", f.Base(), len(src))
		plain := new(tpl.Scanner)
		plain.Init(g, []byte(src), nil, mode)
		for ; n > 0; n-- {
			w, t := plain.Scan(), p.Scan()
			if k, ok := model[w.Literal]; ok && w.Kind == tpl.IDENT {
				w.Kind = k
			}
			if t != w {
				return fmt.Sprintf("source %q: token %v, want %v", src, t, w)
			}
			if t.Kind == tpl.EOF {
				break
			}
		}
		return ""
	}
	all := append([]int{}, ix...)
	for i := range kwForms {
		all = append(all, len(words)+i) // at last, every source
	}
	for step, op := range all {
		c.AddTransitions(1)
		if op < len(words) {
			w := words[op]
			k := p.Ltot(`"` + w + `"`)
			if old, ok := model[w]; ok && k != old {
				return fmt.Sprintf("step %d: %s changed its kind from %d to %d", step, w, old, k)
			}
			for o, v := range model {
				if o != w && v == k {
					return fmt.Sprintf("step %d: %s and %s share a kind", step, w, o)
				}
			}
			if k < tpl.USER_TOKEN_BEGIN {
				return fmt.Sprintf("step %d: %s got kind %d", step, w, k)
			}
			model[w] = k
		} else {
			n, h := 1000, tpl.ScanErrorHandler(nil)
			if step%2 == 1 {
				n = 1
			}
			if step%3 == 0 {
				h = func(pos token.Position, msg string) {}
			}
			if msg := scan(kwForms[op-len(words)], n, h); msg != "" {
				return fmt.Sprintf("step %d: %s", step, msg)
			}
		}
		for w, k := range model {
			if p.Ltot(`"`+w+`"`) != k || p.Ttol(k) != `"`+w+`"` {
				return fmt.Sprintf("step %d: %s isn't kind %d any more", step, w, k)
			}
		}
	}
	c.AddStates(len(model) + 1)
	return ""
}

func kwScan(c *core.C, p *tpl.AutoKwScanner, words []string, n int, src string) string {
	fset := token.NewFileSet()
	f := fset.AddFile("f", -1, len(src))
	kw := map[string]uint{}
	for _, w := range words {
		kw[w] = p.Ltot(`"` + w + `"`)
	}
	p.Init(f, []byte(src), nil, 0)
	for {
		t := p.Scan()
		if t.Kind == tpl.EOF {
			return ""
		}
		c.AddTransitions(1)
		want, ok := kw[t.Literal]
		if !ok {
			want = tpl.IDENT
		}
		if t.Kind != want {
			return fmt.Sprintf("%q scanned as %d, want %d", t.Literal, t.Kind, want)
		}
		if ok && p.Ttol(t.Kind) != `"`+t.Literal+`"` {
			return fmt.Sprintf("Ttol of keyword %s is %s", t.Literal, p.Ttol(t.Kind))
		}
	}
}
