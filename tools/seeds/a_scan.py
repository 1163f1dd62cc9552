SC = "tpl/scanner.go"
SCAN = '''
type tk struct {
	kind uint
	lit  string
	off  int
}

func scan(s *tpl.Scanner, src string, mode tpl.ScanMode, onErr tpl.ScanErrorHandler) (out []tk) {
	f := token.NewFileSet().AddFile("", -1, len(src))
	s.Init(f, []byte(src), onErr, mode)
	for i := 0; i < 10000; i++ {
		t := s.Scan()
		out = append(out, tk{t.Kind, t.Literal, f.Offset(t.Pos)})
		if t.Kind == tpl.EOF {
			return
		}
	}
	must(false, "no end", src)
	return
}
'''
seed("scan-exp-E", "C01", SC,
     [("if s.ch == '.' || s.ch == 'e' || s.ch == 'E' || s.ch == 'i' {", "if s.ch == '.' || s.ch == 'e' || s.ch == 'i' {")],
     "a floating-point literal with a leading zero and an upper-case exponent is split into two tokens",
     "a literal such as 0E5 or 07E1: leading 0, no fraction, upper-case exponent", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a 0E5 b", 0, nil)
	must(len(r) == 4 && r[1].kind == tpl.FLOAT && r[1].lit == "0E5", r)
}''')
seed("scan-andnot", "C01", SC,
     [("""			if s.ch == '^' {
				s.next()
				t.Kind = s.switch2(AND_NOT, AND_NOT_ASSIGN)
			} else {
				t.Kind = s.switch3(AND, AND_ASSIGN, '&', LAND)
			}""", """			t.Kind = s.switch3(AND, AND_ASSIGN, '&', LAND)
			if t.Kind == AND && s.ch == '^' {
				s.next()
				t.Kind = AND_NOT
			}""")],
     "the operator &^= is split into &^ and =", "the three-character operator &^=", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a &^= b &^ c", 0, nil)
	must(len(r) == 6 && r[1].kind == tpl.AND_NOT_ASSIGN && r[3].kind == tpl.AND_NOT, r)
}''')
seed("scan-comment-cr", "C01", SC,
     [("""	for s.ch >= 0 {
		ch := s.ch
		if ch == '\\r' {
			hasCR = true
		}
		s.next()
		if ch == '*' && s.ch == '/' {""", """	for s.ch >= 0 {
		ch := s.ch
		if ch == '\\r' {
			hasCR = true
			s.next()
			continue
		}
		s.next()
		if ch == '*' && s.ch == '\\r' {
			s.next()
		}
		if ch == '*' && s.ch == '/' {""")],
     "a general comment ends at '*', carriage return, '/', although no '*/' is there",
     "a carriage return between '*' and '/' inside a general comment", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a /* x *\\r/ y */ b", tpl.ScanComments, nil)
	must(len(r) == 4 && r[1].kind == tpl.COMMENT && r[2].lit == "b", r)
}''')
seed("scan-count-nil", "C02", SC,
     [("""		s.err(s.file.Position(s.file.Pos(offs)), msg)
	}
	s.ErrorCount++""", """		s.err(s.file.Position(s.file.Pos(offs)), msg)
		s.ErrorCount++
	}""")],
     "errors aren't counted when no error handler is installed", "a source with an error and a nil handler", SCAN + '''
func main() {
	s := new(tpl.Scanner)
	scan(s, "a \\x01", 0, nil)
	must(s.ErrorCount == 1, s.ErrorCount)
}''')
seed("scan-eof-again", "C02", SC,
     [("""			if s.insertSemi {
				s.insertSemi = false // EOF consumed
				t.Kind, t.Literal = SEMICOLON, "\\n"
				return
			}
			t.Kind = EOF""", """			if s.insertSemi {
				t.Kind, t.Literal = SEMICOLON, "\\n"
				s.insertSemi = s.offset < len(s.src) // EOF consumed
				return
			}
			t.Kind = EOF
			insertSemi = s.ch == '\\n'"""),
      ("""		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
		}
		s.ch = -1 // eof""", """		if s.ch == '\\n' {
			s.lineOffset = s.offset
			s.file.AddLine(s.offset)
			if s.mode == InsertSemis|ScanComments {
				s.offset--
			}
		}
		s.ch = -1 // eof""")],
     "the end of file is reported one byte early when the last character is a newline, in one scan mode",
     "comments and semicolons both requested and a newline as last byte", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a +\\n", tpl.ScanComments|tpl.InsertSemis, nil)
	must(len(r) == 3 && r[2].off == 4, r)
}''')
seed("semi-second-comment", "C03", SC,
     [("	for s.ch == '/' || s.ch == '*' {\n		if s.ch == '/' {", "	if s.ch == '/' || s.ch == '*' {\n		if s.ch == '/' {"),
      ("""		for s.ch >= 0 {
			ch := s.ch
			if ch == '\\n' {
				return true
			}
			s.next()
			if ch == '*' && s.ch == '/' {
				s.next()
				break
			}
		}""", """		for s.ch >= 0 {
			ch := s.ch
			if ch == '\\n' {
				return true
			}
			s.next()
			if ch == '*' && s.ch == '/' {
				s.next()
				break
			}
		}
		if s.ch == '/' {
			return false
		}""")],
     "no semicolon is inserted when the line ends in the second of two adjacent comments",
     "two comments after the last token of a line, the second directly behind the first", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a /* b *//* c\\n*/ d", tpl.InsertSemis, nil)
	must(len(r) == 5 && r[1].kind == tpl.SEMICOLON && r[1].lit == "\\n" && r[2].lit == "d", r)
}''')
seed("semi-illegal", "C03", SC,
     [("			insertSemi = s.insertSemi // preserve insertSemi info\n", "")],
     "an illegal character between the last token of a line and its end suppresses the semicolon",
     "an illegal character after an operand at the end of a line", SCAN + '''
func main() {
	r := scan(new(tpl.Scanner), "a \\x01\\nb", tpl.InsertSemis, func(token.Position, string) {})
	must(len(r) == 6 && r[2].kind == tpl.SEMICOLON, r)
}''')
seed("esc-surrogate", "C04", SC,
     [("x > max || 0xD800 <= x && x < 0xE000", "x > max || 0xD800 <= x && x < 0xDC00")],
     "escapes that name a low surrogate are accepted", "an escape between \\\\uDC00 and \\\\uDFFF", SCAN + '''
func main() {
	n := 0
	scan(new(tpl.Scanner), `"\\uDFFF"`, 0, func(token.Position, string) { n++ })
	must(n == 1, n)
}''')
seed("rune-empty-after-escape", "C04", SC,
     [("	if valid && n != 1 {", "	if valid && (n == 0 || n > 1 && s.src[offs+1] != '\\\\') {")],
     "a character literal with an escape and further characters is accepted", "a character literal such as '\\\\nx'", SCAN + '''
func main() {
	n := 0
	scan(new(tpl.Scanner), `'\\nx'`, 0, func(token.Position, string) { n++ })
	must(n == 1, n)
}''')
seed("octal-frac", "C04", SC,
     [("""				seenDecimalDigit = true
				s.scanMantissa(10)
			}
			if s.ch""", """				seenDecimalDigit = true
				s.scanMantissa(10)
			} else if digitVal(s.ch) < 16 && s.ch != 'e' && s.ch != 'E' {
				s.error(offs, "illegal octal number")
			}
			if s.ch""")],
     "a well-formed octal number directly followed by an identifier that starts with a to f gives an error",
     "0 or an octal number directly followed by a letter in a-d, f", SCAN + '''
func main() {
	n := 0
	r := scan(new(tpl.Scanner), "07fx", 0, func(token.Position, string) { n++ })
	must(n == 0 && len(r) == 3, n, r)
}''')
seed("reuse-lineoffset", "C05", SC,
     [("	s.lineOffset = 0\n", "")],
     "a //line comment in the first line is ignored when the scanner was used before",
     "reusing a scanner after a source of several lines, for one that starts with a //line comment", '''
func main() {
	s := new(tpl.Scanner)
	line := func(src string) int {
		f := token.NewFileSet().AddFile("", -1, len(src))
		s.Init(f, []byte(src), nil, 0)
		t := s.Scan()
		return f.Position(t.Pos).Line
	}
	line("a")
	must(line("//line x.go:77\\nb") == 77)
	f := token.NewFileSet().AddFile("", -1, 6)
	s.Init(f, []byte("a\\nb\\nc\\n"), nil, 0)
	for s.Scan().Kind != tpl.EOF {
	}
	must(line("//line x.go:77\\nb") == 77, "second use")
}''')
seed("source-filebase", "C05", "tpl/grammar.go",
     [("""	start := s.File.Offset(doc[0].Pos)
	end := s.File.Offset(doc[n].Pos)
	return s.Src[start:end]
}""", """	start := int(doc[0].Pos) - 1
	end := int(doc[n].Pos) - 1
	if base := s.File.Base(); base > 1 && base <= len(s.Src) {
		start, end = start-base+1, end-base+1
	} else if base > 1 {
		start, end = s.File.Offset(doc[0].Pos), s.File.Offset(doc[n].Pos)-(base-1)/(1<<20)
	}
	return s.Src[start:end]
}""")],
     "the source text of a token range loses its end when the file lies at a base beyond 1 MiB",
     "a scanner initialised with a file at a large base of its file set", '''
func main() {
	s := new(tpl.Scanner)
	src := "a bc d"
	fs := token.NewFileSet()
	fs.AddFile("x", -1, 3<<20)
	f := fs.AddFile("", -1, len(src))
	s.Init(f, []byte(src), nil, 0)
	var toks []tpl.Token
	for {
		t := s.Scan()
		toks = append(toks, t)
		if t.Kind == tpl.EOF {
			break
		}
	}
	toks = toks[:len(toks)-1]
	must(string(tpl.Source(toks[:2], s)) == "a bc ", string(tpl.Source(toks[:2], s)))
}''')
seed("kw-ellipsis", "C06", "tpl/token.go",
     [("	for i, s := range tokens {\n", "	for i, s := range tokens[:ELLIPSIS] {\n")],
     "the literal of the operator ... isn't known", "the last operator of the table", '''
	must(tpl.Lit2Token("\\"...\\"") == tpl.ELLIPSIS)''')
seed("kw-renumber", "C06", "tpl/compiler.go",
     [("""		if tok, ok := p.keywords[kw]; ok {
			return tok
		}
		tok =""", """		if tok, ok := p.keywords[kw]; ok && p.tokens[len(p.tokens)-1] != lit {
			return tok
		}
		tok =""")],
     "registering the keyword registered last again gives it a second kind", "the same word registered twice in a row", '''
	s := new(tpl.AutoKwScanner)
	a := s.Ltot("\\"if\\"")
	b := s.Ltot("\\"if\\"")
	must(a == b, a, b)''')
seed("kw-prefix", "C06", "tpl/compiler.go",
     [("""	if t.Kind == IDENT {
		if tok, ok := p.keywords[t.Literal]; ok {""", """	if t.Kind == IDENT && len(t.Literal) <= 16 {
		if tok, ok := p.keywords[t.Literal]; ok {""")],
     "keywords of more than 16 characters scan as identifiers", "a keyword longer than 16 characters", '''
	s := new(tpl.AutoKwScanner)
	kw := "abcdefghijklmnopqrstuvw"
	k := s.Ltot("\\"" + kw + "\\"")
	f := token.NewFileSet().AddFile("", -1, len(kw))
	s.Init(f, []byte(kw), nil, 0)
	must(s.Scan().Kind == k)''')
