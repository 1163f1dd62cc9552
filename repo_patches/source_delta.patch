From 6a593dbce7a20c44d88d9dd4b9c56c9b775428d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 01/38] fix: scan ".." as two PERIOD tokens instead of an empty
 ILLEGAL token

The scanner consumed both dots, returned Kind ILLEGAL with an empty literal
and reported no error.
---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 90bf6e8..96b1181 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -668,7 +668,7 @@ scanAgain:
 			if '0' <= s.ch && s.ch <= '9' {
 				insertSemi = true
 				t.Kind, t.Literal = s.scanNumber(true)
-			} else if s.ch == '.' {
+			} else if s.ch == '.' && s.rdOffset < len(s.src) && s.src[s.rdOffset] == '.' {
 				s.next()
 				if s.ch == '.' {
 					s.next()
-- 
2.43.0


From 2d44b6cd86160d2ffa9a6727d852e79fa9ac2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 02/38] fix: insert a semicolon before a general comment
 followed by a '#' comment

`a /*c*/ # d` lost the automatic semicolon at the line end, while
`a /*c*/ // d` and `a # d` had it.
---
 tpl/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 96b1181..1668cd8 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -250,7 +250,7 @@ func (s *Scanner) findLineEnd() bool {
 			}
 		}
 		s.skipWhitespace() // s.insertSemi is set
-		if s.ch < 0 || s.ch == '\n' {
+		if s.ch < 0 || s.ch == '\n' || s.ch == '#' { // a '#' comment always contains a newline
 			return true
 		}
 		if s.ch != '/' {
-- 
2.43.0


From 8e83b30bda9e1d96bc3a6c9ff1af1ceb6e696492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 03/38] fix: report floating-point literals whose exponent has
 no digits

`1e`, `2e+` and `1ei` were accepted silently; cmplx evaluated `1ei` as 0.
---
 tpl/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 1668cd8..8dfac2a 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -358,6 +358,9 @@ exponent:
 		if s.ch == '-' || s.ch == '+' {
 			s.next()
 		}
+		if digitVal(s.ch) >= 10 {
+			s.error(offs, "illegal floating-point exponent")
+		}
 		s.scanMantissa(10)
 	}
 
-- 
2.43.0


From ecc226ba770170d90d248ac559bc6a74ca44872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 04/38] fix: Token.End of a SEMICOLON counted its length twice

---
 tpl/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/scanner.go b/tpl/scanner.go
index 8dfac2a..7a1b612 100644
--- a/tpl/scanner.go
+++ b/tpl/scanner.go
@@ -20,6 +20,9 @@ type Token struct {
 
 // End returns end position of this token.
 func (p *Token) End() token.Pos {
+	if p.Literal != "" { // a SEMICOLON has both a literal and an operator length
+		return p.Pos + token.Pos(len(p.Literal))
+	}
 	return p.Pos + token.Pos(len(p.Literal)+TokenLen(p.Kind))
 }
 
-- 
2.43.0


From e6112146d0d02a16620966a48b655ef4e852956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:21 +0000
Subject: [PATCH 05/38] fix: TokenLen of kinds that are no operator

It returned -2 for the gaps in the token table and panicked with an index
out of range for the kind right behind its end.
---
 tpl/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/token.go b/tpl/token.go
index 6f09c1a..f145600 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -167,7 +167,7 @@ var tokens = [...]string{
 // 2) 0 for else.
 //
 func TokenLen(tok uint) int {
-	if tok > ' ' && tok <= uint(len(tokens)) {
+	if tok > ' ' && tok < uint(len(tokens)) && tokens[tok] != "" {
 		return len(tokens[tok]) - 2
 	}
 	return 0
-- 
2.43.0


From 7b211f1ae1f29b2df76d8e06d5113da44bc7832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 06/38] fix: compile EOF in a grammar to GrEOF

The documentation defines EOF as the GrEOF rule; it compiled to a token
match, and since a tokenized source holds no EOF token it never matched.
---
 tpl/compiler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 5e2b0ab..17ef97a 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -233,6 +233,9 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 				panic("illegal token: " + name)
 			}
 			g = Gr(tok)
+			if tok == EOF {
+				g = GrEOF
+			}
 		} else {
 			if g2, ok := grammars[name]; ok {
 				g = Named(name, g2)
-- 
2.43.0


From 70b1d842273375ff322984d2b98dbe6f10ca74ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 07/38] fix: accept the documented TOKEN names of operators in
 a grammar

The README says that '+' can be written ADD, "++" INC, "+=" ADD_ASSIGN and
so on; the compiler rejected them all as illegal tokens.
---
 tpl/token.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/tpl/token.go b/tpl/token.go
index f145600..1bebab6 100644
--- a/tpl/token.go
+++ b/tpl/token.go
@@ -185,6 +185,60 @@ func Token2Lit(tok uint) (s string) {
 	return
 }
 
+// operatorNames are the TOKEN names of operators, an alternative to their literals.
+var operatorNames = map[string]uint{
+	"ADD":          ADD,
+	"SUB":          SUB,
+	"MUL":          MUL,
+	"QUO":          QUO,
+	"REM":          REM,
+	"AND":          AND,
+	"OR":           OR,
+	"XOR":          XOR,
+	"LT":           LT,
+	"GT":           GT,
+	"ASSIGN":       ASSIGN,
+	"NOT":          NOT,
+	"LPAREN":       LPAREN,
+	"LBRACK":       LBRACK,
+	"LBRACE":       LBRACE,
+	"COMMA":        COMMA,
+	"PERIOD":       PERIOD,
+	"RPAREN":       RPAREN,
+	"RBRACK":       RBRACK,
+	"RBRACE":       RBRACE,
+	"SEMICOLON":    SEMICOLON,
+	"COLON":        COLON,
+	"QUESTION":     QUESTION,
+	"TILDE":        TILDE,
+	"AT":           AT,
+	"SHL":          SHL,
+	"SHR":          SHR,
+	"AND_NOT":      AND_NOT,
+	"ADD_ASSIGN":   ADD_ASSIGN,
+	"SUB_ASSIGN":   SUB_ASSIGN,
+	"MUL_ASSIGN":   MUL_ASSIGN,
+	"QUO_ASSIGN":   QUO_ASSIGN,
+	"REM_ASSIGN":   REM_ASSIGN,
+	"AND_ASSIGN":   AND_ASSIGN,
+	"OR_ASSIGN":    OR_ASSIGN,
+	"XOR_ASSIGN":   XOR_ASSIGN,
+	"SHL_ASSIGN":   SHL_ASSIGN,
+	"SHR_ASSIGN":   SHR_ASSIGN,
+	"AND_NOT_ASSIGN":AND_NOT_ASSIGN,
+	"LAND":         LAND,
+	"LOR":          LOR,
+	"ARROW":        ARROW,
+	"INC":          INC,
+	"DEC":          DEC,
+	"EQ":           EQ,
+	"NE":           NE,
+	"LE":           LE,
+	"GE":           GE,
+	"DEFINE":       DEFINE,
+	"ELLIPSIS":     ELLIPSIS,
+}
+
 var rtokens map[string]uint
 
 func init() {
@@ -194,6 +248,9 @@ func init() {
 			rtokens[s] = uint(i)
 		}
 	}
+	for name, tok := range operatorNames {
+		rtokens[name] = tok
+	}
 }
 
 // Lit2Token - literal => token
-- 
2.43.0


From 39e401f2c8f580a147b7a6fd402f3540e7a5e907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:49 +0000
Subject: [PATCH 08/38] fix: repetition of a rule that matches nothing never
 terminated

*G, +G, G1 % G2 and G1 %= G2 looped forever once an iteration matched
without consuming a token, for example with *(?IDENT).
---
 tpl/grammar.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index cd5b591..49cfce8 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -412,6 +412,10 @@ func (p *grRepeat0) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // no progress: the same match would succeed forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
@@ -446,6 +450,11 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 		return
 	}
 
+	if n == 0 { // no progress: the same match would succeed forever
+		p.len = 1
+		return
+	}
+
 	r2 := grRepeat0{p.g, 0}
 	n2, _ := r2.Match(src[n:], ctx)
 
@@ -529,6 +538,10 @@ func (p *grList) Match(src []Token, ctx Context) (n int, err error) {
 			return
 		}
 		len++
+		if n1 == 0 { // no progress: the same match would succeed forever
+			p.len = len
+			return
+		}
 		n += n1
 		src = src[n1:]
 	}
-- 
2.43.0


From 122064b49491f44138a2c409edc8376cc0cd4097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 09/38] fix: MatchError.Error panicked for a fail-fast error at
 the end of input

index out of range for `doc = IDENT! IDENT` on "a".
---
 tpl/grammar.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index 49cfce8..bbce1e4 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -130,7 +130,10 @@ func calcErrorInfo(doc []Token, idxErr int, t Tokener) (line int, text []byte) {
 	s := t.Source()
 	start := s.File.Offset(doc[0].Pos)
 	end := s.File.Offset(doc[n].Pos)
-	errpos := s.File.Offset(doc[idxErr+1].Pos)
+	errpos := end
+	if idxErr < n { // else: failed at the end of doc
+		errpos = s.File.Offset(doc[idxErr+1].Pos)
+	}
 	all := s.Src[start:end]
 	text = nextLines(all, 9)
 	if len(text) < errpos-start {
-- 
2.43.0


From 050f412b2227b29ff33932713fe0861e99535f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 10/38] fix: rules referenced before their definition were
 missing from Grammars

EvalSub reported ErrNoGrammar for them, and a recursive doc failed to
compile with ErrNoDoc.
---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 17ef97a..aa81b80 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -216,6 +216,7 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 			if err := v.Assign(a); err != nil {
 				panic(err)
 			}
+			grammars[name] = a
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
 		} else {
-- 
2.43.0


From 1444eb0c232915dd4e8b74d55b73272ba2964e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:52 +0000
Subject: [PATCH 11/38] fix: Code of nested lists and of +(+G) had a different
 meaning

a % (b % c) was printed without parentheses and +(+a) as `++a`.
---
 tpl/grammar.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpl/grammar.go b/tpl/grammar.go
index bbce1e4..cd2a547 100644
--- a/tpl/grammar.go
+++ b/tpl/grammar.go
@@ -467,7 +467,12 @@ func (p *grRepeat1) Match(src []Token, ctx Context) (n int, err error) {
 
 func (p *grRepeat1) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 	b = append(b, '+')
-	return p.g.Marshal(b, t, lvlRepeat)
+	n := len(b)
+	b = p.g.Marshal(b, t, lvlRepeat)
+	if len(b) > n && b[n] == '+' { // avoid to form the token "++"
+		b = append(b[:n], append([]byte{' '}, b[n:]...)...)
+	}
+	return b
 }
 
 // Repeat1 represents +G
@@ -560,7 +565,7 @@ func (p *grList) Marshal(b []byte, t Tokener, lvlParent int) []byte {
 		b = append(b, '=')
 	}
 	b = append(b, ' ')
-	b = p.b.Marshal(b, t, lvlList)
+	b = p.b.Marshal(b, t, lvlRepeat) // list operators are left associative
 	if lvlParent > lvlList {
 		b = append(b, ')')
 	}
-- 
2.43.0


From 98d45e2bc7ac389c0f708ec22cb21a48489aff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 12/38] fix: extractor lost array items interleaved with other
 tags

With doc = +(INT/i_Ints | IDENT/x_Texts), `1 a 2 b` gave i: [1], x: [a].
---
 tpl/extractor/document.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpl/extractor/document.go b/tpl/extractor/document.go
index e063485..c1299c4 100644
--- a/tpl/extractor/document.go
+++ b/tpl/extractor/document.go
@@ -75,6 +75,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val.(*Node).toMap()
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]map[string]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		case cateLeafArray:
 			n := arrayCollect(hd)
@@ -83,6 +86,9 @@ func (p *Node) toMap() map[string]interface{} {
 				items[i] = hd.val
 				hd = hd.tail
 			}
+			if later, ok := data[tag].([]interface{}); ok {
+				items = append(items, later...)
+			}
 			v = items
 		default:
 			panic("unknown node category")
-- 
2.43.0


From f0d92fb681df33d28ae1b0cd9c0b6046e9adc632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 13/38] fix: generator emitted tpl.tpl.Repeat1, which doesn't
 compile

---
 tpl/generator/static_parser_gen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 1b8ab9f..3b8fd52 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -129,7 +129,7 @@ func GenStaticCode(source string) (string, error) {
 	repeat1 := func(tokens []tpl.Token, g tpl.Grammar) {
 		n := len(stk)
 		a := stk[n-1]
-		stk[n-1] = fmt.Sprintf("tpl.tpl.Repeat1(%s)", a)
+		stk[n-1] = fmt.Sprintf("tpl.Repeat1(%s)", a)
 	}
 
 	repeat01 := func(tokens []tpl.Token, g tpl.Grammar) {
-- 
2.43.0


From 18583f233beefa3955c73a9f4130d30ca003b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 14/38] fix: generator emitted broken code for references to
 grammar variables

A reference behind the definition of a rule that was used before emitted
the assignment text, `true` and undefined rules emitted invalid statements,
and a recursive doc was not found.
---
 tpl/generator/static_parser_gen.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3b8fd52..4506133 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -53,7 +53,10 @@ func GenStaticCode(source string) (string, error) {
 		n := len(stk)
 		a := stk[n-1]
 		name := tokens[0].Literal
-		if _, ok := vars[name]; ok {
+		if v, ok := vars[name]; ok {
+			if v != name {
+				panic(tpl.ErrVarAssigned)
+			}
 			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
@@ -80,9 +83,10 @@ func GenStaticCode(source string) (string, error) {
 			_, ok := grammars[name]
 			if ok {
 				s = name
-			} else if s, ok = vars[name]; !ok {
+			} else if _, ok = vars[name]; ok {
+				s = name
+			} else {
 				if name == "true" {
-					vars[name] = "tpl.GrTrue"
 					s = "tpl.GrTrue"
 				} else {
 					vars[name] = name
@@ -193,6 +197,9 @@ func GenStaticCode(source string) (string, error) {
 		assignments  string
 	)
 	for k, v := range vars {
+		if k == v {
+			return "", fmt.Errorf("variable `%s` is not assigned", k)
+		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
 	}
@@ -201,7 +208,11 @@ func GenStaticCode(source string) (string, error) {
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
 	}
 	declarations += ")\n"
-	if _, ok := grammars["doc"]; ok {
+	_, ok := grammars["doc"]
+	if !ok {
+		_, ok = vars["doc"]
+	}
+	if ok {
 		output := fmt.Sprintf("\n"+
 			"type StaticCompiler struct {\n"+
 			"	Grammar  string\n"+
-- 
2.43.0


From c3a511c424b41f882acdf4ad65c42caac4728aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 15/38] fix: generator turned operators like "++" and keywords
 into STRING tokens

The generated code now asks the scanner for the token, as the compiler
does; AutoKwScanner.Ltot works before Init for that. EOF is GrEOF.
---
 tpl/compiler.go                    | 3 +++
 tpl/generator/static_parser_gen.go | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index aa81b80..9a20472 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -58,6 +58,9 @@ func (p *AutoKwScanner) Ltot(lit string) (tok uint) { // "keyword"
 			return tok
 		}
 		tok = USER_TOKEN_BEGIN + uint(len(p.tokens))
+		if p.keywords == nil {
+			p.keywords = make(map[string]uint)
+		}
 		p.keywords[kw] = tok
 		p.tokens = append(p.tokens, lit)
 	}
diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 4506133..4317e28 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -79,6 +79,9 @@ func GenStaticCode(source string) (string, error) {
 			} else {
 				s = fmt.Sprintf("tpl.Gr(tpl.%s)", name)
 			}
+			if tok == tpl.EOF {
+				s = "tpl.GrEOF"
+			}
 		} else {
 			_, ok := grammars[name]
 			if ok {
@@ -111,7 +114,7 @@ func GenStaticCode(source string) (string, error) {
 		if tok == tpl.ILLEGAL {
 			panic("illegal token: " + name)
 		}
-		stk = append(stk, "tpl.Gr(tpl.STRING)")
+		stk = append(stk, fmt.Sprintf("tpl.Gr(cmplr.Scanner.Ltot(%q))", name))
 	}
 	grTrue := func(tokens []tpl.Token, g tpl.Grammar) {
 		if tokens[0].Literal != "1" {
@@ -222,6 +225,9 @@ func GenStaticCode(source string) (string, error) {
 			"	ScanMode tpl.ScanMode\n"+
 			"}\n"+
 			"func(cmplr *StaticCompiler)Cl()tpl.CompileRet{\n"+
+			"if cmplr.Scanner == nil {\n"+
+			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
+			"}\n"+
 			"%s"+
 			"%s"+
 			"ret := tpl.CompileRet{}\n"+
-- 
2.43.0


From c8b314bd01304c7b24ae5c486b07c81f91bacabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 16/38] fix: generated code ignored StaticCompiler.ScanMode

---
 tpl/generator/static_parser_gen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 4317e28..b5d7df6 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -234,6 +234,7 @@ func GenStaticCode(source string) (string, error) {
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
+			"		ScanMode: cmplr.ScanMode,\n"+
 			"		Init: cmplr.Init,\n"+
 			"	}\n"+
 			"return ret}\n",
-- 
2.43.0


From f430af58e5fcff26e2352a2444408dfb00f34286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 17/38] fix: tplgen template imported a package path that
 doesn't exist

---
 tpl/cmd/tplgen/output.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index 2094864..dd12007 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -8,9 +8,9 @@ import (
 	"strconv"
 	{{ end }}
 
-	"github.com/qiniu/text/tpl.v1"
+	"github.com/qiniu/text/tpl"
 	{{ if .genInterpreter}}
-	"github.com/qiniu/text/tpl.v1/interpreter.util"
+	"github.com/qiniu/text/tpl/interpreter.util"
 	{{ end }}
 )
 {{if .genInterpreter}}
-- 
2.43.0


From d17b91f6dab4786ca080cbfabcf12b96802c7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:37 +0000
Subject: [PATCH 18/38] fix: ParseFloat read an octal integer out of range as a
 decimal number

---
 tpl/interpreter/interpreter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index 0a4ed46..ba6409a 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 
 	"github.com/qiniu/text/tpl"
 	"github.com/qiniu/text/tpl/interpreter.util"
@@ -53,6 +54,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if e, ok := err1.(*strconv.NumError); ok && e.Err == strconv.ErrRange && strings.Trim(lit, "01234567") == "" {
+				return float64(v1), err1 // an octal integer, never a decimal one
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
-- 
2.43.0


From 138f6e949cbdc06538dfd5e09990e66809d813a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 19/38] fix: qlang stack base wasn't restored after a panic in
 nested code

A later evaluation cleared the stack to the wrong frame.
---
 tpl/qlang/cl/ctrl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/ctrl.go b/tpl/qlang/cl/ctrl.go
index bc39e31..839bca7 100644
--- a/tpl/qlang/cl/ctrl.go
+++ b/tpl/qlang/cl/ctrl.go
@@ -187,8 +187,10 @@ func evalCode(e interpreter.Engine, p *Interpreter, name string, code interface{
 
 	old := p.base
 	p.base = p.stk.BaseFrame()
+	defer func() { // a panic may be recovered and p be used again
+		p.base = old
+	}()
 	err := e.EvalCode(p, name, code)
-	p.base = old
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From d8dac7365a7766ccdcb807428d6d67bbe6829c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 20/38] fix: a panicking deferred call escaped SafeExec and
 skipped the other ones

The remaining calls were kept and ran at the end of the next evaluation.
---
 tpl/qlang/cl/function.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index e8066e9..7d47fc6 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -289,6 +289,9 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 	}
 
 	p.ExecDefers(e)
+	if e := p.Recov; e != nil {
+		panic(e)
+	}
 
 	if p.ret == nil {
 		os.Exit(0)
@@ -301,12 +304,23 @@ func (p *Interpreter) Return(e interpreter.Engine) {
 
 func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 
-	for d := p.defers; d != nil; d = d.next {
-		if err := e.EvalCode(p, "expr", d.src); err != nil {
-			panic(err)
+	for d := p.defers; d != nil; d = p.defers {
+		p.defers = d.next
+		p.execDefer(e, d)
+	}
+}
+
+// execDefer runs a deferred call. A panic of it replaces the current one, as in Go.
+func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
+
+	defer func() {
+		if e := recover(); e != nil {
+			p.Recov = e
 		}
+	}()
+	if err := e.EvalCode(p, "expr", d.src); err != nil {
+		panic(err)
 	}
-	p.defers = nil
 }
 
 func (p *Interpreter) Defer() {
-- 
2.43.0


From 0f0af225a7b722b4e9541ebbf0d96e284038fab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 21/38] fix: recover() returned the panic of an earlier
 evaluation

---
 tpl/qlang/engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/qlang/engine.go b/tpl/qlang/engine.go
index dfd43b5..13f45b4 100644
--- a/tpl/qlang/engine.go
+++ b/tpl/qlang/engine.go
@@ -43,6 +43,7 @@ func (p Qlang) SafeExec(code []byte, fname string) (err error) {
 		p.Recov = recover()
 		p.ExecDefers(p.Engine)
 		if e := p.Recov; e != nil {
+			p.Recov = nil // reported now, not to be seen by recover() later
 			switch v := e.(type) {
 			case string:
 				err = errors.New(v)
-- 
2.43.0


From 6e074c5da75c5edd0c59c4b934bdd1b831fe1dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 22/38] fix: qlang set(slice, index, nil) panicked

nil is the zero value of the element type, as in set(map, key, nil) and
append(slice, nil).
---
 tpl/qlang/lib/builtin/builtin.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/lib/builtin/builtin.go b/tpl/qlang/lib/builtin/builtin.go
index f3a75ef..e2122d3 100644
--- a/tpl/qlang/lib/builtin/builtin.go
+++ b/tpl/qlang/lib/builtin/builtin.go
@@ -139,7 +139,11 @@ func Set(m interface{}, args ...interface{}) {
 		}
 	case reflect.Slice:
 		for i := 0; i < n; i += 2 {
-			o.Index(args[i].(int)).Set(reflect.ValueOf(args[i+1]))
+			val := reflect.Zero(o.Type().Elem())
+			if args[i+1] != nil {
+				val = reflect.ValueOf(args[i+1])
+			}
+			o.Index(args[i].(int)).Set(val)
 		}
 	default:
 		qlang.Set(m, args...)
-- 
2.43.0


From f73eb59ed144b1e307ad6dc4a13e43f264efcf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 23/38] fix: EvalSub of a source text didn't call Init

---
 tpl/compiler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 9a20472..9d49513 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -109,6 +109,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		Grammar:  g,
 		Scanner:  p.Scanner,
 		ScanMode: p.ScanMode,
+		Init:     p.Init,
 	}
 	return m.MatchExactly(text, "")
 }
-- 
2.43.0


From 56d9eaf5d2c2cf7ea0d63e453ff8b8b4c05e09d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 24/38] fix: static interpreter read octal and hexadecimal
 literals as decimal

---
 tpl/cmd/tplgen/output.tpl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index dd12007..c9cff25 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strconv"
+	"strings"
 	{{ end }}
 
 	"github.com/qiniu/text/tpl"
@@ -57,6 +58,9 @@ func ParseFloat(lit string) (v float64, err error) {
 			if err1 == nil {
 				return float64(v1), nil
 			}
+			if e, ok := err1.(*strconv.NumError); ok && e.Err == strconv.ErrRange && strings.Trim(lit, "01234567") == "" {
+				return float64(v1), err1 // an octal integer, never a decimal one
+			}
 		}
 	}
 	return strconv.ParseFloat(lit, 64)
@@ -69,26 +73,26 @@ func GetValue(t reflect.Type, lit string) (ret reflect.Value, err error) {
 	case reflect.String:
 		return reflect.ValueOf(lit), nil
 	case reflect.Float64:
-		v, err1 := strconv.ParseFloat(lit, 64)
+		v, err1 := ParseFloat(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int64:
-		v, err1 := strconv.ParseInt(lit, 10, 64)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
 		return reflect.ValueOf(v), nil
 	case reflect.Int:
-		v, err1 := strconv.Atoi(lit)
+		v, err1 := ParseInt(lit)
 		if err1 != nil {
 			err = err1
 			return
 		}
-		return reflect.ValueOf(v), nil
+		return reflect.ValueOf(int(v)), nil
 	}
 	err = errors.New("unsupported type: " + t.String())
 	return
-- 
2.43.0


From fc2d935e31d3795cd5ff48f867d0343d116d1644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 25/38] fix: tplgen used the raw text of an interpreted string
 constant as the grammar

---
 tpl/cmd/tplgen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index cfa3541..5e7d08e 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"path"
 	"runtime"
+	"strconv"
 	"text/template"
 
 	"github.com/qiniu/text/tpl/generator"
@@ -123,7 +124,9 @@ OUT:
 	if grammarContent == "" {
 		exitIfNotNil(errors.New(*grammarName + " not found."))
 	}
-	code, err := generator.GenStaticCode(grammarContent[1 : len(grammarContent)-1])
+	grammarContent, err = strconv.Unquote(grammarContent)
+	exitIfNotNil(err)
+	code, err := generator.GenStaticCode(grammarContent)
 	exitIfNotNil(err)
 	fd, err := os.OpenFile(*outputFileName, os.O_RDWR|os.O_CREATE, 0664)
 	exitIfNotNil(err)
-- 
2.43.0


From 7c4482e0cad4aa09a068b310162e688b38ffb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:01 +0000
Subject: [PATCH 26/38] fix: tplgen panicked at a declaration of the grammar
 without a value

---
 tpl/cmd/tplgen/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 5e7d08e..80aa281 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -34,7 +34,7 @@ func findInGenDecl(genDecl *ast.GenDecl, grammarName string) string {
 					index = i
 				}
 			}
-			if index != -1 {
+			if index != -1 && index < len(valueSpec.Values) {
 				basicLit, ok := valueSpec.Values[index].(*ast.BasicLit)
 				if ok {
 					return basicLit.Value
@@ -56,7 +56,7 @@ func findInAssignment(assignStmt *ast.AssignStmt, grammarName string) string {
 			}
 		}
 	}
-	if index != -1 {
+	if index != -1 && index < len(assignStmt.Rhs) {
 		basicLit, ok := assignStmt.Rhs[index].(*ast.BasicLit)
 		if ok {
 			return basicLit.Value
-- 
2.43.0


From 1c8dc6dbf4a9ebb5a498edd24d57e5299faca44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 27/38] fix: generated code left CompileRet.Grammars empty, so
 EvalSub found no rule

---
 tpl/generator/static_parser_gen.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index b5d7df6..30cf4bb 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -198,6 +198,8 @@ func GenStaticCode(source string) (string, error) {
 	var (
 		declarations string = "var (\n"
 		assignments  string
+		named        string
+		assigned     string
 	)
 	for k, v := range vars {
 		if k == v {
@@ -205,10 +207,13 @@ func GenStaticCode(source string) (string, error) {
 		}
 		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
+		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, k)
+		assigned += fmt.Sprintf("ret.Vars[%q] = %s\n", k, k)
 	}
 	for k, v := range grammars {
 		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
 		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
+		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, k)
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
@@ -228,9 +233,11 @@ func GenStaticCode(source string) (string, error) {
 			"if cmplr.Scanner == nil {\n"+
 			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
+			"ret := tpl.CompileRet{Grammars: make(map[string]tpl.Grammar), Vars: make(map[string]*tpl.GrVar)}\n"+
+			"%s"+
+			"%s"+
 			"%s"+
 			"%s"+
-			"ret := tpl.CompileRet{}\n"+
 			"ret.Matcher = &tpl.Matcher{\n"+
 			"		Grammar: doc,\n"+
 			"		Scanner: cmplr.Scanner,\n"+
@@ -240,6 +247,8 @@ func GenStaticCode(source string) (string, error) {
 			"return ret}\n",
 			declarations,
 			assignments,
+			named,
+			assigned,
 		)
 		return output, nil
 	}
-- 
2.43.0


From aa277e5dd5d7ac4b813bc5b9d555dda14ab8c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 28/38] fix: tplgen panicked at a function declared without a
 body

---
 tpl/cmd/tplgen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/cmd/tplgen/main.go b/tpl/cmd/tplgen/main.go
index 80aa281..7f9b260 100644
--- a/tpl/cmd/tplgen/main.go
+++ b/tpl/cmd/tplgen/main.go
@@ -74,7 +74,7 @@ func findInDecl(decl ast.Decl, grammarName string) string {
 		}
 	}
 	funcDecl, ok := decl.(*ast.FuncDecl)
-	if ok {
+	if ok && funcDecl.Body != nil {
 		for _, stmt := range funcDecl.Body.List {
 			declStmt, ok := stmt.(*ast.DeclStmt)
 			if ok {
-- 
2.43.0


From b04b12cca7ae3eefe750958be0cd0689414b020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 29/38] fix: imaginary literals out of range became infinite

---
 tpl/cmplx/cmplx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/cmplx/cmplx.go b/tpl/cmplx/cmplx.go
index 8951db0..a70fc9b 100644
--- a/tpl/cmplx/cmplx.go
+++ b/tpl/cmplx/cmplx.go
@@ -113,7 +113,10 @@ func (stk *Stack) PushReal(v float64) {
 
 func (stk *Stack) PushImag(v string) {
 
-	val, _ := strconv.ParseFloat(v[:len(v)-1], 64)
+	val, err := strconv.ParseFloat(v[:len(v)-1], 64)
+	if err != nil {
+		panic(err)
+	}
 	*stk = append(*stk, complex(0, val))
 }
 
-- 
2.43.0


From d28b9d4d8de9f30a50a3fcab92173f87e15e500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:01 +0000
Subject: [PATCH 30/38] fix: rational calculator read octal literals as decimal

---
 tpl/rat/big.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 43a8db0..3e729bf 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -131,6 +131,10 @@ func (stk *Stack) PushInt(v int64) {
 
 func (stk *Stack) PushString(v string) { // 这个v可以很大，超出int64范围
 
+	if i, ok := new(big.Int).SetString(v, 0); ok { // octal and hexadecimal integers too
+		*stk = append(*stk, new(big.Rat).SetInt(i))
+		return
+	}
 	val, _ := new(big.Rat).SetString(v)
 	*stk = append(*stk, val)
 }
-- 
2.43.0


From ef50d4192d704c57802669549807258f3eb7e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 31/38] fix: values of deferred calls stayed on the qlang stack
 and became the result

---
 tpl/qlang/cl/function.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpl/qlang/cl/function.go b/tpl/qlang/cl/function.go
index 7d47fc6..13b95f6 100644
--- a/tpl/qlang/cl/function.go
+++ b/tpl/qlang/cl/function.go
@@ -310,10 +310,13 @@ func (p *Interpreter) ExecDefers(e interpreter.Engine) {
 	}
 }
 
-// execDefer runs a deferred call. A panic of it replaces the current one, as in Go.
+// execDefer runs a deferred call. A panic of it replaces the current one, and
+// its value is discarded, as in Go.
 func (p *Interpreter) execDefer(e interpreter.Engine, d *Defer) {
 
+	base := p.stk.BaseFrame()
 	defer func() {
+		p.stk.SetFrame(base)
 		if e := recover(); e != nil {
 			p.Recov = e
 		}
-- 
2.43.0


From 7e9cb1e02f568f4b553e2d40a7a2f25bb5c08157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 32/38] fix: EvalSub of tokens reported left-over input at the
 first token

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 9d49513..946969a 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -94,7 +94,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 			return err
 		}
 		if len(doc) != matched {
-			return &MatchError{GrEOF, p.Matcher, doc, nil, 0}
+			return &MatchError{GrEOF, p.Matcher, doc[matched:], nil, 0}
 		}
 		return nil
 	case []byte:
-- 
2.43.0


From 9f5db4e8c834f8849830a7793b4675ef12a19842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 33/38] fix: generated compilers panicked without a marker

---
 tpl/generator/static_parser_gen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 30cf4bb..3a192f2 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -233,6 +233,9 @@ func GenStaticCode(source string) (string, error) {
 			"if cmplr.Scanner == nil {\n"+
 			"	cmplr.Scanner = new(tpl.AutoKwScanner)\n"+
 			"}\n"+
+			"if cmplr.Marker == nil {\n"+
+			"	cmplr.Marker = func(g tpl.Grammar, mark string) tpl.Grammar { return g }\n"+
+			"}\n"+
 			"ret := tpl.CompileRet{Grammars: make(map[string]tpl.Grammar), Vars: make(map[string]*tpl.GrVar)}\n"+
 			"%s"+
 			"%s"+
-- 
2.43.0


From 9ec0e0ef0a4e38cb3da4fe62dab421b87cc8536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 34/38] fix: generated code didn't compile for rules named like
 Go keywords

---
 tpl/generator/static_parser_gen.go | 35 +++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/tpl/generator/static_parser_gen.go b/tpl/generator/static_parser_gen.go
index 3a192f2..ea20958 100644
--- a/tpl/generator/static_parser_gen.go
+++ b/tpl/generator/static_parser_gen.go
@@ -2,11 +2,26 @@ package generator
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 
 	"github.com/qiniu/text/tpl"
 )
 
+// goName gives the Go identifier of a rule in the generated code: its name, or with an underscore
+// more if that is a keyword or has a meaning in the generated code. Different rules get different ones.
+func goName(rule string) string {
+	switch name := strings.TrimRight(rule, "_"); name {
+	case "", "tpl", "cmplr", "ret", "new", "nil":
+		return rule + "_"
+	default:
+		if token.Lookup(name).IsKeyword() {
+			return rule + "_"
+		}
+	}
+	return rule
+}
+
 // GenStaticCode 生成StaticCompiler的Cl() method.
 func GenStaticCode(source string) (string, error) {
 	var stk []string
@@ -57,7 +72,7 @@ func GenStaticCode(source string) (string, error) {
 			if v != name {
 				panic(tpl.ErrVarAssigned)
 			}
-			vars[name] = fmt.Sprintf("%s.Assign(%s)", name, a)
+			vars[name] = fmt.Sprintf("%s.Assign(%s)", goName(name), a)
 		} else if _, ok := grammars[name]; ok {
 			panic("grammar already exists: " + name)
 		} else {
@@ -85,15 +100,15 @@ func GenStaticCode(source string) (string, error) {
 		} else {
 			_, ok := grammars[name]
 			if ok {
-				s = name
+				s = goName(name)
 			} else if _, ok = vars[name]; ok {
-				s = name
+				s = goName(name)
 			} else {
 				if name == "true" {
 					s = "tpl.GrTrue"
 				} else {
 					vars[name] = name
-					s = name
+					s = goName(name)
 				}
 			}
 		}
@@ -205,15 +220,15 @@ func GenStaticCode(source string) (string, error) {
 		if k == v {
 			return "", fmt.Errorf("variable `%s` is not assigned", k)
 		}
-		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", k)
+		declarations += fmt.Sprintf("%s = new(tpl.GrVar)\n", goName(k))
 		assignments += fmt.Sprintf("// GrVar %s\n%s\n", k, v)
-		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, k)
-		assigned += fmt.Sprintf("ret.Vars[%q] = %s\n", k, k)
+		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, goName(k))
+		assigned += fmt.Sprintf("ret.Vars[%q] = %s\n", k, goName(k))
 	}
 	for k, v := range grammars {
-		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", k)
-		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, k, k, v)
-		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, k)
+		declarations += fmt.Sprintf("%s = new(tpl.GrNamed)\n", goName(k))
+		assignments += fmt.Sprintf("// GrNamed %s\n%s.Assign(\"%s\", %s)\n", k, goName(k), k, v)
+		named += fmt.Sprintf("ret.Grammars[%q] = %s\n", k, goName(k))
 	}
 	declarations += ")\n"
 	_, ok := grammars["doc"]
-- 
2.43.0


From f866897b172c417bbe4586b2335afeba6396457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:07 +0000
Subject: [PATCH 35/38] fix: functions named _ couldn't be called through marks

---
 tpl/cmd/tplgen/output.tpl             | 2 +-
 tpl/interpreter/interpreter.go        | 2 +-
 tpl/qlang/cl/interpreter/interpret.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpl/cmd/tplgen/output.tpl b/tpl/cmd/tplgen/output.tpl
index c9cff25..f45604e 100644
--- a/tpl/cmd/tplgen/output.tpl
+++ b/tpl/cmd/tplgen/output.tpl
@@ -221,7 +221,7 @@ func NewStaticInterpreter(ipt interpreter.Interface, options *Options) (p *Engin
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
diff --git a/tpl/interpreter/interpreter.go b/tpl/interpreter/interpreter.go
index ba6409a..cec2f3a 100644
--- a/tpl/interpreter/interpreter.go
+++ b/tpl/interpreter/interpreter.go
@@ -220,7 +220,7 @@ func New(ipt interpreter.Interface, options *Options) (p *Engine, err error) {
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
diff --git a/tpl/qlang/cl/interpreter/interpret.go b/tpl/qlang/cl/interpreter/interpret.go
index 496e034..6b65e09 100644
--- a/tpl/qlang/cl/interpreter/interpret.go
+++ b/tpl/qlang/cl/interpreter/interpret.go
@@ -246,7 +246,7 @@ func newEngine(ip1 interface{}, options *Options) (p *Engine) {
 		if mark[0] == '_' {
 			idxLen++
 		}
-		isLen := (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
+		isLen := idxLen < len(mark) && (mark[idxLen] >= 'A' && mark[idxLen] <= 'Z') // 用大写的mark表示取Grammar.Len()
 		action := func(tokens []tpl.Token, g tpl.Grammar) {
 			if p.mute > 0 { // 禁止所有非 '_' 开头的 action
 				if mark[0] != '_' || p.mute > 1 {
-- 
2.43.0


From a845fd215ea5113304c139e52c11f38c12f8f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 36/38] fix: max and min of nothing handed out a shared
 rational number

---
 tpl/rat/big.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpl/rat/big.go b/tpl/rat/big.go
index 3e729bf..ad6dc41 100644
--- a/tpl/rat/big.go
+++ b/tpl/rat/big.go
@@ -76,7 +76,7 @@ func Sub(a, b *big.Rat) *big.Rat {
 func Max(args ...*big.Rat) (max *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	max = args[0]
@@ -91,7 +91,7 @@ func Max(args ...*big.Rat) (max *big.Rat) {
 func Min(args ...*big.Rat) (min *big.Rat) {
 
 	if len(args) == 0 {
-		return zero
+		return new(big.Rat)
 	}
 
 	min = args[0]
-- 
2.43.0


From 627f76681fd2357ebbb0bcef93f1bc0d244492a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 37/38] fix: evaluating a text within an action made the outer
 evaluation lose its source

---
 tpl/compiler.go | 26 ++++++++++++++++++++++++--
 tpl/match.go    | 12 +++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 946969a..9fd6cb3 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -89,7 +89,7 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		if p.Init != nil { // 因为下面调 Grammar.Match，需要先主动调用 Init
 			p.Init()
 		}
-		matched, err := g.Match(doc, p.Matcher)
+		matched, err := p.run(g, doc)
 		if err != nil {
 			return err
 		}
@@ -111,7 +111,29 @@ func (p CompileRet) EvalSub(name string, src interface{}) error {
 		ScanMode: p.ScanMode,
 		Init:     p.Init,
 	}
-	return m.MatchExactly(text, "")
+	if p.running == 0 {
+		return m.MatchExactly(text, "")
+	}
+
+	// called by an action: give the scanner its source back, the outer match still needs it
+	scanner := p.requireScanner()
+	outer := scanner.Source()
+	err := m.MatchExactly(text, "")
+	m.Scanner = &subScanner{scanner, scanner.Source()}
+	if outer.File != nil {
+		scanner.Init(outer.File, outer.Src, nil, p.ScanMode)
+	}
+	return err
+}
+
+// subScanner is a scanner after it scanned src, whatever it is used for later.
+type subScanner struct {
+	Tokener
+	src TokenSource
+}
+
+func (p *subScanner) Source() TokenSource {
+	return p.src
 }
 
 // -----------------------------------------------------------------------------
diff --git a/tpl/match.go b/tpl/match.go
index 33fb3d3..a9d506c 100644
--- a/tpl/match.go
+++ b/tpl/match.go
@@ -18,6 +18,8 @@ type Matcher struct {
 	Scanner  Tokener
 	ScanMode ScanMode
 	Init     func()
+
+	running int // number of matches that are going on
 }
 
 // TokenizeError represents a tokenize error.
@@ -91,13 +93,21 @@ func (p *Matcher) Match(src []byte, fname string) (next []Token, err error) {
 	if p.Init != nil {
 		p.Init()
 	}
-	n, err := g.Match(tokens, p)
+	n, err := p.run(g, tokens)
 	if err != nil {
 		return
 	}
 	return tokens[n:], nil
 }
 
+func (p *Matcher) run(g Grammar, tokens []Token) (n int, err error) {
+	p.running++
+	defer func() {
+		p.running--
+	}()
+	return g.Match(tokens, p)
+}
+
 // MatchExactly matches src exactly.
 func (p *Matcher) MatchExactly(src []byte, fname string) (err error) {
 	next, err := p.Match(src, fname)
-- 
2.43.0


From 075e38967207ea1ab04483664d2f9ce7461963b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:22 +0000
Subject: [PATCH 38/38] fix: compiling a grammar doesn't depend on the keywords
 its scanner knows already

---
 tpl/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpl/compiler.go b/tpl/compiler.go
index 9fd6cb3..78f6558 100644
--- a/tpl/compiler.go
+++ b/tpl/compiler.go
@@ -360,7 +360,7 @@ func (p *Compiler) Cl() (ret CompileRet, err error) {
 
 	m := &Matcher{
 		Grammar:  doc,
-		Scanner:  scanner,
+		Scanner:  new(AutoKwScanner), // scanner may know keywords of other grammars
 		ScanMode: InsertSemis,
 	}
 	err = m.MatchExactly(p.Grammar, "")
-- 
2.43.0

