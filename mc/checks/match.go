package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
)

func init() {
	core.Register(&core.Check{
		ID:   "C15",
		Rule: "a case is one compiled grammar with one history of operations (Match, MatchExactly, Eval, EvalSub on text, bytes and tokens, Tokenize, Code) on sources that match, match partly, don't match or have lexical errors; every answer is compared with the reference, which knows no history; non-trivial: all",
		Run:  runC15,
	})
}

type matchOp struct {
	kind string
	sub  string
	src  string
}

func (o matchOp) String() string {
	if o.sub != "" {
		return fmt.Sprintf("%s(%s, %q)", o.kind, o.sub, o.src)
	}
	return fmt.Sprintf("%s(%q)", o.kind, o.src)
}

// matchSys is one compiled grammar with the operations on it.
type matchSys struct {
	p     *pegRun
	ret   tpl.CompileRet
	inits int
	kw    map[string]bool
	code  string
	mode  tpl.ScanMode
	buf   []byte
}

func newMatchSys(r *peg.Rules, mode tpl.ScanMode) (*matchSys, string) {
	s := &matchSys{p: &pegRun{r: r, root: r.Defs["doc"]}, kw: r.Keywords(), mode: mode}
	cl := &tpl.Compiler{Grammar: []byte(r.Text()), ScanMode: mode, Init: func() { s.inits++; s.p.ev = s.p.ev[:0] }, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
			a, b := s.p.span(toks)
			s.p.ev = append(s.p.ev, peg.Event{What: 'a', Name: mark, From: a, To: b, Len: g.Len()})
		})
	}}
	var err error
	if e := try(func() { s.ret, err = cl.Cl() }); e != nil || err != nil {
		return nil, fmt.Sprintf("refused: %v %v", e, err)
	}
	s.p.m = s.ret.Matcher
	s.code = s.ret.Code()
	return s, ""
}

// text gives a source in the buffer that the earlier ones were in.
func (s *matchSys) text(src string) []byte {
	if s.mode&tpl.ScanComments != 0 {
		return []byte(src)
	}
	if cap(s.buf) < len(src) {
		s.buf = make([]byte, 0, 2*len(src)+16)
	}
	s.buf = append(s.buf[:0], src...)
	return s.buf
}

// step runs one operation and compares it with the reference.
func (s *matchSys) step(c *core.C, o matchOp) string {
	m := s.ret.Matcher
	lx := lexref.Lex(o.src, s.mode&tpl.ScanComments != 0, s.mode&tpl.InsertSemis != 0)
	var in *input
	var ref peg.Out
	mach := &peg.Machine{R: s.p.r, Max: maxRefSteps}
	badLex := lx.Malformed()
	root := s.p.root
	if o.sub != "" {
		root = s.p.r.Defs[o.sub]
	}
	if !badLex {
		in = &input{src: o.src, toks: lx.Toks, idx: map[int]int{}}
		for i, t := range lx.Toks {
			if _, ok := in.idx[t.Off]; !ok {
				in.idx[t.Off] = i
			}
			if t.Kind != tpl.EOF {
				k := peg.Tk{Kind: t.Kind, Lit: t.Lit}
				if k.Kind == tpl.IDENT && s.kw[k.Lit] {
					k.Kind = peg.KwKind
				}
				in.tks = append(in.tks, k)
			}
		}
		mach.In = in.tks
		if root != nil {
			var over bool
			if ref, over = mach.Run(root, 0); over {
				return ""
			}
		}
	}
	c.AddTransitions(1)
	c.AddStates(1)
	s.p.in, s.p.bad = in, ""
	s.p.ev = s.p.ev[:0]
	inits := s.inits
	var err error
	var next []tpl.Token
	hasNext := false
	fatal := false
	var toks []tpl.Token
	e := try(func() {
		switch o.kind {
		case "match":
			next, err = m.Match(s.text(o.src), "d/f.x")
			hasNext = true
		case "exact":
			err = m.MatchExactly(s.text(o.src), "d/f.x")
		case "eval":
			err = m.Eval(o.src)
		case "sub-text":
			err = s.ret.EvalSub(o.sub, o.src)
		case "sub-bytes":
			b := s.text(o.src)
			if err = s.ret.EvalSub(o.sub, b); string(b) != o.src {
				panic("the text was changed")
			}
		case "sub-tokens", "tokenize":
			toks, err = m.Tokenize(s.text(o.src), "d/f.x")
			if err == nil && o.kind == "sub-tokens" {
				err = s.ret.EvalSub(o.sub, toks)
			}
		case "code":
			if got := m.Code(); got != s.code {
				panic("Code changed to " + got)
			}
		}
	})
	if e != nil {
		me, ok := e.(*tpl.MatchError)
		if !ok {
			return fmt.Sprintf("panic: %v", e)
		}
		err, fatal = me, true
	}
	switch o.kind {
	case "code":
		return ""
	case "tokenize", "sub-tokens", "match", "exact", "eval", "sub-text", "sub-bytes":
		if o.sub != "" && root == nil {
			if err == nil || o.kind != "sub-tokens" && err != tpl.ErrNoGrammar {
				return fmt.Sprintf("unknown rule %s: error %v", o.sub, err)
			}
			return ""
		}
		if badLex {
			te, ok := err.(*tpl.TokenizeError)
			if !ok {
				return fmt.Sprintf("lexical error expected, got %v", err)
			}
			if te.Error() == "" || te.Error() != te.Msg {
				return "TokenizeError without a message"
			}
			if name := te.Pos.Filename; (o.kind == "match" || o.kind == "exact" || o.kind == "tokenize") && name != "d/f.x" {
				return "TokenizeError in file " + name
			}
			if s.inits != inits || len(s.p.ev) != 0 {
				return "matching began in spite of a lexical error"
			}
			return ""
		}
	}
	if o.kind == "tokenize" {
		if err != nil {
			return err.Error()
		}
		if s.inits != inits || len(s.p.ev) != 0 {
			return "Tokenize ran the grammar"
		}
	}
	if toks != nil {
		base := m.Scanner.Source().File.Base()
		if len(toks) != len(in.tks) {
			return fmt.Sprintf("%d tokens, want %d", len(toks), len(in.tks))
		}
		all := toks[:len(toks)+1] // EOF follows
		for i, t := range all {
			w := in.toks[i]
			if int(t.Pos)-base != w.Off || t.Literal != w.Lit || (t.Kind != w.Kind) != (t.Kind >= tpl.USER_TOKEN_BEGIN) {
				return fmt.Sprintf("token %d is %v", i, t)
			}
		}
	}
	if o.kind == "tokenize" { // the tokens are the caller's, and so is the text
		for i := range s.buf {
			s.buf[i] = 'Z'
		}
		for i, t := range toks {
			if t.Literal != in.toks[i].Lit {
				return fmt.Sprintf("token %d is %v when the text is used for something else", i, t)
			}
		}
		return ""
	}
	// a match
	want := ref.OK && (o.kind == "match" || ref.N == len(in.tks))
	if (err == nil) != want {
		return fmt.Sprintf("error is %v, want success=%v", err, want)
	}
	if fatal != ref.Fatal {
		return fmt.Sprintf("failed for good: %v, want %v", fatal, ref.Fatal)
	}
	if hasNext && err == nil && len(next) != len(in.tks)-ref.N {
		return fmt.Sprintf("%d tokens left, want %d", len(next), len(in.tks)-ref.N)
	}
	if err != nil {
		if e := try(func() { _ = err.Error() }); e != nil {
			return fmt.Sprintf("Error() panicked: %v", e)
		}
		if me, ok := err.(*tpl.MatchError); ok && ref.OK && (o.kind == "exact" || o.kind == "eval" || o.kind == "sub-text" || o.kind == "sub-bytes" || o.kind == "sub-tokens") {
			if len(me.Src) != len(in.tks)-ref.N || me.Grammar != tpl.GrEOF {
				return fmt.Sprintf("left-over input reported as %v", me)
			}
		}
	}
	if s.inits != inits+1 {
		return fmt.Sprintf("Init ran %d times", s.inits-inits)
	}
	if s.p.bad != "" {
		return s.p.bad
	}
	bad := len(s.p.ev) != len(mach.Events)
	for i := 0; !bad && i < len(mach.Events); i++ {
		w := mach.Events[i]
		if w.From == w.To {
			w.From, w.To = -1, -1
		}
		bad = w != s.p.ev[i]
	}
	if bad {
		return fmt.Sprintf("marks %s, want %s", showEvents(s.p.ev), showEvents(mach.Events))
	}
	return ""
}

// parts evaluates every part of the tokens of a text on its own.
func (s *matchSys) parts(c *core.C, sub, src string) string {
	c.Nontrivial(1)
	m := s.ret.Matcher
	in := newInputMode(src, s.kw, s.mode)
	toks, err := m.Tokenize([]byte(src), "f")
	if err != nil {
		return err.Error()
	}
	before := fmt.Sprint(toks)
	for i := 0; i <= len(toks); i++ {
		for j := i; j <= len(toks); j++ {
			mach := &peg.Machine{R: s.p.r, In: in.tks[i:j], Max: maxRefSteps}
			ref, over := mach.Run(s.p.r.Defs[sub], 0)
			if over {
				continue
			}
			c.AddTrace(1)
			c.AddTransitions(1)
			c.AddStates(1)
			s.p.in, s.p.bad, s.p.ev = in, "", s.p.ev[:0]
			e := try(func() { err = s.ret.EvalSub(sub, toks[i:j]) })
			if e != nil {
				me, ok := e.(*tpl.MatchError)
				if !ok || !ref.Fatal {
					return fmt.Sprintf("part [%d:%d]: panic %v", i, j, e)
				}
				err = me
			} else if ref.Fatal {
				return fmt.Sprintf("part [%d:%d]: error %v, want a failure for good", i, j, err)
			}
			if want := ref.OK && ref.N == j-i; (err == nil) != want {
				return fmt.Sprintf("part [%d:%d]: error %v, want success=%v", i, j, err, want)
			}
			if err != nil {
				if e := try(func() { _ = err.Error() }); e != nil {
					return fmt.Sprintf("part [%d:%d]: Error() panicked: %v", i, j, e)
				}
				if me, ok := err.(*tpl.MatchError); ok && ref.OK && (me.Grammar != tpl.GrEOF || len(me.Src) != j-i-ref.N) {
					return fmt.Sprintf("part [%d:%d]: left-over input reported as %v", i, j, me)
				} else if ok && ref.OK {
					line := 1 + strings.Count(src[:m.Tokener().Source().File.Offset(toks[i+ref.N].Pos)], "\n")
					if text := me.Error(); !strings.HasPrefix(text, fmt.Sprintf("line %d: ", line)) {
						return fmt.Sprintf("part [%d:%d]: left-over input of line %d reported as %s", i, j, line, text)
					}
				}
			}
			if s.p.bad != "" {
				return s.p.bad
			}
			bad := len(s.p.ev) != len(mach.Events)
			for k := 0; !bad && k < len(mach.Events); k++ {
				w := mach.Events[k]
				if w.From == w.To {
					w.From, w.To = -1, -1
				} else {
					w.From, w.To = w.From+i, w.To+i
				}
				bad = w != s.p.ev[k]
			}
			if bad {
				return fmt.Sprintf("part [%d:%d]: marks %s, want %s behind token %d", i, j, showEvents(s.p.ev), showEvents(mach.Events), i)
			}
			if fmt.Sprint(toks) != before {
				return fmt.Sprintf("part [%d:%d]: the tokens were changed", i, j)
			}
		}
	}
	return ""
}

func (s *matchSys) run(c *core.C, ops []matchOp) string {
	for i, o := range ops {
		if msg := s.step(c, o); msg != "" {
			return fmt.Sprintf("step %d %v: %s", i, o, msg)
		}
	}
	return ""
}

func mustRules(text string) *peg.Rules {
	r, _, bad := peg.Parse(text)
	if bad != nil {
		panic(bad.Msg + ": " + text)
	}
	return r
}

var matchGrammars = []string{
	"doc = sub '+' sub | sub; sub = IDENT/a | INT/b;",
	"doc = *(sub/s ','); sub = IDENT/a % '+';",
	"sub = '(' ?doc/d ')'; doc = +(IDENT/i | sub/s)/N;",
	"doc = IDENT/a ! sub; sub = '+' ! IDENT/b;",
	`doc = "if"/k sub | sub; sub = IDENT/a | "else"/e;`,
	"doc = sub % ','/L; sub = *INT/R IDENT;",
	"doc = @sub IDENT/a '+' | ~'+' INT/b | 1/e; sub = IDENT/p '+';",
	"doc = sub EOF; sub = ?IDENT/a;",
	"doc = sub; sub = '(' doc %= ','/A ')' | IDENT/i;",
	"doc = sub ';'/s | sub '+'/p ';'; sub = IDENT/a;",
	"doc = *(sub ';'/s); sub = IDENT '=' (INT/i | FLOAT/f | STRING/t);",
}

func runC15(c *core.C) {
	srcs := []string{"", "a", "a + 1", "a +", "( a", "a b", "if", "a $", "'", "a /* b", "a +\n"}
	kinds := []string{"match", "exact", "eval", "tokenize", "sub-text", "sub-bytes", "sub-tokens"}
	var ops []matchOp
	for _, k := range kinds {
		for _, s := range srcs {
			switch {
			case strings.HasPrefix(k, "sub"):
				ops = append(ops, matchOp{k, "sub", s}, matchOp{k, "doc", s})
				if s == "a" {
					ops = append(ops, matchOp{k, "none", s})
				}
			default:
				ops = append(ops, matchOp{k, "", s})
			}
		}
	}
	ops = append(ops, matchOp{"code", "", ""})
	offer := func(r *peg.Rules, mode tpl.ScanMode, seq []matchOp) {
		c.Do(func() string { return fmt.Sprintf("%s mode %d: %v", clip(r.Text()), mode, seq) }, func() string {
			s, msg := newMatchSys(r, mode)
			if msg != "" {
				return msg
			}
			c.Nontrivial(1)
			c.AddTrace(1)
			msg = s.run(c, seq)
			c.Outcome(fmt.Sprint(s.inits, len(s.p.ev)))
			return msg
		})
	}
	c.Family("all histories of 1 and 2 operations")
	for _, g := range matchGrammars {
		r := mustRules(g)
		for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis, tpl.ScanComments} {
			eachIdx(c, len(ops), 1, 2, func(ix []int) {
				var seq []matchOp
				for _, i := range ix {
					seq = append(seq, ops[i])
				}
				offer(r, mode, seq)
			})
		}
	}
	c.Family("all histories of 3 (thorough 4) operations over fewer of them")
	few := []matchOp{{"match", "", "a + 1"}, {"exact", "", "a b"}, {"eval", "", "( a"}, {"eval", "", "a $"}, {"sub-text", "sub", "a"}, {"sub-tokens", "doc", "a +"}, {"tokenize", "", "b"}, {"exact", "", "a"}, {"sub-bytes", "sub", "if"}}
	for _, g := range matchGrammars {
		r := mustRules(g)
		eachIdx(c, len(few), 3, c.Pick(4, 5), func(ix []int) {
			var seq []matchOp
			for _, i := range ix {
				seq = append(seq, few[i])
			}
			offer(r, 0, seq)
		})
	}
	c.Family("all two-rule grammars, every operation once")
	all := append([]matchOp{}, ops...)
	eachRules(c, []*peg.Node{nID, nPlus}, 3, c.Pick(2, 3), func(r *peg.Rules) {
		q := mustRules(strings.NewReplacer("x", "sub").Replace(markRules(r, false).Text()))
		offer(q, 0, all)
	})
	c.Family("long histories")
	for _, g := range matchGrammars {
		r := mustRules(g)
		for _, n := range pumpsUpTo(c.Pick(2100, 8200)) {
			var seq []matchOp
			for i := 0; i < n; i++ {
				seq = append(seq, ops[(i*7)%len(ops)])
			}
			offer(r, 0, seq)
		}
	}
	c.Family("sources of every size")
	for _, g := range matchGrammars {
		r := mustRules(g)
		for _, n := range pumpsUpTo(c.Pick(1100, 8200)) {
			var seq []matchOp
			for _, k := range kinds {
				sub := ""
				if strings.HasPrefix(k, "sub") {
					sub = "sub"
				}
				for _, s := range []string{rep("a + ", n) + "a", rep("1 ", n) + "a", rep("a, ", n), rep("(", n) + "a" + rep(")", n), rep("a = 1;\n", n), rep("a = 1;\n", n) + "$", rep("a = 1;\n", n) + "/*", rep("a\n", n), rep("x", n), rep("x", n) + " b", "\"" + rep("x", n)} {
					seq = append(seq, matchOp{k, sub, s})
				}
			}
			offer(r, tpl.InsertSemis, seq)
		}
	}
	c.Family("texts that begin, end or break with any byte or character")
	for _, g := range matchGrammars {
		r := mustRules(g)
		for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis} {
			var marks []string
			for b := 0; b < 256; b++ {
				marks = append(marks, string([]byte{byte(b)}))
			}
			marks = append(marks, "\r\n", "\n\n", "\x00\x00", "\uFEFF", "\uFEFF\uFEFF", "é", "\u00a0", "\u2028", "//", "#!", "/**/", "EOF", ";;", "\\\n", "\x1a", "0x", "...")
			for _, b := range marks {
				var seq []matchOp
				for _, s := range []string{b + "a", "a" + b, b + "a + 1", "a + 1" + b, "a" + b + "+" + b + "1", "(a)" + b, b, b + b, "a" + b + b, "a ;" + b, "1" + b} {
					for _, k := range kinds {
						sub := ""
						if strings.HasPrefix(k, "sub") {
							sub = []string{"sub", "doc"}[len(seq)%2]
						}
						seq = append(seq, matchOp{k, sub, s})
					}
				}
				offer(r, mode, seq)
			}
		}
	}
	c.Family("sub-evaluation of every part of a token sequence")
	for _, g := range matchGrammars {
		r := mustRules(g)
		for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis} {
			for _, src := range []string{"a + 1", "( a , b + 1 )", "a , a + b , a", "x = 1 ; y = 2.5 ; z = \"s\" ;", "if else a", "1 1 a , a", "( ( a ) )", "a\n+\n1\nb", "a", "", "a\n\n,\na +\nb\n\n, ; a", "1\n1\na\n;\n\n\n"} {
				for _, sub := range []string{"doc", "sub"} {
					src, sub, mode := src, sub, mode
					c.Do(func() string { return fmt.Sprintf("%s mode %d: parts of %q as %s", clip(r.Text()), mode, src, sub) }, func() string {
						s, msg := newMatchSys(r, mode)
						if msg != "" {
							return msg
						}
						return s.parts(c, sub, src)
					})
				}
			}
		}
	}
	nestSubCases(c)
	keptErrors(c)
	c.Family("a matcher without scanner or grammar")
	c.Do(func() string { return "no grammar" }, func() string {
		for _, s := range srcs[:7] {
			m := &tpl.Matcher{}
			if _, err := m.Match([]byte(s), ""); err != tpl.ErrNoGrammar {
				return fmt.Sprintf("Match without grammar: %v", err)
			}
			if err := m.MatchExactly([]byte(s), ""); err != tpl.ErrNoGrammar {
				return fmt.Sprintf("MatchExactly without grammar: %v", err)
			}
		}
		m := &tpl.Matcher{Grammar: tpl.And(tpl.Gr(tpl.IDENT), tpl.Gr(tpl.ADD))}
		if m.Eval("a +") != nil || m.Eval("a") == nil || m.Eval("a + b") == nil || m.Code() != "IDENT '+'" {
			return "matcher without scanner misbehaves"
		}
		if (tpl.CompileRet{Matcher: m}).EvalSub("x", "a") != tpl.ErrNoGrammar {
			return "EvalSub of an unknown rule"
		}
		ret := tpl.CompileRet{Matcher: m, Grammars: map[string]tpl.Grammar{"x": m.Grammar}}
		for _, src := range []interface{}{nil, 5, []string{"a"}, 'a'} {
			if err := ret.EvalSub("x", src); err == nil {
				return fmt.Sprintf("EvalSub accepted a %T", src)
			}
		}
		return ""
	})
}

// keptErrors: an error says the same whenever it is looked at.
func keptErrors(c *core.C) {
	c.Family("errors that are kept and looked at later")
	const text = `x = IDENT '+' IDENT/m; k = "if" x; n = INT ! IDENT; doc = x % ',' | k | n;`
	bad := []string{"", "a", "a +", "a + b,\nc", "a + b\nc + d", "\n\nif a", "if\na\n+", "1\n2", "1", "a + b,\n\n\n\n\n\n\n\n\n\n\nc + d,\ne + 1", "'", "a + b \x00", "a\n/* x"}
	names := []string{"looking", "another matcher's match", "another matcher's failure", "another grammar compiled on the scanner", "a malformed grammar compiled on the scanner", "sub-evaluation of its tokens", "Code", "a match of the grammar with another scanner", "keyword registration", "a longer match of another matcher"}
	const rescan = 100
	one := func(src string, ix []int) {
		c.Do(func() string {
			var w []string
			for _, i := range ix {
				if i == rescan {
					w = append(w, "another text")
				} else {
					w = append(w, names[i])
				}
			}
			return fmt.Sprintf("failure on %s, then %s", core.Q(src), strings.Join(w, ", "))
		}, func() string {
			c.AddTrace(1)
			c.AddStates(len(ix) + 1)
			c.AddTransitions(len(ix) + 1)
			c.Nontrivial(1)
			sc := new(tpl.AutoKwScanner)
			m, err := (&tpl.Compiler{Grammar: []byte(text), Scanner: sc}).Cl()
			if err != nil {
				return err.Error()
			}
			other, err := (&tpl.Compiler{Grammar: []byte("doc = *IDENT;")}).Cl()
			if err != nil {
				return err.Error()
			}
			match := func(s string) (err error) {
				if e := try(func() { err = m.Eval(s) }); e != nil {
					err, _ = e.(error)
				}
				return
			}
			kept := match(src)
			if kept == nil {
				return "matches"
			}
			toks, _ := m.Tokenize([]byte(src), "")
			say := kept.Error()
			for k, i := range ix {
				switch i {
				case 1:
					other.Eval("a b c")
				case 2:
					_ = fmt.Sprint(other.Eval("a 1"))
				case 3:
					if _, err := (&tpl.Compiler{Grammar: []byte("y = \"else\" IDENT;\n\ndoc = y;"), Scanner: sc}).Cl(); err != nil {
						return err.Error()
					}
				case 4:
					_ = fmt.Sprint(try(func() { (&tpl.Compiler{Grammar: []byte("y = ;"), Scanner: sc}).Cl() }))
				case 5:
					_ = fmt.Sprint(try(func() { _ = fmt.Sprint(m.EvalSub("x", toks), m.EvalSub("k", toks)) }))
				case 6:
					_ = m.Code()
				case 7:
					try(func() { (&tpl.Matcher{Grammar: m.Grammar, Scanner: new(tpl.Scanner)}).Eval("z + z") })
				case 8:
					sc.Ltot("\"zz\"")
				case 9:
					other.Eval(strings.Repeat("aaa\n", 300))
				case rescan:
					match("a + b")
				}
				if now := kept.Error(); now != say {
					return fmt.Sprintf("after %d operations the error says %q, at first it said %q", k+1, clip(now), clip(say))
				}
			}
			return ""
		})
	}
	for _, src := range bad {
		src := src
		eachIdx(c, len(names), 1, c.Pick(2, 4), func(ix []int) { one(src, cp(ix)) })
	}
	one("a + b\nc + d", []int{rescan})
}
