package checks

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
)

// input is one source text with its tokens.
type input struct {
	src  string
	toks []lexref.Tok // with EOF
	tks  []peg.Tk
	idx  map[int]int // offset -> token index
	mode tpl.ScanMode
	coms []lexref.Tok // with comments, if there is a //line comment
}

// line is the number of the line of an offset, adjusted by //line comments.
func (in *input) line(off int) int {
	if !strings.Contains(in.src, "//line ") {
		return 1 + strings.Count(in.src[:off], "\n")
	}
	if in.coms == nil {
		in.coms = lexref.Lex(in.src, true, in.mode&tpl.InsertSemis != 0).Toks
	}
	_, l := refPosition(in.src, off, "", in.coms)
	return l
}

func newInput(src string, kw map[string]bool) *input { return newInputMode(src, kw, 0) }

func newInputMode(src string, kw map[string]bool, mode tpl.ScanMode) *input {
	r := lexref.Lex(src, mode&tpl.ScanComments != 0, mode&tpl.InsertSemis != 0)
	if r.Malformed() {
		panic("malformed input " + src)
	}
	in := &input{src: src, toks: r.Toks, idx: map[int]int{}, mode: mode}
	for i, t := range r.Toks {
		if _, ok := in.idx[t.Off]; !ok { // a semicolon inserted at the end is where EOF is
			in.idx[t.Off] = i
		}
		if t.Kind == tpl.EOF {
			break
		}
		k := peg.Tk{Kind: t.Kind, Lit: t.Lit}
		if t.Kind == tpl.IDENT && kw[t.Lit] {
			k.Kind = peg.KwKind
		}
		in.tks = append(in.tks, k)
	}
	return in
}

func inputsOf(c *core.C, atoms []string, max int, kw map[string]bool) (out []*input) {
	for l := 0; l <= max; l++ {
		ix := make([]int, l)
		for {
			s := ""
			for j, k := range ix {
				if j > 0 {
					s += " "
				}
				s += atoms[k]
			}
			out = append(out, newInput(s, kw))
			j := l - 1
			for j >= 0 && ix[j] == len(atoms)-1 {
				ix[j] = 0
				j--
			}
			if j < 0 {
				break
			}
			ix[j]++
		}
	}
	return
}

// what a comparison looks at
const (
	cmpResult = 1 << iota // accepted, tokens consumed
	cmpEvents             // actions and transactions
	cmpDiag               // errors
	cmpOwn                // with grammars of a type of our own
)

// pegRun holds a real matcher for reference rules.
type pegRun struct {
	r    *peg.Rules
	root *peg.Node
	m    *tpl.Matcher
	made map[*peg.Node]tpl.Grammar
	gs   map[string]tpl.Grammar
	vars map[string]*tpl.GrVar
	ev   []peg.Event
	in   *input
	bad  string
	seq  int
	open []interface{} // values of the transactions that are open
	hit  bool          // the last input was accepted
}

func (p *pegRun) span(toks []tpl.Token) (int, int) {
	if len(toks) == 0 {
		return -1, -1
	}
	base := int(p.m.Scanner.Source().File.Base())
	a, ok := p.in.idx[int(toks[0].Pos)-base]
	if !ok {
		p.bad = "action got a token that isn't part of the source"
		return -2, -2
	}
	for i, t := range toks {
		j, ok := p.in.idx[int(t.Pos)-base]
		if !ok || j != a+i {
			p.bad = "action got tokens that aren't consecutive"
		}
	}
	return a, a + len(toks)
}

func (p *pegRun) hooks() *peg.Hooks {
	return &peg.Hooks{
		Made: p.made,
		Act: func(n *peg.Node, toks []tpl.Token, g tpl.Grammar) {
			a, b := p.span(toks)
			p.ev = append(p.ev, peg.Event{What: 'a', Name: n.Name, From: a, To: b, Len: g.Len()})
		},
		Begin: func(n *peg.Node) interface{} {
			p.seq++
			p.ev = append(p.ev, peg.Event{What: '(', Name: n.Name})
			var v interface{} = p.seq
			if p.seq%3 == 0 {
				v = nil // a transaction without a value
			}
			p.open = append(p.open, v)
			return v
		},
		End: func(n *peg.Node, v interface{}, err error) {
			if k := len(p.open); k == 0 || v != p.open[k-1] {
				p.bad = fmt.Sprintf("transaction %s ended with the value %v, open are %v", n.Name, v, p.open)
			} else {
				p.open = p.open[:k-1]
			}
			p.ev = append(p.ev, peg.Event{What: ')', Name: n.Name, OK: err == nil})
		},
	}
}

// newPegRun builds the real grammar of r with constructors.
func newPegRun(r *peg.Rules) *pegRun { return newPegRunOf(r, false) }

func newPegRunOf(r *peg.Rules, own bool) *pegRun {
	p := &pegRun{r: r, root: r.Defs["doc"], made: map[*peg.Node]tpl.Grammar{}}
	sc := new(tpl.AutoKwScanner)
	h := p.hooks()
	h.Wrap = own
	gs := peg.Build(r, func(w string) uint { return sc.Ltot(strconv.Quote(w)) }, h)
	p.m = &tpl.Matcher{Grammar: gs["doc"], Scanner: sc}
	return p
}

func showEvents(ev []peg.Event) string {
	var s []string
	for i, e := range ev {
		if i > 40 {
			s = append(s, fmt.Sprintf("... (%d)", len(ev)))
			break
		}
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

const maxRefSteps = 400000

// compare runs one input; over is true if the reference gave up.
func (p *pegRun) compare(c *core.C, in *input, what int) (msg string, over bool) {
	mach := &peg.Machine{R: p.r, In: in.tks, Max: maxRefSteps}
	want, over := mach.Run(p.root, 0)
	if over {
		return "", true
	}
	c.AddStates(mach.Steps)
	c.AddTransitions(mach.Steps)
	p.in, p.ev, p.bad, p.open = in, p.ev[:0], "", p.open[:0]
	p.m.ScanMode = in.mode
	var next []tpl.Token
	var err error
	fatal := false
	if e := try(func() { next, err = p.m.Match([]byte(in.src), "") }); e != nil {
		me, ok := e.(*tpl.MatchError)
		if !ok {
			return fmt.Sprintf("input %q: panic: %v", clip(in.src), e), false
		}
		err, fatal = me, true
	}
	fail := func(f string, a ...interface{}) (string, bool) {
		return fmt.Sprintf("input %q: ", clip(in.src)) + fmt.Sprintf(f, a...), false
	}
	if p.bad != "" {
		return fail("%s", p.bad)
	}
	p.hit = err == nil
	if what&cmpResult != 0 {
		if (err == nil) != want.OK {
			return fail("match returned error %v, the reference says ok=%v", err, want.OK)
		}
		if fatal != want.Fatal {
			return fail("failed for good: %v, the reference says %v", fatal, want.Fatal)
		}
		if err == nil {
			if got := len(in.tks) - len(next); got != want.N {
				return fail("consumed %d tokens, the reference %d", got, want.N)
			}
			for i, t := range next {
				w := in.toks[want.N+i]
				if int(t.Pos)-p.m.Scanner.Source().File.Base() != w.Off || t.Literal != w.Lit {
					return fail("rest token %d is %v", i, t)
				}
			}
		}
	}
	if what&cmpEvents != 0 {
		bad := len(p.ev) != len(mach.Events)
		for i := 0; !bad && i < len(p.ev); i++ {
			w := mach.Events[i]
			if w.What == 'a' && w.From == w.To {
				w.From, w.To = -1, -1
			}
			bad = p.ev[i] != w
		}
		if bad {
			return fail("events differ\n  matcher:   %s\n  reference: %s", showEvents(p.ev), showEvents(mach.Events))
		}
	}
	if what&cmpDiag != 0 && !want.OK {
		if err == nil {
			return fail("no error")
		}
		if msg := p.diag(err, want.Fail, in); msg != "" {
			return fail("%s", msg)
		}
	}
	return "", false
}

// diag compares an error with the expected failure.
func (p *pegRun) diag(err error, f *peg.Fail, in *input) string {
	if e := try(func() { _ = err.Error() }); e != nil {
		return fmt.Sprintf("Error() panicked: %v", e)
	}
	var check func(err error, f *peg.Fail) string
	check = func(err error, f *peg.Fail) string {
		if f.Node.Op == peg.Ref && p.r.Defs[f.Node.Name] == nil {
			if err != tpl.ErrVarNotAssigned {
				return fmt.Sprintf("error is %v, want %v", err, tpl.ErrVarNotAssigned)
			}
			return ""
		}
		me, ok := err.(*tpl.MatchError)
		if !ok {
			return fmt.Sprintf("error is %T", err)
		}
		at := len(in.tks) - len(me.Src)
		if len(me.Src) > 0 {
			at = in.idx[int(me.Src[0].Pos)-p.m.Scanner.Source().File.Base()]
		}
		code, want := tpl.Code(me.Grammar, p.m.Scanner), tpl.Code(p.made[f.Node], p.m.Scanner)
		if at+me.IdxErr != f.Pos+f.Idx || at != f.Pos || code != want {
			return fmt.Sprintf("error says token %d+%d doesn't match `%s`; the reference says token %d+%d doesn't match `%s`", at, me.IdxErr, code, f.Pos, f.Idx, want)
		}
		// the text
		msg := fmt.Sprintf("match failed: `%s` doesn't match `%s`", failText(in, f.Pos, f.Idx), want)
		got := me.Error()
		if me.Err != nil {
			inner := "\n" + me.Err.Error()
			if !strings.HasSuffix(got, inner) {
				return fmt.Sprintf("error text is %q, without that of its cause %q", got, inner)
			}
			got = strings.TrimSuffix(got, inner)
		}
		if f.Pos+f.Idx < len(in.tks) {
			line := in.line(in.toks[f.Pos+f.Idx].Off)
			msg = fmt.Sprintf("line %d: ", line) + msg
		} else if f.Pos < len(in.tks) {
			msg = fmt.Sprintf("line %d: ", endLine(in)) + msg
		} else if i := strings.Index(got, "match failed:"); i >= 0 {
			// nothing to quote: no line is given, or that of the end
			if l := got[:i]; l != "line 0: " && l != fmt.Sprintf("line %d: ", endLine(in)) {
				return fmt.Sprintf("error text is %q: the text ends in line %d", got, endLine(in))
			}
			got = got[i:]
		}
		if got != msg {
			return fmt.Sprintf("error text is %q, want %q", got, msg)
		}
		if (me.Err != nil) != (f.Err != nil) {
			return fmt.Sprintf("inner error: %v", me.Err)
		}
		if f.Err != nil {
			return check(me.Err, f.Err)
		}
		return ""
	}
	return check(err, f)
}

// endLine is the line the text ends in; a final newline opens no line.
func endLine(in *input) int {
	if in.src == "" {
		return 1
	}
	if in.src[len(in.src)-1] == '\n' {
		return in.line(len(in.src) - 1)
	}
	return in.line(len(in.src))
}

// failText is the source a diagnostic quotes: from the token where the unit
// was tried, nine lines or through the offending token, whatever is longer.
func failText(in *input, pos, idx int) string {
	if pos >= len(in.tks) {
		return ""
	}
	a := in.toks[pos].Off
	end := in.toks[len(in.tks)].Off
	b := end
	if pos+idx < len(in.tks) {
		b = in.toks[pos+idx+1].Off
	}
	t := in.src[a:end]
	lines := strings.SplitAfter(t, "\n")
	if len(lines) > 9 {
		t = strings.Join(lines[:9], "")
	}
	if len(t) < b-a {
		t = in.src[a:b]
	}
	return t
}

func doc1(n *peg.Node) *peg.Rules {
	return &peg.Rules{Names: []string{"doc"}, Defs: map[string]*peg.Node{"doc": n}}
}

// pegCase offers one grammar with all inputs.
func pegCase(c *core.C, r *peg.Rules, ins []*input, what int) {
	c.Do(func() string { return clip(r.Text()) }, func() string {
		p := newPegRunOf(r, what&cmpOwn != 0)
		yes, no := 0, 0
		key := make([]byte, 0, 64)
		for _, in := range ins {
			msg, over := p.compare(c, in, what)
			if msg != "" {
				return msg
			}
			if over {
				continue
			}
			c.AddTrace(1)
			if len(key) < 60 {
				key = append(key, byte('0'+len(p.ev)))
			}
			if e := p.m.Grammar; e != nil {
				if what&cmpEvents != 0 && len(p.ev) > 0 || p.hit {
					yes++
				} else {
					no++
				}
			}
		}
		if yes > 0 && (no > 0 || what&cmpEvents != 0) {
			c.Nontrivial(1)
		}
		c.Outcome(fmt.Sprint(yes, " ", no, string(key)))
		return ""
	})
}
