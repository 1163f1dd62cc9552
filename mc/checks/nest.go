package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"

	"github.com/qiniu/text/tpl"
)

// nestSys is a compiled grammar whose actions evaluate other sources by its rules.
type nestSys struct {
	ret   tpl.CompileRet
	log   []string
	errs  []error
	texts []string // of errs, when they came up
	depth int
	plain bool // evaluates nothing
}

const nestSubGrammar = `doc = +(item | list); list = '[' *(item/in) ']'; item = IDENT/word | INT/sub; pair = INT/num ',' ! INT/num; deep = IDENT/word INT/sub IDENT/word; err = *IDENT/word "end"`

// nestSubs are the sources the integers stand for: the rule, the source and whether it matches.
var nestSubs = []struct {
	rule, src string
	good      bool
}{
	{"pair", "10,\n\n20", true},
	{"pair", "10 20", false},
	{"pair", "", false},
	{"pair", "10, \"", false},
	{"deep", "x\ny", false},
	{"deep", "uuuu 0\n\nvvvv", true},
	{"deep", "k 1 \n l", true},
	{"err", "a\nb\nc\nd\n9", false},
	{"doc", "zz 5 [ a 0 ]", true},
	{"doc", "zz 3 [", false},
}

func newNestSys(mode tpl.ScanMode, form int, plain bool) *nestSys {
	s := &nestSys{plain: plain}
	var ret tpl.CompileRet
	see := func(what string, toks []tpl.Token) {
		f, l := tpl.FileLine(toks, ret.Tokener())
		s.log = append(s.log, fmt.Sprintf("%d %s %q %s:%d", s.depth, what, tpl.Source(toks, ret.Tokener()), f, l))
	}
	cl := &tpl.Compiler{Grammar: []byte(nestSubGrammar), ScanMode: mode, Marker: func(g tpl.Grammar, mark string) tpl.Grammar {
		return tpl.Action(g, func(toks []tpl.Token, g tpl.Grammar) {
			see(mark, toks)
			if mark != "sub" {
				return
			}
			if !s.plain && s.depth < 3 {
				k := int(toks[0].Literal[0]-'0') % len(nestSubs)
				x := nestSubs[k]
				var src interface{} = x.src
				if (form+s.depth)%2 == 1 {
					src = []byte(x.src)
				}
				old := s.log
				s.depth++
				err := error(nil)
				e := try(func() { err = ret.EvalSub(x.rule, src) })
				s.depth--
				inner := s.log[len(old):]
				s.log = append(old[:len(old):len(old)], fmt.Sprintf("sub %d: %v %v %q", k, err == nil, e, inner))
				if err != nil {
					s.errs, s.texts = append(s.errs, err), append(s.texts, err.Error())
				}
			}
			see("then", toks)
		})
	}}
	ret, err := cl.Cl()
	if err != nil {
		panic(err)
	}
	s.ret = ret
	return s
}

// nestSubCases: evaluations within actions leave the outer evaluation alone.
func nestSubCases(c *core.C) {
	c.Family("sub-evaluation of text within actions")
	words := []string{"aa", "\n", "[", "]", ","}
	for k := range nestSubs {
		words = append(words, fmt.Sprint(k))
	}
	// what each sub-evaluation gives alone
	alone := map[string]string{}
	for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis} {
		for form := 0; form < 2; form++ {
			for k := range nestSubs {
				s := newNestSys(mode, form, false)
				if err := s.ret.Eval(fmt.Sprint(k)); err == nil && len(s.log) == 3 {
					alone[fmt.Sprint(mode, form, k)] = s.log[1]
				}
			}
		}
	}
	eachIdx(c, len(words), 1, c.Pick(4, 5), func(ix []int) {
		ix = cp(ix)
		src := ""
		for _, i := range ix {
			src += words[i] + " "
		}
		for _, mode := range []tpl.ScanMode{0, tpl.InsertSemis} {
			mode := mode
			form := len(src) % 2
			c.Do(func() string { return fmt.Sprintf("%s in mode %d", core.Q(src), mode) }, func() string {
				c.AddTrace(1)
				c.AddStates(len(ix))
				c.AddTransitions(len(ix))
				run := func(s *nestSys) (string, error) {
					var err error
					e := try(func() { err = s.ret.MatchExactly([]byte(src), "d/g.x") })
					text := ""
					if err != nil {
						text = err.Error()
					}
					return fmt.Sprint(text, " ", e), err
				}
				ref := newNestSys(mode, form, true)
				want, _ := run(ref)
				s := newNestSys(mode, form, false)
				got, _ := run(s)
				if got != want {
					return fmt.Sprintf("ends with %s, without sub-evaluations %s", got, want)
				}
				var outer []string
				for _, l := range s.log {
					if !strings.HasPrefix(l, "sub ") {
						outer = append(outer, l)
						continue
					}
					c.Nontrivial(1)
					if a := alone[fmt.Sprint(mode, form, l[4:strings.Index(l, ":")])]; a != "" && a != l {
						return fmt.Sprintf("a sub-evaluation gives %s, alone %s", l, a)
					}
					k := l[4] - '0'
					if x := nestSubs[k]; mode == 0 && !strings.HasPrefix(l[6:], fmt.Sprint(" ", x.good)) {
						return fmt.Sprintf("a sub-evaluation gives %s, want success: %v", l, x.good)
					}
				}
				if a, b := fmt.Sprint(outer), fmt.Sprint(ref.log); a != b {
					return fmt.Sprintf("calls %s, without sub-evaluations %s", a, b)
				}
				for i, e := range s.errs {
					if e.Error() != s.texts[i] {
						return fmt.Sprintf("the error %q becomes %q", s.texts[i], e.Error())
					}
				}
				return ""
			})
		}
	})
}
