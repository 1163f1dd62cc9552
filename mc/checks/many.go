package checks

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/peg"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"github.com/qiniu/text/tpl/interpreter"
)

// manyGrammars have words that are keywords of some and names in others.
var manyGrammars = []string{
	"doc = *(IDENT/w ?';');",
	"doc = *(\"if\"/k | IDENT/w | ';');",
	"doc = *((\"x\"/k | \"if\" IDENT/w) ?';');",
	"doc = IDENT/w % \"if\" ?';'; ",
	"if = IDENT/w; doc = +(x | if | ';'/k); x = \"a\"/k;",
}

// manyEngines builds engines one after another, with options that are the same or others, and
// evaluates texts on all of them: each does what it does alone. opts says how many kinds of options
// there are, odd ones insert semicolons; build starts an engine that logs the marked words.
func manyEngines(c *core.C, opts int, build func(text string, n int) (func(src string) (string, error), error)) {
	c.Family("engines built one after another, with shared options")
	ins := spaced([]string{"a", "if", "x"}, 2)
	eachIdx(c, len(manyGrammars)*opts, 2, c.Pick(2, 3), func(ix []int) {
		ix = cp(ix)
		c.Do(func() string {
			var w []string
			for _, i := range ix {
				w = append(w, fmt.Sprintf("%q with options %d", manyGrammars[i/opts], i%opts))
			}
			return strings.Join(w, ", ")
		}, func() string {
			c.Nontrivial(1)
			var evals []func(string) (string, error)
			var rs []*peg.Rules
			for _, i := range ix {
				f, err := build(manyGrammars[i/opts], i%opts)
				if err != nil {
					return err.Error()
				}
				r, _, bad := peg.Parse(manyGrammars[i/opts])
				if bad != nil {
					return bad.Msg
				}
				evals, rs = append(evals, f), append(rs, r)
			}
			for k, i := range ix {
				mode := tpl.ScanMode(0)
				if i%opts%2 == 1 {
					mode = tpl.InsertSemis
				}
				for _, s := range ins {
					in := newInputMode(s, rs[k].Keywords(), mode)
					mach := &peg.Machine{R: rs[k], In: in.tks, Max: maxRefSteps}
					want, _ := mach.Run(rs[k].Defs["doc"], 0)
					ok := want.OK && want.N == len(in.tks)
					log := map[string]string{}
					for _, e := range mach.Events {
						if e.What == 'a' {
							log[e.Name] += e.Name + " " + in.toks[e.From].Lit + "\n"
						}
					}
					c.AddTrace(1)
					c.AddStates(mach.Steps)
					c.AddTransitions(mach.Steps)
					got, err := evals[k](s)
					if (err == nil) != ok {
						return fmt.Sprintf("engine %d: %q gives error %v, want success: %v", k, s, err, ok)
					}
					if want := log["w"] + log["k"]; ok && got != want {
						return fmt.Sprintf("engine %d: %q gives %q, want %q", k, s, got, want)
					}
				}
			}
			return ""
		})
	})
}

func manyInterpreters(c *core.C) {
	own := []*interpreter.Options{nil, interpreter.InsertSemis, {}, {ScanMode: tpl.InsertSemis}}
	manyEngines(c, len(own), func(text string, n int) (func(string) (string, error), error) {
		log := map[string]string{}
		ipt := &testIpt{grammar: text, stk: &logStack{}, fns: map[string]interface{}{
			"$w": func(s *logStack, v string) { log["w"] += "w " + v + "\n" }, "$k": func(s *logStack, v string) { log["k"] += "k " + v + "\n" },
		}}
		eng, err := interpreter.New(ipt, own[n])
		return func(src string) (string, error) {
			log = map[string]string{}
			err := eng.Eval(src)
			return log["w"] + log["k"], err
		}, err
	})
}

func manyExtractors(c *core.C) {
	own := []*extractor.Options{nil, extractor.InsertSemis, {}, {ScanMode: tpl.InsertSemis}}
	manyEngines(c, len(own), func(text string, n int) (func(string) (string, error), error) {
		text = strings.NewReplacer("/w", "/w_Texts", "/k", "/k_Texts").Replace(text)
		eng, err := extractor.New(text, own[n])
		return func(src string) (string, error) {
			doc, err := eng.SafeExtract(src)
			log := ""
			for _, tag := range []string{"w", "k"} {
				l, _ := doc[tag].([]interface{})
				for _, v := range l {
					log += fmt.Sprint(tag, " ", v, "\n")
				}
			}
			return log, err
		}, err
	})
}
