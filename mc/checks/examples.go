package checks

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID:          "C40",
		Rule:        "a case is one session of one of the calculator programs, a process of its own: all sequences of lines up to a length over an alphabet of good, blank, malformed and failing lines in several line formats, and all token strings up to a length in long sessions; standard output is compared with the answers of the reference evaluators of C20, C21 and C22, standard error with the number of failing lines; non-trivial: the session has an answer",
		Assumptions: []string{"lines have up to 64 KB", "the wording of error messages isn't specified"},
		Run:         runC40,
	})
}

type exLine struct {
	text string
	toks []string // nil: blank
}

type exProg struct {
	name   string
	answer func(toks []string) (string, bool)
	lines  []exLine
	alpha  []string
}

func exAnswer[V any](k *calcKind[V], show func(V) string) func(toks []string) (string, bool) {
	return func(toks []string) (string, bool) {
		v, ok := refCalc(k, toks)
		if !ok {
			return "", false
		}
		return "> " + show(v) + "\n\n", true
	}
}

func toksLine(s string) exLine { return exLine{s, strings.Fields(s)} }

func exPrograms() []*exProg {
	common := []exLine{{"", nil}, {" \t ", nil}, toksLine("1"), toksLine("1 + 2 * 3"), toksLine("- 7"), toksLine("( 1 - 2 ) / 4"), toksLine("max ( 1 , 2 , 3 )"), toksLine("1 +"), toksLine("( 1"), toksLine("nosuch ( 1 )"), toksLine("abs ( )"), toksLine("max ( )"), toksLine("2 )"), toksLine("1 2"), toksLine("x"), toksLine("5 ;"), toksLine("; 5"), toksLine(".5"), toksLine("5."), toksLine("- 1 / 2"), toksLine("3 / 2"), toksLine("- 4 / 3 * 3"),
		{"1+1 // note", []string{"1", "+", "1"}}, {"/* only */", []string{}}, {"\t 3*3 ", []string{"3", "*", "3"}}, {"8 # note", []string{"8"}}, {"'", []string{"'"}}}
	with := func(more ...exLine) []exLine { return append(append([]exLine{}, common...), more...) }
	nk, ck, rk := numKind(), cmplxKind(), ratKind()
	return []*exProg{
		{"calculator", exAnswer(nk, func(v float64) string { return fmt.Sprint(v) }), with(toksLine("1 / 0"), toksLine("0 / 0"), toksLine("sqrt ( 2 )"), toksLine("7 % 4"), toksLine("1e21 + 1"), toksLine("- 0"), toksLine("0.1 + 0.2"), toksLine("pow ( 2 , 0.5 ) + pow ( 2 )")),
			[]string{"1", "2.5", "+", "-", "/", "(", ")", "abs", ","}},
		{"cmplxcalc", exAnswer(ck, func(v complex128) string {
			if imag(v) == 0 {
				return fmt.Sprint(real(v))
			}
			return fmt.Sprint(v)
		}), with(toksLine("1i"), toksLine("1i * 1i"), toksLine("( 1 + 2i ) * ( 1 - 2i )"), toksLine("1 / 0"), toksLine("sqrt ( - 1 )"), toksLine("1i - 1i"), toksLine("2.5e-7i + 1e21")),
			[]string{"1", "2i", "+", "-", "/", "(", ")", "abs", "*"}},
		{"ratcalc", exAnswer(rk, func(v *frac) string {
			if v.d.IsInt64() && v.d.Int64() == 1 {
				return v.n.String()
			}
			return v.n.String() + "/" + v.d.String()
		}), with(toksLine("1 / 3"), toksLine("1 / 0"), toksLine("2 / 6 * 3"), toksLine("99999999999999999999 * 99999999999999999999 / 7"), toksLine("0.125"), toksLine("1 / ( 2 - 2 ) + 1")),
			[]string{"1", "2.5", "+", "-", "/", "(", ")", "abs", ","}},
	}
}

func runC40(c *core.C) {
	dir := os.Getenv("MC_EXAMPLES")
	if dir == "" {
		panic("MC_EXAMPLES isn't set")
	}
	session := func(p *exProg, lines []exLine, sep string, last bool) {
		c.Do(func() string {
			var t []string
			for i, l := range lines {
				if i == 6 {
					t = append(t, fmt.Sprintf("... (%d lines)", len(lines)))
					break
				}
				t = append(t, core.Q(clip(l.text)))
			}
			return fmt.Sprintf("%s: %s sep=%q last=%v", p.name, strings.Join(t, " "), sep, last)
		}, func() string {
			var in strings.Builder
			var want []string
			fails := 0
			firstFail := ""
			for i, l := range lines {
				in.WriteString(l.text)
				if last || i+1 < len(lines) {
					in.WriteString(sep)
				}
				if l.toks == nil {
					continue
				}
				a, ok := p.answer(l.toks)
				if ok {
					want = append(want, a)
				} else {
					if fails++; fails == 1 {
						firstFail = l.text
					}
				}
			}
			c.AddStates(len(lines) + 1)
			c.AddTransitions(len(lines))
			c.AddTrace(1)
			c.Outcome(fmt.Sprint(p.name, len(want), fails))
			if len(want) > 0 {
				c.Nontrivial(1)
			}
			cmd := exec.Command(filepath.Join(dir, p.name))
			cmd.Stdin = strings.NewReader(in.String())
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			cmd.Env = []string{"GOTRACEBACK=single", "GOMAXPROCS=1"}
			if err := cmd.Start(); err != nil {
				return "harness: " + err.Error()
			}
			t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			if !t.Stop() {
				return "the program doesn't end"
			}
			if err != nil {
				return fmt.Sprintf("the program ended with %v: %s", err, clip(errb.String()))
			}
			got := out.String()
			if w := strings.Join(want, ""); got != w {
				a, b := strings.SplitAfter(got, "\n\n"), strings.SplitAfter(w, "\n\n")
				for i := range b {
					if i >= len(a) || a[i] != b[i] {
						x := "nothing"
						if i < len(a) {
							x = clip(core.Q(a[i]))
						}
						n := 0
						for _, l := range lines { // the line of answer i
							if l.toks != nil {
								if _, ok := p.answer(l.toks); ok {
									if n == i {
										return fmt.Sprintf("answer %d, of %s, is %s, want %s", i, core.Q(clip(l.text)), x, clip(core.Q(b[i])))
									}
									n++
								}
							}
						}
						return fmt.Sprintf("answer %d is %s, want %s", i, x, clip(core.Q(b[i])))
					}
				}
				return "more output than answers: " + clip(core.Q(strings.Join(a[len(b)-1:], "")))
			}
			msgs := strings.Count(errb.String(), "\n")
			if fails == 0 && errb.Len() > 0 {
				return "error message without an error: " + clip(errb.String())
			}
			if msgs < fails {
				return fmt.Sprintf("%d failing lines (the first is %s), but the error output has %d lines", fails, core.Q(clip(firstFail)), msgs)
			}
			return ""
		})
	}
	for _, p := range exPrograms() {
		p := p
		c.Family(p.name + ": all sequences of lines")
		eachIdx(c, len(p.lines), 0, c.Pick(2, 3), func(ix []int) {
			var l []exLine
			for _, i := range ix {
				l = append(l, p.lines[i])
			}
			for k, sep := range []string{"\n", "\r\n"} {
				for _, last := range []bool{true, false} {
					if k == 1 && len(ix) == 3 {
						continue
					}
					session(p, l, sep, last)
				}
			}
		})
		c.Family(p.name + ": every line, every following line, all in long sessions")
		var long []exLine
		n := 0
		flush := func(min int) {
			if len(long) > min {
				session(p, long, "\n", n%2 == 0)
				n++
				long = nil
			}
		}
		eachIdx(c, len(p.lines), 3, 3, func(ix []int) {
			if !c.Thorough() && (ix[0]+ix[1]+ix[2])%3 != 0 { // all pairs, still
				return
			}
			for _, i := range ix {
				long = append(long, p.lines[i])
			}
			flush(3000)
		})
		flush(0)
		c.Family(p.name + ": all token strings over " + strings.Join(p.alpha, " "))
		eachIdx(c, len(p.alpha), 1, c.Pick(4, 6), func(ix []int) {
			toks := make([]string, len(ix))
			for j, a := range ix {
				toks[j] = p.alpha[a]
			}
			long = append(long, exLine{strings.Join(toks, " "), toks})
			flush(1000)
		})
		flush(0)
		c.Family(p.name + ": sums and quotients of small numbers")
		for a := -12; a <= 12; a++ {
			for b := -12; b <= 12; b++ {
				long = append(long, toksLine(fmt.Sprintf("( %s ) / ( %s )", minus(a), minus(b))), toksLine(fmt.Sprintf("%s / 4 + %s / 6", minus(a), minus(b))))
				if p.name == "cmplxcalc" {
					long = append(long, toksLine(fmt.Sprintf("%s + ( %s ) * 1i", minus(a), minus(b))), toksLine(fmt.Sprintf("( %s ) * 1i / ( %s )", minus(a), minus(b))))
				}
			}
			flush(0)
		}
		c.Family(p.name + ": values of all magnitudes")
		for _, m := range []string{"1", "9.5", "0.1", "123456789", "3"} {
			for e := -330; e <= 320; e++ {
				t := fmt.Sprintf("%se%d", m, e)
				long = append(long, toksLine(t), toksLine("- "+t), toksLine("1 / "+t))
				if p.name == "cmplxcalc" {
					long = append(long, toksLine(t+"i"), toksLine("2 - "+t+"i"))
				}
			}
			flush(0)
		}
		c.Family(p.name + ": long lines")
		for _, n := range pumpsUpTo(c.Pick(5000, 16000)) {
			sum := append([]string{"1"}, repS2([]string{"+", "1"}, n)...)
			par := append(append(repS("(", n/4+1), "2"), repS(")", n/4+1)...)
			session(p, []exLine{{strings.Join(sum, " "), sum}, {strings.Join(par, ""), par}, {strings.Join(par[1:], ""), par[1:]}, {strings.Repeat(" ", n), nil}, {strings.Repeat("9", n), []string{strings.Repeat("9", n)}}, toksLine("1 + 1")}, "\n", n%2 == 0)
		}
	}
}

func repS2(a []string, n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, a...)
	}
	return
}

func minus(n int) string {
	if n < 0 {
		return fmt.Sprint("- ", -n)
	}
	return fmt.Sprint(n)
}
