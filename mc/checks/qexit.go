package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"verif/mc/core"
)

// QExit evaluates the sources one after the other in this process; it ends
// with exit code 77 (78 if one failed) unless a source ends the process.
func QExit(srcs []string) {
	q := qnew(true)
	q.SetVar("t", func(v interface{}) interface{} { fmt.Print(v, ";"); return v })
	code := 77
	for _, s := range srcs {
		if kind, _ := qshow(q, s); kind != "ok" {
			fmt.Print("failed;")
			code = 78
		}
	}
	os.Exit(code)
}

// exitModel: what a source does up to the end of the process.
type exitModel struct {
	out    []string
	defers []func(m *exitModel)
	exit   int // -1: none
	open   bool
}

type exitNow struct{}

type exitStmt struct {
	src string
	do  func(m *exitModel)
}

func (m *exitModel) t(s interface{}) { m.out = append(m.out, fmt.Sprint(s, ";")) }

// main ends the process; whether the deferred calls of the text around run isn't specified
func (m *exitModel) main(code int) {
	m.open = len(m.defers) > 0
	m.exit = code
	panic(exitNow{})
}

// runDefers gives whether a panic is left.
func (m *exitModel) runDefers(panicking bool) bool {
	for len(m.defers) > 0 {
		d := m.defers[len(m.defers)-1]
		m.defers = m.defers[:len(m.defers)-1]
		if e := try(func() { d(m) }); e == "recover" {
			panicking = false
		} else if e != nil {
			panicking = true
		}
	}
	return panicking
}

func (m *exitModel) ret(code int, ok bool) {
	if m.runDefers(false) || !ok {
		panic("fail")
	}
	m.exit = code
	panic(exitNow{})
}

// eval runs one source.
func (m *exitModel) eval(stmts []exitStmt) {
	e := try(func() {
		for _, s := range stmts {
			s.do(m)
		}
	})
	if m.exit >= 0 {
		return
	}
	if m.runDefers(e != nil) {
		m.t("failed")
	}
}

func qexitCases(c *core.C) {
	ret := func(src string, code int) exitStmt {
		return exitStmt{src, func(m *exitModel) { m.ret(code, true) }}
	}
	stmts := []exitStmt{
		{`t("a")`, func(m *exitModel) { m.t("a") }},
		{`defer t("d")`, func(m *exitModel) { m.defers = append(m.defers, func(m *exitModel) { m.t("d") }) }},
		{`defer fn() { t("e"); panic("z") }()`, func(m *exitModel) {
			m.defers = append(m.defers, func(m *exitModel) { m.t("e"); panic("z") })
		}},
		{`defer fn() { recover() }()`, func(m *exitModel) { m.defers = append(m.defers, func(m *exitModel) { panic("recover") }) }},
		{`panic("p")`, func(m *exitModel) { panic("p") }},
		ret(`return`, 0), ret(`return 3`, 3), ret(`return nil`, 0), ret("return t(7) * 2", 14),
		{`return "x"`, func(m *exitModel) { m.ret(0, false) }},
		{`return 1.5`, func(m *exitModel) { m.ret(0, false) }},
		ret(`if 1 == 1 { if true { return 4 } }; t("no")`, 4),
		ret("switch 2 { case 1: t(1); case 2: return 5; t(2) }", 5),
		{"for i = 0; i < 3; i++ { t(i); if i == 1 { return i + 8 } }", func(m *exitModel) { m.t(0); m.t(1); m.ret(9, true) }},
		{`x = fn() { return 6 }()`, func(m *exitModel) {}},
		{`y = [1, if true { return 11 }, t("no")]`, func(m *exitModel) { m.ret(11, true) }},
		{`f = fn() { t("f"); if true { return 7 }; t("no") }; t(f())`, func(m *exitModel) { m.t("f"); m.t(7) }},
	}
	stmts = append(stmts, []exitStmt{
		{`main { t("m"); return 12 }; t("no")`, func(m *exitModel) { m.t("m"); m.main(12) }},
		{`main { }`, func(m *exitModel) { m.main(0) }},
		{`x = 5; main { x; x++; defer t("k"); defer t("l"); if true { return x + 7 }; t("no") }`, func(m *exitModel) { m.t("l"); m.t("k"); m.main(13) }},
		{`main { defer t("k"); panic("mp") }`, func(m *exitModel) { m.t("k"); panic("mp") }},
		{`main { t("m") }`, func(m *exitModel) { m.t("m"); m.main(0) }},
		{`main { return "x" }`, func(m *exitModel) { panic("type") }},
		{`main { defer fn() { recover() }(); panic("mp") }`, func(m *exitModel) { m.main(0) }},
		{`println("x", 1, nil)`, func(m *exitModel) { m.out = append(m.out, "x 1 <nil>\n") }},
		{`printf("%d-%s;", 4, "q")`, func(m *exitModel) { m.out = append(m.out, "4-q;") }},
	}...)
	// fix the trace of return t(7) * 2, whose operand is traced before
	stmts[8].do = func(m *exitModel) { m.t(7); m.ret(14, true) }
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	one := func(bodies ...[]exitStmt) {
		var srcs []string
		for _, b := range bodies {
			var s []string
			for _, st := range b {
				s = append(s, st.src)
			}
			srcs = append(srcs, strings.Join(s, "\n"))
		}
		c.Do(func() string { return strings.Join(srcs, " ;; ") }, func() string {
			m := &exitModel{exit: -1}
			want := 77
			for _, b := range bodies {
				c.AddStates(len(b))
				c.AddTransitions(len(b))
				n := len(m.out)
				m.eval(b)
				if m.exit >= 0 {
					want = m.exit
					break
				}
				if len(m.out) > n && m.out[len(m.out)-1] == "failed;" {
					want = 78
				}
			}
			c.AddTrace(1)
			if m.exit >= 0 {
				c.Nontrivial(1)
			}
			text := ""
			for _, s := range m.out {
				text += s
			}
			c.Outcome(fmt.Sprint(want, text))
			if m.open {
				return ""
			}
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			cmd := exec.CommandContext(ctx, self, append([]string{"qexit"}, srcs...)...)
			var out bytes.Buffer
			cmd.Stdout = &out
			code := 0
			var ee *exec.ExitError
			if err := cmd.Run(); errors.As(err, &ee) {
				code = ee.ExitCode()
			} else if err != nil {
				return err.Error()
			}
			if code != want || out.String() != text {
				return fmt.Sprintf("exit code %d after %q, want %d after %q", code, out.String(), want, text)
			}
			return ""
		})
	}
	eachIdx(c, len(stmts), 1, c.Pick(2, 3), func(ix []int) {
		var b []exitStmt
		for _, i := range ix {
			b = append(b, stmts[i])
		}
		one(b)
		if len(b) < 3 {
			one(b, stmts[6:7])
			one([]exitStmt{stmts[1], stmts[14]}, b)
		}
	})
	for _, n := range []int{1, 2, 63, 64, 99, 100, 125, 126, 127, 128, 129, 130, 137, 143, 192, 200, 254, 255} {
		n := n
		for _, s := range []exitStmt{
			ret(fmt.Sprintf("return %d", n), n),
			{fmt.Sprintf("main { return %d }", n), func(m *exitModel) { m.main(n) }},
			{fmt.Sprintf("main { for i = 0; true; i++ { if i == %d { return i } } }", n), func(m *exitModel) { m.main(n) }},
		} {
			one([]exitStmt{s})
			one([]exitStmt{stmts[1], s})
		}
	}
}
