package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/qref"

	"github.com/qiniu/text/tpl/interpreter"
	"github.com/qiniu/text/tpl/qlang"
	qcl "github.com/qiniu/text/tpl/qlang/cl"
	_ "github.com/qiniu/text/tpl/qlang/lib/builtin"
	"github.com/qiniu/text/tpl/qlang/spec"
)

// shared by the checks of the scripting language

var (
	qlog    []string
	qlogMax = 5000
)

func init() {
	qlang.Import("", map[string]interface{}{
		"t": func(v interface{}) interface{} {
			if len(qlog) > qlogMax {
				panic(fmt.Errorf("the program runs away"))
			}
			qlog = append(qlog, qdescribe(v))
			return v
		},
	})
}

func qdescribe(v interface{}) string {
	return qref.Describe(v, func(v interface{}) (string, bool) {
		switch x := v.(type) {
		case *qcl.Function:
			return "function", true
		case *qcl.Class:
			return "class", true
		case *qcl.Object:
			return "object", true
		case error:
			if v == spec.Undefined {
				return "undefined", true
			}
			return "error:" + x.Error(), true
		}
		if reflect.TypeOf(v).Kind() == reflect.Func || fmt.Sprintf("%T", v) == "*qlang.thisDeref" {
			return "function", true
		}
		return "", false
	})
}

// qengine is a language instance that is used for several programs.
type qengine struct {
	q    qlang.Qlang
	uses int
}

var qpool [2]*qengine

func qnew(lines bool) qlang.Qlang {
	var opt *qlang.Options
	if lines {
		opt = qlang.InsertSemis
	}
	q, err := qlang.New(opt)
	if err != nil {
		panic(err)
	}
	return q
}

// qget gives an instance without variables.
func qget(lines bool) qlang.Qlang {
	k := 0
	if lines {
		k = 1
	}
	e := qpool[k]
	if e == nil || e.uses >= 256 {
		e = &qengine{q: qnew(lines)}
		qpool[k] = e
	}
	e.uses++
	for n := range e.q.Vars() {
		delete(e.q.Vars(), n)
	}
	return e.q
}

// qshow shows how an evaluation ended.
func qshow(q qlang.Qlang, src string) (kind, text string) {
	var err error
	e := try(func() { err = q.SafeEval(src) })
	switch {
	case e != nil:
		return "raw", qdescribe(e)
	case err != nil:
		return "error", err.Error()
	}
	return "ok", ""
}

func qwant(out qref.Outcome) (kind, text string) {
	switch out.Kind {
	case "raw":
		return "raw", qref.Describe(out.Raw, nil)
	case "error":
		return "error", qref.ErrText(out.Err)
	}
	return "ok", ""
}

func sortedKeys(m map[string]interface{}) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

// qcompare runs a source on the code, with the expectations of a machine that has run it.
func qcompare(q qlang.Qlang, src string, m *qref.Machine, out qref.Outcome) string {
	qlog = nil
	kind, text := qshow(q, src)
	wkind, wtext := qwant(out)
	if kind != wkind || !qref.Match(wtext, text) {
		return fmt.Sprintf("ends with %s %q, want %s %q", kind, text, wkind, wtext)
	}
	if d := matchAll(m.Log, qlog); d != "" {
		return "trace: " + d
	}
	vars := q.Vars()
	for _, n := range sortedKeys(m.Top.Vars()) {
		v, ok := q.Var(n)
		w := qref.Describe(m.Top.Vars()[n], nil)
		if !ok {
			return fmt.Sprintf("variable %s isn't set, want %s", n, w)
		}
		if s := qdescribe(v); !qref.Match(w, s) {
			return fmt.Sprintf("variable %s is %s, want %s", n, s, w)
		}
	}
	if len(vars) != len(m.Top.Vars()) {
		return fmt.Sprintf("variables %v, want %v", sortedKeys(vars), sortedKeys(m.Top.Vars()))
	}
	return ""
}

func matchAll(want, got []string) string {
	for i, w := range want {
		if i >= len(got) {
			return fmt.Sprintf("%q, want %q", got, want)
		}
		if !qref.Match(w, got[i]) {
			return fmt.Sprintf("item %d of %q is %q, want %q", i, got, got[i], w)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%q, want %q", got, want)
	}
	return ""
}

// qmax is the number of steps after which a program counts as endless.
var qmax = 5000

// qprog decides one program, in the layouts whose bits are set.
func qprog(c *core.C, prog []*qref.N, layouts int) {
	c.Do(func() string { return clip(qref.Text(prog, false)) }, func() string { return qrun(c, prog, layouts) })
}

func qrun(c *core.C, prog []*qref.N, layouts int) string {
	for l := 0; l < 3; l++ {
		if layouts&(1<<l) == 0 {
			continue
		}
		src := qref.Layout(prog, l)
		m := qref.NewMachine()
		m.Max = qmax
		out := m.Run(prog)
		if out.Over {
			return ""
		}
		c.AddTrace(1)
		c.AddStates(m.Steps)
		c.AddTransitions(m.Steps)
		if out.Kind == "ok" {
			c.Nontrivial(1)
		}
		c.Outcome(out.Kind + strings.Join(m.Log, ";"))
		if msg := qcompare(qget(l > 0), src, m, out); msg != "" {
			qpool[(l+1)/2] = nil
			if msg = qcompare(qnew(l > 0), src, m, out); msg != "" { // on a fresh one
				return fmt.Sprintf("%s\nsource:\n%s", msg, src)
			}
		}
	}
	return ""
}

var _ = interpreter.InsertSemis
