package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/mc/core"
)

// hostLists: the elements of lists from Go get everywhere as they are: into calls with a spread
// list, into variables of a multiple assignment, out of the list by their index.
func hostLists(c *core.C) {
	c.Family("lists of every type from Go")
	n, p := 7, &hostPoint{X: 1}
	lists := []interface{}{
		[]int{1, -2, 3}, []int8{1, -128, 127}, []int16{1, -2, 3}, []int32{1, -2, 'x'}, []int64{1, -1 << 63, 1<<63 - 1},
		[]uint{1, 2, 3}, []byte{1, 0, 255}, []uint16{1, 2, 3}, []uint32{1, 0, 1<<32 - 1}, []uint64{1, 2, 3}, []uintptr{1, 2, 3},
		[]float32{1, 0.5, -3}, []float64{1, 0.5, -3}, []complex64{1, 2i, 3}, []complex128{1, 2i, 3}, []string{"a", "", "c"}, []bool{true, false, true},
		[]interface{}{int8(1), nil, float32(2.5)}, []interface{}{uint16(1), "x", []int8{1}}, []interface{}{[]interface{}{1}, time.Second, &n},
		[]error{nil, fmt.Errorf("x"), nil}, []*hostPoint{p, nil, p}, []hostPoint{{X: 1}, {Y: 2}, {}}, [][]int{{1}, nil, {2, 3}}, []map[string]int{{"a": 1}, nil, {}}, []time.Duration{1, 2, 3}, []reflect.Kind{1, 2, 3}, [][2]int8{{1, 2}, {3, 4}, {}}, []struct{}{{}, {}, {}},
	}
	for _, full := range lists {
		for size := 0; size <= 3; size++ {
			for fixed := 0; fixed <= 2; fixed++ {
				l := reflect.ValueOf(full).Slice(0, size)
				fixed := fixed
				c.Do(func() string { return fmt.Sprintf("%T of %d, %d arguments before it", l.Interface(), l.Len(), fixed) }, func() string {
					c.Nontrivial(1)
					q := qnew(true)
					var got []interface{}
					q.SetVar("sink", func(a ...interface{}) int { got = append([]interface{}{}, a...); return len(a) })
					q.SetVar("l", l.Interface())
					var elems []interface{}
					var before, names []string
					for i := 0; i < fixed; i++ {
						elems = append(elems, i+5)
						before = append(before, fmt.Sprint(i+5))
					}
					for i := 0; i < l.Len(); i++ {
						elems = append(elems, l.Index(i).Interface())
						names = append(names, fmt.Sprintf("v%d", i))
					}
					args := strings.Join(append(append([]string{}, before...), "l..."), ", ")
					src := "n = sink(" + args + ")\nf = fn(a...) { return a }\nr = f(" + args + ")\n"
					if fixed == 0 && l.Len() > 1 {
						src += strings.Join(names, ", ") + " = l\n"
					}
					for i := range names {
						src += fmt.Sprintf("i%d = l[%d]\ns%d = l[%d:]\ng%d = get(l, %d)\n", i, i, i, i, i, i)
					}
					c.AddTrace(1)
					c.AddStates(len(elems) + 1)
					c.AddTransitions(len(elems) + 1)
					if err := q.SafeEval(src); err != nil {
						return err.Error()
					}
					same := func(what string, got, want interface{}) string {
						if !reflect.DeepEqual(got, want) {
							return fmt.Sprintf("%s is %T %v, want %T %v", what, got, got, want, want)
						}
						return ""
					}
					list := func(what string, v interface{}) string {
						have, ok := v.([]interface{})
						if !ok || len(have) != len(elems) {
							return fmt.Sprintf("%s are %v, want %v", what, v, elems)
						}
						for i := range elems {
							if bad := same(fmt.Sprintf("%s: number %d", what, i), have[i], elems[i]); bad != "" {
								return bad
							}
						}
						return ""
					}
					bad := list("the arguments of the Go function", got)
					if r, _ := q.Var("r"); bad == "" {
						bad = list("the arguments of the script function", r)
					}
					if k, _ := q.Var("n"); bad == "" {
						bad = same("the result", k, len(elems))
					}
					for i := 0; i < l.Len() && bad == ""; i++ {
						for _, v := range []string{"v", "i", "g"} {
							if v == "v" && (fixed != 0 || l.Len() < 2) {
								continue
							}
							name := fmt.Sprint(v, i)
							x, _ := q.Var(name)
							if bad == "" {
								bad = same(name, x, l.Index(i).Interface())
							}
						}
						if x, _ := q.Var(fmt.Sprint("s", i)); bad == "" {
							bad = same(fmt.Sprint("the rest from ", i), x, l.Slice(i, l.Len()).Interface())
						}
					}
					return bad
				})
			}
		}
	}
}
