package checks

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"

	"verif/mc/core"
	"verif/mc/lexref"
	"verif/mc/peg"
)

func init() {
	core.Register(&core.Check{
		ID:   "C24",
		Rule: "a case is one grammar whose expressions carry leaf, node and array marks; for every input the extracted document is compared with one built from the reference trace; non-trivial: a non-empty document",
		Assumptions: []string{"for a plain (non-array) mark that matches more than once inside one node, any of its values is accepted",
			"a leaf mark on an expression that matched nothing has no value; such inputs are skipped",
			"one tag isn't used for arrays and plain values, or for leaves and nodes, at once"},
		Run: runC24})
	core.Register(&core.Check{
		ID:   "C25",
		Rule: "a case is one literal extracted with one type mark (plain and array), or one grammar that uses marks in a wrong way; non-trivial: all",
		Run:  runC25})
	core.Register(&core.Check{
		ID:   "C26",
		Rule: "a case is one history of extractions (all entry points; sources that match, fail to match, have lexical errors or values that can't be converted) on one or two extractors; every answer is compared with the reference and no returned document may change later; non-trivial: a failing and a later succeeding operation",
		Run:  runC26})
}

// -----------------------------------------------------------------------------
// the reference document

type xitem struct {
	tag   string
	typ   string
	array bool
	val   interface{}
	node  *xnode
}

type xnode struct{ items []xitem }

// splitMark takes a mark apart as documented: tag_Type, tag_Types, tag_TypeArray.
func splitMark(m string) (tag, typ string, array bool) {
	i := strings.LastIndex(m, "_")
	tag, typ = m[:i], m[i+1:]
	if t := strings.TrimSuffix(typ, "Array"); t != typ {
		return tag, t, true
	}
	if t := strings.TrimSuffix(typ, "s"); t != typ {
		return tag, t, true
	}
	return tag, typ, false
}

// xdoc replays the reference trace. skip: a leaf mark without a token.
func xdoc(evs []peg.Event, toks []peg.Tk, value func(typ, lit string) (interface{}, bool)) (root *xnode, ok, skip bool) {
	root = &xnode{}
	cur := root
	type frame struct {
		n   *xnode
		len int
	}
	var stk []frame
	for _, e := range evs {
		tag, typ, array := splitMark(e.Name)
		switch e.What {
		case 'a':
			if e.From == e.To {
				return nil, false, true
			}
			v, ok := value(typ, toks[e.From].Lit)
			if !ok {
				return nil, false, false
			}
			cur.items = append(cur.items, xitem{tag, typ, array, v, nil})
		case '(':
			n := &xnode{}
			stk = append(stk, frame{cur, len(cur.items)})
			cur.items = append(cur.items, xitem{tag, typ, array, nil, n})
			cur = n
		case ')':
			f := stk[len(stk)-1]
			stk = stk[:len(stk)-1]
			cur = f.n
			if !e.OK {
				cur.items = cur.items[:f.len]
			}
		}
	}
	return root, true, false
}

// cmpDoc compares an extracted document with the reference.
func cmpDoc(path string, got map[string]interface{}, want *xnode) string {
	by := map[string][]xitem{}
	for _, it := range want.items {
		by[it.tag] = append(by[it.tag], it)
	}
	for tag := range got {
		if by[tag] == nil {
			return fmt.Sprintf("%s: unexpected tag %q = %v", path, tag, got[tag])
		}
	}
	for tag, items := range by {
		p := path + "." + tag
		g, ok := got[tag]
		if !ok {
			return p + ": missing"
		}
		it := items[0]
		switch {
		case it.array && it.node != nil:
			a, ok := g.([]map[string]interface{})
			if !ok || len(a) != len(items) {
				return fmt.Sprintf("%s: %T %v, want %d nodes", p, g, g, len(items))
			}
			for i, n := range a {
				if m := cmpDoc(fmt.Sprintf("%s[%d]", p, i), n, items[i].node); m != "" {
					return m
				}
			}
		case it.array:
			a, ok := g.([]interface{})
			if !ok || len(a) != len(items) {
				return fmt.Sprintf("%s: %T %v, want %d values", p, g, g, len(items))
			}
			for i, v := range a {
				if v != items[i].val {
					return fmt.Sprintf("%s[%d] = %T %v, want %T %v", p, i, v, v, items[i].val, items[i].val)
				}
			}
		case it.node != nil:
			m, ok := g.(map[string]interface{})
			if !ok {
				return fmt.Sprintf("%s: %T, want a node", p, g)
			}
			msg := ""
			for _, alt := range items {
				if msg = cmpDoc(p, m, alt.node); msg == "" {
					break
				}
			}
			if msg != "" {
				return msg
			}
		default:
			hit := false
			for _, alt := range items {
				hit = hit || g == alt.val
			}
			if !hit {
				return fmt.Sprintf("%s = %T %v, want %T %v", p, g, g, it.val, it.val)
			}
		}
	}
	return ""
}

func showDoc(v interface{}) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%#v", v) // maps print with sorted keys
	return b.String()
}

// nodeMarks turns the marks that stand for nodes into transactions.
func nodeMarks(r *peg.Rules) *peg.Rules {
	return mapRules(r, func(n *peg.Node) *peg.Node {
		n = n.Copy()
		n.Walk(func(k *peg.Node) {
			if k.Op == peg.Mark {
				if _, typ, _ := splitMark(k.Name); typ == "Node" {
					k.Op = peg.Trans
				}
			}
		})
		return n
	})
}

func textOnly(typ, lit string) (interface{}, bool) {
	if typ == "Int" {
		v, err := strconv.ParseInt(lit, 10, 64)
		return v, err == nil
	}
	return lit, typ == "Text"
}

// extractCase runs one grammar over all inputs.
func extractCase(c *core.C, r *peg.Rules, ins []*input) string {
	e, err := extractor.New(r.Text(), nil)
	if err != nil {
		return fmt.Sprintf("New: %v", err)
	}
	c.AddTransitions(len(ins))
	some := false
	for _, in := range ins {
		m := &peg.Machine{R: r, In: in.tks, Max: 200000}
		o, over := m.Run(&peg.Node{Op: peg.Ref, Name: "doc"}, 0)
		if over {
			continue
		}
		c.AddStates(m.Steps)
		var want *xnode
		accept := o.OK && o.N == len(in.tks)
		if accept {
			var ok, skip bool
			want, ok, skip = xdoc(m.Events, in.tks, textOnly)
			if skip {
				continue
			}
			accept = ok
		} else if _, _, skip := xdoc(m.Events, in.tks, textOnly); skip {
			continue
		}
		c.AddTrace(1)
		doc, err := e.Extract(in.src)
		if (err == nil) != accept {
			return fmt.Sprintf("input %q: error %v, want accepted=%v", clip(in.src), err, accept)
		}
		if err != nil {
			if doc != nil {
				return fmt.Sprintf("input %q: a document and an error", clip(in.src))
			}
			continue
		}
		if m := cmpDoc("doc", doc, want); m != "" {
			return fmt.Sprintf("input %q: %s\n  document %s", clip(in.src), clip(m), clip(showDoc(doc)))
		}
		if len(want.items) > 0 {
			some = true
			c.Outcome(showDoc(doc))
		} else if len(doc) != 0 {
			return fmt.Sprintf("input %q: document %v, want an empty one", clip(in.src), doc)
		}
	}
	if some {
		c.Nontrivial(1)
	}
	return ""
}

// eachMarking marks a tree in all ways: tokens as leaves, other nodes as nodes.
func eachMarking(n *peg.Node, leaf, node []string, f func(*peg.Node)) {
	var all []*peg.Node
	n = n.Copy()
	n.Walk(func(k *peg.Node) { all = append(all, k) })
	choice := make(map[*peg.Node]string)
	var rec func(i int)
	rec = func(i int) {
		if i == len(all) {
			var build func(n *peg.Node) *peg.Node
			build = func(n *peg.Node) *peg.Node {
				cp := *n
				cp.Kids = make([]*peg.Node, len(n.Kids))
				for j, k := range n.Kids {
					cp.Kids[j] = build(k)
				}
				switch m := choice[n]; {
				case m == "":
					return &cp
				case !strings.Contains(m, "_Node"):
					return peg.M(&cp, m)
				default:
					return &peg.Node{Op: peg.Trans, Name: m, Kids: []*peg.Node{&cp}}
				}
			}
			f(build(n))
			return
		}
		opts := node
		if all[i].Op == peg.Tok {
			opts = leaf
		}
		for _, o := range opts {
			choice[all[i]] = o
			rec(i + 1)
		}
	}
	rec(0)
}

var extractGrammars = []struct {
	text  string
	atoms []string
	max   int
}{
	// lists and interleaved tags
	{"doc = *(IDENT/names_TextArray | INT/nums_Ints | '+'/ops_Texts);", []string{"a", "1", "+", "b"}, 6},
	{"doc = (IDENT/key_Text '+' INT/val_Int)/pair_Nodes % ',';", []string{"a", "1", "+", ","}, 7},
	{"doc = *((IDENT/a_Text '+')/x_NodeArray | (IDENT/b_Text)/y_NodeArray | INT/n_Ints);", []string{"a", "1", "+", "b"}, 6},
	// rollback: an alternative fails late
	{"doc = *((IDENT/a_Text '+' INT/n_Int)/sum_Nodes | (IDENT/a_Text '+' IDENT/b_Text)/cat_Nodes | (IDENT/a_Text)/one_Nodes | '+');", []string{"a", "1", "+", "b"}, 6},
	{"doc = ?(IDENT/a_Text ?(INT/n_Int '+')/inner_Node INT/last_Int)/outer_Node *(IDENT/r_Texts | INT/i_Ints | '+');", []string{"a", "1", "+"}, 6},
	{"doc = ~(IDENT/no_Text INT)/peek_Node @(IDENT/p_Text)/ahead_Node IDENT/a_Text *(INT/i_Ints);", []string{"a", "1"}, 5},
	// recursion
	{"doc = node/root_Node; node = '(' ?(IDENT/name_Text) *(node/kids_NodeArray) ')';", []string{"(", ")", "a"}, 9},
	{"val = (IDENT/s_Text)/v_Node | ('{' (IDENT/k_Text ':' val)/items_Nodes %= ',' '}')/obj_Node | ('[' (val)/e_NodeArray %= ',' ']')/arr_Node; doc = val;",
		[]string{"{", "}", "[", "]", ",", ":", "a"}, 5},
	{"doc = expr; expr = (term % '+')/sum_Node; term = (IDENT/v_Text | INT/n_Int | '(' expr ')')/t_Nodes;", []string{"a", "1", "+", "(", ")"}, 6},
	// fail fast inside nodes
	{"doc = *((IDENT/a_Text ! '+' INT/n_Int)/x_Nodes | INT/i_Ints);", []string{"a", "1", "+"}, 6},
	// tags with underscores, marks that end in s, marks on longer expressions
	{"doc = *((IDENT '+')/a_b_Text | (INT IDENT)/cs_Ints | (INT)/d_s_Nodes);", []string{"a", "1", "+"}, 6},
	{"doc = *(IDENT/Ints_Texts | INT/Node_Ints | ('+')/Array_NodeArray);", []string{"a", "1", "+"}, 6},
	{"doc = *(IDENT/_Texts | INT/__Ints);", []string{"a", "1"}, 5},
}

func runC24(c *core.C) {
	run := func(r *peg.Rules, ins []*input) {
		c.Do(func() string { return r.Text() }, func() string { return extractCase(c, r, ins) })
	}
	c.Family("all trees, all ways to mark them")
	ins := inputsOf(c, []string{"a", "1"}, 4, nil)
	a := &peg.Alphabet{Leaves: []*peg.Node{peg.T(tpl.IDENT), peg.T(tpl.INT)},
		Unary: []peg.Op{peg.Star, peg.Plus, peg.Opt, peg.Not, peg.Peek}, Binary: []peg.Op{peg.And, peg.Or, peg.List}}
	eachTree(c, a, 4, func(n *peg.Node) {
		eachMarking(n, []string{"", "x_Text", "y_Texts"}, []string{"", "n_Node", "m_NodeArray"}, func(n *peg.Node) {
			if !c.Stopped() {
				run(doc1(n), ins)
			}
		})
	})
	c.Family("all trees, leaf marks on every expression: the value is that of its first token")
	eachTree(c, a, 4, func(n *peg.Node) {
		eachMarking(n, []string{"", "y_Texts"}, []string{"", "z_Texts", "w_Text", "m_Nodes"}, func(n *peg.Node) {
			if !c.Stopped() {
				run(doc1(n), ins)
			}
		})
	})
	iins := inputsOf(c, []string{"7", "8"}, 4, nil)
	ia := &peg.Alphabet{Leaves: []*peg.Node{peg.T(tpl.INT), peg.T(tpl.FLOAT)}, Unary: []peg.Op{peg.Star, peg.Plus}, Binary: []peg.Op{peg.And, peg.List}}
	eachTree(c, ia, 5, func(n *peg.Node) {
		eachMarking(n, []string{""}, []string{"", "z_Ints", "w_Int", "v_IntArray"}, func(n *peg.Node) {
			if !c.Stopped() {
				run(doc1(n), iins)
			}
		})
	})
	c.Family("larger trees")
	b := &peg.Alphabet{Leaves: a.Leaves, Unary: []peg.Op{peg.Star}, Binary: []peg.Op{peg.And, peg.Or}}
	if c.Thorough() {
		b.Unary = append(b.Unary, peg.Opt)
		b.Binary = append(b.Binary, peg.List)
	}
	for size := 5; size <= c.Pick(5, 6); size++ {
		for _, n := range b.Enum(size) {
			eachMarking(n, []string{"", "y_Texts"}, []string{"", "m_Nodes"}, func(n *peg.Node) {
				if !c.Stopped() {
					run(doc1(n), ins)
				}
			})
		}
	}
	c.Family("typical grammars, all token strings")
	for _, g := range extractGrammars {
		r := nodeMarks(mustRules(g.text))
		e, err := extractor.New(g.text, nil)
		if err != nil {
			panic(err)
		}
		_ = e
		for _, in := range inputsOf(c, g.atoms, g.max+c.Pick(0, 1), nil) {
			in := in
			c.Do(func() string { return g.text + " on " + in.src }, func() string { return extractCase(c, r, []*input{in}) })
		}
	}
	c.Family("pumped")
	for _, p := range pumpsUpTo(c.Pick(1025, 4097)) {
		for gi, src := range []string{
			rep("a 1 + ", p), "a+1" + rep(",b+2", p-1), rep("a + b 1 ", p), rep("a + 1 a + b a ", p), "a 1 " + rep("b 2 ", p), "a" + rep(" 1", p),
			rep("(", p) + "a" + rep(")", p), rep("[", p) + "a" + rep("]", p), "a" + rep("+(1", p) + rep(")", p), rep("a + 1 2 ", p), rep("a + 1 b 3", p),
			rep("a 1 +", p), rep("a 1", p)} {
			g := extractGrammars[gi]
			r := nodeMarks(mustRules(g.text))
			in := newInput(src, nil)
			c.Do(func() string { return g.text + " on " + clip(in.src) }, func() string { return extractCase(c, r, []*input{in}) })
		}
	}
	for _, p := range pumpsUpTo(c.Pick(1025, 4097)) {
		g := extractGrammars[6]
		r := nodeMarks(mustRules(g.text))
		in := newInput("("+rep("(a)()", p)+")", nil)
		c.Do(func() string { return g.text + " on " + clip(in.src) }, func() string { return extractCase(c, r, []*input{in}) })
	}
}

// -----------------------------------------------------------------------------
// C25: conversions

// unquote decodes a STRING or CHAR literal: bytes of the value, the single code
// point for CHAR; ok is false when it isn't a valid literal.
func unquote(lit string) (val string, cp rune, wide, ok bool) {
	q := lit[0]
	body := lit[1 : len(lit)-1]
	if q == '`' {
		return strings.Replace(body, "\r", "", -1), 0, false, true
	}
	var b []byte
	for i := 0; i < len(body); {
		if body[i] != '\\' {
			r, n := utf8.DecodeRuneInString(body[i:])
			b = append(b, body[i:i+n]...)
			cp, wide = r, n > 1
			i += n
			continue
		}
		i++
		if i >= len(body) {
			return "", 0, false, false
		}
		num := func(n, base int) (v int64, ok bool) {
			if i+n > len(body) {
				return 0, false
			}
			v, err := strconv.ParseInt(body[i:i+n], base, 64)
			i += n
			return v, err == nil
		}
		c := body[i]
		i++
		wide = false
		switch c {
		case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\', q:
			m := map[byte]byte{'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': '\\', q: q}
			b = append(b, m[c])
			cp = rune(m[c])
		case '0', '1', '2', '3', '4', '5', '6', '7':
			i--
			v, ok := num(3, 8)
			if !ok || v > 255 {
				return "", 0, false, false
			}
			b = append(b, byte(v))
			cp = rune(v)
		case 'x':
			v, ok := num(2, 16)
			if !ok {
				return "", 0, false, false
			}
			b = append(b, byte(v))
			cp = rune(v)
		case 'u', 'U':
			n := 4
			if c == 'U' {
				n = 8
			}
			v, ok := num(n, 16)
			if !ok || v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
				return "", 0, false, false
			}
			b = append(b, string(rune(v))...)
			cp, wide = rune(v), true
		default:
			return "", 0, false, false
		}
	}
	return string(b), cp, wide, true
}

// want tells what extracting a literal as a type must give. any: not specified.
func convert(typ, lit string, kind uint) (v interface{}, ok, any bool) {
	switch typ {
	case "Text":
		return lit, true, false
	case "String":
		if kind == tpl.STRING {
			s, _, _, ok := unquote(lit)
			return s, ok, false
		}
		if kind == tpl.CHAR {
			return nil, false, true
		}
	case "Int":
		if kind == tpl.INT {
			if len(lit) > 1 && lit[0] == '0' {
				return nil, false, true
			}
			n, ok := refInt(lit)
			return n, ok, false
		}
	case "Float":
		if kind == tpl.INT && len(lit) > 1 && lit[0] == '0' {
			return nil, false, true
		}
		if kind == tpl.INT || kind == tpl.FLOAT {
			f, ok := refFloat(lit)
			return f, ok, false
		}
		if kind == tpl.IDENT { // Inf, NaN, ...
			return nil, false, true
		}
	case "Char":
		if kind == tpl.CHAR {
			_, cp, wide, ok := unquote(lit)
			if !ok || cp > 255 {
				return nil, false, false
			}
			if wide && cp >= 0x80 { // more than one byte
				return nil, false, false
			}
			if wide {
				return byte(cp), true, true
			}
			return byte(cp), true, false
		}
		return nil, false, true
	}
	return nil, false, false
}

var convKinds = map[string]uint{"IDENT": tpl.IDENT, "INT": tpl.INT, "FLOAT": tpl.FLOAT, "IMAG": tpl.IMAG, "CHAR": tpl.CHAR, "STRING": tpl.STRING}

func runC25(c *core.C) {
	engines := map[string]*extractor.Engine{}
	get := func(kind, typ string) *extractor.Engine {
		k := kind + "/" + typ
		if engines[k] == nil {
			e, err := extractor.New("doc = "+kind+"/v_"+typ+" ?('+' "+kind+"/w_"+typ+"s);", nil)
			if err != nil {
				panic(err)
			}
			engines[k] = e
		}
		return engines[k]
	}
	types := []string{"Text", "String", "Int", "Float", "Char", "Bool"}
	one := func(src string) {
		lx := lexref.Lex(src, false, false)
		if lx.Malformed() || len(lx.Toks) != 2 {
			return
		}
		t := lx.Toks[0]
		kind := ""
		for n, k := range convKinds {
			if k == t.Kind {
				kind = n
			}
		}
		if kind == "" {
			return
		}
		c.Do(func() string { return core.Q(clip(src)) }, func() string {
			c.Nontrivial(1)
			c.AddStates(len(types))
			c.AddTrace(1)
			for _, typ := range types {
				for _, as := range []string{kind, "FLOAT"} {
					if as == "FLOAT" && t.Kind != tpl.INT {
						continue
					}
					want, ok, any := convert(typ, t.Lit, t.Kind)
					e := get(as, typ)
					for form, text := range []string{src, src + "\n+ " + src} {
						c.AddTransitions(1)
						doc, err := e.SafeExtract(text)
						if any && ok { // may be refused, but not be wrong
							if err == nil && doc["v"] != want {
								return fmt.Sprintf("%s as %s = %T %v, want %v or an error", clip(src), typ, doc["v"], doc["v"], want)
							}
							continue
						}
						if any {
							continue
						}
						if (err == nil) != ok {
							return fmt.Sprintf("%s as %s: %v error %v, want ok=%v", clip(src), typ, doc, err, ok)
						}
						if err != nil {
							if doc != nil || err.Error() == "" {
								return fmt.Sprintf("%s as %s: document %v with error %q", clip(src), typ, doc, err)
							}
							continue
						}
						if doc["v"] != want {
							return fmt.Sprintf("%s as %s = %T %v, want %T %v", clip(src), typ, doc["v"], doc["v"], want, want)
						}
						if f, is := want.(float64); is && math.Signbit(f) != math.Signbit(doc["v"].(float64)) {
							return "sign of zero"
						}
						if form == 1 {
							a, is := doc["w"].([]interface{})
							if !is || len(a) != 1 || a[0] != want || len(doc) != 2 {
								return fmt.Sprintf("%s as %ss: %v", clip(src), typ, doc)
							}
						}
						// the conversion is exported, too
						var gv interface{}
						if p := try(func() { gv = extractor.GetValue(typ, t.Lit) }); p != nil || gv != want {
							return fmt.Sprintf("GetValue(%s, %s) = %v (panic %v)", typ, clip(t.Lit), gv, p)
						}
						c.Outcome(fmt.Sprintf("%T", want))
					}
				}
			}
			return ""
		})
	}
	c.Family("numbers: all strings over 0 1 9 5 . e - +")
	eachString(c, []string{"0", "1", "9", "5", ".", "e", "-"}, 1, c.Pick(6, 7), one)
	c.Family("one literal in two types")
	for _, lit := range []string{"0", "1", "7", "10", "12345", "1.5", "0.0", "1e3", "1e400", "99999999999999999999", "'a'", "'\\n'", "'é'", `"a"`, `"1"`, `"\x41"`, "`1`", `""`, "a", "x1"} {
		lx := lexref.Lex(lit, false, false)
		t := lx.Toks[0]
		kind := ""
		for n, k := range convKinds {
			if k == t.Kind {
				kind = n
			}
		}
		for _, t1 := range types {
			for _, t2 := range types {
				v1, ok1, any1 := convert(t1, t.Lit, t.Kind)
				v2, ok2, any2 := convert(t2, t.Lit, t.Kind)
				if any1 || any2 {
					continue
				}
				lit := lit
				c.Do(func() string { return fmt.Sprintf("%s as %s and as %s", lit, t1, t2) }, func() string {
					e, err := extractor.New(fmt.Sprintf("doc = %[1]s/a_%[2]s %[1]s/b_%[3]s *('+' %[1]s/c_%[2]ss '-' (%[1]s/a_%[3]s)/n_Node %[1]s/d_%[3]sArray) ?('*' %[1]s/z_%[2]s)", kind, t1, t2), nil)
					if err != nil {
						return err.Error()
					}
					c.Nontrivial(1)
					c.AddTrace(1)
					for round := 0; round < 2; round++ {
						for n := 0; n < 3; n++ {
							c.AddTransitions(1)
							src := lit + " " + lit
							var cs, ds []interface{}
							for i := 0; i < n; i++ {
								src += " + " + lit + " - " + lit + " " + lit
								cs, ds = append(cs, v1), append(ds, v2)
							}
							doc, err := e.SafeExtract(src)
							if (err == nil) != (ok1 && ok2) {
								return fmt.Sprintf("%s: %v, error %v", src, doc, err)
							}
							if err != nil {
								continue
							}
							want := map[string]interface{}{"a": v1, "b": v2}
							if n > 0 {
								want["c"], want["d"], want["n"] = cs, ds, map[string]interface{}{"a": v2}
							}
							if !reflect.DeepEqual(doc, want) {
								return fmt.Sprintf("%s: %#v, want %#v", src, doc, want)
							}
						}
					}
					c.Outcome(fmt.Sprintf("%T %T", v1, v2))
					return ""
				})
			}
		}
	}
	c.Family("integers around the limits")
	for _, s := range []string{"9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999", "2147483647", "2147483648", "4294967296",
		"1e308", "1e309", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2.4e-324", "2.5e-324", "0.1", "1i", "3.5i", "x", "Inf", "true", "nan"} {
		one(s)
	}
	for n := int64(0); n < int64(c.Pick(2000, 20000)); n++ {
		one(strconv.FormatInt(n, 10))
		one(strconv.FormatInt(math.MaxInt64-n, 10))
	}
	c.Family("quoted literals: all strings")
	for _, q := range []string{"\"", "'", "`"} {
		eachString(c, []string{"a", "\\n", "\\\\", "\\" + q, "\\x41", "\\xff", "\\101", "\\377", "\\u00e9", "\\u4e2d", "\\U0001F600", "é", "中", "\xf0\x9f\x98\x80", "/", " "}, 0, c.Pick(3, 4), func(s string) { one(q + s + q) })
		eachString(c, []string{"a", "\\", "x", "4", "0", q, "n", "u", "\r", "\n"}, 0, c.Pick(4, 5), func(s string) { one(q + s + q) })
	}
	c.Family("every byte and every escape")
	for b := 0; b < 256; b++ {
		for _, q := range []string{"\"", "'"} {
			one(q + string([]byte{byte(b)}) + q)
			one(fmt.Sprintf("%s\\x%02x%s", q, b, q))
			one(fmt.Sprintf("%s\\x%02X%s", q, b, q))
			one(fmt.Sprintf("%s\\%03o%s", q, b, q))
			one(fmt.Sprintf("%s\\%c%s", q, b, q))
			one(fmt.Sprintf("%s\\u%04x%s", q, b, q))
		}
	}
	c.Family("code points")
	for r := rune(0x80); r <= 0x10FFFF; r += rune(1 + int(r)/c.Pick(300, 3000)) {
		if !utf8.ValidRune(r) {
			continue
		}
		for _, q := range []string{"\"", "'", "`"} {
			one(q + string(r) + q)
			if q != "`" {
				one(fmt.Sprintf("%s\\U%08x%s", q, r, q))
			}
			if r < 0x10000 && q != "`" {
				one(fmt.Sprintf("%s\\u%04x%s", q, r, q))
			}
		}
	}
	c.Family("pumped")
	for _, p := range pumpsUpTo(c.Pick(4097, 8193)) {
		for _, s := range []string{"a", "\\n", "é", "\\x80", "\\u4e2d"} {
			one("\"" + rep(s, p) + "\"")
			one("\"" + rep(s, p) + "\\\"\"")
		}
		one(rep("1", p))
		one("0." + rep("3", p))
		one(rep("7", p) + "e-" + strconv.Itoa(p))
		one(rep("x", p))
		one("`" + rep("\\n\r\n", p) + "`")
	}
	textTokens(c)
	extractMarks(c)
	c.Family("a conversion of one's own")
	for _, typ := range append(types, "Money", "X") {
		for _, mode := range []string{"value", "error", "string"} {
			typ, mode := typ, mode
			c.Do(func() string { return typ + " " + mode }, func() string {
				c.Nontrivial(1)
				c.AddTransitions(3)
				c.AddTrace(1)
				c.AddStates(1)
				boom := errors.New("boom")
				var calls []string
				e, err := extractor.New("doc = *(IDENT/a_"+typ+"s | INT/b_"+typ+");", &extractor.Options{GetValue: func(t, lit string) interface{} {
					calls = append(calls, t+":"+lit)
					if mode == "error" {
						panic(boom)
					}
					if mode == "string" {
						panic("boom!")
					}
					return len(calls)
				}})
				if err != nil {
					return err.Error()
				}
				doc, err := e.SafeExtract("x 17 y")
				switch {
				case mode == "error" && err != boom, mode == "string" && (err == nil || err.Error() != "boom!"):
					return fmt.Sprintf("error %v", err)
				case mode != "value" && (doc != nil || len(calls) != 1):
					return fmt.Sprintf("document %v, calls %v", doc, calls)
				case mode == "value":
					a, _ := doc["a"].([]interface{})
					if strings.Join(calls, " ") != typ+":x "+typ+":17 "+typ+":y" || len(a) != 2 || a[0] != 1 || a[1] != 3 || doc["b"] != 2 {
						return fmt.Sprintf("document %v, calls %v", doc, calls)
					}
				}
				return ""
			})
		}
	}
	c.Family("wrong marks are refused")
	for _, g := range []string{"doc = IDENT/x", "doc = IDENT/x;", "doc = IDENT/Int;", "doc = (IDENT INT)/Node;", "doc = IDENT/xs;", "doc = *IDENT/a_Int | ;", "doc = nope/a_Int;", "", "doc", "doc = IDENT/a_Int/;", "x = IDENT/a_Int;"} {
		g := g
		c.Do(func() string { return core.Q(g) }, func() string {
			c.Nontrivial(1)
			c.AddTransitions(2)
			c.AddTrace(1)
			c.AddStates(1)
			for _, text := range []interface{}{g, []byte(g)} {
				var e *extractor.Engine
				var err error
				if p := try(func() { e, err = extractor.New(text, nil) }); p != nil {
					err = fmt.Errorf("%v", p)
				}
				if _, _, bad := peg.Parse(g); err == nil && (bad != nil || strings.HasSuffix(strings.TrimRight(g, ";"), "/x") || !strings.Contains(g, "_")) {
					return fmt.Sprintf("accepted: %v", e != nil)
				}
			}
			return ""
		})
	}
}

// -----------------------------------------------------------------------------
// C26: histories

type xop struct {
	how string
	src string
	eng int
}

func (o xop) String() string {
	return fmt.Sprintf("#%d.%s(%q)", o.eng, o.how, clip(o.src))
}

type xsys struct {
	text string
	r    *peg.Rules
	mode tpl.ScanMode
	srcs []string
}

func xvalue(typ, lit string) (interface{}, bool) {
	k := uint(tpl.IDENT)
	if lx := lexref.Lex(lit, false, false); len(lx.Toks) > 0 {
		k = lx.Toks[0].Kind
	}
	v, ok, _ := convert(typ, lit, k)
	return v, ok
}

// expect gives the document of src, or ok=false.
func (s *xsys) expect(src string) (want *xnode, ok bool) {
	lx := lexref.Lex(src, false, s.mode&tpl.InsertSemis != 0)
	if lx.Malformed() {
		return nil, false
	}
	var tks []peg.Tk
	for _, t := range lx.Toks {
		if t.Kind == tpl.EOF {
			break
		}
		tks = append(tks, peg.Tk{Kind: t.Kind, Lit: t.Lit})
	}
	m := &peg.Machine{R: s.r, In: tks}
	o, _ := m.Run(&peg.Node{Op: peg.Ref, Name: "doc"}, 0)
	if !o.OK || o.N != len(tks) {
		return nil, false
	}
	want, ok, _ = xdoc(m.Events, tks, xvalue)
	return want, ok
}

func (s *xsys) run(c *core.C, ops []xop, exp map[string]*xnode) string {
	var es [2]*extractor.Engine
	for i := range es {
		var opt *extractor.Options
		if s.mode&tpl.InsertSemis != 0 {
			opt = extractor.InsertSemis
		}
		var err error
		var g interface{} = s.text
		if i == 1 {
			g = []byte(s.text)
		}
		if es[i], err = extractor.New(g, opt); err != nil {
			return "New: " + err.Error()
		}
	}
	type kept struct {
		doc  map[string]interface{}
		text string
		op   xop
	}
	var docs []kept
	var last [2]*xnode
	failed, nontrivial := false, false
	for _, o := range ops {
		c.AddTransitions(1)
		e := es[o.eng]
		if o.how == "Result" {
			if w := last[o.eng]; w != nil {
				if m := cmpDoc("doc", e.Result(), w); m != "" {
					return fmt.Sprintf("%v: %s", o, m)
				}
			} else {
				e.Result()
			}
			continue
		}
		var doc map[string]interface{}
		var err error
		p := try(func() {
			switch o.how {
			case "Parse":
				doc, err = e.Parse([]byte(o.src), "file.x")
			case "SafeParse":
				doc, err = e.SafeParse([]byte(o.src), "file.x")
			case "Extract":
				doc, err = e.Extract(o.src)
			case "SafeExtract":
				doc, err = e.SafeExtract(o.src)
			}
		})
		if p != nil && o.how != "Parse" {
			return fmt.Sprintf("%v panicked: %v", o, p)
		}
		want := exp[o.src]
		ok := want != nil
		if ok != (err == nil && p == nil) {
			return fmt.Sprintf("%v: document %v error %v panic %v, want ok=%v", o, doc, err, p, ok)
		}
		last[o.eng] = want
		if !ok {
			failed = true
			if doc != nil {
				return fmt.Sprintf("%v: a document and an error", o)
			}
			continue
		}
		if failed {
			nontrivial = true
		}
		if m := cmpDoc("doc", doc, want); m != "" {
			return fmt.Sprintf("%v: %s\n  document %s", o, m, clip(showDoc(doc)))
		}
		docs = append(docs, kept{doc, showDoc(doc), o})
	}
	for _, k := range docs {
		if showDoc(k.doc) != k.text {
			return fmt.Sprintf("the document of %v changed later: %s", k.op, showDoc(k.doc))
		}
	}
	c.AddTrace(1)
	c.AddStates(len(ops))
	if nontrivial {
		c.Nontrivial(1)
	}
	return ""
}

func runC26(c *core.C) {
	manyExtractors(c)
	hows := []string{"Parse", "SafeParse", "Extract", "SafeExtract"}
	mk := func(text string, mode tpl.ScanMode, srcs ...string) *xsys {
		return &xsys{text: text, r: nodeMarks(mustRules(text)), mode: mode, srcs: srcs}
	}
	systems := []*xsys{
		mk("doc = (IDENT/key_Text ! '=' val)/pair_Nodes % ','; val = (INT/i_Int | STRING/s_String | '(' doc/sub_Node ')')/val_Node;", 0,
			"a=1", "a=1, b=\"x\\ty\"", "a=(b=2,c=(d=3))", "a=", "a=(b=1", "a=99999999999999999999", "b=(a=1, c=99999999999999999999)", "a=1 b", "a=\"x", "", "a=1,\n b = \"\\u0041\", c=3"),
		mk("doc = *(IDENT/names_Texts | INT/nums_Ints | (CHAR/c_Char ?(INT/n_Int))/ch_NodeArray);", 0,
			"", "x 1 'a' 2 y 3", "'中'", "x 99999999999999999999", "x +", "'a' 'b' 1", "x y z 'q", "1 2 3"),
		mk("doc = *((IDENT/w_Text ?('=' INT/v_Int))/lines_Nodes ';');", tpl.InsertSemis,
			"a = 1\nb\n", "a", "a;;", "a = 99999999999999999999\n", "\n", "", "a = 1; b = 2; c = 3", "a =\n"),
	}
	show := func(s *xsys, ops []xop) string {
		var b []string
		for _, o := range ops {
			b = append(b, o.String())
		}
		return s.text + " " + strings.Join(b, " ")
	}
	for i, s := range systems {
		s := s
		exp := map[string]*xnode{}
		for _, src := range s.srcs {
			if w, ok := s.expect(src); ok {
				exp[src] = w
			}
		}
		var ops []xop
		for _, src := range s.srcs {
			for _, h := range hows {
				ops = append(ops, xop{h, src, 0})
			}
		}
		ops = append(ops, xop{"Result", "", 0})
		c.Family(fmt.Sprintf("grammar %d: all histories of up to %d operations", i, 2))
		eachIdx(c, len(ops), 1, 2, func(ix []int) {
			var h []xop
			for _, k := range ix {
				h = append(h, ops[k])
			}
			h = append(h, xop{"Result", "", 0})
			c.Do(func() string { return show(s, h) }, func() string { return s.run(c, h, exp) })
		})
		c.Family(fmt.Sprintf("grammar %d: all histories over Parse and SafeExtract on two extractors", i))
		var few []xop
		for _, src := range s.srcs {
			few = append(few, xop{"Parse", src, 0}, xop{"SafeExtract", src, 1})
		}
		few = append(few, xop{"Result", "", 0}, xop{"Result", "", 1})
		eachIdx(c, len(few), 3, c.Pick(3, 4), func(ix []int) {
			var h []xop
			for _, k := range ix {
				h = append(h, few[k])
			}
			h = append(h, xop{"Result", "", 0}, xop{"Result", "", 1})
			c.Do(func() string { return show(s, h) }, func() string { return s.run(c, h, exp) })
		})
		c.Family(fmt.Sprintf("grammar %d: long histories", i))
		for _, p := range pumpsUpTo(c.Pick(129, 1025)) {
			for _, a := range s.srcs {
				for _, b := range s.srcs {
					var h []xop
					for k := 0; k < p; k++ {
						h = append(h, xop{hows[k%4], a, 0})
					}
					h = append(h, xop{"SafeExtract", b, 0}, xop{"Result", "", 0})
					c.Do(func() string { return fmt.Sprintf("%d times %q, then %q", p, a, b) }, func() string { return s.run(c, h, exp) })
				}
			}
		}
	}
}

// extractMarks: marks of all forms.
// textTokens extracts tokens of all kinds as text, in all scan modes.
func textTokens(c *core.C) {
	c.Family("text of all kinds of tokens, in all scan modes")
	const g = "doc = *((COMMENT | IDENT | INT | FLOAT | IMAG | CHAR | STRING | ';' | '+' | \"<<=\" | '(')/v_Texts | ')'/w_Texts);"
	pieces := []string{"a ", "1", " \"s\\t\" ", "'\\t'", "`r\t\n`", "# c\t", "// d \t", "/* e\t*/", "/*\n*/", "\n", "\t", ";", "+", "<<=", ")", "\r\n", "2.50i"}
	for m := 0; m < 4; m++ {
		comments, semis := m&1 != 0, m&2 != 0
		o := &extractor.Options{}
		if comments {
			o.ScanMode |= tpl.ScanComments
		}
		if semis {
			o.ScanMode |= tpl.InsertSemis
		}
		e, err := extractor.New(g, o)
		if err != nil {
			panic(err)
		}
		eachString(c, pieces, 0, c.Pick(3, 4), func(src string) {
			lx := lexref.Lex(src, comments, semis)
			if lx.Malformed() {
				return
			}
			var v, w []interface{}
			for _, t := range lx.Toks {
				switch t.Kind {
				case tpl.EOF:
				case tpl.RPAREN:
					w = append(w, t.Lit)
				case tpl.COMMENT, tpl.IDENT, tpl.INT, tpl.FLOAT, tpl.IMAG, tpl.CHAR, tpl.STRING, tpl.SEMICOLON, tpl.ADD, tpl.SHL_ASSIGN, tpl.LPAREN:
					v = append(v, t.Lit)
				default:
					return
				}
			}
			c.Do(func() string { return fmt.Sprintf("%q comments=%v semis=%v", src, comments, semis) }, func() string {
				c.AddStates(len(lx.Toks))
				c.AddTransitions(len(lx.Toks))
				c.AddTrace(1)
				doc, err := e.SafeExtract(src)
				if err != nil {
					return err.Error()
				}
				c.Nontrivial(len(v))
				dv, _ := doc["v"].([]interface{})
				dw, _ := doc["w"].([]interface{})
				if fmt.Sprintf("%q", dv) != fmt.Sprintf("%q", v) || fmt.Sprintf("%q", dw) != fmt.Sprintf("%q", w) {
					return fmt.Sprintf("texts %q %q, want %q %q", dv, dw, v, w)
				}
				return ""
			})
		})
	}
}

func extractMarks(c *core.C) {
	c.Family("marks of all forms")
	tags := []string{"x", "a_b", "xs", "x_", "_", "", "X", "Array_y", "s", "Int", "nodes", "_x", "x_Int", "a__b", "Node_Node", "é"}
	types := []string{"Int", "Text", "String", "Float", "Char", "Node", "Foo", "int", "", "Bool", "Nod", "Integer", "nt", "INT"}
	tokens := map[string]string{"Int": "17", "Text": "word", "String": "\"s\"", "Float": "2.5", "Char": "'c'", "Node": "word"}
	values := map[string]interface{}{"Int": int64(17), "Text": "word", "String": "s", "Float": 2.5, "Char": byte('c')}
	kinds := map[string]string{"Int": "INT", "Text": "IDENT", "String": "STRING", "Float": "FLOAT", "Char": "CHAR", "Node": "IDENT"}
	one := func(mark, tag, typ string, array, valid bool) {
		kind, tok := kinds[typ], tokens[typ]
		if kind == "" {
			kind, tok = "IDENT", "word"
		}
		for _, g := range []string{"doc = " + kind + "/" + mark + " ';';", "doc = *(" + kind + "/" + mark + " ';')/rows_Nodes;", "doc = ?" + kind + "/" + mark + " ';' | 'x'/" + mark + ";"} {
			g := g
			if strings.HasPrefix(g, "doc = ?") {
				g = "doc = ';' | " + kind + "/" + mark + " ';';"
			}
			nested := strings.Contains(g, "rows")
			c.Do(func() string { return core.Q(g) }, func() string {
				c.AddStates(1)
				c.AddTransitions(2)
				c.AddTrace(1)
				var e *extractor.Engine
				var err error
				p := try(func() { e, err = extractor.New(g, nil) })
				if !valid {
					if p == nil && err == nil {
						return "accepted"
					}
					return ""
				}
				if p != nil || err != nil {
					return fmt.Sprintf("refused: %v %v", p, err)
				}
				doc, err := e.SafeExtract(tok + ";")
				if kinds[typ] == "" {
					if err == nil {
						return fmt.Sprintf("document %v", doc)
					}
					return ""
				}
				if err != nil {
					return err.Error()
				}
				c.Nontrivial(1)
				var want interface{}
				switch {
				case typ == "Node" && array:
					want = []map[string]interface{}{nil}
				case typ == "Node":
					want = map[string]interface{}(nil)
				case array:
					want = []interface{}{values[typ]}
				default:
					want = values[typ]
				}
				wdoc := map[string]interface{}{tag: want}
				if nested {
					wdoc = map[string]interface{}{"rows": []map[string]interface{}{wdoc}}
				}
				same := func(v interface{}) string { return strings.Replace(fmt.Sprintf("%#v", v), "(nil)", "{}", -1) }
				if same(doc) != same(wdoc) {
					return fmt.Sprintf("document %#v, want %#v", doc, wdoc)
				}
				return ""
			})
		}
	}
	for _, tag := range tags {
		for _, typ := range types {
			for _, suffix := range []string{"", "s", "Array", "ss", "ArrayArray", "sArray", "Arrays"} {
				mark := tag + "_" + typ + suffix
				// the reading of the mark: suffix, then type, then tag
				m, array := mark, false
				if strings.HasSuffix(m, "s") {
					m, array = m[:len(m)-1], true
				} else if strings.HasSuffix(m, "Array") {
					m, array = m[:len(m)-5], true
				}
				at := strings.LastIndex(m, "_")
				if at < 0 {
					continue
				}
				one(mark, m[:at], m[at+1:], array, true)
			}
		}
	}
	for _, mark := range []string{"Int", "x", "Ints", "Array", "s", "Node", "Nodes", "IntArray", "xInt", "é", "NodeArray"} {
		one(mark, "", "", false, false)
	}
}
