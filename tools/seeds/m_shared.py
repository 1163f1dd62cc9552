# Compilers, scanners and variables that are used more than once.
_d = open("/verif/tools/seeds/d_qlang.py").read()
exec(_d.split("qseed(\"le-truncates", 1)[0])
C, G, DO = "tpl/compiler.go", "tpl/grammar.go", "tpl/extractor/document.go"

seed("cl-keeps-rules", "C12", C,
     [("	ScanMode ScanMode\n}\n\n/*", "	ScanMode ScanMode\n\n	rules map[string]Grammar\n}\n\n/*"), ("	grammars := make(map[string]Grammar)\n", "	if p.rules == nil {\n		p.rules = make(map[string]Grammar)\n	}\n	grammars := p.rules\n")],
     "a compiler keeps the rules of a text for the next one", "two texts compiled with one compiler", '''
func main() {
	c := &tpl.Compiler{Grammar: []byte("doc = IDENT;")}
	a, err := c.Cl()
	must(err == nil, err)
	must(a.MatchExactly([]byte("x"), "") == nil)
	c.Grammar = []byte("doc = INT;")
	b, err := c.Cl()
	must(err == nil, err)
	must(b.MatchExactly([]byte("1"), "") == nil)
	must(b.MatchExactly([]byte("x"), "") != nil)
	must(a.MatchExactly([]byte("x"), "") == nil)
}''')
seed("var-reassign", "C07", G,
     [("	if p.Elem != nil {\n		return ErrVarAssigned\n	}\n	p.Elem = g\n	return nil\n", "	old := p.Elem\n	p.Elem = g\n	if old != nil {\n		return ErrVarAssigned\n	}\n	return nil\n")],
     "a rule variable that refuses a second body takes it nevertheless", "a variable that is assigned twice and then matched", '''
func main() {
	v := tpl.Var("v")
	must(v.Assign(tpl.Gr(tpl.IDENT)) == nil)
	must(v.Assign(tpl.Gr(tpl.INT)) == tpl.ErrVarAssigned)
	m := &tpl.Matcher{Grammar: v}
	must(m.MatchExactly([]byte("x"), "") == nil)
	must(m.MatchExactly([]byte("1"), "") != nil)
}''')
seed("kw-empty-source", "C06", C,
     [("	if p.keywords == nil {\n		p.keywords = make(map[string]uint)\n	}\n}", "	if p.keywords == nil || len(src) == 0 {\n		p.keywords = make(map[string]uint)\n	}\n}")],
     "an empty source makes a scanner forget its keywords", "an empty source, then one with a keyword", '''
func main() {
	c := &tpl.Compiler{Grammar: []byte(`doc = "if" | INT;`)}
	m, err := c.Cl()
	must(err == nil, err)
	must(m.MatchExactly([]byte("if"), "") == nil)
	must(m.MatchExactly([]byte(""), "") != nil)
	must(m.MatchExactly([]byte("if"), "") == nil)
}''')
seed("named-keeps", "C07", G,
     [("	p.name = name\n	p.g = g\n", "	p.name = name\n	if p.g == nil {\n		p.g = g\n	}\n")],
     "a named rule keeps its first body", "a named rule that is assigned twice", '''
func main() {
	n := tpl.Named("a", tpl.Gr(tpl.IDENT))
	n.Assign("b", tpl.Gr(tpl.INT))
	m := &tpl.Matcher{Grammar: n}
	must(m.MatchExactly([]byte("1"), "") == nil)
	must(m.MatchExactly([]byte("x"), "") != nil)
}''')
seed("node-array-empty", "C24", DO,
     [("				items[i] = hd.val.(*Node).toMap()\n				hd = hd.tail\n			}\n", "				items[i] = hd.val.(*Node).toMap()\n				hd = hd.tail\n			}\n			for len(items) > 1 && items[0] == nil {\n				items = items[1:]\n			}\n")],
     "nodes without content at the start of an array are left out", "an array of nodes whose first one is empty", '''
func main() {
	e, err := extractor.New("item = IDENT | INT/v_Int; doc = *(item/x_NodeArray);", nil)
	must(err == nil, err)
	doc, err := e.SafeExtract("a 1 b 2")
	must(err == nil, err)
	l := doc["x"].([]map[string]interface{})
	must(len(l) == 4 && l[0] == nil && l[1]["v"] == int64(1), doc)
}''')
IN, FN = "tpl/interpreter/interpreter.go", "tpl/qlang/cl/function.go"
qseed("rte-line-of-call", "C36", IN, [("					if err, ok := e.(*RuntimeError); ok {\n						panic(err)\n					}", "					if err, ok := e.(*RuntimeError); ok {\n						if err.Ctx == p.Matcher && len(tokens) > 0 && mark == \"call\" {\n							err.Src = tokens\n						}\n						panic(err)\n					}")],
      "a failure in a function is reported at the line of the call", "a function on several lines that fails, and is called on another line", '''
	q, _ := qlang.New(qlang.InsertSemis)
	err := q.SafeExec([]byte("f = fn(x) {\\nx.y\\n}\\n\\nf(7)"), "a.ql")
	must(err != nil && strings.HasPrefix(err.Error(), "a.ql:2: "), err)
	err = q.SafeExec([]byte("\\n\\n[1][7]"), "a.ql")
	must(err != nil && strings.HasPrefix(err.Error(), "a.ql:3: "), err)''')
qseed("rte-line-of-first", "C36", FN, [("			p.Recov = e\n", "			if re, ok := e.(*qip.RuntimeError); ok && p.Recov != nil {\n				if old, ok := p.Recov.(*qip.RuntimeError); ok {\n					re.Src = old.Src\n				}\n			}\n			p.Recov = e\n")],
      "a failing deferred call is reported at the place of the failure before it", "a function that fails and whose deferred call fails too, on another line", '''
	q, _ := qlang.New(qlang.InsertSemis)
	err := q.SafeExec([]byte("f = fn(x) {\\ndefer panic(\\"d\\")\\n\\nx.y\\n}\\n\\nf(7)"), "a.ql")
	must(err != nil && strings.HasPrefix(err.Error(), "a.ql:2: "), err)''')
TI = "tpl/interpreter/interpreter.go"
seed("opt-mutate", "C17", TI,
     [("	compiler.Init = initer\n	ret, err := compiler.Cl()\n	if err != nil {\n		return\n	}\n", "	compiler.Init = initer\n	ret, err := compiler.Cl()\n	if err != nil {\n		return\n	}\n	if options.Scanner == nil {\n		options.Scanner = compiler.Scanner\n	}\n")],
     "an interpreter leaves its scanner in the options it was given", "two interpreters built with the same options, and a word that is a keyword of one only", '''
type ipt struct{ g string }

func (p *ipt) Grammar() string { return p.g }
func (p *ipt) Fntable() map[string]interface{} { return map[string]interface{}{"$w": func(string) {}} }
func (p *ipt) Stack() iutil.Stack { return nil }

func main() {
	o := &interpreter.Options{}
	_, err := interpreter.New(&ipt{`doc = "if";`}, o)
	must(err == nil, err)
	e, err := interpreter.New(&ipt{`doc = IDENT;`}, o)
	must(err == nil, err)
	must(e.Eval("if") == nil)
}''')
