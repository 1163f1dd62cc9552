TC = "tpl/cmd/tplconv/tplconv.go"
CD = '''
// conv runs the real command in DEMO_DIR, with its home there; files and templates are written before
func build() {
	c := exec.Command("go", "build", "-o", os.Getenv("DEMO_DIR")+"/tplconv", "./tpl/cmd/tplconv")
	c.Dir = os.Getenv("DEMO_REPO")
	out, err := c.CombinedOutput()
	must(err == nil, string(out))
}

func put(name, text string) {
	p := filepath.Join(os.Getenv("DEMO_DIR"), name)
	must(os.MkdirAll(filepath.Dir(p), 0777) == nil)
	must(os.WriteFile(p, []byte(text), 0666) == nil)
}

func conv(args ...string) (out string, code int) {
	c := exec.Command(os.Getenv("DEMO_DIR")+"/tplconv", args...)
	c.Dir = os.Getenv("DEMO_DIR")
	c.Env = append(os.Environ(), "HOME="+c.Dir)
	b, err := c.Output()
	if err != nil {
		code = -1
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	return strings.Join(strings.Fields(string(b)), ""), code
}

func file(name string) string {
	b, _ := os.ReadFile(filepath.Join(os.Getenv("DEMO_DIR"), name))
	return strings.Join(strings.Fields(string(b)), "")
}
'''


def cseed(id, edits, what, needs, demo, **kw):
    seed(id, "C39", TC, edits, what, needs, CD + "\nfunc main() {\n\tbuild()\n\tput(\".tplconv/input/t.tpl\", \"doc = IDENT/t_Text\")\n\tput(\".tplconv/input/u.tpl\", \"doc = INT/n_Int\")\n\tput(\".tplconv/output/p.html\", \"<p>{{.t}}</p>\")\n" + demo + "\n}\n", **kw)


cseed("conv-no-trunc", [("		f, err2 := os.Create(outFile)", "		f, err2 := os.OpenFile(outFile, os.O_RDWR|os.O_CREATE, 0666)")],
      "the output file isn't truncated", "an output file that exists and is longer than the new content",
      '''put("a.t", "word"); put("a.t.out", strings.Repeat("x", 100))
	_, code := conv("-ext", "out", "a.t")
	must(code == 0 && file("a.t.out") == `{"t":"word"}`, code, file("a.t.out"))''')
cseed("conv-first-ext", [("	ext := filepath.Ext(inputFile)\n", "	ext := filepath.Base(inputFile)\n	if k := strings.IndexByte(ext, '.'); k > 0 {\n		ext = ext[k:]\n	} else {\n		ext = filepath.Ext(inputFile)\n	}\n"),
                         ("	\"path/filepath\"\n", "	\"path/filepath\"\n	\"strings\"\n")],
      "the extension starts at the first dot of the name", "an input file with two dots in its name",
      '''put("a.t", "word"); put("b.v2.t", "two")
	out, code := conv("a.t", "b.v2.t")
	must(code == 0 && out == `{"t":"word"}{"t":"two"}`, code, out)''')
cseed("conv-goes-on", [("		err := processFile(root, flag.Arg(i))\n		if err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			os.Exit(2)\n		}\n	}\n", "		err := processFile(root, flag.Arg(i))\n		if err != nil {\n			fmt.Fprintln(os.Stderr, err)\n			failed = true\n		}\n	}\n	if failed {\n		os.Exit(2)\n	}\n"),
                       ("	for i := 0; i < n; i++ {\n", "	failed := false\n	for i := 0; i < n; i++ {\n")],
      "the files after one that can't be converted are converted", "a file that fails before another one",
      '''put("a.t", "word"); put("b.t", "5")
	out, code := conv("b.t", "a.t")
	must(code == 2 && out == "", code, out)
	out, code = conv("a.t", "b.t")
	must(code == 2 && out == `{"t":"word"}`, code, out)''')
cseed("conv-cached-grammar", [("	e, err := extractor.New(tpl, nil)\n	if err != nil {\n		err = fmt.Errorf(\"invalid tpl file %s:\\n ==> %v\", inputTempFile, err)\n		return\n	}\n",
                               "	e := engines[len(ext)]\n	if e == nil {\n		e, err = extractor.New(tpl, nil)\n		if err != nil {\n			err = fmt.Errorf(\"invalid tpl file %s:\\n ==> %v\", inputTempFile, err)\n			return\n		}\n		engines[len(ext)] = e\n	}\n"),
                              ("func processFile(", "var engines = make(map[int]*extractor.Engine)\n\nfunc processFile(")],
      "grammars are kept by the length of the extension", "two input files with different extensions of one length in one run",
      '''put("a.t", "word"); put("b.u", "5")
	out, code := conv("a.t", "b.u")
	must(code == 0 && out == `{"t":"word"}{"n":5}`, code, out)''')
cseed("conv-out-order", [("	if *outputExt != \"\" {\n		outFile := inputFile + \".\" + *outputExt", "	if *outputExt != \"\" {\n		outFile := inputFile[:len(inputFile)-len(ext)] + \".\" + *outputExt\n		if *outputExt == ext[1:] {\n			outFile = inputFile + ext\n		}")],
      "the output extension replaces that of the input, so that two inputs share a file", "two inputs that differ in the extension only, or any check of the name",
      '''put("a.t", "word"); put("a.u", "5")
	_, code := conv("-ext", "json", "a.t", "a.u")
	must(code == 0 && file("a.t.json") == `{"t":"word"}` && file("a.u.json") == `{"n":5}`, code, file("a.t.json"), file("a.u.json"))''')
cseed("conv-json-lines", [("	b, err := json.MarshalIndent(v, \"\", \"  \")", "	if m, ok := v.(map[string]interface{}); ok {\n		for k, e := range m {\n			if n, ok := e.(int64); ok {\n				m[k] = float64(n)\n			}\n		}\n	}\n	b, err := json.MarshalIndent(v, \"\", \"  \")")],
      "integers of the document are rounded to floats", "an integer above 2**53",
      '''put("b.u", "9007199254740993")
	out, code := conv("b.u")
	must(code == 0 && out == `{"n":9007199254740993}`, code, out)''')
