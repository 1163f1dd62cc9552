package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"html"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/core"
)

func init() {
	core.Register(&core.Check{
		ID:   "C39",
		Rule: "a case is one run of the real tplconv command in a scratch home directory: a sequence of input files (or none) with an output format, an output extension and a state of the files before; exit code, standard output and all files after the run are compared with a model; non-trivial: something is converted",
		Assumptions: []string{"layout (white space) of the JSON isn't specified, nor the document of an input in which no mark matched (null or an empty object)",
			"what is left in the output file of a conversion that failed isn't specified"},
		Run: runC39,
	})
}

// convItem is one `name = value` of the notation kv; val: int64, float64, string, []int64 or nil.
type convItem struct {
	name string
	val  interface{}
}

func (i convItem) text() string {
	switch v := i.val.(type) {
	case int64:
		return fmt.Sprintf("%s = %d", i.name, v)
	case float64:
		return i.name + " = " + strconv.FormatFloat(v, 'f', -1, 64)
	case string:
		return i.name + " = " + strconv.Quote(v)
	case []int64:
		var s []string
		for _, n := range v {
			s = append(s, fmt.Sprint(n))
		}
		return i.name + " = [" + strings.Join(s, ", ") + "]"
	}
	return i.name
}

// doc is the item as it appears in a decoded JSON text.
func (i convItem) doc() interface{} {
	m := map[string]interface{}{"name": i.name}
	num := func(n int64) interface{} { return json.Number(fmt.Sprint(n)) }
	switch v := i.val.(type) {
	case int64:
		m["n"] = num(v)
	case float64:
		m["f"] = json.Number(strconv.FormatFloat(v, 'f', -1, 64))
	case string:
		m["s"] = v
	case []int64:
		var a []interface{}
		for _, n := range v {
			a = append(a, num(n))
		}
		m["a"] = a
	}
	return m
}

// page is the item in the template page.html.
func (i convItem) page() string {
	s := "<b>" + i.name + "</b>"
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;")
	switch v := i.val.(type) {
	case int64:
		if v != 0 {
			s += fmt.Sprintf("<i>%d</i>", v)
		}
	case string:
		if v != "" {
			s += "<q>" + esc.Replace(v) + "</q>"
		}
	case []int64:
		for _, n := range v {
			s += fmt.Sprintf("<u>%d</u>", n)
		}
	}
	return s
}

type convFile struct {
	name, text string
	missing    bool
	items      []convItem  // for page.html
	doc        interface{} // nil: can't be converted
}

func kvFile(name string, items ...convItem) convFile {
	f := convFile{name: name, items: items}
	var list []interface{}
	for i, it := range items {
		if i > 0 {
			f.text += ";\n"
		}
		f.text += it.text()
		list = append(list, it.doc())
	}
	f.doc = map[string]interface{}{"item": list}
	return f
}

type convFormat struct {
	arg  string // "": not given
	good bool
	kind string // json, page or raw
}

type convCase struct {
	files  []convFile
	format convFormat
	ext    string
	before string // what is in the output files before: "", stale or dir
}

var convDir string // the scratch home of this process

func convHome() string {
	if convDir != "" {
		return convDir
	}
	base := os.Getenv("MC_SCRATCH")
	d, err := os.MkdirTemp(base, "tplconv-")
	if err != nil {
		panic(err)
	}
	convDir = d
	put := func(name, text string) {
		p := filepath.Join(d, ".tplconv", name)
		if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
			panic(err)
		}
		if err := os.WriteFile(p, []byte(text), 0666); err != nil {
			panic(err)
		}
	}
	put("input/kv.tpl", "item = IDENT/name_Text ?('=' (INT/n_Int | FLOAT/f_Float | STRING/s_String | '[' INT/a_Ints % ',' ']'))\ndoc = item/item_NodeArray % ';'\n")
	put("input/lst.tpl", "doc = INT/v_Ints % ','")
	put("input/tag.tpl", "doc = IDENT/t_Text")
	put("input/num.tpl", "doc = INT/n_Int ?(FLOAT/f_Float) ?(CHAR/c_Char) ?(STRING/s_Strings ?(STRING/s_Strings)) ?('{' (IDENT/t_Text INT/n_Int)/sub_Node '}')")
	put("input/bad.tpl", "doc = (IDENT/t_Text")
	put("output/page.html", `<p>{{range .item}}<b>{{.name}}</b>{{if .n}}<i>{{.n}}</i>{{end}}{{if .s}}<q>{{.s}}</q>{{end}}{{range .a}}<u>{{.}}</u>{{end}}{{end}}</p>`)
	put("output/raw.htm", `<pre>{{json .}}</pre>`)
	put("output/two.parts.html", `<pre>{{json .}}</pre>`)
	put("output/bad.html", `<p>{{range .item}`)
	put("output/plain.txt", "{{json .}}")
	put("output/.json", "{{json .}}")
	return d
}

func runC39(c *core.C) {
	bin := os.Getenv("MC_TPLCONV")
	if bin == "" {
		panic("MC_TPLCONV isn't set")
	}
	defer func() {
		if convDir != "" {
			os.RemoveAll(convDir)
			convDir = ""
		}
	}()
	vals := []interface{}{nil, int64(0), int64(7), int64(9223372036854775807), 2.5, "", "a b", "<x> & 'y' \"z\"", "é\n世\\", []int64{1}, []int64{3, 2, 1}}
	json1 := convFormat{"", true, "json"}
	formats := []convFormat{json1, {"json", true, "json"}, {"page.html", true, "page"}, {"raw.htm", true, "raw"}, {"two.parts.html", true, "raw"},
		{"nosuch.html", false, ""}, {"bad.html", false, ""}, {"xml", false, ""}, {"plain.txt", false, ""}, {"page", false, ""}, {".json", false, ""}}
	good := formats[:5]

	c.Family("all documents up to a size in all formats")
	var docs [][]convItem
	eachIdx(c, len(vals), 1, 2, func(ix []int) {
		var d []convItem
		for i, k := range ix {
			d = append(d, convItem{[]string{"x", "name2", "x"}[i], vals[k]})
		}
		docs = append(docs, d)
	})
	if c.Thorough() {
		eachIdx(c, len(vals), 3, 3, func(ix []int) {
			var d []convItem
			for i, k := range ix {
				d = append(d, convItem{[]string{"x", "name2", "x"}[i], vals[k]})
			}
			docs = append(docs, d)
		})
	}
	for i, d := range docs {
		for j, f := range good {
			if i >= 132 && j%2 == 1 {
				continue
			}
			convRun(c, bin, convCase{files: []convFile{kvFile("in.kv", d...)}, format: f, ext: []string{"", "out"}[(i+j)%2], before: []string{"", "stale"}[(i/2)%2]})
		}
	}
	c.Family("documents of all forms")
	num := func(n string) interface{} { return json.Number(n) }
	eachIdx(c, 4, 5, 5, func(ix []int) {
		m := map[string]interface{}{}
		n := []string{"0", "12", "9007199254740993", "9223372036854775807"}[ix[0]]
		text := n
		m["n"] = num(n)
		if k := ix[1]; k > 0 {
			f := []string{"", "0.1", "2.5", "1234567.25"}[k]
			text += " " + f
			m["f"] = num(f)
		}
		if k := ix[2]; k > 0 {
			text += " " + []string{"", "'a'", "'\\n'", "'<'"}[k]
			m["c"] = num([]string{"", "97", "10", "60"}[k])
		}
		if k := ix[3]; k > 0 {
			text += " " + []string{"", `"a"`, `"x\n" "<&>"`, `"" "é"`}[k]
			m["s"] = [][]interface{}{nil, {"a"}, {"x\n", "<&>"}, {"", "é"}}[k]
		}
		if k := ix[4]; k > 0 {
			w := []string{"", "1", "9007199254740995", "77"}[k]
			text += " {word " + w + "}"
			m["sub"] = map[string]interface{}{"t": "word", "n": num(w)}
		}
		if !c.Thorough() && ix[3] != (ix[0]+ix[1]+ix[2])%4 && ix[4] > 0 {
			return
		}
		convRun(c, bin, convCase{files: []convFile{{name: "in.num", text: text, doc: m}}, format: []convFormat{json1, {"raw.htm", true, "raw"}}[(ix[0]+ix[2])%2], ext: []string{"", "out"}[ix[4]%2]})
	})
	c.Family("large documents")
	for _, n := range []int{3, 40, 700, c.Pick(3000, 30000)} {
		var d []convItem
		for i := 0; i < n; i++ {
			d = append(d, convItem{fmt.Sprint("k", i), vals[i%len(vals)]})
		}
		for _, f := range good {
			for _, ext := range []string{"", "out"} {
				convRun(c, bin, convCase{files: []convFile{kvFile("in.kv", d...)}, format: f, ext: ext})
			}
		}
	}

	c.Family("all sequences of input files")
	files := []convFile{
		kvFile("a.kv", convItem{"x", int64(1)}),
		kvFile("b.kv", convItem{"y", "text"}, convItem{"z", nil}),
		{name: "c.lst", text: "3, 4", doc: map[string]interface{}{"v": []interface{}{num("3"), num("4")}}},
		{name: "sub/d.x.tag", text: "// comment\nword\n", doc: map[string]interface{}{"t": "word"}},
		{name: ".tag", text: "hidden", doc: map[string]interface{}{"t": "hidden"}},
		{name: "e.kv", text: "x = "},
		{name: "f.kv", text: "x = 1 y = 2"},
		{name: "g.lst", text: "99999999999999999999"},
		{name: "h.tag", text: ""},
		{name: "i.bad", text: "word"},
		{name: "r.num", text: "9223372036854775807", doc: map[string]interface{}{"n": num("9223372036854775807")}},
		{name: "k.unknown", text: "word"},
		{name: "l", text: "word"},
		{name: "m.", text: "word"},
		{name: "n.kv", missing: true},
		{name: "o.KV", text: "x = 1"},
		{name: "p.tag.kv", text: "q", doc: map[string]interface{}{"item": []interface{}{map[string]interface{}{"name": "q"}}}},
	}
	eachIdx(c, len(files), 0, c.Pick(2, 3), func(ix []int) {
		for fi, f := range formats {
			if len(ix) == 2 && fi > 3 && fi != 5 && fi != 7 && !c.Thorough() || len(ix) == 3 && fi > 0 && fi != 3 {
				continue
			}
			for k, ext := range []string{"", "out", "kv"} {
				if k == 2 && (len(ix) != 1 || fi > 1) {
					continue
				}
				cs := convCase{format: f, ext: ext}
				for _, i := range ix {
					cs.files = append(cs.files, files[i])
				}
				if f.kind == "page" {
					continue // covered above, for documents with items
				}
				convRun(c, bin, cs)
			}
		}
	})
	c.Family("what is there before")
	for _, before := range []string{"stale", "dir"} {
		for _, f := range formats {
			for i := range files {
				for k := range files {
					if k%5 != i%5 && !c.Thorough() || f.kind == "page" && (files[i].items == nil || files[k].items == nil) {
						continue
					}
					convRun(c, bin, convCase{files: []convFile{files[i], files[k]}, format: f, ext: "out", before: before})
				}
			}
		}
	}
	c.Family("long sequences of input files")
	for _, n := range pumpsUpTo(c.Pick(70, 300)) {
		for bad := 0; bad < 3; bad++ {
			for _, ext := range []string{"", "out"} {
				cs := convCase{format: json1, ext: ext}
				for i := 0; i < n; i++ {
					cs.files = append(cs.files, files[i%5])
				}
				if bad > 0 {
					cs.files[(n-1)/bad] = files[5+n%10]
				}
				convRun(c, bin, cs)
			}
		}
	}
}

func convRun(c *core.C, bin string, cs convCase) {
	c.Do(func() string {
		var s []string
		for _, f := range cs.files {
			s = append(s, fmt.Sprintf("%s: %q", f.name, clip(f.text)))
		}
		return fmt.Sprintf("tplconv -o %q -ext %q %s before: %s", cs.format.arg, cs.ext, strings.Join(s, ", "), cs.before)
	}, func() string {
		c.AddTrace(1)
		home := convHome()
		work := filepath.Join(home, "work")
		os.RemoveAll(work)
		if err := os.MkdirAll(filepath.Join(work, "sub"), 0777); err != nil {
			panic(err)
		}
		want := map[string]string{} // files: content, or "?" if not specified
		put := func(name, text string) {
			if err := os.WriteFile(filepath.Join(work, name), []byte(text), 0666); err != nil {
				panic(err)
			}
			want[name] = text
		}
		var args []string
		if cs.format.arg != "" {
			args = append(args, "-o", cs.format.arg)
		}
		if cs.ext != "" {
			args = append(args, "-ext", cs.ext)
		}
		for _, f := range cs.files {
			if !f.missing {
				put(f.name, f.text)
			}
		}
		for i, f := range cs.files {
			if cs.ext != "" {
				out := f.name + "." + cs.ext
				switch cs.before {
				case "stale":
					if want[out] == "" {
						put(out, strings.Repeat("stale text ", 200))
					}
				case "dir":
					if i == len(cs.files)-1 {
						os.MkdirAll(filepath.Join(work, out), 0777)
					}
				}
			}
			args = append(args, f.name)
		}
		type piece struct {
			file string // "": standard output
			f    convFile
		}
		var pieces []piece
		code := 0
		if len(cs.files) == 0 {
			code = 1
		}
		for i, f := range cs.files {
			c.AddStates(1)
			c.AddTransitions(1)
			out := f.name + "." + cs.ext
			if f.doc == nil {
				code = 2
				break
			}
			if cs.ext != "" && cs.before == "dir" && out == cs.files[len(cs.files)-1].name+"."+cs.ext {
				code = 2
				break
			}
			if !cs.format.good {
				code = 2
				if cs.ext != "" {
					want[out] = "?"
				}
				break
			}
			if cs.ext == "" {
				pieces = append(pieces, piece{"", f})
			} else {
				// a later conversion of the same file replaces this one
				pieces = append(pieces, piece{out, f})
				want[out] = "!"
			}
			_ = i
		}
		if len(pieces) > 0 {
			c.Nontrivial(1)
		}
		c.Outcome(fmt.Sprint(code, len(pieces), cs.ext == "", cs.format.kind))

		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = work
		cmd.Env = append(os.Environ(), "HOME="+home)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		err := cmd.Run()
		got := 0
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			got = ee.ExitCode()
		} else if err != nil {
			return fmt.Sprint("can't run: ", err)
		}
		if strings.Contains(stderr.String(), "goroutine ") {
			return "crashed: " + clip(stderr.String())
		}
		if got != code {
			return fmt.Sprintf("exit code %d, want %d; %s", got, code, clip(stderr.String()))
		}
		if (stderr.Len() > 0) != (code != 0) {
			return fmt.Sprintf("exit code %d with messages %q", code, clip(stderr.String()))
		}
		r := stdout.String()
		seen := map[string]bool{}
		for k := len(pieces) - 1; k >= 0; k-- { // the last writer of a file counts
			p := pieces[k]
			if p.file == "" || seen[p.file] {
				continue
			}
			seen[p.file] = true
			b, err := os.ReadFile(filepath.Join(work, p.file))
			if err != nil {
				return err.Error()
			}
			if msg, rest := convPiece(cs.format.kind, p.f, string(b)); msg != "" || rest != "" {
				return fmt.Sprintf("%s holds %q: %s %q", p.file, clip(string(b)), msg, clip(rest))
			}
		}
		if cs.ext == "" {
			for _, p := range pieces {
				var msg string
				if msg, r = convPiece(cs.format.kind, p.f, r); msg != "" {
					return fmt.Sprintf("prints %q: %s", clip(stdout.String()), msg)
				}
			}
		}
		if strings.TrimSpace(r) != "" {
			return fmt.Sprintf("prints %q too much", clip(r))
		}
		var have []string
		msg := ""
		filepath.Walk(work, func(p string, i os.FileInfo, err error) error {
			if err != nil || i.IsDir() {
				return err
			}
			n, _ := filepath.Rel(work, p)
			have = append(have, n)
			if w := want[n]; w != "!" && w != "?" {
				if b, _ := os.ReadFile(p); string(b) != w {
					msg = fmt.Sprintf("%s holds %q, want %q", n, clip(string(b)), clip(w))
				}
			}
			return nil
		})
		if msg != "" {
			return msg
		}
		var names []string
		for n, w := range want {
			if w == "?" {
				if _, err := os.Stat(filepath.Join(work, n)); err != nil {
					continue
				}
			}
			names = append(names, n)
		}
		sort.Strings(names)
		sort.Strings(have)
		if !reflect.DeepEqual(names, have) && len(names)+len(have) > 0 {
			return fmt.Sprintf("there are files %q, want %q", have, names)
		}
		return ""
	})
}

// convPiece reads the conversion of one file from the front of s.
func convPiece(kind string, f convFile, s string) (msg, rest string) {
	raw := func(s string) (string, string) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return "not JSON: " + err.Error(), ""
		}
		if !reflect.DeepEqual(v, f.doc) {
			return fmt.Sprintf("the document is %s, want %s", clip(fmt.Sprint(v)), clip(fmt.Sprint(f.doc))), ""
		}
		b, _ := io.ReadAll(d.Buffered())
		return "", string(b) + s[int(d.InputOffset())+len(b):]
	}
	switch kind {
	case "json":
		return raw(s)
	case "page":
		w := "<p>"
		for _, i := range f.items {
			w += i.page()
		}
		w += "</p>"
		if !strings.HasPrefix(s, w) {
			return fmt.Sprintf("want %q", clip(w)), ""
		}
		return "", s[len(w):]
	}
	i := strings.Index(s, "</pre>")
	if !strings.HasPrefix(s, "<pre>") || i < 0 {
		return "not the template", ""
	}
	if msg, r := raw(html.UnescapeString(s[5:i])); msg != "" || strings.TrimSpace(r) != "" {
		return msg + r, ""
	}
	return "", s[i+6:]
}
