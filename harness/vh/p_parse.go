package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/rand"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/model"
)

// chunks reads a string in pieces of odd sizes.
type chunks struct {
	s string
	r *rand.Rand
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.EOF
	}
	n := min(len(c.s), len(p), 1+c.r.Intn(9))
	if c.r.Intn(20) == 0 {
		n = min(len(c.s), len(p))
	}
	copy(p, c.s[:n])
	c.s = c.s[n:]
	return n, nil
}

var symNames = append([]string{"x", "progn", "nil", "t", "+", "-", "a-b", "foo/bar", "*", "<=", "é", "日本", "a.b", "e", "in", "na", "0x", "1+", "--", "a\\b", "'q", "#f", "[", "]", "{a}", "a,b", "key:", ":key", "%s", "$1"}, allFns...)

// ast makes any program the parsers can express.
func (g *gen) ast(depth int, top bool) val {
	if !top {
		switch g.n(6) {
		case 0, 1:
			return model.S(g.str())
		case 2, 3:
			f := g.num(50)
			if g.one(3) {
				f = (g.r.Float64() - 0.5) * pick(g.r, []float64{1, 1e3, 1e-6, 1e15, 1e100})
			}
			return model.N(f)
		case 4:
			if g.jsonOK {
				return model.S(pick(g.r, symNames))
			}
			return model.Y(pick(g.r, symNames))
		}
		if depth == 0 {
			return model.S(pick(g.r, wordsA))
		}
	}
	l := model.L()
	n := 1 + g.n(4)
	if !g.jsonOK && g.one(20) {
		n = 0
	}
	for i := 0; i < n; i++ {
		switch {
		case i == 0 && (g.jsonOK || g.n(12) > 0):
			l.L = append(l.L, model.Y(pick(g.r, symNames)))
		case g.noNest:
			e := g.ast(0, false)
			l.L = append(l.L, e)
		default:
			l.L = append(l.L, g.ast(depth-1, depth <= 0 && false))
		}
	}
	return l
}

func (g *gen) astProgram() []val {
	n := 1 + g.n(6)
	if g.one(80) {
		n = 50 + g.n(500)
	}
	var p []val
	for i := 0; i < n; i++ {
		p = append(p, g.ast(3, true))
	}
	return p
}

// parsers of a format: all ways the program under test parses it.
type parse struct {
	name string
	f    func(r *rand.Rand, s string) ([]edlisp.Value, error)
}

var lineParsers = []parse{
	{"ParseString", func(_ *rand.Rand, s string) ([]edlisp.Value, error) { return parser.ParseString(s) }},
	{"ParseReader", func(r *rand.Rand, s string) ([]edlisp.Value, error) { return parser.ParseReader(&chunks{s, r}) }},
	{"ParseFormat(shell)", func(_ *rand.Rand, s string) ([]edlisp.Value, error) { return parser.ParseFormat("shell", s) }},
}

var jsonParsers = []parse{
	{"ParseJSONScript", func(_ *rand.Rand, s string) ([]edlisp.Value, error) { return parser.ParseJSONScript(s) }},
}

var autoParsers = []parse{
	{"ParseScript", func(_ *rand.Rand, s string) ([]edlisp.Value, error) { return parser.ParseScript(s) }},
}

// compareParse compares a parser's answer with what it must be.
func (c *Ctx) compareParse(name, src string, got []edlisp.Value, err error, want []val, wantErr bool, verdict, tree bool) {
	switch {
	case wantErr && err == nil:
		if verdict {
			c.Fail("accepted", "%s accepts the malformed script %s as %v", name, clip(fmt.Sprintf("%q", src), 800), clip(fmt.Sprint(fromRealAll(got)), 400))
		}
	case !wantErr && err != nil:
		if verdict {
			c.Fail("rejected", "%s rejects the well-formed script %s: %v", name, clip(fmt.Sprintf("%q", src), 800), err)
		}
	case !wantErr && tree && !model.SameAll(fromRealAll(got), want):
		c.Fail("tree", "%s reads %s as %s, want %s", name, clip(fmt.Sprintf("%q", src), 800), clip(fmt.Sprint(fromRealAll(got)), 500), clip(fmt.Sprint(want), 500))
	}
}

var lineBad = []string{
	`(insert "x"`, `insert "x")`, `insert "abc`, `insert "\q"`, `(point) x`, `(point) "x"`, `(point) 5`, `(insert (point)`, `insert (point`, `insert ((point)`, `)`, `(`, `())`, `insert "a""b"`,
	`insert "\x4"`, `insert "\u12"`, `insert "\"`, `insert "\400"`, `insert "\ud800"`, `insert "\'"`, `"`, `insert "`, `(insert "a;b`, `insert """`, `(point) (point`, `(point)) (point)`, `((point)`, `insert "a" )`, `"\`, `insert "x\`, `(a b (c d) e`, `replace-match "a\"`,
}

var jsonBad = []string{
	`["insert","x"`, `[["insert","x"]`, `["insert","x",]`, `{"a":1}`, `true`, `null`, `5`, `"insert"`, `[5,"x"]`, `[["insert",true]]`, `["insert",null]`, `["insert",{"a":1}]`, `[["insert","x"],5]`, `[[["insert"]]]`,
	`["insert","\q"]`, "[\"insert\",\"a\nb\"]", "[\"insert\",\"a\rb\"]", "[\"insert\",\"a\r\nb\"]", "[\"insert\",\"a\tb\"]", "[\"insert\",\"a\x00b\"]", "[\"insert\",\"\x1b\"]", "[\"insert\",\v\"b\"]", "[\"insert\",\u00a0\"b\"]", "[\"insert\",\ufeff\"b\"]", "[\"ins\rert\",\"b\"]", "[\"insert\",\x00\"b\"]", "[\"insert\"\f]", "[\"goto-char\",1\r2]", `["insert" "x"]`, `[insert,"x"]`, `['insert']`, `["insert",'x']`, `[["insert","x"]]]`, `["insert",01]`, `["insert",+1]`, `["insert",.5]`, `["insert",1.]`, `["insert",NaN]`, `["insert","x"`, `[`, `]`, `["a",["b",["c",false]]]`, `["a",["b",[1]]]`, `[["insert","x"],"y"]`, `[["insert","x"],null]`, `["insert",1e999]`, `["insert","\u12"]`, `[null,"x"]`, `[true]`, `[["insert","x"],[]`, `// c`, `["insert",undefined]`, `insert "x"`, `(insert "x")`,
}

var mutChars = []string{`"`, `"`, `\`, "(", ")", ";", "\n", " ", "\r", "\t", "a", "1", "é", "[", "]", ",", "{", "}", ":", "\\n", "\\x", "(point)", "\"\"", "\u00a0", "\u2028", "\v", "\x00", "-", ".", "e", "+", "null", "\\u00e9", "'"}

func (g *gen) mutate(s string) string {
	for k := 1 + g.n(3); k > 0; k-- {
		i := 0
		if len(s) > 0 {
			i = g.n(len(s) + 1)
		}
		switch g.n(4) {
		case 0:
			if i < len(s) {
				s = s[:i] + s[i+1:]
			}
		case 1:
			if i < len(s) {
				j := min(len(s), i+1+g.n(6))
				s = s[:i] + s[j:]
			}
		case 2:
			if i < len(s) {
				j := min(len(s), i+1+g.n(8))
				s = s[:j] + s[i:j] + s[j:]
			}
		default:
			s = s[:i] + pick(g.r, mutChars) + s[i:]
		}
	}
	return strings.ToValidUTF8(s, "é")
}

// parseDiff compares the parsers with the model on arbitrary scripts.
func (c *Ctx) parseDiff(r *rand.Rand, verdict, tree bool) {
	g := newGen(r)
	g.noBad = true
	js := g.one(2)
	g.jsonOK = js
	prog := g.astProgram()
	w := rend{r}
	var src, format string
	if js {
		src, format = w.json(prog), "json"
		if g.one(6) {
			src = pick(r, jsonBad)
		}
	} else {
		src, format = w.lines(prog, "mixed"), "shell"
		if g.one(6) {
			src = pick(r, lineBad)
		}
	}
	if len(src) > 4000 {
		src = src[:4000]
	}
	src = g.mutate(src)
	want, err := model.Parse(format, src)
	key := src
	if len(key) > 4000 {
		key = key[:4000]
	}
	c.Eval(key)
	if err != nil {
		c.Event("malformed scripts offered")
	} else {
		c.Event("well-formed scripts offered")
	}
	ps := lineParsers
	if js {
		ps = jsonParsers
	}
	for _, p := range ps {
		got, gerr := p.f(r, src)
		c.compareParse(p.name, src, got, gerr, want, err != nil, verdict, tree)
	}
	awant, aerr := model.Parse("auto", src)
	for _, p := range autoParsers {
		got, gerr := p.f(r, src)
		c.compareParse(p.name, src, got, gerr, awant, aerr != nil, verdict, tree)
	}
}

// runP15: malformed scripts are rejected as a whole, well-formed ones are not.
func runP15(c *Ctx) {
	c.Each("fuzz", c.scale(80000, 1000000), func(r *rand.Rand, i int) { c.parseDiff(r, true, false) })
	c.Each("valid", c.scale(20000, 200000), func(r *rand.Rand, i int) { c.renderParse(r, true, false) })
	// large scripts that are malformed in one place
	c.Each("large", c.scale(96, 400), func(r *rand.Rand, i int) {
		w := rend{r}
		n := pick(r, []int{1000, 4096, 10000, 65536, 70000, 200000})
		var prog []val
		for k := 0; k < min(n, 20000)/10; k++ {
			prog = append(prog, model.Cmd("insert", model.S(fmt.Sprint(k, "; )"))))
		}
		format := pick(r, []string{"shell", "sexp", "json"})
		var script string
		if r.Intn(4) == 0 { // one instruction, and long
			prog = nil
			for k := 0; k < 40; k++ {
				prog = append(prog, model.Cmd("concat"))
				for j := pick(r, []int{100, 255, 257, 1025, 4097, 5000, 20000}); j > 0 && k == 20; j-- {
					prog[k].L = append(prog[k].L, pick(r, []val{model.S("a"), model.I(j), model.Cmd("point"), model.Cmd("concat", model.S(";"))}))
				}
			}
			prog[20] = model.Cmd("insert", prog[20])
			if good := w.script(prog, format); true {
				n := 0
				if format == "json" {
					v, _ := parser.ParseJSONScript(good)
					n = len(v)
				} else {
					v, _ := parser.ParseString(good)
					n = len(v)
				}
				c.Event("scripts with a wide instruction")
				if n != len(prog) {
					c.Fail("refused", "a good %s script of %d bytes with an instruction of %d arguments gives %d instructions, want %d", format, len(good), len(prog[20].L[1].L)-1, n, len(prog))
				}
			}
		}
		switch i % 6 {
		case 0: // a long literal that never ends
			script = map[string]string{"shell": "insert \"", "sexp": "(insert \"", "json": "[\"insert\", \""}[format] + strings.Repeat(pick(r, []string{"a", "é", "\\n", " ", ";"}), n)
		case 1: // deep and open
			d := min(n, 3000)
			if format == "json" {
				script = strings.Repeat("[\"concat\",", d) + "\"a\"" + strings.Repeat("]", d-1)
			} else {
				script = strings.Repeat("(concat ", d) + "\"a\"" + strings.Repeat(")", d-1)
			}
		case 2: // deep and closed too often
			d := min(n, 3000)
			if format == "json" {
				script = strings.Repeat("[\"concat\",", d) + "\"a\"" + strings.Repeat("]", d+1)
			} else {
				script = strings.Repeat("(concat ", d) + "\"a\"" + strings.Repeat(")", d+1)
			}
		default: // many commands, a bad one
			at := len(prog)
			if i%6 < 5 {
				at = r.Intn(len(prog) + 1)
			}
			if format == "json" {
				var b strings.Builder
				for k, e := range prog {
					if k == at {
						b.WriteString(pick(r, jsonBad) + "\n")
					}
					b.WriteString(w.jsonVal(e) + "\n")
				}
				script = b.String()
				if at == len(prog) {
					script += pick(r, jsonBad)
				}
			} else {
				script = strings.TrimRight(w.lines(prog[:at], format), "\n;\r ") + "\n" + pick(r, lineBad) + "\n" + w.lines(prog[at:], format)
			}
		}
		if _, err := model.Parse(format, script); err == nil {
			return
		}
		c.Eval(script)
		c.Event("large malformed scripts")
		if out, err := texted.ExecuteScriptWithFormat("text", script, format); err == nil || out != "" {
			c.Fail("executed", "the malformed %s script %s ... %s gives %s, error %v", format, clip(script, 200), clip(script[max(0, len(script)-200):], 200), q(out), err)
		}
		if strings.HasPrefix(strings.TrimSpace(script), "[") == (format == "json") {
			if out, err := texted.ExecuteScript("text", script); err == nil || out != "" {
				c.Fail("executed", "the malformed %s script %s ... %s gives %s, error %v", format, clip(script, 200), clip(script[max(0, len(script)-200):], 200), q(out), err)
			}
		}
	})
	// lines of more than a megabyte, good ones and bad ones
	c.Each("huge", c.scale(24, 120), func(r *rand.Rand, i int) {
		n := pick(r, []int{1<<20 - 40, 1 << 20, 1<<20 + 1, 2<<20 + 17, 4<<20 + 1, 5_000_000})
		format := []string{"shell", "sexp", "json"}[i%3]
		one := map[string]string{"shell": "forward-char 1", "sexp": "(forward-char 1)", "json": "[\"forward-char\", 1]"}[format]
		sep := map[string]string{"shell": " ; ", "sexp": "  ", "json": "  "}[format]
		var script string
		switch r.Intn(3) {
		case 0: // a long literal
			long := strings.Repeat(pick(r, []string{"a", "é ", ";", "(", "\\n"}), n/2)
			long += strings.Repeat("b", max(0, n-len(long)))
			script = map[string]string{"shell": "insert \"" + long + "\"", "sexp": "(insert \"" + long + "\")", "json": "[\"insert\", \"" + long + "\"]"}[format]
		case 1: // much space
			script = one + strings.Repeat(" ", n) + strings.TrimRight(sep, " ") + one
		default: // many commands
			script = strings.Repeat(one+sep, n/len(one+sep)) + one
		}
		if i%2 == 1 {
			script += map[string]string{"shell": pick(r, []string{" \"", " (", " ; a )"}), "sexp": pick(r, []string{" \"", " (", " ) "}), "json": pick(r, []string{" [", " ]", "\"", " 1"})}[format]
		}
		if r.Intn(2) == 0 {
			script += "\n"
		}
		_, merr := model.Parse(format, script)
		c.Eval(fmt.Sprint("huge ", i, format, len(script)))
		ps := lineParsers
		if format == "json" {
			ps = jsonParsers
		}
		for _, p := range append(append([]parse{}, ps...), autoParsers...) {
			if _, err := p.f(r, script); (err != nil) != (merr != nil) {
				c.Fail("huge", "%s of a %s script of %d bytes gives error %v, want %v: %s ... %s", p.name, format, len(script), err, merr, clip(script, 100), script[max(0, len(script)-60):])
			}
		}
		o := c.texted(script, "parse", "--input-format", format, "--output-format", "sexp")
		if (o.code != 0) != (merr != nil) {
			c.Fail("huge", "texted parse of a %s script of %d bytes exits with %d, want error %v: %s ... %s", format, len(script), o.code, merr, clip(script, 100), script[max(0, len(script)-60):])
		}
		if merr != nil {
			c.Event("malformed scripts of a megabyte")
		} else {
			c.Event("well-formed scripts of a megabyte")
		}
	})
	type entry struct {
		name string
		f    func(text, script, format, file string) (result string, err error, out string)
	}
	// a malformed command anywhere in a good program: nothing happens
	c.Each("planted", c.scale(20000, 200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		prog := g.program(model.NewState(text), g.n(6), []string{"insert"}, false)
		if g.one(200) {
			for k := 0; k < 3000; k++ {
				prog = append(prog, model.Cmd("insert", model.S("x")))
			}
		}
		at := g.n(len(prog) + 1)
		w := rend{r}
		format := pick(r, []string{"shell", "sexp", "json"})
		var script, bad string
		if format == "json" {
			bad = pick(r, jsonBad)
			var pre, post string
			for _, e := range prog[:at] {
				pre += w.jsonVal(e) + "\n"
			}
			for _, e := range prog[at:] {
				post += "\n" + w.jsonVal(e)
			}
			script = pre + bad + post
		} else {
			bad = pick(r, lineBad)
			pre, post := "", ""
			if at > 0 {
				pre = strings.TrimRight(w.lines(prog[:at], format), "\n;\r ") + "\n"
			}
			if at < len(prog) {
				post = "\n" + w.lines(prog[at:], format)
			}
			script = pre + bad + post
		}
		if _, err := model.Parse(format, script); err == nil {
			return // the rest completes it
		}
		c.Eval(script)
		c.Event("malformed scripts executed")
		if out, err := texted.ExecuteScriptWithFormat(text, script, format); err == nil || out != "" {
			c.Fail("executed", "the malformed %s script %s (bad part %q) gives %s, error %v, on text %s", format, clip(fmt.Sprintf("%q", script), 700), bad, q(out), err, q(text))
		}
		if _, err := model.Parse("auto", script); err != nil {
			if out, err := texted.ExecuteScript(text, script); err == nil || out != "" {
				c.Fail("executed", "the malformed script %s (bad part %q) gives %s, error %v, on text %s", clip(fmt.Sprintf("%q", script), 700), bad, q(out), err, q(text))
			}
		}
		if i%16 == 0 {
			d := c.Dir()
			f := writeFile(d, "f.txt", text)
			if err := texted.EditFileWithFormat(f, script, format); err == nil {
				c.Fail("file", "EditFile accepts the malformed script %q", clip(script, 600))
			}
			c.wantFile(f, text, "a malformed script "+clip(fmt.Sprintf("%q", script), 600))
			if argOK(script) && script != "" && i%32 == 0 {
				o := c.texted("", "edit", "--format", format, "-i", "-s="+script, f)
				if o.code != 1 {
					c.Fail("cli", "edit -i with the malformed script %q: %s", clip(script, 600), o)
				}
				c.wantFile(f, text, "a malformed script")
				o = c.texted(script, "parse", "--input-format", format)
				if o.code != 1 || o.out != "" {
					c.Fail("cli", "parse of the malformed %s script %q: %s", format, clip(script, 600), o)
				}
			}
			rmAll(d)
		}
		if i < 2 {
			c.Sample("%s script %q", format, clip(script, 400))
		}
	})
}

// renderParse: what is written is what is read.
func (c *Ctx) renderParse(r *rand.Rand, verdict, tree bool) {
	g := newGen(r)
	w := rend{r}
	js := g.one(3)
	g.jsonOK, g.noBad = js, js
	prog := g.astProgram()
	if js {
		if g.one(8) {
			for k := range prog {
				prog[k] = g.oddHeads(prog[k])
			}
			c.Event("JSON scripts with odd names")
		}
		src := w.json(prog)
		c.Eval(clip(src, 3000))
		c.Event("JSON scripts parsed")
		ps := append([]parse{}, jsonParsers...)
		ps = append(ps, autoParsers...)
		for _, p := range ps {
			got, err := p.f(r, src)
			c.compareParse(p.name, src, got, err, prog, false, verdict, tree)
		}
		// the array and the stream form have parsers of their own
		arr := "[" + w.jsp()
		stream := ""
		for i, e := range prog {
			if i > 0 {
				arr += w.jsp() + "," + w.jsp()
			}
			s := w.jsonVal(e)
			arr += s
			stream += s + pick(r, []string{"\n", " ", "", "\r\n\t"})
		}
		arr += w.jsp() + "]"
		got, err := parser.ParseJSONString(arr)
		c.compareParse("ParseJSONString", arr, got, err, prog, false, verdict, tree)
		got, err = parser.ParseFormat("json", arr)
		c.compareParse("ParseFormat(json)", arr, got, err, prog, false, verdict, tree)
		got, err = parser.ParseJSONReader(&chunks{stream, r})
		c.compareParse("ParseJSONReader", stream, got, err, prog, false, verdict, tree)
		return
	}
	style := pick(r, []string{"shell", "sexp", "mixed"})
	src := w.lines(prog, style)
	c.Eval(clip(src, 3000))
	c.Event(style + " scripts parsed")
	for _, p := range lineParsers {
		got, err := p.f(r, src)
		c.compareParse(p.name, src, got, err, prog, false, verdict, tree)
	}
	if !strings.HasPrefix(strings.TrimSpace(src), "[") {
		got, err := parser.ParseScript(src)
		c.compareParse("ParseScript", src, got, err, prog, false, verdict, tree)
	}
	if style == "sexp" {
		src = ""
		for _, e := range prog {
			src += w.sexp(e) + pick(r, []string{"\n", " ", "", "\r\n", "\n\n"})
		}
		for _, f := range []string{"sexp", ""} {
			got, err := parser.ParseFormat(f, src)
			c.compareParse("ParseFormat("+f+")", src, got, err, prog, false, verdict, tree)
		}
	}
}

// runP16: parsing is faithful.
func runP16(c *Ctx) {
	c.Each("render", c.scale(80000, 800000), func(r *rand.Rand, i int) { c.renderParse(r, true, true) })
	c.Each("fuzz", c.scale(60000, 600000), func(r *rand.Rand, i int) { c.parseDiff(r, false, true) })
	c.Each("strings", c.scale(40000, 400000), func(r *rand.Rand, i int) {
		// one string, character by character
		g := newGen(r)
		s := g.str()
		switch g.n(4) {
		case 0:
			s = string(rune(i % 0x3000))
		case 1:
			s = string([]byte{byte(i), byte(i >> 8)})
		}
		w := rend{r}
		src := "insert " + w.lineString(s)
		got, err := parser.ParseString(src)
		c.Eval(src)
		c.compareParse("ParseString", src, got, err, []val{model.Cmd("insert", model.S(s))}, false, true, true)
		if utf8.ValidString(s) {
			src = "[\"insert\"," + w.jsonString(s) + "]"
			got, err := parser.ParseScript(src)
			c.compareParse("ParseScript", src, got, err, []val{model.Cmd("insert", model.S(s))}, false, true, true)
		}
	})
	c.Each("large", c.scale(40, 200), func(r *rand.Rand, i int) {
		w := rend{r}
		var prog []val
		switch i % 4 {
		case 0: // long strings
			n := pick(r, []int{4090, 4096, 65530, 65536, 70000, 300000, 1048576})
			prog = []val{model.Cmd("insert", model.S(strings.Repeat(pick(r, []string{"a", "é", "\"", "\\", "\n", "; "}), n))), model.Cmd("point")}
		case 1: // many instructions
			for k := pick(r, []int{1000, 4096, 20000}); k > 0; k-- {
				prog = append(prog, model.Cmd("insert", model.S("x;y"), model.I(k)))
			}
		case 2: // deep
			e := model.Cmd("point")
			for k := pick(r, []int{50, 100, 128, 1000, 5000}); k > 0; k-- {
				e = model.Cmd("concat", model.S("a"), e)
			}
			prog = []val{e, model.Cmd("point")}
		default: // wide
			e := model.Cmd("concat")
			for k := pick(r, []int{100, 256, 1000, 10000}); k > 0; k-- {
				e.L = append(e.L, model.S(pick(r, wordsA)))
			}
			prog = []val{e, model.Cmd("point")}
		}
		for _, style := range []string{"shell", "sexp"} {
			src := w.lines(prog, style)
			for _, p := range lineParsers {
				got, err := p.f(r, src)
				c.compareParse(p.name, clip(src, 200), got, err, prog, false, true, true)
			}
		}
		src := w.json(prog)
		got, err := parser.ParseScript(src)
		c.compareParse("ParseScript", clip(src, 200), got, err, prog, false, true, true)
		c.Eval(fmt.Sprint("large", i))
		c.Event("large scripts parsed")
	})
}

// runP17: the three formats say the same.
func runP17(c *Ctx) {
	c.Each("formats", c.scale(40000, 400000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		st := model.NewState(text)
		prog := g.program(st, 1+g.n(10), nil, g.one(3))
		if g.one(400) {
			prog = append(g.long(pick(r, []int{100, 256, 257, 1000, 1500})), prog...)
		}
		if len(prog) > 0 && g.one(10) { // a function that does not exist, but looks like one that does
			k := g.n(len(prog))
			if len(prog[k].L) > 0 {
				prog[k] = model.L(append([]val{model.Y(g.unknown())}, prog[k].L[1:]...)...)
				c.Event("programs with an unknown function")
			}
		}
		if g.one(3) { // flat: plain shell commands
			for k := range prog {
				for j := 1; j < len(prog[k].L); j++ {
					if prog[k].L[j].K == model.List {
						prog[k] = model.Cmd("point")
						break
					}
				}
			}
		}
		if !jsonableAll(prog) {
			return
		}
		w := rend{r}
		type res struct {
			via, script, out string
			err              error
		}
		var all []res
		for _, f := range []string{"shell", "sexp", "json"} {
			s := w.script(prog, f)
			out, err := texted.ExecuteScriptWithFormat(text, s, f)
			all = append(all, res{"ExecuteScriptWithFormat " + f, s, out, err})
			if f != "json" && !strings.HasPrefix(strings.TrimSpace(s), "[") || strings.HasPrefix(strings.TrimSpace(s), "[") {
				out, err = texted.ExecuteScript(text, s)
				all = append(all, res{"ExecuteScript, " + f, s, out, err})
			}
		}
		c.Eval(text + model.Sexp(model.L(prog...)))
		c.Event("programs written in three formats")
		if all[0].err != nil {
			c.Event("failing programs")
		}
		for _, x := range all[1:] {
			if x.out != all[0].out || (x.err != nil) != (all[0].err != nil) || x.err != nil && x.err.Error() != all[0].err.Error() {
				c.Fail("formats", "%s gives %s, error %v\n %s gives %s, error %v\n text %s\n scripts %q\n %q", all[0].via, q(all[0].out), all[0].err, x.via, q(x.out), x.err, q(text), clip(all[0].script, 600), clip(x.script, 600))
				return
			}
		}
		if d := scriptDiff(text, prog, all[0].out, all[0].err); d != "" {
			c.Fail("result", "%s: text %s script %q", d, q(text), clip(all[0].script, 600))
		}
		if i < 2 {
			c.Sample("text %s scripts %q and %q", q(text), clip(all[0].script, 200), clip(all[4].script, 200))
		}
	})
}

// sources returns the program's equivalents as read back from what was written.
func writeScript(format string, prog []val) (string, error) {
	w, err := writer.NewWriter(writer.Format(format))
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = w.Write(&b, toRealAll(prog))
	return b.String(), err
}

func hasNested(v val) bool {
	for _, e := range v.L {
		if e.K == model.List {
			return true
		}
	}
	return false
}

// runP19: conversion preserves the program or is refused.
func runP19(c *Ctx) {
	formats := []string{"shell", "sexp", "json"}
	mk := func(g *gen, in string) []val {
		g.noBad = in == "json" || g.one(2)
		g.jsonOK = in == "json" || g.one(2)
		if g.one(3) {
			text := g.text()
			return g.program(model.NewState(text), 1+g.n(6), nil, true)
		}
		n := 1 + g.n(5)
		if g.one(60) {
			n = 200
		}
		if g.one(40) { // nothing at all
			n = 0
		}
		var prog []val
		for i := 0; i < n; i++ {
			e := g.ast(2, true)
			for in == "json" && inexpressible(e, "json") != "" {
				e = g.ast(2, true)
			}
			if in == "json" && g.one(8) {
				e = g.oddHeads(e)
			}
			prog = append(prog, e)
		}
		return prog
	}
	// expect: "" conversion must succeed; otherwise why it must be refused
	expect := func(prog []val, out string) string {
		for _, e := range prog {
			if why := inexpressible(e, out); why != "" {
				return why
			}
		}
		return ""
	}
	large := func(r *rand.Rand) []val {
		g := newGen(r)
		n := pick(r, []int{100, 256, 257, 1000, 1024, 1025, 3000})
		switch g.n(4) {
		case 0: // many
			g.noBad, g.jsonOK, g.noNest = true, true, g.one(2)
			return g.long(n)
		case 1: // wide
			e := model.Cmd("concat")
			for k := 0; k < n; k++ {
				e.L = append(e.L, model.S(pick(r, wordsA)), model.I(k))
			}
			return []val{e, model.Cmd("point")}
		case 2: // deep
			e := model.Cmd("point")
			for k := 0; k < n; k++ {
				e = model.Cmd("concat", model.S("a"), e)
			}
			return []val{e, model.Cmd("point")}
		}
		return []val{model.Cmd("insert", model.S(strings.Repeat(pick(r, []string{"a", "é", "\"", "\\", "\n", "; ", "日", "a\tb"}), 40*n))), model.Cmd("point")}
	}
	c.Each("writer", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		g := newGen(r)
		in, out := pick(r, formats), pick(r, formats)
		prog := mk(g, in)
		if i%300 == 7 {
			prog = large(r)
			c.Event("large programs converted")
		}
		if len(prog) == 0 {
			c.Event("empty programs converted")
		}
		if i%20 == 3 && len(prog) > 0 {
			k := g.n(len(prog))
			prog[k] = g.oddSyms(prog[k])
			c.Event("programs with symbols few formats can write")
		}
		c.Eval(out + fmt.Sprintf("%q", prog) + model.Sexp(model.L(prog...)))
		want := expect(prog, out)
		text, err := writeScript(out, prog)
		if want != "" {
			c.Event("impossible conversions")
			if err == nil {
				c.Fail("silent", "conversion to %s of %s (%s) gives %q", out, clip(fmt.Sprint(prog), 500), want, clip(text, 500))
			}
			return
		}
		c.Event("conversions to " + out)
		if err != nil {
			c.Fail("refused", "conversion to %s of %s fails: %v", out, clip(fmt.Sprint(prog), 500), err)
			return
		}
		back, err := model.Parse(out, text)
		if err != nil || !model.SameAll(back, prog) {
			c.Fail("changed", "conversion to %s of %s gives %q, which reads as %v (%v)", out, clip(fmt.Sprint(prog), 500), clip(text, 500), clip(fmt.Sprint(back), 500), err)
			return
		}
		var rb []edlisp.Value
		if out == "json" {
			rb, err = parser.ParseJSONScript(text)
		} else {
			rb, err = parser.ParseString(text)
		}
		if err != nil || !model.SameAll(fromRealAll(rb), prog) {
			c.Fail("changed", "conversion to %s of %s gives %q, which is read back as %v (%v)", out, clip(fmt.Sprint(prog), 500), clip(text, 500), clip(fmt.Sprint(fromRealAll(rb)), 500), err)
			return
		}
		again, err := writeScript(out, fromRealAll(rb))
		if err != nil || again != text {
			c.Fail("unstable", "converting %q again gives %q (%v)", clip(text, 500), clip(again, 500), err)
		}
	})
	c.Each("cli", c.scale(3000, 20000), func(r *rand.Rand, i int) {
		g := newGen(r)
		in, out := pick(r, formats), pick(r, formats)
		prog := mk(g, in)
		if g.one(40) {
			prog = append(prog, model.Cmd("insert", model.S(strings.Repeat("x ", 50000))))
		}
		if i%100 == 13 {
			prog = large(r)
			c.Event("large programs converted on the command line")
		}
		src := rend{r}.script(prog, in)
		args := []string{"parse", "--input-format", in, "--output-format", out}
		if in == "shell" && g.one(2) {
			args = []string{"parse", "--output-format", out}
		} else if out == "sexp" && g.one(2) {
			args = []string{"parse", "--input-format=" + in}
		}
		if g.one(20) { // nothing can be read: that is no empty script
			f := c.unreadable(g.n(2))
			o := c.run1(cliRun{args: args, in: f})
			f.Close()
			c.Event("conversions of an unreadable stdin")
			if o.code != 1 || o.out != "" || o.err == "" {
				c.Fail("unreadable", "parse %v with an unreadable stdin: %s", args, o)
			}
			return
		}
		o := c.texted(src, args...)
		c.Eval("cli" + out + clip(src, 2000))
		want := expect(prog, out)
		if in != "json" && !utf8.ValidString(src) {
			return
		}
		if o.crashed() {
			c.Fail("crash", "parse %v of %q: %s", args, clip(src, 500), o)
			return
		}
		switch {
		case want != "":
			c.Event("impossible conversions on the command line")
			if o.code == 0 {
				c.Fail("silent", "parse %v of %q (%s): %s", args, clip(src, 500), want, o)
			}
		default:
			c.Event("conversions on the command line")
			back, err := model.Parse(out, o.out)
			if o.code != 0 || err != nil || !model.SameAll(back, prog) {
				c.Fail("changed", "parse %v of %q: %s, which reads as %v (%v), want %v", args, clip(src, 500), o, clip(fmt.Sprint(back), 500), err, clip(fmt.Sprint(prog), 500))
			}
		}
		if i < 2 {
			c.Sample("%v: %q -> %q", args, clip(src, 300), clip(o.out, 300))
		}
	})
}

// names that a program can have only in JSON, or only built by hand; and a few odd ones
var oddNames = []string{"", " ", "a b", " a", "a ", "5", "-1e3", "inf", "NaN", "+Inf", "Infinity", "0x1p3", ".5", "5.", "1_0", "0x_1p0", "a;b", ";", "a\"b", "\"x\"", "\"a b\"", "\"", "a(b", ")", "(", "()", "a\nb", "a\tb", "a\r", "\ra", "a\n", "\u00a0a", "a\u00a0", "a\u00a0b", "a\u2028", "\u3000", "\u0085x", "\vx", "x\f", "x\\", "a\\\"b", "'a b'", "a\x00", "\ufeffx", "insert \"a\"", "a\xffb", "\u2029é", "#", "\"a;b\"", "a\"b;c\"d", "a\"(\"d"}

// oddHeads: the expression with an odd name for some function it calls.
func (g *gen) oddHeads(v val) val {
	if v.K != model.List || len(v.L) == 0 {
		return v
	}
	out := model.L(v.L...)
	out.L = append([]val(nil), v.L...)
	if out.L[0].K == model.Sym && g.one(2) {
		out.L[0] = model.Y(strings.ToValidUTF8(pick(g.r, oddNames), "?"))
	}
	for i := 1; i < len(out.L); i++ {
		out.L[i] = g.oddHeads(out.L[i])
	}
	return out
}

// oddSyms: the expression with odd names for some of its symbols and arguments.
func (g *gen) oddSyms(v val) val {
	if v.K != model.List {
		if g.one(3) {
			return model.Y(pick(g.r, oddNames))
		}
		return v
	}
	out := model.L()
	for _, e := range v.L {
		out.L = append(out.L, g.oddSyms(e))
	}
	return out
}

// inexpressible: why the format cannot express the expression; "" if it can.
func inexpressible(v val, format string) string {
	if v.K != model.List {
		return "no command"
	}
	if format == "json" {
		if len(v.L) == 0 {
			return "an empty command"
		}
		return notJSON(v)
	}
	if format == "shell" {
		if len(v.L) == 0 {
			return "an empty command"
		}
		var words []string
		for _, e := range v.L {
			if e.K == model.List {
				return "nested"
			}
			if why := oddSymbol(e); why != "" {
				return why
			}
			words = append(words, model.Sexp(e))
		}
		back, err := model.ParseLines(strings.Join(words, " "))
		if err != nil || !model.SameAll(back, []val{v}) {
			return "a symbol that does not read back"
		}
		return ""
	}
	return oddSymbol(v)
}

// oddSymbol: a symbol that cannot be written in a line of a script.
func oddSymbol(v val) string {
	if v.K == model.Sym && !slices.Contains(symNames, v.S) {
		back, err := model.ParseLines("(" + v.S + ")")
		if err != nil || !model.SameAll(back, []val{model.L(v)}) || !utf8.ValidString(v.S) {
			return "a symbol that does not read back"
		}
	}
	for _, e := range v.L {
		if why := oddSymbol(e); why != "" {
			return why
		}
	}
	return ""
}

// notJSON: what JSON cannot say. Symbols are names of functions there and nothing else is.
func notJSON(v val) string {
	for i, e := range v.L {
		switch {
		case i == 0 && e.K != model.Sym:
			return "a list that is no call"
		case i > 0 && e.K == model.Sym:
			return "a symbol argument"
		case (e.K == model.Sym || e.K == model.Str) && !utf8.ValidString(e.S):
			return "bytes that are not UTF-8"
		case e.K == model.Num && (math.IsNaN(e.N) || math.IsInf(e.N, 0)):
			return "a number that is none"
		}
		if why := notJSON(e); why != "" {
			return why
		}
	}
	return ""
}

func init() {
	Props["P15"] = &Prop{Run: runP15, Rule: "a case is a script: valid ones written from random programs, the same with random mutations, and good programs with one malformed command planted; distinct by script. The model parser decides what is malformed.", Floors: map[string]int64{"malformed scripts offered": 15000, "well-formed scripts offered": 10000, "malformed scripts executed": 8000, "large malformed scripts": 50}}
	Props["P16"] = &Prop{Run: runP16, Rule: "a case is a program written as a script in one of many layouts and escapings and parsed again, or a mutated script parsed by the model, too; distinct by script", Floors: map[string]int64{"JSON scripts parsed": 10000, "shell scripts parsed": 8000, "sexp scripts parsed": 8000, "mixed scripts parsed": 8000, "large scripts parsed": 30}}
	Props["P17"] = &Prop{Run: runP17, Rule: "a case is a text and a program, written in three formats and executed with and without naming the format; distinct by text and program", Floors: map[string]int64{"programs written in three formats": 20000, "failing programs": 500, "programs with an unknown function": 1000}}
	Props["P19"] = &Prop{Run: runP19, Rule: "a case is a program and a target format; distinct by both. The oracle parses the output with the model parser and compares trees.", Floors: map[string]int64{"conversions to shell": 3000, "conversions to sexp": 8000, "conversions to json": 3000, "impossible conversions": 2000, "conversions on the command line": 1000, "programs with symbols few formats can write": 1500, "large programs converted": 150}}
}
