package main

import (
	"encoding/xml"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	etesting "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/zzverif/model"
)

// tcase is a test case together with the verdict it deserves.
type tcase struct {
	buffer, input, result, lang, errText string
	output                               *string
	why                                  string // why it has to fail; "" if it has to pass
	actual                               string // the text its program leaves
	traces                               int    // instructions that succeed
	steps                                []string
	insts                                []val
	blind                                string // as why, if an empty expected output is taken for none
}

// xmlOK keeps what XML can carry.
func xmlOK(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0x9 || r == 0xA || r == 0xD || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 {
			return r
		}
		return '?'
	}, strings.ToValidUTF8(s, "?"))
}

// xmlText writes s as XML text in one of several ways.
func xmlText(r *rand.Rand, s string) string {
	var b strings.Builder
	raw := r.Intn(3) // 0: escape everything that can be, 1: only what must be, 2: CDATA
	if raw == 2 && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		return "<![CDATA[" + s + "]]>"
	}
	for _, c := range s {
		switch {
		case c == '<':
			b.WriteString("&lt;")
		case c == '&':
			b.WriteString("&amp;")
		case c == '>':
			b.WriteString("&gt;")
		case c == '\r':
			b.WriteString("&#13;")
		case raw == 0 && c == '"':
			b.WriteString("&quot;")
		case raw == 0 && c == '\n':
			b.WriteString("&#xA;")
		case raw == 0 && c > 127:
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

// xml writes the test case as a file.
func (t *tcase) xml(r *rand.Rand) string {
	attr := func(n string, lang string) string {
		if lang == "" {
			return "<" + n + ">"
		}
		return "<" + n + pick(r, []string{` lang="` + lang + `">`, ` lang='` + lang + `'>`, ` lang = "` + lang + `" >`})
	}
	el := func(n, lang, text string) string {
		if text == "" && r.Intn(2) == 0 {
			return strings.TrimSuffix(attr(n, lang), ">") + "/>"
		}
		return attr(n, lang) + xmlText(r, text) + "</" + n + ">"
	}
	pad := func(s string) string {
		return pick(r, []string{"", "\n", " ", "\n\n\t"}) + s + pick(r, []string{"", "\n", " ", "\n"})
	}
	var parts []string
	if t.buffer != "" || r.Intn(2) == 0 {
		parts = append(parts, el("buffer", "", t.buffer))
	}
	if t.input != "" || r.Intn(2) == 0 {
		parts = append(parts, el("input", pick(r, []string{"", "shell", "sexp"}), pad(t.input)))
	}
	if t.output != nil {
		parts = append(parts, el("output", "", *t.output))
	}
	if t.result != "" || r.Intn(4) == 0 {
		parts = append(parts, el("result", t.lang, pad(t.result)))
	}
	if t.errText != "" || r.Intn(2) == 0 {
		parts = append(parts, el("error", pick(r, []string{"", "sexp"}), pad(t.errText)))
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	if r.Intn(6) == 0 {
		parts = append(parts, "<!-- <output>no</output> -->")
	}
	if r.Intn(6) == 0 {
		parts = append([]string{"<description>about <b>this</b> test</description>"}, parts...)
	}
	return strings.Join(parts, pick(r, []string{"\n", "", "\n\n", "  "}))
}

func (t *tcase) String() string {
	out := "none"
	if t.output != nil {
		out = q(*t.output)
	}
	return fmt.Sprintf("buffer %s input %s output %s result %s (%s) error %s", q(t.buffer), q(t.input), out, q(t.result), t.lang, q(t.errText))
}

// near makes a text that is almost, but not quite, t.
func near(r *rand.Rand, t string) string {
	for {
		s := t
		switch r.Intn(10) {
		case 0:
			s += "\n"
		case 1:
			s = strings.TrimSpace(s)
		case 2:
			s = " " + s
		case 3:
			s = strings.ToUpper(s)
		case 4:
			s = ""
		case 5:
			s = strings.TrimSuffix(s, "\n")
		case 6:
			s += s
		case 7:
			if len(s) > 0 {
				_, n := utf8.DecodeRuneInString(s)
				s = s[n:]
			}
		case 8:
			if len(s) > 0 {
				_, n := utf8.DecodeLastRuneInString(s)
				s = s[:len(s)-n]
			}
		default:
			s += pick(r, []string{"x", " ", "\t", "é", "\r"})
		}
		if s != t {
			return s
		}
		if r.Intn(5) == 0 {
			return t + "!"
		}
	}
}

// nearVal makes a value that is almost v.
func nearVal(r *rand.Rand, v val) val {
	switch v.K {
	case model.Str:
		switch r.Intn(3) {
		case 0:
			if v.S != "" && !strings.ContainsAny(v.S, "\" ()\\;") && strings.IndexFunc(v.S, func(c rune) bool { return c <= 32 || c > 126 }) < 0 {
				if p, err := parser.ParseSexp(v.S); err == nil && len(p) == 1 {
					return fromReal(p[0]) // the same characters, another kind
				}
			}
		case 1:
			return model.L(v)
		}
		return model.S(xmlOK(near(r, v.S)))
	case model.Num:
		switch r.Intn(4) {
		case 0:
			return model.S(model.NumText(v.N))
		case 1:
			return model.N(-v.N - 1)
		case 2:
			if v.N+0.5 != v.N {
				return model.N(v.N + 0.5)
			}
			return model.N(0)
		}
		if v.N+1 != v.N {
			return model.N(v.N + 1)
		}
		return model.N(1)
	case model.Sym:
		return pick(r, []val{model.S(v.S), model.Y(v.S + "x"), model.L(v)})
	}
	l := model.L(append([]val(nil), v.L...)...)
	switch r.Intn(3) {
	case 0:
		l.L = append(l.L, model.I(0))
		return l
	case 1:
		if len(l.L) > 0 {
			i := r.Intn(len(l.L))
			l.L[i] = nearVal(r, l.L[i])
			return l
		}
	case 2:
		if len(l.L) > 0 {
			l.L = l.L[:len(l.L)-1]
			return l
		}
	}
	return model.S("()")
}

// value makes any value the script formats can write.
func (g *gen) value(depth int) val {
	switch k := g.n(8); {
	case k < 3:
		return model.S(xmlOK(g.str()))
	case k < 5:
		return model.N(float64(g.n(2000)-1000) / pick(g.r, []float64{1, 1, 1, 4, 1000}))
	case k == 5:
		return model.Y(pick(g.r, []string{"t", "nil", "foo", "a-b", "x1", "+", "été"}))
	}
	if depth == 0 {
		return model.L()
	}
	l := model.L()
	for i := g.n(4); i > 0; i-- {
		l.L = append(l.L, g.value(depth-1))
	}
	return l
}

// testCase makes a test case, an environment to run it in, and its verdict.
func (g *gen) testCase(custom bool) (*tcase, *edlisp.Environment) {
	g.noBad = true
	t := &tcase{buffer: xmlOK(g.text())}
	env := edlisp.NewDefaultEnvironment()
	rd := rend{g.r}
	var menv model.Env
	if custom {
		// Functions that return any value at all, and that fail in their own words.
		ret := g.value(3)
		msg := "own failure " + pick(g.r, []string{"one", "(two)", "thr\"ee", "f\tour"})
		env.Functions["own-value"] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) { return toReal(ret), nil }
		env.Functions["own-fail"] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) { return nil, errors.New(msg) }
		menv = model.Env{
			"own-value": func([]val, *model.State) (val, model.ErrKind) { return ret, "" },
			"own-fail":  func([]val, *model.State) (val, model.ErrKind) { return val{}, "own" },
		}
	}
	var prog []val
	for {
		prog = nil
		if g.n(12) > 0 {
			prog = g.program(model.NewState(t.buffer), 1+g.n(5), nil, false)
		}
		if custom && g.n(4) > 0 {
			prog = append(prog, model.Cmd("own-value"))
		}
		if g.one(4) { // a failure
			switch {
			case custom:
				prog = append(prog, model.Cmd("own-fail"))
			case g.one(3):
				prog = append(prog, model.Cmd("no-such-function", model.S("a")))
			default:
				prog = append(prog, model.Cmd("search-forward", model.S("never there \U0001F4A9")))
			}
			if g.one(2) {
				prog = append(prog, model.Cmd("insert", model.S("after")))
			}
		}
		o := model.Eval(prog, model.NewState(t.buffer), menv)
		t.actual = o.State.Text
		if len(t.actual) < 100_000 && t.actual == xmlOK(t.actual) {
			break
		}
		t.buffer = xmlOK(g.str())
	}
	o := model.Eval(prog, model.NewState(t.buffer), menv)
	t.traces = len(prog)
	if o.Err != "" {
		t.traces = o.Index
	}
	t.input = strings.TrimSpace(xmlOK(rd.lines(prog, pick(g.r, []string{"shell", "sexp", "mixed"}))))
	if g.one(15) {
		t.input = pick(g.r, []string{`insert "a`, `(insert "a"`, `insert "a")`, `insert "\q"`})
		t.why = "its script is malformed"
		t.traces = 0
	}
	if p, err := parser.ParseString(t.input); t.why == "" && (err != nil || !model.SameAll(fromRealAll(p), prog)) {
		// Rendering through XML lost something; P16 has the parser.
		t.input = ""
		prog = nil
		o = model.Eval(nil, model.NewState(t.buffer), menv)
		t.actual, t.traces = t.buffer, 0
	}
	// What a trace shows.
	st := model.NewState(t.buffer)
	for _, e := range prog {
		if t.why != "" {
			break
		}
		o := model.Eval([]val{e}, st, menv)
		if o.Err != "" {
			break
		}
		st = o.State
		t.insts = append(t.insts, e)
		t.steps = append(t.steps, fmt.Sprintf("%s: Buffer content: %q / Point: %d,", e.L[0].S, st.Text, st.Point))
	}
	// The message the evaluation fails with; P13 says it is right.
	evalMsg := ""
	if o.Err != "" && t.why == "" {
		b := edlisp.NewBuffer(t.buffer)
		if _, err := edlisp.Eval(toRealAll(prog), env, b); err != nil {
			evalMsg = err.Error()
		}
	}

	// What it expects.
	resWhy := ""
	wantOut, wantRes := g.n(3) > 0, g.n(3) > 0
	if wantOut {
		s := t.actual
		if g.one(3) {
			s = xmlOK(near(g.r, s))
		}
		t.output = &s
		if s != t.actual && t.why == "" && o.Err == "" {
			t.why = "the text differs"
		}
	}
	if wantRes {
		v := o.Val
		if o.Err != "" {
			v = model.I(1)
		}
		if g.one(3) {
			v = nearVal(g.r, v)
		}
		t.lang = pick(g.r, []string{"", "sexp", "sexp"})
		t.result = strings.TrimSpace(rd.sexp(v))
		if t.result != xmlOK(t.result) || strings.ContainsAny(t.result, "\r\n") {
			t.result = `"?"`
		}
		if v.K == model.List && len(v.L) > 0 && v.L[0].K != model.List && g.one(3) {
			t.lang, t.result = "shell", strings.TrimSpace(rd.shellCmd(v))
			if t.result != xmlOK(t.result) {
				t.result = "x"
			}
		}
		if g.one(25) {
			t.lang, t.result = "sexp", pick(g.r, []string{"(a) (b)", `"a`, "(1", "(1))"})
		}
		// What it denotes; P16 has the parser.
		p, err := parser.ParseFormat(t.lang, t.result)
		switch {
		case o.Err != "":
		case err != nil:
			resWhy = "its expected result is malformed"
		case len(p) != 1:
			resWhy = "its expected result is not one expression"
		case !equalVals(fromReal(p[0]), o.Val):
			resWhy = "the result differs"
		}
	}
	if !wantOut && !wantRes && o.Err == "" {
		resWhy = "it expects nothing"
	}
	known := t.why == "" || t.why == "the text differs"
	if t.why == "" {
		t.why = resWhy
	}
	known = known && t.output != nil && *t.output == "" && o.Err == ""
	if known {
		t.blind = resWhy
		if !wantRes {
			t.blind = "it expects nothing"
		}
	}
	if o.Err != "" && t.why == "" {
		if g.n(3) > 0 { // it expects an error
			s := xmlOK(evalMsg)
			switch g.n(4) {
			case 0:
				if i := strings.Index(s, " (at"); i > 0 {
					s = s[:i]
				}
			case 1:
				s = "(" + s + ")"
			case 2:
				s = g.part(s)
			}
			if g.one(3) {
				s = pick(g.r, []string{"another error", "own failure zero", "search failed", "undefined function", strings.ToUpper(s), s + "x"})
			}
			t.errText = strings.TrimSpace(s)
			if strings.Trim(t.errText, "()") == "" {
				t.errText = "another error"
			}
			if !strings.Contains(evalMsg, strings.Trim(t.errText, "()")) {
				t.why = "it fails in another way"
			}
			// Whether the text is looked at as well is not specified.
			if t.output != nil && *t.output != t.actual {
				t.output = nil
			}
			t.result = ""
		} else {
			t.why = "it fails unexpectedly"
		}
	} else if o.Err == "" && t.why == "" && g.one(6) {
		t.errText = pick(g.r, []string{"search failed", "error", "undefined function", t.actual + "e", "at"})
		if strings.Trim(strings.TrimSpace(t.errText), "()") == "" {
			t.errText = "error"
		}
		t.why = "it does not fail"
	}
	if !known || t.why == "it does not fail" {
		t.blind = t.why
	}
	return t, env
}

// equalVals is Equal: NaN differs from itself.
func equalVals(a, b val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case model.Num:
		return a.N == b.N
	case model.List:
		if len(a.L) != len(b.L) {
			return false
		}
		for i := range a.L {
			if !equalVals(a.L[i], b.L[i]) {
				return false
			}
		}
		return true
	}
	return a.S == b.S
}

func (c *Ctx) verdict(how string, t *tcase, r *etesting.TestResult) {
	switch {
	case r == nil:
		c.Fail("verdict", "%s: no result for %s", how, t)
	case r.Passed != (t.why == "") && r.Passed == (t.blind == ""):
		c.Fail("empty-output", "%s: an empty expected output is not looked at: passed is %v (%v) for %s; its program leaves %s", how, r.Passed, r.Error, t, q(t.actual))
	case r.Passed && t.why != "":
		c.Fail("verdict", "%s: passes although %s: %s; its program leaves %s", how, t.why, t, q(t.actual))
	case !r.Passed && t.why == "":
		c.Fail("verdict", "%s: fails with %v although what it expects happens: %s", how, r.Error, t)
	case r.Passed && r.Error != nil:
		c.Fail("verdict", "%s: passes with error %v: %s", how, r.Error, t)
	case !r.Passed && r.Error == nil:
		c.Fail("verdict", "%s: fails without saying why (%s): %s", how, t.why, t)
	case t.why == "the text differs" && t.blind == t.why && (r.Expected != *t.output || r.Actual != t.actual):
		c.Fail("verdict", "%s: reports expected %s and actual %s for %s; its program leaves %s", how, q(r.Expected), q(r.Actual), t, q(t.actual))
	}
}

func runP35(c *Ctx) {
	one := func(r *rand.Rand, custom bool) {
		g := newGen(r)
		t, env := g.testCase(custom)
		tc := &etesting.TestCase{Buffer: t.buffer,
			Input:  etesting.Input{Lang: "shell", Text: t.input},
			Result: etesting.Result{Lang: t.lang, Text: t.result},
			Error:  etesting.Error{Lang: "sexp", Text: t.errText}}
		x := t.xml(r)
		parsed, err := etesting.ParseTestCase(strings.NewReader(x))
		if err != nil {
			c.Fail("parse", "the test case %s is not accepted: %v", q(x), err)
			return
		}
		// Parsing keeps every part.
		trim := strings.TrimSpace
		wantOut := ""
		if t.output != nil {
			wantOut = *t.output
		}
		if parsed.Buffer != t.buffer || trim(parsed.Input.Text) != trim(t.input) || parsed.Output != wantOut ||
			trim(parsed.Result.Text) != trim(t.result) || trim(parsed.Error.Text) != trim(t.errText) ||
			(t.result != "" && parsed.Result.Lang != t.lang) {
			c.Fail("parse", "the test case %s is read as %+v, not as %s", q(x), parsed, t)
			return
		}
		before := *parsed
		calls := 0
		res := etesting.RunTestWithTrace(parsed, env, func(*edlisp.TraceContext) { calls++ })
		c.verdict("run with trace", t, res)
		if calls != t.traces {
			c.Fail("trace", "%d instructions traced, want %d: %s", calls, t.traces, t)
		}
		if !reflect.DeepEqual(before, *parsed) {
			c.Fail("mutated", "running the test changes the test case: %s", t)
		}
		// The same case again, in the same environment: tests do not leak into each other.
		c.verdict("run again", t, etesting.RunTest(parsed, env))
		if t.output == nil || *t.output != "" { // by hand, an empty output cannot be told from none
			tc.Output = wantOut
			c.verdict("built by hand", t, etesting.RunTest(tc, env))
		}
		if r.Intn(4) == 0 {
			dir := c.Dir()
			name := pick(r, []string{"a.xml", "with space.xml", "no-extension", "déjà.xml", "x.y.z.xml"})
			p := writeFile(dir, name, x)
			res := etesting.RunTestFile(p, env)
			c.verdict("run from a file", t, res)
			if res != nil && res.Name != name {
				c.Fail("name", "the result of %s is named %q", name, res.Name)
			}
			if b, _ := os.ReadFile(p); string(b) != x {
				c.Fail("file", "running the test changes its file: %s", t)
			}
			rmAll(dir)
			c.Event("run from files")
		}
		why := t.why
		if why == "" {
			why = "deserves to pass"
			if t.errText != "" {
				why = "deserves to pass by failing"
			}
		}
		c.Event(why)
		c.Eval(x)
		if r.Intn(50) == 0 {
			c.Sample("%s: %s", x, why)
		}
	}
	c.Each("builtin", c.scale(24000, 300000), func(r *rand.Rand, i int) { one(r, false) })
	c.Each("custom", c.scale(16000, 200000), func(r *rand.Rand, i int) { one(r, true) })

	// Broken files are reported as failures, never as passes.
	c.Each("broken", c.scale(1600, 20000), func(r *rand.Rand, i int) {
		g := newGen(r)
		t, env := g.testCase(false)
		x := t.xml(r)
		switch r.Intn(5) {
		case 0:
			x += "<output>"
		case 1:
			x = "</buffer>" + x
		case 2:
			x += "<a b=c></a>"
		case 3:
			x += "&nosuch;"
		case 4:
			x += "\x01"
		}
		if d := xml.NewDecoder(strings.NewReader("<x>" + x + "</x>")); wellFormed(d) {
			return
		}
		dir := c.Dir()
		defer rmAll(dir)
		p := writeFile(dir, "t.xml", x)
		if r.Intn(6) == 0 {
			p = filepath.Join(dir, "missing.xml")
		}
		res := etesting.RunTestFile(p, env)
		if res == nil || res.Passed || res.Error == nil || res.Name != filepath.Base(p) {
			c.Fail("broken", "the broken test file %s gives %+v", q(x), res)
		}
		c.Event("broken files")
		c.Eval("broken:" + x)
	})
}

func wellFormed(d *xml.Decoder) bool {
	for {
		_, err := d.Token()
		if err != nil {
			return err.Error() == "EOF"
		}
	}
}

// labelled: a line says that this text is the expected or the actual one.
func labelled(out, label, text string) bool {
	return regexp.MustCompile(`(?i)` + label + `: *` + regexp.QuoteMeta(fmt.Sprintf("%q", text))).MatchString(out)
}

// plainAtoms are the atoms of an instruction that any notation shows as they are.
func plainAtoms(v val) []string {
	switch v.K {
	case model.Str:
		if regexp.MustCompile(`^[A-Za-z0-9_]+$`).MatchString(v.S) {
			return []string{v.S}
		}
	case model.Num:
		if v.N == math.Trunc(v.N) && math.Abs(v.N) < 1e5 {
			return []string{fmt.Sprint(int(v.N))}
		}
	case model.Sym:
		return []string{v.S}
	}
	var out []string
	for i, e := range v.L {
		if i > 0 || e.K != model.Sym {
			out = append(out, plainAtoms(e)...)
		}
	}
	return out
}

var testLine = regexp.MustCompile(`(?m)^\[(PASS|FAIL)\] (.*)$`)
var testSummary = regexp.MustCompile(`(?m)^Tests: (\d+) passed, (\d+) failed, (\d+) total$`)

var traceLines = regexp.MustCompile(`(?m)^TRACE: Executed instruction: \(([^ ()]+)((?s:.*?))\n  (Buffer content: ".*")\n  (Point: -?\d+,)`)

func runP36(c *Ctx) {
	c.Each("command", c.scale(6000, 60000), func(r *rand.Rand, i int) {
		g := newGen(r)
		dir := c.Dir()
		defer rmAll(dir)
		type file struct {
			path string
			t    *tcase
		}
		files := map[string]*tcase{}
		sub := pick(r, []string{"tests", "tests", "tests", "other", "."})
		must(os.MkdirAll(filepath.Join(dir, sub), 0o755))
		n := r.Intn(6)
		if r.Intn(25) == 0 {
			n = 9 + r.Intn(30)
			c.Event("runs of many tests")
		}
		allPass := r.Intn(3) == 0
		var paths []string
		for k := 0; k < n; k++ {
			name := pick(r, []string{"a", "b", "search", "regex-x", "z z", "été", "A", "kill", "kill-word", "0", "a.b"}) + pick(r, []string{".xml", ".xml", ".xml", "-test.xml", ".txt", "2.xml"})
			if n > 6 {
				name = fmt.Sprint(r.Intn(60)) + name
			}
			p := filepath.Join(sub, name)
			if files[p] != nil {
				continue
			}
			t, _ := g.testCase(false)
			for tries := 0; (allPass && t.why != "" || t.blind != t.why) && tries < 50; tries++ {
				t, _ = g.testCase(false)
			}
			if t.blind != t.why { // P35 has these
				continue
			}
			text := t.xml(r)
			if !allPass && r.Intn(12) == 0 {
				text += "<output>"
				t = &tcase{why: "its file is malformed"}
			}
			files[p] = t
			must(os.WriteFile(filepath.Join(dir, p), []byte(text), 0o644))
			paths = append(paths, p)
		}
		var args, run []string
		args = append(args, "test")
		explicit := sub != "tests" || r.Intn(2) == 0
		if explicit {
			r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
			for _, p := range paths {
				if r.Intn(6) > 0 {
					run = append(run, p)
				}
			}
			if len(run) > 0 && r.Intn(8) == 0 {
				run = append(run, run[0]) // twice
			}
			if !allPass && r.Intn(6) == 0 {
				miss := filepath.Join(sub, "missing.xml")
				files[miss] = &tcase{why: "its file is missing"}
				run = append([]string{miss}, run...)
			}
			if !allPass && r.Intn(10) == 0 {
				files[sub] = &tcase{why: "it is a directory"}
				run = append(run, sub)
			}
		}
		named := append([]string(nil), run...)
		if len(run) == 0 {
			explicit = false
			for _, p := range paths {
				if filepath.Dir(p) == "tests" && strings.HasSuffix(p, ".xml") {
					run = append(run, p)
				}
			}
			sort.Strings(run)
		}
		// include patterns
		var pats []string
		badPat := false
		for r.Intn(3) == 0 && len(pats) < 3 {
			pats = append(pats, pick(r, []string{"kill", "^a", "xml$", "search.*", ".", "tests", "[0-9]", "(?i)A", "nothing", "\\.xml$", "^kill\\.xml$", "z z", "é", "!kill", "!", "!a", "-kill", "~a", "/a/", "a|b", "kill*", "x*", "a?b?", "\\d", "\\bkill\\b", "kill.xml", "KILL", "^$", "[!k]", "[^k]", "k.*d", "^.\\.", "xml", "\\.xml", "test", "tests/.*", "^"}))
		}
		if len(paths) > 0 && r.Intn(8) == 0 { // names that differ in something
			b := filepath.Base(pick(r, paths))
			pats = append(pats, pick(r, []string{b, strings.ToUpper(b), strings.ToLower(b), "^" + b + "$", b + ".", strings.TrimSuffix(b, ".xml"), strings.ReplaceAll(b, ".", "\\."), " " + b, "tests/" + b, "^tests/"}))
		}
		if len(pats) > 0 && r.Intn(10) == 0 {
			pats[r.Intn(len(pats))] = pick(r, []string{"(", "[", "*x"})
		}
		if len(pats) > 0 {
			var kept []string
		files:
			for _, p := range run {
				for _, pat := range pats {
					re, err := regexp.Compile(pat)
					if err != nil {
						badPat = true
						break files
					}
					if re.MatchString(filepath.Base(p)) {
						kept = append(kept, p)
						break
					}
				}
			}
			run = kept
		}
		var opts []string
		for _, p := range pats {
			opts = append(opts, pick(r, [][]string{{"--include", p}, {"-i", p}, {"--include=" + p}})...)
		}
		quiet, failOnly, verbose, trace := r.Intn(5) == 0, r.Intn(4) == 0, r.Intn(4) == 0, r.Intn(5) == 0
		add := func(on bool, names ...string) {
			if on {
				opts = append(opts, pick(r, names))
			}
		}
		add(quiet, "-q", "--quiet")
		add(failOnly, "--fail-only")
		add(verbose, "-v", "--verbose")
		add(trace, "--trace")
		if r.Intn(2) == 0 {
			args = append(append(args, opts...), named...)
		} else {
			args = append(append(args, named...), opts...)
		}

		pre := snapshot(dir)
		o := c.run1(cliRun{args: args, dir: dir})
		desc := fmt.Sprintf("texted %q in a directory with %q", args, sortedKeys(files))
		fail := func(f string, a ...any) { c.Fail("test", "%s: %s: %s", desc, fmt.Sprintf(f, a...), o) }
		if d := diffSnap(pre, snapshot(dir), nil); d != "" {
			fail("files change: %s", d)
		}
		c.Eval(fmt.Sprint(desc, i))
		if o.crashed() {
			fail("it crashes")
			return
		}
		sum := testSummary.FindAllStringSubmatch(o.out, -1)
		if badPat {
			if o.code == 0 || len(sum) > 0 {
				fail("an invalid include pattern is not rejected")
			}
			c.Event("invalid patterns")
			return
		}
		if len(run) == 0 {
			if o.code != 0 || !strings.Contains(o.out, "No test files found") || len(sum) > 0 {
				fail("there is nothing to run")
			}
			c.Event("nothing to run")
			return
		}
		bad := 0
		var want []string
		for _, p := range run {
			t := files[p]
			st := "PASS"
			if t.why != "" {
				st = "FAIL"
				bad++
			}
			if !quiet && (st == "FAIL" || !failOnly) {
				want = append(want, st+" "+filepath.Base(p))
			}
		}
		if (o.code != 0) != (bad > 0) {
			fail("%d of %d tests fail", bad, len(run))
		}
		if len(sum) != 1 || sum[0][1] != fmt.Sprint(len(run)-bad) || sum[0][2] != fmt.Sprint(bad) || sum[0][3] != fmt.Sprint(len(run)) {
			fail("the summary is wrong, %d of %d tests fail", bad, len(run))
		}
		var got []string
		for _, m := range testLine.FindAllStringSubmatch(o.out, -1) {
			got = append(got, m[1]+" "+m[2])
		}
		if !reflect.DeepEqual(got, want) {
			fail("it lists %q, want %q", got, want)
		}
		for _, p := range run {
			t := files[p]
			if t.why == "the text differs" && !quiet && (!labelled(o.out, "Actual", t.actual) || !labelled(o.out, "Expected", *t.output)) {
				fail("the failure of %s does not show both texts: %s, leaves %s", p, t, q(t.actual))
			}
			c.Event("tests run")
			if t.why != "" {
				c.Event("tests failed")
			}
		}
		gotTraces := strings.Count(o.out, "TRACE: Executed instruction: ")
		var steps, gotSteps []string
		var insts []val
		for _, p := range run {
			if trace {
				steps = append(steps, files[p].steps...)
				insts = append(insts, files[p].insts...)
			}
		}
		for _, m := range traceLines.FindAllStringSubmatch(o.out, -1) {
			gotSteps = append(gotSteps, m[1]+": "+m[3]+" / "+m[4])
			if k := len(gotSteps) - 1; k < len(insts) {
				for _, a := range plainAtoms(insts[k]) {
					if !strings.Contains(m[2], a) {
						fail("the traced instruction (%s%s lacks %q", m[1], m[2], a)
					}
				}
			}
		}
		if gotTraces != len(steps) || !reflect.DeepEqual(gotSteps, steps) {
			fail("%d instructions are traced, %q, want %q", gotTraces, gotSteps, steps)
		}
		c.EventN("traced instructions", int64(gotTraces))
		if explicit {
			c.Event("explicit files")
		} else {
			c.Event("default files")
		}
		c.Sample("%s: %s", desc, o)
	})
}

func init() {
	Props["P35"] = &Prop{Run: runP35,
		Rule: "generated test cases (XML in many layouts, builtin and custom functions, exact or slightly wrong expectations), with the verdict computed by the reference model; every case is non-trivial, distinct by its XML",
		Floors: map[string]int64{"deserves to pass": 3000, "deserves to pass by failing": 500, "the text differs": 1000, "the result differs": 500,
			"it fails in another way": 200, "it fails unexpectedly": 300, "it does not fail": 300, "its script is malformed": 300, "it expects nothing": 100, "broken files": 300}}
	Props["P36"] = &Prop{Run: runP36,
		Rule:   "runs of texted test over generated test files and options, judged against the verdicts of the reference model; distinct by arguments and files",
		Floors: map[string]int64{"tests run": 800, "tests failed": 200, "explicit files": 200, "default files": 100, "invalid patterns": 5, "nothing to run": 20, "traced instructions": 100}}
}
