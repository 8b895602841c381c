package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/model"
	"github.com/mark3labs/mcp-go/mcp"
)

// junk makes a string of no particular meaning.
func (g *gen) junk() string {
	switch g.n(7) {
	case 0:
		b := make([]byte, g.n(60))
		g.r.Read(b)
		return string(b)
	case 1:
		s := ""
		for k := g.n(12); k > 0; k-- {
			s += pick(g.r, mutChars)
		}
		return s
	case 2:
		return pick(g.r, lineBad)
	case 3:
		return pick(g.r, jsonBad)
	case 4:
		s := ""
		for k := g.n(10); k > 0; k-- {
			s += pick(g.r, allFns) + pick(g.r, []string{" ", "\n", "; ", "(", ")", " \"", "\" "})
		}
		return s
	case 5:
		return rend{g.r}.lines(g.astProgram(), "mixed")
	}
	return g.mutate(rend{g.r}.lines(g.astProgram(), "mixed"))
}

// outcome checks that a script either yields a result or an error.
func (c *Ctx) outcome(what, script, out string, err error) {
	c.Event("outcomes observed")
	if err != nil {
		c.Event("outcomes that are errors")
		if out != "" {
			c.Fail("both", "%s of %s gives both the result %s and the error %v", what, clip(fmt.Sprintf("%q", script), 500), q(out), err)
		}
		switch msg := err.Error(); {
		case msg == "":
			c.Fail("mute", "%s of %s fails without a message", what, clip(fmt.Sprintf("%q", script), 500))
		case strings.Contains(msg, "(PANIC="): // package fmt recovers
			c.Fail("panic", "%s of %s fails, and panics when asked for the message: %s", what, clip(fmt.Sprintf("%q", script), 500), clip(msg, 500))
		}
	}
}

func runP11(c *Ctx) {
	c.Each("scripts", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		var script string
		switch g.n(3) {
		case 0:
			script = g.junk()
		case 1:
			script = rend{r}.lines(g.program(model.NewState(text), 1+g.n(8), nil, true), "mixed")
		default:
			g.noBad, g.jsonOK = true, true
			script = rend{r}.json(g.astProgram())
			if g.one(2) {
				script = g.mutate(script)
			}
		}
		if len(script) > 20000 {
			script = script[:20000]
		}
		c.Eval(text + script)
		out, err := texted.ExecuteScript(text, script)
		c.outcome("ExecuteScript", script, out, err)
		f := pick(r, []string{"shell", "sexp", "json", "", "SHELL", "xml", "\x00"})
		out, err = texted.ExecuteScriptWithFormat(text, script, f)
		c.outcome("ExecuteScriptWithFormat "+f, script, out, err)
		if !texted.IsValidFormat(f) && err == nil {
			c.Fail("format", "format %q is accepted", f)
		}
		prog, err := parser.ParseReader(&chunks{script, r})
		if err == nil {
			for _, wf := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON} {
				w, _ := writer.NewWriter(wf)
				var b strings.Builder
				w.Write(&b, prog)
				c.Event("programs written")
			}
		}
		if i < 2 {
			c.Sample("script %q on text %s", clip(script, 200), q(text))
		}
	})
	// Extreme counts and positions, on texts of all sizes.
	huge := []float64{-1e300, -1e19, -9.3e18, -4e9, -2147483649, -1e6, -2, -1, 0, 1, 2, 1e6, 2147483647, 2147483648, 4e9, 9.2e18, 9223372036854775807, 1e19, 1e300, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 0.1}
	var numFn []string
	for _, fn := range allFns {
		for _, k := range model.Sigs[fn].Kinds {
			if k == model.Num {
				numFn = append(numFn, fn)
				break
			}
		}
	}
	texts := []string{"", "a", "\n", "foo bar\nbaz", strings.Repeat("foo bar\n", 20000), strings.Repeat("x", 150000), strings.Repeat("\n", 100000), strings.Repeat("é ", 40000), strings.Repeat(" ", 100000)}
	env := edlisp.NewDefaultEnvironment()
	c.Each("huge", len(numFn)*len(texts), func(r *rand.Rand, i int) {
		fn, text := numFn[i/len(texts)], texts[i%len(texts)]
		for _, n := range huge {
			st := model.NewState(text)
			call := newGen(r).call(fn, &st, 0)
			call.L = call.L[:1]
			for _, k := range model.Sigs[fn].Kinds {
				if k == model.Num {
					call.L = append(call.L, model.N(n))
				} else {
					call.L = append(call.L, model.S("foo"))
				}
			}
			for _, p := range []int{1, len(text)/2 + 1, len(text) + 1} {
				b := buffer(text, p, len(text)/3+1)
				c.Eval(fmt.Sprint(fn, n, p, i))
				c.Event("calls with extreme numbers")
				if _, err := edlisp.Eval([]edlisp.Value{toReal(call)}, env, b); err != nil && err.Error() == "" {
					c.Fail("mute", "%s fails without a message", model.Sexp(call))
				}
			}
		}
	})
	// Patterns that make naive matchers explode.
	c.Each("patterns", c.scale(60, 240), func(r *rand.Rand, i int) {
		pats := []string{"(a*)*b", "(a|a)*b", "(a|aa)+$", "a{0,500}b", "(.*)(.*)(.*)(.*)x", "((((a*)*)*)*)*", "(?:x*)*", "", "^", "$", "(?m)^", "\\b", ".*?", "(\\w+\\s?)*$", "[^\\n]*\\n?", "(a?){50}a{50}"}
		text := strings.Repeat(pick(r, []string{"a", "ab ", "a\n", "é", "aaaa "}), 400+r.Intn(4000))
		b := buffer(text, len(text)/2, 1)
		for _, fn := range []string{"re-search-forward", "re-search-backward", "looking-at", "looking-back", "string-match", "replace-regexp-in-string"} {
			call := model.Cmd(fn, model.S(pats[i%len(pats)]))
			if fn == "string-match" {
				call.L = append(call.L, model.S(text))
			} else if fn == "replace-regexp-in-string" {
				call.L = append(call.L, model.S("$0"), model.S(text))
			}
			c.Eval(fmt.Sprint("patterns", i, fn))
			c.Event("hostile patterns")
			edlisp.Eval([]edlisp.Value{toReal(call)}, env, b)
			b.SetPoint(len(text) / 2)
		}
	})
	// Depth and size.
	c.Each("deep", 40, func(r *rand.Rand, i int) {
		f := []string{"", "shell", "sexp", "json"}[i/10]
		i %= 10
		depth := 100000
		if c.thorough() {
			depth = 1000000
		}
		open, shut, mid := "(concat ", ")", `"x"`
		switch i {
		case 1:
			open = "(concat \"a\" " // the result is built in quadratic time
			depth /= 5
		case 2:
			open, mid = "(", ""
		case 3:
			open, shut, mid = "(concat ", "", "" // unbalanced
		case 4:
			open, shut, mid = "", ")", ""
		case 5, 6:
			open, shut, mid = `["concat",`, "]", `"x"`
		case 7:
			open, shut, mid = "[", "", ""
		case 8:
			open, shut, mid = `(concat (concat "a") `, ")", `(point)`
		case 9:
			open, shut, mid = `{"a":`, "}", `1`
		}
		if i == 2 || i == 8 {
			parser.ParseScript(strings.Repeat(open, depth) + mid + strings.Repeat(shut, depth))
			depth = 2000 // printing the failing instruction takes quadratic time
		}
		s := strings.Repeat(open, depth) + mid + strings.Repeat(shut, depth)
		if i == 6 {
			s = `["insert",` + strings.Repeat(open, 2000) + mid + strings.Repeat(shut, 2000) + "]"
		}
		var out string
		var err error
		if f == "" {
			out, err = texted.ExecuteScript("text", s)
		} else {
			out, err = texted.ExecuteScriptWithFormat("text", s, f)
		}
		c.outcome("execution", s, out, err)
		c.Eval(fmt.Sprint("deep", i, f))
		c.Event("deeply nested scripts")
		// (the S-expression writer takes time quadratic in the depth)
		s = strings.Repeat(open, 3000) + mid + strings.Repeat(shut, 3000)
		if prog, err := parser.ParseString(s); err == nil {
			for _, wf := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON} {
				w, _ := writer.NewWriter(wf)
				var b strings.Builder
				w.Write(&b, prog)
			}
			edlisp.Equal(edlisp.NewList(prog...), edlisp.NewList(prog...))
		}
	})
	// Scripts and texts that are one very long line, or very many short ones.
	units := []string{`"a" `, `;`, `; `, `\\`, `\"`, `"`, `( `, `) `, `()`, ` `, "\t", "\r", "a", "1 ", `-`, `"\\\""`, `point; `, "\n", "#\n", "point\n", "é", "\xff", `"\u00e9"`, `[`, `["point"]`, `["point"] `, `{"a":1}`, `1,`, `"a",`, "0", "e", "'", "(point)", "(point) "}
	c.Each("long", 2*len(units), func(r *rand.Rand, i int) {
		u := units[i/2]
		n := 800000
		if len(u) > 3 {
			n = 300000
		}
		if c.thorough() {
			n *= 3
		}
		s := strings.Repeat(u, n)
		if i%2 == 1 {
			s = pick(r, []string{"concat ", `(concat `, `["concat",`, `"`, "insert "}) + s + pick(r, []string{"", ")", "]", `"`, `""]`})
		}
		for _, f := range []string{"", "shell", "sexp", "json"} {
			out, err := "", error(nil)
			if f == "" {
				out, err = texted.ExecuteScript("text", s)
			} else {
				out, err = texted.ExecuteScriptWithFormat("text", s, f)
			}
			c.outcome("execution", s, out, err)
			c.Event("very long lines")
		}
		c.Eval(fmt.Sprint("long", i))
		b := buffer(s, len(s)/2, 1)
		for _, fn := range allFns {
			if len(model.Sigs[fn].Kinds) == 0 {
				edlisp.Eval([]edlisp.Value{toReal(model.Cmd(fn))}, env, b)
			}
		}
	})
	// Every function on large texts.
	bulk := []string{strings.Repeat("foo bar\n", 125000), strings.Repeat("x", 1000000), strings.Repeat("\n", 1000000), strings.Repeat("é ", 300000), strings.Repeat(" ", 1000000), strings.Repeat("1", 1000000), strings.Repeat("\x80", 700000)}
	var argFn []string
	for _, fn := range allFns {
		if len(model.Sigs[fn].Kinds) > 0 {
			argFn = append(argFn, fn)
		}
	}
	c.Each("bulk", len(argFn)*len(bulk), func(r *rand.Rand, i int) {
		fn, text := argFn[i/len(bulk)], bulk[i%len(bulk)]
		for k := 0; k < 5; k++ {
			call := model.Cmd(fn)
			s := []string{"zq", text[:2], "[0-9]+q", "q[", "x+é?$"}[k]
			kinds := model.Sigs[fn].Kinds
			for j, kind := range kinds {
				switch {
				case kind == model.Num:
					call.L = append(call.L, model.N([]float64{1, 3, -1, 1e6, 500000}[(k+j)%5]))
				case j > 0 && j == len(kinds)-1 || fn == "upcase" || fn == "downcase" || fn == "capitalize" || fn == "length" || fn == "substring" || fn == "insert":
					call.L = append(call.L, model.S(text))
				default:
					call.L = append(call.L, model.S(s))
				}
			}
			for _, p := range []int{1, len(text)/2 + 1, len(text) + 1} {
				b := buffer(text, p, len(text)/3+1)
				c.Eval(fmt.Sprint("bulk", fn, k, p, i))
				c.Event("calls on large texts")
				edlisp.Eval([]edlisp.Value{toReal(call)}, env, b)
			}
		}
	})
	// Any arguments for the server's tools.
	handlers := []func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error){tools.TextedEvalHandler, tools.TextedDocHandler, tools.EditFileHandler}
	c.Each("tools", c.scale(20000, 200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		dir := ""
		h := g.n(3)
		if h == 2 {
			dir = c.Dir()
			defer rmAll(dir)
			writeFile(dir, "f", g.text())
		}
		var anyVal func(d int) any
		anyVal = func(d int) any {
			switch g.n(9) {
			case 0:
				return nil
			case 1:
				return g.one(2)
			case 2:
				return g.num(10)
			case 3:
				return g.junk()
			case 4:
				if d > 0 {
					return []any{anyVal(d - 1), anyVal(d - 1)}
				}
				return []any{}
			case 5:
				if d > 0 {
					return map[string]any{"script": anyVal(d - 1), g.str(): anyVal(d - 1)}
				}
				return map[string]any{}
			case 6:
				return g.n(100)
			}
			return g.str()
		}
		// nothing but files in the scratch directory may be named
		files := func() any {
			switch g.n(6) {
			case 0:
				return []any{filepath.Join(dir, "f")}
			case 1:
				return []any{filepath.Join(dir, "missing"), filepath.Join(dir, "f"), dir}
			case 2:
				return []any{}
			case 3:
				return []any{1, nil}
			case 4:
				return []string{filepath.Join(dir, "f"), filepath.Join(dir, "f", "x"), filepath.Join(dir, strings.Repeat("n", 300))}
			}
			return pick(r, []any{nil, 1.0, true, map[string]any{}, ""})
		}
		var args any = map[string]any{}
		m := map[string]any{}
		for _, k := range []string{"input", "script", "output", "function_name", "category", "verbose"} {
			switch g.n(4) {
			case 0:
			case 1:
				m[k] = anyVal(2)
			default:
				m[k] = pick(r, []string{g.str(), g.junk(), "buffer", "expression", pick(r, allFns), "search"})
			}
		}
		if h == 2 {
			m["files"] = files()
			if g.one(4) {
				delete(m, "files")
			}
			if g.one(4) {
				m["loopUntilError"] = pick(r, []any{false, "x", nil, 0})
			}
		}
		args = m
		if g.one(20) && h != 2 {
			args = anyVal(2)
		}
		var req mcp.CallToolRequest
		req.Params.Name = "x"
		req.Params.Arguments = args
		res, err := handlers[h](context.Background(), req)
		c.Eval(fmt.Sprint(h, args))
		c.Event("tool calls with arbitrary arguments")
		if (res == nil) == (err == nil) {
			c.Fail("both", "tool %d with %v gives the result %v and the error %v", h, args, res, err)
		}
	})
	// Any command line.
	flagWords := []string{"-s", "--script", "-f", "--file", "-e", "--expression", "-i", "--in-place", "-o", "--output", "--backup", "--backup=.b", "--format", "--format=json", "--shell", "--sexp", "--json", "-v", "-q", "-n", "--dry-run", "--output-format", "--output-format=json", "--", "-", "--input-format", "--input-format=json", "--category", "--category=search", "--verbose", "--quiet", "--fail-only", "--trace", "--include", "--include=a", "-h", "--help", "--unknown", "-x", "-vq", "-is", "--script=", "--prefix", "--prefix=p"}
	c.Each("command", c.scale(4000, 40000), func(r *rand.Rand, i int) {
		g := newGen(r)
		dir := c.Dir()
		defer rmAll(dir)
		for _, n := range []string{"f1", "f2.txt", "script"} {
			p := writeFile(dir, n, g.text())
			must(os.Chmod(p, 0o666))
		}
		must(os.WriteFile(filepath.Join(dir, "t.xml"), []byte(pick(r, []string{"<buffer>a</buffer><input>insert \"x\"</input><output>xa</output>", "<buffer>", "", "<input>(((</input>", "<a><b/></a>", "<buffer>a</buffer><input>goto-char 999999999999999999999</input><result>1</result>", g.junk()})), 0o666))
		args := []string{pick(r, []string{"edit", "edit", "edit", "parse", "test", "doc", "mcp", "help", "completion", "", "edt"})}
		for k := g.n(8); k > 0; k-- {
			switch g.n(5) {
			case 0, 1:
				args = append(args, pick(r, flagWords))
			case 2:
				args = append(args, pick(r, []string{"f1", "f2.txt", "missing", ".", "script", "t.xml", "f1/x", strings.Repeat("n", 300)}))
			case 3:
				args = append(args, pick(r, []string{"shell", "sexp", "json", "xml", "search-forward", "search", "a", "[", "point", "insert \"x\"", "(point)", `["point"]`, "bash"}))
			default:
				if s := g.junk(); argOK(s) && !strings.Contains(s, "/") {
					args = append(args, s)
				}
			}
		}
		stdin := g.text()
		if args[0] == "mcp" && g.one(2) {
			stdin = pick(r, []string{"{}\n", "[]\n", "null\n", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"tools/list\"}\n", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"tools/call\",\"params\":{\"name\":\"texted_doc\"}}\n", "\n\n", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"tools/call\",\"params\":{\"name\":\"texted_eval\",\"arguments\":[1]}}\n"})
		}
		o := c.run1(cliRun{args: args, stdin: stdin, dir: dir, nobody: true, close: g.one(10)})
		c.Eval(fmt.Sprint(args, len(stdin)))
		c.Event("arbitrary command lines")
		if o.crashed() {
			c.Fail("crash", "texted %q with stdin %s: %s", args, q(stdin), o)
		}
		if o.code == 0 {
			c.Event("arbitrary command lines accepted")
		}
		if i < 2 {
			c.Sample("texted %q: %s", args, o)
		}
	})
}

func init() {
	Props["P11"] = &Prop{Run: runP11, Rule: "a case is a script (random, mutated, malformed, deeply nested, with extreme numbers or hostile patterns), a tool call with arbitrary arguments, or an arbitrary command line; distinct by input. The monitors are: panic and crash detection, processor time and memory limits per case, and the check that exactly one of result and error is given.", Floors: map[string]int64{"outcomes observed": 50000, "calls with extreme numbers": 3000, "calls on large texts": 1000, "hostile patterns": 200, "deeply nested scripts": 30, "tool calls with arbitrary arguments": 10000, "arbitrary command lines": 2000}}
}
