package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"slices"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/model"
	"github.com/mark3labs/mcp-go/mcp"
)

// evalCall is a call of the texted_eval tool and what has to come out.
type evalCall struct {
	args    map[string]any
	outcome []model.Outcome // nil: the script is malformed
	expr    bool
	refused bool // the arguments are not acceptable
}

// evalCall makes a call of texted_eval.
func (g *gen) evalCall() evalCall {
	g.plain = true
	s := &scen{r: g.r, g: g, fs: newSimFS(), format: pick(g.r, []string{"shell", "shell", "sexp", "json"})}
	text := strings.ToValidUTF8(s.content(), "?")
	x := evalCall{args: map[string]any{"input": text}}
	g.noBad = true
	if g.one(8) {
		s.malformed()
	} else {
		s.program(text, g.n(8), g.one(7))
		if g.one(3) {
			st := model.Eval(s.prog, model.NewState(text), nil).State
			g.noBad, g.jsonOK = s.format == "json", s.format == "json"
			s.prog = append(s.prog, g.call(pick(g.r, append(append([]string{}, strFns...), "point", "mark", "line-number-at-pos", "string-match", "looking-at", "region-end")), &st, 2))
		}
		if g.one(15) {
			s.prog = append(s.prog, pick(g.r, []val{model.Cmd("concat"), model.Cmd("length", model.S("日本")), model.Cmd("point-max")}))
		}
	}
	g.noBad, g.jsonOK = false, false
	script := s.bad
	if script == "" {
		script = rend{g.r}.script(s.prog, s.format)
		x.outcome = evalPolicies(s.prog, model.NewState(text))
	}
	if !autoOK(script, s.format) || !utf8.ValidString(script) {
		script = `insert "fallback "; point`
		s.prog = []val{model.Cmd("insert", model.S("fallback ")), model.Cmd("point")}
		x.outcome = evalPolicies(s.prog, model.NewState(text))
	}
	x.args["script"] = script
	switch g.n(8) {
	case 0, 1, 2:
		x.args["output"] = "expression"
		x.expr = true
	case 3, 4:
		x.args["output"] = "buffer"
	case 5:
		if g.one(3) {
			x.args["output"] = pick(g.r, []any{"Buffer", "expr", "", "EXPRESSION", "both", "buffer "})
			x.refused = true
		}
	case 6:
		if g.one(4) {
			delete(x.args, pick(g.r, []string{"input", "script"}))
			x.refused = true
		} else if g.one(4) {
			x.args[pick(g.r, []string{"input", "script"})] = pick(g.r, []any{nil, 1, true, []any{"point"}, map[string]any{}})
			x.refused = true
		}
	}
	return x
}

// judge says what is wrong with a result of texted_eval: "" if nothing.
func (x evalCall) judge(text string, isErr, overWire bool) string {
	if x.refused {
		if !isErr {
			return "unacceptable arguments are accepted"
		}
		return ""
	}
	if x.outcome == nil {
		if !isErr {
			return "a malformed script is accepted"
		}
		return ""
	}
	d := ""
	for _, o := range x.outcome {
		d = ""
		switch {
		case (o.Err != "") != isErr:
			d = fmt.Sprintf("error %v, want error %q", isErr, o.Err)
		case isErr:
		case x.expr:
			if overWire && !utf8.ValidString(o.Val.S) && o.Val.K == model.Sym {
				break
			}
			if !valueLine(text, "sexp", o.Val) {
				d = fmt.Sprintf("the value is reported as %s, want %v", q(text), o.Val)
			}
		case overWire && !utf8.ValidString(o.State.Text):
		case text != o.State.Text:
			d = fmt.Sprintf("the text is reported as %s, want %s", q(text), q(o.State.Text))
		}
		if d == "" {
			return ""
		}
	}
	return d
}

func (x evalCall) String() string {
	b, _ := json.Marshal(x.args)
	return clip(string(b), 1500)
}

func runP30(c *Ctx) {
	c.Each("eval", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		x := newGen(r).evalCall()
		if i%2500 == 9 { // more than a megabyte
			in := strings.Repeat(pick(r, []string{"x", "ab\n", "日本\n"}), 500000)
			prog := []val{model.Cmd("end-of-buffer"), model.Cmd("insert", model.S("END")), pick(r, []val{model.Cmd("buffer-size"), model.Cmd("buffer-substring", model.N(1), model.N(-1)), model.Cmd("point")})}
			x = evalCall{args: map[string]any{"input": in, "script": rend{r}.lines(prog, "mixed")}, outcome: evalPolicies(prog, model.NewState(in))}
			if r.Intn(2) == 0 {
				x.args["output"], x.expr = "expression", true
			}
			c.Event("texted_eval calls on more than a megabyte")
		}
		text, isErr, err := callTool(tools.TextedEvalHandler, x.args)
		c.Eval(x.String())
		c.Event("texted_eval calls")
		if isErr {
			c.Event("texted_eval calls that report an error")
		}
		if x.expr && !isErr {
			c.Event("texted_eval values compared")
		}
		if err != nil {
			c.Fail("protocol", "texted_eval %s: %v", x, err)
			return
		}
		if d := x.judge(text, isErr, false); d != "" {
			c.Fail("eval", "texted_eval %s: %s (got %s)", x, d, q(text))
			return
		}
		if isErr && text == "" {
			c.Fail("mute", "texted_eval %s: an error without a message", x)
		}
		// the library agrees
		in, _ := x.args["input"].(string)
		sc, _ := x.args["script"].(string)
		if !x.refused && !x.expr {
			out, err := texted.ExecuteScript(in, sc)
			if (err != nil) != isErr || err == nil && out != text {
				c.Fail("library", "texted_eval %s gives %s error %v, ExecuteScript gives %s error %v", x, q(text), isErr, q(out), err)
			}
		}
		if i < 2 {
			c.Sample("%s -> %s", x, q(text))
		}
	})
	// the buffer mode and the expression mode agree on failure
	c.Each("modes", c.scale(15000, 150000), func(r *rand.Rand, i int) {
		x := newGen(r).evalCall()
		if x.refused {
			return
		}
		x.args["output"] = "buffer"
		_, e1, err1 := callTool(tools.TextedEvalHandler, x.args)
		x.args["output"] = "expression"
		_, e2, err2 := callTool(tools.TextedEvalHandler, x.args)
		c.Eval("modes" + x.String())
		c.Event("modes compared")
		if e1 != e2 || err1 != nil || err2 != nil {
			c.Fail("modes", "texted_eval %s: error %v in buffer mode, %v in expression mode (%v %v)", x, e1, e2, err1, err2)
		}
	})
}

// editCall is a call of edit_file on the files of a scenario. It returns the
// arguments and a judge of the report; the scenario's files are updated.
func (s *scen) editCall(loop bool) (args map[string]any, judge func(text string, isErr bool, fail func(sig, format string, a ...any)), iterations int, ok bool) {
	s.inplace, s.suffix = true, ""
	s.script = s.bad
	if s.script == "" {
		s.script = rend{s.r}.script(s.prog, s.format)
	}
	if !autoOK(s.script, s.format) || !utf8.ValidString(s.script) {
		return nil, nil, 0, false
	}
	abs := make([]any, len(s.files))
	names := make([]string, len(s.files))
	for j, f := range s.files {
		if !utf8.ValidString(f) {
			return nil, nil, 0, false
		}
		names[j] = s.fs.base + "/" + f
		abs[j] = names[j]
	}
	args = map[string]any{"script": s.script, "files": abs}
	if loop {
		args["loopUntilError"] = true
	} else if s.g.one(4) {
		args["loopUntilError"] = false
	}
	var oks []bool
	for {
		iterations++
		if iterations > 2600 {
			return nil, nil, 0, false
		}
		oks = nil
		all := true
		for _, f := range s.files {
			k := s.inPlace(f)
			if t, readable := s.fs.read(f); readable && len(t) > 200_000 {
				return nil, nil, 0, false
			}
			oks = append(oks, k)
			all = all && k
		}
		if !loop || !all {
			break
		}
	}
	if s.vague {
		return nil, nil, 0, false
	}
	judge = func(text string, isErr bool, fail func(sig, format string, a ...any)) {
		c := &Ctx{}
		got := c.reportMarks(text, names, fail)
		if fmt.Sprint(got) != fmt.Sprint(oks) {
			fail("report", "reports %v, want %v: %q", got, oks, clip(text, 600))
		}
		head, _, _ := strings.Cut(text, "\n")
		if !strings.Contains(" "+head, fmt.Sprintf(" %d iteration", iterations)) {
			fail("iterations", "the report starts %q, want %d iterations", head, iterations)
		}
		bad := strings.Contains(strings.ToLower(head), "error")
		allOK := true
		for _, k := range oks {
			allOK = allOK && k
		}
		if bad == allOK {
			fail("header", "the report starts %q, and the outcomes are %v", head, oks)
		}
	}
	return args, judge, iterations, true
}

// loopProgram makes a program that fails in the end when it is repeated.
func (s *scen) loopProgram(t string) {
	g, r := s.g, s.r
	if s.format == "json" {
		g.noBad, g.jsonOK = true, true
		t = strings.ToValidUTF8(t, "?")
	}
	defer func() { g.noBad, g.jsonOK = false, false }()
	needle := pick(r, []string{"foo", "a", " ", "\n", "o", "ab", g.part(t), g.part(t)})
	repl := pick(r, []string{"", "X", "_", "*", "zz"})
	s.prog = nil
	switch g.n(6) {
	case 0:
		s.prog = []val{model.Cmd("search-forward", model.S(needle)), model.Cmd("replace-match", model.S(repl))}
	case 1:
		s.prog = []val{model.Cmd("re-search-forward", model.S(pick(r, []string{"[a-z]+", "\\w\\w", "o+", "[^X]", "\\s"}))), model.Cmd("replace-match", model.S(pick(r, []string{"", "X"})))}
	case 2:
		s.prog = []val{model.Cmd("end-of-buffer"), model.Cmd("search-backward", model.S(needle)), model.Cmd("replace-match", model.S(repl))}
	case 3:
		s.prog = []val{model.Cmd("search-forward", model.S(needle)), model.Cmd("delete-backward-char", model.N(float64(1+g.n(4)))), model.Cmd("insert", model.S(repl))}
	case 4:
		s.prog = []val{model.Cmd("search-forward", model.S("\n")), model.Cmd("delete-backward-char")}
	default:
		s.prog = []val{model.Cmd("delete-char", model.N(float64(1+g.n(9)))), model.Cmd("re-search-forward", model.S("."))}
	}
	if g.one(3) {
		s.prog = append(s.prog, pick(r, []val{model.Cmd("end-of-buffer"), model.Cmd("point"), model.Cmd("set-mark"), model.Cmd("upcase", model.S("x"))}))
	}
}

func runP31(c *Ctx) {
	edit := func(phase string, n int, loop bool, build func(s *scen)) {
		c.Each(phase, n, func(r *rand.Rand, i int) {
			s := newScen(r)
			build(s)
			s.fs.base = c.Dir()
			defer rmAll(s.fs.base)
			s.fs.make()
			before := snapshot(s.fs.base)
			desc := s.fs.describe()
			args, judge, iters, ok := s.editCall(loop)
			if !ok {
				return
			}
			fail := func(sig, format string, a ...any) {
				c.Fail(sig, "%s\n edit_file of %q loop %v with the %s script %s in %s", fmt.Sprintf(format, a...), s.files, loop, s.format, clip(fmt.Sprintf("%q", s.script), 800), desc)
			}
			var text string
			var isErr bool
			var err error
			withFileLimit(s.fs.limit, func() { text, isErr, err = callTool(tools.EditFileHandler, args) })
			after := snapshot(s.fs.base)
			c.Eval(fmt.Sprint(loop, s.files, s.script, desc))
			c.Event("edit_file calls")
			if loop {
				c.Event("edit_file calls that loop")
				c.EventN("iterations predicted", int64(iters))
				if iters > 2 {
					c.Event("loops of more than two iterations")
				}
			}
			if err != nil {
				fail("protocol", "%v", err)
				return
			}
			if d := s.fs.compare(before, after); d != "" {
				fail("files", "files: %s; report %q", d, clip(text, 500))
			}
			judge(text, isErr, fail)
			if strings.Contains(text, "✗") {
				c.Event("edit_file reports with failures")
			}
			if i < 2 {
				c.Sample("edit_file of %q loop %v script %q: %s", s.files, loop, clip(s.script, 200), q(text))
			}
		})
	}
	edit("once", c.scale(9000, 90000), false, func(s *scen) {
		s.addFiles(1 + s.g.n(4))
		if s.g.one(100) {
			s.addFiles(pick(s.r, []int{15, 30, 60, 99, 130}))
			c.Event("edit_file calls on many files")
			if s.g.one(2) { // most of them fail
				s.addFiles(1)
				s.prog = []val{model.Cmd("search-forward", model.S(strings.ToValidUTF8(s.g.part(s.first()), "é"))), model.Cmd("insert", model.S("!"))}
				return
			}
		}
		if s.g.one(3) {
			s.alias()
		}
		if s.g.one(2) {
			s.troubles()
		}
		s.bystanders()
		switch s.g.n(7) {
		case 0:
			s.malformed()
		case 1:
			s.once()
		default:
			s.program(s.first(), 1+s.g.n(6), s.g.one(5))
			if s.g.one(2) {
				s.edits()
			}
		}
	})
	edit("loop", c.scale(9000, 90000), true, func(s *scen) {
		s.addFiles(1 + s.g.n(3))
		if s.g.one(4) {
			s.alias()
		}
		if s.g.one(6) {
			s.troubles()
		}
		s.bystanders()
		switch s.g.n(12) {
		case 0:
			s.malformed()
		case 1:
			s.program(s.first(), 1+s.g.n(4), true)
		case 2:
			for _, n := range s.fs.nodes {
				if n.kind == "file" {
					n.text = clip0(n.text, 4000)
					s.fs.limit = max(s.fs.limit, len(n.text))
				}
			}
			s.fs.limit += 1 + s.g.n(60)
			s.prog = []val{model.Cmd("end-of-buffer"), model.Cmd("insert", model.S(pick(s.r, wordsA)))}
		default:
			s.loopProgram(s.first())
		}
	})
	edit("long", c.scale(80, 800), true, func(s *scen) {
		s.addFiles(1 + s.g.n(2))
		n := pick(s.r, []int{99, 100, 101, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1500, 2400})
		s.fs.nodes[s.files[0]].kind = "file"
		s.fs.nodes[s.files[0]].text = strings.Repeat("a", n) + pick(s.r, []string{"", "b", "\n"})
		for _, f := range s.files[1:] {
			s.fs.nodes[f].text = strings.Repeat("ba", n+s.g.n(3)-1)
		}
		s.prog = []val{model.Cmd("search-forward", model.S("a")), model.Cmd("replace-match", model.S(pick(s.r, []string{"", "x"})))}
		c.Event("long loops")
	})
	c.Each("arguments", c.scale(4000, 40000), func(r *rand.Rand, i int) {
		g := newGen(r)
		dir := c.Dir()
		defer rmAll(dir)
		text := g.text()
		p := writeFile(dir, "f", text)
		args := map[string]any{"script": `insert "changed"`, "files": []any{p}}
		switch g.n(4) {
		case 0:
			delete(args, "script")
		case 1:
			args["script"] = pick(r, []any{nil, 1, true, []any{"insert", "x"}, map[string]any{"a": 1}})
		case 2:
			delete(args, "files")
		default:
			args["files"] = pick(r, []any{nil, 1, p, true, []any{}, []any{1}, []any{p, 2}, []any{p, nil}, []any{[]any{p}}, map[string]any{"f": p}})
		}
		if g.one(3) {
			args["loopUntilError"] = true
		}
		out, isErr, err := callTool(tools.EditFileHandler, args)
		c.Eval(fmt.Sprint(args))
		c.Event("edit_file calls with unacceptable arguments")
		if err != nil || !isErr || out == "" {
			c.Fail("arguments", "edit_file %v: %s error %v (%v)", args, q(out), isErr, err)
		}
		c.wantFile(p, text, fmt.Sprintf("edit_file with unacceptable arguments %v", args))
	})
}

// session is a conversation with the server.
type session struct {
	lines []string
	// per line: what has to come back
	want []reply
}

type reply struct {
	id     any    // as decoded from JSON; nil: no reply is due
	kind   string // result, error, toolerror (error or result marked as one), any, loose (at most one reply, without id)
	method string
	judge  func(text string, isErr bool, fail func(sig, format string, a ...any))
	list   bool // the list of tools
	// the same call in the library, which has no effects
	tool string
	args any
}

// alone calls a tool's handler without a server, with arguments as decoded
// from JSON: the text, and whether it is an error; ok if there is one.
func alone(tool string, args any) (text string, isErr, ok bool) {
	b, err := json.Marshal(args)
	var m map[string]any
	if err != nil || json.Unmarshal(b, &m) != nil || m == nil {
		return "", false, false
	}
	h := map[string]func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error){"texted_eval": tools.TextedEvalHandler, "texted_doc": tools.TextedDocHandler, "edit_file": tools.EditFileHandler}[tool]
	text, isErr, err = callTool(h, m)
	b, _ = json.Marshal(text) // as it travels
	json.Unmarshal(b, &text)
	return text, isErr, err == nil
}

func (g *gen) id(n int) any {
	switch g.n(4) {
	case 0:
		return fmt.Sprintf("%s-%d", pick(g.r, []string{"id", "日本", "a b", "\"", "{}", "1"}), n)
	case 1:
		return float64(-n - 1)
	}
	return float64(n)
}

// session makes a conversation; files of s may be edited in it.
func (s *scen) session(prefix string, n int) *session {
	g, r := s.g, s.r
	ses := &session{}
	put := func(line string, w reply) {
		ses.lines = append(ses.lines, line)
		ses.want = append(ses.want, w)
	}
	msg := func(m map[string]any, w reply) {
		m["jsonrpc"] = "2.0"
		b, err := json.Marshal(m)
		must(err)
		line := string(b)
		if g.one(5) { // other ways to write the same message
			line = strings.ReplaceAll(line, `,"`, ` , "`)
			if strings.Contains(string(b), ` , "`) || !json.Valid([]byte(line)) {
				line = string(b)
			} else {
				var x, y any
				json.Unmarshal(b, &x)
				json.Unmarshal([]byte(line), &y)
				if fmt.Sprint(x) != fmt.Sprint(y) {
					line = string(b)
				}
			}
		}
		put(line, w)
	}
	call := func(name string, args any, w reply) {
		if w.tool != "" {
			w.args = args
		}
		m := map[string]any{"id": w.id, "method": "tools/call", "params": map[string]any{"name": name, "arguments": args}}
		msg(m, w)
	}
	if g.n(5) > 0 {
		id := g.id(10000)
		msg(map[string]any{"id": id, "method": "initialize", "params": map[string]any{"protocolVersion": "2024-11-05", "capabilities": map[string]any{}, "clientInfo": map[string]any{"name": "t", "version": "1"}}}, reply{id: id, kind: "result", method: "initialize"})
		if g.n(4) > 0 {
			msg(map[string]any{"method": "notifications/initialized"}, reply{})
		}
	}
	for i := 0; i < n; i++ {
		id := g.id(i)
		switch g.n(18) {
		case 0:
			msg(map[string]any{"id": id, "method": "ping"}, reply{id: id, kind: "result", method: "ping"})
		case 1:
			msg(map[string]any{"id": id, "method": "tools/list"}, reply{id: id, kind: "result", method: "tools/list", list: true})
		case 2: // an unknown tool
			name := pick(r, []string{"nope", "", "Edit_file", "texted_eval ", "edit-file", prefix + "x"})
			if prefix != "" {
				name = pick(r, []string{"edit_file", "texted_eval", "texted_doc", prefix, "edit_file" + prefix})
			}
			if slices.Contains([]string{prefix + "edit_file", prefix + "texted_eval", prefix + "texted_doc"}, name) {
				name = "nope"
			}
			args := map[string]any{"input": "a", "script": "point"}
			if len(s.files) > 0 {
				args["files"] = []any{s.fs.base + "/" + s.files[0]}
				args["script"] = `insert "x"`
			}
			call(name, args, reply{id: id, kind: "error", method: "call of the unknown tool " + name})
		case 3: // an unknown method
			m := pick(r, []string{"nope", "", "tools/nope", "tools/calls", "edit_file", "logging/setLevel"})
			msg(map[string]any{"id": id, "method": m, "params": map[string]any{}}, reply{id: id, kind: "error", method: m})
		case 4: // no message at all
			junk := pick(r, []string{"", " ", "{", "}", "nope", "[]", "null", "1", `"x"`, "{}", "{]", "\x00", "\xff\xfe", `{"jsonrpc":"2.0"`, `{"jsonrpc":"2.0","id":`, "tools/list", strings.Repeat("[", 5000), strings.Repeat("x", 70000)})
			if g.one(4) {
				junk = strings.NewReplacer("\n", "", "\r", "").Replace(g.junk())
				if strings.Contains(junk, "{") {
					junk = "x" + strings.ReplaceAll(junk, "{", "")
				}
			}
			put(junk, reply{kind: "loose"})
		case 5: // another protocol
			put(fmt.Sprintf(`{"jsonrpc":%s,"id":"bad-%d","method":"ping"}`, pick(r, []string{`"1.0"`, `"2.1"`, `""`, `null`}), i), reply{id: fmt.Sprintf("bad-%d", i), kind: "error", method: "wrong version"})
		case 6: // a notification
			msg(map[string]any{"method": pick(r, []string{"notifications/cancelled", "notifications/nope", "tools/list", "nope"}), "params": map[string]any{"requestId": 1}}, reply{})
		case 7: // unacceptable arguments
			tool := pick(r, []string{"edit_file", "texted_eval"})
			call(prefix+tool, pick(r, []any{map[string]any{}, map[string]any{"script": 1}, map[string]any{"input": "a"}, map[string]any{"files": []any{}, "script": "point"}, nil, []any{1}, "x"}), reply{id: id, kind: "toolerror", method: tool + " with unacceptable arguments", tool: tool})
		case 8: // documentation
			fn := pick(r, allFns)
			if g.one(8) { // no such function
				fn := g.longName()
				call(prefix+"texted_doc", map[string]any{"function_name": fn}, reply{id: id, kind: "toolerror", method: "texted_doc of the unknown function " + clip(fn, 80), tool: "texted_doc"})
				continue
			}
			if g.one(3) { // the other queries
				args := pick(r, []any{map[string]any{}, map[string]any{"verbose": true}, map[string]any{"verbose": false}, map[string]any{"category": "search"}, map[string]any{"category": "editing", "verbose": true}, map[string]any{"category": g.str()}, map[string]any{"function_name": g.unknown()}, map[string]any{"function_name": fn, "verbose": true}, map[string]any{"function_name": fn, "category": "region"}})
				call(prefix+"texted_doc", args, reply{id: id, kind: "any", method: "texted_doc", tool: "texted_doc"})
				continue
			}
			call(prefix+"texted_doc", map[string]any{"function_name": fn}, reply{id: id, kind: "result", method: "texted_doc", tool: "texted_doc", judge: func(text string, isErr bool, fail func(sig, format string, a ...any)) {
				if isErr || !strings.Contains(text, fn) {
					fail("doc", "documentation of %s: %s", fn, q(text))
				}
			}})
		case 9, 10, 11, 12: // an edit
			if len(s.files) == 0 {
				continue
			}
			k := 1 + g.n(len(s.files))
			e := &scen{r: r, g: g, fs: s.fs, format: pick(r, []string{"shell", "sexp", "json"})}
			for _, j := range r.Perm(len(s.files))[:k] {
				e.files = append(e.files, s.files[j])
			}
			if g.one(6) { // the same file again
				e.files = append(e.files, pick(r, e.files))
				r.Shuffle(len(e.files), func(i, j int) { e.files[i], e.files[j] = e.files[j], e.files[i] })
			}
			loop := g.one(5)
			switch {
			case loop:
				e.loopProgram(e.first())
			case g.one(10):
				e.malformed()
			default:
				e.program(e.first(), 1+g.n(4), g.one(8))
				e.edits()
			}
			// a dry run of the prediction on a copy, so that a refused one changes nothing
			trial := *e
			trial.fs = s.fs.clone()
			seed := r.Int63()
			trial.r = rand.New(rand.NewSource(seed))
			trial.g = newGen(trial.r)
			args, judge, _, ok := trial.editCall(loop)
			if !ok {
				continue
			}
			s.fs.nodes = trial.fs.nodes
			call(prefix+"edit_file", args, reply{id: id, kind: "result", method: "edit_file", judge: judge})
		default:
			x := g.evalCall()
			kind := "result"
			if x.refused {
				kind = "toolerror"
			}
			call(prefix+"texted_eval", x.args, reply{id: id, kind: kind, method: "texted_eval " + x.String(), tool: "texted_eval", judge: func(text string, isErr bool, fail func(sig, format string, a ...any)) {
				if d := x.judge(text, isErr, true); d != "" {
					fail("eval", "texted_eval %s: %s", x, d)
				}
			}})
		}
	}
	return ses
}

type response struct {
	JSONRPC string          `json:"jsonrpc"`
	ID      any             `json:"id"`
	Result  json.RawMessage `json:"result"`
	Error   *struct {
		Code    int    `json:"code"`
		Message string `json:"message"`
	} `json:"error"`
	Method string `json:"method"`
}

// judgeSession compares what the server said with what it had to say.
// toolParams are the parameters that the tools understand, and their types.
var toolParams = map[string]map[string]string{
	"edit_file":   {"script": "string", "files": "array", "loopUntilError": "boolean"},
	"texted_eval": {"input": "string", "script": "string", "output": "string"},
	"texted_doc":  {"function_name": "string", "category": "string", "verbose": "boolean"},
}

func (c *Ctx) judgeSession(ses *session, out, prefix string, fail func(sig, format string, a ...any)) {
	if out != "" && !strings.HasSuffix(out, "\n") {
		fail("stdout", "the last message is cut off: %s", q(out[max(0, len(out)-200):]))
	}
	got := map[string][]response{}
	loose := 0
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if l == "" && out == "" {
			continue
		}
		var x response
		if err := json.Unmarshal([]byte(l), &x); err != nil || x.JSONRPC != "2.0" {
			fail("stdout", "not a JSON-RPC message on stdout: %s", q(l))
			return
		}
		if x.Method != "" && x.ID == nil {
			continue // a notification by the server
		}
		if (x.Result != nil) == (x.Error != nil) {
			fail("stdout", "a message with both or neither of result and error: %s", q(l))
		}
		if x.ID == nil {
			loose++
			if x.Error == nil {
				fail("stdout", "a result for nothing: %s", q(l))
			}
			continue
		}
		k := fmt.Sprintf("%T %v", x.ID, x.ID)
		got[k] = append(got[k], x)
		c.Event("responses received")
	}
	maxLoose := 0
	for i, w := range ses.want {
		if w.kind == "loose" {
			maxLoose++
		}
		if w.id == nil {
			continue
		}
		k := fmt.Sprintf("%T %v", w.id, w.id)
		rs := got[k]
		delete(got, k)
		f := func(sig, format string, a ...any) {
			fail(sig, "message %d (%s): %s", i, clip(w.method, 1500), fmt.Sprintf(format, a...))
		}
		if len(rs) != 1 {
			f("replies", "%d replies with the id %v", len(rs), w.id)
			continue
		}
		x := rs[0]
		c.Event("replies judged: " + w.kind)
		lib, libErr, hasLib := "", false, false
		if w.tool != "" {
			lib, libErr, hasLib = alone(w.tool, w.args)
			if hasLib && x.Error != nil {
				f("library", "the error %q, the library gives %s (error %v)", x.Error.Message, q(lib), libErr)
				continue
			}
		}
		switch w.kind {
		case "error":
			if x.Error == nil {
				f("kind", "a result: %s", q(string(x.Result)))
			}
			continue
		case "toolerror":
			if x.Error != nil {
				continue
			}
		case "result":
			if x.Error != nil {
				f("kind", "the error %q", x.Error.Message)
				continue
			}
		}
		if w.list {
			var l struct {
				Tools []struct {
					Name        string `json:"name"`
					Description string `json:"description"`
					InputSchema struct {
						Type       string `json:"type"`
						Properties map[string]struct {
							Type string `json:"type"`
						} `json:"properties"`
						Required []string `json:"required"`
					} `json:"inputSchema"`
				} `json:"tools"`
			}
			if json.Unmarshal(x.Result, &l) != nil {
				f("list", "unreadable: %s", q(string(x.Result)))
				continue
			}
			var names []string
			for _, t := range l.Tools {
				names = append(names, t.Name)
				sort.Strings(t.InputSchema.Required)
				req := map[string]string{"edit_file": "[files script]", "texted_eval": "[input script]", "texted_doc": "[]"}[strings.TrimPrefix(t.Name, prefix)]
				if fmt.Sprint(t.InputSchema.Required) != req || t.InputSchema.Type != "object" || t.Description == "" {
					f("list", "tool %s requires %v, want %s (type %q)", t.Name, t.InputSchema.Required, req, t.InputSchema.Type)
				}
				for p, typ := range toolParams[strings.TrimPrefix(t.Name, prefix)] {
					if got := t.InputSchema.Properties[p].Type; got != typ {
						f("list", "tool %s takes %s of type %q, want %q", t.Name, p, got, typ)
					}
				}
			}
			sort.Strings(names)
			if want := fmt.Sprint([]string{prefix + "edit_file", prefix + "texted_doc", prefix + "texted_eval"}); fmt.Sprint(names) != want {
				f("list", "tools %v, want %s", names, want)
			}
			continue
		}
		if strings.HasPrefix(w.method, "ping") || w.method == "initialize" {
			continue
		}
		var t struct {
			Content []struct{ Type, Text string } `json:"content"`
			IsError bool                          `json:"isError"`
		}
		if json.Unmarshal(x.Result, &t) != nil || len(t.Content) != 1 || t.Content[0].Type != "text" {
			f("result", "not a tool result: %s", q(string(x.Result)))
			continue
		}
		if w.kind == "toolerror" && !t.IsError {
			f("kind", "no error: %s", q(t.Content[0].Text))
		}
		if hasLib {
			c.Event("replies compared with the library")
			if t.Content[0].Text != lib || t.IsError != libErr {
				f("library", "%s (error %v), the library gives %s (error %v)", q(t.Content[0].Text), t.IsError, q(lib), libErr)
			}
		}
		if w.judge != nil {
			w.judge(t.Content[0].Text, t.IsError, f)
		}
	}
	for k, rs := range got {
		fail("replies", "%d replies with the id %s, which no request has", len(rs), k)
	}
	if loose > maxLoose {
		fail("replies", "%d replies without an id to %d unreadable lines", loose, maxLoose)
	}
}

func runP32(c *Ctx) {
	setup := func(r *rand.Rand) (*scen, string) {
		s := newScen(r)
		s.fs.base = c.Dir()
		if s.g.n(4) > 0 {
			s.addFiles(1 + s.g.n(3))
			if s.g.one(4) {
				s.alias()
			}
		}
		prefix := ""
		if s.g.one(3) {
			prefix = pick(r, []string{"p_", "texted.", "x", "my-", "edit_", "日本", "A B ", "-", "-x", "--prefix", "_", "__", "a__", "p__x", "x__y__", "a..b", "a//", "a--b", "a  b", "  a", "\t", "A", "aA", "1", "0x", "mcp__texted__", "texted_", "eval", "edit_file", "%", "{}", "\"q\"", "\\", "a\nb", ".", "..", "$HOME", "*", "/", "%s", " ", "texted_doc", strings.Repeat("long_", 60)})
		}
		return s, prefix
	}
	args := func(r *rand.Rand, prefix string) []string {
		if prefix == "" && r.Intn(2) == 0 {
			return []string{"mcp"}
		}
		return pick(r, [][]string{{"mcp", "--prefix", prefix}, {"mcp", "--prefix=" + prefix}})
	}
	c.Each("session", c.scale(2500, 25000), func(r *rand.Rand, i int) {
		s, prefix := setup(r)
		defer rmAll(s.fs.base)
		s.fs.make()
		before := snapshot(s.fs.base)
		n := s.g.n(25)
		if s.g.one(40) {
			n = 200
		}
		ses := s.session(prefix, n)
		nl := pick(r, []string{"\n", "\n", "\r\n"})
		in := ""
		for _, l := range ses.lines {
			in += l + nl
		}
		a := args(r, prefix)
		fail := func(sig, format string, x ...any) {
			c.Fail(sig, "%s\n texted %q, session %s", fmt.Sprintf(format, x...), a, clip(strings.Join(ses.lines, "\n"), 2000))
		}
		o := c.run1(cliRun{args: a, stdin: in, dir: s.fs.base})
		c.Eval(prefix + in)
		c.Event("server sessions")
		if o.crashed() || o.code != 0 {
			fail("exit", "the server ends with %d at the end of its input: %s", o.code, q(o.err))
		}
		c.judgeSession(ses, o.out, prefix, fail)
		if d := s.fs.compare(before, snapshot(s.fs.base)); d != "" {
			fail("files", "files: %s", d)
		}
		if i < 2 {
			c.Sample("%q: %s", a, clip(in, 500))
		}
	})
	// Streams that do not work: nothing but protocol messages, even then.
	c.Each("streams", c.scale(60, 300), func(r *rand.Rand, i int) {
		s, prefix := setup(r)
		defer rmAll(s.fs.base)
		run := cliRun{args: args(r, prefix), dir: s.fs.base}
		how := ""
		if i%3 == 0 {
			how = "full stdout"
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			defer f.Close()
			run.stdout = f
			run.stdin = `{"jsonrpc":"2.0","id":1,"method":"ping"}` + "\n"
		} else {
			how = "unreadable stdin"
			run.in = c.unreadable(i % 3)
			defer run.in.Close()
		}
		o := c.run1(run)
		c.Eval(how + prefix)
		c.Event("sessions with broken streams")
		if o.crashed() || o.code == 0 || o.err == "" || o.out != "" {
			c.Fail("streams", "texted %q with %s: %s", run.args, how, o)
		}
	})
	// A client that waits for each answer before it goes on.
	broken := false
	c.Each("dialogue", c.scale(400, 4000), func(r *rand.Rand, i int) {
		if broken {
			return
		}
		s, prefix := setup(r)
		defer rmAll(s.fs.base)
		s.fs.make()
		before := snapshot(s.fs.base)
		ses := s.session(prefix, 1+s.g.n(20))
		a := args(r, prefix)
		fail := func(sig, format string, x ...any) {
			c.Fail(sig, "%s\n texted %q, dialogue %s", fmt.Sprintf(format, x...), a, clip(strings.Join(ses.lines, "\n"), 2000))
		}
		cmd := exec.Command(c.Bin, a...)
		cmd.Dir = s.fs.base
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		in, err := cmd.StdinPipe()
		must(err)
		so, err := cmd.StdoutPipe()
		must(err)
		must(cmd.Start())
		limitCPU(cmd.Process.Pid, 60)
		c.Event("texted processes run")
		lines := make(chan string)
		go func() {
			rd := bufio.NewReader(so)
			for {
				l, err := rd.ReadString('\n')
				if l != "" {
					lines <- l
				}
				if err != nil {
					close(lines)
					return
				}
			}
		}()
		var out strings.Builder
		late := ""
		for k, l := range ses.lines {
			// in pieces
			l += "\n"
			for l != "" && err == nil {
				p := 1 + r.Intn(len(l))
				_, err = io.WriteString(in, l[:p])
				l = l[p:]
			}
			if err != nil {
				break
			}
			if ses.want[k].id == nil {
				continue
			}
			wantID := fmt.Sprintf("%T %v", ses.want[k].id, ses.want[k].id)
			// The answer must come while the input stays open. The wait is
			// long, and what follows shows whether an answer was held back.
			for found := false; !found && late == ""; {
				select {
				case l, ok := <-lines:
					if !ok {
						late = "the server ended"
						break
					}
					out.WriteString(l)
					var x response
					json.Unmarshal([]byte(l), &x)
					found = fmt.Sprintf("%T %v", x.ID, x.ID) == wantID
				case <-time.After(40 * time.Second):
					late = "no answer"
				}
			}
			if late != "" {
				late += fmt.Sprintf(" after message %d while the client waits", k)
				break
			}
			c.Event("answers awaited")
		}
		in.Close()
		done := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		for l := range lines {
			out.WriteString(l)
		}
		werr := cmd.Wait()
		if !done.Stop() {
			fail("end", "the server does not end at the end of its input")
			broken = true
			return
		}
		c.Eval("dialogue" + prefix + strings.Join(ses.lines, "\n"))
		c.Event("dialogues")
		if late != "" {
			broken = true
			fail("late", "%s; everything it said in the end: %s", late, q(out.String()))
			return
		}
		if werr != nil {
			fail("exit", "the server ends with %v at the end of its input", werr)
		}
		c.judgeSession(ses, out.String(), prefix, fail)
		if d := s.fs.compare(before, snapshot(s.fs.base)); d != "" {
			fail("files", "files: %s", d)
		}
	})
}

var _ = mcp.NewTool
var _ context.Context

func init() {
	Props["P30"] = &Prop{Run: runP30, Rule: "a case is a call of the texted_eval handler with a text, a script in one of the three formats (good, failing or malformed) and an output mode; distinct by arguments. The monitor compares the result with the model's text or value, and with ExecuteScript.", Floors: map[string]int64{"texted_eval calls": 50000, "texted_eval calls that report an error": 5000, "texted_eval values compared": 8000, "modes compared": 10000}}
	Props["P31"] = &Prop{Run: runP31, Rule: "a case is a call of the edit_file handler on generated files (aliases, missing and unreadable ones included), once or until an error; distinct by files, script and mode. The monitor predicts every file's content, the outcome per file and the number of iterations with the model, and compares directory snapshots and the report.", Floors: map[string]int64{"edit_file calls": 10000, "edit_file calls that loop": 5000, "loops of more than two iterations": 1500, "edit_file reports with failures": 4000, "edit_file calls with unacceptable arguments": 3000}}
	Props["P32"] = &Prop{Run: runP32, Rule: "a case is a conversation with texted mcp over its standard streams: requests of all kinds, notifications, malformed messages and junk in any order, sent at once or awaiting each answer; distinct by conversation. The monitor checks that stdout carries only protocol messages, that every request gets exactly one reply with its id and the right content, that files change as predicted, and that the server ends cleanly.", Floors: map[string]int64{"server sessions": 2000, "responses received": 15000, "dialogues": 300, "answers awaited": 2500, "replies judged: result": 10000, "replies judged: error": 2500, "replies judged: toolerror": 800}}
}
