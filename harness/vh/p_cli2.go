package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/model"
	"github.com/mark3labs/mcp-go/mcp"
)

// withFileLimit runs f while no file can grow beyond n bytes.
func withFileLimit(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	f()
}

// autoOK: the script means the same when its format is not named.
func autoOK(script, format string) bool {
	t := strings.TrimSpace(script)
	return (format == "json") == strings.HasPrefix(t, "[") || t == ""
}

// callTool calls a tool of the server in this process; arguments travel as JSON.
func callTool(h func(context.Context, mcp.CallToolRequest) (*mcp.CallToolResult, error), args map[string]any) (text string, isErr bool, err error) {
	b, err := json.Marshal(args)
	must(err)
	var req mcp.CallToolRequest
	var m map[string]any
	must(json.Unmarshal(b, &m))
	req.Params.Arguments = m
	res, err := h(context.Background(), req)
	if err != nil || res == nil {
		return "", true, fmt.Errorf("result %v error %v", res, err)
	}
	text, err = contentText(res)
	return text, res.IsError, err
}

func contentText(res *mcp.CallToolResult) (string, error) {
	if len(res.Content) != 1 {
		return "", fmt.Errorf("%d content items", len(res.Content))
	}
	t, ok := res.Content[0].(mcp.TextContent)
	if !ok {
		return "", fmt.Errorf("content of type %T", res.Content[0])
	}
	return t.Text, nil
}

// library edits files through the library or the server's tool.
func (c *Ctx) library(phase string, n int, b func(s *scen, i int)) {
	c.Each(phase, n, func(r *rand.Rand, i int) {
		s := newScen(r)
		s.inplace = true
		b(s, i)
		g := s.g
		s.fs.base = c.Dir()
		defer rmAll(s.fs.base)
		s.suffix = ""
		s.script = s.bad
		if s.script == "" {
			s.script = rend{r}.script(s.prog, s.format)
		}
		auto := autoOK(s.script, s.format)
		api := g.n(5)
		if !auto && api != 1 && api != 3 {
			api = 3
		}
		if api == 4 && !utf8.ValidString(s.script) {
			api = 3
		}
		for _, f := range s.files {
			if api == 4 && !utf8.ValidString(f) {
				api = 3
			}
		}
		if api < 2 {
			s.files = s.files[:1]
		}
		s.fs.make()
		before := snapshot(s.fs.base)
		desc := s.fs.describe()
		var oks []bool
		for _, f := range s.files {
			oks = append(oks, s.inPlace(f))
		}
		if s.vague {
			return
		}
		abs := make([]string, len(s.files))
		for j, f := range s.files {
			abs[j] = s.fs.base + "/" + f
		}
		var got []bool
		name := []string{"EditFile", "EditFileWithFormat", "EditFiles", "EditFilesWithFormat", "edit_file"}[api]
		fail := func(sig, format string, a ...any) {
			c.Fail(sig, "%s\n %s of %q with the %s script %s in %s", fmt.Sprintf(format, a...), name, s.files, s.format, clip(fmt.Sprintf("%q", s.script), 800), desc)
		}
		many := func(rs []texted.EditResult, err error) {
			if err != nil {
				fail("error", "error %v", err)
			}
			for j, x := range rs {
				got = append(got, x.Success)
				if x.Success != (x.Error == nil) {
					fail("result", "result %d has success %v and error %v", j, x.Success, x.Error)
				}
				if x.Error != nil && j < len(oks) && !oks[j] && !strings.Contains(x.Error.Error(), s.causes[j]) {
					fail("cause", "result %d has the error %q, want %q", j, x.Error, s.causes[j])
				}
				if j < len(abs) && x.Filename != abs[j] {
					fail("result", "result %d is for %q, want %q", j, x.Filename, abs[j])
				}
			}
		}
		one := func(err error) []bool {
			if err != nil && !oks[0] && !strings.Contains(err.Error(), s.causes[0]) {
				fail("cause", "the error is %q, want %q", err, s.causes[0])
			}
			return []bool{err == nil}
		}
		withFileLimit(s.fs.limit, func() {
			switch api {
			case 0:
				got = one(texted.EditFile(abs[0], s.script))
			case 1:
				got = one(texted.EditFileWithFormat(abs[0], s.script, s.format))
			case 2:
				many(texted.EditFiles(abs, s.script))
			case 3:
				many(texted.EditFilesWithFormat(abs, s.script, s.format))
			default:
				text, _, err := callTool(tools.EditFileHandler, map[string]any{"script": s.script, "files": abs})
				if err != nil {
					fail("tool", "%v", err)
				}
				got = c.reportMarks(text, abs, fail)
				for _, cause := range s.causes {
					if !strings.Contains(text, strings.ToValidUTF8(cause, "\ufffd")) && !strings.Contains(text, cause) {
						fail("cause", "the report %s lacks the cause %q", q(text), cause)
					}
				}
			}
		})
		after := snapshot(s.fs.base)
		c.Eval(fmt.Sprint(api, s.files, s.script, desc))
		c.Event("library edits")
		if d := s.fs.compare(before, after); d != "" {
			fail("files", "files: %s", d)
		}
		if fmt.Sprint(got) != fmt.Sprint(oks) {
			fail("report", "reported %v, want %v", got, oks)
		}
		for _, ok := range oks {
			if !ok {
				c.Event("library edits that failed")
			}
		}
	})
}

// reportMarks reads the report of the edit_file tool: which files it says were
// edited, in the order of files.
func (c *Ctx) reportMarks(text string, files []string, fail func(sig, format string, a ...any)) []bool {
	said := map[string][]bool{}
	n := 0
	for _, l := range strings.Split(text, "\n") {
		ok := strings.HasPrefix(l, "✓ ")
		if !ok && !strings.HasPrefix(l, "✗ ") {
			continue
		}
		n++
		found := ""
		for _, f := range files { // the longest name that fits
			if (strings.HasSuffix(l, " "+f) || strings.Contains(l, " "+f+":")) && len(f) > len(found) {
				found = f
			}
		}
		if found == "" {
			fail("report", "report line %q is about no file", l)
		}
		said[found] = append(said[found], ok)
	}
	if n != len(files) {
		fail("report", "%d report lines for %d files: %q", n, len(files), text)
	}
	var got []bool
	for _, f := range files {
		if q := said[f]; len(q) > 0 {
			got = append(got, q[0])
			said[f] = q[1:]
		}
	}
	return got
}

func libraryBytes(c *Ctx) {
	c.library("library", c.scale(2500, 25000), func(s *scen, i int) {
		s.addFiles(1 + s.g.n(2))
		if i%150 == 0 {
			t := s.g.text() + pick(s.r, []string{"x\n", "x"})
			n := pick(s.r, []int{1<<18 + s.g.n(1<<20), 1 << 20, 1<<20 + 1 + s.g.n(2<<20)})
			s.fs.nodes[s.files[0]].text = clip0(strings.Repeat(t, 1+(3<<20)/len(t)), n)
			c.Event("large contents")
		}
		if i%3 == 0 {
			s.prog = []val{model.Cmd("point")}
		} else {
			s.program(s.first(), 1+s.g.n(5), false)
		}
	})
}

func libraryFailures(c *Ctx) {
	c.library("library", c.scale(2500, 25000), func(s *scen, i int) {
		s.addFiles(1 + s.g.n(3))
		large := i%50 == 0
		if large {
			s.bulk()
			c.Event("library edits of large files")
		}
		switch s.g.n(4) {
		case 0:
			s.malformed()
		case 1, 2:
			s.program(s.first(), 1+s.g.n(6), true)
		default:
			for _, n := range s.fs.nodes {
				if n.kind == "file" {
					if n.text = clip0(n.text, 4000); large {
						n.text = strings.Repeat(n.text+"\n", 1+(1<<20)/(len(n.text)+1))
					}
					s.fs.limit = max(s.fs.limit, len(n.text))
				}
			}
			s.fs.limit += 1 + s.g.n(6)
			s.prog = []val{model.Cmd(pick(s.r, []string{"beginning-of-buffer", "end-of-buffer", "end-of-line"})), model.Cmd("insert", model.S(strings.Repeat(pick(s.r, wordsA), 1+s.g.n(min(100000, s.fs.limit)+3))))}
			c.Event("files too large to be written")
		}
	})
}

func libraryMany(c *Ctx) {
	c.library("library", c.scale(3000, 30000), func(s *scen, i int) {
		n := 1 + s.g.n(5)
		if i%100 == 0 {
			n = pick(s.r, []int{20, 33, 64, 65, 70, 129, 257, 300})
			c.Event("edits of many files")
		}
		s.addFiles(n)
		if i%100 == 1 {
			s.bulk()
			c.Event("library edits of large files")
		}
		if s.g.one(3) {
			s.alias()
		}
		if s.g.n(3) > 0 {
			s.troubles()
		}
		if s.g.one(6) {
			f := pick(s.r, s.files)
			s.files = append(s.files, f)
		}
		s.program(pick(s.r, []string{s.first(), "foo bar\nbaz foo\n"}), 1+s.g.n(5), s.g.one(10))
		if s.g.one(2) {
			s.edits()
		}
		if s.g.one(6) {
			s.once()
			c.Event("library edits of files mentioned again")
		}
	})
}

func libraryIdentity(c *Ctx) {
	c.library("library", c.scale(2500, 25000), func(s *scen, i int) {
		s.addFiles(1 + s.g.n(3))
		s.alias()
		s.alias()
		s.bystanders()
		if i%100 == 0 {
			s.bulk()
			c.Event("library edits of large files")
		}
		for _, nm := range sortedKeys(s.fs.nodes) {
			if n := s.fs.nodes[nm]; n.kind == "file" {
				n.mode = pick(s.r, []os.FileMode{0o644, 0o600, 0o755, 0o777, 0o640, 0o664, 0o700, 0o604, 0o444, 0o400, 0o555, 0o000, 0o200})
				if keepsSetuid() && s.g.one(6) {
					n.mode |= pick(s.r, []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky})
				}
			}
		}
		s.program(s.first(), 1+s.g.n(4), s.g.one(8))
		s.edits()
	})
}

// exprRun is a run of texted edit -e.
type exprRun struct {
	s     *scen
	exprs [][]val
	srcs  []string
	outf  string
}

// expressionRun runs texted edit -e on some files and judges what it prints.
func (c *Ctx) expressionRun(s *scen, wild bool) {
	g, r := s.g, s.r
	s.fs.base = c.Dir()
	defer rmAll(s.fs.base)
	x := exprRun{s: s, outf: pick(r, []string{"shell", "shell", "sexp", "json"})}
	text := s.stdin
	if len(s.files) > 0 {
		text, _ = s.fs.read(s.files[0])
	}
	if s.format == "json" {
		g.noBad, g.jsonOK = true, true
	}
	st := model.NewState(clip0(text, 20000))
	if g.noBad && !utf8.ValidString(st.Text) {
		st.Text = strings.ToValidUTF8(st.Text, "?")
	}
	if len(s.files) > 1 && g.one(5) { // the same file again, its heading too
		k := g.n(len(s.files))
		s.files = append(s.files[:k+1:k+1], append([]string{s.files[k]}, s.files[k+1:]...)...)
		c.Event("expression runs with a file named twice in a row")
	}
	large := false
	for _, f := range s.files {
		t, _ := s.fs.read(f)
		large = large || len(t) > 20000
	}
	if large || len(text) > 20000 || g.one(10) { // what shows how much of the text there is
		p := pick(r, [][]val{{model.Cmd("buffer-size")}, {model.Cmd("end-of-buffer"), model.Cmd("point")}, {model.Cmd("end-of-buffer"), model.Cmd("line-number-at-pos")}, {model.Cmd("buffer-substring", model.N(1), model.N(-1))}, {model.Cmd("buffer-substring", model.N(1), model.N(-1))}})
		st = model.Eval(p, st, nil).State
		x.exprs = append(x.exprs, p)
		x.srcs = append(x.srcs, rend{r}.script(p, s.format))
	}
	for k := 1 + g.n(4); k > 0; k-- {
		p := g.program(st, 1+g.n(3), append([]string{"point", "buffer-substring", "line-number-at-pos"}, stringFns...), g.one(8))
		if len(p) == 0 {
			p = []val{model.Cmd("point")}
		}
		if g.one(8) { // what has little to show
			p = []val{pick(r, []val{model.Cmd("concat"), model.Cmd("concat", model.S("")), model.Cmd("insert", model.S("x")), model.Cmd("buffer-substring", model.N(1), model.N(1)), model.Cmd("concat", model.S("\n")), model.Cmd("concat", model.S(" ")), model.Cmd("length", model.S("")), model.Cmd("upcase", model.S("")), model.Cmd("set-mark")})}
		}
		if len(x.exprs) > 0 && g.one(4) { // nearly what was there before
			p = append([]val{}, x.exprs[g.n(len(x.exprs))]...)
			k := g.n(len(p))
			e := model.L(append([]val{}, p[k].L...)...)
			for j, a := range e.L {
				if a.K == model.Str {
					e.L[j] = model.S(pick(r, []string{a.S + " ", " " + a.S, strings.ReplaceAll(a.S, " ", "  "), strings.ReplaceAll(a.S, "  ", " "), strings.ToUpper(a.S), a.S + "\t"}))
				}
			}
			p[k] = e
			c.Event("expressions that resemble earlier ones")
		}
		src := rend{r}.script(p, s.format)
		for again := pick(r, []int{1, 1, 1, 1, 1, 2, 3}); again > 0; again-- {
			st = model.Eval(p, st, nil).State
			x.exprs = append(x.exprs, p)
			x.srcs = append(x.srcs, src)
		}
	}
	badAt := -1
	if g.one(8) {
		s.malformed()
		badAt = g.n(len(x.srcs))
		if format := s.format; format != "" {
			x.srcs[badAt] = s.bad
		}
		s.bad = ""
	}
	for i, src := range x.srcs {
		if !argOK(src) || src == "" || src[0] == '=' {
			x.srcs[i] = map[string]string{"json": `["point"]`, "shell": "point", "sexp": "(point)"}[s.format]
			x.exprs[i] = []val{model.Cmd("point")}
			if badAt == i {
				badAt = -1
			}
		}
	}
	if badAt >= 0 && s.format == "shell" { // malformed() may have changed the format
		if _, err := model.Parse("shell", x.srcs[badAt]); err == nil {
			return
		}
		for i := range x.srcs {
			if i != badAt {
				x.srcs[i] = rend{r}.lines(x.exprs[i], "mixed")
				if !argOK(x.srcs[i]) || x.srcs[i] == "" || x.srcs[i][0] == '=' {
					return
				}
			}
		}
	}
	// What must be printed: the value of each expression, up to the first failure.
	type block struct {
		name string
		vals []val
	}
	var blocks []block
	code := 0
	vague := false
	eval := func(name, text string) bool {
		blocks = append(blocks, block{name: name})
		bl := &blocks[len(blocks)-1]
		st := model.NewState(text)
		var all []val
		for i, p := range x.exprs {
			if i == badAt {
				return false
			}
			all = append(all, p...)
			if len(evalPolicies(all, model.NewState(text))) != 1 {
				vague = true
			}
			o := model.Eval(p, st, nil)
			if o.Err != "" {
				return false
			}
			st = o.State
			switch {
			case x.outf == "json" && !jsonWritable(o.Val):
				vague = vague || s.quiet // nothing has to be written then
				return false
			case x.outf == "shell" && o.Val.K == model.List:
				vague = true
			}
			bl.vals = append(bl.vals, o.Val)
		}
		return true
	}
	if len(s.files) == 0 {
		if s.badStdin {
			blocks = append(blocks, block{name: "stdin"})
			code = 1
		} else if !eval("stdin", s.stdin) {
			code = 1
		}
	}
	for _, f := range s.files {
		t, ok := s.fs.read(f)
		if !ok || !eval(f, t) {
			code = 1
			break
		}
	}
	if vague {
		return
	}
	var args []string
	for _, src := range x.srcs {
		args = append(args, pick(r, []string{"-e", "--expression"}), src)
	}
	if s.format != "shell" || g.one(3) {
		args = append(args, pick(r, [][]string{{"--format", s.format}, {"--" + s.format}})...)
	}
	if x.outf != "shell" || g.one(3) {
		args = append(args, "--output-format", x.outf)
	}
	if s.inplace {
		args = append(args, "-i")
		if g.one(3) {
			args = append(args, "--backup=.bak")
		}
	} else if len(s.files) == 1 && wild && g.one(4) {
		args = append(args, "-o", "out")
	}
	if wild && g.one(4) {
		args = append(args, "-s", `insert "from the script"`)
	}
	if s.dry {
		args = append(args, "-n")
	}
	if s.quiet {
		args = append(args, "-q")
	}
	args = append([]string{"edit"}, args...)
	args = append(args, "--")
	args = append(args, s.files...)
	if len(s.files) == 0 {
		args = args[:len(args)-1]
	}
	s.fs.still = true
	s.fs.make()
	before := snapshot(s.fs.base)
	desc := s.fs.describe()
	run := cliRun{args: args, stdin: s.stdin, dir: s.fs.base, nobody: s.fs.nobody}
	if s.badStdin {
		run.in = c.unreadable(g.n(2))
		defer run.in.Close()
		c.Event("runs with an unreadable stdin")
	}
	full := s.outStdio != ""
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		run.stdout = f
	}
	o := c.run1(run)
	after := snapshot(s.fs.base)
	c.Eval(strings.Join(args, "\x00") + desc + s.stdin)
	c.Event("expression runs")
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s\n texted %s\n stdin %s files %s\n %s", fmt.Sprintf(format, a...), clip(fmt.Sprintf("%q", args), 1200), q(s.stdin), desc, o)
	}
	if o.crashed() {
		fail("crash", "crash")
		return
	}
	if d := s.fs.compare(before, after); d != "" {
		fail("files", "files: %s", d)
	}
	total := 0
	for _, b := range blocks {
		total += len(b.vals)
	}
	if s.dry && o.code == code {
		// a dry run may print the values or only say what it would do
		return
	}
	if full && total > 0 && !s.quiet {
		code = 1
		c.Event("results that could not be printed")
	}
	if o.code != code {
		fail("status", "exit status %d, want %d", o.code, code)
	}
	if code == 1 {
		c.Event("expression runs that fail")
		if o.err == "" {
			fail("mute", "fails without a message")
		}
	}
	if full {
		return
	}
	if s.quiet {
		if o.out != "" && code == 0 {
			fail("quiet", "prints in spite of --quiet")
		}
		return
	}
	// Read the output back.
	rest := o.out
	for i, b := range blocks {
		if len(s.files) > 1 {
			h := "=== " + b.name + " ===\n"
			k := strings.Index(rest, h)
			if k < 0 || strings.TrimSpace(rest[:k]) != "" {
				fail("header", "no header for %q, or something before it: %s", b.name, q(rest))
				return
			}
			rest = rest[k+len(h):]
		}
		for j, v := range b.vals {
			l := ""
			for l == "" && rest != "" {
				l, rest, _ = strings.Cut(rest, "\n")
			}
			if !valueLine(l, x.outf, v) {
				fail("value", "expression %d on %s prints %s, want the value %v", j+1, b.name, q(l), v)
				return
			}
			c.Event("values read back from the output")
		}
		if i == len(blocks)-1 && code == 0 && strings.TrimSpace(rest) != "" {
			fail("extra", "extra output %s", q(rest))
		}
	}
}

func jsonWritable(v val) bool {
	switch v.K {
	case model.Str, model.Sym:
		return utf8.ValidString(v.S)
	case model.Num:
		return jsonable(v, false)
	}
	for _, e := range v.L {
		if !jsonWritable(e) {
			return false
		}
	}
	return true
}

// valueLine: the line denotes the value.
func valueLine(l, format string, v val) bool {
	l = strings.TrimSpace(l)
	switch format {
	case "json":
		var x any
		if json.Unmarshal([]byte(l), &x) != nil {
			return false
		}
		switch v.K {
		case model.Str, model.Sym:
			return x == v.S
		case model.Num:
			return x == v.N
		}
		return true
	case "sexp", "shell":
		if v.K == model.Sym {
			return l == v.S
		}
		p, err := model.Parse("shell", "x "+l)
		if err != nil || len(p) != 1 || len(p[0].L) != 2 {
			return false
		}
		return model.Same(p[0].L[1], v)
	}
	return false
}

func expressionsLeaveFiles(c *Ctx) {
	c.Each("expr", c.scale(1500, 15000), func(r *rand.Rand, i int) {
		s := newScen(r)
		s.addFiles(1 + s.g.n(2))
		s.bystanders()
		if s.g.one(4) {
			s.alias()
		}
		s.inplace = s.g.one(2)
		s.dry = s.g.one(5)
		c.expressionRun(s, true)
	})
}

func runP28(c *Ctx) {
	c.Each("expr", c.scale(5000, 50000), func(r *rand.Rand, i int) {
		s := newScen(r)
		s.fs.nobody = s.g.one(5)
		switch s.g.n(4) {
		case 0:
			s.stdin = s.content()
			s.badStdin = s.g.one(6)
		case 1:
			s.addFiles(2 + s.g.n(3))
			if s.g.one(3) {
				s.troubles()
			}
		default:
			s.addFiles(1)
		}
		s.quiet = s.g.one(10)
		if s.g.one(20) {
			s.outStdio = "/dev/full"
		}
		c.expressionRun(s, false)
		if i < 2 {
			c.Sample("files %q in %s", s.files, s.fs.describe())
		}
	})
}

// routes: however the text goes in and out, the result is the same.
func routes(c *Ctx) {
	c.Each("routes", c.scale(1200, 12000), func(r *rand.Rand, i int) {
		s := newScen(r)
		g := s.g
		text := s.content()
		s.program(text, 1+g.n(7), g.one(8))
		script := rend{r}.script(s.prog, s.format)
		if !argOK(script) || script == "" || script[0] == '=' {
			return
		}
		base := c.Dir()
		defer rmAll(base)
		type res struct {
			via, out string
			failed   bool
		}
		var all []res
		out, err := texted.ExecuteScriptWithFormat(text, script, s.format)
		all = append(all, res{"library", out, err != nil})
		common := []string{"edit", "-s", script, "--format", s.format}
		run := func(via string, from bool, more []string, result string) {
			must(os.WriteFile(filepath.Join(base, "in"), []byte(text), 0o644))
			os.Remove(filepath.Join(base, "out"))
			stdin := text
			args := append(append([]string{}, common...), more...)
			if from {
				args, stdin = append(args, "in"), "not the input"
			}
			o := c.run1(cliRun{args: args, stdin: stdin, dir: base})
			got := o.out
			if result != "" {
				b, _ := os.ReadFile(filepath.Join(base, result))
				got = string(b)
			}
			if o.code != 0 {
				got = ""
			}
			if o.crashed() {
				c.Fail("crash", "%q: %s", args, o)
			}
			all = append(all, res{via, got, o.code != 0})
		}
		run("stdin to stdout", false, nil, "")
		run("file to stdout", true, nil, "")
		run("file to --output", true, []string{"-o", "out"}, "out")
		run("stdin to --output", false, []string{"--output=out"}, "out")
		run("in place", true, []string{"-i"}, "in")
		run("in place with backup", true, []string{"-i", "--backup", ".b"}, "in")
		c.Eval("routes" + text + script)
		c.Event("routes compared")
		for _, x := range all[1:] {
			if x.out != all[0].out || x.failed != all[0].failed {
				c.Fail("routes", "%s gives %s failed %v, %s gives %s failed %v: script %q (%s) text %s", all[0].via, q(all[0].out), all[0].failed, x.via, q(x.out), x.failed, clip(script, 500), s.format, q(text))
				return
			}
		}
	})
}

// runP18: it does not matter how the script gets in.
func runP18(c *Ctx) {
	c.Each("delivery", c.scale(2200, 22000), func(r *rand.Rand, i int) {
		s := newScen(r)
		g := s.g
		text := s.content()
		good := true
		switch g.n(6) {
		case 0:
			s.malformed()
		case 1: // anything
			if g.one(3) { // what a cleverer reader might skip
				s.program(text, 1+g.n(3), false)
				s.bad = pick(r, heads) + rend{r}.script(s.prog, s.format)
				good = false
				c.Event("scripts with odd beginnings")
				break
			}
			if g.one(3) { // odd characters after a program
				s.program(text, 1+g.n(3), false)
				s.bad = rend{r}.script(s.prog, s.format) + pick(r, []string{"", " ", "\n", "\n"}) + strings.Repeat(pick(r, []string{"\\", "\\", "\\", ";", ",", "\"", ")", "]", "}", "'", "`", "&", "|", "#", ".", "-", "\x00", "\x1a", "\x04", "\uFEFF", "\u00A0", "/", "*", "$", ":"}), 1+g.n(3)) + pick(r, []string{"", "", " ", "\n"})
				good = false
				c.Event("scripts with odd endings")
				break
			}
			if g.one(2) { // lines that a cleverer reader might treat in its own way
				s.bad = pick(r, traps) + pick(r, []string{"", "\n", "  "}) + rend{r}.script([]val{model.Cmd("insert", model.S(g.str()))}, s.format) + pick(r, []string{"", "\n", " "}) + pick(r, traps)
				good = false
				c.Event("scripts with traps")
				break
			}
			s.bad = g.mutate(rend{r}.script([]val{model.Cmd("insert", model.S(g.str())), model.Cmd("end-of-buffer"), model.Cmd("insert", model.S("x;y"))}, s.format))
			good = false
		default:
			s.program(text, 1+g.n(7), g.one(8))
		}
		script := s.bad
		if script == "" {
			script = rend{r}.script(s.prog, s.format)
		}
		if g.one(40) { // nothing at all
			s.bad, s.prog = "", nil
			good = true
			script = pick(r, []string{"", "", "", "\n", " ", "\n\n", "\r\n", "\t"})
			c.Event("empty scripts")
		}
		if i%100 == 7 && s.bad == "" {
			n := 9000
			if i%1000 == 7 {
				n = 140000 // more than a megabyte
				c.Event("scripts of more than a megabyte")
			}
			end := []val{model.Cmd("insert", model.S("END"))}
			script += "\n" + strings.Repeat(map[bool]string{true: "[\"point\"]\n", false: "(point)\n"}[s.format == "json"], n) + rend{r}.script(end, s.format)
			s.prog = append(s.prog, end...)
		}
		base := c.Dir()
		defer rmAll(base)
		must(os.WriteFile(filepath.Join(base, "in"), []byte(text), 0o644))
		must(os.WriteFile(filepath.Join(base, "script"), []byte(script), 0o644))
		type res struct {
			via, out string
			failed   bool
		}
		var all []res
		add := func(via, out string, failed bool) {
			if failed {
				out = ""
			}
			all = append(all, res{via, out, failed})
		}
		out, err := texted.ExecuteScriptWithFormat(text, script, s.format)
		add("ExecuteScriptWithFormat", out, err != nil)
		if autoOK(script, s.format) {
			out, err = texted.ExecuteScript(text, script)
			add("ExecuteScript", out, err != nil)
			if utf8.ValidString(script) && utf8.ValidString(text) {
				out, isErr, err := callTool(tools.TextedEvalHandler, map[string]any{"input": text, "script": script})
				add("texted_eval", out, isErr || err != nil)
			}
		}
		if s.format != "json" {
			other := map[string]string{"shell": "sexp", "sexp": "shell"}[s.format]
			out, err = texted.ExecuteScriptWithFormat(text, script, other)
			add("format "+other, out, err != nil)
		}
		run := func(via string, args ...string) {
			o := c.run1(cliRun{args: append([]string{"edit"}, args...), stdin: text, dir: base})
			if o.crashed() {
				c.Fail("crash", "%q: %s", args, o)
			}
			add(via, o.out, o.code != 0)
		}
		fmts := [][]string{{"--format", s.format}, {"--format=" + s.format}, {"--" + s.format}}
		if s.format == "shell" {
			fmts = append(fmts, nil)
		}
		run("-f", append([]string{"-f", "script"}, pick(r, fmts)...)...)
		if g.one(4) { // names that look special
			nm := pick(r, []string{"-", "@script", "~", "*", "$HOME", "script.json", "script.sexp", "script.el", "script.sh", "--json", "x.texted"})
			writeFile(base, nm, script)
			run("-f "+nm, append([]string{pick(r, []string{"--file=", "-f"}) + nm}, pick(r, fmts)...)...)
		}
		run("--file", append(append([]string{}, pick(r, fmts)...), "--file=script", "in")...)
		if argOK(script) && script != "" && len(script) < 100000 {
			run("-s", append([]string{"-s", script}, pick(r, fmts)...)...)
			run("--script", append(append([]string{}, pick(r, fmts)...), "--script="+script, "in")...)
		}
		// to several files at once
		if g.one(2) {
			ways := []string{"edit -i", "EditFilesWithFormat"}
			if autoOK(script, s.format) {
				ways = append(ways, "EditFiles")
				if utf8.ValidString(script) {
					ways = append(ways, "edit_file", "edit_file")
				}
			}
			way := pick(r, ways)
			var files []string
			for k := 2 + g.n(2); k > 0; k-- {
				files = append(files, writeFile(base, fmt.Sprint("copy", k), text))
			}
			failed := make([]bool, len(files))
			switch way {
			case "edit -i":
				o := c.run1(cliRun{args: append([]string{"edit", "-i", "-f", "script", "--format", s.format, "--"}, files...), dir: base})
				if o.crashed() {
					c.Fail("crash", "edit -i: %s", o)
				}
				for k := range failed {
					failed[k] = o.code != 0
				}
			case "edit_file":
				rep, _, err := callTool(tools.EditFileHandler, map[string]any{"script": script, "files": files})
				for k, f := range files {
					failed[k] = true
					for _, l := range strings.Split(rep, "\n") {
						if err == nil && strings.HasPrefix(l, "✓") && strings.HasSuffix(l, " "+f) {
							failed[k] = false
						}
					}
				}
			default:
				var rs []texted.EditResult
				if way == "EditFiles" {
					rs, err = texted.EditFiles(files, script)
				} else {
					rs, err = texted.EditFilesWithFormat(files, script, s.format)
				}
				for k := range failed {
					failed[k] = err != nil || k >= len(rs) || !rs[k].Success
				}
			}
			for k, f := range files {
				b, err := os.ReadFile(f)
				must(err)
				if failed[k] && string(b) != text {
					c.Fail("delivery", "%s fails and leaves %s: script %q (%s) text %s", way, q(string(b)), clip(script, 500), s.format, q(text))
				}
				add(fmt.Sprintf("%s on file %d of %d", way, k+1, len(files)), string(b), failed[k])
			}
			c.Event("deliveries to several files")
		}
		c.Eval(text + script)
		c.Event("scripts delivered in several ways")
		if all[0].failed {
			c.Event("failing scripts")
		}
		for _, x := range all[1:] {
			c.Event("deliveries compared")
			if x.out != all[0].out || x.failed != all[0].failed {
				c.Fail("delivery", "%s gives %s failed %v, %s gives %s failed %v: script %q (%s) text %s", all[0].via, q(all[0].out), all[0].failed, x.via, q(x.out), x.failed, clip(script, 500), s.format, q(text))
				return
			}
		}
		if good && s.bad == "" {
			if d := scriptDiff(text, s.prog, all[0].out, err0(all[0].failed)); d != "" {
				c.Fail("result", "%s: script %q (%s) text %s", d, clip(script, 500), s.format, q(text))
			}
		}
		if i < 2 {
			c.Sample("%s script %q on %s: %d deliveries", s.format, clip(script, 200), q(text), len(all))
		}
	})
}

func err0(failed bool) error {
	if failed {
		return fmt.Errorf("failed")
	}
	return nil
}

// runP29: contradictory options are refused before anything happens.
func runP29(c *Ctx) {
	bads := []string{"output+many", "backup without in-place", "output+in-place", "unknown format", "many without in-place", "no script", "empty script", "missing script file", "script file is a directory", "unknown flag", "unknown format with -e", "unknown output format with -e", "unknown format of parse", "doc with two names", "unknown command", "output+in-place with -e", "backup without in-place with -e", "flag without value"}
	c.Each("options", c.scale(3000, 30000), func(r *rand.Rand, i int) {
		s := newScen(r)
		g := s.g
		kind := bads[i%len(bads)]
		s.addFiles(1 + g.n(3))
		s.bystanders()
		if g.one(4) {
			s.alias()
		}
		s.format = pick(r, []string{"shell", "sexp"})
		s.prog = []val{model.Cmd("insert", model.S("changed"))}
		script := rend{r}.script(s.prog, s.format)
		s.fs.base = c.Dir()
		defer rmAll(s.fs.base)
		s.side = c.Dir()
		defer rmAll(s.side)
		must(os.WriteFile(filepath.Join(s.side, "script"), []byte(script), 0o644))
		var flags [][]string
		add := func(f ...string) { flags = append(flags, f) }
		scriptFlag := func() {
			if g.one(3) {
				add("-f", filepath.Join(s.side, "script"))
			} else {
				add("-s", script)
			}
		}
		cmd := "edit"
		switch kind {
		case "output+many":
			for len(s.files) < 2 {
				s.addFiles(1)
			}
			switch g.n(5) { // the same file named again is no single file
			case 0:
				s.files = []string{s.files[0], s.files[0]}
			case 1:
				s.files = append(s.files, s.files[0])
			}
			scriptFlag()
			add("-o", pick(r, []string{"out", s.files[0], s.files[len(s.files)-1]}))
		case "backup without in-place", "backup without in-place with -e":
			s.files = s.files[:g.n(len(s.files)+1)]
			if strings.HasSuffix(kind, "-e") {
				add("-e", "point")
			} else {
				scriptFlag()
			}
			add("--backup", ".bak")
			if g.one(3) {
				add("-o", "out")
			}
		case "output+in-place", "output+in-place with -e":
			s.files = s.files[:g.n(len(s.files)+1)]
			if strings.HasSuffix(kind, "-e") {
				add("-e", "point")
			} else {
				scriptFlag()
			}
			add("-i")
			add("-o", pick(r, append([]string{"out"}, s.files...)))
		case "unknown format", "unknown format with -e":
			if strings.HasSuffix(kind, "-e") {
				add("-e", "point")
			} else {
				scriptFlag()
			}
			s.files = s.files[:g.n(len(s.files)+1)]
			add("--format", pick(r, []string{"xml", "JSON", "Shell", "", " shell", "jso", "sexp ", "lisp", "shell,sexp", "auto"}))
			add("-i")
		case "unknown output format with -e":
			add("-e", "point")
			s.files = s.files[:g.n(len(s.files)+1)]
			add("--output-format", pick(r, []string{"xml", "JSON", "Json", "Shell", "SEXP", "", " shell", "jso", "sexp ", "lisp", "shell,sexp", "auto", "s-exp", "text", "raw"}))
		case "many without in-place":
			for len(s.files) < 2 {
				s.addFiles(1)
			}
			if g.one(4) {
				s.files = []string{s.files[0], s.files[0]}
			}
			scriptFlag()
		case "no script":
			add("-i")
		case "empty script":
			add("-i")
			add("-s", "")
		case "missing script file":
			add("-i")
			add("-f", filepath.Join(s.side, "nothing"))
			if g.one(2) {
				add("-s", script)
			}
		case "script file is a directory":
			add("-i")
			add("-f", s.side)
		case "unknown flag":
			scriptFlag()
			add("-i")
			add(pick(r, []string{"--inplace", "-z", "--force", "--in-place=maybe", "--dry-run=perhaps", "--backups=x", "-iz"}))
		case "flag without value":
			scriptFlag()
			add("-i")
		case "unknown format of parse":
			cmd, s.files = "parse", nil
			add(pick(r, []string{"--input-format", "--output-format"}), pick(r, []string{"xml", "JSON", "Sexp", "SHELL", "s-exp", "", "sexp ", "lisp"}))
		case "doc with two names":
			cmd, s.files = "doc", []string{"point", pick(r, allFns)}
		case "unknown command":
			cmd = pick(r, []string{"edti", "Edit", "eval", "run"})
			scriptFlag()
			add("-i")
		}
		if cmd == "edit" {
			if g.one(6) && kind != "unknown output format with -e" { // prints nothing then
				add("-q")
			}
			if g.one(6) {
				add("-v")
			}
			if g.one(8) {
				add("-n")
			}
		}
		r.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
		args := []string{cmd}
		for _, f := range flags {
			args = append(args, f...)
		}
		if len(s.files) > 0 {
			args = append(args, "--")
			args = append(args, s.files...)
		}
		if kind == "flag without value" {
			args = args[:len(args)-len(s.files)-1]
			args = append(append(args, s.files...), pick(r, []string{"--backup", "-o", "--format", "--output"}))
			for _, f := range s.files {
				if strings.HasPrefix(f, "-") {
					return
				}
			}
		}
		s.fs.still = true
		s.fs.make()
		before := snapshot(s.fs.base)
		o := c.run1(cliRun{args: args, stdin: pick(r, []string{"", "text\n"}), dir: s.fs.base})
		after := snapshot(s.fs.base)
		c.Eval(strings.Join(args, "\x00"))
		c.Event("invalid options offered")
		c.Event("kind: " + kind)
		fail := func(sig, format string, a ...any) {
			c.Fail(sig, "%s\n (%s) texted %s\n in %s\n %s", fmt.Sprintf(format, a...), kind, clip(fmt.Sprintf("%q", args), 1000), s.fs.describe(), o)
		}
		if d := s.fs.compare(before, after); d != "" {
			fail("files", "files: %s", d)
		}
		if o.code != 1 {
			fail("status", "exit status %d, want 1", o.code)
		}
		if strings.TrimSpace(o.err) == "" {
			fail("mute", "no message")
		}
		for _, l := range strings.Split(o.out, "\n") {
			if strings.HasPrefix(l, "✓") || strings.Contains(l, "changed") {
				fail("stdout", "stdout %s", q(o.out))
			}
		}
		if i < 2 {
			c.Sample("(%s) %q: %s", kind, args, o)
		}
	})
	// valid combinations are accepted
	c.Each("valid", c.scale(1000, 10000), func(r *rand.Rand, i int) {
		s := newScen(r)
		s.addFiles(1 + s.g.n(2))
		s.inplace = len(s.files) > 1 || s.g.one(2)
		if s.inplace && s.g.one(2) {
			s.suffix = ".bak"
		} else if !s.inplace && s.g.one(2) {
			s.output = s.name()
		}
		s.opts()
		s.dry = s.g.one(5)
		s.prog = []val{model.Cmd("end-of-buffer"), model.Cmd("insert", model.S("x"))}
		c.Event("valid options offered")
		c.scenario(s)
	})
	// the library refuses unknown formats, too
	c.Each("library", c.scale(400, 4000), func(r *rand.Rand, i int) {
		s := newScen(r)
		f := pick(r, []string{"xml", "JSON", "Shell", "", " shell", "jso", "sexp ", "lisp", "\x00", s.g.str()})
		if f == "shell" || f == "sexp" || f == "json" {
			return
		}
		dir := c.Dir()
		defer rmAll(dir)
		text := s.content()
		p := writeFile(dir, "f", text)
		out, err := texted.ExecuteScriptWithFormat(text, `insert "x"`, f)
		e2 := texted.EditFileWithFormat(p, `insert "x"`, f)
		rs, e3 := texted.EditFilesWithFormat([]string{p}, `insert "x"`, f)
		c.Eval(f + text)
		c.Event("unknown formats offered")
		if err == nil || e2 == nil || e3 == nil && (len(rs) != 1 || rs[0].Success) || out != "" {
			c.Fail("format", "format %q is accepted: %v %v %v %v", f, err, e2, rs, e3)
		}
		c.wantFile(p, text, "unknown format "+f)
	})
}

var _ = edlisp.NewBuffer

func init() {
	Props["P18"] = &Prop{Run: runP18, Rule: "a case is a text and a script, good, failing or malformed, given to the program in up to nine ways (option, file, library calls, server tool, with and without naming the format); distinct by text and script. The monitor compares all results with each other and with the model.", Floors: map[string]int64{"scripts delivered in several ways": 1500, "deliveries compared": 7000, "failing scripts": 300, "empty scripts": 25}}
	Props["P28"] = &Prop{Run: runP28, Rule: "a case is a run of texted edit -e with expressions, files or stdin, formats and faults; distinct by all of them. The monitor parses every printed value with the model parser and compares it with the model's value.", Floors: map[string]int64{"expression runs": 3000, "values read back from the output": 5000, "expression runs that fail": 300, "results that could not be printed": 50}}
	Props["P29"] = &Prop{Run: runP29, Rule: "a case is a command line with one contradiction, in random company; distinct by command line. The monitor compares snapshots of the directory and checks status and messages.", Floors: map[string]int64{"invalid options offered": 2500, "valid options offered": 500, "unknown formats offered": 200}}
}
