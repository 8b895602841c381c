package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/model"
)

// scen is one run of `texted edit` with the file system around it.
type scen struct {
	r  *rand.Rand
	g  *gen
	fs *simFS

	files    []string // as given on the command line
	prog     []val
	bad      string // a malformed script instead of prog
	format   string // shell, sexp, json
	inplace  bool
	suffix   string
	output   string
	dry      bool
	quiet    bool
	verbose  bool
	stdin    string
	useFile  bool   // the script comes from a file
	decoy    bool   // both -s and -f are given
	badStdin bool   // stdin cannot be read
	outStdio string // where stdout goes: "" or "/dev/full"

	vague  bool     // the outcome is not specified
	causes []string // of the failures of inPlace, where known
	script string
	side   string // directory of the script file
}

func newScen(r *rand.Rand) *scen {
	g := newGen(r)
	g.plain = true
	return &scen{r: r, g: g, fs: newSimFS(), format: pick(r, []string{"shell", "shell", "sexp", "json"})}
}

var nameParts = []string{"a", "b", "file", "main.go", "README.md", "with space", "ünï", "日本", "x.bak", ".hidden", "it's", "q\"q", "per%d%s", "star*", "[x]", "dollar$1", "semi;colon", "a.b.c", "UPPER", "tab\tname", "amp&", "back\\slash", "tilde~", "~", "#hash", "(paren)", "comma,name", "equals=x", "colon:x", "\u00a0nbsp", "-dash", "--double", "-", "--", "@file", "file:x", "!x", "?", "a|b", "<in", "{a,b}", "nil"}

// name makes a new file name, maybe in a directory.
func (s *scen) name() string {
	for {
		n := pick(s.r, nameParts)
		if s.g.one(3) {
			n += fmt.Sprint(s.g.n(100))
		}
		if s.g.one(40) {
			n = strings.Repeat("n", 200)
		}
		if s.g.one(4) {
			d := pick(s.r, []string{"dir", "sub dir", "d.d"})
			if s.fs.nodes[d] == nil {
				s.fs.dir(d)
			}
			if s.fs.nodes[d].kind == "dir" {
				n = d + "/" + n
			}
		}
		if s.fs.nodes[n] == nil {
			return n
		}
	}
}

// content makes a file content; wild ones now and then.
func (s *scen) content() string {
	if s.g.one(150) { // large
		t := s.g.text() + pick(s.r, []string{"\n", "x", "é\n"})
		return strings.Repeat(t, 1+(60000+s.g.n(240000))/len(t))
	}
	switch s.g.n(14) {
	case 0:
		return ""
	case 1:
		return pick(s.r, []string{"\n", "\r\n", "x", "\x00", "\ufeffbom", "a\r\nb\r\n", "no newline at end", "\xff\xfe", "\n\n\n", " "})
	case 2:
		b := make([]byte, s.g.n(400))
		s.r.Read(b)
		return string(b)
	case 3:
		return s.g.odd(1 + s.g.n(40))
	case 4:
		if s.g.one(3) {
			return pick(s.r, heads) + s.g.text()
		}
		if s.g.one(3) {
			return pick(s.r, magic) + pick(s.r, []string{"", "\n", "\r\n", " "}) + s.g.text()
		}
	}
	return s.g.text()
}

// similar makes a file content on which the same script is likely to work.
func (s *scen) similar(t string) string {
	switch s.g.n(4) {
	case 0:
		return t
	case 1:
		return t + s.g.text()
	case 2:
		return s.content()
	}
	return s.g.str() + t
}

// program sets a program that does something on text t.
func (s *scen) program(t string, n int, failing bool) {
	if s.format == "json" {
		s.g.noBad, s.g.jsonOK = true, true
	}
	t = clip0(t, 20000)
	if s.format == "json" && !utf8.ValidString(t) {
		t = strings.ToValidUTF8(t, "?")
	}
	st := model.NewState(t)
	s.prog = s.g.program(st, n, nil, false)
	if len(s.prog) > 0 && s.g.one(20) { // the same instruction over and over
		at := pick(s.r, []int{0, 0, s.g.n(len(s.prog)), len(s.prog) - 1})
		for _, a := range s.prog[at].L[1:] {
			if a.K == model.List { // copies of the text would double it each time
				s.prog[at] = model.Cmd("point")
				break
			}
		}
		long := append([]val{}, s.prog[:at]...)
		for k := 2 + s.g.n(40); k > 0; k-- {
			long = append(long, s.prog[at])
		}
		long = append(long, s.prog[at:]...)
		if model.Eval(s.prog, st, nil).Err != "" || model.Eval(long, st, nil).Err == "" {
			s.prog = long
		}
	}
	if failing {
		bad := pick(s.r, []val{model.Cmd("search-forward", model.S("\u0001never\u0001")), model.Cmd(s.g.unknown()), model.Cmd("insert"), model.Cmd("goto-char", model.S("x")), model.Cmd("insert", model.Cmd("nope")), model.Cmd("replace-match", model.N(1)), model.Cmd("re-search-forward", model.S("("))})
		at := len(s.prog)
		if s.g.one(3) {
			at = s.g.n(len(s.prog) + 1)
		}
		s.prog = append(s.prog[:at:at], append([]val{bad}, s.prog[at:]...)...)
	}
	s.g.noBad, s.g.jsonOK = false, false
}

func clip0(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// edits makes sure that the program changes every text.
func (s *scen) edits() {
	if s.g.one(8) { // nothing remains
		s.prog = append(s.prog, model.Cmd("mark-whole-buffer"), pick(s.r, []val{model.Cmd("delete-region"), model.Cmd("replace-region", model.S(""))}))
		return
	}
	s.prog = append(s.prog, pick(s.r, []val{model.Cmd("insert", model.S("+é")), model.Cmd("insert", model.S("new\n")), model.Cmd("insert", model.S("x"))}))
}

// exec is what the script makes of a text.
func (s *scen) exec(text string) (string, bool) {
	if s.bad != "" {
		return "", false
	}
	os := evalPolicies(s.prog, model.NewState(text))
	if len(os) != 1 {
		s.vague = true
	}
	if os[0].Err != "" {
		return "", false
	}
	return os[0].State.Text, true
}

// cause is the message of what the script fails with on a text, without what
// the library puts around it.
func (s *scen) cause(text string) string {
	_, err := texted.ExecuteScriptWithFormat(text, s.script, s.format)
	if err == nil {
		return ""
	}
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) {
		return ee.Error()
	}
	for errors.Unwrap(err) != nil {
		err = errors.Unwrap(err)
	}
	return err.Error()
}

// inPlace predicts an in-place edit of one file.
func (s *scen) inPlace(f string) bool {
	s.causes = append(s.causes, "")
	if s.suffix != "" {
		t, ok := s.fs.read(f)
		if !ok || !s.fs.write(f+s.suffix, t) {
			return false
		}
	}
	t, ok := s.fs.read(f)
	if !ok {
		return false
	}
	out, ok := s.exec(t)
	if !ok {
		s.causes[len(s.causes)-1] = s.cause(t)
		return false
	}
	if s.fs.limit > 0 && len(out) > s.fs.limit {
		return false // the file keeps its content
	}
	return s.fs.write(f, out)
}

// args makes the command line.
func (s *scen) args() []string {
	r, g := s.r, s.g
	opt := func(short, long, v string) []string {
		switch {
		case short != "" && g.one(2):
			if g.one(4) {
				return []string{short + v}
			}
			return []string{short, v}
		case g.one(2):
			return []string{long + "=" + v}
		}
		return []string{long, v}
	}
	flag := func(short, long string) []string {
		return []string{pick(r, []string{short, long, short, long + "=true"})}
	}
	var flags [][]string
	if s.useFile {
		p := filepath.Join(s.side, pick(r, []string{"script", "s.json", "my script.el"}))
		must(os.WriteFile(p, []byte(s.script), 0o644))
		flags = append(flags, opt("-f", "--file", p))
	} else if s.script != "" && s.script[0] != '=' {
		flags = append(flags, opt("-s", "--script", s.script))
	} else {
		flags = append(flags, []string{"-s", s.script})
	}
	if s.decoy { // the script file wins
		flags = append(flags, []string{"-s", `insert "decoy"`})
	}
	switch {
	case s.format == "shell" && g.one(2):
	case g.one(2):
		flags = append(flags, opt("", "--format", s.format))
	default:
		flags = append(flags, []string{"--" + s.format})
	}
	if s.inplace {
		flags = append(flags, flag("-i", "--in-place"))
	}
	if s.suffix != "" {
		flags = append(flags, opt("", "--backup", s.suffix))
	}
	if s.output != "" {
		flags = append(flags, opt("-o", "--output", s.output))
	}
	if s.dry {
		flags = append(flags, flag("-n", "--dry-run"))
	}
	if s.quiet {
		flags = append(flags, flag("-q", "--quiet"))
	}
	if s.verbose {
		flags = append(flags, flag("-v", "--verbose"))
	}
	r.Shuffle(len(flags), func(i, j int) { flags[i], flags[j] = flags[j], flags[i] })
	args := []string{"edit"}
	dash := false
	for _, f := range s.files {
		dash = dash || strings.HasPrefix(f, "-")
	}
	mode := g.n(3)
	if dash {
		mode = 0
	}
	if mode == 1 {
		args = append(args, s.files...)
	}
	k := g.n(len(flags) + 1)
	for i, f := range flags {
		if mode == 2 && i == k {
			args = append(args, s.files...)
		}
		args = append(args, f...)
	}
	if mode == 2 && k == len(flags) {
		args = append(args, s.files...)
	}
	if mode == 0 {
		if dash || len(s.files) > 0 && g.one(4) {
			args = append(args, "--")
		}
		args = append(args, s.files...)
	}
	return args
}

// run runs the scenario and judges everything that happened.
func (c *Ctx) scenario(s *scen) {
	g := s.g
	s.fs.base = c.Dir()
	defer rmAll(s.fs.base)
	s.side = c.Dir()
	defer rmAll(s.side)
	s.script = s.bad
	if s.script == "" {
		s.script = rend{s.r}.script(s.prog, s.format)
	}
	s.useFile = s.useFile || s.decoy || g.one(3) || !argOK(s.script) || s.script == ""
	if s.outStdio != "" {
		s.verbose, s.quiet = false, false
	}
	for i, f := range s.files {
		if g.one(8) && !strings.HasPrefix(f, "-") && !strings.HasPrefix(f, "/") {
			s.files[i] = "./" + f
		} else if g.one(12) && !strings.HasPrefix(f, "/") {
			s.files[i] = filepath.Join(s.fs.base, f)
		}
	}
	s.fs.still = s.dry || !s.inplace
	s.fs.make()
	before := snapshot(s.fs.base)
	desc := s.fs.describe()

	// What has to happen.
	var oks []bool
	cause, names := "", "" // what a failure has to tell
	wantOut, outExact, wantCode, codeKnown := "", false, 0, true
	if s.dry {
		outExact = false
		codeKnown = false
		ok := true
		for _, f := range s.files {
			t, readable := s.fs.read(f)
			if !readable {
				ok = false
			} else if _, good := s.exec(t); !good {
				ok = false
			}
		}
		if len(s.files) == 0 {
			_, ok = s.exec(s.stdin)
			ok = ok && !s.badStdin
		}
		codeKnown = ok
	} else if s.inplace && len(s.files) > 0 {
		for _, f := range s.files {
			ok := s.inPlace(f)
			oks = append(oks, ok)
			if !ok {
				wantCode = 1
			}
		}
	} else {
		text, ok := s.stdin, !s.badStdin || len(s.files) > 0
		if len(s.files) > 0 {
			text, ok = s.fs.read(s.files[0])
		}
		out := ""
		if ok {
			if out, ok = s.exec(text); !ok {
				cause = s.cause(text)
			}
		}
		if !ok && len(s.files) > 0 {
			names = s.files[0]
		}
		switch {
		case !ok:
			wantCode = 1
			outExact = !s.verbose
		case s.output != "":
			if !s.fs.write(s.output, out) {
				wantCode = 1
			}
			outExact = !s.verbose
		default:
			wantOut, outExact = out, !s.verbose
		}
	}
	if s.vague {
		return
	}
	args := s.args()
	run := cliRun{args: args, stdin: s.stdin, dir: s.fs.base, nobody: s.fs.nobody, fsize: s.fs.limit}
	if s.badStdin {
		run.in = c.unreadable(s.g.n(2))
		defer run.in.Close()
		c.Event("runs with an unreadable stdin")
	}
	if s.outStdio != "" {
		f, err := os.OpenFile(s.outStdio, os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		run.stdout = f
		if wantOut != "" {
			wantCode = 1
			c.Event("results that could not be printed")
		} else if wantCode == 0 {
			codeKnown = false // writing nothing to a full device
		}
		wantOut = ""
	}
	o := c.run1(run)
	after := snapshot(s.fs.base)
	c.Eval(strings.Join(args, "\x00") + desc)
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s\n texted %s\n in %s%s\n %s", fmt.Sprintf(format, a...), clip(fmt.Sprintf("%q", args), 1200), desc, map[bool]string{true: " as nobody"}[s.fs.nobody], o)
	}
	if o.crashed() {
		fail("crash", "crash")
		return
	}
	if d := s.fs.compare(before, after); d != "" {
		fail("files", "files: %s", d)
	}
	if codeKnown && o.code != wantCode {
		fail("status", "exit status %d, want %d", o.code, wantCode)
	}
	if o.code != 0 && o.err == "" && !s.quiet {
		fail("mute", "fails without a message")
	}
	if s.outStdio == "" && (!strings.Contains(o.err, cause) || !strings.Contains(o.err, names)) {
		fail("cause", "the message lacks the file %q or the cause %q", names, clip(cause, 400))
	}
	if cause != "" {
		c.Event("messages checked for their cause")
	}
	if strings.Contains(o.out+o.err, "%!") && !strings.Contains(strings.Join(args, " ")+desc+s.script+s.stdin+cause+wantOut, "%") {
		fail("garbled", "a message is garbled")
	}
	if outExact && s.outStdio == "" && o.out != wantOut {
		fail("stdout", "stdout %s, want %s", q(o.out), q(wantOut))
	}
	if !outExact && !s.dry && len(oks) == 0 && !strings.HasSuffix(o.out, wantOut) {
		fail("stdout", "stdout %s does not end with %s", q(o.out), q(wantOut))
	}
	if len(oks) > 0 {
		c.judgeReport(s, oks, o, fail)
	}
	if s.dry {
		c.Event("dry runs")
		if codeKnown && !s.quiet {
			for _, f := range s.files {
				if !strings.Contains(o.out, f) {
					fail("dry", "the dry run does not mention %q", f)
				}
			}
		}
		for _, l := range strings.Split(o.out, "\n") {
			if strings.HasPrefix(l, "✓") {
				fail("dry", "the dry run claims an edit")
			}
		}
	}
	// what was seen
	for _, ok := range oks {
		if ok {
			c.Event("files edited in place")
		} else {
			c.Event("files that could not be edited")
		}
	}
	switch {
	case s.dry:
	case len(oks) > 0:
		if s.suffix != "" {
			c.Event("runs with backups")
		}
	case wantCode == 1:
		c.Event("failed runs")
	case s.output != "":
		c.Event("results written with --output")
	default:
		c.Event("results printed")
	}
}

// judgeReport checks the lines that report success and failure.
func (c *Ctx) judgeReport(s *scen, oks []bool, o cliOut, fail func(sig, format string, a ...any)) {
	var lines []string
	for _, l := range strings.Split(o.out, "\n") {
		if strings.HasPrefix(l, "✓") || strings.HasPrefix(l, "✗") {
			lines = append(lines, l)
		}
	}
	if s.quiet {
		for _, l := range lines {
			if strings.HasPrefix(l, "✓") {
				fail("quiet", "reports a success in spite of --quiet")
			}
		}
		return
	}
	if len(lines) != len(oks) {
		fail("report", "%d report lines for %d files", len(lines), len(oks))
		return
	}
	for i, ok := range oks {
		want := "✗"
		if ok {
			want = "✓"
		}
		if !strings.HasPrefix(lines[i], want) || !strings.Contains(lines[i], s.files[i]) {
			fail("report", "report line %q, want %s for %q", lines[i], want, s.files[i])
		} else if i := i; !ok && s.causes[i] != "" {
			c.Event("messages checked for their cause")
			if !strings.Contains(o.out, s.causes[i]) {
				fail("cause", "the report lacks the cause %q", clip(s.causes[i], 400))
			}
		} else if !ok && len(lines[i]) < len(want)+len(s.files[i])+8 {
			fail("cause", "the report %q has no cause", lines[i])
		}
	}
	c.EventN("report lines checked", int64(len(lines)))
}

// addFiles adds n files to edit.
func (s *scen) addFiles(n int) {
	t := s.content()
	for i := 0; i < n; i++ {
		if i > 0 {
			t = s.similar(t)
		}
		nm := s.name()
		s.fs.file(nm, t)
		s.files = append(s.files, nm)
	}
}

// bystanders adds files that nobody mentions.
func (s *scen) bystanders() {
	for i := s.g.n(3); i > 0; i-- {
		s.fs.file(s.name(), s.content())
	}
}

func (s *scen) first() string {
	for _, f := range s.files {
		if t, ok := s.fs.read(f); ok {
			return t
		}
	}
	return s.stdin
}

// alias adds links to files and mentions them.
func (s *scen) alias() {
	for i := s.g.n(3); i > 0; i-- {
		nm, to := s.name(), pick(s.r, s.files)
		n := s.fs.nodes[to]
		if s.g.one(2) && n != nil && n.kind == "file" {
			s.fs.nodes[nm] = n
		} else {
			t := to
			if strings.Contains(nm, "/") {
				t = "../" + to
			}
			s.fs.link(nm, t)
		}
		if s.g.n(3) > 0 {
			s.files = append(s.files, nm)
		}
	}
}

// bulk makes the first file larger than a megabyte.
func (s *scen) bulk() {
	n := s.fs.nodes[s.files[0]]
	if n == nil || n.kind != "file" {
		return
	}
	t := clip0(n.text, 5000) + pick(s.r, []string{"x\n", "foo bar\n", "é"})
	t = strings.Repeat(t, 1+(1<<20)/len(t))
	n.text = clip0(t+t, pick(s.r, []int{1 << 20, 1<<20 + 1, len(t), len(t) + s.g.n(len(t))}))
}

// once mentions files several times, with a script that works on some of them
// a limited number of times.
func (s *scen) once() {
	g := s.g
	w := pick(s.r, []string{"TODO", "@@", "ßx", "<<1>>"})
	for _, nm := range sortedKeys(s.fs.nodes) {
		n := s.fs.nodes[nm]
		if n.kind != "file" || len(n.text) > 10000 {
			continue
		}
		for k := pick(s.r, []int{0, 1, 1, 1, 2, 3}); k > 0; k-- {
			at := g.n(len(n.text) + 1)
			n.text = n.text[:at] + w + n.text[at:]
		}
	}
	s.prog = []val{model.Cmd("search-forward", model.S(w)), model.Cmd("replace-match", model.S(pick(s.r, []string{"", "done", "x\n"})))}
	for k := 1 + g.n(3); k > 0; k-- {
		at := g.n(len(s.files))
		f := s.files[at]
		if g.one(3) {
			at = g.n(len(s.files))
		}
		s.files = append(s.files[:at:at], append([]string{f}, s.files[at:]...)...)
	}
}

// troubles makes some files impossible to edit.
func (s *scen) troubles() {
	for i := 1 + s.g.n(2); i > 0; i-- {
		nm := s.name()
		if i := strings.LastIndex(nm, "/"); i >= 0 {
			nm = nm[i+1:] + "t"
		}
		if s.fs.nodes[nm] != nil {
			continue
		}
		switch s.g.n(8) {
		case 0, 1: // missing
		case 2:
			s.fs.dir(nm)
		case 3:
			s.fs.link(nm, "nowhere-"+nm)
		case 4:
			s.fs.link(nm, nm) // a loop
		case 5:
			nm = pick(s.r, []string{"missing-dir/x", strings.Repeat("z", 300)})
			if len(s.files) > 0 && s.g.one(2) && !strings.Contains(s.files[0], "/") {
				nm = s.files[0] + "/x"
			}
		default:
			n := s.fs.file(nm, s.content())
			if s.fs.nobody {
				n.root = s.g.one(2)
				n.mode = pick(s.r, []os.FileMode{0o444, 0o400, 0o000, 0o222, 0o200, 0o644, 0o600, 0o666})
			}
		}
		at := s.g.n(len(s.files) + 1)
		s.files = append(s.files[:at:at], append([]string{nm}, s.files[at:]...)...)
	}
	if s.fs.nobody && s.g.one(3) {
		d := s.fs.dir("locked")
		d.root = s.g.one(2)
		d.mode = pick(s.r, []os.FileMode{0o555, 0o755, 0o000, 0o333, 0o777, 0o311})
		s.fs.file("locked/f", s.content())
		s.files = append(s.files, "locked/f")
	}
}

// malformed sets a script that does not parse.
func (s *scen) malformed() {
	s.prog = nil
	for k := 0; k < 20; k++ {
		good := rend{s.r}.script([]val{model.Cmd("insert", model.S("never seen")), model.Cmd("end-of-buffer")}, s.format)
		if s.format == "json" {
			s.bad = pick(s.r, []string{good[:len(good)-1-s.g.n(len(good)/2)], good + pick(s.r, jsonBad), pick(s.r, jsonBad)})
		} else {
			s.bad = pick(s.r, []string{good + "\n" + pick(s.r, lineBad), pick(s.r, lineBad), good + ";" + pick(s.r, lineBad) + ";" + good})
		}
		if _, err := model.Parse(s.format, s.bad); err != nil && s.bad != "" && argOK(s.bad) && strings.TrimSpace(s.bad) != "" {
			return
		}
	}
	s.bad, s.format = `insert "x`, "shell"
}

func (s *scen) opts() {
	s.quiet = s.g.one(6)
	s.verbose = s.g.one(8)
	s.decoy = s.g.one(12)
}

func init() {
	type build func(c *Ctx, s *scen, i int)
	reg := func(id, rule string, quick, thorough int, floors map[string]int64, b build, more ...func(c *Ctx)) {
		Props[id] = &Prop{Rule: rule, Floors: floors, Run: func(c *Ctx) {
			c.Each("edit", c.scale(quick, thorough), func(r *rand.Rand, i int) {
				s := newScen(r)
				b(c, s, i)
				if i < 2 {
					c.Sample("files %q in-place %v backup %q output %q dry-run %v script %s (%s) in %s", s.files, s.inplace, s.suffix, s.output, s.dry, clip(fmt.Sprint(s.prog, s.bad), 300), s.format, s.fs.describe())
				}
				c.scenario(s)
			})
			for _, m := range more {
				m(c)
			}
		}}
	}
	scenRule := "a case is a run of the real texted edit in a scratch directory: file names, contents, links, options, script, format and faults vary; distinct by command line and directory. The monitor compares a snapshot of the directory (content, mode, owner, inode, link count), stdout and the exit status with a simulated file system."

	reg("P21", scenRule, 4000, 40000, map[string]int64{"results printed": 400, "results written with --output": 300, "files edited in place": 600, "large contents": 10, "library edits": 1500}, func(c *Ctx, s *scen, i int) {
		t := s.content()
		if i%200 == 0 {
			t = s.g.text() + pick(s.r, []string{"x\n", "x"})
			t = strings.Repeat(t, 1+(3<<20)/len(t))
			t = clip0(t, pick(s.r, []int{1<<18 + s.g.n(1<<20), 1 << 20, 1<<20 + 1 + s.g.n(2<<20)}))
			c.Event("large contents")
		}
		if i == 700 || i == 1900 { // very large
			t = pick(s.r, []string{"0123456789abcde\n", "x\r\n", "line\n"})
			t = strings.Repeat(t, (66<<20+s.g.n(12<<20))/len(t))
			s.output, s.prog, s.format = "", []val{model.Cmd("point")}, "shell"
			c.Event("very large contents")
			if i == 700 {
				s.stdin = t
			} else {
				s.fs.file("large", t)
				s.files, s.inplace = []string{"large"}, true
				s.prog = []val{model.Cmd("end-of-buffer"), model.Cmd("insert", model.S("x"))}
			}
			return
		}
		switch s.g.n(4) {
		case 0:
			s.stdin = t
		default:
			nm := s.name()
			s.fs.file(nm, t)
			s.files = []string{nm}
			s.inplace = s.g.one(2)
		}
		if s.inplace && s.g.one(3) {
			s.suffix = ".orig"
		}
		if !s.inplace && s.g.one(3) {
			s.output = s.name()
		}
		switch s.g.n(4) {
		case 0:
			s.prog = []val{model.Cmd("point")} // leaves everything alone
		case 1:
			s.prog = []val{model.Cmd(pick(s.r, []string{"beginning-of-buffer", "end-of-buffer"})), model.Cmd("insert", model.S(pick(s.r, []string{"", "x", "\n", "é"})))}
		case 2:
			s.prog, s.useFile = nil, true // the empty script
		default:
			s.program(t, 1+s.g.n(5), false)
		}
	}, libraryBytes)

	reg("P22", scenRule, 3000, 30000, map[string]int64{"files that could not be edited": 1500, "library edits that failed": 1000, "files too large to be written": 300}, func(c *Ctx, s *scen, i int) {
		s.addFiles(1 + s.g.n(2))
		s.inplace = true
		s.bystanders()
		large := i%50 == 0
		if large {
			s.bulk()
			c.Event("runs on large files")
		}
		if s.g.one(3) {
			s.suffix = pick(s.r, []string{".bak", "~"})
		}
		s.opts()
		switch s.g.n(5) {
		case 0:
			s.malformed()
		case 1, 2:
			s.program(s.first(), 1+s.g.n(6), true)
		case 3:
			s.fs.nobody = true
			s.troubles()
			s.program(s.first(), 1+s.g.n(4), false)
			s.edits()
		default: // the new content does not fit
			for _, n := range s.fs.nodes {
				if n.kind == "file" {
					if n.text = clip0(n.text, 4000); large {
						n.text = strings.Repeat(n.text+"\n", 1+(1<<20)/(len(n.text)+1))
					}
					s.fs.limit = max(s.fs.limit, len(n.text))
				}
			}
			s.fs.limit += s.g.n(6)
			if s.fs.limit == 0 {
				s.fs.limit = 1
			}
			s.prog = []val{model.Cmd(pick(s.r, []string{"beginning-of-buffer", "end-of-buffer", "end-of-line"})), model.Cmd("insert", model.S(strings.Repeat(pick(s.r, wordsA), 1+s.g.n(min(100000, s.fs.limit)+3))))}
			c.Event("files too large to be written")
		}
	}, libraryFailures)

	reg("P23", scenRule, 3000, 30000, map[string]int64{"files that could not be edited": 1500, "files edited in place": 3000, "report lines checked": 4000, "library edits": 1500}, func(c *Ctx, s *scen, i int) {
		s.fs.nobody = s.g.one(3)
		n := 1 + s.g.n(5)
		if s.g.one(30) {
			n = pick(s.r, []int{30, 65, 90, 130, 260})
		}
		s.addFiles(n)
		s.inplace = true
		s.bystanders()
		if i%200 == 0 {
			s.bulk()
			c.Event("runs on large files")
		}
		if s.g.one(3) {
			s.alias()
		}
		if s.g.n(3) > 0 {
			s.troubles()
		}
		if s.g.one(8) {
			s.files = append(s.files, pick(s.r, s.files))
		}
		if s.g.one(3) {
			s.suffix = ".bak"
		}
		s.opts()
		s.program(pick(s.r, []string{s.first(), s.first(), "foo bar\nbaz foo\n"}), 1+s.g.n(5), s.g.one(10))
		if s.g.one(2) {
			s.edits()
		}
		if s.g.one(20) {
			s.malformed()
		}
		if s.g.one(8) {
			s.bad = ""
			s.once()
			c.Event("runs with files mentioned again")
		}
	}, libraryMany)

	reg("P24", scenRule, 3500, 35000, map[string]int64{"dry runs": 900, "results printed": 300, "results written with --output": 150, "expression runs": 500}, func(c *Ctx, s *scen, i int) {
		s.addFiles(1)
		s.bystanders()
		if i%200 == 0 {
			s.bulk()
			c.Event("runs on large files")
		}
		if s.g.one(4) {
			s.alias()
			s.files = s.files[:1]
		}
		s.opts()
		switch s.g.n(4) {
		case 0, 1:
			s.dry = true
			switch s.g.n(3) {
			case 0:
				s.output = s.name()
				if s.g.one(3) { // which exists
					s.fs.file(s.output, "keep me")
				}
			case 1:
				s.inplace = true
				s.addFiles(s.g.n(3))
				if s.g.one(2) {
					s.suffix = pick(s.r, []string{".bak", "~"})
					if s.g.one(3) {
						s.fs.file(s.files[0]+s.suffix, "older backup")
					}
				}
				if s.g.one(3) {
					s.troubles()
				}
			}
			if s.g.one(6) {
				s.files, s.inplace, s.suffix = nil, false, ""
				s.stdin = s.content()
			}
		case 2:
			s.output = s.name()
			if s.g.one(3) {
				s.fs.file(s.output, strings.Repeat("older and longer content\n", 1+s.g.n(30)))
			}
		}
		s.program(s.first(), 1+s.g.n(5), s.g.one(8))
		s.edits()
	}, expressionsLeaveFiles)

	reg("P25", scenRule, 4000, 40000, map[string]int64{"runs with backups": 3000, "files edited in place": 2500, "files that could not be edited": 1000}, func(c *Ctx, s *scen, i int) {
		s.fs.nobody = s.g.one(3)
		s.inplace = true
		s.addFiles(1 + s.g.n(3))
		s.suffix = pick(s.r, []string{".bak", "~", ".orig", "x", ".b c", "-1", "%s", ".ünï", ".tar.gz", "$", " ", ".bak ", " .bak", ".old\t", ".", "..", ".BAK", "-", "=", "=x", ",", ".a,b", "#", "*", "?", "'", "\"", ".%d", "$HOME", "\\", ".\xff", ".{}", ":", ".bak~", "0", "true", "false"})
		if s.g.one(12) {
			s.suffix = pick(s.r, []string{"/b", "/../b", strings.Repeat("s", 254)})
		}
		switch s.g.n(6) {
		case 0: // an older backup
			f := pick(s.r, s.files)
			if !strings.Contains(s.suffix, "/") && len(f+s.suffix) < 200 && s.fs.nodes[f+s.suffix] == nil {
				s.fs.file(f+s.suffix, strings.Repeat("older backup\n", s.g.n(200)))
			}
		case 1: // something in the way of the backup
			f := pick(s.r, s.files)
			if !strings.Contains(s.suffix, "/") && len(f+s.suffix) < 200 && s.fs.nodes[f+s.suffix] == nil {
				switch s.g.n(4) {
				case 0, 1:
					s.fs.dir(f + s.suffix)
				case 2:
					s.fs.link(f+s.suffix, "missing-dir/x")
				default:
					n := s.fs.file(f+s.suffix, "older backup")
					n.mode, n.root = 0o444, true
				}
			}
		case 2: // the backup of one file is another file of the list
			f := pick(s.r, s.files)
			if !strings.Contains(s.suffix, "/") && len(f+s.suffix) < 200 && s.fs.nodes[f+s.suffix] == nil {
				s.fs.file(f+s.suffix, s.content())
				s.files = append(s.files, f+s.suffix)
			}
		case 3:
			s.alias()
		case 4:
			s.troubles()
		}
		s.bystanders()
		if i%200 == 0 {
			s.bulk()
			c.Event("runs on large files")
		}
		s.opts()
		s.program(s.first(), 1+s.g.n(4), s.g.one(8))
		s.edits()
	})

	reg("P26", scenRule, 4000, 40000, map[string]int64{"results printed": 800, "results written with --output": 800, "failed runs": 500, "routes compared": 800, "results that could not be printed": 100, "runs with an unreadable stdin": 200}, func(c *Ctx, s *scen, i int) {
		s.fs.nobody = s.g.one(4)
		t := s.content()
		if s.g.n(3) > 0 {
			nm := s.name()
			s.fs.file(nm, t)
			s.files = []string{nm}
		} else {
			s.stdin = t
		}
		s.badStdin = s.g.one(8)
		if s.g.one(4) && len(s.files) > 0 {
			s.alias()
			s.files = s.files[len(s.files)-1:]
		}
		s.bystanders()
		s.verbose = s.g.one(10)
		s.decoy = s.g.one(12)
		switch s.g.n(8) {
		case 0, 1, 2, 3:
			s.output = s.name()
			switch s.g.n(8) {
			case 0, 1:
				s.fs.file(s.output, strings.Repeat("older and longer content\n", 1+s.g.n(30)))
			case 2:
				if len(s.files) > 0 {
					s.output = s.files[0]
				}
			case 3:
				s.output = pick(s.r, []string{"missing-dir/out", "."})
			case 4:
				s.fs.file("target", "older content of the target")
				s.output = "out-link"
				s.fs.link(s.output, "target")
			case 5:
				n := s.fs.file(s.output, "cannot be overwritten")
				n.mode, n.root = 0o444, true
			}
		case 4:
			s.outStdio = "/dev/full"
		}
		if len(s.files) > 0 && s.g.one(12) {
			s.files = nil
			s.troubles()
			if len(s.files) > 0 {
				s.files = s.files[:1]
			} else {
				s.files = []string{"missing"}
			}
		}
		s.program(t, 1+s.g.n(6), s.g.one(6))
		if s.g.one(12) {
			s.malformed()
		}
	}, routes)

	reg("P27", scenRule, 4000, 40000, map[string]int64{"files edited in place": 4000, "runs with backups": 300, "library edits": 1500}, func(c *Ctx, s *scen, i int) {
		s.fs.nobody = s.g.one(2)
		s.addFiles(1 + s.g.n(3))
		s.alias()
		s.alias()
		s.bystanders()
		if i%100 == 0 {
			s.bulk()
			c.Event("runs on large files")
		}
		for _, nm := range sortedKeys(s.fs.nodes) { // in a fixed order
			n := s.fs.nodes[nm]
			if n.kind == "file" {
				n.mode = pick(s.r, []os.FileMode{0o644, 0o600, 0o755, 0o777, 0o640, 0o664, 0o700, 0o604, 0o666, 0o711, 0o444, 0o400, 0o555, 0o000, 0o200, 0o466})
				n.root = s.g.one(12)
				if s.g.one(10) {
					n.mode |= os.ModeSticky
				}
				if !s.fs.nobody && keepsSetuid() && s.g.one(6) {
					n.mode |= pick(s.r, []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSetuid | os.ModeSetgid})
					c.Event("files with special modes")
				}
			}
		}
		s.inplace = s.g.n(6) > 0
		if s.inplace {
			if s.g.one(4) {
				s.suffix = pick(s.r, []string{".bak", "~"})
				if s.g.one(3) && s.fs.nodes[s.files[0]+s.suffix] == nil && len(s.files[0]) < 200 {
					s.fs.file(s.files[0]+s.suffix, "older").mode = 0o600
				}
			}
		} else {
			s.files = s.files[:1]
			if s.g.one(2) {
				s.output = s.name()
				n := s.fs.file(s.output, strings.Repeat("older\n", 50))
				n.mode = 0o600
			}
		}
		s.opts()
		s.program(s.first(), 1+s.g.n(4), s.g.one(8))
		s.edits()
	}, libraryIdentity)
}
