package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
)

// subsequence: the lines of a occur in b, in that order.
func subsequence(a, b string) bool {
	bs := strings.Split(b, "\n")
	for _, l := range strings.Split(a, "\n") {
		for len(bs) > 0 && bs[0] != l {
			bs = bs[1:]
		}
		if len(bs) == 0 {
			return false
		}
		bs = bs[1:]
	}
	return true
}

// sameFiles compares two snapshots of different directories.
func sameFiles(a, b map[string]entry) string {
	for _, m := range []map[string]entry{a, b} {
		for n, e := range m {
			e.ino = 0
			m[n] = e
		}
	}
	return diffSnap(a, b, nil)
}

// runP39: --quiet and --verbose change what is said, not what is done.
func runP39(c *Ctx) {
	c.Each("modes", c.scale(1500, 12000), func(r *rand.Rand, i int) {
		s := newScen(r)
		g := s.g
		s.fs.nobody = g.one(4)
		text := "stdout" // where the text goes
		switch g.n(7) {
		case 0:
			s.stdin = s.content()
			s.badStdin = g.one(8)
		case 1:
			s.stdin = s.content()
			s.output, text = s.name(), ""
		case 2:
			s.addFiles(1)
			s.output, text = s.name(), ""
			if g.one(4) {
				s.output = "missing-dir/x"
			}
		case 3:
			s.addFiles(1)
		default:
			s.addFiles(1 + g.n(4))
			s.inplace, text = true, ""
			if g.one(2) {
				s.suffix = pick(r, []string{".bak", "~"})
			}
			if g.one(4) {
				s.alias()
			}
			if g.one(2) {
				s.troubles()
			}
		}
		if len(s.files) == 1 && g.one(8) {
			s.files = []string{"missing"}
		}
		if g.one(5) {
			s.dry, text = true, ""
		}
		s.program(s.first(), 1+g.n(5), g.one(5))
		if g.one(2) {
			s.edits()
		}
		if g.one(12) {
			s.malformed()
		}
		s.script = s.bad
		if s.script == "" {
			s.script = rend{r}.script(s.prog, s.format)
		}
		if g.one(12) { // what must not go together is refused in every mode alike
			switch g.n(4) {
			case 0:
				s.files, s.inplace, s.suffix, s.output, text = append(s.files, "one", "two"), false, "", "", ""
			case 1:
				s.inplace, s.output, text = true, "out", ""
			case 2:
				s.inplace, s.suffix, text = false, ".bak", ""
			case 3:
				s.files, s.inplace, s.suffix, s.output, text = append(s.files, "one", "two"), false, "", "out", ""
			}
			c.Event("contradictory options in four modes")
		}
		s.useFile = g.one(3) || !argOK(s.script) || s.script == ""
		s.side = c.Dir()
		defer rmAll(s.side)
		args := s.args()
		c.compareModes(s, args, text)
		if i < 2 {
			c.Sample("texted %s in %s", clip(fmt.Sprintf("%q", args), 600), s.fs.describe())
		}
	})
	c.Each("expressions", c.scale(900, 8000), func(r *rand.Rand, i int) {
		s := newScen(r)
		g := s.g
		if g.one(4) {
			s.stdin = s.content()
			s.badStdin = g.one(6)
		} else {
			s.addFiles(1 + g.n(3))
			if g.one(4) {
				s.troubles()
			}
		}
		outf := pick(r, []string{"shell", "sexp", "json"})
		args := []string{"edit", "--format", s.format, "--output-format", outf}
		for k := 1 + g.n(3); k > 0; k-- {
			s.program(s.first(), 1+g.n(3), g.one(8))
			src := rend{r}.script(s.prog, s.format)
			if g.one(10) {
				f := s.format
				s.malformed()
				src, s.format, s.bad = s.bad, f, ""
			}
			if !argOK(src) || src == "" {
				src = map[string]string{"json": `["point"]`, "shell": "point", "sexp": "(point)"}[s.format]
			}
			args = append(args, "--expression="+src)
		}
		args = append(append(args, "--"), s.files...)
		c.compareModes(s, args, "values")
	})
}

// compareModes runs the same command silently, plainly and talkatively.
func (c *Ctx) compareModes(s *scen, args []string, text string) {
	type res struct {
		o     cliOut
		files map[string]entry
	}
	r, g := s.r, s.g
	kind := g.n(2)
	run := func(flags ...string) res {
		s.fs.base = c.Dir()
		defer rmAll(s.fs.base)
		s.fs.make()
		a := append(append([]string{args[0]}, flags...), args[1:]...)
		cr := cliRun{args: a, stdin: s.stdin, dir: s.fs.base, nobody: s.fs.nobody}
		if s.badStdin {
			f := c.unreadable(kind)
			defer f.Close()
			cr.in = f
		}
		o := c.run1(cr)
		if s.fs.nobody {
			must(os.Chmod(s.fs.base, 0o777))
		}
		return res{o, snapshot(s.fs.base)}
	}
	c.Eval(strings.Join(args, "\x00") + s.fs.describe() + s.stdin)
	plain := run()
	quiet := run(pick(r, []string{"-q", "--quiet", "--quiet=true"}))
	loud := run(pick(r, []string{"-v", "--verbose"}))
	both := run(pick(r, [][]string{{"-qv"}, {"-v", "-q"}, {"--quiet", "--verbose"}})...)
	fail := func(sig, format string, a ...any) {
		c.Fail(sig, "%s\n texted %s\n stdin %s in %s%s\n plain %s\n quiet %s\n verbose %s\n both %s", fmt.Sprintf(format, a...), clip(fmt.Sprintf("%q", args), 1200), q(s.stdin), s.fs.describe(), map[bool]string{true: " as nobody"}[s.fs.nobody], plain.o, quiet.o, loud.o, both.o)
	}
	for name, x := range map[string]res{"quiet": quiet, "verbose": loud, "quiet and verbose": both} {
		if x.o.crashed() {
			fail("crash", "crash")
			return
		}
		if d := sameFiles(plain.files, x.files); d != "" {
			fail("files", "%s: other files than without: %s", name, d)
		}
		if x.o.code != plain.o.code && (text != "values" || name == "verbose") {
			fail("status", "%s: exit status %d, without %d", name, x.o.code, plain.o.code)
		}
		if x.o.code != 0 && x.o.err == "" {
			fail("mute", "%s: fails without a message", name)
		}
	}
	want := ""
	if text == "stdout" {
		want = plain.o.out // nothing but the text is said
	}
	if quiet.o.out != want {
		fail("quiet", "quiet: stdout %s, want %s", q(quiet.o.out), q(want))
	}
	if both.o.out != quiet.o.out || both.o.code != quiet.o.code {
		fail("both", "quiet and verbose differ from quiet")
	}
	if text == "stdout" {
		if !strings.HasSuffix(loud.o.out, plain.o.out) {
			fail("verbose", "verbose: stdout does not end with %s", q(plain.o.out))
		}
		c.Event("texts printed")
	} else if !subsequence(strings.TrimSuffix(plain.o.out, "\n"), loud.o.out) {
		fail("verbose", "verbose: lines of the plain output are missing or changed")
	}
	if loud.o.code == 0 && len(loud.o.out) <= len(plain.o.out) {
		fail("verbose", "verbose: says no more than without")
	}
	c.Event("runs compared in four modes")
	if plain.o.code != 0 {
		c.Event("failing runs compared")
	}
	if s.dry {
		c.Event("dry runs compared")
	}
}

func init() {
	Props["P39"] = &Prop{Run: runP39, Rule: "a case is a run of texted edit, repeated in equal directories plainly, with --quiet, with --verbose and with both; distinct by command line and directory. The monitor compares files, exit status and output of the four.", Floors: map[string]int64{"runs compared in four modes": 2000, "failing runs compared": 400, "dry runs compared": 100, "texts printed": 300}}
}
