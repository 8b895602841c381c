package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/model"
)

var smallNums = []float64{0, 1, 2, 3, 4, -1, -2, 1.9, -0.5, 7, 1e18, -1e18, 1e300, math.NaN(), math.Inf(1), math.Inf(-1), 2147483648, 9223372036854775807}

var smallStrs = []string{"", "a", "b", "\n", " ", "ab", "aa", "ba", "a\n", "é", "-", "A", "\xc3", "aab", "zz"}

var smallRegexps = []string{"", "a", "b", "ab", "a+", "a*", "^a", "a$", "[^a]", ".", ".*", "\\w+", "\\b", "(", "[", "a|ab", "(?s).+", "\\n", "(a)(b)?", "$", "^", "(?m)^a", "a(?:b|$)", "é", " ", "\\s\\w", "(?m)a$", "a??", "\\Bb"}

// argLists are the argument lists fn is tried with on a small text.
func argLists(fn string, st *model.State, dense bool) [][]val {
	sg := model.Sigs[fn]
	nums := smallNums
	if !dense {
		nums = []float64{0, 1, 2, 3, -1, 1.5, 1e18}
	}
	size := float64(len(st.Text))
	switch {
	case fn == "buffer-substring":
		var out [][]val
		ns := append([]float64{size, size + 1, size + 2}, 0, 1, 2, 3, -1, -2, 1.9, 1e18, math.NaN())
		for _, a := range ns {
			for _, b := range ns {
				out = append(out, []val{model.N(a), model.N(b)})
			}
		}
		return out
	case fn == "substring":
		ns := append([]float64{size, size + 1, size + 2}, 0, 1, 2, 3, -1, 1.9, 1e18, math.Inf(-1))
		var out [][]val
		for _, a := range ns {
			for _, b := range ns {
				out = append(out, []val{model.S(st.Text), model.N(a), model.N(b)})
			}
		}
		return out
	case fn == "concat":
		return [][]val{{}, {model.S(st.Text)}, {model.S(st.Text), model.S("é")}, {model.S(""), model.S(st.Text), model.S(st.Text)}, numbered(9 + len(st.Text)), numbered(33), numbered(257)}
	case fn == "string-match":
		var out [][]val
		for _, p := range smallRegexps {
			out = append(out, []val{model.S(p), model.S(st.Text)})
		}
		return out
	case fn == "replace-regexp-in-string":
		var out [][]val
		for _, p := range smallRegexps {
			for _, r := range []string{"", "x", "$0$0", "[$1]"} {
				out = append(out, []val{model.S(p), model.S(r), model.S(st.Text)})
			}
		}
		return out
	case fn == "length" || fn == "upcase" || fn == "downcase" || fn == "capitalize":
		return [][]val{{model.S(st.Text)}}
	case regexFns[fn]:
		var out [][]val
		for _, p := range smallRegexps {
			out = append(out, []val{model.S(p)})
		}
		return out
	}
	var out [][]val
	if sg.Min == 0 {
		out = append(out, nil)
	}
	if len(sg.Kinds) == 1 {
		if sg.Kinds[0] == model.Num {
			for _, n := range nums {
				out = append(out, []val{model.N(n)})
			}
			out = append(out, []val{model.N(size + 1)}, []val{model.N(-size)})
		} else {
			for _, s := range smallStrs {
				out = append(out, []val{model.S(s)})
			}
		}
	}
	return out
}

// numbered is n strings, all different.
func numbered(n int) []val {
	out := make([]val, n)
	for i := range out {
		out[i] = model.S(fmt.Sprint(i, " "))
	}
	return out
}

// core describes a property that judges single calls of some functions.
type core struct {
	fns    []string
	judge  func(o *obs) string // "" or what is wrong
	marks  bool                // the mark matters to these functions
	nofail bool                // programs must not end early
	idle   bool                // these functions change nothing, not even what later calls do
}

func (k *core) of(fn string) bool {
	for _, f := range k.fns {
		if f == fn {
			return true
		}
	}
	return false
}

func (k *core) run(c *Ctx) {
	judge := k.judge
	if judge == nil {
		judge = (*obs).check
	}
	failed := 0
	m := newMon(nil)
	m.on = func(o *obs) {
		if !k.of(o.fn) {
			return
		}
		h := obsHash(o)
		c.EvalH(h)
		c.Event("calls of " + o.fn)
		if o.err != nil {
			c.Event("calls that failed")
		}
		if d := judge(o); d != "" {
			failed++
			if failed <= 5 {
				c.Fail("call", "%s: %s", d, o)
			}
		}
	}
	env := m.env()

	// All small texts, positions and arguments.
	texts := smallTexts([]string{"a", " ", "\n", "é"}, c.scale(4, 5))
	texts = append(texts, smallTexts([]string{"a", "b", "\n"}, c.scale(5, 6))...)
	texts = append(texts, smallTexts([]string{"A", "-", "1", "_", "\r\n", "\x00", "\xff", "日"}, c.scale(2, 3))...)
	c.Each("small", len(texts), func(r *rand.Rand, i int) {
		t := texts[i]
		for p := 1; p <= len(t)+1; p++ {
			marks := []int{1 + (p*7+i)%(len(t)+1)}
			if k.marks {
				marks = marks[:0]
				for mk := 1; mk <= len(t)+1; mk++ {
					marks = append(marks, mk)
				}
			}
			for _, mk := range marks {
				for _, fn := range k.fns {
					st := model.NewState(t)
					for _, args := range argLists(fn, &st, !k.marks) {
						b := buffer(t, p, mk)
						env.Functions[fn](toRealAll(args), b)
						clear(m.shadow)
					}
				}
			}
		}
	})

	// Calls in states that random programs reach.
	c.Each("prog", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		st := model.NewState(text)
		n := 1 + g.n(10)
		if g.one(60) {
			n = 50 + g.n(200)
		}
		prog := g.program(st, n, k.fns, true)
		b := edlisp.NewBuffer(text)
		for _, e := range prog {
			edlisp.Eval([]edlisp.Value{toReal(e)}, env, b) // goes on after errors
		}
		clear(m.shadow)
		if i < 2 {
			c.Sample("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 400))
		}
	})

	// Large texts.
	c.Each("large", c.scale(160, 1600), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.big = true
		text := g.text()
		for len(text) < 3000 {
			text += g.text() + pick(r, []string{"\n", " ", "\n\n", ""})
		}
		if i%8 == 0 {
			text = strings.Repeat(text, 1+g.n(12))
		}
		if len(text) > 400000 {
			text = text[:400000]
		}
		b := edlisp.NewBuffer(text)
		for j := 0; j < 30; j++ {
			b.SetPoint(1 + g.n(len(b.String())+1))
			if g.one(2) {
				b.SetMark(1 + g.n(len(b.String())+1))
				if sh := m.shadow[b]; sh != nil {
					sh.RawMark = b.Mark()
				}
			}
			st := m.pre(b)
			if st.Point < 1 || st.Point > st.Max() {
				break
			}
			fn := pick(r, k.fns)
			if g.one(3) {
				fn = pick(r, allFns)
			}
			if len(st.Text) > 5_000_000 {
				break
			}
			edlisp.Eval([]edlisp.Value{toReal(g.call(fn, &st, 1))}, env, b)
		}
		clear(m.shadow)
	})

	// Texts and strings of more than a megabyte.
	c.Each("huge", c.scale(5, 50), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := strings.Repeat(pick(r, []string{"x", "foo bar ", "line\n", "é", "a-b\n\nc ", " ", "\n"}), 300)
		if g.one(2) {
			text += g.text() + "\n"
		}
		text = strings.Repeat(text, 1+(1<<20+g.n(1<<20))/len(text)) + pick(r, []string{"", "end", "\n", "TAIL-", "é"})
		b := edlisp.NewBuffer(text)
		ends := []int{1, len(text)/2 + g.n(9), len(text) - g.n(9), len(text) + 1}
		for j := 0; j < 12; j++ {
			b.SetPoint(pick(r, ends))
			if g.one(2) {
				b.SetMark(pick(r, ends))
				if sh := m.shadow[b]; sh != nil {
					sh.RawMark = b.Mark()
				}
			}
			st := m.pre(b)
			if st.Point < 1 || st.Point > st.Max() || len(st.Text) > 5_000_000 {
				break
			}
			fn := pick(r, k.fns)
			e := g.call(fn, &st, 0)
			switch fn {
			case "upcase", "downcase", "capitalize", "length":
				e = model.Cmd(fn, model.S(st.Text))
			case "concat":
				e = model.Cmd(fn, model.S(st.Text), model.S("x"), model.S(st.Text))
			case "substring":
				e = model.Cmd(fn, model.S(st.Text), model.N(float64(pick(r, ends)-1)), model.N(float64(pick(r, ends)-1)))
			case "string-match":
				e = model.Cmd(fn, model.S(pick(r, []string{"TAIL", "end$", "[^a-z \n]", "o b", "(", "\\z", "never"})), model.S(st.Text))
			case "replace-regexp-in-string":
				e = model.Cmd(fn, model.S(pick(r, []string{"o", "TAIL", "^.", "$", "never", "\n+"})), model.S(pick(r, []string{"", "yy", "<$0>"})), model.S(st.Text))
			case "goto-char", "buffer-substring", "forward-char", "backward-char", "delete-char", "delete-backward-char":
				for a := 1; a < len(e.L); a++ {
					if g.one(2) {
						e.L[a] = model.N(float64(pick(r, ends)))
					}
				}
			}
			c.Event("calls on more than a megabyte")
			edlisp.Eval([]edlisp.Value{toReal(e)}, env, b)
		}
		clear(m.shadow)
	})

	// A program with such calls in between goes on as it does without them.
	if k.idle {
		c.Each("idle", c.scale(16000, 160000), func(r *rand.Rand, i int) { k.runIdle(c, r) })
	}

	// Calls whose arguments look alike when put together.
	var multi []string
	for _, fn := range []string{"concat", "string-match", "replace-regexp-in-string", "substring", "buffer-substring"} {
		if k.of(fn) {
			multi = append(multi, fn)
		}
	}
	if len(multi) > 0 {
		c.Each("alike", c.scale(4000, 40000), func(r *rand.Rand, i int) {
			g := newGen(r)
			b := edlisp.NewBuffer(g.text() + "0123456789 123")
			for _, args := range g.alike(pick(r, multi), b.String()) {
				c.Event("calls with arguments that look alike")
				edlisp.Eval([]edlisp.Value{toReal(args)}, env, b)
			}
			clear(m.shadow)
		})
	}

	// Whole scripts, through the library, unobserved.
	c.Each("script", c.scale(16000, 160000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		prog := g.program(model.NewState(text), 1+g.n(9), k.fns, false)
		c.checkScript(r, text, prog, pick(r, []string{"shell", "sexp", "json"}))
	})
}

// runIdle compares a program with the same program with idle calls in between.
func (k *core) runIdle(c *Ctx, r *rand.Rand) {
	g := newGen(r)
	text := g.text()
	var prog []val
	size := len(text)
	if size > 2 && g.one(2) { // the text loses the place the mark is at, and grows again
		prog = append(prog, model.Cmd("goto-char", model.N(float64(size-g.n(size/2)))), model.Cmd(pick(r, []string{"set-mark", "set-mark-command"})))
		if g.one(2) {
			prog = append(prog, model.Cmd("mark-whole-buffer"), model.Cmd("exchange-point-and-mark"))
		}
		prog = append(prog, model.Cmd("goto-char", model.N(float64(1+g.n(size/2)))))
		prog = append(prog, model.Cmd("delete-char", model.N(float64(size-g.n(size/3+1)))))
		prog = append(prog, model.Cmd("insert", model.S(strings.Repeat("x\n", g.n(size)))))
		prog = append(prog, model.Cmd(pick(r, []string{"mark", "exchange-point-and-mark", "region-beginning", "region-end", "delete-region"})))
	}
	prog = append(prog, g.program(model.NewState(text), 1+g.n(8), []string{"replace-match", "mark", "exchange-point-and-mark"}, true)...)
	env := edlisp.NewDefaultEnvironment()
	step := func(b *edlisp.Buffer, e val) string {
		v, err := edlisp.Eval([]edlisp.Value{toReal(e)}, env, b)
		if err != nil {
			return fmt.Sprintf("error, point %d mark %d text %s", b.Point(), b.Mark(), q(b.String()))
		}
		return fmt.Sprintf("value %v point %d mark %d text %s", fromReal(v), b.Point(), b.Mark(), q(b.String()))
	}
	quiet := func(b *edlisp.Buffer, e val) { edlisp.Eval([]edlisp.Value{toReal(e)}, env, b) }
	plain, busy := edlisp.NewBuffer(text), edlisp.NewBuffer(text)
	var all []val
	for at, e := range prog {
		for j := g.n(3); j > 0; j-- {
			st := model.State{Text: busy.String(), Point: busy.Point(), RawMark: 1}
			if st.Point < 1 || st.Point > st.Max() || len(st.Text) > 100000 {
				return
			}
			call := g.call(pick(r, k.fns), &st, 0)
			all = append(all, call)
			c.Event("idle calls in between")
			quiet(busy, call)
		}
		all = append(all, e)
		if at < len(prog)-1 && g.n(3) > 0 { // (looking at the buffers is a kind of query, too)
			quiet(plain, e)
			quiet(busy, e)
			continue
		}
		if want, got := step(plain, e), step(busy, e); want != got {
			c.Fail("idle", "calls that should change nothing do: %s gives %s, without them %s\n text %s program %s", model.Sexp(e), got, want, q(text), clip(model.Sexp(model.L(all...)), 1500))
			return
		}
	}
	c.Eval(text + model.Sexp(model.L(all...)))
}

// checkScript runs a program as a script and compares the outcome with the model.
func (c *Ctx) checkScript(r *rand.Rand, text string, prog []val, format string) {
	script := rend{r}.script(prog, format)
	var got string
	var err error
	if r.Intn(2) == 0 && (format != "json" || strings.HasPrefix(strings.TrimSpace(script), "[")) {
		got, err = texted.ExecuteScript(text, script)
	} else {
		got, err = texted.ExecuteScriptWithFormat(text, script, format)
	}
	c.Eval(text + "\x00" + script)
	c.Event("scripts run")
	if err != nil {
		c.Event("scripts that failed")
	}
	if d := scriptDiff(text, prog, got, err); d != "" {
		c.Fail("script", "%s\n text %s\n %s script %s", d, q(text), format, clip(fmt.Sprintf("%q", script), 800))
	}
}

// evalPolicies evaluates under both admissible policies for a mark beyond the
// end of a text that shrank (see obs.markOK).
func evalPolicies(prog []val, st model.State) []model.Outcome {
	a := model.Eval(prog, st, nil)
	eager := model.Env{}
	for fn := range model.Sigs {
		eager[fn] = func(args []val, s *model.State) (val, model.ErrKind) {
			v, e := model.Call(fn, args, s)
			s.RawMark = s.Mark()
			return v, e
		}
	}
	b := model.Eval(prog, st, eager)
	if b.State.Text == a.State.Text && b.Err == a.Err && model.Same(a.Val, b.Val) && b.Index == a.Index && a.State.Point == b.State.Point {
		return []model.Outcome{a}
	}
	return []model.Outcome{a, b}
}

func scriptDiff(text string, prog []val, got string, err error) string {
	d := ""
	for _, o := range evalPolicies(prog, model.NewState(text)) {
		d = ""
		switch {
		case o.Err == "" && err != nil:
			d = fmt.Sprintf("script fails with %q; want result %s", clip(err.Error(), 300), q(o.State.Text))
		case o.Err != "" && err == nil:
			d = fmt.Sprintf("script gives %s; want an error (%s at instruction %d)", q(got), o.Err, o.Index)
		case o.Err == "" && got != o.State.Text:
			d = fmt.Sprintf("script gives %s; want %s", q(got), q(o.State.Text))
		case o.Err != "" && got != "":
			d = fmt.Sprintf("script fails and gives %s", q(got))
		}
		if d == "" {
			return ""
		}
	}
	return d
}

var (
	moveFns   = []string{"forward-char", "backward-char", "forward-word", "backward-word", "beginning-of-line", "end-of-line", "goto-line", "goto-char", "beginning-of-buffer", "end-of-buffer"}
	editFns   = []string{"insert", "delete-char", "delete-backward-char", "kill-word", "backward-kill-word", "kill-line", "delete-line"}
	searchFns = []string{"search-forward", "search-backward", "re-search-forward", "re-search-backward"}
	markFns   = []string{"set-mark", "set-mark-command", "mark-word", "mark-line", "mark-whole-buffer", "exchange-point-and-mark", "delete-region", "replace-region"}
	queryFns  = []string{"point", "mark", "point-min", "point-max", "current-column", "line-number-at-pos", "buffer-size", "buffer-substring", "region-beginning", "region-end"}
	stringFns = []string{"concat", "length", "substring", "upcase", "downcase", "capitalize", "replace-regexp-in-string"}
	patFns    = []string{"looking-at", "looking-back", "string-match"}
)

const coreRule = "a case is one call: (function, arguments, text, point, mark) as observed by the monitor; non-trivial and distinct if that tuple differs. Calls come from all small texts x positions x argument lists, from random state-aware programs, from texts up to 400 KB, and from whole scripts run through the library."

func floors(fns []string, each int64) map[string]int64 {
	m := map[string]int64{"scripts run": 5000}
	for _, f := range fns {
		m["calls of "+f] = each
	}
	return m
}

func init() {
	reg := func(id string, k *core) {
		Props[id] = &Prop{Run: k.run, Rule: coreRule, Floors: floors(k.fns, 1000)}
	}
	reg("P01", &core{fns: moveFns})
	reg("P02", &core{fns: editFns})
	reg("P04", &core{fns: searchFns})
	reg("P06", &core{fns: markFns, marks: true})
	reg("P07", &core{fns: queryFns, marks: true, idle: true})
	reg("P08", &core{fns: stringFns, idle: true})
	reg("P09", &core{fns: patFns, idle: true})

	k3 := &core{fns: allFns, judge: func(o *obs) string {
		size := len(o.text)
		if o.point < 1 || o.point > size+1 {
			return fmt.Sprintf("point %d outside 1..%d", o.point, size+1)
		}
		if o.mark < 1 || o.mark > size+1 {
			return fmt.Sprintf("mark %d outside 1..%d", o.mark, size+1)
		}
		return ""
	}}
	Props["P03"] = &Prop{Run: k3.runBounds, Rule: coreRule, Floors: floors(allFns, 500)}
	Props["P05"] = &Prop{Run: runP05, Rule: "a case is a text, a search and the edits before replace-match; the monitor judges every replace-match call from the observed state and the shadowed last match", Floors: map[string]int64{"calls of replace-match": 20000, "replaced": 5000, "stale match refused": 500}}
	Props["P10"] = &Prop{Run: runP10, Rule: "a case is a call (function, argument kinds, state); all functions with every arity 0..5 and every combination of kinds for the first three arguments, plus random nested calls", Floors: map[string]int64{"bad calls refused": 20000, "good calls accepted": 1000}}
	Props["P20"] = &Prop{Run: runP20, Rule: "a case is a valid UTF-8 text and a program of operations that work on whole characters; non-trivial if the text has multi-byte characters and the program edits it", Floors: map[string]int64{"edits of multi-byte text": 20000}}
}

func (k *core) runBounds(c *Ctx) {
	k.run(c)
	// Buffers set up through the programming interface, with any position.
	c.Each("api", c.scale(4000, 40000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		b := edlisp.NewBuffer(text)
		for j := 0; j < 12; j++ {
			switch g.n(6) {
			case 0:
				b.SetPoint(model.Int(g.num(len(b.String()))))
			case 1:
				b.SetMark(model.Int(g.num(len(b.String()))))
			case 2:
				b.Insert(g.str())
			default:
				st := model.State{Text: b.String(), Point: b.Point(), RawMark: b.Mark()}
				if st.Point < 1 || st.Point > st.Max() {
					break
				}
				edlisp.Eval([]edlisp.Value{toReal(g.call(pick(r, allFns), &st, 1))}, edlisp.NewDefaultEnvironment(), b)
			}
			size := len(b.String())
			c.Event("positions checked")
			if b.Point() < 1 || b.Point() > size+1 || b.Mark() < 1 || b.Mark() > size+1 {
				c.Fail("bounds", "point %d mark %d, text of %d bytes (initially %s)", b.Point(), b.Mark(), size, q(text))
				return
			}
			if len(b.String()) > 1_000_000 {
				return
			}
		}
		c.Eval(text + fmt.Sprint(i))
	})
}

// runP05: replace-match replaces the text that was matched, or nothing.
func runP05(c *Ctx) {
	failed := 0
	m := newMon(nil)
	m.on = func(o *obs) {
		if o.fn != "replace-match" {
			return
		}
		c.EvalH(obsHash(o) ^ uint64(o.pre.MatchStart)<<32 ^ hash(o.pre.Match))
		c.Event("calls of replace-match")
		switch {
		case o.wantE == model.EStale:
			c.Event("stale match refused")
		case o.wantE == model.ENoMatch:
			c.Event("no match refused")
		default:
			c.Event("replaced")
		}
		if d := o.check(); d != "" {
			failed++
			if failed <= 5 {
				c.Fail("call", "%s: %s", d, o)
			}
		}
	}
	env := m.env()
	between := []string{"insert", "delete-char", "delete-backward-char", "delete-region", "kill-word", "kill-line", "delete-line", "replace-region", "set-mark", "goto-char", "forward-char", "backward-char", "search-forward", "re-search-forward", "search-backward", "re-search-backward", "looking-at", "string-match", "replace-match", "beginning-of-buffer", "end-of-buffer", "backward-kill-word", "replace-regexp-in-string", "buffer-substring"}
	c.Each("prog", c.scale(120000, 1200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		st := model.NewState(text)
		b := edlisp.NewBuffer(text)
		var prog []val
		do := func(fn string) {
			e := g.call(fn, &st, 1)
			prog = append(prog, e)
			edlisp.Eval([]edlisp.Value{toReal(e)}, env, b)
			st = m.pre(b)
			if st.Point < 1 || st.Point > st.Max() {
				st.Point = 1
			}
		}
		for round := 1 + g.n(3); round > 0; round-- {
			if g.n(8) > 0 {
				do(pick(r, searchFns))
			}
			for j := g.n(4); j > 0 && g.n(2) == 0; j-- {
				do(pick(r, between))
			}
			do("replace-match")
			if g.one(3) { // once more: the match is gone, unless it was replaced by itself
				do("replace-match")
			}
		}
		clear(m.shadow)
		if i < 2 {
			c.Sample("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 400))
		}
	})
	c.Each("large", c.scale(100, 1000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.big = true
		text := g.text()
		for len(text) < 5000 {
			text += g.text() + pick(r, []string{"\n", " "})
		}
		b := edlisp.NewBuffer(text)
		for j := 0; j < 25; j++ {
			b.SetPoint(1 + g.n(len(b.String())+1))
			for _, fn := range []string{pick(r, searchFns), "replace-match"} {
				st := m.pre(b)
				if st.Point < 1 || st.Point > st.Max() || len(st.Text) > 400_000 {
					return
				}
				edlisp.Eval([]edlisp.Value{toReal(g.call(fn, &st, 0))}, env, b)
			}
		}
		clear(m.shadow)
	})
	c.Each("script", c.scale(16000, 160000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		prog := g.program(model.NewState(text), 2+g.n(9), append([]string{"replace-match", "replace-match", "replace-match"}, searchFns...), false)
		c.checkScript(r, text, prog, pick(r, []string{"shell", "sexp", "json"}))
	})
}

// runP10: wrong arguments are refused, and leave no trace.
func runP10(c *Ctx) {
	sample := func(k int, r *rand.Rand, st *model.State) val {
		switch k {
		case 0:
			return model.S(pick(r, []string{"", "a", "foo", "x*", "(", "é", "\n"}))
		case 1:
			return model.N(pick(r, []float64{0, 1, 2, -1, 3, 1.5, 1e18}))
		case 2:
			return model.Y(pick(r, []string{"t", "nil", "x", "insert"}))
		default:
			return pick(r, []val{model.L(), model.L(model.Y("point")), model.L(model.S("a"))})
		}
	}
	judge := func(fn string, args []val, b *edlisp.Buffer, f edlisp.BuiltinFn) {
		text, point, mark := b.String(), b.Point(), b.Mark()
		v, err := f(toRealAll(args), b)
		bad := model.CheckArgs(fn, args)
		desc := func() string {
			return fmt.Sprintf("%s on text %s point %d mark %d", clip(model.Sexp(model.Cmd(fn, args...)), 300), q(text), point, mark)
		}
		if bad != "" {
			c.Event("bad calls refused")
			if err == nil {
				c.Fail("accepted", "wrong arguments (%s) are accepted, value %v: %s", bad, fromReal(v), desc())
			}
			if b.String() != text || b.Point() != point || b.Mark() != mark {
				c.Fail("trace", "refused call changes the state to text %s point %d mark %d: %s", q(b.String()), b.Point(), b.Mark(), desc())
			}
			return
		}
		// In order: refused only for a reason other than the arguments.
		st := model.State{Text: text, Point: point, RawMark: mark}
		_, want := model.Call(fn, args, &st)
		if want == "" {
			c.Event("good calls accepted")
			if err != nil {
				c.Fail("refused", "correct arguments are refused: %v: %s", err, desc())
			}
		}
	}
	env := edlisp.NewDefaultEnvironment()
	// every function, arity 0..5, kinds of the first three arguments
	type combo struct {
		fn    string
		kinds []int
	}
	var combos []combo
	for _, fn := range allFns {
		combos = append(combos, combo{fn, nil})
		for n := 1; n <= 5; n++ {
			total := 1
			for i := 0; i < min(n, 3); i++ {
				total *= 4
			}
			for k := 0; k < total; k++ {
				ks := make([]int, n)
				for i, x := 0, k; i < n; i++ {
					ks[i] = x % 4
					x /= 4
				}
				combos = append(combos, combo{fn, ks})
			}
		}
	}
	c.Each("kinds", len(combos), func(r *rand.Rand, i int) {
		cb := combos[i]
		f := env.Functions[cb.fn]
		if f == nil {
			c.Fail("missing", "function %s does not exist", cb.fn)
			return
		}
		for rep := 0; rep < c.scale(40, 200); rep++ {
			g := newGen(r)
			text := g.text()
			st := model.NewState(text)
			args := make([]val, len(cb.kinds))
			for j, k := range cb.kinds {
				args[j] = sample(k, r, &st)
			}
			b := buffer(text, 1+g.n(len(text)+1), 1+g.n(len(text)+1))
			c.Eval(cb.fn + fmt.Sprint(args) + text)
			judge(cb.fn, args, b, f)
		}
	})
	// long argument lists
	c.Each("many", len(allFns), func(r *rand.Rand, i int) {
		fn := allFns[i]
		for _, n := range []int{6, 7, 8, 16, 17, 64, 100, 255, 256, 257, 1000} {
			for k := 0; k < 3; k++ {
				args := make([]val, n)
				for j := range args {
					args[j] = sample(k%2, r, nil)
				}
				if k == 2 {
					args[n-1] = model.N(1)
				}
				b := buffer("foo bar\nbaz", 3, 5)
				c.Eval(fmt.Sprint(fn, n, k))
				judge(fn, args, b, env.Functions[fn])
			}
		}
	})
	// a script with a bad call fails, wherever it is, and the file stays as it is
	c.Each("script", c.scale(12000, 100000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		st := model.NewState(text)
		prog := g.program(st, g.n(5), nil, false)
		o := model.Eval(prog, st, nil)
		if o.Err != "" {
			return
		}
		fn := pick(r, allFns)
		bad := g.call(fn, &o.State, 1)
		switch g.n(3) {
		case 0:
			bad.L = append(bad.L, sample(g.n(2), r, nil))
		case 1:
			if len(bad.L) > 1 {
				bad.L = bad.L[:len(bad.L)-1]
			}
		default:
			if len(bad.L) > 1 {
				j := 1 + g.n(len(bad.L)-1)
				if bad.L[j].K == model.Num {
					bad.L[j] = model.S("3")
				} else {
					bad.L[j] = model.N(3)
				}
			}
		}
		prog = append(prog, bad)
		prog = append(prog, g.program(o.State, g.n(3), nil, true)...)
		o = model.Eval(prog, st, nil)
		if o.Err == model.EArity || o.Err == model.EType {
			c.Event("scripts with a bad call")
		}
		c.checkScript(r, text, prog, pick(r, []string{"shell", "sexp", "json"}))
	})
}

// Operations that never split a character.
var wholeFns = []string{"insert", "search-forward", "search-backward", "re-search-forward", "re-search-backward", "replace-match", "kill-word", "backward-kill-word", "kill-line", "delete-line", "forward-word", "backward-word", "beginning-of-line", "end-of-line", "goto-line", "beginning-of-buffer", "end-of-buffer", "mark-word", "mark-line", "mark-whole-buffer", "set-mark", "exchange-point-and-mark", "delete-region", "replace-region", "upcase", "downcase", "capitalize", "replace-regexp-in-string", "concat", "looking-at", "string-match", "looking-back"}

var textEdits = map[string]bool{"insert": true, "replace-match": true, "kill-word": true, "backward-kill-word": true, "kill-line": true, "delete-line": true, "delete-region": true, "replace-region": true}

// runP20: valid UTF-8 stays valid.
func runP20(c *Ctx) {
	usesMark := map[string]bool{"delete-region": true, "replace-region": true, "exchange-point-and-mark": true}
	env := edlisp.NewDefaultEnvironment()
	multi := []string{"é", "日本語", "🙂", "ß", "naïve", "Ünï", "e\u0301", "İ", "ǆ", "\u2028", "foo", "bar baz", "x\n", "\n", " ", "-", "жук", "ﬁ", "a"}
	c.Each("prog", c.scale(120000, 1200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad = true
		text := ""
		for j := g.n(12); j >= 0; j-- {
			text += pick(r, multi)
		}
		if g.one(10) {
			text = g.text()
		}
		lossy := strings.Contains(text, "\ufffd") // whether U+FFFD may be in the text
		st := model.NewState(text)
		b := edlisp.NewBuffer(text)
		markFresh := true // the mark was set after the last edit
		var prog []val
		for j := 0; j < 1+i%9; j++ {
			fn := pick(r, wholeFns)
			if usesMark[fn] && !markFresh {
				prog = append(prog, model.Cmd("set-mark"))
				edlisp.Eval([]edlisp.Value{toReal(model.Cmd("set-mark"))}, env, b)
				fn = pick(r, []string{"forward-word", "end-of-line", "beginning-of-line", "end-of-buffer", "search-forward"})
				markFresh = true
			}
			st.Text, st.Point = b.String(), b.Point()
			if st.Point < 1 || st.Point > len(st.Text)+1 {
				return
			}
			e := g.call(fn, &st, 0)
			if !lossy && g.one(6) { // put into the text what the function makes of a string
				e = model.Cmd(pick(r, []string{"capitalize", "upcase", "downcase", "concat"}), model.S(pick(r, multi)+pick(r, multi)))
				e = model.Cmd("insert", e)
				fn = "insert"
			}
			prog = append(prog, e)
			v, err := edlisp.Eval([]edlisp.Value{toReal(e)}, env, b)
			after := b.String()
			if err == nil && !utf8.ValidString(after) {
				c.Fail("utf8", "the text becomes invalid UTF-8: %s -> %s by %s, point was %d, mark was %d\n initial text %s program %s", q(st.Text), q(after), model.Sexp(e), st.Point, st.RawMark, q(text), model.Sexp(model.L(prog...)))
				return
			}
			lossy = lossy || strings.Contains(model.Sexp(e), "\ufffd") || strings.Contains(model.Sexp(e), "\\x")
			if err == nil && !lossy && strings.Contains(after, "\ufffd") {
				c.Fail("utf8", "a character is lost: %s -> %s by %s, point was %d, mark was %d\n initial text %s program %s", q(st.Text), q(after), model.Sexp(e), st.Point, st.RawMark, q(text), model.Sexp(model.L(prog...)))
				return
			}
			if p := b.Point(); p >= 1 && p <= len(after) && !utf8.RuneStart(after[p-1]) {
				c.Fail("split", "point %d is inside a character: %s after %s; initial text %s program %s", p, q(after), model.Sexp(e), q(text), model.Sexp(model.L(prog...)))
				return
			}
			if s, ok := v.(*edlisp.String); err == nil && ok && !utf8.ValidString(s.Value) {
				c.Fail("utf8 value", "value is invalid UTF-8: %s from %s", q(s.Value), model.Sexp(e))
				return
			}
			st.RawMark = b.Mark()
			if after != st.Text {
				markFresh = false
				if len(st.Text) != utf8.RuneCountInString(st.Text) {
					c.Event("edits of multi-byte text")
				}
			}
			if err == nil && strings.HasPrefix(fn, "mark-") || fn == "set-mark" {
				markFresh = true
			}
			if err == nil && fn == "search-forward" {
				st.Match = "x"
			}
		}
		c.Eval(text + model.Sexp(model.L(prog...)))
		if i < 2 {
			c.Sample("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 400))
		}
	})
}
