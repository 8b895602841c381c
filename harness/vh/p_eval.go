package main

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/model"
)

// event is one call of an instrumented function.
type event struct {
	fn   string
	args string
	st   string
}

var customNames = []string{"f0", "f1", "f2", "f3", "f4", "f5"}

// customResult is what an instrumented function does: it returns a value that
// depends on its arguments and on how many calls came before, or fails.
func customResult(fn string, n int, args []val, failAt int) (val, model.ErrKind) {
	if n == failAt {
		return val{}, model.ECustom
	}
	switch fn {
	case "f0":
		return model.S(fmt.Sprintf("r%d", n)), ""
	case "f1":
		if n%5 == 4 {
			return model.N([]float64{0, -1, math.Inf(1)}[n%3]), ""
		}
		return model.N(float64(n) + 0.5), ""
	case "f2":
		return model.Y([]string{"t", "nil", "t", "sym", "nil", "false", ""}[n%7]), ""
	case "f3":
		return model.L(append([]val{model.N(float64(n))}, args...)...), ""
	case "f4":
		if len(args) > 0 {
			return args[len(args)-1], ""
		}
		return model.S(""), ""
	}
	return model.S(strings.Repeat("x", len(args))), ""
}

func (g *gen) customExpr(depth int) val {
	switch k := g.n(10); {
	case k < 2:
		return model.S(g.str())
	case k < 3:
		return model.N(g.num(5))
	case k == 3 && g.one(30):
		return model.Y(pick(g.r, []string{"nil", "t", "sym", "f0", "point", "insert", "true", "false", "else", ":key", "&rest", "#t", "null", "x1", "'a"}))
	case k == 3 && g.one(40):
		return pick(g.r, []val{model.Y("sym"), model.L(), model.L(model.S("a")), model.Cmd("no-such-function", model.S("x")), model.L(model.N(1), model.N(2)), model.L(model.L(model.Y("f0")))})
	case depth == 0:
		return model.Cmd(pick(g.r, customNames))
	}
	c := model.Cmd(pick(g.r, customNames))
	if g.one(12) {
		c = model.Cmd(pick(g.r, []string{"insert", "point", "concat", "forward-char", "length", "upcase"}))
	}
	n := g.n(4)
	if g.one(30) {
		n = g.n(40)
		depth = 1
	}
	for i := 0; i < n; i++ {
		c.L = append(c.L, g.customExpr(depth-1))
	}
	return c
}

var errCustom = errors.New("custom failure")

// runP12: order, exactly once, halt at the first failure, value of the last.
func runP12(c *Ctx) {
	all := append(append([]string{}, customNames...), allFns...)
	some := append(append([]string{}, customNames...), "insert", "point", "concat", "forward-char", "length", "upcase")
	one := func(g *gen, prog []val, text string, failAt int, watch []string) {
		var got, want []event
		n := 0
		rec := func(list *[]event, fn string, args []val, text string, point int) {
			*list = append(*list, event{fn, model.Sexp(model.L(args...)), fmt.Sprint(point, text)})
		}
		env := edlisp.NewDefaultEnvironment()
		menv := model.Env{}
		for _, fn := range watch {
			orig := env.Functions[fn]
			env.Functions[fn] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
				margs := fromRealAll(args)
				rec(&got, fn, margs, b.String(), b.Point())
				n++
				if orig != nil {
					return orig(args, b)
				}
				v, e := customResult(fn, n-1, margs, failAt)
				if e != "" {
					return nil, errCustom
				}
				return toReal(v), nil
			}
		}
		mn := 0
		for _, fn := range watch {
			menv[fn] = func(args []val, s *model.State) (val, model.ErrKind) {
				rec(&want, fn, args, s.Text, s.Point)
				mn++
				if _, ok := model.Sigs[fn]; ok {
					return model.Call(fn, args, s)
				}
				return customResult(fn, mn-1, args, failAt)
			}
		}
		b := edlisp.NewBuffer(text)
		conv := toRealAll
		if g.one(4) {
			conv = toRealShared
		}
		v, err := edlisp.Eval(conv(prog), env, b)
		o := model.Eval(prog, model.NewState(text), menv)
		c.EventN("calls observed", int64(len(got)))
		if err != nil {
			c.Event("executions that failed")
		} else {
			c.Event("executions that succeeded")
		}
		desc := func() string {
			return fmt.Sprintf("program %s (call %d fails) on text %s", clip(model.Sexp(model.L(prog...)), 800), failAt, q(text))
		}
		for i := 0; i < max(len(got), len(want)); i++ {
			if i >= len(got) || i >= len(want) || got[i] != want[i] {
				g, w := "nothing", "nothing"
				if i < len(got) {
					g = fmt.Sprint(got[i])
				}
				if i < len(want) {
					w = fmt.Sprint(want[i])
				}
				c.Fail("order", "call %d is %s, want %s: %s", i, clip(g, 300), clip(w, 300), desc())
				return
			}
		}
		if (err != nil) != (o.Err != "") {
			c.Fail("outcome", "error is %v, want %q: %s", err, o.Err, desc())
			return
		}
		if err == nil && !model.Same(fromReal(v), o.Val) {
			c.Fail("value", "value %s, want that of the last instruction, %s: %s", clip(fromReal(v).String(), 300), clip(o.Val.String(), 300), desc())
		}
		if b.String() != o.State.Text || b.Point() != o.State.Point {
			c.Fail("state", "state %s point %d, want %s point %d: %s", q(b.String()), b.Point(), q(o.State.Text), o.State.Point, desc())
		}
		if o.Err == model.ECustom && !errors.Is(err, errCustom) {
			c.Fail("cause", "the error %v hides the cause: %s", err, desc())
		}
	}
	c.Each("custom", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		g := newGen(r)
		n := 1 + g.n(6)
		if g.one(100) {
			n = 100 + g.n(400)
		}
		var prog []val
		for j := 0; j < n; j++ {
			prog = append(prog, g.customExpr(4))
		}
		failAt := -1
		if g.one(2) {
			failAt = g.n(4 * n)
		}
		c.Eval(fmt.Sprint(model.Sexp(model.L(prog...)), failAt))
		one(g, prog, g.text(), failAt, some)
		if i < 2 {
			c.Sample("program %s", clip(model.Sexp(model.L(prog...)), 400))
		}
	})
	// every builtin observed; arguments too many, which are evaluated all the same
	c.Each("builtins", c.scale(30000, 300000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		st := model.NewState(text)
		prog := g.program(st, 1+g.n(6), nil, true)
		if g.one(3) && len(prog) > 0 {
			k := g.n(len(prog))
			surplus := func(v val) val {
				v.L = append(append([]val(nil), v.L...), pick(r, []val{g.nested(model.Num, &st, 1), g.nested(model.Str, &st, 1), model.I(1), model.S("x"), model.Cmd("insert", model.S("surplus")), model.Cmd("f0"), model.Cmd("forward-char")}))
				return v
			}
			e := model.L(prog[k].L...)
			if e.L = append([]val(nil), e.L...); g.one(2) && e.L[len(e.L)-1].K == model.List {
				e.L[len(e.L)-1] = surplus(e.L[len(e.L)-1])
			} else {
				e = surplus(e)
			}
			prog[k] = e
			c.Event("calls with an argument too many")
		}
		failAt := -1
		if g.one(4) {
			failAt = 0
		}
		c.Eval(text + "\x00" + model.Sexp(model.L(prog...)))
		one(g, prog, text, failAt, all)
	})
	// deep and wide programs
	c.Each("shape", c.scale(60, 300), func(r *rand.Rand, i int) {
		g := newGen(r)
		var prog []val
		switch i % 3 {
		case 0: // deep
			e := model.Cmd("f0")
			for d := pick(r, []int{3, 10, 64, 100, 128, 256, 1000, 1024, 5000}); d > 0; d-- {
				e = model.Cmd(pick(r, []string{"f4", "f3", "f0"})[:2], model.S("a"), e)
				if e.L[0].S == "f3" && d > 20 {
					e.L[0].S = "f4"
				}
			}
			prog = []val{e}
		case 1: // wide
			e := model.Cmd("f5")
			for w := pick(r, []int{10, 64, 255, 256, 1000, 5000}); w > 0; w-- {
				e.L = append(e.L, g.customExpr(1))
			}
			prog = []val{e}
		default: // long
			for w := pick(r, []int{100, 1000, 1024, 4096, 10000}); w > 0; w-- {
				prog = append(prog, g.customExpr(1))
			}
		}
		failAt := -1
		if g.one(2) {
			failAt = g.n(3000)
		}
		c.Eval(fmt.Sprint("shape", i))
		one(g, prog, "abc", failAt, some)
	})
	// long programs that succeed, or fail late
	c.Each("long", c.scale(80, 400), func(r *rand.Rand, i int) {
		g := newGen(r)
		n := pick(r, []int{200, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2000, 4096, 5000, 10000})
		if i%2 == 0 {
			var prog []val
			for j := 0; j < n; j++ {
				e := model.Cmd(pick(r, customNames), model.N(float64(j)))
				if g.one(4) {
					e = model.Cmd(pick(r, customNames), e, model.S("x"))
				}
				prog = append(prog, e)
			}
			failAt := -1
			if g.one(3) {
				failAt = n - g.n(20)
			}
			c.Eval(fmt.Sprint("long", i))
			c.EventN("instructions of long programs", int64(n))
			one(g, prog, "abc", failAt, some)
			return
		}
		if n > 1025 {
			n = 1025 + g.n(1000)
		}
		prog := g.long(n)
		c.EventN("instructions of long programs", int64(n))
		if model.Eval(prog, model.NewState("abc\n"), nil).Err == "" {
			c.Event("long programs that succeed")
		}
		c.checkEval("abc\n", prog)
		g.noBad, g.jsonOK = true, true
		c.checkScript(r, "abc\n", prog, pick(r, []string{"shell", "sexp", "json"}))
	})
	c.Each("builtin", c.scale(30000, 300000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		prog := g.program(model.NewState(text), 1+g.n(10), nil, g.one(3))
		c.checkEval(text, prog)
	})
	c.Each("script", c.scale(12000, 100000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		st := model.NewState(text)
		prog := g.program(st, 2+g.n(8), nil, false)
		if g.one(2) { // a failure somewhere, effects after it must not show
			bad := pick(r, []val{model.Cmd(g.unknown()), model.Cmd("search-forward", model.S("\u0001never\u0001")), model.Cmd("insert", model.Cmd("undefined"))})
			at := g.n(len(prog) + 1)
			prog = append(prog[:at:at], append([]val{bad}, prog[at:]...)...)
		}
		c.checkScript(r, text, prog, pick(r, []string{"shell", "sexp", "json"}))
	})
}

// checkEval runs a program through the evaluator and compares everything
// visible with the model.
func (c *Ctx) checkEval(text string, prog []val) {
	b := edlisp.NewBuffer(text)
	v, err := edlisp.Eval(toRealAll(prog), edlisp.NewDefaultEnvironment(), b)
	c.Eval(text + "\x00" + model.Sexp(model.L(prog...)))
	d := ""
	for _, o := range evalPolicies(prog, model.NewState(text)) {
		d = ""
		switch {
		case (err != nil) != (o.Err != ""):
			d = fmt.Sprintf("error %v, want %q", err, o.Err)
		case err == nil && !model.Same(fromReal(v), o.Val):
			d = fmt.Sprintf("value %v, want %v", fromReal(v), o.Val)
		case b.String() != o.State.Text || b.Point() != o.State.Point:
			d = fmt.Sprintf("text %s point %d, want %s point %d", q(b.String()), b.Point(), q(o.State.Text), o.State.Point)
		}
		if d == "" {
			return
		}
	}
	c.Fail("eval", "%s: text %s program %s", d, q(text), clip(model.Sexp(model.L(prog...)), 1000))
}

// runP13: an error report states what really happened.
func runP13(c *Ctx) {
	c.Each("report", c.scale(80000, 800000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		if i%4000 == 0 && text != "" { // larger than any buffer for it
			text = strings.Repeat(text, 1+(70000+g.n(100000))/len(text))
			g.plain = true
		}
		st := model.NewState(text)
		n := g.n(10)
		if g.one(100) && i%4000 != 0 {
			n = 100 + g.n(300)
		}
		prog := g.program(st, n, []string{"search-forward", "re-search-forward", "replace-match", "set-mark", "delete-region"}, false)
		o := model.Eval(prog, st, nil)
		if o.Err == "" { // make it fail
			bad := pick(r, []val{
				model.Cmd("search-forward", model.S("\u0001never\u0001")), model.Cmd(g.unknown(), model.S("x")),
				model.Cmd("re-search-forward", model.S("(")), model.Cmd("insert"), model.Cmd("goto-char", model.S("x")),
				model.Cmd("boom"), model.Cmd("insert", model.Cmd("boom", model.S("x"))), model.Y("bare"), model.L(), model.L(model.S("head")),
				model.Cmd("concat", model.Cmd("insert", model.S("partial")), model.Cmd("boom")),
				model.Cmd("concat", model.Cmd("forward-char"), model.Cmd("concat", model.Cmd("set-mark"), model.Cmd("boom"))),
				model.Cmd("replace-match", model.N(1)), model.Cmd("concat", model.Cmd("search-forward", model.S(g.part(o.State.Text))), model.Cmd("boom")),
			})
			if len(bad.L) > 0 && bad.L[0].K == model.Sym && g.one(60) { // a large instruction
				bad.L = append([]val(nil), bad.L...)
				for k := pick(r, []int{1, 1, 20, 300, 3000}); k > 0; k-- {
					bad.L = append(bad.L, pick(r, []val{model.S(g.str()), model.N(g.num(9)), model.S(strings.Repeat(pick(r, wordsA), 1+g.n(3000/k+20)))}))
				}
				c.Event("large instructions that fail")
			}
			prog = append(prog, bad)
			prog = append(prog, g.program(o.State, g.n(3), nil, true)...)
		}
		cause := fmt.Errorf("boom %d", i)
		switch g.n(8) { // functions may execute programs of their own
		case 0:
			_, cause = edlisp.Eval(toRealAll([]val{model.Cmd("point"), model.Cmd("search-forward", model.S("\u0001inner\u0001"))}), edlisp.NewDefaultEnvironment(), edlisp.NewBuffer("inner"))
		case 1:
			_, cause = edlisp.Eval(toRealAll([]val{model.Cmd("nope")}), edlisp.NewDefaultEnvironment(), edlisp.NewBuffer("inner"))
			cause = fmt.Errorf("wrapped: %w", cause)
		}
		env := edlisp.NewDefaultEnvironment()
		var lastErr error // what the failing function returned
		for name, f := range env.Functions {
			env.Functions[name] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
				v, err := f(args, b)
				if err != nil {
					lastErr = err
				}
				return v, err
			}
		}
		env.Functions["boom"] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) { lastErr = cause; return nil, cause }
		menv := model.Env{"boom": func([]val, *model.State) (val, model.ErrKind) { return val{}, model.ECustom }}
		o = model.Eval(prog, st, menv)
		if o.Err == "" {
			return
		}
		if g.one(300) { // a failure late in a long program
			prog = append(g.long(100+g.n(2000)), prog...)
			o = model.Eval(prog, st, menv)
			if o.Err == "" {
				return
			}
		}
		rp := toRealAll(prog)
		if g.one(4) {
			rp = toRealShared(prog)
		}
		b := edlisp.NewBuffer(text)
		v, err := edlisp.Eval(rp, env, b)
		c.Eval(text + model.Sexp(model.L(prog...)))
		desc := func() string {
			return fmt.Sprintf("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 800))
		}
		if err == nil {
			c.Fail("none", "no error, want %s at instruction %d: %s", o.Err, o.Index, desc())
			return
		}
		var ee *edlisp.ExecutionError
		if !errors.As(err, &ee) {
			c.Fail("type", "the error %v carries no execution state: %s", err, desc())
			return
		}
		c.Event("error reports checked")
		c.Event("cause: " + string(o.Err))
		bad := func(sig, format string, args ...any) {
			c.Fail(sig, "%s: report %q: %s", fmt.Sprintf(format, args...), clip(err.Error(), 400), desc())
		}
		if v != nil {
			bad("value", "a failed execution has the value %v", v)
		}
		if ee.InstructionIndex != o.Index {
			bad("index", "instruction index %d, want %d", ee.InstructionIndex, o.Index)
			return
		}
		if ee.CurrentInstruction != rp[o.Index] && !model.Same(fromReal(ee.CurrentInstruction), prog[o.Index]) {
			bad("instruction", "instruction %v, want %v", ee.CurrentInstruction, prog[o.Index])
		}
		if len(ee.Program) != len(rp) || !model.SameAll(fromRealAll(ee.Program), prog) {
			bad("program", "program differs")
		}
		if ee.BufferContents != b.String() || ee.Point != b.Point() || ee.Mark != b.Mark() {
			bad("buffer", "reported state %s point %d mark %d, the buffer has %s point %d mark %d", q(ee.BufferContents), ee.Point, ee.Mark, q(b.String()), b.Point(), b.Mark())
		}
		if ee.Environment != env {
			bad("env", "not the environment of the execution")
		}
		// the state at the failure, by the model
		if ee.BufferContents != o.State.Text || ee.Point != o.State.Point {
			bad("state", "reported state %s point %d, want %s point %d", q(ee.BufferContents), ee.Point, q(o.State.Text), o.State.Point)
		}
		if m := o.State.Mark(); ee.Mark != m && ee.Mark != evalPoliciesMark(prog, st) {
			bad("mark", "reported mark %d, want %d", ee.Mark, m)
		}
		if ee.LastSearchMatch != o.State.Match {
			bad("match", "reported last match %s, want %s", q(ee.LastSearchMatch), q(o.State.Match))
		} else if o.State.Match != "" && (ee.LastSearchStart != o.State.MatchStart || ee.LastSearchEnd != o.State.MatchEnd) {
			bad("match", "reported last match at %d-%d, want %d-%d", ee.LastSearchStart, ee.LastSearchEnd, o.State.MatchStart, o.State.MatchEnd)
		}
		// the message names the cause, the place and the state
		msg := err.Error()
		if o.Err == model.ECustom && !errors.Is(err, cause) {
			bad("cause", "hides the cause %v", cause)
		}
		if o.ErrFunc != "" && lastErr != nil {
			if !errors.Is(err, lastErr) {
				bad("cause", "the cause is not the error of the failing function, %v", lastErr)
			}
			if !strings.Contains(msg, lastErr.Error()) {
				bad("message", "the message lacks the cause %q", lastErr)
			}
		}
		if strings.Contains(msg, "(PANIC=") {
			bad("message", "the message cannot be made")
		}
		if ee.OriginalError == nil || !strings.Contains(msg, ee.OriginalError.Error()) {
			bad("message", "the message lacks the original error %v", ee.OriginalError)
		}
		tail := msg
		if ee.OriginalError != nil {
			tail = strings.Replace(msg, ee.OriginalError.Error(), "", 1)
		}
		for what, s := range map[string]string{"instruction index": fmt.Sprint(o.Index), "point": fmt.Sprintf("point=%d", ee.Point), "mark": fmt.Sprintf("mark=%d", ee.Mark), "instruction": fmt.Sprint(rp[o.Index])} {
			if !strings.Contains(tail, s) {
				bad("message", "the message lacks the %s %q", what, clip(s, 200))
			}
		}
		if o.Err == model.EUndef && !strings.Contains(msg, "undefined-function") {
			bad("message", "the message does not say that the function is undefined")
		}
		if i < 2 {
			c.Sample("%s -> %s", desc(), msg)
		}
	})
	// through the library, the same report
	c.Each("library", c.scale(8000, 80000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		st := model.NewState(text)
		prog := g.program(st, g.n(6), nil, false)
		if model.Eval(prog, st, nil).Err == "" {
			prog = append(prog, pick(r, []val{model.Cmd("search-forward", model.S("\u0001never\u0001")), model.Cmd("nope"), model.Cmd("insert", model.N(1))}))
		}
		o := model.Eval(prog, st, nil)
		format := pick(r, []string{"shell", "sexp", "json"})
		script := rend{r}.script(prog, format)
		_, err := texted.ExecuteScriptWithFormat(text, script, format)
		c.Eval(text + script)
		var ee *edlisp.ExecutionError
		switch {
		case err == nil:
			c.Fail("none", "no error: text %s script %q", q(text), script)
		case !errors.As(err, &ee):
			c.Fail("type", "error %v carries no execution state: text %s script %q", err, q(text), script)
		case ee.InstructionIndex != o.Index || ee.BufferContents != o.State.Text || ee.Point != o.State.Point:
			c.Fail("state", "reported instruction %d text %s point %d, want %d %s %d: text %s script %q", ee.InstructionIndex, q(ee.BufferContents), ee.Point, o.Index, q(o.State.Text), o.State.Point, q(text), script)
		default:
			c.Event("library reports checked")
		}
	})
}

func evalPoliciesMark(prog []val, st model.State) int {
	eager := model.Env{}
	for fn := range model.Sigs {
		eager[fn] = func(args []val, s *model.State) (val, model.ErrKind) {
			v, e := model.Call(fn, args, s)
			s.RawMark = s.Mark()
			return v, e
		}
	}
	eager["boom"] = func([]val, *model.State) (val, model.ErrKind) { return val{}, model.ECustom }
	o := model.Eval(prog, st, eager)
	return o.State.Mark()
}

// runP14: the trace tells what was executed, and tracing changes nothing.
func runP14(c *Ctx) {
	c.Each("trace", c.scale(60000, 600000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		if i%4000 == 0 && text != "" {
			text = strings.Repeat(text, 1+(70000+g.n(100000))/len(text))
			g.plain = true
		}
		st := model.NewState(text)
		n := g.n(10)
		if g.one(100) && i%4000 != 0 {
			n = 100 + g.n(400)
		}
		prog := g.program(st, n, nil, g.one(4))
		if g.one(4) {
			prog = append(prog, pick(r, []val{model.S("literal"), model.N(7), model.Cmd(g.unknown()), model.Y("bare")}))
			prog = append(prog, g.program(st, g.n(3), nil, true)...)
		}
		if g.one(300) {
			prog = append(g.long(100+g.n(1500)), prog...)
		}
		rp := toRealAll(prog)
		if g.one(3) {
			rp = toRealShared(prog)
		}
		env := edlisp.NewDefaultEnvironment()
		b := edlisp.NewBuffer(text)
		type step struct {
			ctx         *edlisp.TraceContext
			inst        edlisp.Value
			text        string
			point, mark int
			b           *edlisp.Buffer
			env         *edlisp.Environment
		}
		var steps []step
		v, err := edlisp.EvalWithTrace(rp, env, b, func(ctx *edlisp.TraceContext) {
			steps = append(steps, step{ctx, ctx.Instruction, ctx.Buffer.String(), ctx.Buffer.Point(), ctx.Buffer.Mark(), ctx.Buffer, ctx.Environment})
		})
		c.Eval(text + model.Sexp(model.L(prog...)))
		desc := func() string {
			return fmt.Sprintf("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 800))
		}
		// the same, instruction by instruction, untraced
		b2 := edlisp.NewBuffer(text)
		var v2 edlisp.Value = edlisp.NewString("")
		var err2 error
		k := 0
		for ; k < len(rp); k++ {
			if v2, err2 = edlisp.Eval(rp[k:k+1], env, b2); err2 != nil {
				break
			}
			if k >= len(steps) {
				c.Fail("missing", "%d trace events, instruction %d has none: %s", len(steps), k, desc())
				return
			}
			s := steps[k]
			c.Event("trace events checked")
			if s.inst != rp[k] && !model.Same(fromReal(s.inst), prog[k]) {
				c.Fail("instruction", "trace event %d is for %v, want %v: %s", k, s.inst, rp[k], desc())
				return
			}
			if s.text != b2.String() || s.point != b2.Point() || s.mark != b2.Mark() {
				c.Fail("state", "trace event %d shows %s point %d mark %d, want %s point %d mark %d: %s", k, q(s.text), s.point, s.mark, q(b2.String()), b2.Point(), b2.Mark(), desc())
				return
			}
			if s.ctx.Instruction != s.inst {
				c.Fail("kept", "trace event %d was for %v, and says %v later: %s", k, s.inst, s.ctx.Instruction, desc())
				return
			}
			if s.b != b || s.env != env {
				c.Fail("context", "trace event %d is not about this execution: %s", k, desc())
				return
			}
		}
		if len(steps) != k {
			c.Fail("extra", "%d trace events, want %d: %s", len(steps), k, desc())
		}
		if (err != nil) != (err2 != nil) || err == nil && !model.Same(fromReal(v), fromReal(v2)) || b.String() != b2.String() || b.Point() != b2.Point() {
			c.Fail("outcome", "traced: value %v error %v text %s point %d; untraced: %v %v %s %d: %s", v, err, q(b.String()), b.Point(), v2, err2, q(b2.String()), b2.Point(), desc())
		}
		b3 := edlisp.NewBuffer(text)
		v3, err3 := edlisp.Eval(rp, env, b3)
		if (err != nil) != (err3 != nil) || err != nil && err.Error() != err3.Error() || err == nil && !model.Same(fromReal(v), fromReal(v3)) || b.String() != b3.String() || b.Point() != b3.Point() || b.Mark() != b3.Mark() {
			c.Fail("outcome", "tracing changes the outcome: %v %v %s, without %v %v %s: %s", v, err, q(b.String()), v3, err3, q(b3.String()), desc())
		}
		if err != nil {
			c.Event("failing executions traced")
		}
		// and by the model
		if o := model.Eval(prog, st, nil); len(steps) != len(prog) && o.Err != "" && len(steps) != o.Index {
			c.Fail("count", "%d trace events, want %d: %s", len(steps), o.Index, desc())
		}
		if i < 2 {
			c.Sample("%s: %d trace events", desc(), len(steps))
		}
	})
}

// runP37: executions are deterministic and leave nothing behind.
func runP37(c *Ctx) {
	shared := edlisp.NewDefaultEnvironment() // used by all executions of this worker
	names := sortedKeys(shared.Functions)
	c.Each("twice", c.scale(40000, 400000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		prog := g.program(model.NewState(text), 1+g.n(12), nil, g.one(3))
		if g.one(20) {
			prog = append(prog, model.Cmd(g.unknown(), model.S("x")))
		}
		rp := toRealAll(prog)
		if g.one(4) {
			rp = toRealShared(prog)
		}
		run := func(env *edlisp.Environment) string {
			b := edlisp.NewBuffer(text)
			v, err := edlisp.Eval(rp, env, b)
			e := ""
			if err != nil {
				e = err.Error()
			}
			s := ""
			if v != nil {
				s = fromReal(v).String()
			}
			return fmt.Sprintf("value %s error %q text %q point %d mark %d", s, e, b.String(), b.Point(), b.Mark())
		}
		c.Eval(text + model.Sexp(model.L(prog...)))
		first := run(edlisp.NewDefaultEnvironment())
		desc := func() string {
			return fmt.Sprintf("text %s program %s", q(text), clip(model.Sexp(model.L(prog...)), 600))
		}
		// an unrelated execution in between, on the shared environment
		t2 := g.text()
		p2 := g.program(model.NewState(t2), 1+g.n(6), nil, true)
		b2 := edlisp.NewBuffer(t2)
		for _, e := range p2 {
			edlisp.Eval([]edlisp.Value{toReal(e)}, shared, b2)
		}
		for _, again := range []string{run(shared), run(shared), run(edlisp.NewDefaultEnvironment())} {
			c.Event("repetitions compared")
			if again != first {
				c.Fail("again", "first %s\n again %s: %s\n (in between: %s on %s)", clip(first, 400), clip(again, 400), desc(), clip(model.Sexp(model.L(p2...)), 400), q(t2))
				return
			}
		}
		if !model.SameAll(fromRealAll(rp), prog) {
			c.Fail("program", "the execution changed the program to %v: %s", fromRealAll(rp), desc())
		}
		if i%64 == 0 {
			if got := sortedKeys(shared.Functions); strings.Join(got, " ") != strings.Join(names, " ") {
				c.Fail("env", "executions changed the environment to %v", got)
			}
		}
		// the same result again when evaluated with other buffers alive, in pieces
		a, b := edlisp.NewBuffer(text), edlisp.NewBuffer(text)
		for j := range rp {
			_, e1 := edlisp.Eval(rp[j:j+1], shared, a)
			_, e2 := edlisp.Eval(rp[j:j+1], shared, b)
			if (e1 != nil) != (e2 != nil) || a.String() != b.String() || a.Point() != b.Point() || a.Mark() != b.Mark() {
				c.Fail("buffers", "two buffers diverge at instruction %d: %s %d %d %v / %s %d %d %v: %s", j, q(a.String()), a.Point(), a.Mark(), e1, q(b.String()), b.Point(), b.Mark(), e2, desc())
				return
			}
		}
		if i < 2 {
			c.Sample("%s -> %s", desc(), first)
		}
	})
	// executions that resemble earlier ones, but are not the same
	c.Each("alike", c.scale(8000, 80000), func(r *rand.Rand, i int) {
		g := newGen(r)
		text := g.text()
		prog := g.program(model.NewState(text), 1+g.n(6), nil, g.one(3))
		for j := 0; j < 6; j++ {
			c.Event("executions that resemble earlier ones")
			c.checkEval(text, prog)
			switch g.n(3) {
			case 0:
				text = g.neighbour(text)
			case 1:
				if len(prog) == 0 {
					break
				}
				at := g.n(len(prog))
				prog = append([]val{}, prog...)
				e := prog[at]
				e.L = append([]val{}, e.L...)
				if len(e.L) > 1 {
					k := 1 + g.n(len(e.L)-1)
					switch a := e.L[k]; a.K {
					case model.Str:
						e.L[k] = model.S(g.neighbour(a.S))
					case model.Num:
						e.L[k] = model.N(a.N + pick(r, []float64{0.4, 1, -1, 256, 65536, 4294967296}))
					}
				} else if len(e.L) > 0 {
					fn := pick(r, allFns)
					e = g.call(fn, &model.State{Text: text, Point: 1, RawMark: 1}, 0)
				}
				prog[at] = e
			default:
				fn := pick(r, []string{"concat", "string-match", "replace-regexp-in-string", "substring", "buffer-substring"})
				for _, e := range g.alike(fn, text)[:3] {
					c.checkEval(text, []val{e})
				}
			}
		}
	})
	// an environment changed by its owner does not change others
	c.Each("env", c.scale(400, 4000), func(r *rand.Rand, i int) {
		a, b := edlisp.NewDefaultEnvironment(), edlisp.NewDefaultEnvironment()
		fn := pick(r, names)
		a.Functions[fn] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) { return edlisp.NewString("mine"), nil }
		other := pick(r, names)
		delete(a.Functions, other)
		a.Functions["extra"] = a.Functions[fn]
		c.Eval(fn + other)
		c.Event("environments changed")
		if got := sortedKeys(b.Functions); strings.Join(got, " ") != strings.Join(names, " ") {
			c.Fail("shared", "changing one environment changes another: %v", got)
		}
		if got := sortedKeys(edlisp.NewDefaultEnvironment().Functions); strings.Join(got, " ") != strings.Join(names, " ") {
			c.Fail("shared", "changing one environment changes new ones: %v", got)
		}
		g := newGen(r)
		text := g.text()
		st := model.NewState(text)
		// names are just names, and a function that is gone is not looked for elsewhere
		for k := g.n(4); k > 0; k-- {
			a.Functions[pick(r, []string{"undefined-function", "default", "*", "", "else", "missing", "fallback", "t", "apply", "funcall", "eval", "method-missing", "nil", "error", "on-error", "before", "after", "trace", "init", "?"})] = func([]edlisp.Value, *edlisp.Buffer) (edlisp.Value, error) {
				return edlisp.NewString("mine"), nil
			}
		}
		for _, gone := range []val{g.call(other, &st, 0), model.Cmd("concat", g.call(other, &st, 0)), model.Cmd("no-such-function"), model.Cmd("insert", model.Cmd("no-such-function", model.S("x")))} {
			if gone.L[0].S == fn || other == "concat" && gone.L[0].S == "concat" || other == "insert" && gone.L[0].S == "insert" {
				continue // replaced, or gone itself
			}
			if other == fn {
				break
			}
			buf := edlisp.NewBuffer(text)
			v, err := edlisp.Eval([]edlisp.Value{toReal(gone)}, a, buf)
			c.Event("calls of functions that are gone")
			if err == nil || buf.String() != text {
				c.Fail("gone", "%s in an environment without that function gives %v %v, text %s from %s", model.Sexp(gone), v, err, q(buf.String()), q(text))
			}
		}
		call := g.call(fn, &st, 0)
		o := model.Eval([]val{call}, st, nil)
		buf := edlisp.NewBuffer(text)
		v, err := edlisp.Eval([]edlisp.Value{toReal(call)}, b, buf)
		if (err != nil) != (o.Err != "") || err == nil && (!model.Same(fromReal(v), o.Val) || buf.String() != o.State.Text) {
			c.Fail("shared", "%s of another environment behaves differently: %v %v, want %v", fn, v, err, o)
		}
	})
	c.Each("library", c.scale(8000, 80000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad, g.jsonOK = true, true
		text := g.text()
		format := pick(r, []string{"shell", "sexp", "json"})
		script := rend{r}.script(g.program(model.NewState(text), 1+g.n(8), nil, false), format)
		a, e1 := texted.ExecuteScriptWithFormat(text, script, format)
		texted.ExecuteScript(g.text(), "search-forward \"a\"; set-mark; end-of-buffer; delete-region")
		b, e2 := texted.ExecuteScriptWithFormat(text, script, format)
		c.Eval(text + script)
		c.Event("repetitions compared")
		if a != b || (e1 != nil) != (e2 != nil) || e1 != nil && e1.Error() != e2.Error() {
			c.Fail("again", "first %s %v, again %s %v: text %s script %q", q(a), e1, q(b), e2, q(text), clip(script, 600))
		}
	})
}

func init() {
	Props["P12"] = &Prop{Run: runP12, Rule: "a case is a program over instrumented functions with a chosen failing call, or over the builtins; distinct by program and failing call. The monitor records every call with arguments and state.", Floors: map[string]int64{"calls observed": 100000, "executions that failed": 5000, "executions that succeeded": 5000, "scripts run": 5000, "long programs that succeed": 40}}
	Props["P13"] = &Prop{Run: runP13, Rule: "a case is a failing program; distinct by text and program. The monitor compares each field of the error report with the buffer and with the model.", Floors: map[string]int64{"error reports checked": 30000, "library reports checked": 4000}}
	Props["P14"] = &Prop{Run: runP14, Rule: "a case is a text and a program run traced and untraced; distinct by both. The monitor records every trace event with the buffer state.", Floors: map[string]int64{"trace events checked": 100000, "failing executions traced": 2000}}
	Props["P37"] = &Prop{Run: runP37, Rule: "a case is a text and a program, executed several times with other executions in between, on fresh and on shared environments; distinct by both", Floors: map[string]int64{"repetitions compared": 50000, "environments changed": 300, "executions that resemble earlier ones": 20000}}
}
