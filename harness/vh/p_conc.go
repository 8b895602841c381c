package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/dhamidi/texted"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	edtesting "github.com/dhamidi/texted/edlisp/testing"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/model"
)

// task is something to do beside other tasks, and the check of its outcome.
type task struct {
	name string
	do   func(step func()) string // "" or what is wrong
}

// together runs tasks at once, with yields at every step; the order in which
// steps happen is recorded. Recording must not synchronise the tasks (a mutex
// or an atomic here would order their accesses and blind the race detector), so
// every task keeps its own log of times, and the logs are merged afterwards.
func (c *Ctx) together(r *rand.Rand, tasks []task) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	bad := make([]string, len(tasks))
	logs := make([][]time.Duration, len(tasks))
	t0 := time.Now()
	for k, t := range tasks {
		seed := r.Int63()
		wg.Add(1)
		go func() {
			defer wg.Done()
			lr := rand.New(rand.NewSource(seed))
			log := make([]time.Duration, 0, 64)
			defer func() { logs[k] = log }()
			step := func() {
				log = append(log, time.Since(t0))
				if lr.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
			defer func() {
				if p := recover(); p != nil {
					bad[k] = fmt.Sprintf("panic: %v", p)
				}
			}()
			<-start
			step()
			bad[k] = t.do(step)
			step()
		}()
	}
	close(start)
	wg.Wait()
	type ev struct {
		at time.Duration
		k  int
	}
	var order []ev
	overlap := int64(0)
	for k, l := range logs {
		for _, at := range l {
			order = append(order, ev{at, k})
		}
		for j, o := range logs {
			if j != k && len(l) > 0 && len(o) > 0 && o[0] < l[len(l)-1] && l[0] < o[len(o)-1] {
				overlap++
				break
			}
		}
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].at < order[j].at })
	hsh := fnv.New64a()
	for _, e := range order {
		hsh.Write([]byte{byte(e.k)})
	}
	c.EvalH(hsh.Sum64() | 1) // a distinct interleaving of steps
	c.EventN("steps interleaved", int64(len(order)))
	c.EventN("tasks that overlapped another", overlap)
	c.EventN("tasks run beside others", int64(len(tasks)))
	for k, b := range bad {
		if b != "" {
			c.Fail(tasks[k].name, "%s beside %d other tasks: %s", tasks[k].name, len(tasks)-1, b)
		}
	}
}

// evalTask evaluates a shared program on a private buffer in a shared environment.
func evalTask(env *edlisp.Environment, prog []edlisp.Value, mprog []val, text string) task {
	return evalTaskIn(&env, prog, mprog, text)
}

func evalTaskIn(env **edlisp.Environment, prog []edlisp.Value, mprog []val, text string) task {
	want := evalPolicies(mprog, model.NewState(text))
	if len(want) > 1 {
		mprog, prog = nil, nil
		want = evalPolicies(nil, model.NewState(text))
	}
	return task{"evaluation", func(step func()) string {
		b := edlisp.NewBuffer(text)
		v, err := edlisp.EvalWithTrace(prog, *env, b, func(*edlisp.TraceContext) { step() })
		o := want[0]
		if (err != nil) != (o.Err != "") {
			return fmt.Sprintf("%v on %s: error %v, want %q", mprog, q(text), err, o.Err)
		}
		if b.String() != o.State.Text || b.Point() != o.State.Point || b.Mark() != o.State.Mark() {
			return fmt.Sprintf("%v on %s: text %s point %d mark %d, want %s %d %d", mprog, q(text), q(b.String()), b.Point(), b.Mark(), q(o.State.Text), o.State.Point, o.State.Mark())
		}
		if err == nil && !model.Same(fromReal(v), o.Val) {
			return fmt.Sprintf("%v on %s: value %v, want %v", mprog, q(text), fromReal(v), o.Val)
		}
		return ""
	}}
}

// concProgram makes a program without doubt about its outcome, regexps included.
func concProgram(g *gen, text string) []val {
	return g.program(model.NewState(text), 2+g.n(8), []string{"re-search-forward", "search-forward", "replace-match", "looking-at", "looking-back", "string-match", "replace-regexp-in-string", "replace-region"}, g.one(6))
}

func runP34(c *Ctx) {
	// The very first calls in a process.
	c.Each("cold", 4, func(r *rand.Rand, i int) {
		var tasks []task
		for k := 0; k < 16; k++ {
			g := newGen(rand.New(rand.NewSource(r.Int63())))
			fns := append([]string(nil), allFns...)
			if k%2 == 0 { // (half of them in the same order, to meet)
				g.r.Shuffle(len(fns), func(i, j int) { fns[i], fns[j] = fns[j], fns[i] })
			}
			var env *edlisp.Environment
			var calls []task
			for _, fn := range fns {
				t := clip0(g.text(), 3000)
				st := model.NewState(t)
				prog := []val{g.call(fn, &st, 0)}
				calls = append(calls, evalTaskIn(&env, toRealAll(prog), prog, t))
			}
			tasks = append(tasks, task{"first use", func(step func()) string {
				env = edlisp.NewDefaultEnvironment()
				for _, call := range calls {
					if bad := call.do(step); bad != "" {
						return bad
					}
				}
				for j, s := range []string{"insert \"x\"", "(insert (concat \"x\" \"y\"))", "[\"insert\", \"x\"]", "[[\"point\"], [\"insert\", \"x\"]]", "(", "[", ""} {
					out, err := texted.ExecuteScript("text", s)
					out2, err2 := texted.ExecuteScriptWithFormat("text", s, []string{"shell", "sexp", "json", "json", "sexp", "json", "shell"}[j])
					if want := []string{"xtext", "xytext", "xtext", "xtext", "", "", "text"}[j]; out != want || out2 != want || (err != nil) != (want == "") || (err2 != nil) != (want == "") {
						return fmt.Sprintf("%q gives %q %v and %q %v", s, out, err, out2, err2)
					}
				}
				for _, f := range []writer.Format{writer.FormatShell, writer.FormatSExp, writer.FormatJSON} {
					w, err := writer.NewWriter(f)
					if err != nil {
						return err.Error()
					}
					var b strings.Builder
					if err := w.Write(&b, toRealAll([]val{model.Cmd("insert", model.S("x"), model.N(1.5))})); err != nil {
						return err.Error()
					}
				}
				for _, fn := range fns {
					if d, ok := edlisp.GetDocumentation(fn); !ok || d.Name != fn {
						return fmt.Sprintf("documentation of %s: %v %v", fn, d, ok)
					}
					callTool(tools.TextedDocHandler, map[string]any{"function_name": fn})
				}
				edlisp.Equal(edlisp.NewList(edlisp.NewString("a")), edlisp.NewList(edlisp.NewNumber(1)))
				step()
				for _, args := range []map[string]any{{}, {"verbose": true}, {"function_name": fns[0]}, {"category": "search"}, {"function_name": "nope"}, {"category": "nope", "verbose": true}} {
					callTool(tools.TextedDocHandler, args)
				}
				callTool(tools.TextedEvalHandler, map[string]any{"input": "a", "script": "point", "output": "expression"})
				callTool(tools.EditFileHandler, map[string]any{"files": []any{"/nonexistent/file"}, "script": "point"})
				tools.NewEditFileToolWithPrefix("p")
				tools.NewTextedEvalToolWithPrefix("p")
				tools.NewTextedDocToolWithPrefix("p")
				tc := &edtesting.TestCase{Buffer: "a", Output: "ba"}
				tc.Input.Text = "insert \"b\""
				if res := edtesting.RunTest(tc, env); !res.Passed {
					return fmt.Sprintf("the test fails: %v", res.Error)
				}
				return ""
			}})
		}
		c.together(r, tasks)
		c.Event("first uses at the same time")
	})
	shared := edlisp.NewDefaultEnvironment()
	c.Each("evaluate", c.scale(500, 6000), func(r *rand.Rand, i int) {
		g := newGen(r)
		var tasks []task
		same := g.one(2) // all run the very same program
		text := clip0(g.text(), 3000)
		mprog := concProgram(g, text)
		prog := toRealAll(mprog)
		tree := fmt.Sprint(fromRealAll(prog))
		for k := 4 + g.n(12); k > 0; k-- {
			if !same {
				text = clip0(g.text(), 3000)
				mprog = concProgram(g, text)
				prog = toRealAll(mprog)
			} else if g.one(2) {
				text = clip0(g.text(), 3000)
			}
			env := shared
			if g.one(4) {
				env = edlisp.NewDefaultEnvironment()
			}
			tasks = append(tasks, evalTask(env, prog, mprog, text))
		}
		if same {
			c.Event("rounds with a shared program")
		}
		c.together(r, tasks)
		if same {
			if now := fmt.Sprint(fromRealAll(prog)); now != tree {
				c.Fail("program", "evaluation changed the program %s to %s", tree, now)
			}
		}
		if i < 1 {
			c.Sample("%d tasks evaluate %v", len(tasks), clip(fmt.Sprint(mprog), 200))
		}
	})
	c.Each("library", c.scale(400, 5000), func(r *rand.Rand, i int) {
		g := newGen(r)
		g.noBad = true
		dir := c.Dir()
		defer rmAll(dir)
		var tasks []task
		sexpW, jsonW, shellW := &writer.SExpWriter{}, &writer.JSONWriter{}, &writer.ShellWriter{}
		for k := 0; k < 4+g.n(10); k++ {
			text := clip0(g.text(), 3000)
			if !utf8.ValidString(text) {
				text = strings.ToValidUTF8(text, "?")
			}
			format := pick(r, []string{"shell", "sexp", "json"})
			g.noBad, g.jsonOK = true, format == "json"
			mprog := concProgram(g, text)
			for len(evalPolicies(mprog, model.NewState(text))) > 1 {
				mprog = concProgram(g, text)
			}
			o := model.Eval(mprog, model.NewState(text), nil)
			script := rend{r}.script(mprog, format)
			auto := autoOK(script, format)
			file := filepath.Join(dir, fmt.Sprintf("f%d.txt", k))
			if g.one(4) && k > 0 {
				file = filepath.Join(dir, strings.Repeat("d", k), "f.txt") // same name, another directory
				must(os.MkdirAll(filepath.Dir(file), 0o777))
			}
			must(os.WriteFile(file, []byte(text), 0o644))
			outcome := func(what, got string, failed bool) string {
				if failed != (o.Err != "") || !failed && got != o.State.Text {
					return fmt.Sprintf("%s of %s (%s) on %s gives %s failed %v, want %s %q", what, q(script), format, q(text), q(got), failed, q(o.State.Text), o.Err)
				}
				return ""
			}
			kind := g.n(8)
			if !auto && (kind == 2 || kind == 3) {
				kind = 1
			}
			tasks = append(tasks, task{[]string{"ExecuteScriptWithFormat", "EditFileWithFormat", "texted_eval", "edit_file", "parsing and writing", "test runner", "texted_doc", "formatting"}[kind], func(step func()) string {
				switch kind {
				case 0:
					out, err := texted.ExecuteScriptWithFormat(text, script, format)
					return outcome("execution", out, err != nil)
				case 1, 3:
					failed := false
					if kind == 1 {
						failed = texted.EditFileWithFormat(file, script, format) != nil
					} else {
						rep, _, err := callTool(tools.EditFileHandler, map[string]any{"script": script, "files": []any{file}})
						failed = err != nil || !strings.Contains(rep, "✓")
					}
					step()
					b, err := os.ReadFile(file)
					if err != nil {
						return err.Error()
					}
					if o.Err != "" && string(b) != text {
						return fmt.Sprintf("a failed edit of %s changed it to %s", q(text), q(string(b)))
					}
					return outcome("edit", string(b), failed)
				case 2:
					out, isErr, err := callTool(tools.TextedEvalHandler, map[string]any{"script": script, "input": text})
					return outcome("texted_eval", out, isErr || err != nil)
				case 4:
					for n := 0; n < 3; n++ {
						var p []edlisp.Value
						var err error
						if format == "json" {
							p, err = parser.ParseJSONScript(script)
						} else {
							p, err = parser.ParseReader(&chunks{script, rand.New(rand.NewSource(1))})
						}
						step()
						if err != nil || format != "json" && !model.SameAll(fromRealAll(p), mprog) {
							return fmt.Sprintf("%s parses as %v %v", q(script), fromRealAll(p), err)
						}
					}
				case 5:
					tc := &edtesting.TestCase{Buffer: text, Output: o.State.Text}
					tc.Input.Text = rend{rand.New(rand.NewSource(1))}.lines(mprog, "shell")
					res := edtesting.RunTestWithTrace(tc, shared, func(*edlisp.TraceContext) { step() })
					if strings.TrimSpace(tc.Input.Text) != "" && tc.Output != "" && res.Passed != (o.Err == "") {
						return fmt.Sprintf("test of %s passes %v (%v)", q(tc.Input.Text), res.Passed, res.Error)
					}
				case 6:
					for _, fn := range []string{"point", "insert", "concat"} {
						t, isErr, _ := callTool(tools.TextedDocHandler, map[string]any{"function_name": fn})
						step()
						if isErr || !strings.HasPrefix(t, "# "+fn) {
							return "texted_doc " + fn + " gives " + q(t)
						}
					}
				case 7:
					p := toRealAll(mprog)
					for n := 0; n < 2; n++ {
						var a, b, d strings.Builder
						sexpW.Write(&a, p)
						step()
						jsonW.Write(&b, p)
						shellW.Write(&d, p)
						back, err := parser.ParseString(a.String())
						if err != nil || !model.SameAll(fromRealAll(back), mprog) {
							return fmt.Sprintf("%v is written as %s", mprog, q(a.String()))
						}
					}
				}
				return ""
			}})
		}
		c.together(r, tasks)
		if es, _ := os.ReadDir(dir); len(es) > len(tasks)*2 {
			c.Fail("stray", "%d entries for %d tasks", len(es), len(tasks))
		}
	})
	// Values are shared: any number of readers at a time.
	c.Each("values", c.scale(150, 2000), func(r *rand.Rand, i int) {
		g := newGen(r)
		var mv []val
		for k := 2 + g.n(4); k > 0; k-- {
			v := g.wild(2)
			for v.K != model.List {
				v = g.wild(2)
			}
			mv = append(mv, v)
		}
		elems := make([][]edlisp.Value, len(mv))
		var lists []*edlisp.List
		for k, v := range mv {
			elems[k] = make([]edlisp.Value, 0, len(v.L)+pick(r, []int{0, 1, 3, 16}))
			for _, e := range v.L {
				elems[k] = append(elems[k], toReal(e))
			}
			lists = append(lists, edlisp.NewList(elems[k]...))
		}
		eq := make([][]bool, len(mv))
		texts := make([]string, len(mv))
		for k, v := range mv {
			texts[k] = fmt.Sprint(toReal(v))
			for _, w := range mv {
				eq[k] = append(eq[k], equalVals(v, w))
			}
		}
		extra := edlisp.NewString("extra")
		sexpW, jsonW := &writer.SExpWriter{}, &writer.JSONWriter{}
		var tasks []task
		for t := 4 + g.n(8); t > 0; t-- {
			order := g.r.Perm(6 * len(mv))
			tasks = append(tasks, task{"sharing values", func(step func()) string {
				for _, o := range order {
					k := o / 6
					l := lists[k]
					switch o % 6 {
					case 0:
						if s := fmt.Sprint(l); s != texts[k] {
							return fmt.Sprintf("%s prints as %s", texts[k], s)
						}
					case 1:
						for j, other := range lists {
							if edlisp.Equal(l, other) != eq[k][j] {
								return fmt.Sprintf("Equal(%s, %s) is %v", texts[k], texts[j], !eq[k][j])
							}
						}
					case 2:
						if a := l.Append(extra); a.Len() != l.Len()+1 || a.Get(l.Len()) != edlisp.Value(extra) {
							return fmt.Sprintf("%s appended to is %s", texts[k], a)
						}
					case 3:
						if l.Len() > 0 && (l.First() != elems[k][0] || l.Rest().Len() != l.Len()-1) || l.IsEmpty() != (l.Len() == 0) {
							return fmt.Sprintf("%s has first %v and rest %v", texts[k], l.First(), l.Rest())
						}
					case 4:
						for j := range elems[k] {
							if l.Get(j) != elems[k][j] {
								return fmt.Sprintf("%s has %v at %d", texts[k], l.Get(j), j)
							}
						}
					case 5:
						var a, b strings.Builder
						sexpW.WriteValue(&a, l)
						jsonW.WriteValue(&b, l)
						if a.String() != texts[k] {
							return fmt.Sprintf("%s is written as %s", texts[k], a.String())
						}
					}
					step()
				}
				return ""
			}})
		}
		c.together(r, tasks)
		c.Event("rounds of shared values")
	})
	// The registry: what is registered stays registered, and is found at once.
	c.Each("registry", c.scale(250, 3000), func(r *rand.Rand, i int) {
		base := edlisp.GetRegisteredFunctionCount()
		builtin := edlisp.GetAllDocumentation()
		var tasks []task
		g := newGen(r)
		writers := 1 + g.n(4)
		var done [8]int64 // names registered so far, by writer
		// Following the writers orders the queries after what they did: in half
		// of the rounds nothing but the registry itself orders them.
		follow := g.one(2)
		n := 2 + g.n(10)
		name := func(w, k int) string { return fmt.Sprintf("zz-%d-%d-%d-%d", c.Shard, i, w, k) }
		for w := 0; w < writers; w++ {
			tasks = append(tasks, task{"registration", func(step func()) string {
				for k := 0; k < n; k++ {
					d := edlisp.FunctionDoc{Name: name(w, k), Category: fmt.Sprintf("cat-%d-%d", i, w), Summary: name(w, k)}
					edlisp.RegisterDocumentation(d)
					if follow {
						atomic.StoreInt64(&done[w], int64(k+1))
					}
					step()
					got, ok := edlisp.GetDocumentation(d.Name)
					if !ok || !reflect.DeepEqual(got, d) {
						return fmt.Sprintf("%s was registered and is not found", d.Name)
					}
				}
				return ""
			}})
		}
		for w := 0; w < 2+g.n(5); w++ {
			kind := g.n(5)
			tasks = append(tasks, task{"registry query", func(step func()) string {
				last := base
				for k := 0; k < 4; k++ {
					var have [8]int64
					least := base
					for x := range have {
						if !follow {
							break
						}
						have[x] = atomic.LoadInt64(&done[x])
						least += int(have[x])
					}
					var names []string
					switch kind {
					case 0:
						m := edlisp.GetRegisteredFunctionCount()
						if m < least || m < last || m > base+writers*n {
							return fmt.Sprintf("count %d after %d, at least %d", m, last, least)
						}
						last = m
						step()
						continue
					case 1:
						names = docNames(edlisp.GetAllDocumentation())
					case 2:
						w := k % writers
						names = docNames(edlisp.GetDocumentationByCategory(fmt.Sprintf("cat-%d-%d", i, w)))
						if len(names) < int(have[w]) {
							return fmt.Sprintf("category of writer %d has %d, at least %d", w, len(names), have[w])
						}
						for _, x := range names {
							if !strings.HasPrefix(x, fmt.Sprintf("zz-%d-%d-%d-", c.Shard, i, w)) {
								return "category with the foreign " + x
							}
						}
						step()
						continue
					case 3:
						cats := edlisp.GetCategories()
						for x := 0; x < writers; x++ {
							if have[x] > 0 && !strings.Contains(" "+strings.Join(cats, " ")+" ", fmt.Sprintf(" cat-%d-%d ", i, x)) {
								return fmt.Sprintf("categories %v lack that of writer %d", cats, x)
							}
						}
						step()
						continue
					default:
						d := builtin[(k*7+w)%len(builtin)]
						got, ok := edlisp.GetDocumentation(d.Name)
						if !ok || !reflect.DeepEqual(got, d) {
							return d.Name + " is not found"
						}
						step()
						continue
					}
					if len(names) < least {
						return fmt.Sprintf("%d functions are listed, at least %d are registered", len(names), least)
					}
					for x := 1; x < len(names); x++ {
						if names[x-1] >= names[x] {
							return fmt.Sprintf("the list is not sorted, or repeats: %s %s", names[x-1], names[x])
						}
					}
					step()
				}
				return ""
			}})
		}
		c.together(r, tasks)
		c.Event("registry rounds")
		if m := edlisp.GetRegisteredFunctionCount(); m != base+writers*n {
			c.Fail("lost", "%d functions are registered, want %d", m, base+writers*n)
		}
	})
}

func init() {
	Props["P34"] = &Prop{Run: runP34, Race: true, Shards: 4, Rule: "a case is a round of up to 16 tasks (evaluations in a shared environment, of a shared program or not; library calls; file edits; server tools; parsing and writing; test runs; registry updates and queries) run at once in a race-instrumented build, with yields at every step; distinct by observed interleaving of steps. The monitors are the race detector and the comparison of every task's outcome with the model, which ran alone.", Floors: map[string]int64{"steps interleaved": 20000, "tasks that overlapped another": 3000, "rounds with a shared program": 100, "registry rounds": 200}}
}
