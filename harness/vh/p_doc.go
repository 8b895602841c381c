package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/dhamidi/texted/commands"
	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/parser"
	"github.com/dhamidi/texted/tools"
	"github.com/dhamidi/texted/zzverif/model"
)

// docModel is what the registry of documentation has to hold.
type docModel map[string]edlisp.FunctionDoc

func newDocModel() docModel {
	m := docModel{}
	for _, d := range edlisp.GetAllDocumentation() {
		m[d.Name] = d
	}
	return m
}

func (m docModel) names(ok func(d edlisp.FunctionDoc) bool) []string {
	out := []string{}
	for _, n := range sortedKeys(m) {
		if ok(m[n]) {
			out = append(out, n)
		}
	}
	return out
}

func (m docModel) all() []string { return m.names(func(edlisp.FunctionDoc) bool { return true }) }

func (m docModel) in(cat string) []string {
	return m.names(func(d edlisp.FunctionDoc) bool { return d.Category == cat })
}

func (m docModel) categories() []string {
	set := map[string]bool{}
	for _, d := range m {
		if d.Category != "" {
			set[d.Category] = true
		}
	}
	return sortedKeys(set)
}

func docNames(ds []edlisp.FunctionDoc) []string {
	out := []string{}
	for _, d := range ds {
		out = append(out, d.Name)
	}
	return out
}

// checkRegistry compares the registry with the model.
func (c *Ctx) checkRegistry(m docModel) {
	all := edlisp.GetAllDocumentation()
	if !reflect.DeepEqual(docNames(all), m.all()) {
		c.Fail("registry", "GetAllDocumentation lists %v, want %v", docNames(all), m.all())
	}
	for _, d := range all {
		if !reflect.DeepEqual(d, m[d.Name]) {
			c.Fail("registry", "GetAllDocumentation has %+v for %s, registered is %+v", d, d.Name, m[d.Name])
		}
	}
	if got := edlisp.GetCategories(); !reflect.DeepEqual(got, m.categories()) {
		c.Fail("registry", "GetCategories gives %v, want %v", got, m.categories())
	}
	for _, cat := range append(m.categories(), "", "no such category", "Search") {
		ds := edlisp.GetDocumentationByCategory(cat)
		if !reflect.DeepEqual(docNames(ds), m.in(cat)) {
			c.Fail("registry", "GetDocumentationByCategory(%q) lists %v, want %v", cat, docNames(ds), m.in(cat))
		}
		for _, d := range ds {
			if !reflect.DeepEqual(d, m[d.Name]) {
				c.Fail("registry", "GetDocumentationByCategory(%q) has %+v, registered is %+v", cat, d, m[d.Name])
			}
		}
	}
	if n := edlisp.GetRegisteredFunctionCount(); n != len(m) {
		c.Fail("registry", "GetRegisteredFunctionCount is %d, want %d", n, len(m))
	}
	c.Event("registry states compared")
}

// numbers in prose
var positionRe = regexp.MustCompile(`(?i)position (\d+)`)

var prose = []struct {
	re   *regexp.Regexp
	what string
}{
	{regexp.MustCompile(`^Returns '(.*)' \(`), "value"},
	{regexp.MustCompile(`^Returns (?:column )?(\d+) `), "value"},
	{regexp.MustCompile(`^Buffer becomes '(.*)' and`), "text"},
	{regexp.MustCompile(`^Marks '(.*)'$`), "region"},
	{regexp.MustCompile(`\(line (\d+)\)$`), "line"},
}

// example judges a documented example: "" if it does what it says.
func (c *Ctx) example(ex edlisp.ExampleDoc) (string, string) {
	prog, err := parser.ParseString(ex.Input)
	if err != nil {
		return "does not parse", err.Error()
	}
	b := edlisp.NewBuffer(ex.Buffer)
	v, err := edlisp.Eval(prog, edlisp.NewDefaultEnvironment(), b)
	if want, ok := strings.CutPrefix(ex.Output, "Error: "); ok {
		if err == nil || !strings.Contains(err.Error(), want) {
			return "does not fail as it says", fmt.Sprint(err)
		}
		if b.String() != ex.Buffer {
			return "fails and changes the text", b.String()
		}
		c.Event("examples that fail as documented")
		return "", ""
	}
	if err != nil {
		return "fails", err.Error()
	}
	val := fromReal(v)
	raw := val.S
	if val.K == model.Num {
		raw = model.NumText(val.N)
	}
	sawState := fmt.Sprintf("value %v, text %q, point %d, mark %d", val, b.String(), b.Point(), b.Mark())
	want := ex.Output
	if want == model.Sexp(val) || want == raw || want == b.String() {
		c.Event("examples that match exactly")
		return "", ""
	}
	quoted := regexp.MustCompile(`^Returns '(t|nil)'`).FindStringSubmatch(want)
	if quoted != nil {
		if raw == quoted[1] {
			c.Event("examples that match in prose")
			return "", ""
		}
		return "does not return what it says", sawState
	}
	if s, err := strconv.Unquote(want); err == nil {
		if s == raw || s == b.String() {
			c.Event("examples that match exactly")
			return "", ""
		}
		return "does not give what it says", sawState
	}
	if _, err := strconv.ParseFloat(want, 64); err == nil {
		return "does not give the number it says", sawState
	}
	if m := positionRe.FindStringSubmatch(want); m != nil {
		n, _ := strconv.Atoi(m[1])
		if n == b.Point() || n == b.Mark() || raw == m[1] {
			c.Event("examples that match in prose")
			return "", ""
		}
		return "does not lead to the position it says", sawState
	}
	for _, pr := range prose {
		m := pr.re.FindStringSubmatch(want)
		if m == nil {
			continue
		}
		text := strings.ReplaceAll(m[1], `\n`, "\n")
		from, to := b.Mark(), b.Point()
		if from > to {
			from, to = to, from
		}
		got := map[string]string{"value": raw, "text": b.String(), "region": b.String()[from-1 : to-1], "line": strconv.Itoa(1 + strings.Count(b.String()[:b.Point()-1], "\n"))}[pr.what]
		if got == text {
			c.Event("examples that match in prose")
			return "", ""
		}
		return "does not have the " + pr.what + " it says", sawState
	}
	c.Event("examples with an outcome in free prose")
	c.EventN("free prose: "+clip(want, 60), 1)
	return "", ""
}

// listed reads the names out of a listing.
var listLine = regexp.MustCompile(`(?m)^(?:  |- )(?:\*\*)?([A-Za-z][^\s*:]*)(?:\*\*)?(?:: (.*))?$`)

func listed(out string) (names []string, summaries map[string]string) {
	summaries = map[string]string{}
	names = []string{}
	for _, m := range listLine.FindAllStringSubmatch(out, -1) {
		names = append(names, m[1])
		summaries[m[1]] = m[2]
	}
	return
}

func sorted(xs []string) []string {
	out := append([]string{}, xs...)
	sort.Strings(out)
	return out
}

// checkListing: the listing names exactly the functions of want.
func (c *Ctx) checkListing(what, out string, want []string, m docModel, verbose bool) {
	names, sums := listed(out)
	c.Event("listings read")
	if !reflect.DeepEqual(sorted(names), want) {
		c.Fail("listing", "%s lists %v, want %v: %s", what, names, want, q(out))
		return
	}
	if !verbose && !reflect.DeepEqual(names, want) {
		c.Fail("listing", "%s is not sorted: %v", what, names)
	}
	if verbose {
		// by category, sorted within
		byCat := map[string][]string{}
		var cats []string
		for _, n := range names {
			k := m[n].Category
			if len(cats) == 0 || cats[len(cats)-1] != k {
				cats = append(cats, k)
			}
			byCat[k] = append(byCat[k], n)
			if sums[n] != m[n].Summary {
				c.Fail("listing", "%s has the summary %q for %s, want %q", what, sums[n], n, m[n].Summary)
			}
		}
		if len(cats) != len(byCat) {
			c.Fail("listing", "%s does not keep categories together: %v", what, cats)
		}
		for k, ns := range byCat {
			if !sort.StringsAreSorted(ns) {
				c.Fail("listing", "%s is not sorted in category %q: %v", what, k, ns)
			}
		}
	}
	if !strings.Contains(out, strconv.Itoa(len(want))) && !strings.Contains(what, "--category") {
		c.Fail("listing", "%s does not tell the number %d of functions", what, len(want))
	}
}

// checkPage: everything documented about the function is on its page, in order.
func (c *Ctx) checkPage(what, out string, d edlisp.FunctionDoc, withResults bool) {
	rest := out
	next := func(part, s string) {
		if s == "" {
			return
		}
		i := strings.Index(rest, s)
		if i < 0 {
			c.Fail("page", "%s lacks its %s %q, or has it out of order: %s", what, part, s, clip(fmt.Sprintf("%q", out), 2500))
			return
		}
		rest = rest[i+len(s):]
		c.Event("parts of pages found")
	}
	if strings.Contains(out, "%!") && !strings.Contains(fmt.Sprintf("%v", d), "%") {
		c.Fail("page", "%s is garbled: %s", what, clip(fmt.Sprintf("%q", out), 2500))
	}
	next("name", d.Name)
	next("summary", strings.TrimSpace(d.Summary))
	next("description", strings.TrimSpace(d.Description))
	for _, p := range d.Parameters {
		next("parameter", p.Name)
		next("parameter type", p.Type)
		if p.Optional && withResults {
			next("note that a parameter is optional", "optional")
		} else if head, _, _ := strings.Cut(rest, "\n"); withResults && p.Description != "" {
			if head, _, _ = strings.Cut(head, strings.TrimSpace(p.Description)); strings.Contains(head, "optional") {
				c.Fail("page", "%s calls the required parameter %s optional: %s", what, p.Name, clip(fmt.Sprintf("%q", out), 2500))
			}
		}
		next("parameter description", strings.TrimSpace(p.Description))
	}
	for _, e := range d.Examples {
		next("example description", e.Description)
		if withResults {
			next("example buffer", e.Buffer)
		}
		next("example", e.Input)
		if withResults {
			next("example result", e.Output)
		}
	}
	next("category", d.Category)
	for _, s := range d.SeeAlso {
		next("related function", strings.TrimSpace(s))
	}
	c.Event("pages read")
}

// docCommand runs the doc command within this process.
func docCommand(args ...string) (string, error) {
	f, err := os.CreateTemp("", "doc")
	must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	std := os.Stdout
	os.Stdout = f
	defer func() { os.Stdout = std }()
	cmd := commands.NewDocCommand()
	cmd.SetOut(f)
	cmd.SetErr(io.Discard)
	cmd.SetArgs(append([]string{}, args...))
	cmd.SilenceErrors, cmd.SilenceUsage = true, true
	err = cmd.Execute()
	b, rerr := os.ReadFile(f.Name())
	must(rerr)
	return string(b), err
}

func runP33(c *Ctx) {
	m := newDocModel()
	env := edlisp.NewDefaultEnvironment()
	c.Each("registry", 1, func(r *rand.Rand, i int) {
		c.Eval("registry")
		c.checkRegistry(m)
		if got := sortedKeys(env.Functions); !reflect.DeepEqual(got, m.all()) {
			c.Fail("complete", "functions %v, documented %v", got, m.all())
		}
		for _, n := range allFns {
			if _, ok := m[n]; !ok {
				c.Fail("complete", "%s is not documented", n)
			}
		}
	})
	names := m.all()
	c.Each("signature", len(names), func(r *rand.Rand, i int) {
		d := m[names[i]]
		fn := env.Functions[d.Name]
		sg, known := model.Sigs[d.Name]
		c.Eval("signature" + d.Name)
		c.Event("documented signatures exercised")
		if fn == nil || !known {
			return // reported above
		}
		if d.Summary == "" || d.Description == "" || d.Category == "" || len(d.Examples) == 0 {
			c.Fail("thin", "the documentation of %s lacks a summary, a description, a category or an example", d.Name)
		}
		for _, s := range d.SeeAlso {
			if _, ok := m[s]; !ok {
				c.Fail("seealso", "the documentation of %s refers to %s, which does not exist", d.Name, s)
			}
		}
		if sg.Variadic {
			return
		}
		sample := func(kind string) edlisp.Value {
			if kind == "number" {
				return edlisp.NewNumber(2)
			}
			return edlisp.NewString("a")
		}
		run := func(args []edlisp.Value) error {
			b := buffer("a a a", 3, 1)
			edlisp.BuiltinSearchForward([]edlisp.Value{edlisp.NewString("a")}, b)
			b.SetPoint(3)
			_, err := fn(args, b)
			return err
		}
		min := 0
		for _, p := range d.Parameters {
			if !p.Optional {
				min++
			}
		}
		for n := 0; n <= len(d.Parameters)+1; n++ {
			var args []edlisp.Value
			for j := 0; j < n; j++ {
				kind := "string"
				if j < len(d.Parameters) {
					kind = d.Parameters[j].Type
				}
				args = append(args, sample(kind))
			}
			err := run(args)
			if ok := n >= min && n <= len(d.Parameters); ok != (err == nil) {
				c.Fail("signature", "%s is documented to take %d to %d arguments; with %d it gives the error %v", d.Name, min, len(d.Parameters), n, err)
			}
			if n > len(d.Parameters) || n < min {
				continue
			}
			for j := range args { // another type
				bad := append([]edlisp.Value{}, args...)
				if d.Parameters[j].Type == "number" {
					bad[j] = edlisp.NewString("2")
				} else {
					bad[j] = edlisp.NewNumber(2)
				}
				if run(bad) == nil {
					c.Fail("signature", "%s is documented to take a %s as argument %d, and takes %v", d.Name, d.Parameters[j].Type, j+1, bad[j])
				}
			}
		}
	})
	c.Each("example", len(names), func(r *rand.Rand, i int) {
		d := m[names[i]]
		for j, ex := range d.Examples {
			c.Eval("example" + ex.Input + ex.Buffer)
			c.Event("documented examples run")
			if why, got := c.example(ex); why != "" {
				c.Fail(fmt.Sprintf("example:%s:%d:%016x", d.Name, j+1, hash(ex.Input, ex.Buffer, ex.Output, got)), "example %d of %s (%s on %q, documented result %q) %s: %s", j+1, d.Name, ex.Input, ex.Buffer, ex.Output, why, got)
			}
		}
	})
	// The command and the server's tool tell what the registry holds.
	c.Each("page", 2*len(names), func(r *rand.Rand, i int) {
		d := m[names[i/2]]
		c.Eval("page" + names[i/2] + fmt.Sprint(i%2))
		if i%2 == 0 {
			a := []string{"doc", d.Name}
			if r.Intn(3) == 0 {
				a = append(a, "-v")
			}
			o := c.texted("", a...)
			if o.code != 0 || o.err != "" {
				c.Fail("page", "texted doc %s: %s", d.Name, o)
			}
			c.checkPage("texted doc "+d.Name, o.out, d, true)
			return
		}
		text, isErr, err := callTool(tools.TextedDocHandler, map[string]any{"function_name": d.Name})
		if isErr || err != nil {
			c.Fail("page", "texted_doc %s: %s %v", d.Name, q(text), err)
		}
		c.checkPage("texted_doc "+d.Name, text, d, false)
	})
	c.Each("list", 60, func(r *rand.Rand, i int) {
		cats := append([]string{""}, m.categories()...)
		cat := cats[i%len(cats)]
		verbose := r.Intn(2) == 0
		want := m.all()
		args := []string{"doc"}
		ta := map[string]any{}
		if cat != "" {
			want = m.in(cat)
			args = append(args, "--category="+cat)
			ta["category"] = cat
		}
		if verbose {
			args = append(args, pick(r, []string{"-v", "--verbose"}))
			ta["verbose"] = true
		}
		c.Eval(fmt.Sprint("list", args))
		o := c.texted("", args...)
		if o.code != 0 || o.err != "" {
			c.Fail("listing", "texted %q: %s", args, o)
		}
		out := strings.Replace(o.out, "\nUse 'texted", "\nuse 'texted", -1)
		c.checkListing(fmt.Sprintf("texted %q", args), out, want, m, verbose)
		if o2 := c.texted("", args...); o2.out != o.out {
			c.Fail("stable", "texted %q prints %s and then %s", args, q(o.out), q(o2.out))
		}
		text, isErr, err := callTool(tools.TextedDocHandler, ta)
		if isErr || err != nil {
			c.Fail("listing", "texted_doc %v: %s %v", ta, q(text), err)
		}
		c.checkListing(fmt.Sprintf("texted_doc %v", ta), text, want, m, verbose)
		if again, _, _ := callTool(tools.TextedDocHandler, ta); again != text {
			c.Fail("stable", "texted_doc %v gives %s and then %s", ta, q(text), q(again))
		}
	})
	c.Each("unknown", c.scale(400, 4000), func(r *rand.Rand, i int) {
		g := newGen(r)
		name := pick(r, []string{"nope", "search", "forward", "SEARCH-FORWARD", "search-forward ", "search_forward", "point-", "editing", "Search", "1", "*", "(point)", pick(r, names) + "x", pick(r, names)[1:]})
		if g.one(4) {
			name = strings.ToValidUTF8(g.str(), "?")
		}
		if g.one(8) {
			name = g.longName()
		}
		if name == "" || strings.HasPrefix(name, "-") || !argOK(name) {
			return
		}
		c.Eval("unknown" + name)
		if _, known := m[name]; !known {
			c.Event("unknown names asked for")
			if i%2 == 0 {
				o := c.texted("", "doc", "--", name)
				if o.code != 1 || o.out != "" || !strings.Contains(o.err, name) {
					c.Fail("unknown", "texted doc %q: %s", name, o)
				}
			}
			text, isErr, err := callTool(tools.TextedDocHandler, map[string]any{"function_name": name})
			if !isErr || err != nil || !strings.Contains(text, name) {
				c.Fail("unknown", "texted_doc of %q gives %s error %v (%v)", name, q(text), isErr, err)
			}
			if _, ok := edlisp.GetDocumentation(name); ok {
				c.Fail("unknown", "GetDocumentation knows %q", name)
			}
			// whatever is suggested exists
			if _, sug, ok := strings.Cut(text, "Did you mean: "); ok {
				c.Event("suggestions given")
				for _, s := range strings.Split(sug, ", ") {
					if _, ok := m[s]; !ok {
						c.Fail("suggestion", "texted_doc of %q suggests %q, which does not exist", name, s)
					}
				}
			}
		}
		if len(m.in(name)) == 0 {
			c.Event("unknown categories asked for")
			if i%2 == 1 {
				o := c.texted("", "doc", "--category="+name)
				if o.code != 1 || o.out != "" || o.err == "" {
					c.Fail("unknown", "texted doc --category=%q: %s", name, o)
				}
			}
			text, isErr, err := callTool(tools.TextedDocHandler, map[string]any{"category": name, "verbose": g.one(2)})
			if !isErr || err != nil {
				c.Fail("unknown", "texted_doc of category %q gives %s error %v (%v)", name, q(text), isErr, err)
			}
			for _, k := range m.categories() {
				if !strings.Contains(text, k) {
					c.Fail("unknown", "texted_doc of category %q does not offer the category %q: %s", name, k, q(text))
				}
			}
		}
		// the two cannot be combined
		both := map[string]any{"function_name": pick(r, names), "category": pick(r, []string{"search", "search", "movement", "nonsense"})}
		if r.Intn(2) == 0 {
			both["verbose"] = r.Intn(2) == 0
		}
		text, isErr, _ := callTool(tools.TextedDocHandler, both)
		if !isErr {
			c.Fail("exclusive", "texted_doc %v gives %s", both, q(text))
		}
	})
	// What is registered later is documented in the same way.
	c.Each("register", c.scale(400, 4000), func(r *rand.Rand, i int) {
		g := newGen(r)
		str := func() string {
			return pick(r, []string{"", "text", "two words", "line\nline", "日本", "a: b", "**bold**", strings.TrimSpace(strings.ToValidUTF8(g.str(), "?"))})
		}
		for k := 1 + g.n(3); k > 0; k-- {
			d := edlisp.FunctionDoc{Name: "x" + strings.Repeat(pick(r, []string{"a", "b", "-z"}), 1+g.n(4)), Summary: "s" + fmt.Sprint(g.n(100)), Description: str(), Category: pick(r, []string{"", "search", "new", "new cat", "zz", "movement"})}
			for n := g.n(3); n > 0; n-- {
				d.Parameters = append(d.Parameters, edlisp.ParameterDoc{Name: "p" + fmt.Sprint(n), Type: pick(r, []string{"string", "number"}), Description: str(), Optional: g.one(2)})
			}
			for n := g.n(3); n > 0; n-- {
				d.Examples = append(d.Examples, edlisp.ExampleDoc{Description: str(), Input: "point; insert \"" + fmt.Sprint(n) + "\"", Buffer: str(), Output: str()})
			}
			for n := g.n(3); n > 0; n-- {
				d.SeeAlso = append(d.SeeAlso, pick(r, names))
			}
			want := d
			b, _ := json.Marshal(d)
			json.Unmarshal(b, &want)
			edlisp.RegisterDocumentation(d)
			m[d.Name] = want
			got, ok := edlisp.GetDocumentation(d.Name)
			if !ok || !reflect.DeepEqual(got, want) && fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", want) {
				c.Fail("register", "registered %+v, got back %+v", want, got)
			}
			m[d.Name] = d
			text, isErr, _ := callTool(tools.TextedDocHandler, map[string]any{"function_name": d.Name})
			if isErr {
				c.Fail("page", "texted_doc of the new %s: %s", d.Name, q(text))
			}
			c.checkPage("texted_doc "+d.Name, text, d, false)
			out, err := docCommand(d.Name)
			if err != nil {
				c.Fail("page", "texted doc of the new %s: %v", d.Name, err)
			}
			c.checkPage("texted doc "+d.Name, out, d, true)
			c.Event("registrations")
		}
		c.Eval(fmt.Sprint("register", len(m), i))
		c.checkRegistry(m)
		for _, cat := range []string{"", "search", "new", "zz"} {
			want := m.in(cat)
			args := map[string]any{"verbose": g.one(2)}
			if cat != "" {
				args["category"] = cat
			} else {
				want = m.all()
			}
			text, isErr, _ := callTool(tools.TextedDocHandler, args)
			if isErr != (len(want) == 0) {
				c.Fail("listing", "texted_doc %v: %s", args, q(text))
			} else if !isErr {
				c.checkListing(fmt.Sprintf("texted_doc %v", args), text, want, m, args["verbose"] == true)
			}
			var argv []string
			if cat != "" {
				argv = append(argv, "--category="+cat)
			}
			if args["verbose"] == true {
				argv = append(argv, "-v")
			}
			out, err := docCommand(argv...)
			if (err != nil) != (len(want) == 0) {
				c.Fail("listing", "texted doc %q: %v %s", argv, err, q(out))
			} else if err == nil {
				out = strings.Replace(out, "\nUse 'texted", "\nuse 'texted", -1)
				lm := m
				if args["verbose"] == true { // what has no category is listed as "other"
					lm = docModel{}
					for n, d := range m {
						if d.Category == "" {
							d.Category = "other"
						}
						lm[n] = d
					}
				}
				c.checkListing(fmt.Sprintf("texted doc %q", append(argv, "")), out, want, lm, args["verbose"] == true)
			}
		}
	})
}

func init() {
	Props["P33"] = &Prop{Run: runP33, Rule: "a case is a documented function (its signature exercised, its examples run, its page read on both surfaces), a listing, a name or category that does not exist, or a registration followed by all queries; distinct by function, query or registry state. The monitor compares the registry with the set of functions and a model of the registry, and reads the printed pages back.", Floors: map[string]int64{"documented signatures exercised": 50, "documented examples run": 90, "pages read": 100, "listings read": 200, "unknown names asked for": 200, "registrations": 300}}
}
