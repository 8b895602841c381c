package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/zzverif/model"
)

// toReal converts a model value into a value of the program under test.
func toReal(v val) edlisp.Value {
	switch v.K {
	case model.Str:
		return edlisp.NewString(v.S)
	case model.Num:
		return edlisp.NewNumber(v.N)
	case model.Sym:
		return edlisp.NewSymbol(v.S)
	}
	l := make([]edlisp.Value, len(v.L))
	for i, e := range v.L {
		l[i] = toReal(e)
	}
	return edlisp.NewList(l...)
}

func toRealAll(vs []val) []edlisp.Value {
	out := make([]edlisp.Value, len(vs))
	for i, v := range vs {
		out[i] = toReal(v)
	}
	return out
}

// toRealShared converts, and uses one value for equal expressions, as programs
// made by other programs may.
func toRealShared(vs []val) []edlisp.Value {
	seen := map[string]edlisp.Value{}
	var conv func(v val) edlisp.Value
	conv = func(v val) edlisp.Value {
		k := model.Sexp(v)
		if len(k) > 100000 {
			return toReal(v)
		}
		if seen[k] == nil {
			if v.K == model.List {
				l := make([]edlisp.Value, len(v.L))
				for i, e := range v.L {
					l[i] = conv(e)
				}
				seen[k] = edlisp.NewList(l...)
			} else {
				seen[k] = toReal(v)
			}
		}
		return seen[k]
	}
	out := make([]edlisp.Value, len(vs))
	for i, v := range vs {
		out[i] = conv(v)
	}
	return out
}

// fromReal converts back; a value of no known kind becomes a telling symbol.
func fromReal(v edlisp.Value) val {
	switch v := v.(type) {
	case *edlisp.String:
		if v != nil {
			return model.S(v.Value)
		}
	case *edlisp.Number:
		if v != nil {
			return model.N(v.Value)
		}
	case *edlisp.Symbol:
		if v != nil {
			return model.Y(v.Name)
		}
	case *edlisp.List:
		if v != nil {
			l := model.L()
			for _, e := range v.Elements {
				l.L = append(l.L, fromReal(e))
			}
			return l
		}
	}
	return model.Y(fmt.Sprintf("<%T>", v))
}

func fromRealAll(vs []edlisp.Value) []val {
	out := make([]val, len(vs))
	for i, v := range vs {
		out[i] = fromReal(v)
	}
	return out
}

// obs is one observed call of a function of the program under test, with what
// the model says about it, starting from the observed state.
type obs struct {
	fn     string
	args   []val
	pre    model.State // as observed; what is not observable is shadowed
	text   string      // observed afterwards
	point  int
	mark   int
	ret    val
	err    error
	want   model.State
	wantV  val
	wantE  model.ErrKind
	eager  bool // the mark may also follow the eager policy, see markOK
	before int  // the visible mark before
	// the last match before and afterwards, as an error report would show it
	match0, match1 lastMatch
}

// lastMatch is the match replace-match would replace.
type lastMatch struct {
	text       string
	start, end int
}

var probeEnv = &edlisp.Environment{Functions: map[string]edlisp.BuiltinFn{}}
var probeProg = []edlisp.Value{edlisp.NewList(edlisp.NewSymbol("no-such-function"))}

// probe observes the last match of a buffer, which only error reports show.
func probe(b *edlisp.Buffer) (m lastMatch) {
	_, err := edlisp.Eval(probeProg, probeEnv, b)
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) && ee != nil && ee.LastSearchMatch != "" {
		m = lastMatch{ee.LastSearchMatch, ee.LastSearchStart, ee.LastSearchEnd}
	}
	return m
}

// matchOK: a search that succeeds records its match, anything else that does
// not edit keeps it.
func (o *obs) matchOK() bool {
	if o.want.Text != o.pre.Text || isEdit[o.fn] {
		return true
	}
	want := o.match0
	if isSearch[o.fn] && o.wantE == "" {
		want = lastMatch{o.want.Match, o.want.MatchStart, o.want.MatchEnd}
		if want.text == "" {
			want = lastMatch{}
		}
	}
	return o.match1 == want
}

func set(lists ...[]string) map[string]bool {
	m := map[string]bool{}
	for _, l := range lists {
		for _, x := range l {
			m[x] = true
		}
	}
	return m
}

var (
	isSearch = set(searchFns)
	isEdit   = set(editFns, []string{"replace-match", "delete-region", "replace-region"})
)

func (o *obs) String() string {
	e := ""
	if o.err != nil {
		e = fmt.Sprintf(" error %q", clip(o.err.Error(), 200))
	}
	return fmt.Sprintf("%s on text %s point %d mark %d (last match %s at %d-%d): got text %s point %d mark %d value %s%s; want text %s point %d mark %d value %s error %q",
		clip(model.Sexp(model.Cmd(o.fn, o.args...)), 300), q(o.pre.Text), o.pre.Point, o.before, q(o.pre.Match), o.pre.MatchStart, o.pre.MatchEnd,
		q(o.text), o.point, o.mark, clip(o.ret.String(), 200), e,
		q(o.want.Text), o.want.Point, o.want.Mark(), clip(o.wantV.String(), 200), string(o.wantE))
}

// markOK: a mark beyond the end of a text that shrank is limited to the text;
// whether it springs back when the text grows again is not specified.
func (o *obs) markOK() bool {
	if o.mark == o.want.Mark() {
		return true
	}
	w := o.want
	if w.RawMark == o.pre.RawMark { // not set by this call
		w.RawMark = o.before
		return o.mark == w.Mark()
	}
	return false
}

// check compares everything observed with the model: "" or what differs.
func (o *obs) check() string {
	var d []string
	if (o.err != nil) != (o.wantE != "") {
		if o.err != nil {
			d = append(d, "fails")
		} else {
			d = append(d, "does not fail")
		}
	}
	if o.text != o.want.Text {
		d = append(d, "text differs")
	}
	if o.point != o.want.Point {
		d = append(d, "point differs")
	}
	if !o.markOK() {
		d = append(d, "mark differs")
	}
	if !o.matchOK() {
		d = append(d, fmt.Sprintf("last match %s at %d-%d afterwards, %s at %d-%d before", q(o.match1.text), o.match1.start, o.match1.end, q(o.match0.text), o.match0.start, o.match0.end))
	}
	if o.err == nil && o.wantE == "" && !model.Same(o.ret, o.wantV) {
		d = append(d, "value differs")
	}
	return strings.Join(d, ", ")
}

// mon observes calls on buffers. It shadows what cannot be observed: where the
// mark was set, and the last match.
type mon struct {
	shadow map[*edlisp.Buffer]*model.State
	on     func(o *obs)
}

func newMon(on func(o *obs)) *mon {
	return &mon{shadow: map[*edlisp.Buffer]*model.State{}, on: on}
}

func (m *mon) pre(b *edlisp.Buffer) model.State {
	sh := m.shadow[b]
	if sh == nil {
		sh = &model.State{RawMark: b.Mark()}
		m.shadow[b] = sh
	}
	st := *sh
	st.Text, st.Point = b.String(), b.Point()
	if st.Mark() != b.Mark() {
		st.RawMark = b.Mark()
	}
	return st
}

// call runs fn on b and reports it.
func (m *mon) call(fn string, f edlisp.BuiltinFn, args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
	pre := m.pre(b)
	if pre.Point < 1 || pre.Point > pre.Max() {
		// Broken before; position properties report it, the model cannot go on.
		return f(args, b)
	}
	before := b.Mark()
	margs := fromRealAll(args)
	match0 := probe(b)
	v, err := f(args, b)
	o := &obs{match0: match0, match1: probe(b), fn: fn, args: margs, pre: pre, before: before, text: b.String(), point: b.Point(), mark: b.Mark(), err: err, want: pre}
	if err == nil {
		o.ret = fromReal(v)
	}
	o.wantV, o.wantE = model.Call(fn, margs, &o.want)
	sh := o.want
	sh.Text = o.text
	if sh.Mark() != o.mark {
		sh.RawMark = o.mark
	}
	sh.Text = ""
	m.shadow[b] = &sh
	m.on(o)
	return v, err
}

// env is a default environment whose functions are observed.
func (m *mon) env() *edlisp.Environment {
	e := edlisp.NewDefaultEnvironment()
	for name, f := range e.Functions {
		if _, ok := model.Sigs[name]; !ok {
			continue
		}
		e.Functions[name] = func(args []edlisp.Value, b *edlisp.Buffer) (edlisp.Value, error) {
			return m.call(name, f, args, b)
		}
	}
	return e
}

// buffer makes a buffer with the given text, point and mark.
func buffer(text string, point, mark int) *edlisp.Buffer {
	b := edlisp.NewBuffer(text)
	b.SetPoint(point)
	b.SetMark(mark)
	return b
}

func obsHash(o *obs) uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		if len(s) > 400 {
			s = s[:200] + s[len(s)-200:]
		}
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0xff01) * 1099511628211
	}
	add(o.fn)
	add(o.pre.Text)
	h = (h ^ uint64(o.pre.Point)) * 1099511628211
	h = (h ^ uint64(o.before)) * 1099511628211
	for _, a := range o.args {
		if a.K == model.Num {
			h = (h ^ uint64(int64(a.N*16))) * 1099511628211
		} else {
			add(a.S)
		}
	}
	return h | 1
}
