package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/edlisp/writer"
	"github.com/dhamidi/texted/zzverif/model"
)

// wild makes any value at all.
func (g *gen) wild(depth int) val {
	switch k := g.n(9); {
	case k < 3:
		return model.S(g.str())
	case k < 5:
		return model.N(g.num(30))
	case k == 5:
		return model.N(float64(g.n(7)))
	case k == 6:
		return model.Y(pick(g.r, []string{"t", "nil", "foo", "a", "", "x y", "1", "T", "Nil", "Foo", "é", "É", "search-forward"}))
	}
	if depth == 0 {
		return model.L()
	}
	l := model.L()
	for i := g.n(4); i > 0; i-- {
		l.L = append(l.L, g.wild(depth-1))
	}
	return l
}

func hasNaN(v val) bool {
	for _, e := range v.L {
		if hasNaN(e) {
			return true
		}
	}
	return v.K == model.Num && math.IsNaN(v.N)
}

// swapCase changes the case of one letter, if there is one.
func swapCase(r *rand.Rand, s string) string {
	rs := []rune(s)
	for _, i := range r.Perm(len(rs)) {
		for _, f := range []func(rune) rune{unicode.ToUpper, unicode.ToLower} {
			if f(rs[i]) != rs[i] {
				rs[i] = f(rs[i])
				return string(rs)
			}
		}
	}
	return s + "x"
}

// closeVal makes a value that differs from v in one small respect, somewhere.
func closeVal(r *rand.Rand, v val) val {
	switch v.K {
	case model.Sym, model.Str:
		s := v.S
		switch r.Intn(8) {
		case 0, 1:
			s = swapCase(r, s)
		case 2:
			s = pick(r, []string{s + " ", " " + s, s + "\n", s + "\x00", s + "\u200b", strings.TrimSpace(s), "\"" + s + "\""})
		case 3:
			s = strings.NewReplacer("\n", "\r\n", "é", "e\u0301", "ß", "ss", "\t", " ").Replace(s)
		case 4:
			s = strings.ToValidUTF8(s, "\ufffd")
		case 5:
			if s != "" {
				s = s[:len(s)-1] + string([]byte{s[len(s)-1] ^ byte(1+r.Intn(255))})
			}
		case 6:
			if s != "" {
				i := r.Intn(len(s))
				s = s[:i] + string([]byte{s[i] ^ byte(1+r.Intn(255))}) + s[i+1:]
			}
		default:
			if k := r.Intn(3); k == 0 {
				return val{K: model.Str + model.Sym - v.K, S: s} // the other kind
			} else if s != "" && k == 1 {
				s = s[:len(s)-1]
			}
		}
		return val{K: v.K, S: s}
	case model.Num:
		return model.N(pick(r, []float64{math.Nextafter(v.N, math.Inf(1)), math.Nextafter(v.N, math.Inf(-1)), v.N * (1 + 1e-12), v.N + 1e-9, v.N + 0.25, -v.N, v.N + 1<<32, math.Trunc(v.N), float64(float32(v.N)), 0, math.Copysign(0, -1), math.Inf(1), math.NaN()}))
	}
	l := model.L(append([]val(nil), v.L...)...)
	if len(l.L) == 0 {
		return pick(r, []val{model.S(""), model.Y("nil"), model.Y("()"), model.L(model.L()), model.N(0), model.L(model.S(""))})
	}
	k := r.Intn(len(l.L))
	switch r.Intn(8) {
	case 0:
		j := r.Intn(len(l.L))
		l.L[k], l.L[j] = l.L[j], l.L[k]
	case 1:
		l.L = l.L[:len(l.L)-1]
	case 2:
		l.L = append(l.L, pick(r, []val{model.L(), model.S(""), model.I(0), model.Y("nil"), l.L[k]}))
	case 3:
		l.L[k] = model.L(l.L[k])
	case 4:
		if l.L[k].K == model.List { // flattened
			l.L = append(append(append([]val(nil), l.L[:k]...), l.L[k].L...), v.L[k+1:]...)
		}
	default:
		l.L[k] = closeVal(r, l.L[k])
	}
	return l
}

func runP38(c *Ctx) {
	// Equality.
	c.Each("equal", c.scale(60000, 800000), func(r *rand.Rand, i int) {
		g := newGen(r)
		a := g.wild(3)
		if i%50 == 0 { // long
			n := pick(r, []int{17, 64, 65, 100, 129, 256, 257, 300, 1025})
			a = model.L()
			for len(a.L) < n {
				a.L = append(a.L, g.wild(g.n(2)))
			}
			c.Event("long lists")
		}
		var b val
		switch r.Intn(5) {
		case 0:
			b = fromReal(toReal(a)) // a copy
		case 1:
			b = g.wild(3)
		case 2, 3:
			if a.K == model.Str && g.one(20) {
				a = model.S(strings.Repeat(a.S+"x", pick(r, []int{10, 64, 256, 1000, 5000})))
			}
			b = closeVal(r, a)
			c.Event("near misses")
		default:
			b = nearVal(r, a)
		}
		ra, rb := toReal(a), toReal(b)
		want := equalVals(a, b)
		if got := edlisp.Equal(ra, rb); got != want {
			c.Fail("equal", "Equal(%s, %s) is %v", a, b, got)
		}
		if edlisp.Equal(rb, ra) != want {
			c.Fail("equal", "Equal is not symmetric on %s and %s", a, b)
		}
		if !hasNaN(a) && !edlisp.Equal(ra, ra) {
			c.Fail("equal", "%s is not equal to itself", a)
		}
		if edlisp.Equal(ra, nil) || edlisp.Equal(nil, ra) || !edlisp.Equal(nil, nil) {
			c.Fail("equal", "comparing %s with no value", a)
		}
		if !model.Same(fromReal(ra), a) || !model.Same(fromReal(rb), b) {
			c.Fail("equal", "comparing %s and %s changes them", a, b)
		}
		kinds := []edlisp.ValueKind{edlisp.TheStringKind, edlisp.TheNumberKind, edlisp.TheSymbolKind, edlisp.TheListKind}
		for k, kind := range kinds {
			if edlisp.IsA(ra, kind) != (k == int(a.K)) {
				c.Fail("kind", "IsA(%s, %s) is %v", a, kind.KindName(), edlisp.IsA(ra, kind))
			}
		}
		if want {
			c.Event("equal pairs")
		} else {
			c.Event("unequal pairs")
		}
		c.Eval("equal:" + a.String() + "|" + b.String())
		c.Sample("Equal(%s, %s) = %v", a, b, want)
	})

	// Lists are values: no operation on one shows in another.
	c.Each("lists", c.scale(12000, 200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		type pair struct {
			real *edlisp.List
			want []val
		}
		var live []pair
		fresh := func() {
			l := g.wild(2)
			for l.K != model.List {
				l = g.wild(2)
			}
			if g.one(60) {
				for n := pick(r, []int{17, 33, 64, 65, 66, 129, 257}); len(l.L) < n; {
					l.L = append(l.L, g.wild(0))
				}
				c.Event("histories of long lists")
			}
			// with and without spare capacity
			elems := make([]edlisp.Value, 0, len(l.L)+pick(r, []int{0, 0, 1, 2, 3, 4, 9, 17, 64}))
			for _, e := range l.L {
				elems = append(elems, toReal(e))
			}
			live = append(live, pair{edlisp.NewList(elems...), l.L})
		}
		fresh()
		var log []string
		for step := 3 + g.n(20); step > 0; step-- {
			k := g.n(len(live))
			p := live[k]
			switch g.n(6) {
			case 0:
				fresh()
				log = append(log, "new")
			case 1, 2:
				e := g.wild(1)
				live = append(live, pair{p.real.Append(toReal(e)), append(append([]val(nil), p.want...), e)})
				log = append(log, fmt.Sprintf("%d.Append(%s)", k, e))
			case 3, 4:
				w := p.want
				if len(w) > 0 {
					w = w[1:]
				}
				live = append(live, pair{p.real.Rest(), w})
				log = append(log, fmt.Sprintf("%d.Rest", k))
			case 5:
				n := g.n(len(p.want)+3) - 1
				got := p.real.Get(n)
				if in := n >= 0 && n < len(p.want); in != (got != nil) || in && !model.Same(fromReal(got), p.want[n]) {
					c.Fail("list", "Get(%d) of %s is %v", n, model.L(p.want...), got)
				}
			}
			for k, p := range live {
				if !model.Same(fromReal(p.real), model.L(p.want...)) {
					c.Fail("list", "after %s list %d is %s, want %s", strings.Join(log, ", "), k, fromReal(p.real), model.L(p.want...))
					return
				}
				if p.real.Len() != len(p.want) || p.real.IsEmpty() != (len(p.want) == 0) {
					c.Fail("list", "Len %d IsEmpty %v of %s", p.real.Len(), p.real.IsEmpty(), model.L(p.want...))
				}
				if f := p.real.First(); (f == nil) != (len(p.want) == 0) || f != nil && !model.Same(fromReal(f), p.want[0]) {
					c.Fail("list", "First of %s is %v", model.L(p.want...), f)
				}
				c.Event("list states compared")
			}
		}
		c.Eval(fmt.Sprintf("lists:%d:%s", i, strings.Join(log, ";")))
	})

	// Printing a value neither changes it nor depends on anything else, and
	// values that differ are printed differently.
	c.Each("print", c.scale(20000, 200000), func(r *rand.Rand, i int) {
		g := newGen(r)
		a := g.wild(2)
		rv := toReal(a)
		s1, s2 := fmt.Sprint(rv), fmt.Sprint(toReal(a))
		if s1 != s2 {
			c.Fail("print", "%s is printed as %s and as %s", a, q(s1), q(s2))
		}
		if want := model.Sexp(a); s1 != want && !strings.Contains(want, "e+") && !strings.Contains(want, "NaN") && !strings.Contains(want, "Inf") {
			c.Fail("print", "%s is printed as %s", q(want), q(s1))
		}
		var b strings.Builder
		if err := (&writer.SExpWriter{}).WriteValue(&b, rv); err != nil || b.String() != s1 {
			c.Fail("print", "the S-expression writer writes %s as %s (%v)", q(s1), q(b.String()), err)
		}
		if !model.Same(fromReal(rv), a) {
			c.Fail("print", "printing changes %s to %s", a, fromReal(rv))
		}
		// a close neighbour, right after: nothing of the former print shows
		if v := closeVal(r, a); v.K == model.Num && a.K == model.Num && !math.IsNaN(v.N) && !math.IsNaN(a.N) {
			s3 := fmt.Sprint(toReal(v))
			if f, err := strconv.ParseFloat(s3, 64); err != nil || f != v.N || math.Signbit(f) != math.Signbit(v.N) {
				c.Fail("print", "%s, after %s, is printed as %s, which is another number", v, a, q(s3))
			}
			c.Event("neighbouring numbers printed")
		}
		c.Event("values printed")
		c.Eval("print:" + s1)
	})
}

func init() {
	Props["P38"] = &Prop{Run: runP38,
		Rule:   "generated values of every kind and near misses, compared both ways; histories of list operations over shared lists with all live lists rechecked after every step; distinct by the values",
		Floors: map[string]int64{"equal pairs": 5000, "near misses": 8000, "unequal pairs": 5000, "list states compared": 50000, "values printed": 5000}}
}
