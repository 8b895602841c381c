// Package model is an independent executable model of texted: its values, its
// builtin functions, its evaluator, its script formats and its value printers.
// It is written from the documentation (and, where that is silent, from the
// behaviour pinned by the repository's own tests). It imports nothing from the
// repository, and it favours naive definitions over efficient ones.
package model

import (
	"fmt"
	"math"
	"strconv"
)

// Kind is the kind of a value.
type Kind int

// The four kinds of values.
const (
	Str Kind = iota
	Num
	Sym
	List
)

// Val is a value: a string, a number, a symbol or a list.
type Val struct {
	K Kind
	S string
	N float64
	L []Val
}

func S(s string) Val     { return Val{K: Str, S: s} }
func N(n float64) Val    { return Val{K: Num, N: n} }
func I(n int) Val        { return Val{K: Num, N: float64(n)} }
func Y(s string) Val     { return Val{K: Sym, S: s} }
func L(elems ...Val) Val { return Val{K: List, L: elems} }
func Cmd(f string, args ...Val) Val {
	return Val{K: List, L: append([]Val{Y(f)}, args...)}
}

// Same is structural identity (NaN is identical to NaN).
func Same(a, b Val) bool {
	if a.K != b.K {
		return false
	}
	switch a.K {
	case Str, Sym:
		return a.S == b.S
	case Num:
		return a.N == b.N || (math.IsNaN(a.N) && math.IsNaN(b.N))
	}
	if len(a.L) != len(b.L) {
		return false
	}
	for i := range a.L {
		if !Same(a.L[i], b.L[i]) {
			return false
		}
	}
	return true
}

// SameAll compares programs.
func SameAll(a, b []Val) bool { return Same(L(a...), L(b...)) }

// NumText is the shortest text that denotes n.
func NumText(n float64) string {
	if n == math.Trunc(n) && math.Abs(n) < 9.2e18 {
		return strconv.FormatFloat(n, 'f', 0, 64)
	}
	return fmt.Sprintf("%g", n)
}

// Sexp prints v as an S-expression.
func Sexp(v Val) string { return string(appendSexp(nil, v)) }

func appendSexp(b []byte, v Val) []byte {
	switch v.K {
	case Str:
		return strconv.AppendQuote(b, v.S)
	case Sym:
		return append(b, v.S...)
	case Num:
		return append(b, NumText(v.N)...)
	}
	b = append(b, '(')
	for i, e := range v.L {
		if i > 0 {
			b = append(b, ' ')
		}
		b = appendSexp(b, e)
	}
	return append(b, ')')
}

func (v Val) String() string { return Sexp(v) }
