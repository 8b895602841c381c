package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/zzverif/model"
)

// rend writes programs as scripts, in one of the many ways a program can be
// written: every script it makes denotes exactly the program it is given.
type rend struct{ r *rand.Rand }

func (w rend) sp() string {
	return pick(w.r, []string{" ", " ", " ", " ", "  ", "\t", " \t "})
}

func (w rend) osp() string { return pick(w.r, []string{"", "", "", " ", "\t", "  "}) }

// lineString writes a string literal of the line-based format.
func (w rend) lineString(s string) string {
	switch w.r.Intn(4) {
	case 0:
		return strconv.Quote(s)
	case 1:
		return strconv.QuoteToASCII(s)
	}
	style := w.r.Intn(3)
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			if w.r.Intn(2) == 0 {
				fmt.Fprintf(&b, `\x%02x`, s[i])
			} else {
				fmt.Fprintf(&b, `\%03o`, s[i])
			}
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(pick(w.r, []string{`\n`, `\n`, `\x0a`, `\012`, `\u000a`}))
		case r == '\r':
			if style == 2 && w.r.Intn(2) == 0 {
				b.WriteByte('\r') // a string may hold a bare carriage return
			} else {
				b.WriteString(`\r`)
			}
		case style == 1 && w.r.Intn(4) == 0 && n > 1:
			if r > 0xffff {
				fmt.Fprintf(&b, `\U%08X`, r)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		case style == 2 && w.r.Intn(4) == 0:
			for _, c := range []byte(s[i : i+n]) {
				fmt.Fprintf(&b, `\x%02X`, c)
			}
		default:
			b.WriteString(s[i : i+n]) // literally, control characters included
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

func (w rend) lineNum(f float64) string {
	if math.IsNaN(f) {
		return pick(w.r, []string{"NaN", "nan"})
	}
	if math.IsInf(f, 0) {
		return pick(w.r, []string{"", "+"})[:0] + map[bool]string{true: "+Inf", false: "-inf"}[f > 0]
	}
	forms := []string{strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'e', -1, 64), model.NumText(f)}
	if model.NumText(f) != strconv.FormatFloat(f, 'f', -1, 64) {
		forms = forms[:2] // %g loses digits
	}
	if math.Abs(f) < 1e15 {
		ff := strconv.FormatFloat(f, 'f', -1, 64)
		forms = append(forms, ff, ff, ff)
		if f >= 0 && !math.Signbit(f) {
			forms = append(forms, "+"+ff, "0"+ff)
		}
		if f == math.Trunc(f) {
			forms = append(forms, ff+".0", ff+".")
		}
	}
	return pick(w.r, forms)
}

func (w rend) atom(v val) string {
	switch v.K {
	case model.Str:
		return w.lineString(v.S)
	case model.Num:
		return w.lineNum(v.N)
	}
	return v.S
}

func (w rend) sexp(v val) string {
	if v.K != model.List {
		return w.atom(v)
	}
	var b strings.Builder
	b.WriteString("(" + w.osp())
	for i, e := range v.L {
		s := w.sexp(e)
		if i > 0 && (e.K == model.List || v.L[i-1].K == model.List) {
			b.WriteString(w.osp())
		} else if i > 0 {
			b.WriteString(w.sp())
		}
		b.WriteString(s)
	}
	b.WriteString(w.osp() + ")")
	return b.String()
}

func (w rend) shellCmd(v val) string {
	var b strings.Builder
	for i, e := range v.L {
		if i > 0 {
			b.WriteString(w.sp())
		}
		b.WriteString(w.sexp(e))
	}
	return b.String()
}

func (w rend) sep() string {
	return pick(w.r, []string{"\n", "\n", "\n", "\n", ";", "; ", " ; ", "\n\n", "\r\n", " \n", "\n  ", ";\n", ";;", "\n\t\n", "\n;"})
}

// shellable: the command can be written without parentheses around it.
func shellable(v val) bool {
	return v.K == model.List && len(v.L) > 0 && v.L[0].K != model.List
}

// lines writes a program in the line-based format; style is "shell", "sexp" or
// "mixed". A command that cannot be written shell-like is parenthesised.
func (w rend) lines(prog []val, style string) string {
	var b strings.Builder
	b.WriteString(pick(w.r, []string{"", "", "", "\n", " ", "\r\n", "\t\n"}))
	prevParen := false
	for i, c := range prog {
		paren := style == "sexp" || style == "mixed" && w.r.Intn(2) == 0 || !shellable(c)
		if i > 0 {
			if prevParen && paren && w.r.Intn(4) == 0 {
				b.WriteString(w.osp()) // several on a line
			} else {
				b.WriteString(w.sep())
			}
		}
		if paren {
			b.WriteString(w.sexp(c))
		} else {
			b.WriteString(w.shellCmd(c))
		}
		prevParen = paren
	}
	b.WriteString(pick(w.r, []string{"", "", "\n", "\n", " ", ";", "\r\n", "\n\n"}))
	return b.String()
}

func (w rend) jsp() string {
	return pick(w.r, []string{"", "", "", "", " ", "\n", "\t", "\r\n", "  "})
}

func (w rend) jsonString(s string) string {
	style := w.r.Intn(3)
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n' && w.r.Intn(2) == 0:
			b.WriteString(`\n`)
		case r == '\t' && w.r.Intn(2) == 0:
			b.WriteString(`\t`)
		case r == '/' && style == 1:
			b.WriteString(`\/`)
		case r < 0x20 || style == 2 && w.r.Intn(3) == 0:
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (w rend) jsonNum(f float64) string {
	forms := []string{strconv.FormatFloat(f, 'g', -1, 64), strconv.FormatFloat(f, 'e', -1, 64)}
	if math.Abs(f) < 1e15 {
		ff := strconv.FormatFloat(f, 'f', -1, 64)
		forms = append(forms, ff, ff, ff)
		if f == math.Trunc(f) {
			forms = append(forms, ff+".0", ff+"e0")
		}
	}
	return pick(w.r, forms)
}

func (w rend) jsonVal(v val) string {
	switch v.K {
	case model.Str, model.Sym:
		return w.jsonString(v.S)
	case model.Num:
		return w.jsonNum(v.N)
	}
	var b strings.Builder
	b.WriteString("[" + w.jsp())
	for i, e := range v.L {
		if i > 0 {
			b.WriteString(w.jsp() + "," + w.jsp())
		}
		b.WriteString(w.jsonVal(e))
	}
	b.WriteString(w.jsp() + "]")
	return b.String()
}

// json writes a program as an array of commands, a stream of commands, or a mix.
func (w rend) json(prog []val) string {
	var b strings.Builder
	b.WriteString(w.jsp())
	group := func(p []val) {
		b.WriteString("[" + w.jsp())
		for i, c := range p {
			if i > 0 {
				b.WriteString(w.jsp() + "," + w.jsp())
			}
			b.WriteString(w.jsonVal(c))
		}
		b.WriteString(w.jsp() + "]")
	}
	switch w.r.Intn(3) {
	case 0:
		group(prog)
	case 1:
		for _, c := range prog {
			b.WriteString(w.jsonVal(c) + pick(w.r, []string{"\n", "\n", " ", "", "\r\n"}))
		}
	default:
		for i := 0; i < len(prog); {
			if w.r.Intn(12) == 0 { // nothing
				b.WriteString("[" + w.jsp() + "]" + w.jsp())
			}
			if w.r.Intn(2) == 0 {
				b.WriteString(w.jsonVal(prog[i]))
				i++
			} else {
				n := 1 + w.r.Intn(len(prog)-i)
				group(prog[i : i+n])
				i += n
			}
			b.WriteString(w.jsp())
		}
	}
	return b.String()
}

// script writes a program in the given format.
func (w rend) script(prog []val, format string) string {
	switch format {
	case "json":
		return w.json(prog)
	case "sexp":
		return w.lines(prog, pick(w.r, []string{"sexp", "sexp", "mixed"}))
	}
	return w.lines(prog, pick(w.r, []string{"shell", "shell", "mixed"}))
}

// jsonable: JSON can carry the value (symbols only as heads).
func jsonable(v val, head bool) bool {
	switch v.K {
	case model.Str:
		return utf8.ValidString(v.S) && !head
	case model.Sym:
		return utf8.ValidString(v.S) && head
	case model.Num:
		return !math.IsNaN(v.N) && !math.IsInf(v.N, 0) && !head
	}
	if len(v.L) == 0 || head {
		return false
	}
	for i, e := range v.L {
		if !jsonable(e, i == 0) {
			return false
		}
	}
	return true
}

func jsonableAll(p []val) bool {
	for _, v := range p {
		if v.K != model.List || !jsonable(v, false) {
			return false
		}
	}
	return true
}
