package main

import (
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/dhamidi/texted/zzverif/model"
)

type val = model.Val

// gen makes random texts, arguments and programs.
type gen struct {
	r       *rand.Rand
	noBad   bool // no invalid UTF-8
	jsonOK  bool // only what every script format can carry
	noNest  bool // no nested calls (shell format)
	plain   bool // the texts may be large: no computed patterns, which may be as large as the text
	big     bool // larger texts
	strings []string
}

func newGen(r *rand.Rand) *gen { return &gen{r: r} }

func (g *gen) n(n int) int               { return g.r.Intn(n) }
func (g *gen) one(in int) bool           { return g.r.Intn(in) == 0 }
func pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }

var (
	wordsA = []string{"foo", "bar", "baz", "a", "b", "the", "Hello", "WORLD", "x1", "42", "func", "return", "foo_bar", "kebab-case", "it's", "don't", "ab", "abab", "aa", "naïve", "über", "日本語", "Straße", "İstanbul", "🙂", "e\u0301", "ǆ", "ﬁ", "\u00a0"}
	seps   = []string{" ", " ", " ", " ", "  ", "\n", "\n", "\n\n", "\t", ", ", ". ", "; ", "(", ")", "{\n\t", "\n}", "=", "\"", "'", "\\", "/", "\r\n", "-", "_", "$1", "%d", "#", "<b>", "&amp;", "\x00", "\v", "\f", "\u2028", "\ufeff"}
	// what a tool that reads scripts or texts line by line might trip over
	traps = []string{" #1", "item #2", "# x", " // x", "/* x */", " -- x", "<!-- x -->", "$HOME", "${HOME}", "$(date)", "`date`", "%HOME%", "{{x}}", "%s %d", "~", "\ufeff", "\ufeffa", "\\", "x\\", "\\\n", " \\", "; ", ";;", "a;b", " ;b", "'a'", "''", "\"\"", "@x", "!x", "---", "---\n", "EOF", "\x1a", "\x04", "\r", "\r\n", "a\r", " \n", "  x  ", "\t", "\n\n\n", "(", ")", "[", "]", "{}", ",", ":", "=", "&", "|", ">", "<", "*", "?", "\x1b[0m", "nil", "t", "-1", "1e3", "0x10", "007"}
	// what a script file might start with
	// what the contents of files of other kinds start with
	magic  = []string{"\x1f\x8b", "\x1f\x8b\x08", "\x7fELF", "PK\x03\x04", "%PDF-1.4", "\x89PNG\r\n\x1a\n", "GIF89a", "\xff\xd8\xff", "BZh9", "\xfd7zXZ\x00", "\xfe\xff", "\xff\xfe", "\xff\xfe\x00\x00", "\x00\x00\xfe\xff", "\xef\xbb\xbf", "\xef\xbb", "MZ", "\xca\xfe\xba\xbe", "SQLite format 3\x00", "BM", "#!/bin/sh", "#!/usr/bin/python", "<?php", "<?xml version=\"1.0\" encoding=\"UTF-16\"?>", "<!DOCTYPE html>", "-----BEGIN PGP MESSAGE-----", "---", "{\\rtf1", "From ", "diff --git a/x b/x", "<<<<<<< HEAD", "// Code generated by x. DO NOT EDIT.", "# generated, do not edit", "%!PS", "ID3", "RIFF", "version https://git-lfs.github.com/spec/v1", "$ANSIBLE_VAULT;1.1;AES256"}
	heads  = []string{"#!/usr/bin/env texted\n", "#!texted edit -f\n", "# -*- mode: texted -*-\n", "#\n", ";; x\n", "; x\n", "// x\n", "/* x */\n", "--- x\n", "\ufeff", "\xff\xfe", "<?xml version=\"1.0\"?>\n", "%!\n", "format: json\n", "\x00"}
	runesU = []rune("aAzZ019 _-.,;()\"'\\\n\n\té߀日🙂İıſKΣςǅﬀ\u0301\u00a0\u0000\u2028\U0010FFFF\uFFFD")
	bads   = []string{"\xff", "\xc3", "\xe6\x97", "\x80", "\xf0\x9f\x99", "\xed\xa0\x80", "\xc0\xaf"}
)

// text makes a buffer content.
func (g *gen) text() string {
	size := g.n(14)
	switch k := g.n(40); {
	case k < 12:
		size = g.n(8)
	case k < 33:
	case k < 38:
		size = 20 + g.n(80)
	case k == 38:
		size = 300 + g.n(600)
	default:
		size = 100 + g.n(3000)
		if g.big {
			size = 2000 + g.n(40000)
		}
	}
	var b strings.Builder
	switch k := g.n(12); k {
	case 0, 1, 2, 3: // prose and code
		for i := 0; i < size; i++ {
			b.WriteString(pick(g.r, wordsA))
			b.WriteString(pick(g.r, seps))
		}
	case 4: // ASCII lines
		nl := "\n"
		if g.one(4) {
			nl = "\r\n"
		}
		for i := 0; i < size; i++ {
			for j := g.n(5); j > 0; j-- {
				b.WriteString(pick(g.r, wordsA[:14]))
				b.WriteByte(' ')
			}
			b.WriteString(nl)
		}
	case 5: // repetitive
		unit := pick(g.r, []string{"a", "ab", "aab", "a ", "a\n", "\n", "é", "foo ", "x-"})
		b.WriteString(strings.Repeat(unit, size))
	case 6, 7: // tiny alphabet
		al := pick(g.r, []string{"ab \n", "a\n", "a b.", "aé \n", "xX1_ ", "a[b]*.", "(a)|b?\n"})
		rs := []rune(al)
		for i := 0; i < size; i++ {
			b.WriteRune(pick(g.r, rs))
		}
	case 8, 9: // any runes
		for i := 0; i < size; i++ {
			b.WriteRune(pick(g.r, runesU))
		}
	case 10: // ASCII bytes
		if g.one(2) {
			b.WriteString(g.odd(size))
			break
		}
		for i := 0; i < size; i++ {
			b.WriteByte(byte(g.n(128)))
		}
	default: // any bytes
		for i := 0; i < size; i++ {
			if g.one(6) {
				b.WriteString(pick(g.r, bads))
			} else if g.one(6) {
				b.WriteByte(byte(g.n(256)))
			} else {
				b.WriteString(pick(g.r, wordsA))
			}
		}
	}
	s := b.String()
	switch g.n(6) {
	case 0:
		s = strings.TrimRight(s, "\n")
	case 1:
		s += "\n"
	}
	if g.noBad {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// odd makes a text of bytes that tools like to treat specially.
func (g *gen) odd(n int) string {
	al := pick(g.r, []string{"\r\n", "\r\r\n", "\r\na", "\r\n \t", "\x00a", "\x00\n", "\ufeff\n", "\ufeffa\r", "\x1a\n", "\t \n", " \n", "\u2028\n", "\u0085\r\n", "\f\v\n", "\\\n", "\"'\n", "\x1b[m", "e\u0301", "\u00a0 \n", "\u200d🙂\ufe0f"})
	rs := []rune(al)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(pick(g.r, rs))
	}
	return b.String()
}

// str makes a string argument.
func (g *gen) str() string {
	var s string
	switch g.n(13) {
	case 0:
		s = ""
	case 1, 2, 3:
		s = pick(g.r, wordsA)
	case 4:
		s = pick(g.r, seps)
	case 5:
		s = pick(g.r, wordsA) + pick(g.r, seps) + pick(g.r, wordsA)
	case 6:
		s = pick(g.r, []string{"a", "b", "\n", "é", " ", "ab", "\"", "\\", ";", ")", "(", "\\n", "a;b", "\"q\"", "[", "]", "'", "#x", "1", "t", "nil", "\\&", "&", "\\0", "\\1", "$&", "$0", "${1}", "\\\\", "%s"})
	case 7:
		for i := g.n(6); i >= 0; i-- {
			s += string(pick(g.r, runesU))
		}
	case 8:
		if g.noBad {
			s = "\u00ff\u0080"
		} else {
			s = pick(g.r, bads) + pick(g.r, wordsA)
		}
	case 9:
		s = strings.Repeat(pick(g.r, wordsA), 1+g.n(20))
	case 10:
		s = strings.Repeat(pick(g.r, seps), 1+g.n(4))
	case 11:
		for i := g.n(3); i >= 0; i-- {
			s += pick(g.r, []string{"", "a", " ", pick(g.r, wordsA)}) + pick(g.r, traps)
		}
	default:
		s = g.text()
		if len(s) > 200 && !g.one(20) {
			s = s[:200]
		}
	}
	if g.noBad {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// part is a part of t.
func (g *gen) part(t string) string {
	if t == "" {
		return "a"
	}
	i := g.n(len(t))
	j := i + 1 + g.n(min(12, len(t)-i))
	if g.noBad || g.one(2) {
		for i > 0 && !utf8.RuneStart(t[i]) {
			i--
		}
		for j < len(t) && !utf8.RuneStart(t[j]) {
			j++
		}
	}
	s := t[i:j]
	if g.noBad {
		s = strings.ToValidUTF8(s, "?")
	}
	return s
}

// needle is a part of t to search for, sometimes a long one, or one at an end.
func (g *gen) needle(t string, fwd bool) string {
	if len(t) < 3 || g.n(4) > 0 {
		return g.part(t)
	}
	n := 1 + g.n(min(len(t), 1<<uint(1+g.n(12))))
	i := g.n(len(t) - n + 1)
	switch g.n(4) {
	case 0:
		i = 0
	case 1, 2:
		if g.one(3) == fwd {
			i = len(t) - n
		}
	}
	s := t[i : i+n]
	if g.one(8) { // which may not be there
		b := []byte(s)
		b[g.n(n)] ^= 1
		s = string(b)
	}
	return s
}

// farAhead is a pattern that depends on distant parts of t, farBack one that
// must match up to its end.
func (g *gen) farAhead(t string) string {
	at := 1 + g.n(len(t)-1)
	to := min(len(t), at+1+g.n(30))
	far := regexp.QuoteMeta(strings.ToValidUTF8(t[at:to], ""))
	switch g.n(6) {
	case 0:
		return regexp.QuoteMeta(t[:min(to, 2000)]) // (matched in quadratic time)
	case 1:
		return "(?s).*" + far
	case 2:
		return "(?s).*?" + far
	case 3:
		return "(?s)\\A.*" + far + ".*\\z"
	case 4:
		return far
	}
	return "(?s).*" + far + "$"
}

func (g *gen) farBack(t string) string {
	at := g.n(len(t))
	to := min(len(t), at+1+g.n(30))
	far := regexp.QuoteMeta(strings.ToValidUTF8(t[at:to], ""))
	switch g.n(6) {
	case 0:
		return regexp.QuoteMeta(t[max(at, len(t)-2000):]) // (matched in quadratic time)
	case 1:
		return far + "(?s).*"
	case 2:
		return "(?s)\\A" + regexp.QuoteMeta(strings.ToValidUTF8(t[:min(len(t), 10)], "")) + ".*"
	case 3:
		return "(?s)\\A.*" + far + ".*\\z"
	case 4:
		return "\\A" + far + "(?s).*"
	}
	return far
}

// literal is a part of t with special characters of patterns in it, if there are any.
func (g *gen) literal(t string) string {
	at := strings.IndexAny(t, "[](){}*+?.|^$\\")
	if at < 0 {
		return ""
	}
	from := max(0, at-g.n(4))
	return t[from:min(len(t), at+1+g.n(6))]
}

var badRegexps = []string{"(", ")", "[", "*", "a**", "a{2,1}", "\\", "(?P<x>", "[z-a]", "+", "(?i", "a{1001}", "[[:foo:]]"}

// regex makes a pattern, with matches in t likely.
func (g *gen) regex(t string) string {
	p := g.regex1(t)
	if g.noBad {
		p = strings.ToValidUTF8(p, "?")
	}
	return p
}

func (g *gen) regex1(t string) string {
	switch g.n(16) {
	case 0:
		return pick(g.r, badRegexps)
	case 1, 2, 3:
		return regexp.QuoteMeta(g.part(t))
	case 4:
		return g.part(t) // maybe invalid
	case 5:
		return pick(g.r, []string{"^", "$", "", "x*", "\\b", "(?m)^", "(?m)$", "a*", "\\z", "\\A", "\\B"})
	case 6, 7:
		return pick(g.r, []string{"\\w+", "[a-z]+", ".", ".*", ".+", "[^\\n]+", "\\d+", "\\s+", "(?s).*", "(?s).+", "\\n", "[A-Z]\\w*", "a|ab", "ab|a", "(a)(b)?", "(?i)HELLO", "\\S+\\s", "\\w+$", "(?m)\\w+$", "(?m)^\\w+", "\\pL+", "[[:alpha:]]+", "(\\w+) (\\w+)", "(?U)a+", "a+?", "(?:ab)+", "\\x{65E5}", "[^a]", "a.c", "\\bfoo\\b", "o\\b"})
	default:
		return g.regexTree(3)
	}
}

func (g *gen) regexTree(d int) string {
	if d == 0 || g.one(3) {
		return pick(g.r, []string{"a", "b", "o", "x", " ", ".", "\\w", "\\s", "[ab]", "[^a]", "\\n", "é", "f", "\\d", "-"})
	}
	switch g.n(6) {
	case 0, 1:
		return g.regexTree(d-1) + g.regexTree(d-1)
	case 2:
		return "(" + g.regexTree(d-1) + ")" + pick(g.r, []string{"", "*", "?", "+", "{1,2}", "*?"})
	case 3:
		return "(?:" + g.regexTree(d-1) + "|" + g.regexTree(d-1) + ")"
	case 4:
		return pick(g.r, []string{"a", "b", "\\w", ".", "[ab]", "é"}) + pick(g.r, []string{"*", "+", "?", "{2}"})
	default:
		return g.regexTree(d-1) + pick(g.r, []string{"$", "\\b", "", ""})
	}
}

// num makes a number for a text of the given size.
func (g *gen) num(size int) float64 {
	switch g.n(20) {
	case 0:
		return 0
	case 1:
		return float64(-1 - g.n(4))
	case 2:
		return float64(size + g.n(5) - 2)
	case 3:
		return float64(g.n(size + 3))
	case 4:
		return pick(g.r, []float64{1.5, 0.5, -0.5, 2.999, 0.999, -1.5, 3.0000001, 1e-9, 1234567.5, 1e6 + 0.1, 123456789.125, 0.1 + 0.2, 1e-7, 1.0 / 3, 4503599627370495.5, -1234567.75, 999999.9999999999, 1234567.12345678, -7654321.000000125, 1e15 + 0.125, 1e20 + 1e5, 5e-324, 123.45678901234567})
	case 5:
		return pick(g.r, []float64{100, 1000, 65536, 1e6, 1e9, 2147483647, 2147483648, 4294967296, 9007199254740993, 9.2e18, 9223372036854775807, 1e19, 1e300, math.MaxFloat64, -1e9, -1e19, -1e300, -2147483649})
	case 6:
		if g.jsonOK {
			return 7
		}
		return pick(g.r, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
	case 7, 8:
		return float64(-(g.n(size + 2)))
	case 9, 10, 11:
		return float64(1 + g.n(size+1))
	default:
		return float64(g.n(7))
	}
}

var allFns = sortedKeys(model.Sigs)

var regexFns = map[string]bool{"re-search-forward": true, "re-search-backward": true, "looking-at": true, "looking-back": true, "string-match": true, "replace-regexp-in-string": true}

// call makes a well-typed call of fn for the given state; args may be nested calls.
func (g *gen) call(fn string, st *model.State, depth int) val {
	sg := model.Sigs[fn]
	kinds := sg.Kinds
	n := len(kinds)
	if sg.Variadic {
		n = g.n(5)
		if g.one(30) {
			n = g.n(40)
		}
		if g.one(1500) {
			n = pick(g.r, []int{100, 128, 255, 256, 257, 300, 1000, 1100})
		}
		kinds = make([]model.Kind, n)
		for i := range kinds {
			kinds[i] = model.Str
		}
	} else if n > sg.Min && g.one(3) {
		n = sg.Min
	}
	c := model.Cmd(fn)
	for i := 0; i < n; i++ {
		if i > 0 && c.L[i].K == model.List && kinds[i] == kinds[i-1] && !regexFns[fn] && g.one(4) { // once more
			c.L = append(c.L, c.L[i])
			continue
		}
		if depth > 0 && !g.noNest && !(g.plain && i == 0 && regexFns[fn]) && g.one(5) && (n < 50 || g.one(20)) {
			c.L = append(c.L, g.nested(kinds[i], st, depth-1))
			continue
		}
		if kinds[i] == model.Num {
			c.L = append(c.L, model.N(g.num(len(st.Text))))
			continue
		}
		s := ""
		switch {
		case i == 0 && regexFns[fn]:
			t := st.Text
			switch {
			case fn == "looking-at" || fn == "re-search-forward":
				t = st.Text[st.Point-1:]
				if fn == "looking-at" && g.one(2) && len(t) > 0 {
					s = regexp.QuoteMeta(t[:1+g.n(min(6, len(t)))])
				}
				if s == "" && len(t) > 200 && len(t) < 60000 && g.one(2) { // far away
					s = g.farAhead(t)
				}
			case fn == "re-search-backward" || fn == "looking-back":
				t = st.Text[:st.Point-1]
				if fn == "looking-back" && g.one(2) && len(t) > 0 {
					s = regexp.QuoteMeta(t[len(t)-1-g.n(min(6, len(t))):])
				}
				if s == "" && len(t) > 200 && (fn == "looking-back" && len(t) < 60000 || len(t) < 5000) && g.one(2) { // far away
					s = g.farBack(t)
				}
			}
			if len(t) > 3000 {
				t = t[:3000]
			}
			if s == "" && len(t) > 2 && g.one(6) { // the pattern occurs in the text as it is
				if s = g.literal(t); s != "" && g.noBad {
					s = strings.ToValidUTF8(s, "?")
				}
			}
			if s == "" {
				s = g.regex(t)
			}
		case fn == "string-match" && i == 1 && g.one(3), fn == "replace-regexp-in-string" && i == 2 && g.one(6): // which has the pattern itself
			s = pick(g.r, []string{"", "a", "x ", "b\n", pick(g.r, wordsA), g.str()}) + c.L[1].S + pick(g.r, []string{"", "b", " a"})
		case fn == "search-forward" && g.n(4) > 0:
			s = g.needle(st.Text[st.Point-1:], true)
		case fn == "search-backward" && g.n(4) > 0:
			s = g.needle(st.Text[:st.Point-1], false)
		case fn == "replace-regexp-in-string" && i == 1 && g.one(2):
			s = pick(g.r, []string{"$1", "${1}x", "$0", "[$0]", "$$", "$name", "\\1", "$2$1", "<${0}>", "$1x"})
		case fn == "replace-match" && g.one(4):
			s = st.Match + pick(g.r, []string{"", "x", st.Match})
		default:
			s = g.str()
		}
		if g.noBad {
			s = strings.ToValidUTF8(s, "?")
		}
		c.L = append(c.L, model.S(s))
	}
	return c
}

var (
	strFns = []string{"buffer-substring", "concat", "substring", "upcase", "downcase", "capitalize", "replace-regexp-in-string"}
	numFns = []string{"point", "mark", "point-max", "point-min", "buffer-size", "length", "current-column", "line-number-at-pos", "region-beginning", "region-end"}
)

func (g *gen) nested(k model.Kind, st *model.State, depth int) val {
	if k == model.Num {
		return g.call(pick(g.r, numFns), st, depth)
	}
	if g.one(15) { // a command as an argument: its effects come first
		return g.call(pick(g.r, []string{"insert", "forward-char", "delete-char", "set-mark", "search-forward", "end-of-line"}), st, depth)
	}
	return g.call(pick(g.r, strFns), st, depth)
}

// groups of functions to draw from: what users do together.
var groups = [][]string{
	{"search-forward", "replace-match", "insert", "backward-char", "beginning-of-buffer"},
	{"set-mark", "forward-word", "delete-region", "search-forward", "replace-region", "exchange-point-and-mark"},
	{"re-search-forward", "re-search-backward", "replace-match", "goto-char", "looking-at", "looking-back"},
	{"goto-line", "end-of-line", "beginning-of-line", "kill-line", "delete-line", "insert", "mark-line", "replace-region"},
	{"kill-word", "backward-kill-word", "forward-word", "backward-word", "mark-word", "delete-region"},
	{"delete-char", "delete-backward-char", "goto-char", "insert", "set-mark-command", "exchange-point-and-mark", "delete-region"},
	{"point", "mark", "region-beginning", "region-end", "goto-char", "set-mark-command", "current-column", "line-number-at-pos", "end-of-line"},
	{"search-backward", "replace-match", "end-of-buffer", "insert", "delete-char"},
	{"mark-whole-buffer", "replace-region", "delete-region", "insert", "exchange-point-and-mark", "region-beginning", "region-end", "mark"},
}

// program makes a program of n top-level instructions that mostly succeeds from
// st. focus functions come up more often.
func (g *gen) program(st model.State, n int, focus []string, tolerateErr bool) []val {
	grp := pick(g.r, groups)
	var prog []val
	for tries := 0; len(prog) < n && tries < 6*n; tries++ {
		var fn string
		switch {
		case len(focus) > 0 && g.n(3) == 0:
			fn = pick(g.r, focus)
		case g.n(3) > 0:
			fn = pick(g.r, grp)
		default:
			fn = pick(g.r, allFns)
		}
		c := g.call(fn, &st, 2)
		if len(prog) > 0 && g.one(8) { // once more
			c = prog[len(prog)-1-g.n(min(3, len(prog)))]
		}
		o := model.Eval([]val{c}, st, nil)
		if o.Err != "" && !tolerateErr && !g.one(12*n+12) {
			continue // a failing instruction would end the program
		}
		if len(o.State.Text) > 2_000_000 {
			continue
		}
		prog = append(prog, c)
		if o.Err != "" {
			if !tolerateErr {
				return prog
			}
			continue
		}
		st = o.State
		if g.one(25) {
			grp = pick(g.r, groups)
		}
	}
	return prog
}

// long makes a program of n instructions that surely succeed and whose effects
// tell each of them apart.
func (g *gen) long(n int) []val {
	prog := make([]val, 0, n)
	for i := 0; i < n; i++ {
		var c val
		switch g.n(15) {
		case 12, 13, 14: // what one instruction leaves for the next
			if i > 0 && len(prog[i-1].L) > 0 && prog[i-1].L[0].S == "insert" {
				prog = append(prog, model.Cmd("search-backward", model.S(prog[i-1].L[1].S[:1])))
				c = model.Cmd("replace-match", model.S(pick(g.r, []string{"", "x", "yy"})))
				i++
				break
			}
			fallthrough
		case 0:
			c = model.Cmd(pick(g.r, []string{"beginning-of-line", "end-of-line", "end-of-buffer", "set-mark", "point", "mark-word"}))
		case 1:
			c = model.Cmd("forward-char", model.N(float64(g.n(5))))
		case 2:
			c = model.Cmd("backward-char")
		case 3:
			c = model.Cmd("delete-char")
		case 4:
			if i > 0 && prog[i-1].L[0].S != "replace-match" { // which needs a search of its own
				c = prog[i-1]
				break
			}
			fallthrough
		default:
			s := strconv.Itoa(i) + pick(g.r, []string{" ", "\n", ".", ""})
			c = model.Cmd("insert", model.S(s))
		}
		prog = append(prog, c)
	}
	return prog
}

// smallTexts enumerates all texts of at most n letters of an alphabet.
func smallTexts(alphabet []string, n int) []string {
	out := []string{""}
	from := 0
	for i := 0; i < n; i++ {
		to := len(out)
		for _, t := range out[from:to] {
			for _, a := range alphabet {
				out = append(out, t+a)
			}
		}
		from = to
	}
	return out
}

// alike makes calls of fn whose arguments are different, but the same once
// they are joined by some separator, have the same letters or the same lengths.
func (g *gen) alike(fn, text string) []val {
	r := g.r
	sep := pick(r, []string{"", "", "", " ", ",", ", ", "/", "|", ":", ";", "-", "_", "\x00", "\n", "\t", "\x1f", "#", "::", "\" \"", ")("})
	var out []val
	switch fn {
	case "substring":
		d := strconv.Itoa(1 + g.n(30))
		s := g.str() + sep
		for _, w := range []string{"1", "12", "121"} {
			for k := 0; k < len(w); k++ { // digits that may belong to the string or to the first number
				a, _ := strconv.Atoi(w[k:])
				e, _ := strconv.Atoi(d)
				out = append(out, model.Cmd(fn, model.S(s+w[:k]), model.N(float64(a)), model.N(float64(e))))
			}
		}
		for _, x := range []float64{1, 1.2, 1.7, 2} {
			out = append(out, model.Cmd(fn, model.S(s+"abc"), model.N(x), model.N(4)))
		}
	case "buffer-substring":
		for _, x := range [][2]float64{{1, 23}, {12, 3}, {123, 0}, {1, 2}, {1.5, 2}, {2, 1}, {1, 2.5}, {11, 2}, {1, 12}} {
			out = append(out, model.Cmd(fn, model.N(x[0]), model.N(x[1])))
		}
	default:
		n := map[string]int{"string-match": 2, "replace-regexp-in-string": 3, "concat": 2 + g.n(3)}[fn]
		s := ""
		for k := 0; k < n+g.n(4); k++ {
			if k > 0 {
				s += sep
			}
			s += pick(r, []string{"", "a", "b", "ab", "ba", "aa", "é", "x", ".", "$0", "a*", "abab", "1"})
		}
		seen := map[string]bool{}
		for k := 0; k < 12; k++ {
			parts := strings.SplitN(s, sep, -1)
			for len(parts) > n { // join two neighbours again
				j := g.n(len(parts) - 1)
				parts = append(append(append([]string{}, parts[:j]...), parts[j]+sep+parts[j+1]), parts[j+2:]...)
			}
			for len(parts) < n {
				parts = append(parts, "")
			}
			if key := strings.Join(parts, "\xff"); seen[key] {
				continue
			} else {
				seen[key] = true
			}
			e := model.Cmd(fn)
			for _, p := range parts {
				e.L = append(e.L, model.S(p))
			}
			out = append(out, e)
		}
		// the same arguments in another order, and others of the same lengths
		e := model.Cmd(fn)
		for j := len(out[0].L) - 1; j > 0; j-- {
			e.L = append(e.L, out[0].L[j])
		}
		out = append(out, e)
		e = model.Cmd(fn)
		for _, a := range out[0].L[1:] {
			t := []byte(a.S)
			for x, y := 0, len(t)-1; x < y; x, y = x+1, y-1 {
				t[x], t[y] = t[y], t[x]
			}
			e.L = append(e.L, model.S(string(t)))
		}
		out = append(out, e)
	}
	r.Shuffle(len(out), func(a, b int) { out[a], out[b] = out[b], out[a] })
	return out
}

// neighbour is a text that differs from t in something small.
func (g *gen) neighbour(t string) string {
	if len(t) < 2 {
		return t + pick(g.r, []string{"a", " ", "\n"})
	}
	b := []byte(t)
	i, j := g.n(len(b)), g.n(len(b))
	switch g.n(6) {
	case 0:
		b[i], b[j] = b[j], b[i]
	case 1: // the ends are the same
		m := len(b) / 2
		b[m] ^= 1
	case 2:
		b[len(b)-1] ^= 1
	case 3:
		b[0] ^= 1
	case 4:
		return t + pick(g.r, []string{" ", "\n", "\x00", t[:1]})
	default:
		return t[:len(t)-1]
	}
	return string(b)
}

// unknown is a name that is not a function, though it may look like one.
// longName is no function's name, and long.
func (g *gen) longName() string {
	n := pick(g.r, []int{33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 5000, 20000})
	return strings.Repeat(pick(g.r, []string{"x", "é", "search-", "forward-word-", "-a", "日"}), n)
}

func (g *gen) unknown() string {
	fn := pick(g.r, allFns)
	switch g.n(12) {
	case 0:
		fn = fn[:1+g.n(len(fn)-1)]
	case 1:
		fn = fn[1:]
	case 2:
		fn = strings.ToUpper(fn)
	case 3:
		fn = strings.ToUpper(fn[:1]) + fn[1:]
	case 4:
		fn = strings.ReplaceAll(fn, "-", "_")
	case 5:
		fn = strings.ReplaceAll(fn, "-", "")
	case 6:
		fn += pick(g.r, []string{"s", "!", "?", "-", ".", ":", "*", "1", ",", "-1", "-p", "p", "--", "-mode", "-internal", "-function", "/2", "="})
	case 7:
		fn = pick(g.r, []string{":", "-", "texted-", "edlisp.", "'", "`", "/", "+", "builtin-", "edlisp-", "emacs-", "buffer-", "cl-", "do-", "re-", "my/", "--", "?", "$", "@"}) + fn
	case 8:
		at := g.n(len(fn))
		fn = fn[:at] + "x" + fn[at:]
	case 9:
		fn, _, _ = strings.Cut(fn, "-")
	case 10:
		fn = pick(g.r, []string{"search", "delete", "goto", "save-excursion", "progn", "if", "let", "quote", "list", "while", "defun", "setq", "newline", "undo", "next-line", "previous-line", "kill-region", "format", "message", "eval", "not", "and", "or", "+", "=", "eq", "equal", "number-to-string", "char-after", "bobp", "eobp", "erase-buffer", "mark-paragraph", "re-search", "replace-string", "replace-regexp", "print", "forward-line", "mark-ring"})
	default:
		fn = "no-such-function"
	}
	if _, ok := model.Sigs[fn]; ok {
		return "no-such-function"
	}
	return fn
}
