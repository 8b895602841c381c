package model

import (
	"math"
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
	"unicode/utf8"
)

// State is the state of a buffer. Positions are 1-based and count bytes.
type State struct {
	Text  string
	Point int
	// RawMark is the position the mark was last set to; the visible mark is
	// limited to the current text.
	RawMark int
	// The last search match, which replace-match replaces.
	Match      string
	MatchStart int // 1-based
	MatchEnd   int
}

// NewState is the state of a fresh buffer.
func NewState(text string) State { return State{Text: text, Point: 1, RawMark: 1} }

// Max is the largest valid position.
func (s *State) Max() int { return len(s.Text) + 1 }

func (s *State) clamp(p int) int {
	if p < 1 {
		return 1
	}
	if p > s.Max() {
		return s.Max()
	}
	return p
}

// Mark is the visible mark.
func (s *State) Mark() int { return s.clamp(s.RawMark) }

func (s *State) region() (from, to int) {
	from, to = s.Mark(), s.Point
	if from > to {
		from, to = to, from
	}
	return
}

// ErrKind classifies errors.
type ErrKind string

const (
	EArity   ErrKind = "arity"
	EType    ErrKind = "type"
	ESearch  ErrKind = "search failed"
	ERegexp  ErrKind = "invalid regexp"
	ENoMatch ErrKind = "no previous match"
	EStale   ErrKind = "stale match"
	EUndef   ErrKind = "undefined function"
	EEmpty   ErrKind = "empty list"
	EHead    ErrKind = "head is not a symbol"
	EExpr    ErrKind = "not an expression"
	ECustom  ErrKind = "custom"
)

// Sig is the parameter list of a builtin: Kinds[i] is the kind of argument i;
// Min..len(Kinds) arguments are accepted, or any number of Rest if Variadic.
type Sig struct {
	Kinds    []Kind
	Min      int
	Variadic bool
}

func sig(min int, kinds ...Kind) Sig { return Sig{Kinds: kinds, Min: min} }

// Sigs holds the signature of every builtin.
var Sigs = map[string]Sig{
	// movement
	"forward-char": sig(0, Num), "backward-char": sig(0, Num),
	"forward-word": sig(0, Num), "backward-word": sig(0, Num),
	"beginning-of-line": sig(0), "end-of-line": sig(0),
	"goto-line": sig(1, Num), "goto-char": sig(1, Num),
	"beginning-of-buffer": sig(0), "end-of-buffer": sig(0),
	// search
	"search-forward": sig(1, Str), "search-backward": sig(1, Str),
	"re-search-forward": sig(1, Str), "re-search-backward": sig(1, Str),
	"looking-at": sig(1, Str), "looking-back": sig(1, Str),
	"replace-match": sig(1, Str),
	// editing
	"insert": sig(1, Str), "delete-char": sig(0, Num), "delete-backward-char": sig(0, Num),
	"kill-word": sig(0, Num), "backward-kill-word": sig(0, Num),
	"kill-line": sig(0, Num), "delete-line": sig(0, Num),
	"delete-region": sig(0), "replace-region": sig(1, Str),
	// mark
	"set-mark": sig(0), "set-mark-command": sig(0, Num),
	"mark-word": sig(0), "mark-line": sig(0, Num), "mark-whole-buffer": sig(0),
	"region-beginning": sig(0), "region-end": sig(0), "exchange-point-and-mark": sig(0),
	// information
	"point": sig(0), "mark": sig(0), "point-min": sig(0), "point-max": sig(0),
	"current-column": sig(0), "line-number-at-pos": sig(0),
	"buffer-size": sig(0), "buffer-substring": sig(2, Num, Num),
	// strings
	"concat": {Variadic: true, Kinds: []Kind{Str}}, "length": sig(1, Str),
	"substring": sig(2, Str, Num, Num),
	"upcase":    sig(1, Str), "downcase": sig(1, Str), "capitalize": sig(1, Str),
	"string-match": sig(2, Str, Str), "replace-regexp-in-string": sig(3, Str, Str, Str),
}

// CheckArgs returns the error kind for bad arguments, or "".
func CheckArgs(name string, args []Val) ErrKind {
	sg := Sigs[name]
	if !sg.Variadic && (len(args) < sg.Min || len(args) > len(sg.Kinds)) {
		return EArity
	}
	for i, a := range args {
		k := sg.Kinds[0]
		if !sg.Variadic {
			k = sg.Kinds[i]
		}
		if a.K != k {
			return EType
		}
	}
	return ""
}

// BigInt is the magnitude numbers are limited to when used as integers.
const BigInt = math.MaxInt / 2

// Int truncates towards zero, and limits what no buffer can hold.
func Int(f float64) int {
	if f != f {
		return 0
	}
	if f > 1e18 {
		return 1e18
	}
	if f < -1e18 {
		return -1e18
	}
	return int(math.Trunc(f))
}

func word(b byte) bool {
	return strings.IndexByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", b) >= 0
}

// ahead is the position (0-based) after n words after i.
func ahead(t string, i, n int) int {
	for ; n > 0 && i < len(t); n-- {
		for i < len(t) && !word(t[i]) {
			i++
		}
		for i < len(t) && word(t[i]) {
			i++
		}
	}
	return i
}

// back is the position (0-based) before n words before i.
func back(t string, i, n int) int {
	for ; n > 0 && i > 0; n-- {
		for i > 0 && !word(t[i-1]) {
			i--
		}
		for i > 0 && word(t[i-1]) {
			i--
		}
	}
	return i
}

// bol is the beginning of the line that holds offset i.
func bol(t string, i int) int { return strings.LastIndexByte(t[:i], '\n') + 1 }

// eol is the end of the line that holds offset i, without its newline.
func eol(t string, i int) int {
	if j := strings.IndexByte(t[i:], '\n'); j >= 0 {
		return i + j
	}
	return len(t)
}

// afterLines is the offset after n line ends counted from offset i.
func afterLines(t string, i, n int) int {
	for ; n > 0 && i < len(t); n-- {
		i = eol(t, i)
		if i < len(t) {
			i++
		}
	}
	return i
}

func runeLen(s string) int {
	if s == "" {
		return 0
	}
	_, n := utf8.DecodeRuneInString(s)
	return n
}

func (s *State) replace(from, to int, by string) { // 0-based
	s.Text = s.Text[:from] + by + s.Text[to:]
}

func mapRunes(s string, f func(rune) rune) string {
	var b strings.Builder
	for _, r := range s { // an invalid byte reads as U+FFFD
		b.WriteRune(f(r))
	}
	return b.String()
}

// find is the first offset >= from at which needle occurs in t, or -1.
func find(t, needle string, from int) int {
	for i := from; i+len(needle) <= len(t); i++ {
		if t[i:i+len(needle)] == needle {
			return i
		}
	}
	return -1
}

// findLast is the last offset at which needle occurs in t, or -1.
func findLast(t, needle string) int {
	for i := len(t) - len(needle); i >= 0; i-- {
		if t[i:i+len(needle)] == needle {
			return i
		}
	}
	return -1
}

var reCache = map[string]*regexp.Regexp{}

func compile(p string) *regexp.Regexp {
	if re, ok := reCache[p]; ok {
		return re
	}
	re, err := regexp.Compile(p)
	if err != nil {
		re = nil
	}
	if len(reCache) > 5000 {
		reCache = map[string]*regexp.Regexp{}
	}
	reCache[p] = re
	return re
}

// matchesEndingAtEnd says whether some match of p in t ends at the end of t.
func matchesEndingAtEnd(p, t string) bool {
	parsed, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return false
	}
	re := compile("(?:" + parsed.String() + `)\z`)
	if re == nil {
		return false
	}
	return re.MatchString(t)
}

func b2s(b bool) Val {
	if b {
		return Y("t")
	}
	return Y("nil")
}

var none = S("")

// Call runs a builtin. On error the state is unchanged.
func Call(name string, args []Val, s *State) (Val, ErrKind) {
	if e := CheckArgs(name, args); e != "" {
		return none, e
	}
	count := 1
	if len(args) == 1 && args[0].K == Num {
		count = Int(args[0].N)
	}
	str := ""
	if len(args) > 0 && args[0].K == Str {
		str = args[0].S
	}
	t, p := s.Text, s.Point-1

	switch name {
	case "forward-char":
		s.Point = s.clamp(s.Point + count)
	case "backward-char":
		s.Point = s.clamp(s.Point - count)
	case "forward-word":
		s.Point = ahead(t, p, count) + 1
	case "backward-word":
		s.Point = back(t, p, count) + 1
	case "beginning-of-line":
		s.Point = bol(t, p) + 1
	case "end-of-line":
		s.Point = eol(t, p) + 1
	case "goto-char":
		s.Point = s.clamp(count)
	case "goto-line":
		line, at := 1, 0
		for line < count {
			j := eol(t, at)
			if j == len(t) {
				break
			}
			at = j + 1
			line++
		}
		s.Point = at + 1
	case "beginning-of-buffer":
		s.Point = 1
	case "end-of-buffer":
		s.Point = s.Max()

	case "search-forward":
		// At the very end of the buffer there is nothing left to search.
		if p >= len(t) {
			return none, ESearch
		}
		i := find(t, str, p)
		if i < 0 {
			return none, ESearch
		}
		s.setMatch(i, i+len(str))
	case "search-backward":
		i := findLast(t[:p], str)
		if i < 0 {
			return none, ESearch
		}
		s.setMatch(i, i+len(str))
	case "re-search-forward":
		if p >= len(t) {
			return none, ESearch
		}
		re := compile(str)
		if re == nil {
			return none, ERegexp
		}
		m := re.FindStringIndex(t[p:])
		if m == nil {
			return none, ESearch
		}
		s.setMatch(p+m[0], p+m[1])
	case "re-search-backward":
		re := compile(str)
		if re == nil {
			return none, ERegexp
		}
		ms := re.FindAllStringIndex(t[:p], -1)
		if len(ms) == 0 {
			return none, ESearch
		}
		m := ms[len(ms)-1]
		s.setMatch(m[0], m[1])
	case "replace-match":
		if s.Match == "" {
			return none, ENoMatch
		}
		from, to := s.MatchStart-1, s.MatchEnd-1
		if from < 0 || to > len(t) || from >= to || t[from:to] != s.Match {
			return none, EStale
		}
		s.replace(from, to, str)
		s.Point = from + len(str) + 1
	case "looking-at":
		if p >= len(t) {
			return b2s(false), ""
		}
		re := compile(str)
		if re == nil {
			return b2s(len(t)-p >= len(str) && t[p:p+len(str)] == str), ""
		}
		m := re.FindStringIndex(t[p:])
		return b2s(m != nil && m[0] == 0), ""
	case "looking-back":
		if p == 0 {
			return b2s(false), ""
		}
		if compile(str) == nil {
			return b2s(p >= len(str) && t[p-len(str):p] == str), ""
		}
		return b2s(matchesEndingAtEnd(str, t[:p])), ""

	case "insert":
		s.replace(p, p, str)
		s.Point += len(str)
	case "delete-char":
		if count > 0 {
			s.replace(p, min(len(t), p+count), "")
		}
	case "delete-backward-char":
		if count > 0 {
			from := max(0, p-count)
			s.replace(from, p, "")
			s.Point = from + 1
		}
	case "kill-word":
		s.replace(p, ahead(t, p, count), "")
	case "backward-kill-word":
		// Together with the word(s) the character at point goes, too: the
		// function's documented example and the tests say so.
		from := back(t, p, count)
		if from < p {
			s.replace(from, p+runeLen(t[p:]), "")
			s.Point = from + 1
		}
	case "kill-line":
		switch {
		case p >= len(t):
		case count == 1: // keeps the character at point
			from := p
			if t[p] != '\n' {
				from += runeLen(t[p:])
			}
			s.replace(from, eol(t, from), "")
		default:
			s.replace(p, afterLines(t, p, count), "")
		}
	case "delete-line":
		if count > 0 {
			from := bol(t, p)
			s.replace(from, afterLines(t, p, count), "")
			s.Point = from + 1
		}
	case "delete-region":
		from, to := s.region()
		s.replace(from-1, to-1, "")
		s.Point = from
	case "replace-region":
		from, to := s.region()
		s.replace(from-1, to-1, str)
		s.Point = from + len(str)

	case "set-mark":
		s.RawMark = s.Point
	case "set-mark-command":
		if len(args) == 1 {
			s.RawMark = s.clamp(count)
		} else {
			s.RawMark = s.Point
		}
	case "exchange-point-and-mark":
		s.Point, s.RawMark = s.Mark(), s.Point
	case "mark-whole-buffer":
		s.RawMark, s.Point = 1, s.Max()
	case "mark-word":
		from, to := p, p
		for from > 0 && word(t[from-1]) {
			from--
		}
		for to < len(t) && word(t[to]) {
			to++
		}
		if from == to { // not at a word: take the next one, if any
			i := p
			for i < len(t) && !word(t[i]) {
				i++
			}
			if i < len(t) {
				from = i
				for i < len(t) && word(t[i]) {
					i++
				}
				to = i
			}
		}
		s.RawMark, s.Point = from+1, to+1
	case "mark-line":
		s.RawMark, s.Point = bol(t, p)+1, afterLines(t, p, count)+1
	case "region-beginning":
		from, _ := s.region()
		return I(from), ""
	case "region-end":
		_, to := s.region()
		return I(to), ""

	case "point":
		return I(s.Point), ""
	case "mark":
		return I(s.Mark()), ""
	case "point-min":
		return I(1), ""
	case "point-max":
		return I(s.Max()), ""
	case "buffer-size":
		return I(len(t)), ""
	case "line-number-at-pos":
		return I(1 + strings.Count(t[:p], "\n")), ""
	case "current-column":
		// Pinned by the tests: counts from the beginning of the line up to and
		// including the character at point (see DESIGN.md, known findings).
		if len(t) == 0 {
			return I(0), ""
		}
		q := min(p, len(t)-1)
		if t[q] == '\n' {
			return I(0), ""
		}
		return I(q - bol(t, q) + 1), ""
	case "buffer-substring":
		from, to := Int(args[0].N), Int(args[1].N)
		if to == -1 {
			to = s.Max()
		}
		from, to = max(from, 1), min(to, s.Max())
		if from >= to {
			return none, ""
		}
		return S(t[from-1 : to-1]), ""

	case "concat":
		out := ""
		for _, a := range args {
			out += a.S
		}
		return S(out), ""
	case "length":
		return I(len(str)), ""
	case "substring":
		from, to := Int(args[1].N), len(str)+1
		if len(args) == 3 {
			to = min(to, Int(args[2].N))
		}
		from = max(from, 1)
		if from >= to {
			return none, ""
		}
		return S(str[from-1 : to-1]), ""
	case "upcase":
		return S(mapRunes(str, unicode.ToUpper)), ""
	case "downcase":
		return S(mapRunes(str, unicode.ToLower)), ""
	case "capitalize":
		n := runeLen(str)
		return S(mapRunes(str[:n], unicode.ToUpper) + mapRunes(str[n:], unicode.ToLower)), ""
	case "string-match":
		re := compile(str)
		if re == nil {
			if i := find(args[1].S, str, 0); i >= 0 {
				return I(i), ""
			}
			return b2s(false), ""
		}
		m := re.FindStringIndex(args[1].S)
		if m == nil {
			return b2s(false), ""
		}
		return I(m[0]), ""
	case "replace-regexp-in-string":
		re := compile(str)
		if re == nil {
			return none, ERegexp
		}
		return S(expandAll(re, args[2].S, args[1].S)), ""
	default:
		panic("model: no such function " + name)
	}
	return none, ""
}

func (s *State) setMatch(from, to int) { // 0-based
	s.Match = s.Text[from:to]
	s.MatchStart, s.MatchEnd = from+1, to+1
	s.Point = to + 1
}

// expandAll replaces all matches, one at a time.
func expandAll(re *regexp.Regexp, src, repl string) string {
	out, last := []byte{}, 0
	for _, m := range re.FindAllStringSubmatchIndex(src, -1) {
		out = append(out, src[last:m[0]]...)
		out = re.ExpandString(out, repl, src, m)
		last = m[1]
	}
	return string(append(out, src[last:]...))
}
