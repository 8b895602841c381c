package model

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"
)

var errSyntax = errors.New("syntax error")

// ParseLines parses the line-based format (shell-like and S-expressions). It
// is only defined for valid UTF-8.
func ParseLines(src string) ([]Val, error) {
	var out []Val
	for _, line := range strings.Split(src, "\n") {
		for _, cmd := range splitCommands(line) {
			toks, err := tokens(strings.TrimSpace(cmd))
			if err != nil {
				return nil, err
			}
			if len(toks) == 0 {
				continue
			}
			vals, err := values(toks)
			if err != nil {
				return nil, err
			}
			if toks[0].kind == '(' {
				for _, v := range vals {
					if v.K != List {
						return nil, errSyntax
					}
				}
				out = append(out, vals...)
			} else {
				out = append(out, L(vals...))
			}
		}
	}
	return out, nil
}

type tok struct {
	kind byte // '(' or ')' or 'a' (atom)
	text string
}

// inString reports, for every byte of a line, whether it is part of a string
// literal (its delimiters included), and whether the last literal is closed.
func inString(line string) (in []bool, closed bool) {
	in = make([]bool, len(line))
	open := false
	for i := 0; i < len(line); i++ {
		if line[i] == '"' {
			in[i] = true
			open = !open
			continue
		}
		in[i] = open
		if open && line[i] == '\\' && i+1 < len(line) {
			i++
			in[i] = true
		}
	}
	return in, !open
}

// splitCommands splits a line at the semicolons outside of string literals.
func splitCommands(line string) []string {
	in, _ := inString(line)
	var out []string
	start := 0
	for i := range in {
		if line[i] == ';' && !in[i] {
			out = append(out, line[start:i])
			start = i + 1
		}
	}
	return append(out, line[start:])
}

func tokens(cmd string) ([]tok, error) {
	in, closed := inString(cmd)
	if !closed {
		return nil, errSyntax
	}
	var out []tok
	start := -1
	for i := 0; i <= len(cmd); i++ {
		sep := i == len(cmd) || !in[i] && strings.IndexByte(" \t\r()", cmd[i]) >= 0
		if sep && start >= 0 {
			out = append(out, tok{'a', cmd[start:i]})
			start = -1
		}
		if sep && i < len(cmd) && (cmd[i] == '(' || cmd[i] == ')') {
			out = append(out, tok{cmd[i], cmd[i : i+1]})
		}
		if !sep && start < 0 {
			start = i
		}
	}
	return out, nil
}

func values(toks []tok) ([]Val, error) {
	var stack [][]Val
	var cur []Val
	for _, t := range toks {
		switch t.kind {
		case '(':
			stack = append(stack, cur)
			cur = nil
		case ')':
			if len(stack) == 0 {
				return nil, errSyntax
			}
			v := L(cur...)
			cur = append(stack[len(stack)-1], v)
			stack = stack[:len(stack)-1]
		default:
			v, err := atomValue(t.text)
			if err != nil {
				return nil, err
			}
			cur = append(cur, v)
		}
	}
	if len(stack) > 0 {
		return nil, errSyntax
	}
	return cur, nil
}

func atomValue(a string) (Val, error) {
	if a[0] == '"' && a[len(a)-1] == '"' {
		if len(a) < 2 {
			return Val{}, errSyntax
		}
		s, err := unescape(a[1 : len(a)-1])
		return S(s), err
	}
	if f, err := strconv.ParseFloat(a, 64); err == nil {
		return N(f), nil
	}
	return Y(a), nil
}

// unescape decodes the escapes of a double-quoted Go string.
func unescape(s string) (string, error) {
	var b []byte
	for i := 0; i < len(s); {
		c := s[i]
		if c == '"' || c == '\n' {
			return "", errSyntax
		}
		if c != '\\' {
			b = append(b, c)
			i++
			continue
		}
		if i+1 >= len(s) {
			return "", errSyntax
		}
		e := s[i+1]
		i += 2
		if k := strings.IndexByte(`abfnrtv\"`, e); k >= 0 {
			b = append(b, "\a\b\f\n\r\t\v\\\""[k])
			continue
		}
		n, base := 0, 16
		switch {
		case e == 'x':
			n = 2
		case e == 'u':
			n = 4
		case e == 'U':
			n = 8
		case e >= '0' && e <= '7':
			i--
			n, base = 3, 8
		default:
			return "", errSyntax
		}
		if i+n > len(s) {
			return "", errSyntax
		}
		for _, d := range []byte(s[i : i+n]) {
			hex := d >= '0' && d <= '9' || d >= 'a' && d <= 'f' || d >= 'A' && d <= 'F'
			if !hex || base == 8 && d > '7' {
				return "", errSyntax
			}
		}
		v, err := strconv.ParseUint(s[i:i+n], base, 32)
		if err != nil {
			return "", errSyntax
		}
		i += n
		if e == 'u' || e == 'U' {
			if v > utf8.MaxRune || v >= 0xD800 && v <= 0xDFFF {
				return "", errSyntax
			}
			b = utf8.AppendRune(b, rune(v))
		} else {
			if v > 255 {
				return "", errSyntax
			}
			b = append(b, byte(v))
		}
	}
	return string(b), nil
}

// ParseJSON parses the JSON forms: command arrays, or arrays of them.
func ParseJSON(src string) ([]Val, error) {
	dec := json.NewDecoder(strings.NewReader(src))
	var out []Val
	for {
		var x any
		err := dec.Decode(&x)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		arr, ok := x.([]any)
		if !ok {
			return nil, errSyntax
		}
		cmds := []any{x}
		if len(arr) == 0 {
			cmds = nil
		} else if _, nested := arr[0].([]any); nested {
			cmds = arr
		}
		for _, c := range cmds {
			v, err := jsonCommand(c)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
	}
}

func jsonCommand(x any) (Val, error) {
	arr, ok := x.([]any)
	if !ok {
		return Val{}, errSyntax
	}
	v := L()
	for i, e := range arr {
		switch e := e.(type) {
		case string:
			if i == 0 {
				v.L = append(v.L, Y(e))
			} else {
				v.L = append(v.L, S(e))
			}
		case float64:
			if i == 0 {
				return v, errSyntax
			}
			v.L = append(v.L, N(e))
		case []any:
			if i == 0 {
				return v, errSyntax
			}
			sub, err := jsonCommand(e)
			if err != nil {
				return v, err
			}
			v.L = append(v.L, sub)
		default:
			return v, errSyntax
		}
	}
	return v, nil
}

// Parse parses a script in the given format ("auto" detects JSON).
func Parse(format, src string) ([]Val, error) {
	switch format {
	case "json":
		return ParseJSON(src)
	case "auto":
		if strings.HasPrefix(strings.TrimSpace(src), "[") {
			return ParseJSON(src)
		}
	}
	return ParseLines(src)
}
