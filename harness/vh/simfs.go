package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// node is a file, directory or symbolic link of a simulated file system.
type node struct {
	kind  string // file, dir, link
	text  string // content, or link target
	mode  os.FileMode
	root  bool // owned by root, where the program runs as nobody
	any   bool // content not specified
	fresh bool // created by the program: mode not specified
	wrote bool // written by the program
}

// simFS predicts what a sequence of file operations leads to.
type simFS struct {
	nodes  map[string]*node // by path relative to the scratch directory
	nobody bool
	limit  int    // no file can be written beyond this size (0: none)
	still  bool   // what is not to be written must not even be rewritten
	base   string // absolute path of the scratch directory
}

func newSimFS() *simFS { return &simFS{nodes: map[string]*node{}} }

// clone copies the file system; hard links stay hard links.
func (s *simFS) clone() *simFS {
	d := *s
	d.nodes = map[string]*node{}
	seen := map[*node]*node{}
	for k, n := range s.nodes {
		if seen[n] == nil {
			m := *n
			seen[n] = &m
		}
		d.nodes[k] = seen[n]
	}
	return &d
}

func (s *simFS) file(name, text string) *node {
	n := &node{kind: "file", text: text, mode: 0o644}
	s.nodes[name] = n
	return n
}

func (s *simFS) dir(name string) *node {
	n := &node{kind: "dir", mode: 0o777}
	s.nodes[name] = n
	return n
}

func (s *simFS) link(name, target string) {
	s.nodes[name] = &node{kind: "link", text: target, mode: 0o777}
}

func (s *simFS) can(n *node, bit os.FileMode) bool {
	if !s.nobody {
		return true
	}
	if n.root {
		return n.mode&bit != 0
	}
	return n.mode>>6&bit != 0
}

// resolve follows a path to where it leads: n is nil if nothing is there but
// the directory that would hold it exists (as dir).
func (s *simFS) resolve(name string) (final string, n, dir *node, ok bool) {
	if s.base != "" && strings.HasPrefix(name, s.base+"/") {
		name = name[len(s.base)+1:]
	}
	todo := strings.Split(name, "/")
	cur := ""
	top := &node{kind: "dir", mode: 0o777}
	at := func(p string) *node {
		if p == "" {
			return top
		}
		return s.nodes[p]
	}
	hops := 0
	for len(todo) > 0 {
		part := todo[0]
		todo = todo[1:]
		d := at(cur)
		if d == nil || d.kind != "dir" || !s.can(d, 1) {
			return "", nil, nil, false
		}
		if part == "" || part == "." {
			continue
		}
		if part == ".." {
			if cur == "" {
				return "", nil, nil, false // outside: never generated
			}
			if cur = path.Dir(cur); cur == "." {
				cur = ""
			}
			continue
		}
		if len(part) > 255 {
			return "", nil, nil, false
		}
		p := path.Join(cur, part)
		x := s.nodes[p]
		if x != nil && x.kind == "link" {
			if hops++; hops > 40 {
				return "", nil, nil, false
			}
			todo = append(strings.Split(x.text, "/"), todo...)
			continue
		}
		if x == nil {
			if len(todo) > 0 {
				return "", nil, nil, false
			}
			return p, nil, d, true
		}
		cur = p
	}
	return cur, at(cur), nil, true
}

func (s *simFS) read(name string) (string, bool) {
	_, n, _, ok := s.resolve(name)
	if !ok || n == nil || n.kind != "file" || !s.can(n, 4) {
		return "", false
	}
	return n.text, true
}

// write is what writing a file does; name "" cannot be written.
func (s *simFS) write(name, text string) bool {
	p, n, dir, ok := s.resolve(name)
	if !ok || name == "" {
		return false
	}
	if n == nil {
		if !s.can(dir, 2) {
			return false
		}
		n = &node{kind: "file", mode: 0o644, fresh: true}
		s.nodes[p] = n
	}
	if n.kind != "file" || !s.can(n, 2) {
		return false
	}
	n.wrote = true
	if s.limit > 0 && len(text) > s.limit {
		n.any = true
		return false
	}
	n.text, n.any = text, false
	return true
}

// make builds the file system below s.base.
// keepsSetuid: writing to a file leaves its special modes alone (it does for
// root, unless the sandbox has taken that privilege away).
var keepsSetuid = sync.OnceValue(func() bool {
	f, err := os.CreateTemp("", "mode")
	if err != nil {
		return false
	}
	defer os.Remove(f.Name())
	f.Close()
	mode := os.ModeSetuid | os.ModeSetgid | os.ModeSticky | 0o755
	if os.Chmod(f.Name(), mode) != nil || os.WriteFile(f.Name(), []byte("x"), 0o644) != nil {
		return false
	}
	fi, err := os.Stat(f.Name())
	return err == nil && fi.Mode() == mode
})

var longAgo = time.Unix(981173106, 0)

func (s *simFS) make() {
	made := map[*node]string{}
	names := sortedKeys(s.nodes)
	for _, nm := range names {
		n, p := s.nodes[nm], filepath.Join(s.base, nm)
		switch n.kind {
		case "dir":
			must(os.Mkdir(p, 0o777))
		case "link":
			must(os.Symlink(n.text, p))
		default:
			if old := made[n]; old != "" {
				must(os.Link(old, p))
				continue
			}
			must(os.WriteFile(p, []byte(n.text), 0o600))
			made[n] = p
		}
	}
	for i := len(names) - 1; i >= 0; i-- {
		n, p := s.nodes[names[i]], filepath.Join(s.base, names[i])
		if n.kind == "link" {
			continue
		}
		if s.nobody && !n.root {
			must(os.Chown(p, 65534, 65534))
		}
		must(os.Chmod(p, n.mode))
		if s.still && n.kind == "file" {
			must(os.Chtimes(p, longAgo, longAgo))
		}
	}
}

// compare says how the real file system differs from this one. before is its
// snapshot from before the run.
func (s *simFS) compare(before, after map[string]entry) string {
	var out []string
	for _, nm := range sortedKeys(s.nodes) {
		n := s.nodes[nm]
		e, ok := after[nm]
		if !ok {
			out = append(out, fmt.Sprintf("%q is missing", nm))
			continue
		}
		if e.kind != n.kind {
			out = append(out, fmt.Sprintf("%q is a %s, not a %s", nm, e.kind, n.kind))
			continue
		}
		if n.kind != "dir" && !n.any && e.text != n.text {
			out = append(out, fmt.Sprintf("%q holds %s, want %s", nm, q(e.text), q(n.text)))
		}
		if b, was := before[nm]; was {
			if e.ino != b.ino {
				out = append(out, fmt.Sprintf("%q is another file than before", nm))
			}
			if e.mode != b.mode {
				out = append(out, fmt.Sprintf("%q has mode %v, had %v", nm, e.mode, b.mode))
			}
			if e.uid != b.uid {
				out = append(out, fmt.Sprintf("%q has owner %d, had %d", nm, e.uid, b.uid))
			}
			if s.still && e.kind == "file" && !n.wrote && e.mtime != b.mtime {
				out = append(out, fmt.Sprintf("%q was written to", nm))
			}
			if e.kind == "file" && e.nlink != b.nlink {
				out = append(out, fmt.Sprintf("%q has %d links, had %d", nm, e.nlink, b.nlink))
			}
		}
	}
	for nm, e := range after {
		if s.nodes[nm] == nil {
			out = append(out, fmt.Sprintf("%q appeared: %s %s", nm, e.kind, q(e.text)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// describe lists the file system.
func (s *simFS) describe() string {
	var out []string
	for _, nm := range sortedKeys(s.nodes) {
		n := s.nodes[nm]
		d := fmt.Sprintf("%q: %s", nm, n.kind)
		if n.kind == "link" {
			d += " to " + n.text
		} else if n.kind == "file" {
			d += " " + clip(fmt.Sprintf("%q", n.text), 120)
		}
		if n.mode != 0o644 && n.kind == "file" || n.root {
			d += fmt.Sprintf(" mode %v root-owned %v", n.mode, n.root)
		}
		out = append(out, d)
	}
	return clip(strings.Join(out, ", "), 900)
}
