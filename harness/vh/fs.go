package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// rmAll removes a scratch directory made by Ctx.Dir.
func rmAll(dir string) {
	if !strings.Contains(dir, "texted-verif-") {
		panic("harness: will not remove " + dir)
	}
	must(os.RemoveAll(dir))
}

// wantFile fails unless the file holds exactly want.
func (c *Ctx) wantFile(path, want, why string) bool {
	got, err := os.ReadFile(path)
	if err != nil || string(got) != want {
		c.Fail("file", "%s: %s holds %s (%v), want %s", why, filepath.Base(path), q(string(got)), err, q(want))
		return false
	}
	return true
}

// entry is a file system entry.
type entry struct {
	kind  string // file, dir, link, other
	mode  os.FileMode
	text  string // content, or link target
	ino   uint64
	nlink uint64
	uid   uint32
	mtime int64 // not looked at by diffSnap
}

// snapshot records everything below dir.
func snapshot(dir string) map[string]entry {
	m := map[string]entry{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		st := fi.Sys().(*syscall.Stat_t)
		e := entry{mode: fi.Mode().Perm() | fi.Mode()&(os.ModeSetuid|os.ModeSetgid|os.ModeSticky), ino: st.Ino, nlink: uint64(st.Nlink), uid: st.Uid, mtime: fi.ModTime().UnixNano()}
		switch {
		case fi.Mode().IsRegular():
			e.kind = "file"
			b, err := os.ReadFile(p)
			must(err)
			e.text = string(b)
		case fi.IsDir():
			e.kind = "dir"
		case fi.Mode()&os.ModeSymlink != 0:
			e.kind = "link"
			e.text, _ = os.Readlink(p)
		default:
			e.kind = "other"
		}
		m[rel] = e
		return nil
	}))
	return m
}

// diffSnap describes the differences, leaving out what ok admits.
func diffSnap(a, b map[string]entry, ok func(name string, x, y *entry) bool) string {
	names := map[string]bool{}
	for n := range a {
		names[n] = true
	}
	for n := range b {
		names[n] = true
	}
	var out []string
	for n := range names {
		x, inA := a[n]
		y, inB := b[n]
		x.mtime, y.mtime = 0, 0
		var px, py *entry
		if inA {
			px = &x
		}
		if inB {
			py = &y
		}
		if inA && inB && x == y {
			continue
		}
		if ok != nil && ok(n, px, py) {
			continue
		}
		switch {
		case !inA:
			out = append(out, fmt.Sprintf("%q appears: %s %v %s", n, y.kind, y.mode, q(y.text)))
		case !inB:
			out = append(out, fmt.Sprintf("%q disappears", n))
		default:
			out = append(out, fmt.Sprintf("%q changes from %s %v inode %d links %d %s to %s %v inode %d links %d %s", n, x.kind, x.mode, x.ino, x.nlink, q(x.text), y.kind, y.mode, y.ino, y.nlink, q(y.text)))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}
