package main

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// cliRun is one run of the texted binary.
type cliRun struct {
	args   []string
	stdin  string
	dir    string
	nobody bool     // run as an unprivileged user
	fsize  int      // limit on file sizes, in bytes (0: none)
	env    []string // extra environment
	stdout *os.File // where stdout goes instead of being captured
	close  bool     // no stdin at all
	in     *os.File // stdin, instead of the string
}

// cliOut is what it did.
type cliOut struct {
	out, err string
	code     int // -1: ended by a signal
	note     string
}

func (o cliOut) String() string {
	return fmt.Sprintf("exit %d%s stdout %s stderr %s", o.code, o.note, q(o.out), q(o.err))
}

type rlimit64 struct{ cur, max uint64 }

func limitCPU(pid int, seconds uint64) {
	l := rlimit64{seconds, seconds + 5}
	syscall.RawSyscall6(302 /* prlimit64 */, uintptr(pid), 0 /* RLIMIT_CPU */, uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}

// run runs texted to its end.
func (c *Ctx) run1(r cliRun) cliOut {
	argv := append([]string{c.Bin}, r.args...)
	if r.fsize > 0 {
		argv = append([]string{c.Self, "exec", fmt.Sprintf("fsize=%d", r.fsize), "--"}, argv...)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = r.dir
	if cmd.Dir == "" {
		cmd.Dir = c.Scratch
	}
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C.UTF-8", "GOMAXPROCS=2"}, r.env...)
	var slow *os.File
	if r.in != nil {
		cmd.Stdin = r.in
	} else if h := fnv.New32(); !r.close && len(r.stdin) > 1 && func() bool {
		io.WriteString(h, r.stdin)
		return h.Sum32()%8 == 0 || len(r.stdin) > 30000 && h.Sum32()%2 == 0
	}() {
		// one in eight arrives in pieces
		pr, pw, err := os.Pipe()
		must(err)
		cmd.Stdin, slow = pr, pw
		defer pr.Close()
		c.Event("inputs that arrived in pieces")
	} else if !r.close {
		cmd.Stdin = strings.NewReader(r.stdin)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if r.stdout != nil {
		cmd.Stdout = r.stdout
	}
	if r.nobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("harness: starting %v: %v", argv, err))
	}
	limitCPU(cmd.Process.Pid, 60)
	if slow != nil {
		cmd.Stdin.(*os.File).Close()
		done := make(chan struct{})
		fed := make(chan struct{})
		go func() { defer close(fed); feed(slow, r.stdin, done) }()
		defer func() { <-fed }()
		defer close(done)
	}
	t := time.AfterFunc(400*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !t.Stop() {
		panic(fmt.Sprintf("harness: %v still runs after 400 s without using up its processor time", argv))
	}
	o := cliOut{out: so.String(), err: se.String()}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		o.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			o.note = fmt.Sprintf(" (%s)", ws.Signal())
		}
	}
	c.Event("texted processes run")
	return o
}

// feed writes the text in up to twelve pieces of different sizes, each when the
// one before has been read.
func feed(w *os.File, text string, done chan struct{}) {
	defer w.Close()
	for k := 0; text != ""; k++ {
		n := min(len(text), 1+len(text)/12*(1+k%3))
		if k >= 11 {
			n = len(text)
		}
		if _, err := io.WriteString(w, text[:n]); err != nil {
			return
		}
		text = text[n:]
		for {
			var left int32
			_, _, e := syscall.Syscall(syscall.SYS_IOCTL, w.Fd(), 0x541B, uintptr(unsafe.Pointer(&left))) // FIONREAD
			if e != 0 || left == 0 {
				break
			}
			select {
			case <-done:
				return
			case <-time.After(100 * time.Microsecond):
			}
		}
	}
}

// unreadable is a stdin that cannot be read.
func (c *Ctx) unreadable(kind int) *os.File {
	var f *os.File
	var err error
	if kind%2 == 0 {
		f, err = os.Open(c.Scratch) // a directory
	} else {
		f, err = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	}
	must(err)
	return f
}

func (c *Ctx) texted(stdin string, args ...string) cliOut {
	return c.run1(cliRun{args: args, stdin: stdin})
}

// crashed: texted ended abnormally.
func (o cliOut) crashed() bool {
	return o.code != 0 && o.code != 1 || strings.Contains(o.err, "goroutine ") && (strings.Contains(o.err, "panic:") || strings.Contains(o.err, "fatal error:"))
}

// argOK: the string can be passed as a command line argument.
func argOK(s string) bool { return !strings.Contains(s, "\x00") && len(s) < 100_000 }
