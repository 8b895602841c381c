package main

import (
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"syscall"
)

// limitedExec replaces this process by another one under resource limits:
// vh exec cpu=N fsize=N -- program args...
func limitedExec(args []string) {
	for i, a := range args {
		if a == "--" {
			f := flags(args[:i])
			if n, err := strconv.ParseUint(f["cpu"], 10, 64); err == nil {
				must(syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: n, Max: n + 5}))
			}
			if n, err := strconv.ParseUint(f["fsize"], 10, 64); err == nil {
				signal.Ignore(syscall.SIGXFSZ)
				must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}))
			}
			rest := args[i+1:]
			err := syscall.Exec(rest[0], rest, os.Environ())
			fmt.Fprintln(os.Stderr, "harness: exec:", err)
			os.Exit(125)
		}
	}
	os.Exit(125)
}
