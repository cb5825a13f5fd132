package main

import (
	"bytes"
	"context"
	"os"
	"os/exec"
	"strings"
	"time"
)

// idmd runs the built command with input and returns its output and exit status (-1: killed or not started).
func idmd(stdin string, args ...string) (stdout, stderr string, code int) {
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("IDMD"), args...)
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err == nil {
		return o.String(), e.String(), 0
	}
	if x, ok := err.(*exec.ExitError); ok {
		return o.String(), e.String(), x.ExitCode()
	}
	return o.String(), e.String() + err.Error(), -1
}

// crashed reports whether a failed command crashed instead of reporting an error.
func crashed(stderr string, code int) bool {
	return code < 0 || code == 2 && strings.Contains(stderr, "goroutine ") || strings.HasPrefix(stderr, "panic:") || strings.Contains(stderr, "\npanic:") || strings.Contains(stderr, "runtime error")
}
