package pbt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Result is how a command ended.
type Result struct {
	Out, Err []byte
	Code     int // -1: ended by a signal
	State    string
}

// Crashed tells whether the command ended in another way than by exiting
// with success or a failure of its own.
func (r *Result) Crashed() bool {
	return r.Code < 0 || r.Code > 0 && (bytes.Contains(r.Err, []byte("goroutine ")) || bytes.Contains(r.Err, []byte("fatal error: ")))
}

func short(b []byte) string {
	s := string(b)
	if len(s) > 700 {
		s = s[:350] + " ... " + s[len(s)-350:]
	}
	return s
}

// String describes the result.
func (r *Result) String() string {
	return fmt.Sprintf("%s; standard output %q; standard error %q", r.State, short(r.Out), short(r.Err))
}

// Run runs a command built from /repo in a directory, with a limit on its CPU
// time.
func Run(dir string, stdin io.Reader, name string, args ...string) *Result {
	return RunTo(nil, dir, stdin, name, args...)
}

// RunTo is Run with the standard output in a file.
func RunTo(stdout *os.File, dir string, stdin io.Reader, name string, args ...string) *Result {
	if !filepath.IsAbs(name) {
		name = filepath.Join(CLIDir, name)
	}
	c := exec.Command("/bin/sh", append([]string{"-c", `ulimit -t 60; exec "$0" "$@"`, name}, args...)...)
	c.Dir = dir
	c.Stdin = stdin
	var out, stderr bytes.Buffer
	c.Stdout, c.Stderr = &out, &stderr
	if stdout != nil {
		c.Stdout = stdout
	}
	c.WaitDelay = 10 * time.Second
	err := c.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		// the command may end without reading all of its input
		if c.ProcessState == nil || !strings.Contains(err.Error(), "broken pipe") {
			Must(err)
		}
	}
	return &Result{out.Bytes(), stderr.Bytes(), c.ProcessState.ExitCode(), c.ProcessState.String()}
}
