package mc

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// supervised names the file in which the supervised process tells how far it came.
const supervised = "CKUBEMC_PROGRESS"

// supervise runs the check in a child, so that code under check that ends its process (a panic of one of
// its goroutines, os.Exit) is a violation and not the end of the check.
func supervise(d Def, args []string) int {
	dir, err := os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "mc")
	if err != nil {
		fmt.Fprintln(stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(stderr, err)
		return 2
	}
	start := time.Now()
	progress := filepath.Join(dir, "progress")
	errs := &tail{}
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), supervised+"="+progress)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, io.MultiWriter(stderr, errs)
	err = cmd.Run()
	b, _ := os.ReadFile(progress)
	var ee *exec.ExitError
	switch {
	case err == nil && string(b) == "done":
		return 0
	case string(b) == "done" && errors.As(err, &ee):
		return ee.ExitCode()
	case err != nil && !errors.As(err, &ee):
		fmt.Fprintln(stderr, err)
		return 2
	case len(args) > 0 && args[0] == "replay" && !strings.HasPrefix(string(b), "family"):
		return cmd.ProcessState.ExitCode()
	}
	fam := strings.TrimPrefix(string(b), "family ")
	out := errs.take()
	if i := strings.Index(out, "goroutine "); i >= 0 {
		out = out[:i] + trimStack([]byte(out[i:]))
	}
	crash := strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")
	if crash && !strings.Contains(out, "github.com/DaoCloud/ckube/") || !crash && cmd.ProcessState.ExitCode() < 0 || fam == "" {
		return 2 // not the doing of the code under check
	}
	c := &Ctx{ID: d.ID, Tier: "quick", start: start, assume: d.Assume, curFam: fam}
	if len(args) > 0 && args[0] == "thorough" {
		c.Tier = "thorough"
	}
	c.violation(fam, nil, fmt.Errorf("the process ended in the middle: %v\n%s", cmd.ProcessState, out))
	c.Capped()
	c.fams = append(c.fams, map[string]interface{}{"family": fam, "cases": 1, "states": 1, "transitions": 1, "exhaustive": false})
	c.states.add(1)
	c.steps.Add(1)
	c.traces.Add(1)
	c.write(d)
	return 1
}
