package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Reply of a worker process for one case.
type Reply struct {
	Err      string   `json:",omitempty"`
	Notes    []string `json:",omitempty"`
	States   []uint64 `json:",omitempty"`
	Outcomes []string `json:",omitempty"`
	Samples  []string `json:",omitempty"`
	Steps    int
	Traces   int
	Capped   bool
}

// Local collects what an execution inside a worker covered.
type Local struct {
	R    Reply
	st   map[uint64]struct{}
	oc   map[string]struct{}
	Tier string
}

func (l *Local) State(s string)   { l.st[hash(s)] = struct{}{} }
func (l *Local) Outcome(s string) { l.oc[s] = struct{}{} }
func (l *Local) Step(n int)       { l.R.Steps += n }
func (l *Local) Trace(n int)      { l.R.Traces += n }

type request struct {
	Fam  string
	Tier string
	Case json.RawMessage
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
	exe string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 && (len(t.b) > 1<<18 || !bytes.Contains(t.b, []byte("goroutine "))) { // a dump stays
		t.b = append([]byte(nil), t.b[len(t.b)-8192:]...)
	}
	return len(p), nil
}

func (t *tail) take() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.b)
	t.b = nil
	return s
}

var (
	idle   = map[string][]*proc{}
	idleMu sync.Mutex
)

func getProc(suffix string) (*proc, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	exe += suffix
	idleMu.Lock()
	if n := len(idle[exe]); n > 0 {
		p := idle[exe][n-1]
		idle[exe] = idle[exe][:n-1]
		idleMu.Unlock()
		return p, nil
	}
	idleMu.Unlock()
	cmd := exec.Command(exe, "worker")
	cmd.Env = append(os.Environ(), "GORACE=exitcode=0 atexit_sleep_ms=0 history_size=4", "GOMAXPROCS=1")
	p := &proc{cmd: cmd, err: &tail{}, exe: exe}
	cmd.Stderr = p.err
	if p.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	return p, cmd.Start()
}

// JudgeHangs makes Remote report a case that does not end, twice, because code under check waits for a lock
// forever. Not for worker processes with a scheduler of their own.
var JudgeHangs bool

// cpu is the processor time the process used, in hundredths of a second.
func (p *proc) cpu() int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.cmd.Process.Pid))
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.Atoi(f[11])
	s, _ := strconv.Atoi(f[12])
	return u + s
}

// stuck ends a process and returns where the code under check waits for a lock, if the process does nothing.
func (p *proc) stuck() string {
	before := p.cpu()
	time.Sleep(5 * time.Second)
	idle := p.cpu()-before < 10
	_ = p.cmd.Process.Signal(syscall.SIGQUIT)
	time.Sleep(2 * time.Second)
	p.kill()
	if !idle {
		return ""
	}
	var r []string
	for _, g := range strings.Split(p.err.take(), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[sync.") && strings.Contains(head, "Lock") && strings.Contains(g, "github.com/DaoCloud/ckube/") && len(r) < 3 {
			r = append(r, trimStack([]byte(g)))
		}
	}
	return strings.Join(r, "\n\n")
}

func (p *proc) kill() {
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

// Remote executes cases of the family in worker processes: deterministic single-processor programs
// that the parent runs side by side. limit is how long one case may take.
func Remote[T any](fam, suffix string, limit time.Duration) func(x *X, t T) error {
	var attempt func(x *X, t T, again bool) error
	attempt = func(x *X, t T, again bool) error {
		x.Allow(limit + 30*time.Second)
		p, err := getProc(suffix)
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		raw, _ := json.Marshal(t)
		b, _ := json.Marshal(request{fam, x.c.Tier, raw})
		type res struct {
			line []byte
			err  error
		}
		ch := make(chan res, 1)
		go func() {
			if _, err := p.in.Write(append(b, '\n')); err != nil {
				ch <- res{nil, err}
				return
			}
			l, err := p.out.ReadBytes('\n')
			ch <- res{l, err}
		}()
		var r res
		select {
		case r = <-ch:
		case <-time.After(limit):
			if dump := p.stuck(); dump != "" && JudgeHangs {
				if again {
					return fmt.Errorf("hangs: twice no end within %v, all is waiting\n%s", limit, dump)
				}
				return attempt(x, t, true)
			}
			p.kill()
			x.c.Capped()
			x.c.Note("family %s: a case took longer than %v and was given up: %.200s", fam, limit, raw)
			return nil
		}
		if r.err != nil {
			_ = p.in.Close()
			_ = p.cmd.Wait()
			return fmt.Errorf("the process crashed: %v\n%s", p.cmd.ProcessState, p.err.take())
		}
		var rep Reply
		if err := json.Unmarshal(r.line, &rep); err != nil {
			p.kill()
			return fmt.Errorf("HARNESS: bad reply %.200s", r.line)
		}
		for _, s := range rep.States {
			x.c.states.add(s ^ hash(fam))
		}
		for _, s := range rep.Outcomes {
			x.Outcome(s)
		}
		for _, s := range rep.Samples {
			x.Sample(s)
		}
		for _, s := range rep.Notes {
			x.c.Note("%s", s)
		}
		x.Step(rep.Steps)
		x.Trace(rep.Traces)
		if rep.Capped {
			x.c.Capped()
		}
		if rep.Err != "" {
			e := rep.Err
			if t := p.err.take(); strings.Contains(t, "DATA RACE") {
				e += "\n" + t
			}
			p.kill() // locks may be left behind
			return fmt.Errorf("%s", e)
		}
		p.err.take()
		idleMu.Lock()
		idle[p.exe] = append(idle[p.exe], p)
		idleMu.Unlock()
		return nil
	}
	return func(x *X, t T) error { return attempt(x, t, false) }
}

// IsWorker tells whether this process is a worker.
func IsWorker() bool { return len(os.Args) > 1 && os.Args[1] == "worker" }

// Worker serves cases from stdin with the handlers of the families.
func Worker(handlers map[string]func(l *Local, raw json.RawMessage) error) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := os.Stdout
	for {
		b, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var rq request
		if err := json.Unmarshal(b, &rq); err != nil {
			os.Exit(3)
		}
		l := &Local{st: map[uint64]struct{}{}, oc: map[string]struct{}{}, Tier: rq.Tier}
		h := handlers[rq.Fam]
		if h == nil {
			l.R.Err = "HARNESS: no handler for " + rq.Fam
		} else if err := guard(func() error { return h(l, rq.Case) }); err != nil {
			l.R.Err = err.Error()
		}
		for s := range l.st {
			l.R.States = append(l.R.States, s)
		}
		for s := range l.oc {
			l.R.Outcomes = append(l.R.Outcomes, s)
		}
		o, _ := json.Marshal(l.R)
		if _, err := out.Write(append(o, '\n')); err != nil {
			os.Exit(3)
		}
	}
}

// H adapts a typed handler.
func H[T any](f func(l *Local, t T) error) func(*Local, json.RawMessage) error {
	return func(l *Local, raw json.RawMessage) error {
		var t T
		if err := json.Unmarshal(raw, &t); err != nil {
			return err
		}
		return f(l, t)
	}
}
