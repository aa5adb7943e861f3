// C14: relayed watch streams are byte-exact and prompt.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"syscall"
	"time"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
)

const patience = 10 * time.Second

var cfg common.Config

func setup(c *mc.Ctx) {
	cfg = gen.Config("c1", "k")
	world.New(cfg)
	pool = sync.Pool{New: func() interface{} {
		w := world.New(cfg, "c1", "c2")
		gen.Fill(w.Store, []gen.Spec{{C: "c1", N: "m1", O: "x"}}, true, true)
		return w
	}}
}

var pool sync.Pool

// writer is the client's side; bytes count as delivered when they were flushed.
type writer struct {
	mu        sync.Mutex
	hdr       http.Header
	code      int
	buf       bytes.Buffer
	delivered int
	change    chan struct{}
}

func newWriter() *writer { return &writer{hdr: http.Header{}, change: make(chan struct{})} }

func (w *writer) Header() http.Header { return w.hdr }
func (w *writer) WriteHeader(c int) {
	w.mu.Lock()
	if w.code == 0 {
		w.code = c
	}
	w.mu.Unlock()
}
func (w *writer) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.code == 0 {
		w.code = 200
	}
	return w.buf.Write(b)
}
func (w *writer) Flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.delivered = w.buf.Len()
	close(w.change)
	w.change = make(chan struct{})
}

// await waits until n bytes were delivered.
func (w *writer) await(n int, d time.Duration) bool {
	t := time.NewTimer(d)
	defer t.Stop()
	for {
		w.mu.Lock()
		ok, ch := w.delivered >= n, w.change
		w.mu.Unlock()
		if ok {
			return true
		}
		select {
		case <-ch:
		case <-t.C:
			return false
		}
	}
}

// script is the API server's stream.
type script struct {
	ctx    context.Context // of the upstream request
	frags  []string
	end    string // eof, eofwith (EOF together with the last data), err, errwith, hang, forever
	zero   bool   // a read of (0, nil) before each fragment
	out    *writer
	i      int
	rest   string
	sent   int // bytes given to the relay
	lines  int // of these, up to the last line end
	late   error
	zeroed bool
	closed chan struct{}
	once   sync.Once
	reads  int
	gone   func() // called when the script hangs: the client goes away
	calls  int
}

func (s *script) Close() error {
	s.once.Do(func() { close(s.closed) })
	return nil
}

func (s *script) Read(b []byte) (int, error) {
	s.reads++
	// everything complete must reach the client although nothing more arrives
	if s.rest == "" && s.lines > 0 && s.late == nil && !s.out.await(s.lines, patience) {
		s.late = fmt.Errorf("after receiving %d bytes (%d of them complete lines) the client has only got %d", s.sent, s.lines, s.out.delivered)
	}
	if s.rest == "" {
		if s.zero && !s.zeroed {
			s.zeroed = true
			return 0, nil
		}
		s.zeroed = false
		if s.i < len(s.frags) {
			s.rest = s.frags[s.i]
			s.i++
		} else if s.end == "forever" {
			s.rest = "more\n"
			s.calls++
			if s.calls == 3 {
				s.gone()
			}
			if s.calls > 1<<20 {
				s.late = errors.New("the relay goes on although its client is gone")
				return 0, io.EOF
			}
			if s.calls > 100 { // do not insist on delivery to a client that is gone
				time.Sleep(time.Microsecond)
			}
		} else {
			switch s.end {
			case "hang":
				if s.gone != nil {
					s.gone()
				}
				select {
				case <-s.ctx.Done():
					return 0, s.ctx.Err()
				case <-s.closed:
					return 0, errors.New("read on closed body")
				case <-time.After(3 * patience):
					s.late = errors.New("the relay does not end although its client is gone")
					return 0, io.EOF
				}
			case "err", "errwith":
				return 0, io.ErrUnexpectedEOF
			case "reset", "resetwith":
				return 0, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
			}
			return 0, io.EOF
		}
	}
	n := copy(b, s.rest)
	for i, c := range []byte(s.rest[:n]) {
		if c == '\n' && s.end != "forever" {
			s.lines = s.sent + i + 1
		}
	}
	s.rest = s.rest[n:]
	s.sent += n
	if s.rest == "" && s.i == len(s.frags) {
		switch s.end {
		case "eofwith":
			return n, io.EOF
		case "errwith":
			return n, io.ErrUnexpectedEOF
		case "resetwith":
			return n, &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}
		}
	}
	return n, nil
}

// Case of a stream.
type Case struct {
	Frags []string
	Rep   int    `json:",omitempty"` // repeat the fragments
	Big   int    `json:",omitempty"` // or: one text of this many bytes, line length Line, cut every Cut bytes
	Line  int    `json:",omitempty"`
	Cut   int    `json:",omitempty"`
	End   string // see script
	Zero  bool   `json:",omitempty"`
	Path  string `json:",omitempty"`
	Q     string `json:",omitempty"`
	To    string `json:",omitempty"`
}

func (c Case) frags() []string {
	if c.Big > 0 {
		var sb strings.Builder
		for i := 0; i < c.Big; i++ {
			if i%c.Line == c.Line-1 {
				sb.WriteByte('\n')
			} else {
				sb.WriteByte(byte(32 + (i*7+i/251)%90))
			}
		}
		s := sb.String()
		var f []string
		for len(s) > c.Cut {
			f = append(f, s[:c.Cut])
			s = s[c.Cut:]
		}
		return append(f, s)
	}
	f := c.Frags
	for i := 1; i < c.Rep; i++ {
		f = append(f, c.Frags...)
	}
	return f
}

func exec(x *mc.X, c Case) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Taken()
	out := newWriter()
	s := &script{frags: c.frags(), end: c.End, zero: c.Zero, out: out, closed: make(chan struct{})}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	target := c.To
	if target == "" {
		target = "c1"
	}
	if c.End == "hang" || c.End == "forever" {
		s.gone = cancel
	}
	for cl, u := range w.Ups {
		if cl != target {
			continue
		}
		u.Handler = func(r *http.Request, _ []byte) (*http.Response, error) {
			s.ctx = r.Context()
			if c.End == "never" { // no answer until the client gives up
				cancel()
				select {
				case <-r.Context().Done():
					return nil, r.Context().Err()
				case <-time.After(3 * patience):
					s.late = errors.New("the request to the API server does not end although its client is gone")
					return nil, errors.New("late")
				}
			}
			res := world.Response(r, 200, "")
			res.Body = s
			res.ContentLength = -1
			return res, nil
		}
		defer func() { u.Handler = nil }()
	}
	p := c.Path
	if p == "" {
		p = "/api/v1/namespaces/m1/pods?watch=true"
	}
	req := world.Req("GET", p, nil, "").WithContext(ctx)
	done := make(chan struct{})
	go func() { // the client's goroutine is never left behind: the script gives up in the end
		defer close(done)
		w.Router.ServeHTTP(out, req)
	}()
	if c.End == "hang" || c.End == "forever" || c.End == "never" {
		select {
		case <-done:
		case <-time.After(2 * patience):
			s.Close()
			<-done
			return fmt.Errorf("the relay does not end although its client is gone")
		}
	} else {
		select {
		case <-done:
		case <-time.After(6 * patience):
			s.Close()
			return fmt.Errorf("the relay does not end although the stream ended (%s)", c.End)
		}
	}
	want := strings.Join(s.frags, "")
	x.Step(len(s.frags) + 1)
	x.State(fmt.Sprint(c.End, c.Zero, c.Path, c.To, c.Big, c.Cut, c.Line, c.Rep, s.frags))
	if s.late != nil {
		return s.late
	}
	up := w.Taken()
	if len(up) != 1 || up[0].Cluster != target {
		return fmt.Errorf("the watch was opened %d times: %v", len(up), up)
	}
	u, _ := url.Parse(p)
	if up[0].Path != u.Path || up[0].Method != "GET" {
		return fmt.Errorf("opened as %v", up[0])
	}
	if c.End == "never" {
		return nil
	}
	got := out.buf.String()
	switch c.End {
	case "forever":
		if !strings.HasPrefix(got+"more\nmore\n", want) {
			return fmt.Errorf("got %q", got)
		}
	case "hang":
		// the client is gone, what it got before is exact
		if !strings.HasPrefix(want, got) || len(got) < s.lines {
			return fmt.Errorf("sent %q, client got %q", want, got)
		}
	default:
		if out.delivered != len(got) {
			return fmt.Errorf("%d bytes were written but not flushed", len(got)-out.delivered)
		}
		if got != want {
			return fmt.Errorf("the API server sent %d bytes %.100q in reads of %.100q ending with %s, the client got %d bytes %.100q", len(want), want, s.frags, c.End, len(got), got)
		}
	}
	if len(want) > 0 && c.End != "forever" && c.End != "hang" && out.code != 200 {
		return fmt.Errorf("status %d", out.code)
	}
	x.Outcome(fmt.Sprint(c.End, len(got)))
	if len(s.frags) == 3 {
		x.Sample(map[string]interface{}{"reads": s.frags, "end": c.End, "got": got})
	}
	return nil
}

// Open is an error at opening time.
type Open struct {
	Code   int
	Status bool
	Path   string
}

func execOpen(x *mc.X, c Open) error {
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Taken()
	body := "sorry"
	if c.Status {
		b, _ := json.Marshal(map[string]interface{}{"kind": "Status", "apiVersion": "v1", "metadata": map[string]interface{}{}, "status": "Failure", "reason": "Expired", "message": "too old resource version: 1 (2) \"名\"", "code": c.Code})
		body = string(b)
	}
	u := w.Ups["c1"]
	u.Handler = func(r *http.Request, _ []byte) (*http.Response, error) {
		return world.Response(r, c.Code, body), nil
	}
	defer func() { u.Handler = nil }()
	out := newWriter()
	w.Router.ServeHTTP(out, world.Req("GET", c.Path, nil, ""))
	x.Step(1)
	x.State(mc.J(c))
	x.Outcome(fmt.Sprint(out.code))
	var st struct {
		Kind, Reason, Message string
		Code                  int
	}
	if err := json.Unmarshal(out.buf.Bytes(), &st); err != nil {
		return fmt.Errorf("error %d relayed as %d %q", c.Code, out.code, out.buf.String())
	}
	if out.code != c.Code || st.Code != c.Code || st.Kind != "Status" || c.Status && (st.Reason != "Expired" || st.Message != "too old resource version: 1 (2) \"名\"") {
		return fmt.Errorf("error %d (%s) relayed as %d %s", c.Code, body, out.code, out.buf.String())
	}
	return nil
}

// compositions of s into non-empty fragments.
func compositions(s string, f func([]string) bool) bool {
	n := len(s)
	if n == 0 {
		return f(nil)
	}
	for m := 0; m < 1<<(n-1); m++ {
		var fr []string
		st := 0
		for i := 1; i < n; i++ {
			if m&(1<<(i-1)) != 0 {
				fr = append(fr, s[st:i])
				st = i
			}
		}
		if !f(append(fr, s[st:])) {
			return false
		}
	}
	return true
}

var paths = []string{"/api/v1/namespaces/m1/pods?watch=true", "/api/v1/pods?watch=1", "/api/v1/pods?watch=true&resourceVersion=12&timeoutSeconds=300&labelSelector=a%3D1", "/apis/x.io/v1/widgets?watch=True", "/api/v1/services?watch=y&allowWatchBookmarks=true", "/api/v1/watch/pods", "/api/v1/watch/namespaces/m1/services?x=1", "/apis/x.io/v1/watch/widgets/w1", "/apis/y.io/v1/gadgets?watch=TRUE&fieldSelector=metadata.name%3Dx"}

func main() {
	ends := []string{"eof", "eofwith", "err", "errwith", "reset", "resetwith"}
	mc.Main(mc.Def{
		ID:     "C14",
		Oracle: "the scripted stream itself: the client's bytes equal it, and every complete line is flushed to the client before the next read returns",
		Assume: []string{fmt.Sprintf("%v count as never", patience), "the upstream connection ends when its request context does, as net/http guarantees"},
		Families: append([]mc.Family{
			mc.Cases("fragments", mc.Opts{Limit: 4 * time.Minute, Bound: "every text over {a, line end} of length <=6 (thorough 8), every fragmentation into reads, 6 endings, with and without empty reads", Setup: setup, Workers: 32},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 0; n <= mc.Pick(c, 6, 8); n++ {
						if !mc.Words(2, n, func(ws []int) bool {
							var s string
							for _, i := range ws {
								s += string("a\n"[i])
							}
							return compositions(s, func(fr []string) bool {
								for i, e := range ends {
									if !emit(Case{Frags: fr, End: e}) || (n < 5 || i == 0) && !emit(Case{Frags: fr, End: e, Zero: true}) {
										return false
									}
								}
								return true
							})
						}) {
							return
						}
					}
				}, exec),
			mc.Cases("bytes", mc.Opts{Limit: 4 * time.Minute, Bound: "every byte value and 20 unusual texts in one, two or single-byte reads, 6 endings; every path form and both clusters", Setup: setup, Workers: 32},
				func(c *mc.Ctx, emit func(Case) bool) {
					texts := []string{}
					for b := 1; b < 128; b++ {
						texts = append(texts, "x"+string(rune(b))+"y\nz")
					}
					texts = append(texts, "\x00", "\x00\n\x00", "\r\n", "\r\n\r\n", "a\rb\n", "名前\n", "\u2028\n", "\n\n\n", "a\n\nb", `{"type":"ADDED","object":{"a":"\n"}}`+"\n", " \n ", "\t", "\x1b[0m\n", "é", "%s%d\n", "0\r\n\r\n", "5\r\nhello\r\n", "", "\n", "a")
					for i, t := range texts {
						for _, e := range ends {
							for _, fr := range [][]string{{t}, strings.Split(t, ""), {t[:len(t)/2], t[len(t)/2:]}} {
								if !emit(Case{Frags: nonEmpty(fr), End: e, Path: paths[i%len(paths)]}) {
									return
								}
							}
						}
					}
					for _, p := range paths {
						for _, e := range ends {
							if !emit(Case{Frags: []string{"ab", "c\nd", "\n"}, End: e, Path: p}) {
								return
							}
							sep := "&"
							if !strings.Contains(p, "?") {
								sep = "?"
							}
							if !emit(Case{Frags: []string{"ab", "c\nd", "\n"}, End: e, Path: p + sep + "cluster=c2", To: "c2"}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("long", mc.Opts{Limit: 4 * time.Minute, Bound: "streams of 1..300,000 bytes (thorough 2 MB) with lines of 1, 2, 100, 4096, 70,000 bytes cut every 1, 3, 511..513, 4095..4097, 32768, 65536 bytes, 6 endings", Setup: setup, Workers: 32},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, b := range []int{1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65537, mc.Pick(c, 300000, 2000000)} {
						for _, l := range []int{1, 2, 100, 4096, 70000} {
							for _, k := range []int{1, 3, 511, 512, 513, 4095, 4096, 4097, 32768, 65536} {
								if b > 70000 && (k < 512 || l < 100) || b > 5000 && l < 100 && k < 512 {
									continue
								}
								for _, e := range ends {
									if !emit(Case{Big: b, Line: l, Cut: k, End: e}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("client-gone", mc.Opts{Limit: 4 * time.Minute, Bound: "the client goes away before the answer, after every prefix of short streams while the API server is silent, or while it keeps sending; every path form", Setup: setup, Workers: 64},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 0; n <= 4; n++ {
						if !mc.Words(2, n, func(ws []int) bool {
							var s string
							for _, i := range ws {
								s += string("a\n"[i])
							}
							return compositions(s, func(fr []string) bool {
								return emit(Case{Frags: fr, End: "hang"}) && (n > 2 || emit(Case{Frags: fr, End: "forever"}))
							})
						}) {
							return
						}
					}
					for _, p := range paths {
						for _, e := range []string{"hang", "forever", "never"} {
							if !emit(Case{Frags: []string{"a\nb"}, End: e, Path: p}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("open-errors", mc.Opts{Limit: 4 * time.Minute, Bound: "every status 400..599 with and without a Status body, 9 path forms", Setup: setup},
				func(c *mc.Ctx, emit func(Open) bool) {
					for code := 400; code < 600; code++ {
						for i, p := range paths {
							if (i+code)%3 == 0 || c.Thorough() {
								if !emit(Open{code, true, p}) || !emit(Open{code, false, p}) {
									return
								}
							}
						}
					}
				}, execOpen),
		}, severalFamilies()...),
	})
}

func nonEmpty(f []string) []string {
	var r []string
	for _, s := range f {
		if s != "" {
			r = append(r, s)
		}
	}
	return r
}
