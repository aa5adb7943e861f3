package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"
)

// Several streams at the same time, in virtual time. Acts are
//
//	open I CLUSTER [DELAY]   the client opens stream I, the API server answers (after the delay)
//	send I TEXT              the API server sends the text
//	end I eof|err|reset|timeout
//	gone I                   the client goes away
//	block I, unblock I       the client stops taking and takes again
//	list, get                another request, served from the cache or by the API server
//	wait DURATION
type Several struct {
	Acts []string
	Path string `json:",omitempty"`
}

var texts = map[string]string{"line": "abc\n", "part": "de", "nl": "\n", "long": strings.Repeat("x", 9000) + "\ny", "two": "1\n2\n", "raw": "\xff\x80\xc3(\n"}

var errTimeout = errors.New("i/o timeout")
var ends = map[string]error{"eof": io.EOF, "err": io.ErrUnexpectedEOF, "reset": syscall.ECONNRESET, "timeout": errTimeout}

// feed is the body of the API server's answer.
type feed struct {
	mu     sync.Mutex
	buf    []byte
	err    error
	signal chan struct{}
	ctx    context.Context
	closed chan struct{}
	once   sync.Once
}

func (f *feed) put(s string, err error) {
	f.mu.Lock()
	f.buf = append(f.buf, s...)
	if err != nil {
		f.err = err
	}
	f.mu.Unlock()
	select {
	case f.signal <- struct{}{}:
	default:
	}
}

func (f *feed) Close() error { f.once.Do(func() { close(f.closed) }); return nil }

func (f *feed) Read(b []byte) (int, error) {
	for {
		f.mu.Lock()
		if len(f.buf) > 0 {
			n := copy(b, f.buf)
			f.buf = f.buf[n:]
			f.mu.Unlock()
			return n, nil
		}
		err := f.err
		f.mu.Unlock()
		if err != nil {
			return 0, err
		}
		select {
		case <-f.signal:
		case <-f.ctx.Done():
			return 0, f.ctx.Err()
		case <-f.closed:
			return 0, errors.New("read on closed body")
		}
	}
}

// taker is the client; while it is blocked its writes do not return.
type taker struct {
	*writer
	gate chan struct{}
}

func (t *taker) Write(b []byte) (int, error) {
	t.mu.Lock()
	g := t.gate
	t.mu.Unlock()
	if g != nil {
		<-g
	}
	return t.writer.Write(b)
}

type stream struct {
	out     *taker
	cancel  func()
	done    chan struct{}
	feed    *feed
	sent    string
	to      string
	blocked bool
	ended   bool
	gone    bool
	delayed bool
	at      time.Time
}

func (s *stream) check(what string) error {
	select {
	case <-s.done:
		if !s.ended && !s.gone {
			return fmt.Errorf("%s: the relay ended although the stream goes on", what)
		}
	default:
		if (s.ended || s.gone) && !s.blocked {
			return fmt.Errorf("%s: the relay goes on although the stream ended (%v) or the client is gone (%v)", what, s.ended, s.gone)
		}
	}
	s.out.mu.Lock()
	got, delivered := s.out.buf.String(), s.out.delivered
	s.out.mu.Unlock()
	if !strings.HasPrefix(s.sent, got) {
		return fmt.Errorf("%s: the client got %.100q, the API server sent %.100q", what, got, s.sent)
	}
	if s.blocked || s.gone || s.delayed {
		return nil
	}
	if lines := strings.LastIndex(s.sent, "\n") + 1; delivered < lines {
		return fmt.Errorf("%s: %d bytes in complete lines were received, %d passed on", what, lines, delivered)
	}
	if s.ended && (got != s.sent || delivered != len(got)) {
		return fmt.Errorf("%s: the API server sent %.100q, the client got %.100q, %d bytes flushed", what, s.sent, got, delivered)
	}
	return nil
}

func several(x *mc.X, t Several) (err error) {
	// a bubble that cannot go on is a relay that does not
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	synctest.Test(theT, func(*testing.T) { err = bubble(x, t) })
	return err
}

var theT = &testing.T{}

func bubble(x *mc.X, t Several) (err error) {
	w := world.New(cfg, "c1", "c2")
	gen.Fill(w.Store, []gen.Spec{{C: "c1", N: "m1", O: "x"}}, true, true)
	ss := map[string]*stream{}
	var mu sync.Mutex
	var bad error
	fail := func(f string, a ...interface{}) { bad = fmt.Errorf(f, a...) }
	for cl, u := range w.Ups {
		cl := cl
		u.Handler = func(r *http.Request, _ []byte) (*http.Response, error) {
			id := r.URL.Query().Get("id")
			if id == "" {
				return world.Response(r, 200, "forwarded "+cl), nil
			}
			mu.Lock()
			s := ss[id]
			mu.Unlock()
			if s == nil || s.to != cl {
				fail("stream %s was opened at %s", id, cl)
				return nil, errors.New("no")
			}
			if d := r.URL.Query().Get("delay"); d != "" {
				dd, _ := time.ParseDuration(d)
				select {
				case <-time.After(dd):
				case <-r.Context().Done():
					return nil, r.Context().Err()
				}
			}
			mu.Lock()
			s.delayed = false
			s.feed.ctx = r.Context()
			mu.Unlock()
			res := world.Response(r, 200, "")
			res.Body, res.ContentLength = s.feed, -1
			return res, nil
		}
	}
	defer func() { // nothing is left behind
		for _, s := range ss {
			if s.blocked {
				s.out.mu.Lock()
				close(s.out.gate)
				s.out.gate, s.blocked = nil, false
				s.out.mu.Unlock()
			}
			s.cancel()
			s.feed.put("", io.EOF)
		}
		time.Sleep(2 * time.Hour)
	}()
	for i, a := range t.Acts {
		f := strings.Fields(a)
		var s *stream
		if len(f) > 1 {
			s = ss[f[1]]
		}
		if s == nil && f[0] != "open" && f[0] != "list" && f[0] != "get" && f[0] != "wait" {
			continue
		}
		switch f[0] {
		case "open":
			if s != nil && (s.blocked || !s.ended && !s.gone) {
				continue
			}
			ctx, cancel := context.WithCancel(context.Background())
			s = &stream{out: &taker{writer: newWriter()}, cancel: cancel, done: make(chan struct{}), to: f[2], at: time.Now()}
			s.feed = &feed{signal: make(chan struct{}, 1), closed: make(chan struct{}), ctx: ctx}
			mu.Lock()
			ss[f[1]] = s
			mu.Unlock()
			p := t.Path
			if p == "" {
				p = "/api/v1/namespaces/m1/pods?watch=true"
			}
			if strings.Contains(p, "?") {
				p += "&"
			} else {
				p += "?"
			}
			p += "id=" + f[1]
			if f[2] != "c1" {
				p += "&cluster=" + f[2]
			}
			if len(f) > 3 {
				p += "&delay=" + f[3]
				s.delayed = true
			}
			req := world.Req("GET", p, nil, "").WithContext(ctx)
			go func() {
				defer close(s.done)
				w.Router.ServeHTTP(s.out, req)
			}()
		case "send":
			if s.ended || s.gone {
				continue
			}
			s.sent += texts[f[2]]
			s.feed.put(texts[f[2]], nil)
		case "end":
			if s.gone {
				continue
			}
			s.ended = true
			s.feed.put("", ends[f[2]])
		case "gone":
			s.gone = true
			s.cancel()
			if s.blocked { // a connection that is gone takes everything
				s.out.mu.Lock()
				close(s.out.gate)
				s.out.gate, s.blocked = nil, false
				s.out.mu.Unlock()
			}
		case "block":
			if !s.blocked {
				s.out.mu.Lock()
				s.out.gate, s.blocked = make(chan struct{}), true
				s.out.mu.Unlock()
			}
		case "unblock":
			if s.blocked {
				s.out.mu.Lock()
				close(s.out.gate)
				s.out.gate, s.blocked = nil, false
				s.out.mu.Unlock()
			}
		case "list", "get":
			p, want := "/api/v1/pods", `"remainingItemCount"`
			if f[0] == "get" {
				p, want = "/api/v1/services?cluster=c2", "forwarded c2"
			}
			out := newWriter()
			done := make(chan struct{})
			go func() { defer close(done); w.Router.ServeHTTP(out, world.Req("GET", p, nil, "")) }()
			synctest.Wait()
			select {
			case <-done:
			default:
				return fmt.Errorf("after %v: another request is not answered", t.Acts[:i+1])
			}
			if out.code != 200 || !strings.Contains(out.buf.String(), want) {
				return fmt.Errorf("after %v: another request is answered %d %.100q", t.Acts[:i+1], out.code, out.buf.String())
			}
		case "wait":
			d, _ := time.ParseDuration(f[1])
			time.Sleep(d)
		}
		synctest.Wait()
		x.Step(1)
		if bad != nil {
			return fmt.Errorf("after %v: %v", t.Acts[:i+1], bad)
		}
		sig := ""
		for id, s := range ss {
			if err := s.check("stream " + id); err != nil {
				return fmt.Errorf("after %v: %v", t.Acts[:i+1], err)
			}
		}
		for j := 0; j < 9; j++ {
			if s := ss[strconv.Itoa(j)]; s != nil {
				sig += fmt.Sprint(j, s.to, len(s.sent), s.blocked, s.ended, s.gone, s.delayed, ";")
			}
		}
		x.State(sig)
	}
	x.Outcome(fmt.Sprint(len(ss)))
	return nil
}

func severalFamilies() []mc.Family {
	return []mc.Family{
		mc.Cases("several", mc.Opts{Limit: 4 * time.Minute, Setup: setup, Bound: "two watches, of one or two clusters: every word of up to 4 (thorough 5) of 14 actions (5 texts in turn, ends, a client that goes away, stops taking, takes again, other requests)"},
			func(c *mc.Ctx, emit func(Several) bool) {
				al := []string{"send 0 line", "send 0 part", "send 1 line", "send 1 part", "send 1 long", "send 0 raw", "end 0 eof", "end 1 err", "gone 0", "block 0", "unblock 0", "list", "get", "open 0 c2"}
				for l := 1; l <= mc.Pick(c, 4, 5); l++ {
					for _, cl := range []string{"c1", "c2"} {
						if cl == "c2" && l == 4 && !c.Thorough() {
							continue
						}
						if !mc.Words(len(al), l, func(ws []int) bool {
							acts := []string{"open 0 c1", "open 1 " + cl}
							for _, i := range ws {
								acts = append(acts, al[i])
							}
							return emit(Several{Acts: append(acts, "unblock 0", "send 0 nl", "send 1 nl", "end 0 eof", "end 1 eof")})
						}) {
							return
						}
					}
				}
			}, several),
		mc.Cases("idle", mc.Opts{Limit: 4 * time.Minute, Setup: setup, Bound: fmt.Sprintf("silence of each of %d durations up to 29 minutes before the answer, the first line, between lines, within a line and before each of 4 ends, each path form; also several times in a row", len(durations))},
			func(c *mc.Ctx, emit func(Several) bool) {
				for _, p := range paths {
					for _, d := range durations {
						for _, e := range []string{"eof", "err", "reset", "timeout"} {
							for _, acts := range [][]string{
								{"open 0 c1 " + d, "wait " + d, "send 0 line", "end 0 " + e},
								{"open 0 c1", "wait " + d, "send 0 line", "end 0 " + e},
								{"open 0 c1", "send 0 line", "wait " + d, "send 0 line", "end 0 " + e},
								{"open 0 c2", "send 0 part", "wait " + d, "send 0 line", "send 0 part", "end 0 " + e},
								{"open 0 c1", "send 0 part", "wait " + d, "end 0 " + e},
								{"open 0 c1", "wait " + d, "end 0 " + e},
								{"open 0 c1", "send 0 line", "wait " + d, "gone 0"},
							} {
								if !emit(Several{acts, p}) {
									return
								}
							}
						}
						dd, _ := time.ParseDuration(d)
						acts := []string{"open 0 c1"}
						for t := dd; t < 29*time.Minute && len(acts) < 40; t += dd {
							acts = append(acts, "wait "+d, "send 0 two")
						}
						if !emit(Several{append(acts, "end 0 eof"), p}) {
							return
						}
					}
				}
			}, several),
		mc.Cases("crowd", mc.Opts{Limit: 4 * time.Minute, Setup: setup, Bound: "1, 2, 5, 6, 10, 11, 50, 101, 257 (thorough 1025) watches at the same time, each sent lines in turn, all or every second ended"},
			func(c *mc.Ctx, emit func(Several) bool) {
				ns := []int{1, 2, 5, 6, 10, 11, 50, 101, 257}
				if c.Thorough() {
					ns = append(ns, 1025)
				}
				for _, n := range ns {
					var a []string
					for i := 0; i < n; i++ {
						a = append(a, fmt.Sprintf("open %d c%d", i, i%2+1))
					}
					for i := 0; i < n; i++ {
						a = append(a, fmt.Sprintf("send %d line", i))
					}
					for i := 0; i < n; i += 2 {
						a = append(a, fmt.Sprintf("send %d part", i), fmt.Sprintf("end %d err", i))
					}
					a = append(a, "list", "get")
					for i := 1; i < n; i += 2 {
						a = append(a, fmt.Sprintf("send %d two", i))
					}
					if !emit(Several{Acts: a}) {
						return
					}
				}
			}, several),
	}
}

var durations = []string{"1ms", "100ms", "500ms", "999ms", "1s", "1001ms", "2s", "5s", "9s", "10s", "11s", "14s", "15s", "16s", "29s", "30s", "31s", "45s", "59s", "60s", "61s", "89s", "91s", "119s", "2m", "121s", "3m", "299s", "301s", "599s", "601s", "14m59s", "15m1s", "19m59s", "20m1s", "24m", "25m1s", "28m", "29m"}
