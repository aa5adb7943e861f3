// C26: concurrent clients of the fake server do not interfere.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/gorilla/mux"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/vrt"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

const config = `{"default_cluster":"c1","proxies":[
{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}]}`

// Prog is a concurrent program: what exists at first, and the operations of each thread. An operation
// is one of + (create), = (update), - (delete), ? (read) and an object, or ls, or clean. Objects are
// a and b, am is in another namespace, a2 in another cluster.
type Prog struct {
	Init  []string
	T     [][]string
	Bound int
}

type ident struct{ cluster, ns, name string }

func object(o string) ident {
	switch o {
	case "am":
		return ident{"c1", "m", "a"}
	case "a2":
		return ident{"c2", "n", "a"}
	}
	return ident{"c1", "n", o}
}

// router finds the router of the fake server, wherever it keeps it.
func router(v reflect.Value, depth int) http.Handler {
	if depth == 0 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface:
		return router(v.Elem(), depth)
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if r, ok := reflect.NewAt(v.Type(), ptr(v)).Elem().Interface().(*mux.Router); ok {
			return r
		}
		return router(v.Elem(), depth-1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if h := router(v.Field(i), depth-1); h != nil {
				return h
			}
		}
	}
	return nil
}

// ptr is the address of a variable that holds what v holds.
func ptr(v reflect.Value) unsafe.Pointer {
	p := new(unsafe.Pointer)
	*p = v.UnsafePointer()
	return unsafe.Pointer(p)
}

var (
	once sync.Once
	srv  fake.CkubeServer
	h    http.Handler
	fail error
)

func prepare() error {
	once.Do(func() {
		vrt.Strangers()
		for i := 0; i < 5; i++ {
			var addr string
			if addr, fail = world.FreePort(); fail != nil {
				continue
			}
			if srv, fail = fake.NewFakeCKubeServer(addr, config); fail == nil {
				break
			}
		}
		if fail != nil {
			fail = fmt.Errorf("HARNESS: no fake server: %v", fail)
			return
		}
		if h = router(reflect.ValueOf(srv), 8); h == nil {
			fail = fmt.Errorf("HARNESS: the fake server has no router")
		}
	})
	return fail
}

// stream is the client of a watch.
type stream struct {
	mu     sync.Mutex
	hdr    http.Header
	code   int
	buf    bytes.Buffer
	opened chan struct{}
	more   chan struct{}
	open   bool
	done   chan struct{}
	cancel func()
	match  func(ident) bool
	name   string
	hook   func() // called when the watch is opened, before its handler goes on
}

func (w *stream) Header() http.Header { return w.hdr }
func (w *stream) WriteHeader(c int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.code == 0 {
		w.code = c
	}
}
func (w *stream) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	select {
	case w.more <- struct{}{}:
	default:
	}
	return w.buf.Write(b)
}
func (w *stream) Flush() {
	w.mu.Lock()
	first := !w.open
	if first {
		w.open = true
		close(w.opened)
	}
	w.mu.Unlock()
	if first && w.hook != nil {
		w.hook()
	}
}

func (w *stream) lines() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.buf.String()
	i := strings.LastIndexByte(s, '\n')
	if i < 0 {
		return nil
	}
	return strings.Split(s[:i], "\n")
}

var port = 2000

func watch(name, target string, match func(ident) bool, hook ...func()) (*stream, error) {
	w := &stream{hdr: http.Header{}, opened: make(chan struct{}), more: make(chan struct{}, 1), done: make(chan struct{}), match: match, name: name}
	for _, f := range hook {
		w.hook = f
	}
	r := world.Req("GET", target, nil, "")
	port++
	r.RemoteAddr = fmt.Sprintf("192.0.2.7:%d", port)
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	r = r.WithContext(ctx)
	go func() {
		defer close(w.done)
		h.ServeHTTP(w, r)
	}()
	select {
	case <-w.opened:
	case <-w.done:
		cancel()
		return nil, fmt.Errorf("watch %s ended at once with status %d: %.200s", name, w.code, w.buf.String())
	case <-time.After(20 * time.Second):
		cancel()
		return nil, fmt.Errorf("watch %s is not opened within 20 s", name)
	}
	return w, nil
}

type event struct {
	th, i     int
	op        string
	v         string
	call, ret int64
	code      int
	body      string
	see       string // what a read saw
	bad       error
}

type recorder struct {
	hdr  http.Header
	code int
	buf  bytes.Buffer
}

func (w *recorder) Header() http.Header         { return w.hdr }
func (w *recorder) WriteHeader(c int)           { w.set(c) }
func (w *recorder) Write(b []byte) (int, error) { w.set(200); return w.buf.Write(b) }
func (w *recorder) Flush()                      { w.set(200) }
func (w *recorder) set(c int) {
	if w.code == 0 {
		w.code = c
	}
}

func send(method, target, body string) *recorder {
	w := &recorder{hdr: http.Header{}}
	h.ServeHTTP(w, world.Req(method, target, nil, body))
	if w.code == 0 {
		w.code = 200
	}
	return w
}

var large = strings.Repeat("x", 5000)

func (e *event) do() {
	if e.op == "clean" {
		srv.Clean()
		return
	}
	if e.op == "ls" {
		e.read("/api/v1/namespaces/n/pods")
		return
	}
	id := object(e.op[1:])
	path := "/api/v1/namespaces/" + id.ns + "/pods"
	q, del := "", ""
	if id.cluster != "c1" {
		q, del = "?fieldManager=dsm-cluster-"+id.cluster, `{"dryRun":["dsm-cluster-`+id.cluster+`"]}`
	}
	pad := ""
	if id.cluster == "c2" { // some objects are large
		pad = large
	}
	body := fmt.Sprintf(`{"apiVersion":"v1","kind":"Pod","metadata":{"name":%q,"namespace":%q,"labels":{"v":%q}},"spec":{"nodeName":%q,"hostname":%q}}`, id.name, id.ns, e.v, e.v, pad)
	var w *recorder
	switch e.op[0] {
	case '+':
		w = send("POST", path+q, body)
	case '=':
		w = send("PUT", path+"/"+id.name+q, body)
	case '-':
		w = send("DELETE", path+"/"+id.name, del)
	case '?':
		if q != "" {
			q = "?resourceVersion=dsm-cluster-" + id.cluster
		}
		w = send("GET", path+"/"+id.name+q, "")
		if w.code == 200 {
			var o obj
			if err := json.Unmarshal(w.buf.Bytes(), &o); err != nil {
				e.bad = err
			}
			e.see, e.bad = o.v()
		}
	}
	e.code, e.body = w.code, w.buf.String()
}

type obj struct {
	Metadata struct {
		Name, Namespace     string
		Labels, Annotations map[string]string
	}
	Spec struct{ NodeName string }
}

// v is the version of an object, all parts of which must be of the same.
func (o obj) v() (string, error) {
	v := o.Metadata.Labels["v"]
	if o.Spec.NodeName != v {
		return v, fmt.Errorf("parts of versions %q and %q in one object", v, o.Spec.NodeName)
	}
	return v, nil
}

func (e *event) read(target string) {
	w := send("GET", target, "")
	e.code, e.body = w.code, w.buf.String()
	var l struct{ Items []obj }
	if err := json.Unmarshal(w.buf.Bytes(), &l); err != nil {
		e.bad = err
		return
	}
	m := map[ident]string{}
	for _, o := range l.Items {
		v, err := o.v()
		if err != nil {
			e.bad = err
		}
		id := ident{o.Metadata.Annotations["ckube.doacloud.io/cluster"], o.Metadata.Namespace, o.Metadata.Name}
		if _, ok := m[id]; ok {
			e.bad = fmt.Errorf("%v is listed twice", id)
		}
		m[id] = v
	}
	e.see = str(m, func(ident) bool { return true })
}

func str(m map[ident]string, in func(ident) bool) string {
	var l []string
	for k, v := range m {
		if in(k) {
			l = append(l, fmt.Sprintf("%v=%s", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// seen are the events of each watch
type seen struct {
	w  *stream
	ev []string
}

// explain searches an order of the operations that respects real time and explains every answer and
// the events of every watch.
func explain(evs []*event, init map[ident]string, ws []seen) bool {
	memo := map[string]bool{}
	var rec func(done int, st map[ident]string, pos []int) bool
	rec = func(done int, st map[ident]string, pos []int) bool {
		if done == 1<<len(evs)-1 {
			for i := range ws {
				if pos[i] != len(ws[i].ev) {
					return false
				}
			}
			return true
		}
		key := fmt.Sprint(done, str(st, func(ident) bool { return true }), pos)
		if memo[key] {
			return false
		}
		memo[key] = true
	next:
		for i, e := range evs {
			if done&(1<<i) != 0 {
				continue
			}
			for j, o := range evs {
				if j != i && done&(1<<j) == 0 && o.ret < e.call {
					continue next
				}
			}
			nst, npos := st, pos
			switch {
			case e.op == "clean":
				nst = map[ident]string{}
			case e.op == "ls":
				if e.code != 200 || e.see != str(st, func(k ident) bool { return k.cluster == "c1" && k.ns == "n" }) {
					continue
				}
			case e.op == "all":
				if e.code != 200 || e.see != str(st, func(k ident) bool { return true }) {
					continue
				}
			default:
				id := object(e.op[1:])
				old, ok := st[id]
				want, typ, val := 200, "", e.v
				switch e.op[0] {
				case '+':
					typ = "ADDED"
					if ok {
						want = 400
					}
				case '=':
					typ = "MODIFIED"
					if !ok {
						want = 404
					}
				case '-':
					typ, val = "DELETED", old
					if !ok {
						want = 404
					}
				case '?':
					if !ok {
						want = 404
					} else if e.see != old {
						continue
					}
				}
				if e.code != want {
					continue
				}
				if want == 200 && typ != "" {
					nst = map[ident]string{}
					for k, v := range st {
						nst[k] = v
					}
					if typ == "DELETED" {
						delete(nst, id)
					} else {
						nst[id] = val
					}
					npos = append([]int(nil), pos...)
					for w := range ws {
						if !ws[w].w.match(id) {
							continue
						}
						if npos[w] >= len(ws[w].ev) || ws[w].ev[npos[w]] != fmt.Sprintf("%s %s/%s=%s", typ, id.ns, id.name, val) {
							continue next
						}
						npos[w]++
					}
				}
			}
			if rec(done|1<<i, nst, npos) {
				return true
			}
		}
		return false
	}
	return rec(0, init, make([]int, len(ws)))
}

var clusters2 = func() string {
	p := page.Paginate{}
	_ = p.Clusters([]string{"c2"})
	return "&labelSelector=" + url.QueryEscape(gen.Encode(p))
}()

var both = func() string {
	p := page.Paginate{}
	_ = p.Clusters([]string{"c1", "c2"})
	return "?labelSelector=" + url.QueryEscape(gen.Encode(p))
}()

func run(l *mc.Local, p Prog) error {
	if err := prepare(); err != nil {
		return err
	}
	runtime.GOMAXPROCS(1)
	var evs []*event
	var ws []*stream
	init := map[ident]string{}
	var broken error
	end := func() {
		for _, w := range ws {
			w.cancel()
			select {
			case <-w.done:
			case <-time.After(20 * time.Second):
				broken = fmt.Errorf("the watch %s does not end within 20 s after its client went away", w.name)
			}
		}
		ws = nil
	}
	mk := func() []func() {
		end()
		srv.Clean()
		init = map[ident]string{}
		for _, o := range p.Init {
			e := &event{op: "+" + o, v: "0"}
			e.do()
			if e.code != 200 {
				broken = fmt.Errorf("+%s is answered %d %s", o, e.code, e.body)
			}
			init[object(o)] = "0"
		}
		for _, x := range []struct {
			name, target string
			match        func(ident) bool
		}{
			{"of everything", "/api/v1/pods?watch=true", func(ident) bool { return true }},
			{"of one namespace", "/api/v1/namespaces/n/pods?watch=true", func(id ident) bool { return id.ns == "n" }},
			{"of one cluster", "/api/v1/pods?watch=true" + clusters2, func(id ident) bool { return id.cluster == "c2" }},
		} {
			w, err := watch(x.name, x.target, x.match)
			if err != nil {
				broken = err
				continue
			}
			ws = append(ws, w)
		}
		evs = nil
		var fs []func()
		for t, ops := range p.T {
			var mine []*event
			for i, o := range ops {
				e := &event{th: t, i: i, op: o, v: fmt.Sprintf("%d.%d", t, i)}
				mine = append(mine, e)
				evs = append(evs, e)
			}
			fs = append(fs, func() {
				for _, e := range mine {
					e.call = vrt.Clock()
					e.do()
					e.ret = vrt.Clock()
				}
			})
		}
		return fs
	}
	var bad error
	n, steps, all := vrt.Explore(p.Bound, 60000, mk, func(r vrt.Result) bool {
		var got []seen
		where := func() string {
			var b strings.Builder
			fmt.Fprintf(&b, "schedule %v, at first %s\n", r.Schedule, str(init, func(ident) bool { return true }))
			for _, e := range evs {
				fmt.Fprintf(&b, "  thread %d [%d,%d] %s v=%s: %d %s %.150s\n", e.th, e.call, e.ret, e.op, e.v, e.code, e.see, e.body)
			}
			for _, g := range got {
				fmt.Fprintf(&b, "  watch %s: %s\n", g.w.name, strings.Join(g.ev, ", "))
			}
			return b.String()
		}
		switch {
		case broken != nil:
			bad = broken
		case r.Races > 0:
			bad = fmt.Errorf("data race\n%s", where())
		case r.Deadlock:
			bad = fmt.Errorf("deadlock\n%s", where())
		case r.Panic != "":
			bad = fmt.Errorf("panic: %s\n%s", r.Panic, where())
		}
		if bad != nil {
			return false
		}
		if r.Diverged {
			l.R.Notes = append(l.R.Notes, "an execution did not follow its schedule: "+mc.J(p))
			l.R.Capped = true
		}
		last := &event{th: -1, op: "all", call: 1 << 40, ret: 1 << 41}
		last.read("/api/v1/pods" + both)
		evs = append(evs, last)
		// the last event of every watch
		if m := send("POST", "/api/v1/namespaces/n/pods?fieldManager=dsm-cluster-c2", `{"apiVersion":"v1","kind":"Pod","metadata":{"name":"mark"}}`); m.code != 200 {
			bad = fmt.Errorf("the last create is answered %d %s\n%s", m.code, m.buf.String(), where())
			return false
		}
		for _, w := range ws {
			g := seen{w: w}
			for late := time.After(20 * time.Second); ; {
				g.ev = nil
				marked := false
				for _, s := range w.lines() {
					var x struct {
						Type   string
						Object obj
					}
					if err := json.Unmarshal([]byte(s), &x); err != nil {
						bad = fmt.Errorf("watch %s reports %.200q: %v\n%s", w.name, s, err, where())
						return false
					}
					if x.Object.Metadata.Name == "mark" {
						marked = true
						continue
					}
					v, err := x.Object.v()
					if err != nil {
						bad = fmt.Errorf("watch %s reports %.200q: %v\n%s", w.name, s, err, where())
						return false
					}
					g.ev = append(g.ev, fmt.Sprintf("%s %s/%s=%s", x.Type, x.Object.Metadata.Namespace, x.Object.Metadata.Name, v))
				}
				if marked {
					break
				}
				select {
				case <-w.more:
				case <-late:
					bad = fmt.Errorf("watch %s does not report a later write within 20 s\n%s", w.name, where())
					return false
				}
			}
			got = append(got, g)
		}
		for _, e := range evs {
			if e.bad != nil {
				bad = fmt.Errorf("%s: %v\n%s", e.op, e.bad, where())
				return false
			}
		}
		if !explain(evs, init, got) {
			bad = fmt.Errorf("no order of the operations explains the answers and the events of the watches\n%s", where())
			return false
		}
		var out []string
		for _, e := range evs {
			out = append(out, fmt.Sprintf("%s %d %s", e.op, e.code, e.see))
		}
		for _, g := range got {
			out = append(out, strings.Join(g.ev, ","))
		}
		l.Outcome(strings.Join(out, ";"))
		l.State(mc.J(p.Init) + mc.J(p.T) + strings.Join(out, ";"))
		return true
	})
	end()
	if bad == nil {
		bad = broken
	}
	l.Step(int(steps))
	l.Trace(n - 1)
	if bad == nil && !all {
		l.R.Capped = true
		l.R.Notes = append(l.R.Notes, fmt.Sprintf("%d schedules of %s, more exist", n, mc.J(p)))
	}
	return bad
}

// Open is a watch whose client writes as soon as it sees the watch opened.
type Open struct {
	Target string
	Init   []string
	Ops    []string
	Others int // watches that are open already
}

func opening(l *mc.Local, p Open) error {
	if err := prepare(); err != nil {
		return err
	}
	srv.Clean()
	for _, o := range p.Init {
		e := &event{op: "+" + o, v: "0"}
		e.do()
	}
	var ws []*stream
	defer func() {
		for _, w := range ws {
			w.cancel()
			<-w.done
		}
	}()
	var want []string
	all := func(ident) bool { return true }
	for i := 0; i < p.Others; i++ {
		w, err := watch("before", "/api/v1/pods?watch=true", all)
		if err != nil {
			return err
		}
		ws = append(ws, w)
	}
	var refused error
	written := make(chan bool)
	w, err := watch("of "+p.Target, p.Target, all, func() {
		go func() {
			defer close(written)
			for i, o := range p.Ops {
				e := &event{op: o, v: fmt.Sprint(i + 1)}
				e.do()
				if e.code != 200 {
					refused = fmt.Errorf("%v: %s is answered %d %s", mc.J(p), o, e.code, e.body)
				}
				typ := map[byte]string{'+': "ADDED", '=': "MODIFIED", '-': "DELETED"}[o[0]]
				want = append(want, typ+" "+object(o[1:]).name)
			}
		}()
		select {
		case <-written:
		case <-time.After(time.Second): // writes may have to wait for the handler
		}
	})
	if err != nil {
		return err
	}
	ws = append(ws, w)
	select {
	case <-written:
	case <-time.After(20 * time.Second):
		return fmt.Errorf("%v: no answer within 20 s", mc.J(p))
	}
	if refused != nil {
		return refused
	}
	for _, w := range ws {
		for late := time.After(20 * time.Second); ; {
			var got []string
			for _, s := range w.lines() {
				var x struct {
					Type   string
					Object obj
				}
				if err := json.Unmarshal([]byte(s), &x); err != nil {
					return fmt.Errorf("%v: watch %s reports %.200q: %v", mc.J(p), w.name, s, err)
				}
				got = append(got, x.Type+" "+x.Object.Metadata.Name)
			}
			l.Step(1)
			if strings.Join(got, ",") == strings.Join(want, ",") {
				break
			}
			select {
			case <-w.more:
			case <-late:
				return fmt.Errorf("%v: writes made when the watch was seen to be opened: watch %s reports %v, want %v", mc.J(p), w.name, got, want)
			}
		}
	}
	l.State(mc.J(p))
	l.Outcome(strings.Join(want, ","))
	return nil
}

func openings(emit func(Open) bool) {
	for _, t := range []string{"/api/v1/pods?watch=true", "/api/v1/pods?watch=1", "/api/v1/watch/pods", "/api/v1/namespaces/n/pods?watch=true", "/api/v1/watch/namespaces/n/pods", "/api/v1/pods" + both + "&watch=true", "/api/v1/pods?watch=true&timeoutSeconds=30"} {
		for _, ops := range [][]string{{"+a"}, {"=b"}, {"-b"}, {"+a", "=a", "-a"}, {"-b", "+b", "=b", "=b", "+a"}} {
			for _, n := range []int{0, 1, 3} {
				if !emit(Open{t, []string{"b"}, ops, n}) {
					return
				}
			}
		}
	}
}

var (
	ops   = []string{"+a", "=a", "-a", "?a", "+b", "+a2", "=a2", "-a2", "?a2", "+am", "-am", "ls", "clean"}
	inits = [][]string{{}, {"a"}, {"a", "a2", "am"}}
)

func pairs(bound int, emit func(Prog) bool) bool {
	for _, in := range inits {
		for i, a := range ops {
			for _, b := range ops[i:] {
				if !emit(Prog{in, [][]string{{a}, {b}}, bound}) {
					return false
				}
			}
		}
	}
	return true
}

func reads(o string) bool { return o[0] == '?' || o == "ls" }

func main() {
	if mc.IsWorker() {
		mc.Worker(map[string]func(*mc.Local, json.RawMessage) error{"pairs": mc.H(run), "sequences": mc.H(run), "three": mc.H(run), "races": mc.H(run), "openings": mc.H(opening)})
	}
	limit := 120 * time.Second
	core := []string{"+a", "=a", "-a", "?a", "+b", "ls", "clean"}
	mc.Main(mc.Def{ID: "C26",
		Oracle: "some order of the operations that respects real time must explain every answer, what is stored afterwards and the events of three watches that were open all the time; data races, deadlocks and panics are violations",
		Assume: []string{"threads are switched at lock, atomic and thread operations of the repository's packages; watches take their events after the operations"},
		Families: []mc.Family{
			mc.Cases("openings", mc.Opts{Bound: "7 forms of a watch whose client writes (5 sequences) at the moment it sees the watch opened, before the handler goes on, next to 0, 1 or 3 other watches"},
				func(c *mc.Ctx, emit func(Open) bool) { openings(emit) }, mc.Remote[Open]("openings", "", limit)),
			mc.Cases("pairs", mc.Opts{Bound: "every pair of 13 operations on objects of two namespaces and two clusters, from 3 populations, up to 2 preemptions (thorough 3)"},
				func(c *mc.Ctx, emit func(Prog) bool) { pairs(mc.Pick(c, 2, 3), emit) }, mc.Remote[Prog]("pairs", "", limit)),
			mc.Cases("sequences", mc.Opts{Bound: "every operation of 7 against every two of them (thorough: every two against every two), from 2 populations, up to 1 preemption (thorough 2)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					for _, in := range inits[:2] {
						for _, a := range core {
							for _, b := range core {
								if reads(a) && reads(b) {
									continue
								}
								for _, x := range core {
									if !emit(Prog{in, [][]string{{a, b}, {x}}, mc.Pick(c, 1, 2)}) {
										return
									}
									for _, y := range core {
										if c.Thorough() && !reads(x) && !reads(y) && !emit(Prog{in, [][]string{{a, b}, {x, y}}, 1}) {
											return
										}
									}
								}
							}
						}
					}
				}, mc.Remote[Prog]("sequences", "", limit)),
			mc.Cases("three", mc.Opts{Bound: "every three of 7 operations in 3 threads, from 2 populations, up to 1 preemption (thorough 2)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					for _, in := range inits[:2] {
						for i, a := range core {
							for j, b := range core[i:] {
								for _, x := range core[i+j:] {
									if !emit(Prog{in, [][]string{{a}, {b}, {x}}, mc.Pick(c, 1, 2)}) {
										return
									}
								}
							}
						}
					}
				}, mc.Remote[Prog]("three", "", limit)),
			mc.Cases("races", mc.Opts{Bound: "the programs of the pairs family, up to 1 preemption, under the race detector"},
				func(c *mc.Ctx, emit func(Prog) bool) { pairs(1, emit) }, mc.Remote[Prog]("races", ".race", limit)),
		}})
}
