// C03: watching keeps the cache converged, and outages never empty it.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"k8s.io/apimachinery/pkg/fields"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/client-go/rest"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// streams: every pair of a cached type and a cluster has one.
type streamID struct{ T, C int }

var kinds = []struct {
	gvr        store.GroupVersionResource
	kind, path string
	gv         string
}{
	{world.GVR("", "v1", "pods"), "Pod", "/api/v1/pods", "v1"},
	{world.GVR("x.io", "v1", "widgets"), "Widget", "/apis/x.io/v1/widgets", "x.io/v1"},
	{world.GVR("apps", "v1", "deployments"), "Deployment", "/apis/apps/v1/deployments", "apps/v1"},
	{world.GVR("x.io", "v1", "networkpolicies"), "NetworkPolicy", "/apis/x.io/v1/networkpolicies", "x.io/v1"},
	{world.GVR("x.io", "v1", "allowlists"), "AllowList", "/apis/x.io/v1/allowlists", "x.io/v1"},
}

var clusters = func() (l []string) {
	for i := 1; i <= 150; i++ {
		l = append(l, fmt.Sprintf("c%d", i))
	}
	return
}()

func config(types []int) common.Config {
	c := common.Config{DefaultCluster: "c1"}
	for _, t := range types {
		k := kinds[t]
		c.Proxies = append(c.Proxies, world.Proxy(k.gvr.Group, k.gvr.Version, k.gvr.Resource, k.kind, gen.IndexKeys()))
	}
	return c
}

// Case: types and clusters watched, and what happens. An action is "<stream> <what>".
type Case struct {
	Types    []int
	Clusters int
	Acts     []string
}

// conn is an attempt to connect, or a connection.
type conn struct {
	req  *http.Request
	ans  chan func() (*http.Response, error)
	w    *io.PipeWriter
	gone bool
}

type api struct {
	mu  sync.Mutex
	now map[streamID]*conn
	n   map[streamID]int
	bad []string
}

type transport struct {
	a       *api
	cluster int
	types   []int
}

func (t transport) RoundTrip(r *http.Request) (*http.Response, error) {
	id := streamID{-1, t.cluster}
	for _, k := range t.types {
		if kinds[k].path == r.URL.Path {
			id.T = k
		}
	}
	c := &conn{req: r, ans: make(chan func() (*http.Response, error), 1)}
	t.a.mu.Lock()
	if rv := r.URL.Query().Get("resourceVersion"); rv != "" && rv != "0" {
		t.a.bad = append(t.a.bad, fmt.Sprintf("request %s to %s for the events after a version only, the objects that exist would not be reported", r.URL, clusters[t.cluster]))
	}
	if id.T < 0 || r.Method != "GET" || r.URL.Query().Get("watch") != "true" || r.URL.Host != "host-"+clusters[t.cluster] {
		t.a.bad = append(t.a.bad, fmt.Sprintf("unexpected request %s %s to %s", r.Method, r.URL, clusters[t.cluster]))
	}
	if old := t.a.now[id]; old != nil && !old.gone && old.req.Context().Err() == nil {
		t.a.bad = append(t.a.bad, fmt.Sprintf("a second connection for %v while one is open", id))
	}
	t.a.now[id] = c
	t.a.n[id]++
	t.a.mu.Unlock()
	select {
	case f := <-c.ans:
		return f()
	case <-r.Context().Done():
		c.gone = true
		return nil, r.Context().Err()
	}
}

func response(r *http.Request, code int, ct string, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {ct}}, Body: body, ContentLength: -1, Request: r}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// fails answers a connection attempt so that it is no connection.
var fails = map[string]func(r *http.Request) (*http.Response, error){
	"refuse": func(r *http.Request) (*http.Response, error) {
		return nil, &net.OpError{Op: "dial", Err: syscall.ECONNREFUSED}
	},
	"reset": func(r *http.Request) (*http.Response, error) {
		return nil, &net.OpError{Op: "read", Err: syscall.ECONNRESET}
	},
	"timeout": func(r *http.Request) (*http.Response, error) { return nil, timeoutErr{} },
	"eof":     func(r *http.Request) (*http.Response, error) { return nil, io.EOF },
	"other":   func(r *http.Request) (*http.Response, error) { return nil, errors.New("no such host") },
	"500":     status(500, `{"kind":"Status","apiVersion":"v1","status":"Failure","message":"boom","code":500}`),
	"401":     status(401, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"Unauthorized","code":401}`),
	"403":     status(403, `Forbidden`),
	"404":     status(404, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"NotFound","code":404}`),
	"410":     status(410, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"Expired","code":410}`),
	"429":     status(429, `{"kind":"Status","apiVersion":"v1","status":"Failure","reason":"TooManyRequests","code":429}`),
	"503":     status(503, `<html>no backend</html>`),
	"302":     status(302, ``),
	"html":    status(200, "<html>login</html>\n"),
	"list":    status(200, `{"kind":"PodList","apiVersion":"v1","metadata":{"resourceVersion":"5"},"items":[]}`),
	"empty":   status(200, ``),
}

func status(code int, body string) func(r *http.Request) (*http.Response, error) {
	return func(r *http.Request) (*http.Response, error) {
		ct := "application/json"
		if strings.HasPrefix(body, "<") {
			ct = "text/html"
		}
		return response(r, code, ct, io.NopCloser(strings.NewReader(body))), nil
	}
}

// gated is the store with a gate before its updates, to keep a watcher busy.
type gated struct {
	store.Store
	mu   sync.Mutex
	gate chan struct{}
}

func (g *gated) wait() {
	g.mu.Lock()
	c := g.gate
	g.mu.Unlock()
	if c != nil {
		<-c
	}
}
func (g *gated) hold() { g.mu.Lock(); g.gate = make(chan struct{}); g.mu.Unlock() }
func (g *gated) release() {
	g.mu.Lock()
	if g.gate != nil {
		close(g.gate)
	}
	g.gate = nil
	g.mu.Unlock()
}
func (g *gated) Clean(r store.GroupVersionResource, c string) error {
	g.wait()
	return g.Store.Clean(r, c)
}
func (g *gated) OnResourceAdded(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceAdded(r, c, o)
}
func (g *gated) OnResourceModified(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceModified(r, c, o)
}
func (g *gated) OnResourceDeleted(r store.GroupVersionResource, c string, o interface{}) error {
	g.wait()
	return g.Store.OnResourceDeleted(r, c, o)
}

// model of one stream.
type model struct {
	up      bool
	since   time.Time
	cleaned bool // this connection has replaced what earlier ones reported
	errSeen bool
	cache   map[string]string // name -> version
}

type run struct {
	t       Case
	a       *api
	w       watcher.Watcher
	s       *gated
	m       map[streamID]*model
	ver     int
	stopped bool
	ending  chan error          // Stop was called while the store was busy
	alts    map[streamID]string // contents from before the store was busy
}

func (r *run) line(id streamID, typ, name string) string {
	r.ver++
	k := kinds[id.T]
	more := ""
	if r.ver%2 == 1 && typ != "ADDED" { // being deleted
		more = `,"deletionTimestamp":"2020-01-02T03:04:05Z","deletionGracePeriodSeconds":30,"finalizers":["x.io/f"]`
	}
	if name == "b" {
		more += `,"labels":{"app":"x"}`
	}
	return fmt.Sprintf(`{"type":%q,"object":{"apiVersion":%q,"kind":%q,"metadata":{"name":%q,"namespace":%q,"resourceVersion":"%d"%s},"spec":{}}}`+"\n", typ, k.gv, k.kind, name, nsOf(name), r.ver, more)
}

// nsOf is the namespace of the objects of a name.
func nsOf(name string) string {
	return map[string]string{"a": "kube-system", "b": "n", "c": "default"}[name]
}

// selected says whether a watch request asks for an object, as API servers understand it.
func selected(r *http.Request, name string) bool {
	q := r.URL.Query()
	f, err := fields.ParseSelector(q.Get("fieldSelector"))
	if err != nil || !f.Matches(fields.Set{"metadata.name": name, "metadata.namespace": nsOf(name)}) {
		return false
	}
	ls, err := labels.Parse(q.Get("labelSelector"))
	set := labels.Set{}
	if name == "b" {
		set["app"] = "x"
	}
	return err == nil && ls.Matches(set)
}

// cached is what the store holds for a stream.
func (r *run) cached(id streamID) string {
	var l []string
	for _, it := range r.s.Query(kinds[id.T].gvr, store.Query{Paginate: page.Paginate{Search: `cluster="` + clusters[id.C] + `"`}}).Items {
		o := it.(interface {
			GetName() string
			GetResourceVersion() string
		})
		l = append(l, o.GetName()+"@"+o.GetResourceVersion())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (m *model) text() string {
	var l []string
	for n, v := range m.cache {
		l = append(l, n+"@"+v)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func (r *run) ids() []streamID {
	var l []streamID
	for _, t := range r.t.Types {
		for c := 0; c < r.t.Clusters; c++ {
			l = append(l, streamID{t, c})
		}
	}
	return l
}

// wait lets everything that is going to happen now happen.
func (r *run) wait() {
	if r.ending != nil && r.s.gate != nil {
		// Stop may be waiting for the store in a way synctest.Wait would never see the end of
		for i := 0; i < 2000; i++ {
			runtime.Gosched()
		}
		return
	}
	synctest.Wait()
}

// settle lets everything that is going to happen now happen, accounts for quiet connections, and compares.
func (r *run) settle(l *mc.Local, after string) error {
	r.wait()
	for _, id := range r.ids() {
		m := r.m[id]
		if m.up && !r.stopped && !m.cleaned && !m.errSeen && time.Since(m.since) >= time.Minute {
			m.cleaned, m.cache = true, map[string]string{}
		}
		if r.s.gate != nil {
			continue
		}
		l.Step(1)
		got, want := r.cached(id), m.text()
		if r.ending != nil && (got == r.alts[id] || got == "") {
			continue // what the watcher was busy with when it was stopped was dropped
		}
		if got != want {
			return fmt.Errorf("after %s (%v): the cache of %s in %s is [%s], want [%s]", after, r.t.Acts, kinds[id.T].gvr.Resource, clusters[id.C], got, want)
		}
	}
	r.a.mu.Lock()
	defer r.a.mu.Unlock()
	if len(r.a.bad) > 0 {
		return fmt.Errorf("after %s (%v): %s", after, r.t.Acts, r.a.bad[0])
	}
	return nil
}

// down: the connection of the stream ended, it must be retried before long.
func (r *run) down(l *mc.Local, id streamID, after string) error {
	c := r.a.now[id]
	c.gone = true
	r.m[id].up = false
	if err := r.settle(l, after); err != nil {
		return err
	}
	for i := 0; i < 24 && !r.stopped; i++ { // two minutes
		if r.a.now[id] != c {
			break
		}
		time.Sleep(5 * time.Second)
		if err := r.settle(l, after+", waiting"); err != nil {
			return err
		}
	}
	if r.a.now[id] == c && !r.stopped {
		return fmt.Errorf("after %s (%v): the connection of %v is not retried within two minutes", after, r.t.Acts, id)
	}
	return nil
}

func (r *run) act(l *mc.Local, a string) error {
	f := strings.Fields(a)
	if f[0] == "stop" && r.s.gate != nil {
		r.ending = make(chan error, 1)
		go func() { r.ending <- r.w.Stop() }()
		r.stopped = true
		return r.settle(l, a)
	}
	if f[0] == "stop" {
		if err := r.w.Stop(); err != nil {
			return err
		}
		r.stopped = true
		return r.settle(l, a)
	}
	if f[0] == "hold" {
		r.s.hold()
		r.alts = map[streamID]string{}
		for _, id := range r.ids() {
			r.alts[id] = r.m[id].text()
		}
		return nil
	}
	if f[0] == "release" {
		r.s.release()
		if err := r.settle(l, a); err != nil || r.ending == nil {
			return err
		}
		select {
		case err := <-r.ending:
			return err
		default:
			return fmt.Errorf("after %s (%v): the watchers do not come to an end", a, r.t.Acts)
		}
	}
	if f[0] == "sleep" {
		d, err := time.ParseDuration(f[1])
		if err != nil {
			return err
		}
		time.Sleep(d)
		return r.settle(l, a)
	}
	var id streamID
	fmt.Sscanf(f[0], "%d.%d", &id.T, &id.C)
	m, c := r.m[id], r.a.now[id]
	if c == nil {
		return fmt.Errorf("HARNESS: no connection for %v", id)
	}
	if f[1] == "accept" {
		pr, pw := io.Pipe()
		c.w = pw
		req := c.req
		go func() { // a real connection dies with its request
			<-req.Context().Done()
			_ = pw.CloseWithError(req.Context().Err())
		}()
		c.ans <- func() (*http.Response, error) { return response(req, 200, "application/json", pr), nil }
		*m = model{up: true, since: time.Now(), cache: m.cache}
		return r.settle(l, a)
	}
	if fail, ok := fails[f[1]]; ok {
		c.ans <- func() (*http.Response, error) { return fail(c.req) }
		return r.down(l, id, a)
	}
	if c.w == nil {
		return fmt.Errorf("HARNESS: not connected: %s", a)
	}
	obj := func(name string) {
		if r.stopped {
			return
		}
		if !m.cleaned {
			m.cleaned, m.cache = true, map[string]string{}
		}
		if f[1] == "del" {
			delete(m.cache, name)
		} else {
			m.cache[name] = fmt.Sprint(r.ver)
		}
	}
	send := func(s string) {
		if r.s.gate != nil {
			go func() { _, _ = io.Copy(c.w, bytes.NewBufferString(s)) }() // nobody may be reading
			r.wait()
			return
		}
		if _, err := io.Copy(c.w, bytes.NewBufferString(s)); err != nil && !r.stopped {
			r.a.bad = append(r.a.bad, "the connection was closed: "+err.Error())
		}
	}
	switch f[1] {
	case "add", "mod", "del":
		typ := map[string]string{"add": "ADDED", "mod": "MODIFIED", "del": "DELETED"}[f[1]]
		s := r.line(id, typ, f[2])
		if !selected(c.req, f[2]) { // the API server does not tell
			obj(f[2])
			break
		}
		if len(f) > 3 { // in two halves
			send(s[:len(s)/2])
			if err := r.settle(l, a+" (half)"); err != nil {
				return err
			}
			s = s[len(s)/2:]
		}
		send(s)
		obj(f[2])
	case "burst": // several events at once
		s := ""
		s += r.line(id, "ADDED", "a")
		f[1] = "add"
		obj("a")
		s += r.line(id, "ADDED", "b")
		obj("b")
		s += r.line(id, "MODIFIED", "a")
		obj("a")
		s += r.line(id, "DELETED", "b")
		f[1] = "del"
		obj("b")
		send(s)
	case "error": // an error notice, the connection stays
		m.errSeen = true
		send(`{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Expired","code":410}}` + "\n")
	case "error-close":
		m.errSeen = true
		send(`{"type":"ERROR","object":{"kind":"Status","apiVersion":"v1","metadata":{},"status":"Failure","message":"too old resource version","reason":"Expired","code":410}}` + "\n")
		_ = c.w.Close()
		return r.down(l, id, a)
	case "garbage", "unknown", "notype":
		send(map[string]string{"garbage": "<html>}\n", "unknown": `{"type":"ADDED","object":{"kind":"Nope","apiVersion":"nope.io/v7","metadata":{"name":"x"}}}` + "\n", "notype": `{"type":"WHAT","object":{}}` + "\n"}[f[1]])
		return r.down(l, id, a)
	case "close":
		_ = c.w.Close()
		return r.down(l, id, a)
	case "break":
		_ = c.w.CloseWithError(&net.OpError{Op: "read", Err: syscall.ECONNRESET})
		return r.down(l, id, a)
	case "cut": // in the middle of an event
		s := r.line(id, "ADDED", "cut")
		send(s[:len(s)/2])
		_ = c.w.Close()
		return r.down(l, id, a)
	case "expire": // the time limit of the connection passes
		for i := 0; i < 70 && r.a.now[id] == c; i++ {
			time.Sleep(time.Minute)
			if c.req.Context().Err() != nil {
				m.up = false
				c.gone = true
			}
			if err := r.settle(l, a); err != nil {
				return err
			}
		}
		if r.a.now[id] == c {
			return fmt.Errorf("HARNESS: the connection of %v does not expire", id)
		}
	default:
		return fmt.Errorf("HARNESS: what is %s", a)
	}
	return r.settle(l, a)
}

func exec(l *mc.Local, t Case) (err error) {
	synctest.Test(theT, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
		}()
		err = bubble(l, t)
	})
	return err
}

func bubble(l *mc.Local, t Case) error {
	cfg := config(t.Types)
	common.InitConfig(&cfg)
	r := &run{t: t, a: &api{now: map[streamID]*conn{}, n: map[streamID]int{}}, m: map[streamID]*model{}}
	r.s = &gated{Store: memory.NewMemoryStore(world.IndexConf(cfg))}
	confs := map[string]rest.Config{}
	var gvrs []store.GroupVersionResource
	for c := 0; c < t.Clusters; c++ {
		confs[clusters[c]] = rest.Config{Host: "http://host-" + clusters[c], Transport: transport{r.a, c, t.Types}}
	}
	for _, k := range t.Types {
		gvrs = append(gvrs, kinds[k].gvr)
	}
	r.w = watcher.NewWatcher(confs, gvrs, r.s)
	if err := r.w.Start(); err != nil {
		return err
	}
	for _, id := range r.ids() {
		r.m[id] = &model{cache: map[string]string{}}
	}
	defer func() { // end everything
		r.s.release()
		if !r.stopped {
			_ = r.w.Stop()
		}
		for i := 0; i < 3; i++ {
			synctest.Wait()
			for _, c := range r.a.now {
				if c.w == nil && !c.gone {
					c.gone = true
					select {
					case c.ans <- func() (*http.Response, error) { return nil, errors.New("over") }:
					default:
					}
				}
				if c.w != nil {
					_ = c.w.Close()
				}
			}
			time.Sleep(2 * time.Hour)
		}
		synctest.Wait()
	}()
	if err := r.settle(l, "start"); err != nil {
		return err
	}
	for _, id := range r.ids() {
		if r.a.now[id] == nil {
			return fmt.Errorf("nobody watches %s in %s", kinds[id.T].gvr.Resource, clusters[id.C])
		}
	}
	for _, a := range t.Acts {
		if err := r.act(l, a); err != nil {
			return err
		}
		sig := ""
		for _, id := range r.ids() {
			m := r.m[id]
			sig += fmt.Sprint(id, m.up, m.cleaned, m.errSeen, len(m.cache), ";")
		}
		l.State(sig)
	}
	return nil
}

var theT *testing.T

// situation of a stream while words are generated.
type sit struct{ up, stopped bool }

// next lists the actions possible for a stream.
func next(p string, s sit, ups, downs []string) (acts []string, after []sit) {
	if !s.up {
		acts, after = append(acts, p+" accept"), append(after, sit{true, s.stopped})
		if s.stopped {
			return
		}
		for _, f := range downs {
			acts, after = append(acts, p+" "+f), append(after, s)
		}
		return
	}
	for _, a := range ups {
		n := s
		switch a {
		case "error-close", "garbage", "unknown", "notype", "close", "break", "cut", "expire":
			if s.stopped {
				continue
			}
			n.up = false
		}
		if a == "sleep" {
			acts, after = append(acts, "sleep 61s"), append(after, n)
		} else {
			acts, after = append(acts, p+" "+a), append(after, n)
		}
	}
	return
}

// words of the actions of some streams, of length n.
func words(prefix []string, ps []string, n int, ups, downs []string, stop bool, emit func([]string) bool) bool {
	var rec func(w []string, ss []sit, left int) bool
	rec = func(w []string, ss []sit, left int) bool {
		if left == 0 {
			return emit(append(append([]string{}, prefix...), w...))
		}
		for i, p := range ps {
			acts, after := next(p, ss[i], ups, downs)
			for j, a := range acts {
				n := append([]sit{}, ss...)
				n[i] = after[j]
				if !rec(append(w, a), n, left-1) {
					return false
				}
			}
		}
		if stop && !ss[0].stopped {
			n := append([]sit{}, ss...)
			for i := range n {
				n[i].stopped = true
			}
			if !rec(append(w, "stop"), n, left-1) {
				return false
			}
		}
		return true
	}
	return rec(nil, make([]sit, len(ps)), n)
}

func main() {
	fams := []string{"one-stream", "failures", "endings", "two-streams", "stop", "hour", "busy", "long", "many"}
	if mc.IsWorker() {
		testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "worker", F: func(t *testing.T) {
			theT = t
			m := map[string]func(*mc.Local, json.RawMessage) error{}
			for _, f := range fams {
				m[f] = mc.H(exec)
			}
			mc.Worker(m)
		}}}, nil, nil)
		os.Exit(0)
	}
	remote := func(name string) func(*mc.X, Case) error { return mc.Remote[Case](name, "", 60*time.Second) }
	fam := func(name, bound string, g func(c *mc.Ctx, emit func(Case) bool)) mc.Family {
		return mc.Cases(name, mc.Opts{Bound: bound}, g, remote(name))
	}
	ups := []string{"add a", "mod a", "del a", "add b", "error", "close", "cut", "sleep"}
	allUps := append(append([]string{}, ups...), "burst", "add a halves", "del b", "error-close", "garbage", "unknown", "notype", "break", "expire")
	var allDowns []string
	for f := range fails {
		allDowns = append(allDowns, f)
	}
	sort.Strings(allDowns)
	mc.JudgeHangs = true
	mc.Main(mc.Def{ID: "C03",
		Oracle: "per type and cluster, a map of the objects implied by the events of the last connection that delivered one; compared with the store after every step, in virtual time",
		Assume: []string{"a connection counts as quiet when a minute passed without an object event or error notice", "Go's testing/synctest provides the virtual clock; client-go's own retries are part of the code under check"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			fam("one-stream", "one type (each of 5) in one of two clusters: all histories of up to 5 for two types, 4 for two and 3 for one (thorough 8, 7, 6, 5) of 8 events while connected and 3 failures while not", func(c *mc.Ctx, emit func(Case) bool) {
				n := mc.Pick(c, 5, 8)
				for k := range kinds {
					if k > 0 {
						n = []int{0, mc.Pick(c, 5, 7), mc.Pick(c, 4, 6), mc.Pick(c, 4, 6), mc.Pick(c, 3, 5)}[k]
					}
					p := fmt.Sprintf("%d.0", k)
					if !words([]string{p + " accept", p + " add a", p + " add c"}, []string{p}, 0, nil, nil, false, func(pre []string) bool {
						ok := words(nil, []string{p}, n, ups, []string{"refuse", "500", "html"}, false, func(w []string) bool {
							return emit(Case{Types: []int{k}, Clusters: 2, Acts: w})
						})
						// after an earlier connection that left something behind
						return ok && words(append(pre, p+" close"), []string{p}, n-1, ups, []string{"refuse", "500", "html"}, false, func(w []string) bool {
							return emit(Case{Types: []int{k}, Clusters: 2, Acts: w})
						})
					}) {
						return
					}
				}
			}),
			fam("failures", "a filled cache, then every sequence of up to 2 (thorough 3) of 16 ways of failing to connect, then a connection with up to 2 events", func(c *mc.Ctx, emit func(Case) bool) {
				for _, k := range []int{0, 1} {
					p := fmt.Sprintf("%d.0", k)
					for n := 1; n <= mc.Pick(c, 2, 3); n++ {
						if !mc.Words(len(allDowns), n, func(w []int) bool {
							acts := []string{p + " accept", p + " add a", p + " add c", p + " close"}
							for _, i := range w {
								acts = append(acts, p+" "+allDowns[i])
							}
							acts = append(acts, p+" accept")
							return emit(Case{Types: []int{k, 2}, Clusters: 2, Acts: append(acts, "sleep 50s", p+" close")}) &&
								emit(Case{Types: []int{k, 2}, Clusters: 2, Acts: append(append([]string{}, acts...), p+" add b", p+" mod b")})
						}) {
							return
						}
					}
				}
			}),
			fam("endings", "a filled cache, then every history of 4 (thorough 5) of 17 events of a connection and 2 failures", func(c *mc.Ctx, emit func(Case) bool) {
				for _, k := range []int{0, 1} {
					p := fmt.Sprintf("%d.0", k)
					if !words([]string{p + " accept", p + " add a", p + " add c", p + " close"}, []string{p}, mc.Pick(c, 4, 5), allUps, []string{"timeout", "eof"}, false, func(w []string) bool {
						return emit(Case{Types: []int{k}, Clusters: 1, Acts: w})
					}) {
						return
					}
				}
			}),
			fam("two-streams", "two types or two clusters, one of them connected and filled: all interleaved histories of up to 4 (thorough 6) actions", func(c *mc.Ctx, emit func(Case) bool) {
				for _, pair := range [][2]string{{"0.0", "0.1"}, {"0.0", "1.0"}, {"1.0", "1.1"}, {"1.0", "3.0"}, {"2.1", "1.0"}} {
					var pre []string
					for _, p := range pair {
						pre = append(pre, p+" accept", p+" add a", p+" add c", p+" close")
					}
					if !words(pre, pair[:], mc.Pick(c, 4, 6), []string{"add b", "del a", "error", "close", "sleep"}, []string{"500"}, false, func(w []string) bool {
						return emit(Case{Types: []int{0, 1, 2, 3}, Clusters: 2, Acts: w})
					}) {
						return
					}
				}
			}),
			fam("stop", "the same with the watchers stopped at every point and further events afterwards, histories of up to 6 (thorough 8)", func(c *mc.Ctx, emit func(Case) bool) {
				for _, k := range []int{0, 1} {
					p := fmt.Sprintf("%d.0", k)
					for _, pre := range [][]string{nil, {p + " accept", p + " add a", p + " add c", p + " close"}} {
						if !words(pre, []string{p}, mc.Pick(c, 6, 8), []string{"add b", "del a", "error", "close", "sleep"}, []string{"500"}, true, func(w []string) bool {
							for _, a := range w {
								if a == "stop" {
									return emit(Case{Types: []int{k}, Clusters: 2, Acts: append(append([]string{}, w...), "sleep 70s")})
								}
							}
							return true
						}) {
							return
						}
					}
				}
			}),
			fam("busy", "the watchers stopped while one of them is busy with an update and further events are waiting for it; each history 12 times because Go chooses at random between an event and the stop", func(c *mc.Ctx, emit func(Case) bool) {
				for i := 0; i < 12; i++ {
					for _, k := range []int{0, 1} {
						p := fmt.Sprintf("%d.0", k)
						for _, first := range []string{"add b", "del a", "mod a"} {
							for _, later := range []string{"add c", "del a", "mod a"} {
								for _, pre := range [][]string{{p + " accept", p + " add a"}, {p + " accept", p + " add a", p + " close", p + " accept"}} {
									if !emit(Case{Types: []int{k}, Clusters: 2, Acts: append(append([]string{}, pre...), "hold", p+" "+first, "stop", p+" "+later, "release", "sleep 70s")}) {
										return
									}
								}
							}
						}
					}
				}
			}),
			fam("long", "a filled cache, then one kind of failure or ending (or two of them in turn) 70 (thorough 400) times in a row, then a connection with events; and connections with 300 (thorough 3000) events", func(c *mc.Ctx, emit func(Case) bool) {
				n := mc.Pick(c, 70, 400)
				for _, k := range []int{0, 1} {
					p := fmt.Sprintf("%d.0", k)
					pre := []string{p + " accept", p + " add a", p + " add c", p + " close"}
					out := func(round ...string) bool {
						acts := append([]string{}, pre...)
						for len(acts) < n {
							for _, a := range round {
								acts = append(acts, p+" "+a)
							}
						}
						return emit(Case{Types: []int{k}, Clusters: 1, Acts: append(acts, p+" accept", p+" add b", p+" mod b", p+" close", p+" accept", "sleep 61s")})
					}
					for _, f := range allDowns {
						if !out(f) {
							return
						}
						for _, g := range []string{"refuse", "500", "410"} {
							if f != g && !out(f, g) {
								return
							}
						}
					}
					for _, e := range []string{"error-close", "garbage", "unknown", "notype", "close", "break", "cut", "expire"} {
						if !out("accept", e) || !out("accept", "add d", e) || !out("accept", "burst", e, "refuse") {
							return
						}
					}
					if !out("accept", "add a", "error", "add d", "close") {
						return
					}
					events := append([]string{}, pre...)
					events = append(events, p+" accept")
					for i := 0; i < mc.Pick(c, 300, 3000); i++ {
						events = append(events, p+" "+[]string{"add", "mod", "mod", "del", "add"}[i%5]+fmt.Sprintf(" o%d", i%41))
					}
					if !emit(Case{Types: []int{k}, Clusters: 1, Acts: events}) {
						return
					}
				}
			}),
			mc.Cases("live", mc.Opts{Bound: "in real time: 1, 7, 40, 120 (thorough 150) clusters with 5 types, whose API servers report an object at once, or end the first connection after it", Workers: 1},
				func(c *mc.Ctx, emit func(Live) bool) {
					for _, n := range []int{1, 7, 40, mc.Pick(c, 120, 150)} {
						if !emit(Live{n, false}) || !emit(Live{n, true}) {
							return
						}
					}
				}, live),
			fam("many", "all 5 types in 1, 8, 16, 33 (thorough 100, 150) clusters: all are watched, connect, fail, and fill the cache in both orders", func(c *mc.Ctx, emit func(Case) bool) {
				ns := []int{1, 8, 16, 33}
				if c.Thorough() {
					ns = append(ns, 100, 150)
				}
				for _, n := range ns {
					for _, rev := range []bool{false, true} {
						for _, kind := range []string{"accept", "refuse", "500"} {
							var ps []string
							for t := range kinds {
								for cl := 0; cl < n; cl++ {
									ps = append(ps, fmt.Sprintf("%d.%d", t, cl))
								}
							}
							if rev {
								sort.Sort(sort.Reverse(sort.StringSlice(ps)))
							}
							var acts []string
							for i, p := range ps {
								if kind != "accept" && i%7 == 0 {
									acts = append(acts, p+" "+kind)
								}
								acts = append(acts, p+" accept")
							}
							for _, p := range ps {
								acts = append(acts, p+" add a")
							}
							for i, p := range ps {
								if i%5 == 0 {
									acts = append(acts, p+" close", p+" accept", p+" add b")
								}
							}
							if !emit(Case{Types: []int{0, 1, 2, 3, 4}, Clusters: n, Acts: acts}) {
								return
							}
						}
					}
				}
			}),
			fam("hour", "slow connections: waiting for 0 s, 59 s, 2 min, 50 min before an answer or an event, and connections that live to their time limit", func(c *mc.Ctx, emit func(Case) bool) {
				waits := []string{"", "59s", "2m", "50m"}
				for _, k := range []int{0, 1} {
					p := fmt.Sprintf("%d.0", k)
					for _, a := range waits {
						for _, b := range waits {
							for _, d := range waits {
								for _, e := range []string{"close", "add b", "error", "expire", "refuse"} {
									acts := []string{p + " accept", p + " add a", p + " close"}
									if a != "" {
										acts = append(acts, "sleep "+a)
									}
									if e == "refuse" {
										if !emit(Case{Types: []int{k}, Clusters: 1, Acts: append(acts, p+" refuse", p+" accept", p+" add b")}) {
											return
										}
										continue
									}
									acts = append(acts, p+" accept")
									if b != "" {
										acts = append(acts, "sleep "+b)
									}
									acts = append(acts, p+" "+e)
									if a == "50m" && b == "50m" {
										continue // beyond the time limit of a request
									}
									if d != "" && e != "close" && !(b == "50m" && d == "50m") && !(a == "50m" && d == "50m") && e != "expire" {
										acts = append(acts, "sleep "+d, p+" add d")
									}
									if !emit(Case{Types: []int{k}, Clusters: 1, Acts: acts}) {
										return
									}
								}
							}
						}
					}
				}
			}),
		},
	})
}
