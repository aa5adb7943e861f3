// C17: configuration changes take effect and bad ones change nothing.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
)

// ---- what the files may contain ----

type content struct {
	name  string
	text  string // A, B, C stand for the addresses of three API servers
	bad   bool
	types []string    // config: cached resources
	dc    string      // config: name of the cluster when no kubeconfig names one
	ctxs  [][2]string // kubeconfig: context and API server
}

func proxy(g, v, r, kind string, idx map[string]string) string {
	return mc.J(map[string]interface{}{"group": g, "version": v, "resource": r, "list_kind": kind + "List", "index": idx})
}

var (
	ix1 = map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "app": "{.metadata.labels.app}"}
	ix2 = map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "node": "{.spec.nodeName}", "app": "const"}
)

func config(token string, proxies ...string) string {
	return `{"proxies":[` + strings.Join(proxies, ",") + `],"token":"` + token + `"}`
}

var configs = []content{
	{name: "pods", text: config("", proxy("", "v1", "pods", "Pod", ix1)), types: []string{"pods"}},
	{name: "pods other index, widgets", text: config("", proxy("", "v1", "pods", "Pod", ix2), proxy("x.io", "v1", "widgets", "Widget", ix1)), types: []string{"pods", "widgets"}},
	{name: "pods, token t1", text: config("t1", proxy("", "v1", "pods", "Pod", ix1)), types: []string{"pods"}},
	{name: "nothing, token t2", text: config("t2")},
	{name: "widgets by another index, deployments", text: config("", proxy("x.io", "v1", "widgets", "Widget", ix2), proxy("apps", "v1", "deployments", "Deployment", ix1)), types: []string{"widgets", "deployments"}},
	{name: "all, token t2", text: config("t2", proxy("apps", "v1", "deployments", "Deployment", ix1), proxy("", "v1", "pods", "Pod", ix2), proxy("x.io", "v1", "widgets", "Widget", ix1)), types: []string{"pods", "widgets", "deployments"}},
	{name: "BAD cut off", text: `{"token":"t1","proxies":[{"group":"","version":"v1"`, bad: true},
	{name: "BAD wrong type", text: `{"token":"t2","proxies":5}`, bad: true},
	{name: "BAD empty", text: "", bad: true},
	{name: "BAD wrong type at the end", text: `{"proxies":[],"token":["t1"]}`, bad: true},
	{name: "BAD absent", bad: true},
	// from the first one these differ in one field only
	{name: "pods, only another index", text: config("", proxy("", "v1", "pods", "Pod", ix2)), types: []string{"pods"}},
	{name: "pods, only one index more", text: config("", proxy("", "v1", "pods", "Pod", map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "app": "{.metadata.labels.app}", "k": "{.kind}"})), types: []string{"pods"}},
	{name: "pods, only another list kind", text: config("", proxy("", "v1", "pods", "Po", ix1)), types: []string{"pods"}},
	{name: "pods, only one type more", text: config("", proxy("", "v1", "pods", "Pod", ix1), proxy("apps", "v1", "deployments", "Deployment", ix1)), types: []string{"pods", "deployments"}},
	{name: "pods, default cluster named", text: `{"default_cluster":"named",` + config("", proxy("", "v1", "pods", "Pod", ix1))[1:], types: []string{"pods"}, dc: "named"},
}

// kube writes a kubeconfig: pairs of context and server, and the users' token.
func kube(current, token string, extra string, ctxs ...[2]string) content {
	var cl, cx, us []string
	for _, c := range ctxs {
		cl = append(cl, fmt.Sprintf("- name: cl-%s\n  cluster:\n    server: https://%s\n    insecure-skip-tls-verify: true\n", c[0], c[1]))
		cx = append(cx, fmt.Sprintf("- name: %s\n  context:\n    cluster: cl-%s\n    user: u-%s\n", c[0], c[0], c[0]))
		us = append(us, fmt.Sprintf("- name: u-%s\n  user:\n    token: %s\n", c[0], token))
	}
	return content{text: "apiVersion: v1\nkind: Config\ncurrent-context: " + current + "\nclusters:\n" + strings.Join(cl, "") + "contexts:\n" + strings.Join(cx, "") + "users:\n" + strings.Join(us, "") + extra, ctxs: ctxs}
}

var kubes = func() []content {
	named := func(n string, bad bool, c content) content {
		c.name, c.bad = n, bad
		return c
	}
	return []content{
		named("c1=A* c2=B", false, kube("c1", "u1", "", [2]string{"c1", "A"}, [2]string{"c2", "B"})),
		named("c2=B* c3=C", false, kube("c2", "u1", "", [2]string{"c2", "B"}, [2]string{"c3", "C"})),
		named("c1=B* c2=A", false, kube("c1", "u1", "", [2]string{"c1", "B"}, [2]string{"c2", "A"})),
		named("c1=A c2=B*", false, kube("c2", "u1", "", [2]string{"c1", "A"}, [2]string{"c2", "B"})),
		named("c1=A* c2=B other user", false, kube("c1", "u2", "", [2]string{"c1", "A"}, [2]string{"c2", "B"})),
		named("c1=A*", false, kube("c1", "u1", "", [2]string{"c1", "A"})),
		named("BAD yaml", true, content{text: "contexts: [\n- name: c1\n  {"}),
		named("BAD address in the second context", true, kube("c2", "u1", "", [2]string{"c2", "B"}, [2]string{"c3", "C"}).replace("server: https://C", "server: 'https://[::1'")),
		named("BAD certificate file in the second context", true, kube("c2", "u1", "", [2]string{"c2", "B"}, [2]string{"c3", "C"}).replace("server: https://C\n    insecure-skip-tls-verify: true", "server: https://C\n    certificate-authority: /nosuch/file")),
		named("BAD absent", true, content{}),
	}
}()

func (c content) replace(a, b string) content {
	if !strings.Contains(c.text, a) {
		panic("no " + a)
	}
	c.text = strings.Replace(c.text, a, b, 1)
	return c
}

// ---- API servers ----

type apis struct {
	addr  map[string]string // A -> 127.0.0.1:port
	mu    sync.Mutex
	conns map[*conn]bool
	extra []string // names of objects that appeared later
	srv   []*httptest.Server
}

type conn struct {
	srv, res, kind, ver string
	ch                  chan string
}

func newAPIs() (*apis, error) {
	a := &apis{addr: map[string]string{}, conns: map[*conn]bool{}}
	for _, n := range []string{"A", "B", "C"} {
		n := n
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { a.serve(n, w, r) }))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.StartTLS()
		a.addr[n] = s.Listener.Addr().String()
		a.srv = append(a.srv, s)
	}
	return a, nil
}

func (a *apis) close() {
	for _, s := range a.srv {
		s.CloseClientConnections()
		s.Close()
	}
}

func object(srv, res, kind, ver, name string) string {
	return mc.J(map[string]interface{}{"type": "ADDED", "object": map[string]interface{}{"kind": kind, "apiVersion": ver,
		"metadata": map[string]interface{}{"name": name, "namespace": "n-" + srv, "labels": map[string]string{"app": "app-" + name}}, "spec": map[string]interface{}{"nodeName": "node-" + srv}}}) + "\n"
}

func (a *apis) serve(srv string, w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Content-Type", "application/json")
	if r.URL.Query().Get("watch") == "" {
		fmt.Fprintf(w, `{"server":%q,"path":%q,"auth":%q}`, srv, r.URL.Path, r.Header.Get("Authorization"))
		return
	}
	parts := strings.Split(r.URL.Path, "/")
	c := &conn{srv: srv, res: parts[len(parts)-1], ch: make(chan string, 100)}
	c.kind = map[string]string{"pods": "Pod", "deployments": "Deployment", "widgets": "Widget"}[c.res]
	c.ver = strings.Join(parts[2:len(parts)-1], "/")
	fl := w.(http.Flusher)
	a.mu.Lock()
	for _, n := range append([]string{"o1-" + srv, "o2"}, a.extra...) {
		_, _ = io.WriteString(w, object(srv, c.res, c.kind, c.ver, n))
	}
	a.conns[c] = true
	a.mu.Unlock()
	defer func() {
		a.mu.Lock()
		delete(a.conns, c)
		a.mu.Unlock()
	}()
	fl.Flush()
	for {
		select {
		case s := <-c.ch:
			_, _ = io.WriteString(w, s)
			fl.Flush()
		case <-r.Context().Done():
			return
		}
	}
}

// appear makes an object appear in every type of every cluster.
func (a *apis) appear(name string) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.extra = append(a.extra, name)
	for c := range a.conns {
		c.ch <- object(c.srv, c.res, c.kind, c.ver, name)
	}
}

func (a *apis) fill(s string) string {
	// addresses only occur behind //
	for n, ad := range a.addr {
		s = strings.ReplaceAll(s, "//"+n+"\n", "//"+ad+"\n")
	}
	return s
}

// ---- the server ----

type proc struct {
	cmd  *exec.Cmd
	base string
	done chan struct{}
	log  string
}

var bin = filepath.Join(os.Getenv("CKUBEMC_TMP"), "cacheproxy")

// The ways in which the server finds the clusters.
const (
	byFlag = ""     // -k names the kubeconfig
	byHome = "home" // the kubeconfig is $HOME/.kube/config
	byEnv  = "env"  // neither: one cluster, as in a pod (by $KUBECONFIG instead of a service account)
	byPipe = "pipe" // -k names a pipe: the first change is made while the server reads it for the first time
)

func launch(dir, cfg, kc, mode string) (*proc, error) {
	for try := 0; try < 5; try++ {
		addr, err := world.FreePort()
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		p := &proc{base: "http://" + addr, done: make(chan struct{}), log: filepath.Join(dir, "log")}
		p.cmd = exec.Command(bin, "-c", cfg, "-a", addr)
		p.cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		switch mode {
		case byFlag:
			p.cmd.Args = append(p.cmd.Args, "-k", kc)
		case byPipe:
			// client-go, which does not read pipes, finds the same content there
			p.cmd.Args = append(p.cmd.Args, "-k", kc)
			p.cmd.Env = append(p.cmd.Env, "KUBECONFIG="+kc+".file")
		case byEnv:
			p.cmd.Env = append(p.cmd.Env, "KUBECONFIG="+kc)
		}
		p.cmd.Dir = dir
		out, err := os.Create(p.log)
		if err != nil {
			return nil, err
		}
		p.cmd.Stdout, p.cmd.Stderr = out, out
		err = p.cmd.Start()
		_ = out.Close()
		if err != nil {
			return nil, err
		}
		go func() { _ = p.cmd.Wait(); close(p.done) }()
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
			if _, _, err := p.get("/metrics", nil, "", ""); err == nil && !p.dead() {
				return p, nil
			}
			if p.dead() {
				break
			}
		}
		p.kill()
	}
	return nil, fmt.Errorf("the server does not start")
}

func (p *proc) dead() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.done
}

var hc = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: false, MaxIdleConnsPerHost: 2, IdleConnTimeout: 2 * time.Second}}

func (p *proc) get(path string, q url.Values, auth, accept string) (int, string, error) {
	u := p.base + path
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return 0, "", err
	}
	if auth != "" {
		r.Header.Set("Authorization", auth)
	}
	if accept != "" {
		r.Header.Set("Accept", accept)
	}
	resp, err := hc.Do(r)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

var paths = map[string]string{"pods": "/api/v1/pods", "widgets": "/apis/x.io/v1/widgets", "deployments": "/apis/apps/v1/deployments"}

var allClusters = gen.Encode(page.Paginate{Search: "__ckube_as__:cluster in (c1,c2,c3,c4,default,named)"})

// picture is everything the server serves, in a comparable form.
func (p *proc) picture(mode string) (map[string]string, error) {
	clusters := []string{"c1", "c2", "c3", "c4"}
	if mode == byEnv {
		clusters = []string{"default", "named", "c1"}
	}
	m := map[string]string{}
	put := func(name, path string, q url.Values, auth, accept string) error {
		code, body, err := p.get(path, q, auth, accept)
		if err != nil {
			return err
		}
		m[name] = fmt.Sprintf("%d %s", code, body)
		return nil
	}
	for _, auth := range []string{"", "Bearer t1", "Bearer t2"} {
		for _, t := range []string{"pods", "widgets", "deployments"} {
			if err := put("list of all "+t+" "+auth, paths[t], url.Values{"labelSelector": {allClusters}}, auth, ""); err != nil {
				return nil, err
			}
			if auth == "Bearer t1" {
				continue
			}
			if err := put("list of "+t+" "+auth, paths[t], nil, auth, ""); err != nil {
				return nil, err
			}
			if err := put("table of "+t+" "+auth, paths[t], nil, auth, "application/json;as=Table"); err != nil {
				return nil, err
			}
		}
		if err := put("forward "+auth, "/api/v1/configmaps", nil, auth, ""); err != nil {
			return nil, err
		}
		for _, c := range clusters {
			if err := put("get in "+c+" "+auth, "/api/v1/namespaces/n-A/pods/o2", url.Values{"resourceVersion": {"dsm-cluster-" + c}}, auth, ""); err != nil {
				return nil, err
			}
			if err := put("forward to "+c+" "+auth, "/version", url.Values{"resourceVersion": {"dsm-cluster-" + c}}, auth, ""); err != nil {
				return nil, err
			}
		}
	}
	_, b, err := p.get("/metrics", nil, "", "")
	if err != nil {
		return nil, err
	}
	var g []string
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "ckube_resources_total{") && !strings.HasSuffix(l, " 0") {
			g = append(g, l)
		}
	}
	sort.Strings(g)
	m["gauge"] = strings.Join(g, "\n")
	return m, nil
}

func diff(got, want map[string]string) string {
	var r []string
	for k := range want {
		if got[k] != want[k] {
			r = append(r, fmt.Sprintf("%s: %.400q, a fresh server: %.400q", k, got[k], want[k]))
		}
	}
	sort.Strings(r)
	if len(r) > 3 {
		r = append(r[:3], fmt.Sprintf("and %d more", len(r)-3))
	}
	return strings.Join(r, "\n    ")
}

// clusters are the names of the clusters and their API servers.
func clusters(c, k content, mode string) [][2]string {
	if mode != byEnv {
		return k.ctxs
	}
	n := c.dc
	if n == "" {
		n = "default"
	}
	return [][2]string{{n, k.ctxs[0][1]}} // the first context is the current one
}

// complete is the model's part of the picture: how many objects are served.
func complete(m map[string]string, c, k content, mode string) error {
	ctxs := clusters(c, k, mode)
	if n := strings.Count(m["gauge"], "} 2"); n != len(c.types)*len(ctxs) || strings.Count(m["gauge"], "\n") > n {
		return fmt.Errorf("2 objects of each of %d types in each of %d clusters, but the gauges are %q", len(c.types), len(ctxs), m["gauge"])
	}
	for t := range paths {
		cached := false
		for _, x := range c.types {
			cached = cached || x == t
		}
		if !cached {
			continue
		}
		for _, auth := range []string{"", "Bearer t1", "Bearer t2"} {
			got := m["list of all "+t+" "+auth]
			if strings.HasPrefix(got, "401") {
				continue
			}
			for _, cx := range ctxs {
				for _, n := range []string{"o1-" + cx[1], "o2"} {
					if !strings.Contains(got, `"cluster":"`+cx[0]+`"`) && !strings.Contains(got, `\"cluster\":\"`+cx[0]+`\"`) || !strings.Contains(got, `"name":"`+n+`"`) {
						return fmt.Errorf("%s of %s in the list of %s: %.300s", n, cx[0], t, got)
					}
				}
			}
			if n := strings.Count(got, `"metadata":{"name"`); n != 2*len(ctxs) {
				return fmt.Errorf("%d %s in %.300s", n, t, got)
			}
		}
	}
	return nil
}

// ---- fresh servers ----

type fresh struct {
	once sync.Once
	m    map[string]string
	err  error
}

var (
	freshMu sync.Mutex
	freshes = map[string]*fresh{}
	slots   = make(chan bool, 20) // every server has two inotify instances
)

func scratch() (string, error) { return os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "c17") }

const patience = 40 * time.Second

// freshPicture starts a server with these files; the caller holds a slot.
func freshPicture(s [2]int, mode string) (map[string]string, error) {
	freshMu.Lock()
	key := fmt.Sprint(s, mode)
	f := freshes[key]
	if f == nil {
		f = &fresh{}
		freshes[key] = f
	}
	freshMu.Unlock()
	f.once.Do(func() {
		dir, err := scratch()
		if err != nil {
			f.err = err
			return
		}
		defer os.RemoveAll(dir)
		a, err := newAPIs()
		if err != nil {
			f.err = err
			return
		}
		defer a.close()
		if mode == byPipe {
			mode = byFlag // a fresh server reads a file
		}
		fs := &files{dir: dir, mode: mode}
		fs.mkdirs()
		cf, kf := fs.path(false), fs.path(true)
		_ = os.WriteFile(cf, []byte(configs[s[0]].text), 0644)
		_ = os.WriteFile(kf, []byte(a.fill(kubes[s[1]].text)), 0644)
		p, err := launch(dir, cf, kf, mode)
		if err != nil {
			f.err = fmt.Errorf("configuration %q, kubeconfig %q: %v", configs[s[0]].name, kubes[s[1]].name, err)
			return
		}
		defer p.kill()
		end := time.Now().Add(patience)
		for {
			m, err := p.picture(mode)
			if err == nil {
				err = complete(m, configs[s[0]], kubes[s[1]], mode)
			}
			if err == nil {
				f.m = m
				return
			}
			if time.Now().After(end) {
				f.err = fmt.Errorf("a fresh server with configuration %q and kubeconfig %q does not serve all objects: %v", configs[s[0]].name, kubes[s[1]].name, err)
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
	})
	return f.m, f.err
}

// ---- cases ----

// Step changes one file.
type Step struct {
	Kube bool   `json:",omitempty"`
	To   int    // number of the content
	How  string // over, trunc, rename, recreate, slow, away, chunks
	Gap  int    `json:",omitempty"` // milliseconds before the next step; 0: until everything settled
}

// Case is a history of changes.
type Case struct {
	Start [2]int
	Steps []Step
	Link  bool   `json:",omitempty"` // the files are links as in a mounted config map
	Mode  string `json:",omitempty"` // how the server finds the clusters
}

type files struct {
	dir  string
	link bool
	mode string
	n    int
}

func (f *files) mkdirs() {
	for _, k := range []bool{false, true} {
		_ = os.Mkdir(filepath.Dir(f.path(k)), 0755)
	}
}

func (f *files) path(k bool) string {
	if k && f.mode == byHome {
		return filepath.Join(f.dir, ".kube", "config")
	}
	if k {
		return filepath.Join(f.dir, "k", "kube")
	}
	return filepath.Join(f.dir, "c", "config.json")
}

// put writes the file as the kubelet does for mounted config maps.
func (f *files) put(k bool, text string) error {
	p := f.path(k)
	d, b := filepath.Dir(p), filepath.Base(p)
	f.n++
	nd := fmt.Sprintf("..v%d", f.n)
	if err := os.MkdirAll(filepath.Join(d, nd), 0755); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(d, nd, b), []byte(text), 0644); err != nil {
		return err
	}
	old, _ := os.Readlink(filepath.Join(d, "..data"))
	if err := os.Symlink(nd, filepath.Join(d, "..data_tmp")); err != nil {
		return err
	}
	if err := os.Rename(filepath.Join(d, "..data_tmp"), filepath.Join(d, "..data")); err != nil {
		return err
	}
	if old == "" {
		return os.Symlink("..data/"+b, p)
	}
	return os.RemoveAll(filepath.Join(d, old))
}

// pipe makes the kubeconfig a pipe. A reader gets the content after hold was called for its first reading.
func (f *files) pipe(text string, hold func()) (release func(), err error) {
	p := f.path(true)
	if err := os.WriteFile(p+".file", []byte(text), 0644); err != nil {
		return nil, err
	}
	if err := syscall.Mkfifo(p, 0644); err != nil {
		return nil, err
	}
	done := make(chan bool)
	go func() {
		for n := 0; ; n++ {
			fd, err := os.OpenFile(p, os.O_WRONLY, 0) // waits for a reader
			if err != nil {
				return
			}
			select {
			case <-done:
				_ = fd.Close()
				return
			default:
			}
			if n == 0 {
				hold()
			}
			_, _ = fd.WriteString(text)
			_ = fd.Close()
			// the reader must see the end before there is another writer
			time.Sleep(3 * time.Second)
		}
	}()
	return func() {
		close(done)
		if fd, err := os.OpenFile(p, os.O_RDWR, 0); err == nil {
			time.AfterFunc(4*time.Second, func() { _ = fd.Close() })
		}
	}, nil
}

func (f *files) atomically(p, text string) error {
	f.n++
	t := filepath.Join(f.dir, fmt.Sprintf("tmp%d", f.n))
	if err := os.WriteFile(t, []byte(text), 0644); err != nil {
		return err
	}
	return os.Rename(t, p)
}

func (f *files) change(s Step, text string, absent bool) error {
	p := f.path(s.Kube)
	if absent {
		return os.Remove(p)
	}
	if _, err := os.Stat(p); err != nil {
		return f.atomically(p, text) // it was removed before
	}
	if f.link {
		return f.put(s.Kube, text)
	}
	switch s.How {
	case "over": // no empty file in between
		fd, err := os.OpenFile(p, os.O_WRONLY, 0)
		if err != nil {
			return err
		}
		defer fd.Close()
		if _, err := fd.Write([]byte(text)); err != nil {
			return err
		}
		return fd.Truncate(int64(len(text)))
	case "trunc":
		return os.WriteFile(p, []byte(text), 0644)
	case "chunks":
		fd, err := os.Create(p)
		if err != nil {
			return err
		}
		defer fd.Close()
		h := len(text) / 2
		_, _ = fd.Write([]byte(text[:h]))
		time.Sleep(150 * time.Millisecond)
		_, err = fd.Write([]byte(text[h:]))
		return err
	case "rename":
		return f.atomically(p, text)
	case "recreate", "slow":
		if err := os.Remove(p); err != nil {
			return err
		}
		if s.How == "slow" {
			time.Sleep(3500 * time.Millisecond)
		} else {
			time.Sleep(100 * time.Millisecond)
		}
		return f.atomically(p, text)
	case "away":
		if err := os.Rename(p, p+".bak"); err != nil {
			return err
		}
		return f.atomically(p, text)
	}
	return fmt.Errorf("HARNESS: %s", s.How)
}

func (p *proc) failures() string {
	_, b, err := p.get("/metrics", nil, "", "")
	if err != nil {
		return "?"
	}
	var r []string
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "ckube") && strings.Contains(l, "failed") {
			r = append(r, l)
		}
	}
	return strings.Join(r, "\n")
}

func run(x *mc.X, c Case) error {
	slots <- true
	defer func() { <-slots }()
	dir, err := scratch()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	a, err := newAPIs()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer a.close()
	f := &files{dir: dir, link: c.Link, mode: c.Mode}
	f.mkdirs()
	write := func(k bool, text string) error {
		if c.Link {
			return f.put(k, text)
		}
		return os.WriteFile(f.path(k), []byte(text), 0644)
	}
	cur := c.Start
	if err := write(false, configs[cur[0]].text); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	steps, what := c.Steps, "started with "+mc.J(names(cur))
	early := make(chan error, 1)
	if c.Mode == byPipe {
		s := steps[0]
		steps = steps[1:]
		release, err := f.pipe(a.fill(kubes[cur[1]].text), func() { early <- f.change(s, configs[s.To].text, false) })
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		defer release()
		cur[0] = s.To
		what += fmt.Sprintf(", configuration -> %q (%s) during the start", configs[s.To].name, s.How)
		x.State(what)
	} else if err := write(true, a.fill(kubes[cur[1]].text)); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	p, err := launch(dir, f.path(false), f.path(true), c.Mode)
	if err != nil {
		return err
	}
	defer p.kill()
	if c.Mode == byPipe {
		select {
		case err := <-early:
			if err != nil {
				return fmt.Errorf("HARNESS: %v", err)
			}
		default:
			return fmt.Errorf("HARNESS: the server started without reading the kubeconfig")
		}
	}
	// in service: one of these
	may := [][2]int{cur}
	settle := func(allowed [][2]int, what string) ([2]int, error) {
		end := time.Now().Add(patience)
		for {
			x.Step(1)
			m, err := p.picture(c.Mode)
			var d string
			if err != nil {
				d = err.Error()
				if p.dead() {
					lg, _ := os.ReadFile(p.log)
					return cur, fmt.Errorf("%s: the server ended: %s", what, tail(string(lg)))
				}
			} else {
				for _, s := range allowed {
					want, err := freshPicture(s, c.Mode)
					if err != nil {
						return cur, err
					}
					if d = diff(m, want); d == "" {
						return s, nil
					}
				}
			}
			if time.Now().After(end) {
				return cur, fmt.Errorf("%s: still after %v\n    %s", what, patience, d)
			}
			time.Sleep(60 * time.Millisecond)
		}
	}
	in, err := settle(may, "at the start")
	if err != nil {
		return err
	}
	for i, s := range steps {
		before := p.failures()
		next := cur
		var ct content
		if s.Kube {
			next[1] = s.To
			ct = kubes[s.To]
		} else {
			next[0] = s.To
			ct = configs[s.To]
		}
		if err := f.change(s, a.fill(ct.text), strings.Contains(ct.name, "absent")); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		cur = next
		what += fmt.Sprintf(", %s -> %q (%s)", map[bool]string{true: "kubeconfig", false: "configuration"}[s.Kube], ct.name, s.How)
		x.State(what)
		good := !configs[cur[0]].bad && !kubes[cur[1]].bad
		if good {
			may = append(may, cur)
		}
		if s.Gap > 0 && i < len(steps)-1 {
			time.Sleep(time.Duration(s.Gap) * time.Millisecond)
			continue
		}
		if good {
			if in, err = settle([][2]int{cur}, what); err != nil {
				return err
			}
			may = [][2]int{in}
			continue
		}
		// it can not be loaded: wait until that was tried, then nothing may have changed
		for end := time.Now().Add(4 * time.Second); time.Now().Before(end) && p.failures() == before; {
			time.Sleep(30 * time.Millisecond)
		}
		time.Sleep(100 * time.Millisecond)
		m, err := p.picture(c.Mode)
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		ok := false
		d := ""
		for _, s := range may {
			want, err := freshPicture(s, c.Mode)
			if err != nil {
				return err
			}
			if d = diff(m, want); d == "" {
				ok = true
			}
		}
		if !ok && len(may) == 1 {
			return fmt.Errorf("%s: it can not be loaded, but changed something\n    %s", what, d)
		}
		if !ok { // some earlier change may be on its way still
			if _, err := settle(may, what); err != nil {
				return err
			}
		}
	}
	// what is in service is alive: it follows the clusters
	a.appear("late")
	now := len(clusters(configs[in[0]], kubes[in[1]], c.Mode))
	for end := time.Now().Add(patience); ; {
		bad := ""
		for _, t := range configs[in[0]].types {
			_, b, err := p.get(paths[t], url.Values{"labelSelector": {allClusters}}, "Bearer t1 t2", "")
			if err != nil {
				bad = err.Error()
			} else if n := strings.Count(b, `"name":"late"`); n != now {
				bad = fmt.Sprintf("a new object appeared in each of %d clusters, %d are in the list of %s: %.300s", now, n, t, b)
			}
		}
		if bad == "" {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("%s: %s", what, bad)
		}
		time.Sleep(30 * time.Millisecond)
	}
	x.Sample(what)
	x.Outcome(fmt.Sprint(in, cur))
	return nil
}

func names(s [2]int) []string { return []string{configs[s[0]].name, kubes[s[1]].name} }

func tail(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

var _ = json.Marshal

func main() {
	var good, bad []Step
	for i, c := range configs {
		if c.bad {
			bad = append(bad, Step{To: i})
		} else {
			good = append(good, Step{To: i})
		}
	}
	for i, c := range kubes {
		if c.bad {
			bad = append(bad, Step{Kube: true, To: i})
		} else {
			good = append(good, Step{Kube: true, To: i})
		}
	}
	how := func(s Step, h string) Step { s.How = h; return s }
	gap := func(s Step, g int) Step { s.Gap = g; return s }
	starts := [][2]int{{0, 0}, {5, 1}}
	same := func(st [2]int, s Step) bool { return s.Kube && st[1] == s.To || !s.Kube && st[0] == s.To }
	opt := func(b string) mc.Opts { return mc.Opts{Bound: b, Workers: 24, Batch: 1, Limit: 8 * time.Minute} }
	mc.Main(mc.Def{ID: "C17",
		Oracle: "the answers of a freshly started server with the same files, and the number of objects the clusters have",
		Assume: []string{"40 seconds are enough for the server to settle", "while a change is being processed either configuration may be seen", "an empty kubeconfig is a valid one without clusters"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("single", opt("each of 16 good and 10 bad contents, from 2 initial configurations, by each of 7 ways to replace a file (quick: each content in one way and the first two in every way), then a good content again"),
				func(c *mc.Ctx, emit func(Case) bool) {
					hows := []string{"over", "trunc", "rename", "recreate", "chunks", "away", "slow"}
					for hi, h := range hows {
						for si, st := range starts {
							for gi, g := range good {
								if same(st, g) || !c.Thorough() && (hi+gi)%6 != 1 && hi > 1 {
									continue
								}
								if !c.Thorough() && si == 1 && gi%2 == 0 {
									continue
								}
								if !emit(Case{Start: st, Steps: []Step{how(g, h)}}) {
									return
								}
							}
							for bi, b := range bad {
								if h == "chunks" || b.Kube && h == "trunc" || !c.Thorough() && (bi+hi+si)%4 != 0 {
									continue
								}
								// and back to something good, of the same file and of the other one
								for gi, g := range good {
									if !c.Thorough() && gi%5 != (bi+hi)%5 || g.Kube != b.Kube || same(st, g) {
										continue
									}
									if !emit(Case{Start: st, Steps: []Step{how(b, h), how(g, []string{h, "over"}[gi%2])}}) {
										return
									}
								}
							}
						}
					}
				}, run),
			mc.Cases("pairs", opt("every ordered pair of contents (quick: one of 37), the second 1 ms, 40 ms or 1 s after the first or when that has settled, and back"),
				func(c *mc.Ctx, emit func(Case) bool) {
					i := 0
					all := append(append([]Step{}, good...), bad...)
					for _, g1 := range []int{1, 40, 1000, 0} {
						for _, s1 := range all {
							for _, s2 := range all {
								for _, h := range []string{"over", "rename"} {
									if i++; !c.Thorough() && i%37 != 0 {
										continue
									}
									if s1.Kube == s2.Kube && s1.To == s2.To {
										continue
									}
									steps := []Step{gap(how(s1, h), g1), gap(how(s2, h), 1)}
									// end with good contents of both files
									steps = append(steps, gap(how(Step{To: 2}, h), 0), how(Step{Kube: true, To: 3}, "over"))
									if !emit(Case{Start: [2]int{0, 0}, Steps: steps}) {
										return
									}
								}
							}
						}
					}
				}, run),
			mc.Cases("one field", opt("every ordered pair (quick: to and from the first) of configurations that differ in a single field: an index, the number of indexes, the list kind, the token, a type"),
				func(c *mc.Ctx, emit func(Case) bool) {
					n := len(configs)
					one := []int{0, 2, n - 5, n - 4, n - 3, n - 2}
					for _, a := range one {
						for _, b := range one {
							if a == b || !c.Thorough() && a != 0 && b != 0 {
								continue
							}
							if !emit(Case{Start: [2]int{a, 0}, Steps: []Step{{To: b, How: "over"}}}) {
								return
							}
						}
					}
				}, run),
			mc.Cases("found", opt("the clusters come from $HOME/.kube/config, or from the environment as in a pod: each content of the configuration and (first mode) of the kubeconfig, and a good one after it (quick: one in three)"),
				func(c *mc.Ctx, emit func(Case) bool) {
					i := 0
					for _, b := range append(append([]Step{}, good...), bad...) {
						for _, m := range []string{byHome, byEnv} {
							if m == byEnv && b.Kube || same(starts[0], b) {
								continue
							}
							if i++; !c.Thorough() && i%3 != 0 && !(m == byEnv && configs[b.To].dc != "") {
								continue
							}
							to := 1
							if b.To == to {
								to = 2
							}
							if !emit(Case{Start: starts[0], Mode: m, Steps: []Step{how(b, []string{"over", "rename", "recreate"}[i%3]), how(Step{Kube: b.Kube, To: to}, "rename")}}) {
								return
							}
						}
					}
				}, run),
			mc.Cases("startup", opt("the configuration is replaced, by each content and in 4 ways, while the server is starting, after it was read and before the kubeconfig is (quick: one in four), then another content follows"),
				func(c *mc.Ctx, emit func(Case) bool) {
					i := 0
					for _, h := range []string{"over", "trunc", "rename", "recreate"} {
						for _, g := range good {
							if g.Kube || g.To == 0 {
								continue
							}
							if i++; !c.Thorough() && i%4 != 0 {
								continue
							}
							if !emit(Case{Start: starts[0], Mode: byPipe, Steps: []Step{how(g, h), how(Step{To: 0}, "over")}}) {
								return
							}
						}
					}
				}, run),
			mc.Cases("mounted", opt("files that are links as in a mounted config map: each good content, each bad one that is not an absent file, and a good one after it"),
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, g := range good {
						if same(starts[0], g) || !c.Thorough() && i%4 != 1 {
							continue
						}
						if !emit(Case{Start: starts[0], Link: true, Steps: []Step{g, {Kube: !g.Kube, To: 1}}}) {
							return
						}
					}
					for i, b := range bad {
						if !b.Kube && strings.Contains(configs[b.To].name, "absent") || b.Kube && strings.Contains(kubes[b.To].name, "absent") || !c.Thorough() && i%4 != 1 {
							continue
						}
						if !emit(Case{Start: starts[1], Link: true, Steps: []Step{b, {Kube: b.Kube, To: 0}}}) {
							return
						}
					}
				}, run),
		},
	})
}
