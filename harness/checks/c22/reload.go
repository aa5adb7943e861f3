package main

import (
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"ckubemc/mc"
	"ckubemc/world"
)

// The gauges of the real server program, whose configuration changes.

// Set is what one pair of files configures.
type Set struct {
	Types    []string    // cached resources of the core group; nil: the configuration can not be loaded
	Clusters [][2]string // name and API server; nil: the kubeconfig can not be loaded
}

func (s Set) bad() bool { return s.Types == nil || s.Clusters == nil }

// Change replaces both files (only those that differ) and waits until it took effect, or Gap milliseconds.
type Change struct {
	To  Set
	Gap int `json:",omitempty"`
}

// Reload is a history of changes.
type Reload struct {
	Start Set
	Steps []Change
}

func (s Set) config() string {
	if s.Types == nil {
		return `{"proxies":[{"version":"v1","resource":"po`
	}
	l := []string{}
	for _, t := range s.Types {
		l = append(l, fmt.Sprintf(`{"version":"v1","resource":%q,"list_kind":"%sList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}`, t, reloadKinds[t]))
	}
	return `{"proxies":[` + strings.Join(l, ",") + `]}`
}

var reloadKinds = map[string]string{"pods": "Pod", "services": "Service", "secrets": "Secret", "configmaps": "ConfigMap", "endpoints": "Endpoints"}

func (s Set) kube(addr map[string]string) string {
	if s.Clusters == nil {
		return "contexts: [\n- name: c1\n  {"
	}
	var cl, cx string
	for _, c := range s.Clusters {
		cl += fmt.Sprintf("- name: %s\n  cluster:\n    server: http://%s\n", c[0], addr[c[1]])
		cx += fmt.Sprintf("- name: %s\n  context:\n    cluster: %s\n", c[0], c[0])
	}
	return "apiVersion: v1\nkind: Config\ncurrent-context: " + s.Clusters[0][0] + "\nclusters:\n" + cl + "contexts:\n" + cx
}

// objects per API server and namespace
var reloadObjs = map[string]map[string]int{"A": {"n": 2, "m": 1}, "B": {"n": 3}, "E": {}}

func (s Set) gauges(late int) string {
	var l []string
	for _, t := range s.Types {
		for _, c := range s.Clusters {
			for ns, n := range reloadObjs[c[1]] {
				l = append(l, fmt.Sprintf(`ckube_resources_total{cluster=%q,group="",namespace=%q,resource=%q,version="v1"} %d`, c[0], ns, t, n+late))
			}
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

type fakeAPI struct {
	name string
	mu   sync.Mutex
	out  map[chan string]string // open watches and their types
}

func (a *fakeAPI) event(typ, ns, name string) string {
	return fmt.Sprintf(`{"type":"ADDED","object":{"kind":%q,"apiVersion":"v1","metadata":{"namespace":%q,"name":%q}}}`+"\n", reloadKinds[typ], ns, name)
}

func (a *fakeAPI) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.Split(r.URL.Path, "/")
	typ := p[len(p)-1]
	w.Header().Set("Content-Type", "application/json")
	if r.URL.Query().Get("watch") == "" {
		return
	}
	ch := make(chan string, 16)
	a.mu.Lock()
	for ns, n := range reloadObjs[a.name] {
		for i := 0; i < n; i++ {
			_, _ = io.WriteString(w, a.event(typ, ns, fmt.Sprint("o", i)))
		}
	}
	a.out[ch] = typ
	a.mu.Unlock()
	defer func() {
		a.mu.Lock()
		delete(a.out, ch)
		a.mu.Unlock()
	}()
	w.(http.Flusher).Flush()
	for {
		select {
		case s := <-ch:
			_, _ = io.WriteString(w, s)
			w.(http.Flusher).Flush()
		case <-r.Context().Done():
			return
		}
	}
}

func (a *fakeAPI) late() {
	a.mu.Lock()
	defer a.mu.Unlock()
	for ch, typ := range a.out {
		for ns := range reloadObjs[a.name] {
			ch <- a.event(typ, ns, "late")
		}
	}
}

var reloadSlots = make(chan bool, 16)

func reload(x *mc.X, c Reload) error {
	reloadSlots <- true
	defer func() { <-reloadSlots }()
	dir, err := os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "c22")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	addr := map[string]string{}
	var apis []*fakeAPI
	for n := range reloadObjs {
		a := &fakeAPI{name: n, out: map[chan string]string{}}
		s := httptest.NewUnstartedServer(a)
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Start()
		defer s.Close()
		defer s.CloseClientConnections()
		addr[n] = s.Listener.Addr().String()
		apis = append(apis, a)
	}
	cf, kf := filepath.Join(dir, "config"), filepath.Join(dir, "kube")
	write := func(p, text string) error {
		if old, err := os.ReadFile(p); err == nil && string(old) == text {
			return nil
		}
		return os.WriteFile(p, []byte(text), 0644)
	}
	put := func(s Set) error {
		if err := write(cf, s.config()); err != nil {
			return err
		}
		return write(kf, s.kube(addr))
	}
	if err := put(c.Start); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	var base string
	var cmd *osexec.Cmd
	var done chan struct{}
	metrics := func() (string, error) {
		r, err := http.Get(base + "/metrics")
		if err != nil {
			return "", err
		}
		defer r.Body.Close()
		b, err := io.ReadAll(r.Body)
		return string(b), err
	}
	up := false
	for try := 0; try < 5 && !up; try++ {
		l, err := world.FreePort()
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		base = "http://" + l
		cmd = osexec.Command(filepath.Join(os.Getenv("CKUBEMC_TMP"), "cacheproxy"), "-c", cf, "-k", kf, "-a", l)
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		cmd.Dir = dir
		out, err := os.Create(filepath.Join(dir, "log"))
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		cmd.Stdout, cmd.Stderr = out, out
		defer out.Close()
		if err := cmd.Start(); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		done = make(chan struct{})
		go func(cmd *osexec.Cmd, done chan struct{}) { _ = cmd.Wait(); close(done) }(cmd, done)
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end) && !up; time.Sleep(5 * time.Millisecond) {
			if _, err := metrics(); err == nil {
				up = true
			}
			select {
			case <-done:
				end = time.Now()
				up = false
			default:
			}
		}
		if !up {
			_ = cmd.Process.Kill()
			<-done
		}
	}
	if !up {
		return fmt.Errorf("the server does not start")
	}
	defer func() { _ = cmd.Process.Kill(); <-done }()
	read := func() (gauges, failed string, err error) {
		b, err := metrics()
		var g []string
		for _, l := range strings.Split(b, "\n") {
			if strings.HasPrefix(l, "ckube_resources_total{") && !strings.HasSuffix(l, " 0") {
				g = append(g, l)
			}
			if strings.HasPrefix(l, "ckube_reload_config_total{") && strings.Contains(l, "failed") {
				failed = l
			}
		}
		sort.Strings(g)
		return strings.Join(g, "\n"), failed, err
	}
	ended := func(err error) error {
		select {
		case <-done:
			b, _ := os.ReadFile(filepath.Join(dir, "log"))
			if len(b) > 3000 {
				b = b[len(b)-3000:]
			}
			return fmt.Errorf("the server ended: %s", b)
		default:
			return err
		}
	}
	settle := func(want, what string) error {
		for end := time.Now().Add(40 * time.Second); ; time.Sleep(20 * time.Millisecond) {
			x.Step(1)
			g, _, err := read()
			if err == nil && g == want {
				return nil
			}
			if time.Now().After(end) {
				if e := ended(nil); e != nil {
					return fmt.Errorf("%s: %v", what, e)
				}
				return fmt.Errorf("%s: after 40 s the gauges are %v\n%s\nthe cached objects are\n%s", what, err, g, want)
			}
		}
	}
	in := c.Start
	what := "started with " + mc.J(in)
	if err := settle(in.gauges(0), what); err != nil {
		return err
	}
	for i, s := range c.Steps {
		_, before, err := read()
		if err != nil {
			return ended(err)
		}
		if err := put(s.To); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		what += ", then " + mc.J(s.To)
		x.State(what)
		if s.Gap > 0 && i < len(c.Steps)-1 {
			time.Sleep(time.Duration(s.Gap) * time.Millisecond)
			continue
		}
		if s.To.bad() {
			for end := time.Now().Add(4 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
				if _, now, err := read(); err == nil && now != before {
					break
				}
			}
			time.Sleep(50 * time.Millisecond)
			if s.To.Clusters == nil {
				// replacing a kubeconfig in place makes it empty for a moment, which is a valid one
				continue
			}
		} else {
			in = s.To
		}
		if err := settle(in.gauges(0), what); err != nil {
			return err
		}
	}
	if last := c.Steps[len(c.Steps)-1].To; last.bad() && last.Clusters == nil {
		return nil
	}
	time.Sleep(100 * time.Millisecond)
	if err := settle(in.gauges(0), what+" and a while"); err != nil {
		return err
	}
	for _, a := range apis {
		a.late()
	}
	if err := settle(in.gauges(1), what+", then one more object in each namespace"); err != nil {
		return err
	}
	x.Outcome(in.gauges(0))
	x.Sample(what)
	return nil
}

func reloads() mc.Family {
	ca, cb, ce := [2]string{"c1", "A"}, [2]string{"c2", "B"}, [2]string{"c3", "E"}
	types := [][]string{{"pods"}, {"pods", "services"}, {"services", "secrets"}, {}, nil}
	clusters := [][][2]string{{ca, cb}, {cb, ce}, {{"c1", "B"}, {"c4", "A"}}, {{"c1", "E"}}, nil}
	return mc.Cases("reload", mc.Opts{Bound: "every ordered pair of 4 configurations and a broken one with 4 kubeconfigs and a broken one, and changes 1 and 20 ms apart (thorough: triples), on the real server program; gauges compared after each, and after one more object appeared in each namespace",
		Workers: 16, Batch: 1, Limit: 6 * time.Minute}, func(c *mc.Ctx, emit func(Reload) bool) {
		var good, all []Set
		for i, t := range types {
			for j, k := range clusters {
				if !c.Thorough() && i > 0 && j > 0 && i != j {
					continue
				}
				s := Set{t, k}
				if t == nil && k == nil {
					continue
				}
				all = append(all, s)
				if !s.bad() {
					good = append(good, s)
				}
			}
		}
		n := 0
		for _, a := range good {
			for _, b := range all {
				if mc.J(a) == mc.J(b) {
					continue
				}
				n++
				if !emit(Reload{a, []Change{{To: b}}}) {
					return
				}
				for i, d := range good {
					if mc.J(d) == mc.J(b) || !c.Thorough() && (n+i)%11 != 0 || c.Thorough() && (n+i)%3 != 0 {
						continue
					}
					if !emit(Reload{a, []Change{{To: b, Gap: []int{1, 20, 0}[n/11%3]}, {To: d}}}) {
						return
					}
				}
			}
		}
	}, reload)
}
