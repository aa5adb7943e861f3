package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"ckubemc/mc"
)

// Crowd is a number of requests that the API servers all hold at the same time, sent to the real
// server program.
type Crowd struct {
	N    int
	Kind string // read, write, watch, mixed
	Cl   int    // the number of clusters they go to
}

const patience = 60 * time.Second

// hold is an API server that answers nothing before all n requests are there.
type hold struct {
	mu   sync.Mutex
	n    int
	here int
	max  int
	open chan struct{}
}

func (h *hold) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Content-Type", "application/json")
	if r.URL.Query().Get("watch") != "" && !strings.Contains(r.URL.Path, "held") {
		// the cache's own watch
		fmt.Fprintln(w, `{"type":"ADDED","object":{"kind":"Pod","apiVersion":"v1","metadata":{"name":"p","namespace":"m"}}}`)
		w.(http.Flusher).Flush()
		<-r.Context().Done()
		return
	}
	if !strings.Contains(r.URL.Path, "held") {
		fmt.Fprintf(w, `{"path":%q}`, r.URL.Path)
		return
	}
	b, _ := io.ReadAll(r.Body)
	h.mu.Lock()
	h.here++
	if h.here > h.max {
		h.max = h.here
	}
	if h.here == h.n {
		close(h.open)
	}
	h.mu.Unlock()
	if r.URL.Query().Get("watch") != "" {
		fmt.Fprintf(w, "{\"path\":%q}\n", r.URL.Path)
		w.(http.Flusher).Flush()
	}
	select {
	case <-h.open:
	case <-r.Context().Done():
		h.mu.Lock()
		h.here--
		h.mu.Unlock()
		return
	}
	if r.URL.Query().Get("watch") != "" {
		fmt.Fprintf(w, "{\"last\":%q}\n", r.URL.Path)
		return
	}
	fmt.Fprintf(w, `{"path":%q,"body":%q}`, r.URL.Path, b)
}

func crowd(l *mc.X, c Crowd) error {
	dir, err := os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "crowd")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	h := &hold{n: c.N, open: make(chan struct{})}
	api := httptest.NewUnstartedServer(h)
	api.Config.ErrorLog = log.New(io.Discard, "", 0)
	api.StartTLS()
	defer func() { api.CloseClientConnections(); api.Close() }()
	kc := "apiVersion: v1\nkind: Config\ncurrent-context: c0\nusers:\n- name: u\n  user:\n    token: t\nclusters:\n- name: cl\n  cluster:\n    server: " + api.URL + "\n    insecure-skip-tls-verify: true\ncontexts:\n"
	for i := 0; i < c.Cl; i++ {
		kc += fmt.Sprintf("- name: c%d\n  context:\n    cluster: cl\n    user: u\n", i)
	}
	cf, kf := filepath.Join(dir, "config.json"), filepath.Join(dir, "kube")
	_ = os.WriteFile(cf, []byte(`{"proxies":[{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}]}`), 0644)
	_ = os.WriteFile(kf, []byte(kc), 0644)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	addr := ln.Addr().String()
	_ = ln.Close()
	cmd := exec.Command(filepath.Join(os.Getenv("CKUBEMC_TMP"), "cacheproxy"), "-c", cf, "-k", kf, "-a", addr)
	cmd.Dir, cmd.Env = dir, []string{"HOME=" + dir}
	if err := cmd.Start(); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer func() { _ = cmd.Process.Kill(); _ = cmd.Wait() }()
	ctx, cancel := context.WithTimeout(context.Background(), 3*patience)
	defer cancel()
	cli := &http.Client{Transport: &http.Transport{}}
	defer cli.CloseIdleConnections()
	send := func(ctx context.Context, method, path, body string) (string, error) {
		r, err := http.NewRequestWithContext(ctx, method, "http://"+addr+path, strings.NewReader(body))
		if err != nil {
			return "", err
		}
		res, err := cli.Do(r)
		if err != nil {
			return "", err
		}
		defer res.Body.Close()
		b, err := io.ReadAll(res.Body)
		return fmt.Sprintf("%d %s", res.StatusCode, b), err
	}
	for end := time.Now().Add(patience); ; time.Sleep(20 * time.Millisecond) {
		if s, err := send(ctx, "GET", "/api/v1/pods", ""); err == nil && strings.Contains(s, `"name":"p"`) {
			break
		}
		if time.Now().After(end) {
			return fmt.Errorf("HARNESS: the server does not start")
		}
	}
	type answer struct {
		i         int
		got, want string
		err       error
	}
	res := make(chan answer, c.N)
	hctx, stop := context.WithCancel(ctx)
	defer stop()
	for i := 0; i < c.N; i++ {
		kind := c.Kind
		if kind == "mixed" {
			kind = []string{"read", "write", "watch"}[i%3]
		}
		go func(i int) {
			a := answer{i: i}
			path := fmt.Sprintf("/api/v1/namespaces/held/configmaps/o%d", i)
			q := fmt.Sprintf("?cluster=c%d", i%c.Cl)
			switch kind {
			case "read":
				a.want = fmt.Sprintf(`200 {"path":%q,"body":""}`, path)
				a.got, a.err = send(hctx, "GET", path+q, "")
			case "write":
				a.want = fmt.Sprintf(`200 {"path":%q,"body":"b%d"}`, path, i)
				a.got, a.err = send(hctx, "PUT", path+q, fmt.Sprintf("b%d", i))
			case "watch":
				a.want = fmt.Sprintf("200 {\"path\":%q}\n{\"last\":%q}\n", path, path)
				a.got, a.err = send(hctx, "GET", path+q+"&watch=true", "")
			}
			res <- a
		}(i)
	}
	others := func(when string) error {
		// requests that have nothing to do with them
		octx, cancel := context.WithTimeout(ctx, patience/2)
		defer cancel()
		for _, o := range [][2]string{{"/api/v1/pods", `"name":"p"`}, {"/api/v1/configmaps/free?cluster=c0", `200 {"path":"/api/v1/configmaps/free"}`}, {"/healthy", "200 1"}} {
			s, err := send(octx, "GET", o[0], "")
			if err != nil || !strings.Contains(s, o[1]) {
				return fmt.Errorf("%s %d requests: %s is answered %.200q %v", when, c.N, o[0], s, err)
			}
			l.Step(1)
		}
		return nil
	}
	t := time.After(patience)
	for n := 0; n < c.N; n++ {
		select {
		case a := <-res:
			if a.err != nil || a.got != a.want {
				return fmt.Errorf("%d requests at the same time: number %d is answered %.300q %v, want %q; %d of them were in the API server together", c.N, a.i, a.got, a.err, a.want, h.most())
			}
			l.Step(1)
			l.Outcome(fmt.Sprint(c.Kind, len(a.want) > 60))
		case <-t:
			err := fmt.Errorf("%d requests at the same time: after %v only %d of them have reached the API server", c.N, patience, h.most())
			if e := others("during"); e != nil {
				err = fmt.Errorf("%v; %v", err, e)
			}
			return err
		}
	}
	l.State(mc.J(c))
	return others("after")
}

func (h *hold) most() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.max
}
