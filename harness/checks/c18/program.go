package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"os"
	osexec "os/exec"
	"path/filepath"
	"strings"
	"time"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common/constants"
)

// The real server program with a configuration of several types: the value of every index, and that every
// cluster and type is served at all, without a second server to compare with.

type Prog struct {
	Types    []int    // of progTypes, in the order of the configuration
	Clusters []string // contexts of the kubeconfig
}

var progTypes = []struct{ g, v, r, kind string }{
	{"", "v1", "pods", "Pod"},
	{"x.io", "v1", "pods", "PodX"},
	{"x.io", "v2", "pods", "PodX2"},
	{"x.io", "v1", "services", "ServiceX"},
	{"", "v1", "services", "Service"},
	{"y.io", "v1", "pods", "PodY"},
	{"", "v1", "configmaps", "ConfigMap"},
}

func (p Prog) path(i int) string {
	t := progTypes[i]
	if t.g == "" {
		return "/api/" + t.v
	}
	return "/apis/" + t.g + "/" + t.v
}

// index is the index configuration of a type and its values for an object.
func (p Prog) index(i int, cluster string) (exprs, values map[string]string) {
	exprs = map[string]string{"own": fmt.Sprint("lit-", i), "labels": "{.metadata.labels}", fmt.Sprint("only", i): "{.metadata.uid}", "t": fmt.Sprintf("{{ .metadata.name }}-%d", i)}
	values = map[string]string{"own": exprs["own"], "labels": `{"a":"b"}`, fmt.Sprint("only", i): cluster + p.path(i) + "/" + progTypes[i].r, "t": fmt.Sprint("o-", i),
		"cluster": cluster, "namespace": "n", "name": "o", "is_deleted": "false"}
	return
}

func program(x *mc.X, p Prog) error {
	dir, err := os.MkdirTemp(os.Getenv("CKUBEMC_TMP"), "c18")
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer os.RemoveAll(dir)
	kinds := map[string]string{}
	var proxies []map[string]interface{}
	for i, t := range progTypes {
		kinds[p.path(i)+"/"+t.r] = t.kind
	}
	for _, i := range p.Types {
		t := progTypes[i]
		e, _ := p.index(i, "")
		proxies = append(proxies, map[string]interface{}{"group": t.g, "version": t.v, "resource": t.r, "list_kind": t.kind + "List", "index": e})
	}
	var cl, cx string
	for _, c := range p.Clusters {
		c := c
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Type", "application/json")
			if r.URL.Query().Get("watch") == "" {
				_, _ = fmt.Fprintf(w, `{"upstream":%q,"path":%q,"method":%q}`, c, r.URL.Path, r.Method)
				return
			}
			g := strings.Split(strings.TrimPrefix(strings.TrimPrefix(r.URL.Path, "/apis/"), "/api/"), "/")
			_, _ = fmt.Fprintf(w, `{"type":"ADDED","object":{"apiVersion":%q,"kind":%q,"metadata":{"name":"o","namespace":"n","uid":%q,"labels":{"a":"b"}}}}`+"\n", strings.Join(g[:len(g)-1], "/"), kinds[r.URL.Path], c+r.URL.Path)
			w.(http.Flusher).Flush()
			<-r.Context().Done()
		}))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Start()
		defer s.Close()
		defer s.CloseClientConnections()
		cl += fmt.Sprintf("- name: at-%s\n  cluster:\n    server: %s\n", c, s.URL)
		cx += fmt.Sprintf("- name: %s\n  context:\n    cluster: at-%s\n", c, c)
	}
	def := p.Clusters[len(p.Clusters)-1]
	cf, kf := filepath.Join(dir, "config"), filepath.Join(dir, "kube")
	if err := os.WriteFile(cf, []byte(mc.J(map[string]interface{}{"proxies": proxies})), 0644); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	if err := os.WriteFile(kf, []byte("apiVersion: v1\nkind: Config\ncurrent-context: "+def+"\nclusters:\n"+cl+"contexts:\n"+cx), 0644); err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	var base string
	get := func(path string) (int, string) {
		r, err := http.Get(base + path)
		if err != nil {
			return 0, err.Error()
		}
		defer r.Body.Close()
		b, _ := io.ReadAll(r.Body)
		return r.StatusCode, string(b)
	}
	up := false
	for try := 0; try < 5 && !up; try++ {
		l, err := world.FreePort()
		if err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		base = "http://" + l
		cmd := osexec.Command(filepath.Join(os.Getenv("CKUBEMC_TMP"), "cacheproxy"), "-c", cf, "-k", kf, "-a", l)
		cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
		cmd.Dir = dir
		if err := cmd.Start(); err != nil {
			return fmt.Errorf("HARNESS: %v", err)
		}
		done := make(chan bool)
		go func() { _ = cmd.Wait(); close(done) }()
		defer func() { _ = cmd.Process.Kill(); <-done }()
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !up; time.Sleep(5 * time.Millisecond) {
			c, _ := get("/metrics")
			up = c == 200
			select {
			case <-done:
				end, up = time.Now(), false
			default:
			}
		}
	}
	if !up {
		return fmt.Errorf("the server does not start with %s", mc.J(proxies))
	}
	object := func(what, body, c string, i int) error {
		var o struct {
			APIVersion, Kind string
			Metadata         struct {
				UID         string
				Annotations map[string]string
			}
		}
		if err := json.Unmarshal([]byte(body), &o); err != nil {
			return fmt.Errorf("%s: %v: %s", what, err, body)
		}
		_, want := p.index(i, c)
		got := map[string]string{}
		_ = json.Unmarshal([]byte(o.Metadata.Annotations[constants.IndexAnno]), &got)
		if mc.J(got) != mc.J(want) || o.Metadata.UID != c+p.path(i)+"/"+progTypes[i].r || o.Kind != progTypes[i].kind {
			return fmt.Errorf("%s: the object is %s, its indexes must be %s", what, body, mc.J(want))
		}
		return nil
	}
	configured := map[int]bool{}
	for _, i := range p.Types {
		configured[i] = true
	}
	for i, t := range progTypes {
		for _, c := range append([]string{""}, p.Clusters...) {
			url := p.path(i) + "/namespaces/n/" + t.r + "/o"
			at := c
			if c == "" {
				at = def
			} else {
				url += "?resourceVersion=dsm-cluster-" + c
			}
			code, body := get(url)
			if !configured[i] {
				if code != 200 || !strings.Contains(body, fmt.Sprintf(`{"upstream":%q,"path":%q,`, at, p.path(i)+"/namespaces/n/"+t.r+"/o")) {
					return fmt.Errorf("%s, which is not cached, is answered %d %s instead of by the API server of %s", url, code, body, at)
				}
				x.Step(1)
				continue
			}
			for end := time.Now().Add(20 * time.Second); code != 200 && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
				code, body = get(url)
			}
			if code != 200 {
				return fmt.Errorf("%s is not served within 20 s, but answered %d %s", url, code, body)
			}
			if err := object(url, body, at, i); err != nil {
				return err
			}
			x.Step(1)
		}
		if !configured[i] {
			continue
		}
		url := p.path(i) + "/" + t.r
		code, body := get(url)
		var l struct {
			Kind  string
			Items []json.RawMessage
		}
		if err := json.Unmarshal([]byte(body), &l); err != nil || code != 200 || len(l.Items) != 1 || l.Kind != t.kind+"List" {
			return fmt.Errorf("%s is answered %d %s", url, code, body)
		}
		if err := object(url, string(l.Items[0]), def, i); err != nil {
			return err
		}
		x.State(mc.J(p) + url)
	}
	x.Outcome(mc.J(p))
	return nil
}

func programs() mc.Family {
	return mc.Cases("program", mc.Opts{Bound: fmt.Sprintf("the real server program with every ordered pair (thorough: triple) of %d types, most of one resource name in several groups and versions, and all of them in 4 orders, with 1 to 3 clusters", len(progTypes)), Workers: 12, Batch: 1, Limit: 3 * time.Minute},
		func(c *mc.Ctx, emit func(Prog) bool) {
			cls := [][]string{{"c1"}, {"c1", "c2"}, {"b", "c1", "a"}}
			for i, o := range [][]int{{0, 1, 2, 3, 4, 5, 6}, {6, 5, 4, 3, 2, 1, 0}, {3, 5, 1, 6, 0, 2, 4}, {2, 0, 4, 1, 6, 3, 5}} {
				if !emit(Prog{Types: o, Clusters: cls[i%3]}) {
					return
				}
			}
			n := 0
			for k := 1; k <= mc.Pick(c, 2, 3); k++ {
				mc.Words(len(progTypes), k, func(w []int) bool {
					seen := map[int]bool{}
					for _, i := range w {
						if seen[i] {
							return true
						}
						seen[i] = true
					}
					n++
					return emit(Prog{Types: append([]int{}, w...), Clusters: cls[n%3]})
				})
			}
		}, program)
}
