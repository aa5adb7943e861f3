package main

import (
	"fmt"
	"io"
	"net/http"
	"time"

	"k8s.io/client-go/rest"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// Live: in real time, so that waiting for something outside the virtual clock is seen as well.
type Live struct {
	Clusters int
	Ends     bool // every first connection ends after its event
}

type liveTransport struct {
	ends bool
	seen map[string]int
	mu   chan bool
}

func (l *liveTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	l.mu <- true
	l.seen[r.URL.Path]++
	n := l.seen[r.URL.Path]
	<-l.mu
	pr, pw := io.Pipe()
	go func() {
		for _, k := range kinds {
			if k.path == r.URL.Path {
				_, _ = fmt.Fprintf(pw, `{"type":"ADDED","object":{"apiVersion":%q,"kind":%q,"metadata":{"name":"a","namespace":"n","resourceVersion":"%d"},"spec":{}}}`+"\n", k.gv, k.kind, n)
			}
		}
		if l.ends && n == 1 {
			_ = pw.Close()
			return
		}
		<-r.Context().Done()
		_ = pw.CloseWithError(r.Context().Err())
	}()
	return response(r, 200, "application/json", pr), nil
}

func live(x *mc.X, t Live) error {
	cfg := config([]int{0, 1, 2, 3, 4})
	common.InitConfig(&cfg)
	s := memory.NewMemoryStore(world.IndexConf(cfg))
	confs := map[string]rest.Config{}
	for c := 0; c < t.Clusters; c++ {
		confs[clusters[c]] = rest.Config{Host: "http://host-" + clusters[c], Transport: &liveTransport{t.Ends, map[string]int{}, make(chan bool, 1)}}
	}
	var gvrs []store.GroupVersionResource
	for _, k := range kinds {
		gvrs = append(gvrs, k.gvr)
	}
	w := watcher.NewWatcher(confs, gvrs, s)
	if err := w.Start(); err != nil {
		return err
	}
	defer func() { _ = w.Stop() }()
	missing := ""
	for end := time.Now().Add(40 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		missing = ""
		for _, k := range kinds {
			for c := 0; c < t.Clusters; c++ {
				o := s.Get(k.gvr, clusters[c], "n", "a")
				if o == nil {
					missing = fmt.Sprintf("%s of %s", k.gvr.Resource, clusters[c])
				} else if v := o.(interface{ GetResourceVersion() string }).GetResourceVersion(); t.Ends && v != "2" {
					missing = fmt.Sprintf("the second version of the object of %s of %s", k.gvr.Resource, clusters[c])
				}
			}
		}
		x.Step(1)
		if missing == "" {
			x.State(fmt.Sprint(t))
			return nil
		}
	}
	return fmt.Errorf("%d clusters whose API servers answer at once: after 40 s the cache lacks the %s", t.Clusters, missing)
}
