package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"k8s.io/client-go/rest"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/vrt"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// Watched is a run of the real watchers against scripted API servers.
type Watched struct {
	Types    []string // p(ods) w(idgets) g(adgets) of the same group, o(thers) of another group
	Clusters int
	Events   int
}

var kinds = map[string]common.Proxy{
	"p": world.Proxy("", "v1", "pods", "Pod", gen.IndexKeys()),
	"w": world.Proxy("x.io", "v1", "widgets", "Widget", gen.IndexKeys()),
	"g": world.Proxy("x.io", "v1", "gadgets", "Gadget", gen.IndexKeys()),
	"o": world.Proxy("y.io", "v1", "others", "Other", gen.IndexKeys()),
}

type script struct {
	ev   int
	done *sync.WaitGroup
	ctx  context.Context
}

// stream delivers lines and then stays open until the request is given up.
type stream struct {
	*bytes.Reader
	end  context.Context
	once sync.Once
	done *sync.WaitGroup
}

func (s *stream) Read(b []byte) (int, error) {
	if s.Len() > 0 {
		return s.Reader.Read(b)
	}
	s.once.Do(s.done.Done) // everything was taken
	<-s.end.Done()
	return 0, io.EOF
}

func (s *stream) Close() error { return nil }

func (s *script) RoundTrip(r *http.Request) (*http.Response, error) {
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	res := parts[len(parts)-1]
	api, kind := strings.Join(parts[1:len(parts)-1], "/"), ""
	for _, k := range kinds {
		if k.Resource == res {
			kind = strings.TrimSuffix(k.ListKind, "List")
		}
	}
	var b bytes.Buffer
	for i := 0; i < s.ev; i++ {
		fmt.Fprintf(&b, `{"type":"ADDED","object":{"apiVersion":%q,"kind":%q,"metadata":{"name":"o%d","namespace":"n%d"}}}`+"\n", api, kind, i, i%2)
	}
	resp := world.Response(r, 200, "")
	resp.ContentLength = -1
	resp.Body = &stream{Reader: bytes.NewReader(b.Bytes()), end: s.ctx, done: s.done}
	return resp, nil
}

func runWatch(l *mc.Local, c Watched) error {
	cfg := common.Config{DefaultCluster: "c1"}
	var gvrs []store.GroupVersionResource
	for _, t := range c.Types {
		cfg.Proxies = append(cfg.Proxies, kinds[t])
		gvrs = append(gvrs, world.GVR(kinds[t].Group, kinds[t].Version, kinds[t].Resource))
	}
	common.InitConfig(&cfg)
	st := memory.NewMemoryStore(world.IndexConf(cfg))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var taken sync.WaitGroup
	taken.Add(len(c.Types) * c.Clusters)
	confs := map[string]rest.Config{}
	for i := 1; i <= c.Clusters; i++ {
		confs[fmt.Sprintf("c%d", i)] = rest.Config{Host: "http://upstream", Transport: &script{c.Events, &taken, ctx}}
	}
	r0 := vrt.RaceErrors()
	w := watcher.NewWatcher(confs, gvrs, st)
	if err := w.Start(); err != nil {
		return err
	}
	// readers run meanwhile
	var rd sync.WaitGroup
	for _, g := range gvrs {
		rd.Add(1)
		go func() {
			defer rd.Done()
			for i := 0; i < 3; i++ {
				_ = st.Query(g, store.Query{Paginate: page.Paginate{Search: "o1"}})
				_ = st.Get(g, "c1", "n0", "o0")
				time.Sleep(time.Millisecond)
			}
		}()
	}
	taken.Wait()
	rd.Wait()
	ok := false
	for i := 0; i < 2000 && !ok; i++ { // the last objects are on their way
		ok = true
		for _, g := range gvrs {
			ok = ok && int(st.Query(g, store.Query{}).Total) == c.Events*c.Clusters
		}
		if !ok {
			time.Sleep(5 * time.Millisecond)
		}
	}
	_ = w.Stop()
	cancel()
	l.Step(len(gvrs) * c.Clusters * c.Events)
	l.State(mc.J(c))
	if n := vrt.RaceErrors() - r0; n > 0 {
		return fmt.Errorf("data race between watchers")
	}
	if !ok {
		return fmt.Errorf("objects were lost")
	}
	l.Outcome(fmt.Sprint(len(gvrs) * c.Clusters * c.Events))
	return nil
}

func watchFamily() mc.Family {
	return mc.Cases("watchers", mc.Opts{Bound: "the real watchers of every selection of 4 types, up to 2 clusters, up to 3 objects, under the race detector"},
		func(c *mc.Ctx, emit func(Watched) bool) {
			ks := []string{"p", "w", "g", "o"}
			mc.Subsets(4, func(m int) bool {
				if m == 0 {
					return true
				}
				var ts []string
				for i, k := range ks {
					if m&(1<<i) != 0 {
						ts = append(ts, k)
					}
				}
				for cl := 1; cl <= 2; cl++ {
					for ev := 1; ev <= 3; ev++ {
						if !emit(Watched{ts, cl, ev}) {
							return false
						}
					}
				}
				return true
			})
		}, mc.Remote[Watched]("watchers", ".race", 60*time.Second))
}
