// C22: the resource gauge equals the number of cached objects.
package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/utils/prommonitor"
)

// types of resources; some differ in one part only.
var types = []store.GroupVersionResource{
	gen.Pods, gen.Widgets, world.GVR("y.io", "v1", "widgets"), world.GVR("x.io", "v2", "widgets"), world.GVR("x.io", "v1", "gadgets"),
}

func cfg(def string) common.Config {
	c := common.Config{DefaultCluster: def}
	for _, t := range types {
		c.Proxies = append(c.Proxies, world.Proxy(t.Group, t.Version, t.Resource, strings.TrimSuffix(t.Resource, "s"), gen.IndexKeys("k")))
	}
	return c
}

// Op is one notification: kind + - * (modified) r (reset), type, cluster, namespace, name.
type Op struct {
	K       string
	T, C    int
	N, O    string `json:",omitempty"`
	Deleted bool   `json:",omitempty"` // the object bears a deletion timestamp
}

func (o Op) String() string { return fmt.Sprintf("%s t%d c%d %s/%s", o.K, o.T, o.C, o.N, o.O) }

type Case struct {
	Ops  []Op
	HTTP bool `json:",omitempty"` // read the metrics endpoint instead of the collector
}

var clusters = []string{"c", "cc"} // a unique prefix is added per execution
var uniq atomic.Int64

type key struct{ c, g, v, r, n string }

// gauges reads the series of the clusters with the prefix.
func gauges(prefix string) map[key]float64 {
	ch := make(chan prometheus.Metric)
	go func() { prommonitor.Resources.Collect(ch); close(ch) }()
	res := map[key]float64{}
	for m := range ch {
		var d dto.Metric
		if err := m.Write(&d); err != nil {
			continue
		}
		l := map[string]string{}
		for _, p := range d.Label {
			l[p.GetName()] = p.GetValue()
		}
		if strings.HasPrefix(l["cluster"], prefix) {
			res[key{l["cluster"], l["group"], l["version"], l["resource"], l["namespace"]}] = d.Gauge.GetValue()
		}
	}
	return res
}

var lineRE = regexp.MustCompile(`(?m)^ckube_resources_total\{cluster="([^"]*)",group="([^"]*)",namespace="([^"]*)",resource="([^"]*)",version="([^"]*)"\} (.*)$`)

func scrape(w *world.World, prefix string) (map[key]float64, error) {
	r := w.Get("/metrics", nil)
	if r.Code != 200 {
		return nil, fmt.Errorf("GET /metrics: status %d", r.Code)
	}
	res := map[key]float64{}
	n := strings.Count(string(r.Body), "\nckube_resources_total{")
	ms := lineRE.FindAllStringSubmatch(string(r.Body), -1)
	if len(ms) != n {
		return nil, fmt.Errorf("HARNESS: %d of %d metric lines understood", len(ms), n)
	}
	for _, m := range ms {
		if strings.HasPrefix(m[1], prefix) {
			f, err := strconv.ParseFloat(m[6], 64)
			if err != nil {
				return nil, err
			}
			res[key{m[1], m[2], m[5], m[4], m[3]}] = f
		}
	}
	return res, nil
}

func exec(x *mc.X, t Case) error {
	prefix := fmt.Sprintf("u%d-", uniq.Add(1))
	defer func() {
		for k := range gauges(prefix) {
			prommonitor.Resources.DeleteLabelValues(k.c, k.g, k.v, k.r, k.n)
		}
	}()
	conf := cfg(prefix + "c")
	s := memory.NewMemoryStore(world.IndexConf(conf))
	var w *world.World
	if t.HTTP {
		w = &world.World{Store: s}
		w.Serve()
	}
	model := map[key]map[string]bool{}
	for i, op := range t.Ops {
		g := types[op.T]
		cl := prefix + clusters[op.C]
		sp := gen.Spec{C: cl, N: op.N, O: op.O, Del: op.Deleted, K: map[string]string{"k": fmt.Sprint(i)}}
		var obj interface{} = sp.Custom()
		if op.T == 0 {
			obj = sp.Pod()
		}
		k := key{cl, g.Group, g.Version, g.Resource, op.N}
		if model[k] == nil && op.K != "r" {
			model[k] = map[string]bool{}
		}
		switch op.K {
		case "+":
			_ = s.OnResourceAdded(g, cl, obj)
			model[k][op.O] = true
		case "*":
			_ = s.OnResourceModified(g, cl, obj)
			model[k][op.O] = true
		case "-":
			_ = s.OnResourceDeleted(g, cl, obj)
			delete(model[k], op.O)
		case "r":
			_ = s.Clean(g, cl)
			for mk := range model {
				if mk.c == cl && mk.g == g.Group && mk.v == g.Version && mk.r == g.Resource {
					model[mk] = map[string]bool{}
				}
			}
		}
		var got map[key]float64
		if t.HTTP {
			var err error
			if got, err = scrape(w, prefix); err != nil {
				return err
			}
		} else {
			got = gauges(prefix)
		}
		x.Step(1)
		sig := []string{}
		for mk, names := range model {
			if int(got[mk]) != len(names) || got[mk] != float64(int(got[mk])) {
				return fmt.Errorf("after %v: gauge of %v is %v, %d objects are cached", t.Ops[:i+1], mk, got[mk], len(names))
			}
			if len(names) > 0 {
				sig = append(sig, fmt.Sprint(strings.TrimPrefix(mk.c, prefix), mk.g, mk.v, mk.r, mk.n, len(names)))
			}
		}
		for gk, v := range got {
			if v != 0 && len(model[gk]) == 0 {
				return fmt.Errorf("after %v: gauge of %v is %v, nothing is cached there", t.Ops[:i+1], gk, v)
			}
			// what the store itself serves
			if i == len(t.Ops)-1 {
				gvr := store.GroupVersionResource{Group: gk.g, Version: gk.v, Resource: gk.r}
				n := 0
				for _, key := range gen.Keys(s.Query(gvr, store.Query{}).Items) {
					if strings.HasPrefix(key, gk.c+"/"+gk.n+"/") {
						n++
					}
				}
				if float64(n) != v {
					return fmt.Errorf("after %v: gauge of %v is %v, a query returns %d objects", t.Ops, gk, v, n)
				}
			}
		}
		sort.Strings(sig)
		x.State(strings.Join(sig, ";"))
	}
	return nil
}

// alphabet of notifications over some types, clusters, namespaces and names.
func alphabet(ts, cs []int, ns, os []string) []Op {
	var r []Op
	for _, t := range ts {
		for _, c := range cs {
			for _, n := range ns {
				for _, o := range os {
					for _, k := range []string{"+", "-", "*"} {
						r = append(r, Op{K: k, T: t, C: c, N: n, O: o})
					}
				}
			}
			r = append(r, Op{K: "r", T: t, C: c})
		}
	}
	return r
}

func family(name string, a []Op, quick, thorough int, http bool) mc.Family {
	return mc.Cases(name, mc.Opts{Bound: fmt.Sprintf("all words of up to %d (thorough %d) of %d notifications, gauges compared after each", quick, thorough, len(a)), Setup: func(*mc.Ctx) {
		c := cfg("c")
		common.InitConfig(&c)
	}},
		func(c *mc.Ctx, emit func(Case) bool) {
			for l := 1; l <= mc.Pick(c, quick, thorough); l++ {
				if !mc.Words(len(a), l, func(w []int) bool {
					ops := make([]Op, len(w))
					for i, j := range w {
						ops[i] = a[j]
					}
					return emit(Case{Ops: ops, HTTP: http})
				}) {
					return
				}
			}
		}, exec)
}

// Large is a population of N objects over S namespaces, half of them modified, a third deleted, reset and filled again.
type Large struct{ N, S, T int }

var spaces = []string{"default", "kube-system", "n", "", "kube-public", "N", "n-1", "istio-system", "a.b", "名", strings.Repeat("l", 63), "kube-node-lease", "0", "null", "n n", "cluster"}

func large(x *mc.X, l Large) error {
	var t Case
	at := func(i int) Op { return Op{T: l.T, N: spaces[i%l.S], O: fmt.Sprintf("o%d", i/l.S)} }
	add := func(k string, i int) { o := at(i); o.K = k; t.Ops = append(t.Ops, o) }
	for i := 0; i < l.N; i++ {
		add("+", i)
	}
	for i := 0; i < l.N; i += 2 {
		add("*", i)
	}
	for i := 0; i < l.N; i += 3 {
		add("-", i)
	}
	t.Ops = append(t.Ops, Op{K: "r", T: l.T})
	for i := 0; i < l.N; i += 2 {
		add("+", i)
	}
	for i := 0; i < l.N; i += 2 {
		add("-", i)
	}
	return exec(x, t)
}

func main() {
	deep := alphabet([]int{0}, []int{0}, []string{"n", "m"}, []string{"a"})
	deep = append(deep, Op{K: "*", T: 0, C: 0, N: "n", O: "a", Deleted: true}, Op{K: "+", T: 0, C: 1, N: "n", O: "a"}, Op{K: "+", T: 1, C: 0, N: "n", O: "a"}, Op{K: "+", T: 0, C: 0, N: "n", O: "b"})
	mc.Main(mc.Def{ID: "C22",
		Oracle: "set model of the cached objects per cluster, type and namespace, and the number of objects a query returns",
		Assume: []string{"the notifications of one type and cluster arrive one after another (each has one watcher)"},
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			family("deep", deep, 4, 6, false),
			family("wide", alphabet([]int{0, 1}, []int{0, 1}, []string{"n", ""}, []string{"a", "b"}), 2, 3, false),
			family("alike-types", alphabet([]int{1, 2, 3, 4}, []int{0}, []string{"n"}, []string{"a"}), 3, 5, false),
			family("alike-places", alphabet([]int{1}, []int{0, 1}, []string{"n", "nn", ""}, []string{"a", "n"}), 2, 3, false),
			family("places-deep", alphabet([]int{0}, []int{0}, []string{"", "n", "m"}, []string{"a"}), 4, 5, false),
			mc.Cases("populations", mc.Opts{Bound: fmt.Sprintf("1..70, 100, 101, 128, 257, 513 (thorough 1025) objects over 1..%d namespaces, added, half modified, a third deleted, reset, half added again and deleted; 2 types", len(spaces)), Setup: func(*mc.Ctx) {
				c := cfg("c")
				common.InitConfig(&c)
			}}, func(c *mc.Ctx, emit func(Large) bool) {
				ns := []int{100, 101, 128, 257, 513}
				for i := 70; i > 0; i-- {
					ns = append([]int{i}, ns...)
				}
				if c.Thorough() {
					ns = append(ns, 1025)
				}
				for _, n := range ns {
					for s := 1; s <= len(spaces); s++ {
						if !c.Thorough() && (n > 20 && s > 2 && s < len(spaces) || n > 101 && s == 2) {
							continue
						}
						for t := 0; t < 2; t++ {
							if !emit(Large{n, s, t}) {
								return
							}
						}
					}
				}
			}, large),
			family("endpoint", deep, 2, 3, true),
			reloads(),
		},
	})
}
