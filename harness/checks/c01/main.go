// C01: the cache is exactly the latest reported state.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	types2 "k8s.io/apimachinery/pkg/types"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// Key identifies a cached object.
type Key struct{ T, C, N, O string }

var types = map[string]store.GroupVersionResource{
	"pods":    world.GVR("", "v1", "pods"),
	"svcs":    world.GVR("", "v1", "services"),
	"gpods":   world.GVR("g", "v1", "pods"),
	"gpods2":  world.GVR("g", "v2", "pods"),
	"widgets": world.GVR("x.io", "v1", "widgets"),
}

// Op is one notification. Kind: a(dd) m(odify) d(elete) r(eset).
type Op struct {
	Kind string
	K    Key
	V    int // version reported
}

type Case struct {
	Ops  []Op
	Keys []Key // keys observed
	Full bool  // observe after every step
	HTTP bool  // observe through the server, too
	Wait bool  `json:",omitempty"` // and again after everything that was started has run
}

func idx() map[string]string {
	return map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "v": "{.metadata.resourceVersion}"}
}

var cfg common.Config

// alone lets started goroutines wait until the present one does.
func alone(c *mc.Ctx) {
	setup(c)
	runtime.GOMAXPROCS(1)
}

func setup(c *mc.Ctx) {
	runtime.GOMAXPROCS(runtime.NumCPU())
	cfg = common.Config{DefaultCluster: "dflt"}
	for _, n := range []string{"pods", "svcs", "gpods", "gpods2", "widgets"} {
		t := types[n]
		cfg.Proxies = append(cfg.Proxies, world.Proxy(t.Group, t.Version, t.Resource, "Kind"+n, idx()))
	}
	x := cfg
	common.InitConfig(&x)
}

// modes are the ways in which successive versions of an object differ; version v is v%100 in mode v/100.
// In all but the first they differ in nothing but what is named.
var modes = []string{"resource version and label", "label, without resource version", "label", "annotation", "spec", "status", "uid", "finalizer", "deletion time", "label value only in case"}

func obj(k Key, v int) interface{} {
	mode, n := v/100, v%100
	ver := fmt.Sprintf("ver-%d", n)
	m := world.Meta(k.N, k.O, map[string]string{"fixed": "f"})
	m.Annotations = map[string]string{"fixed": "f"}
	m.ResourceVersion, m.UID, m.Generation = "77", "u", 3
	spec, status := "", ""
	switch modes[mode] {
	case "resource version and label":
		m.ResourceVersion, m.Annotations = fmt.Sprint(n), nil
		m.Labels["l"] = ver
	case "label, without resource version":
		m.ResourceVersion, m.UID, m.Generation = "", "", 0
		m.Labels["l"] = ver
	case "label":
		m.Labels["l"] = ver
	case "annotation":
		m.Annotations["l"] = ver
	case "spec":
		spec = ver
	case "status":
		status = ver
	case "uid":
		m.UID = types2.UID(ver)
	case "finalizer":
		m.Finalizers = []string{ver}
	case "deletion time":
		m.Labels["l"] = "ver-0"
		if n > 0 {
			t := metav1.Unix(1600000000+int64(n), 0)
			m.DeletionTimestamp = &t
		}
	case "label value only in case":
		m.Labels["l"] = []string{"ver-a", "ver-A", "Ver-A"}[n]
	}
	switch k.T {
	case "pods":
		return &corev1.Pod{ObjectMeta: m, Spec: corev1.PodSpec{NodeName: spec}, Status: corev1.PodStatus{Message: status}}
	case "svcs":
		return &corev1.Service{ObjectMeta: m, Spec: corev1.ServiceSpec{ExternalName: spec}, Status: corev1.ServiceStatus{LoadBalancer: corev1.LoadBalancerStatus{Ingress: []corev1.LoadBalancerIngress{{Hostname: status}}}}}
	}
	o := &watcher.ObjType{ObjectMeta: m, Data: map[string]interface{}{"spec": map[string]interface{}{"v": spec}, "status": map[string]interface{}{"v": status}}}
	o.Kind, o.APIVersion = "Kind"+k.T, "x"
	return o
}

// body is what distinguishes the versions, read from an object's JSON.
type body struct {
	Metadata struct {
		Labels, Annotations  map[string]string
		ResourceVersion, UID string
		DeletionTimestamp    string
		Finalizers           []string
	}
	Spec   struct{ NodeName, ExternalName, V string }
	Status struct {
		Message, V   string
		LoadBalancer struct{ Ingress []struct{ Hostname string } }
	}
}

func (b body) version() string {
	m := b.Metadata
	s := fmt.Sprint(m.Labels["l"], m.Annotations["l"], b.Spec.NodeName, b.Spec.ExternalName, b.Spec.V, b.Status.Message, b.Status.V, b.Status.LoadBalancer.Ingress, m.ResourceVersion, m.UID, m.Finalizers)
	if m.DeletionTimestamp != "" {
		if t, err := time.Parse(time.RFC3339, m.DeletionTimestamp); err == nil {
			s += fmt.Sprint(t.Unix())
		} else {
			s += m.DeletionTimestamp
		}
	}
	return s
}

func rawVersion(raw []byte) string {
	var b body
	if err := json.Unmarshal(raw, &b); err != nil {
		return err.Error()
	}
	return b.version()
}

var vers sync.Map

// vdesc is what version v of an object of type t looks like.
func vdesc(t string, v int) string {
	type key struct {
		t string
		v int
	}
	if s, ok := vers.Load(key{t, v}); ok {
		return s.(string)
	}
	raw, _ := json.Marshal(obj(Key{T: t}, v))
	s := rawVersion(raw)
	vers.Store(key{t, v}, s)
	return s
}

func apply(s store.Store, model map[Key]int, op Op) {
	gvr := types[op.K.T]
	switch op.Kind {
	case "a":
		_ = s.OnResourceAdded(gvr, op.K.C, obj(op.K, op.V))
		model[op.K] = op.V
	case "m":
		_ = s.OnResourceModified(gvr, op.K.C, obj(op.K, op.V))
		model[op.K] = op.V
	case "d":
		_ = s.OnResourceDeleted(gvr, op.K.C, obj(op.K, op.V))
		delete(model, op.K)
	case "r":
		_ = s.Clean(gvr, op.K.C)
		for k := range model {
			if k.T == op.K.T && k.C == op.K.C {
				delete(model, k)
			}
		}
	}
}

type meta interface {
	GetName() string
	GetNamespace() string
	GetResourceVersion() string
	GetAnnotations() map[string]string
	GetLabels() map[string]string
	GetUID() types2.UID
	GetFinalizers() []string
	GetDeletionTimestamp() *metav1.Time
}

// desc describes an object; what does not go through the encoder is read directly.
func desc(o interface{}) string {
	m, ok := o.(meta)
	if !ok {
		return fmt.Sprintf("%T", o)
	}
	var b body
	b.Metadata.Labels, b.Metadata.Annotations = m.GetLabels(), m.GetAnnotations()
	b.Metadata.ResourceVersion, b.Metadata.UID, b.Metadata.Finalizers = m.GetResourceVersion(), string(m.GetUID()), m.GetFinalizers()
	if t := m.GetDeletionTimestamp(); t != nil {
		b.Metadata.DeletionTimestamp = t.UTC().Format(time.RFC3339)
	}
	switch o := o.(type) {
	case *corev1.Pod:
		b.Spec.NodeName, b.Status.Message = o.Spec.NodeName, o.Status.Message
	case *corev1.Service:
		b.Spec.ExternalName = o.Spec.ExternalName
		for _, i := range o.Status.LoadBalancer.Ingress {
			b.Status.LoadBalancer.Ingress = append(b.Status.LoadBalancer.Ingress, struct{ Hostname string }{i.Hostname})
		}
	default:
		raw, _ := json.Marshal(o)
		return fmt.Sprintf("%s/%s/%s@%s", m.GetAnnotations()["ckube.doacloud.io/cluster"], m.GetNamespace(), m.GetName(), rawVersion(raw))
	}
	return fmt.Sprintf("%s/%s/%s@%s", m.GetAnnotations()["ckube.doacloud.io/cluster"], m.GetNamespace(), m.GetName(), b.version())
}

func kdesc(k Key, v int) string { return fmt.Sprintf("%s/%s/%s@%s", k.C, k.N, k.O, vdesc(k.T, v)) }

func eq(got, want []string) error {
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		return fmt.Errorf("got %v want %v", got, want)
	}
	return nil
}

func uniq(keys []Key, f func(Key) string) []string {
	m := map[string]bool{}
	var r []string
	for _, k := range keys {
		if s := f(k); !m[s] {
			m[s] = true
			r = append(r, s)
		}
	}
	return r
}

func observe(x *mc.X, s store.Store, keys []Key, model map[Key]int) error {
	for _, k := range keys {
		o := s.Get(types[k.T], k.C, k.N, k.O)
		v, ok := model[k]
		if ok != (o != nil) {
			return fmt.Errorf("get %v: present=%v want %v", k, o != nil, ok)
		}
		if ok && desc(o) != kdesc(k, v) {
			return fmt.Errorf("get %v: %s want %s", k, desc(o), kdesc(k, v))
		}
		x.Step(1)
	}
	for _, t := range uniq(keys, func(k Key) string { return k.T }) {
		for _, ns := range append([]string{""}, uniq(keys, func(k Key) string { return k.N })...) {
			res := s.Query(types[t], store.Query{Namespace: ns})
			var got, want []string
			for _, o := range res.Items {
				got = append(got, desc(o))
			}
			for k, v := range model {
				if k.T == t && (ns == "" || k.N == ns) {
					want = append(want, kdesc(k, v))
				}
			}
			if res.Error != nil {
				return fmt.Errorf("list %s ns=%q: %v", t, ns, res.Error)
			}
			if err := eq(got, want); err != nil {
				return fmt.Errorf("list %s ns=%q: %v", t, ns, err)
			}
			if int(res.Total) != len(want) {
				return fmt.Errorf("list %s ns=%q: total %d want %d", t, ns, res.Total, len(want))
			}
			x.Step(1)
		}
	}
	return nil
}

// overHTTP repeats the observation through the server, cluster by cluster.
func overHTTP(x *mc.X, w *world.World, keys []Key, model map[Key]int) error {
	for _, t := range uniq(keys, func(k Key) string { return k.T }) {
		gvr := types[t]
		base := "/apis/" + gvr.Group + "/" + gvr.Version
		if gvr.Group == "" {
			base = "/api/" + gvr.Version
		}
		for _, cl := range uniq(keys, func(k Key) string { return k.C }) {
			if cl == "" || !okLabel(cl) {
				continue
			}
			for _, ns := range append([]string{""}, uniq(keys, func(k Key) string { return k.N })...) {
				if !okLabel(ns) {
					continue
				}
				sel := "ckube.daocloud.io/query notin (" + encode(`{"search":"__ckube_as__:cluster in (`+cl+`)"}`) + ")"
				p := base
				if ns != "" {
					p += "/namespaces/" + ns
				}
				p += "/" + gvr.Resource
				list, items, err := world.ParseList(w.Get(p, url.Values{"labelSelector": {sel}}))
				if err != nil {
					return fmt.Errorf("GET %s cluster %s: %v", p, cl, err)
				}
				var got, want []string
				for i, it := range items {
					got = append(got, it.Key()+"@"+rawVersion(list.Items[i]))
				}
				for k, v := range model {
					if k.T == t && k.C == cl && (ns == "" || k.N == ns) {
						want = append(want, kdesc(k, v))
					}
				}
				if err := eq(got, want); err != nil {
					return fmt.Errorf("GET %s cluster %s: %v", p, cl, err)
				}
				x.Step(1)
			}
			for _, k := range keys {
				if k.T != t || k.C != cl || k.N == "" || !okLabel(k.N) || !okLabel(k.O) {
					continue
				}
				p := base + "/namespaces/" + k.N + "/" + gvr.Resource + "/" + k.O
				r := w.Get(p, url.Values{"resourceVersion": {"dsm-cluster-" + cl}})
				_, ok := model[k]
				if ok != (r.Code == 200) || (!ok && r.Code != 404) {
					return fmt.Errorf("GET %s in %s: status %d, present=%v", p, cl, r.Code, ok)
				}
				if ok && rawVersion(r.Body) != vdesc(k.T, model[k]) {
					return fmt.Errorf("GET %s in %s: %s want version %d: %s", p, cl, r.Body, model[k], vdesc(k.T, model[k]))
				}
				x.Step(1)
			}
		}
	}
	return nil
}

func okLabel(s string) bool {
	if len(s) > 60 {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.", c) {
			return false
		}
	}
	return true
}

func encode(q string) string { return strings.TrimRight(b64(q), "=") }

func exec(x *mc.X, c Case) error {
	s := memory.NewMemoryStore(world.IndexConf(cfg))
	w := &world.World{Store: s}
	w.Serve()
	model := map[Key]int{}
	for i, op := range c.Ops {
		apply(s, model, op)
		x.Step(1)
		if c.Full || i == len(c.Ops)-1 {
			if err := observe(x, s, c.Keys, model); err != nil {
				return fmt.Errorf("after step %d (%+v): %v", i+1, op, err)
			}
			if c.Full && c.HTTP {
				if err := overHTTP(x, w, c.Keys, model); err != nil {
					return fmt.Errorf("after step %d (%+v): %v", i+1, op, err)
				}
			}
		}
	}
	if c.Wait {
		for i := 0; i < 100; i++ {
			runtime.Gosched()
		}
		if err := observe(x, s, c.Keys, model); err != nil {
			return fmt.Errorf("some time after the last step: %v", err)
		}
	}
	x.State(state(model))
	x.Outcome(state(model))
	if len(c.Ops) <= 3 || c.HTTP {
		if err := overHTTP(x, w, c.Keys, model); err != nil {
			return err
		}
		if len(c.Ops) == 3 {
			x.Sample(c.Ops)
		}
	}
	return nil
}

func state(m map[Key]int) string {
	var r []string
	for k, v := range m {
		r = append(r, k.T+":"+kdesc(k, v))
	}
	sort.Strings(r)
	return strings.Join(r, "|")
}

// alphabet of notifications over keys.
func alphabet(keys []Key, versions []int, kinds string) []Op {
	var ops []Op
	for _, k := range keys {
		for _, kind := range kinds {
			switch kind {
			case 'd':
				ops = append(ops, Op{"d", k, versions[0]/100*100 + 2})
			case 'r':
			default:
				for _, v := range versions {
					ops = append(ops, Op{string(kind), k, v})
				}
			}
		}
	}
	if strings.Contains(kinds, "r") {
		seen := map[string]bool{}
		for _, k := range keys {
			if !seen[k.T+"|"+k.C] {
				seen[k.T+"|"+k.C] = true
				ops = append(ops, Op{"r", Key{T: k.T, C: k.C}, 0})
			}
		}
	}
	return ops
}

func words(keys []Key, ops []Op, depth int, emit func(Case) bool) bool {
	for n := 1; n <= depth; n++ {
		if !mc.Words(len(ops), n, func(w []int) bool {
			c := Case{Keys: keys}
			for _, i := range w {
				c.Ops = append(c.Ops, ops[i])
			}
			return emit(c)
		}) {
			return false
		}
	}
	return true
}

func main() {
	mc.Main(mc.Def{
		ID:     "C01",
		Oracle: "a map from (type, cluster, namespace, name) to the last reported version, compared through Get, Query and HTTP",
		Assume: []string{"objects carry a name; key alphabets and depths are the stated ones"},
		Families: []mc.Family{
			mc.Cases("sequences", mc.Opts{Bound: "every sequence of add/delete/reset of length <=4 and of add/modify/delete/reset of length <=3 (thorough: <=5 of all four) over every pair of keys that differ in exactly one, or in every, coordinate; not deduplicated", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					base := Key{"pods", "c1", "n1", "o1"}
					for _, k2 := range []Key{
						{"pods", "c1", "n1", "o2"}, {"pods", "c1", "n2", "o1"}, {"pods", "c2", "n1", "o1"},
						{"svcs", "c1", "n1", "o1"}, {"widgets", "c2", "n2", "o2"}, {"pods", "c1", "", "o1"},
					} {
						keys := []Key{base, k2}
						if !words(keys, alphabet(keys, []int{2, 1}, mc.Pick(c, "adr", "amdr")), mc.Pick(c, 4, 5), emit) {
							return
						}
						if !words(keys, alphabet(keys, []int{2, 1}, "amdr"), 3, emit) {
							return
						}
					}
				}, exec),
			mc.Cases("observed", mc.Opts{Bound: "every sequence of add/modify/delete/reset of length <=3 (thorough 4) over every pair of such keys, all reads after every step, over HTTP too up to length 2 (thorough 3)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					base := Key{"pods", "c1", "n1", "o1"}
					for _, k2 := range []Key{
						{"pods", "c1", "n1", "o2"}, {"pods", "c1", "n2", "o1"}, {"pods", "c2", "n1", "o1"},
						{"svcs", "c1", "n1", "o1"}, {"widgets", "c2", "n2", "o2"}, {"pods", "c1", "", "o1"},
					} {
						keys := []Key{base, k2}
						if !words(keys, alphabet(keys, []int{2, 1}, "amdr"), mc.Pick(c, 3, 4), func(cs Case) bool {
							cs.Full, cs.HTTP = true, len(cs.Ops) <= mc.Pick(c, 2, 3)
							return emit(cs)
						}) {
							return
						}
					}
				}, exec),
			mc.Cases("differences", mc.Opts{Bound: fmt.Sprintf("every sequence of add/modify/delete/reset with 3 versions, length <=3 (thorough 4) on one object and 2 (thorough 3) on two, of 3 types, where versions differ in one thing only: %q; all reads after every step", modes), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for mode := range modes {
						for _, t := range []string{"pods", "svcs", "widgets"} {
							for _, keys := range [][]Key{{{t, "c1", "n1", "o1"}}, {{t, "c1", "n1", "o1"}, {t, "c2", "n1", "o1"}}} {
								n := mc.Pick(c, 3, 4) - len(keys) + 1
								if !words(keys, alphabet(keys, []int{100 * mode, 100*mode + 1, 100*mode + 2}, "amdr"), n, func(cs Case) bool {
									cs.Full, cs.HTTP = true, true
									return emit(cs)
								}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("collisions", mc.Opts{Bound: "every sequence of add/delete/reset of length <=3 (thorough 5) over 3 keys whose joined coordinates coincide, for 11 joiners, and keys differing only in case, group or version", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					var sets [][]Key
					for _, sep := range []string{"", "-", ".", "_", "/", ":", "|", ",", " ", "--", "\x00"} {
						sets = append(sets, []Key{
							{"pods", "a", "b", "c" + sep + "d"}, {"pods", "a", "b" + sep + "c", "d"}, {"pods", "a" + sep + "b", "c", "d"}})
					}
					sets = append(sets,
						[]Key{{"pods", "a", "n", "x"}, {"pods", "A", "n", "x"}, {"pods", "a", "n", "X"}},
						[]Key{{"pods", "a", "n", "x"}, {"gpods", "a", "n", "x"}, {"gpods2", "a", "n", "x"}},
						[]Key{{"pods", "a", "", "x"}, {"pods", "a", "x", "x"}, {"pods", "x", "a", "x"}},
						[]Key{{"pods", "a", "default", "x"}, {"pods", "a", "", "x"}, {"pods", "default", "default", "x"}},
						[]Key{{"widgets", "c10", "n", "x1"}, {"widgets", "c1", "n", "x1"}, {"widgets", "c1", "n", "x10"}},
					)
					for _, keys := range sets {
						if !words(keys, alphabet(keys, []int{1}, "adr"), mc.Pick(c, 3, 5), emit) {
							return
						}
					}
				}, exec),
			mc.Cases("state-graph", mc.Opts{Bound: "every content of a 2x2x2 (type/cluster/namespace) or (cluster/namespace/name) key space, each followed by every notification (thorough: the 2x2x2x2 space)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					spaces := [][4][]string{
						{{"pods", "widgets"}, {"c1", "c2"}, {"n1", "n2"}, {"o1"}},
						{{"pods"}, {"c1", "c2"}, {"n1", "n2"}, {"o1", "o2"}},
						{{"pods", "gpods"}, {"c1"}, {"n1", "n2"}, {"o1", "o2"}},
					}
					if c.Thorough() {
						spaces = append(spaces, [4][]string{{"pods", "widgets"}, {"c1", "c2"}, {"n1", "n2"}, {"o1", "o2"}})
					}
					for _, sp := range spaces {
						var keys []Key
						for _, t := range sp[0] {
							for _, cl := range sp[1] {
								for _, n := range sp[2] {
									for _, o := range sp[3] {
										keys = append(keys, Key{t, cl, n, o})
									}
								}
							}
						}
						ops := alphabet(keys, []int{2}, "amdr")
						if !mc.Subsets(len(keys), func(mask int) bool {
							var pre []Op
							for i, k := range keys {
								if mask&(1<<i) != 0 {
									pre = append(pre, Op{"a", k, 1})
								}
							}
							for i, op := range ops {
								if !emit(Case{Ops: append(append([]Op{}, pre...), op), Keys: keys, HTTP: i%8 == mask%8}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				}, exec),
			mc.Cases("at once", mc.Opts{Bound: "populations of 1, 3, 600, 1030 (thorough also 5000) objects, every word of up to 2 of add, modify, delete of the first and the last, reset of the cluster and of another, then the reads, on one processor so that nothing else runs in between, and again after everything else ran", Setup: alone, Workers: 1},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, n := range append([]int{1, 3, 600, 1030}, mc.Pick(c, nil, []int{5000})...) {
						var keys []Key
						var pre []Op
						for i := 0; i < n; i++ {
							keys = append(keys, Key{"pods", "c1", "n1", fmt.Sprintf("o%d", i)})
							pre = append(pre, Op{"a", keys[i], 1})
						}
						last := keys[n-1]
						ops := []Op{{"a", keys[0], 2}, {"m", last, 3}, {"d", keys[0], 2}, {"d", last, 2}, {"r", Key{T: "pods", C: "c1"}, 0}, {"r", Key{T: "pods", C: "c2"}, 0}, {"a", Key{"pods", "c2", "n1", "o0"}, 2}}
						if !words(append(keys, Key{"pods", "c2", "n1", "o0"}), ops, 2, func(cs Case) bool {
							cs.Ops = append(append([]Op{}, pre...), cs.Ops...)
							cs.Wait = true
							return emit(cs)
						}) {
							return
						}
					}
				}, exec),
			mc.Cases("populations", mc.Opts{Bound: "populations of every size 0..70 and 100,127..130,255..258,500,511..514,1000,1023..1026,2049 spread over 1..3 namespaces and clusters; then modify every third, delete every second, reset one cluster, add again", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					var sizes []int
					for i := 0; i <= 70; i++ {
						sizes = append(sizes, i)
					}
					sizes = append(sizes, 100, 127, 128, 129, 130, 255, 256, 257, 258, 500, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2049)
					if c.Thorough() {
						sizes = append(sizes, 4097, 8193, 10001)
					}
					for _, n := range sizes {
						for spread := 1; spread <= 3; spread++ {
							var cs Case
							for i := 0; i < n; i++ {
								cs.Keys = append(cs.Keys, Key{"pods", fmt.Sprintf("c%d", i%spread), fmt.Sprintf("n%d", (i/2)%spread), fmt.Sprintf("o%d", i)})
							}
							cs.Keys = append(cs.Keys, Key{"pods", "c0", "n0", "never"})
							for i := 0; i < n; i++ {
								cs.Ops = append(cs.Ops, Op{"a", cs.Keys[i], 1})
							}
							cs.Ops = append(cs.Ops, Op{"m", Key{"pods", "c0", "n0", "never"}, 3})
							for i := 0; i < n; i += 3 {
								cs.Ops = append(cs.Ops, Op{"m", cs.Keys[i], 2})
							}
							if !emit(cs) {
								return
							}
							d := Case{Keys: cs.Keys, Ops: append([]Op{}, cs.Ops...)}
							for i := 0; i < n; i += 2 {
								d.Ops = append(d.Ops, Op{"d", cs.Keys[i], 2})
							}
							if !emit(d) {
								return
							}
							e := Case{Keys: cs.Keys, Ops: append(append([]Op{}, d.Ops...), Op{"r", Key{T: "pods", C: "c0"}, 0})}
							if !emit(e) {
								return
							}
							if n > 0 {
								f := Case{Keys: cs.Keys, Ops: append(append([]Op{}, e.Ops...), Op{"a", cs.Keys[0], 7}, Op{"m", cs.Keys[n-1], 8})}
								if !emit(f) {
									return
								}
							}
						}
					}
				}, exec),
		},
	})
}
