// C23: table output shows every object under the right columns.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
	"sync"
	"time"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// extra index keys a configuration may add.
var keys = []string{"a", "k", "zz", "Cluster", "cluster2", "created_at", "nam", "labels", "A", "0", "names", "clus ter", "名", "is_deleted2", ""}

var specs = []gen.Spec{
	{C: "c1", N: "n1", O: "o1", L: map[string]string{"a": "1"}, K: map[string]string{"a": "va", "k": "3", "zz": "vz", "Cluster": "vC", "labels": "vl", "nam": "x"}},
	{C: "c1", N: "n1", O: "o2", L: map[string]string{"a": "2"}, K: map[string]string{"a": "", "k": "1", "zz": "c1", "A": "o1", "0": "n1"}, Del: true},
	{C: "c1", N: "n2", O: "o1", K: map[string]string{"k": "2", "a": `q"\`, "names": "é <&>\n"}},
	{C: "c2", N: "n1", O: "o1", L: map[string]string{"a": "1"}, K: map[string]string{"k": "5", "a": "other", "cluster2": "x"}},
	{C: "c1", N: "", O: "scoped", L: map[string]string{"a": "1"}, K: map[string]string{"k": "4", "zz": "n"}},
	{C: "c2", N: "n2", O: "z", K: nil},
	{C: "c1", N: "n1", O: "n1", K: map[string]string{"k": "0", "a": "cluster", "zz": "namespace"}},
}

// form of a list request.
type form struct {
	ns, sel string
	q       page.Paginate
	cl      []string
	bad     bool // refused
}

var forms = []form{
	{}, {ns: "n1"}, {cl: []string{"c1", "c2"}}, {cl: []string{"c2"}}, {sel: "a=1"}, {sel: "a", cl: []string{"c1", "c2"}},
	{q: page.Paginate{Sort: "k desc"}}, {q: page.Paginate{Sort: "k!int", Search: "o"}, cl: []string{"c1", "c2"}}, {q: page.Paginate{Page: 1, PageSize: 1}}, {q: page.Paginate{Page: 2, PageSize: 1, Sort: "name desc"}, cl: []string{"c2", "c1"}},
	{q: page.Paginate{Search: "name=absent"}}, {q: page.Paginate{Search: "is_deleted=\"true\""}}, {sel: "!a"}, {sel: "a=1", q: page.Paginate{Page: 1, PageSize: 2}}, {ns: "absent"},
	{q: page.Paginate{Page: 9, PageSize: 3}, bad: true}, {q: page.Paginate{Sort: "nosuch"}, bad: true}, {q: page.Paginate{Search: "nosuch=1"}, bad: true}, {q: page.Paginate{Page: -1, PageSize: 3}, bad: true},
}

var accepts = []string{"application/json;as=Table", "application/json;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1beta1;g=meta.k8s.io,application/json", "application/vnd.kubernetes.protobuf;as=Table;v=v1;g=meta.k8s.io,application/json;as=Table;v=v1;g=meta.k8s.io,application/json"}

type Case struct {
	Keys   []int
	Objs   []int // in order of arrival
	Mod    bool  `json:",omitempty"` // every object is first reported with other values
	Custom bool  `json:",omitempty"`
	Conf   int   `json:",omitempty"` // what the configuration says about the built-in indexes
	Forms  []int `json:",omitempty"` // nil: all
}

func conf(t Case) map[string]string {
	m := map[string]string{}
	if t.Conf == 0 || t.Conf == 2 {
		m["namespace"], m["name"] = "{.metadata.namespace}", "{.metadata.name}"
	}
	if t.Conf == 2 { // the configuration says something else, the built-in meaning stays
		m["cluster"], m["is_deleted"], m["namespace"] = "{.metadata.name}", "maybe", "{.metadata.annotations.a}"
	}
	for i, k := range t.Keys {
		m[keys[k]] = fmt.Sprintf("{.metadata.annotations.x%d}", i)
	}
	return m
}

func config(idx map[string]string) common.Config {
	return common.Config{DefaultCluster: "c1", Proxies: []common.Proxy{
		world.Proxy("", "v1", "pods", "Pod", idx), world.Proxy("x.io", "v1", "widgets", "Widget", idx),
	}}
}

var pool = sync.Pool{}

// Large is a table of N rows, M further columns and one value of L bytes.
type Large struct{ N, M, L int }

// Word is an index key and a value.
type Word struct{ K, V string }

var words = []string{"status", "age", "created", "uid", "kind", "apiVersion", "type", "phase", "ready", "node", "ip", "id", "title", "annotations", "metadata", "spec", "object", "rows", "cells", "group", "version", "resource", "Name", "NAMESPACE", "is_Deleted", "deleted", "key", "value", "name ", " name", "cluster.name", "a/b", "x-y", "restartCount", "priority", "description", "format"}
var vals = []string{"true", "false", "null", "0", "1", "-1", "1.0", "1e5", "007", "<none>", "<unknown>", "{}", "[]", "{\"a\":1}", "[1,2]", "\"q\"", " ", " x ", "\t", "a\nb", "\u2028", "\x00", "2023-01-01T00:00:00Z", "%s", "%!d", "&amp;", "<a>", "名", "\U0001F600", "NaN", "9007199254740993", "c1", "n1", "o1", "a,b", "a;b", "=1", "nil", "map[]"}

func large(x *mc.X, t Large) error {
	var ks []string
	for i := 0; i < t.M; i++ {
		ks = append(ks, fmt.Sprintf("col%d", i))
	}
	var sp []gen.Spec
	for i := 0; i < t.N; i++ {
		s := gen.Spec{C: "c1", N: fmt.Sprintf("n%d", i%3), O: fmt.Sprintf("o%d", (i*7919)%t.N), L: map[string]string{"a": fmt.Sprint(i % 2)}, K: map[string]string{}}
		for j, k := range ks {
			s.K[k] = fmt.Sprintf("v%d-%d", i, j)
		}
		if i == t.N/2 && t.M > 0 && t.L > 0 {
			s.K[ks[t.M-1]] = strings.Repeat("x", t.L-1) + "y"
		}
		sp = append(sp, s)
	}
	return generic(x, ks, sp, []form{{}, {sel: "a=1"}, {q: page.Paginate{Sort: "name desc"}}, {q: page.Paginate{Page: 2, PageSize: int64(t.N+2) / 3}, bad: true}})
}

func word(x *mc.X, t Word) error {
	sp := []gen.Spec{{C: "c1", N: "n1", O: "o1", K: map[string]string{t.K: t.V}}, {C: "c1", N: "n1", O: "o2", K: map[string]string{t.K: "x"}}, {C: "c1", N: "n2", O: "o1", K: map[string]string{}}}
	return generic(x, []string{t.K}, sp, forms[:1])
}

// generic caches the objects with their K as index values and compares the tables of pods and widgets with the lists.
func generic(x *mc.X, ks []string, sp []gen.Spec, fs []form) error {
	idx := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}"}
	for i, k := range ks {
		idx[k] = fmt.Sprintf("{.metadata.annotations.x%d}", i)
	}
	cf := config(idx)
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Reset(cf)
	values := map[string]map[string]string{}
	for _, s := range sp {
		v := map[string]string{"cluster": s.C, "namespace": s.N, "name": s.O, "is_deleted": "false"}
		an := map[string]string{}
		for i, k := range ks {
			an[fmt.Sprintf("x%d", i)] = s.K[k]
			v[k] = s.K[k]
		}
		values[s.Key()] = v
		s.K = an
		gen.Fill(w.Store, []gen.Spec{s}, true, true)
	}
	for _, path := range []string{"/api/v1/pods", "/apis/x.io/v1/widgets"} {
		for fi, f := range fs {
			if err := compare(x, w, path, f, accepts[fi%3], values, ks); err != nil {
				return err
			}
		}
	}
	return nil
}

// place the values of the configured keys in annotations x0, x1...
func (t Case) spec(i int, alt bool) gen.Spec {
	s := specs[i]
	k := map[string]string{}
	for j, kk := range t.Keys {
		v := s.K[keys[kk]]
		if alt {
			v += "-old"
		}
		k[fmt.Sprintf("x%d", j)] = v
	}
	s.K = k
	return s
}

type table struct {
	Kind       string `json:"kind"`
	APIVersion string `json:"apiVersion"`
	Cols       []struct {
		Name string `json:"name"`
	} `json:"columnDefinitions"`
	Rows []struct {
		Cells []interface{} `json:"cells"`
	} `json:"rows"`
}

func exec(x *mc.X, t Case) error {
	cf := config(conf(t))
	w := pool.Get().(*world.World)
	defer pool.Put(w)
	w.Reset(cf)
	gvr, path := gen.Pods, "/api/v1/"
	if t.Custom {
		gvr, path = gen.Widgets, "/apis/x.io/v1/"
	}
	values := map[string]map[string]string{}
	for _, i := range t.Objs {
		add := func(s gen.Spec, f func(store.GroupVersionResource, string, interface{}) error) {
			var o interface{} = s.Pod()
			if t.Custom {
				o = s.Custom()
			}
			_ = f(gvr, s.C, o)
		}
		if t.Mod {
			add(t.spec(i, true), w.Store.OnResourceAdded)
			add(t.spec(i, false), w.Store.OnResourceModified)
		} else {
			add(t.spec(i, false), w.Store.OnResourceAdded)
		}
		s := specs[i]
		v := map[string]string{"cluster": s.C, "namespace": s.N, "name": s.O, "is_deleted": fmt.Sprint(s.Del)}
		for _, k := range t.Keys {
			v[keys[k]] = s.K[keys[k]]
		}
		values[s.Key()] = v
	}
	var ks []string
	for _, k := range t.Keys {
		ks = append(ks, keys[k])
	}
	fs := t.Forms
	if fs == nil {
		for i := range forms {
			fs = append(fs, i)
		}
	}
	for _, fi := range fs {
		f := forms[fi]
		if err := compare(x, w, path+gvr.Resource, f, accepts[fi%3], values, ks); err != nil {
			return err
		}
	}
	return nil
}

// compare requests a list plainly and as a table.
func compare(x *mc.X, w *world.World, p string, f form, acc string, values map[string]map[string]string, ks []string) error {
	q := f.q
	if f.cl != nil {
		if err := q.Clusters(f.cl); err != nil {
			return err
		}
	}
	sel := f.sel
	if e := gen.Encode(q); e != "" {
		if sel != "" {
			sel += ","
		}
		sel += e
	}
	if f.ns != "" {
		i := strings.LastIndex(p, "/")
		p = p[:i] + "/namespaces/" + f.ns + p[i:]
	}
	var uq url.Values
	if sel != "" {
		uq = url.Values{"labelSelector": {sel}}
	}
	plain := w.Get(p, uq)
	tab := w.Do(world.Req("GET", p, uq, "", "Accept", acc))
	x.Step(2)
	what := fmt.Sprintf("GET %s selector %q", p, sel)
	if plain.Code != tab.Code {
		return fmt.Errorf("%s: plain list has status %d, table %d: %.200s", what, plain.Code, tab.Code, tab.Body)
	}
	if plain.Code != 200 {
		x.Outcome(fmt.Sprint(plain.Code))
		return nil
	}
	_, items, err := world.ParseList(plain)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	var tb table
	if err := json.Unmarshal(tab.Body, &tb); err != nil || tb.Kind != "Table" {
		return fmt.Errorf("%s: not a table: %v %.200s", what, err, tab.Body)
	}
	if len(tb.Rows) != len(items) {
		return fmt.Errorf("%s: %d rows for %d objects", what, len(tb.Rows), len(items))
	}
	if len(items) == 0 {
		x.Outcome("empty")
		return nil
	}
	var cols []string
	seen := map[string]bool{}
	for _, c := range tb.Cols {
		if seen[c.Name] {
			return fmt.Errorf("%s: column %q appears twice", what, c.Name)
		}
		seen[c.Name] = true
		cols = append(cols, c.Name)
	}
	if len(cols) < 3 || strings.Join(cols[:3], ",") != "cluster,namespace,name" {
		return fmt.Errorf("%s: columns are %q", what, cols)
	}
	for i, it := range items {
		v := values[it.Key()]
		if v == nil {
			return fmt.Errorf("%s: unknown object %s", what, it.Key())
		}
		for _, k := range ks {
			if !seen[k] {
				return fmt.Errorf("%s: no column for index %q: %q", what, k, cols)
			}
		}
		if len(tb.Rows[i].Cells) != len(cols) {
			return fmt.Errorf("%s: row %d has %d cells for %d columns", what, i, len(tb.Rows[i].Cells), len(cols))
		}
		for j, c := range cols {
			want, ok := v[c]
			if !ok {
				return fmt.Errorf("%s: column %q is no index", what, c)
			}
			if got, ok := tb.Rows[i].Cells[j].(string); !ok || got != want {
				return fmt.Errorf("%s: row %d (%s) column %q holds %v, its index value is %q", what, i, it.Key(), c, tb.Rows[i].Cells[j], want)
			}
		}
	}
	x.Outcome(fmt.Sprint(cols, world.Keys(items)))
	x.State(string(tab.Body))
	return nil
}

func main() {
	setup := func(*mc.Ctx) {
		c := config(nil)
		common.InitConfig(&c)
		pool = sync.Pool{New: func() any { return world.New(config(nil), "c1", "c2") }}
		pool.Put(pool.New())
	}
	sets := func(n, k int, emit func([]int) bool) bool { // ordered
		var rec func(s []int) bool
		rec = func(s []int) bool {
			if !emit(append([]int{}, s...)) {
				return false
			}
			if len(s) == k {
				return true
			}
			for i := 0; i < n; i++ {
				dup := false
				for _, j := range s {
					dup = dup || i == j
				}
				if !dup && !rec(append(s, i)) {
					return false
				}
			}
			return true
		}
		return rec(nil)
	}
	every := []int{0, 1, 2, 3, 4, 5, 6}
	mc.Main(mc.Def{ID: "C23",
		Oracle: "the plain list of the same request gives the rows; the index values of the reported objects give the cells",
		Quick:  100 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("columns", mc.Opts{Bound: fmt.Sprintf("all sets of up to 3 (thorough 5) of %d further index keys, in 3 configurations of the built-in ones, 7 objects, %d list forms", len(keys), len(forms)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					var rec func(from int, s []int) bool
					rec = func(from int, s []int) bool {
						for cf := 0; cf < 3; cf++ {
							if !emit(Case{Keys: append([]int{}, s...), Objs: every, Conf: cf, Custom: len(s)%2 == cf%2}) {
								return false
							}
						}
						if len(s) == mc.Pick(c, 3, 5) {
							return true
						}
						for i := from; i < len(keys); i++ {
							if !rec(i+1, append(s, i)) {
								return false
							}
						}
						return true
					}
					rec(0, nil)
				}, exec),
			mc.Cases("words", mc.Opts{Bound: fmt.Sprintf("%d further index keys and %d unusual values, singly and (thorough) in pairs", len(words), len(vals)), Setup: setup},
				func(c *mc.Ctx, emit func(Word) bool) {
					for i, k := range words {
						for j, v := range vals {
							if (c.Thorough() || i == 0 || j == i%len(vals)) && !emit(Word{k, v}) {
								return
							}
						}
					}
				}, word),
			mc.Cases("large", mc.Opts{Bound: "tables of up to 1025 (thorough 5001) rows, up to 65 (129) further columns, values up to 256 KiB", Setup: setup},
				func(c *mc.Ctx, emit func(Large) bool) {
					ns := []int{8, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 249, 250, 251, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025}
					if c.Thorough() {
						ns = append(ns, 2000, 2001, 2048, 2049, 4096, 4097, 5000, 5001)
					}
					for _, n := range ns {
						if !emit(Large{n, 2, 0}) {
							return
						}
					}
					for m := 4; m <= mc.Pick(c, 65, 129); m++ {
						if !emit(Large{3, m, 0}) {
							return
						}
					}
					for _, l := range []int{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 262144, 262145} {
						for _, m := range []int{1, 3} {
							if !emit(Large{3, m, l}) {
								return
							}
						}
					}
				}, large),
			mc.Cases("rows", mc.Opts{Bound: fmt.Sprintf("all sequences of up to 3 (thorough 5) of 7 objects, built-in and custom type, new or modified, %d list forms", len(forms)), Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					sets(len(specs), mc.Pick(c, 3, 5), func(s []int) bool {
						for m := 0; m < 4; m++ {
							if !emit(Case{Keys: []int{0, 1, 2, 6}, Objs: s, Mod: m&1 == 1, Custom: m&2 == 2}) {
								return false
							}
						}
						return true
					})
				}, exec),
		},
	})
}
