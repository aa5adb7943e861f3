// C11: a request only sees the clusters it asked for.
package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

var names = []string{"c1", "c2", "c", "c11", "C1", "c-1", "c.1", "c_1", "default", "1", "kubernetes-admin@kubernetes", "admin@k", "名字", "a;b", "a;;b", ";", "a=b", "=", "!x", "x", "a,b", "a b", " a", "a ", "in (c1)", "c1)", `q"q`, `"`, `"c1"`, `\`, "<none>", "__ckube_as__:cluster in (c1)", "arn:aws:eks:eu-1:1:cluster/x", "a/b", "%41", "a+b", "a&b=c", "-c", "c-", "null", "*",
	strings.Repeat("l", 63), strings.Repeat("l", 64), strings.Repeat("l", 300), "\t", "dsm-cluster-c1", "cluster", "m1", "o1", "m1/o1", "..", "e\u0301", "\u00e9", "c1;cluster", "__ckube_as__:", "__ckube_as__:cluster in (a,b)"}

// Case: the server's default cluster is D; the request asks for Q (nil: nothing).
type Case struct {
	D    int
	Q    []int  `json:",omitempty"`
	How  string // list forms below
	To   string `json:",omitempty"` // a cluster ckube does not know
	Cust bool   `json:",omitempty"`
}

var cur int // default cluster of the running server
var w *world.World

func specs() []gen.Spec {
	var r []gen.Spec
	for i, c := range names {
		for _, ns := range []string{"m1", "m2", ""} {
			for o := 0; o < 2; o++ {
				r = append(r, gen.Spec{C: c, N: ns, O: fmt.Sprintf("o%d", o), L: map[string]string{"a": fmt.Sprint(o)}, K: map[string]string{"k": fmt.Sprint(o), "id": fmt.Sprint(i)}})
			}
		}
		// something only this cluster has
		r = append(r, gen.Spec{C: c, N: "m1", O: fmt.Sprintf("only%d", i), L: map[string]string{"a": "x"}, K: map[string]string{"k": "x", "id": fmt.Sprint(i)}})
	}
	return r
}

func server(d int) {
	w = world.New(gen.Config(names[d], "k", "id"), names...)
	gen.Fill(w.Store, specs(), true, true)
	cur = d
}

// forms of list requests: what besides the cluster is asked for
var forms = []struct {
	name, ns, sel, search, sort string
	page, size                  int64
	ok                          func(s gen.Spec) bool
}{
	{name: "all", ok: func(s gen.Spec) bool { return true }},
	{name: "ns", ns: "m1", ok: func(s gen.Spec) bool { return s.N == "m1" }},
	{name: "label", sel: "a=1", ok: func(s gen.Spec) bool { return s.L["a"] == "1" }},
	{name: "label ns", ns: "m2", sel: "a!=1", ok: func(s gen.Spec) bool { return s.N == "m2" && s.L["a"] != "1" }},
	{name: "search", search: "k=1", ok: func(s gen.Spec) bool { return s.K["k"] == "1" }},
	{name: "search neg", search: "k=!1;!nothing", ok: func(s gen.Spec) bool { return s.K["k"] != "1" }},
	{name: "adv", search: "__ckube_as__:k in (0,x)", ok: func(s gen.Spec) bool { return s.K["k"] != "1" }},
	{name: "sort", sort: "k desc,name", ok: func(s gen.Spec) bool { return true }},
	{name: "page", page: 1, size: 1000, ok: func(s gen.Spec) bool { return true }},
	{name: "label page", sel: "a", page: 1, size: 1000, ns: "m1", ok: func(s gen.Spec) bool { return s.N == "m1" }},
	{name: "other cluster by search", search: `cluster="c2"`, ok: func(s gen.Spec) bool { return s.C == "c2" }},
	{name: "not this cluster by search", search: "cluster=!zzz;k=0", ok: func(s gen.Spec) bool { return s.K["k"] == "0" }},
	{name: "label search page sort", sel: "a in (0,1)", search: "k=0;;;k=!x", sort: "k", page: 1, size: 500, ok: func(s gen.Spec) bool { return false }},
}

func exec(x *mc.X, c Case) error {
	if cur != c.D {
		server(c.D)
	}
	x.Step(1)
	x.State(mc.J(c))
	p := "/api/v1/"
	typ := "pods"
	if c.Cust {
		p, typ = "/apis/x.io/v1/", "widgets"
	}
	if c.To != "" {
		return unknown(x, c, p, typ)
	}
	if strings.HasPrefix(c.How, "get ") {
		// single object of the addressed cluster
		t := c.D
		f := strings.Fields(c.How)
		pth := p + "namespaces/m1/" + typ + "/" + f[1]
		if f[1] == "scoped" {
			pth = p + typ + "/o1"
		}
		q := url.Values{}
		if len(c.Q) > 0 {
			t = c.Q[0]
			o, err := page.QueryGetOptions(metav1.GetOptions{}, names[t])
			if err != nil {
				return err
			}
			q.Set("resourceVersion", o.ResourceVersion)
		}
		r := w.Get(pth, q)
		exists := f[1] == "o1" || f[1] == "scoped" || f[1] == fmt.Sprintf("only%d", t)
		if !exists {
			if r.Code != 404 {
				return fmt.Errorf("%s of cluster %q: status %d %s", pth, names[t], r.Code, r.Body)
			}
		} else {
			var it world.Item
			if r.Code != 200 || json.Unmarshal(r.Body, &it) != nil {
				return fmt.Errorf("%s of cluster %q: status %d %s", pth, names[t], r.Code, r.Body)
			}
			if it.Metadata.Annotations["id"] != fmt.Sprint(t) || it.Metadata.Annotations["ckube.doacloud.io/cluster"] != names[t] {
				return fmt.Errorf("%s of cluster %q: got the object of cluster %q", pth, names[t], it.Metadata.Annotations["ckube.doacloud.io/cluster"])
			}
		}
		if up := w.Taken(); len(up) > 0 {
			return fmt.Errorf("contacted %v", up)
		}
		x.Outcome(fmt.Sprint(r.Code))
		return nil
	}
	var f = forms[0]
	for _, g := range forms {
		if g.name == c.How {
			f = g
		}
	}
	pg := page.Paginate{Page: f.page, PageSize: f.size, Search: f.search, Sort: f.sort}
	want := map[int]bool{c.D: true}
	if len(c.Q) > 0 {
		want = map[int]bool{}
		var cs []string
		for _, i := range c.Q {
			want[i] = true
			cs = append(cs, names[i])
		}
		if err := pg.Clusters(cs); err != nil {
			return nil // such names can not be asked for, C06 decides that nothing else happens
		}
	}
	lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: f.sel}, pg)
	if err != nil {
		return err
	}
	if f.ns != "" {
		p += "namespaces/" + f.ns + "/"
	}
	q := url.Values{}
	if lo.LabelSelector != "" {
		q.Set("labelSelector", lo.LabelSelector)
	}
	r := w.Get(p+typ, q)
	_, items, err := world.ParseList(r)
	if err != nil {
		return fmt.Errorf("default %q asked %v: %v", names[c.D], pg, err)
	}
	var got, exp []string
	for _, it := range items {
		got = append(got, it.Metadata.Annotations["id"]+"/"+it.Metadata.Namespace+"/"+it.Metadata.Name)
	}
	for _, s := range all {
		var i int
		fmt.Sscan(s.K["id"], &i)
		if want[i] && f.ok(s) {
			exp = append(exp, s.K["id"]+"/"+s.N+"/"+s.O)
		}
	}
	sort.Strings(got)
	sort.Strings(exp)
	if strings.Join(got, " ") != strings.Join(exp, " ") {
		return fmt.Errorf("default %q, list %q of clusters %v (search %q) gives\n  %v\nwant\n  %v (numbers are positions in the list of names)", names[c.D], c.How, c.Q, pg.Search, got, exp)
	}
	if up := w.Taken(); len(up) > 0 {
		return fmt.Errorf("contacted %v", up)
	}
	x.Outcome(strings.Join(got, " "))
	x.Sample(map[string]interface{}{"default": names[c.D], "how": c.How, "search": pg.Search, "items": len(got)})
	return nil
}

// unknown: nothing is found in clusters that do not exist.
func unknown(x *mc.X, c Case, p, typ string) error {
	o, err := page.QueryGetOptions(metav1.GetOptions{}, c.To)
	if err != nil {
		return err
	}
	for _, pth := range []string{p + "namespaces/m1/" + typ + "/o1", p + typ + "/o1", p + "namespaces/m1/" + typ + fmt.Sprintf("/only%d", c.D), p + "namespaces/m1/" + typ + "/nothing"} {
		r := w.Get(pth, url.Values{"resourceVersion": {o.ResourceVersion}})
		if r.Code != 404 {
			return fmt.Errorf("%s of the unknown cluster %q: status %d %s", pth, c.To, r.Code, r.Body)
		}
		x.Step(1)
	}
	if err := new(page.Paginate).Clusters([]string{c.To}); err == nil {
		for _, with := range []string{"", "c2"} {
			pg := page.Paginate{}
			_ = pg.Clusters(strings.Fields(c.To + " " + with))
			for _, f := range forms[:4] {
				lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: f.sel}, pg)
				if err != nil {
					return err
				}
				q := p + typ
				if f.ns != "" {
					q = p + "namespaces/" + f.ns + "/" + typ
				}
				_, items, err := world.ParseList(w.Get(q, url.Values{"labelSelector": {lo.LabelSelector}}))
				if err != nil {
					return fmt.Errorf("list of the unknown cluster %q: %v", c.To, err)
				}
				n := 0
				for _, s := range all {
					if s.C == with && f.ok(s) {
						n++
					}
				}
				for _, it := range items {
					if it.Metadata.Annotations["ckube.doacloud.io/cluster"] != with {
						return fmt.Errorf("list %q of the unknown cluster %q and %q has an object of cluster %q", f.name, c.To, with, it.Metadata.Annotations["ckube.doacloud.io/cluster"])
					}
				}
				if len(items) != n {
					return fmt.Errorf("list %q of the unknown cluster %q and %q has %d objects, want %d", f.name, c.To, with, len(items), n)
				}
				x.Step(1)
			}
		}
	}
	if up := w.Taken(); len(up) > 0 {
		return fmt.Errorf("contacted %v", up)
	}
	x.Outcome("unknown " + c.To)
	return nil
}

var all = specs()

func main() {
	cur = -1
	mc.Main(mc.Def{
		ID:     "C11",
		Oracle: "set of (cluster, namespace, name) triples that carry their origin in an own annotation",
		Assume: []string{"clusters whose name is no label value can only be addressed as the default cluster or by the markers of single-object requests"},
		Families: []mc.Family{
			mc.Cases("default", mc.Opts{Bound: "each of 56 cluster names as default, all 56 clusters populated alike, 13 list forms and 4 single reads, typed and custom", Workers: 1},
				func(c *mc.Ctx, emit func(Case) bool) {
					for d := range names {
						for _, cu := range []bool{false, true} {
							for _, f := range forms {
								if !emit(Case{D: d, How: f.name, Cust: cu}) {
									return
								}
							}
							for _, g := range []string{"o1", "scoped", fmt.Sprintf("only%d", d), fmt.Sprintf("only%d", (d+1)%len(names)), "nothing"} {
								if !emit(Case{D: d, How: "get " + g, Cust: cu}) {
									return
								}
							}
						}
					}
				}, exec),
			asked("asked", 0), asked("asked-odd-default", 10), sets(), alone(),
			mc.Cases("unknown", mc.Opts{Bound: "defaults c1, default and one that is no label value; 14 names of clusters that do not exist, in 4 single reads and 4 list forms, alone and with a known one", Workers: 1},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, d := range []int{0, 8, 10} {
						for _, to := range []string{"nowhere", "c3", "c12", "C2", "c1x", "xc1", "c1-", "Default", "defaul", "kubernetes-admin", "no where", "c1/..", "m1/o2", "dsm-cluster"} {
							for _, cu := range []bool{false, true} {
								if !emit(Case{D: d, To: to, Cust: cu}) {
									return
								}
							}
						}
					}
				}, exec),
		},
	})
}

// asked: requests for other clusters than the default one.
func asked(name string, d int) mc.Family {
	return mc.Cases(name, mc.Opts{Bound: fmt.Sprintf("default %s, every name and every pair of the plain names asked for (quick: every third form), 13 list forms; single reads addressed to every name", names[d]), Setup: func(*mc.Ctx) { server(d) }},
		func(c *mc.Ctx, emit func(Case) bool) {
			plain := []int{}
			for i, n := range names {
				if (&page.Paginate{}).Clusters([]string{n}) == nil {
					plain = append(plain, i)
				}
			}
			for i := range names {
				for _, g := range []string{"o1", "scoped", fmt.Sprintf("only%d", i), fmt.Sprintf("only%d", d), "nothing"} {
					for _, cu := range []bool{false, true} {
						if !emit(Case{D: d, Q: []int{i}, How: "get " + g, Cust: cu}) {
							return
						}
					}
				}
				for _, f := range forms {
					if !emit(Case{D: d, Q: []int{i}, How: f.name, Cust: i%2 == 0}) {
						return
					}
				}
			}
			for _, a := range plain {
				for _, b := range plain {
					for k, f := range forms {
						if (a+b+k)%mc.Pick(c, 3, 1) == 0 && !emit(Case{D: d, Q: []int{a, b}, How: f.name, Cust: (a+b)%2 == 0}) {
							return
						}
					}
				}
			}
		}, exec)
}

// sets: requests for many clusters.
func sets() mc.Family {
	return mc.Cases("sets", mc.Opts{Bound: "default c1: every subset of 8 (thorough 11) plain names, also in reverse order and with one name twice, every run of 3 and more of all plain names; quick 3, thorough 13 list forms each", Setup: func(*mc.Ctx) { server(0) }},
		func(c *mc.Ctx, emit func(Case) bool) {
			plain := []int{}
			for i, n := range names {
				if (&page.Paginate{}).Clusters([]string{n}) == nil {
					plain = append(plain, i)
				}
			}
			k := 0
			one := func(q []int) bool {
				for i := 0; i < len(forms); i++ {
					if (i+k)%mc.Pick(c, 5, 1) == 0 && !emit(Case{D: 0, Q: append([]int(nil), q...), How: forms[i].name, Cust: k%2 == 0}) {
						return false
					}
				}
				k++
				return true
			}
			n := mc.Pick(c, 8, 11)
			for m := 1; m < 1<<n; m++ {
				var q, r []int
				for i := 0; i < n; i++ {
					if m>>i&1 == 1 {
						q, r = append(q, plain[i]), append([]int{plain[i]}, r...)
					}
				}
				if !one(q) || !one(r) || !one(append(q, q[0])) {
					return
				}
			}
			for i := range plain {
				for j := i + 3; j <= len(plain); j++ {
					if !one(plain[i:j]) {
						return
					}
				}
			}
		}, exec)
}

// Alone: only some clusters (of 3, a bit set) have objects, of one namespace or several, or had them.
type Alone struct {
	Pop, Gone, Def, Ask int
	Cust                bool `json:",omitempty"`
}

// alone: requests for clusters that have nothing.
func alone() mc.Family {
	cl := []string{"c1", "c2", "c3"}
	worlds := map[[4]int]*world.World{}
	return mc.Cases("alone", mc.Opts{Bound: "every non-empty set of 3 clusters populated, and of the others every set populated before (1 or 2 objects, removed or reset); each default and each one asked for: 4 single reads and lists with and without namespace and selector", Workers: 1},
		func(c *mc.Ctx, emit func(Alone) bool) {
			for pop := 0; pop < 8; pop++ {
				for gone := 0; gone < 27; gone++ {
					for def := range cl {
						for ask := -1; ask < len(cl); ask++ {
							for _, cu := range []bool{false, true} {
								if !emit(Alone{pop, gone, def, ask, cu}) {
									return
								}
							}
						}
					}
				}
			}
		}, func(x *mc.X, c Alone) error {
			k := [4]int{c.Pop, c.Gone, c.Def, 0}
			v := worlds[k]
			if v == nil {
				v = world.New(gen.Config(cl[c.Def], "k", "id"), cl...)
				gone := c.Gone
				for i, n := range cl {
					ss := []gen.Spec{{C: n, N: "m1", O: "o1", L: map[string]string{"a": "1"}, K: map[string]string{"k": "1", "id": n}}, {C: n, N: "m2", O: "o1", K: map[string]string{"id": n}}, {C: n, N: "", O: "o1", K: map[string]string{"id": n}}}
					how := gone % 3
					gone /= 3
					if c.Pop>>i&1 == 1 {
						gen.Fill(v.Store, ss, true, true)
						continue
					}
					if how == 0 {
						continue
					}
					gen.Fill(v.Store, ss, true, true)
					for _, t := range []store.GroupVersionResource{{Version: "v1", Resource: "pods"}, {Group: "x.io", Version: "v1", Resource: "widgets"}} {
						if how == 1 {
							_ = v.Store.Clean(t, n)
							continue
						}
						for _, s := range ss {
							if t.Group == "" {
								_ = v.Store.OnResourceDeleted(t, n, s.Pod())
							} else {
								_ = v.Store.OnResourceDeleted(t, n, s.Custom())
							}
						}
					}
				}
				if len(worlds) > 50 {
					worlds = map[[4]int]*world.World{}
				}
				worlds[k] = v
			}
			cur = -1
			conf := gen.Config(cl[c.Def], "k", "id")
			common.InitConfig(&conf)
			x.State(mc.J(c))
			p, typ := "/api/v1/", "pods"
			if c.Cust {
				p, typ = "/apis/x.io/v1/", "widgets"
			}
			t := c.Def
			q := url.Values{}
			pg := page.Paginate{}
			if c.Ask >= 0 {
				t = c.Ask
				o, err := page.QueryGetOptions(metav1.GetOptions{}, cl[t])
				if err != nil {
					return err
				}
				q.Set("resourceVersion", o.ResourceVersion)
				if err := pg.Clusters([]string{cl[t]}); err != nil {
					return err
				}
			}
			has := c.Pop>>t&1 == 1
			for _, g := range []string{"namespaces/m1/" + typ + "/o1", typ + "/o1", "namespaces/m2/" + typ + "/o1", "namespaces/m3/" + typ + "/o1"} {
				x.Step(1)
				r := v.Get(p+g, q)
				if !has || strings.Contains(g, "m3") {
					if r.Code != 404 {
						return fmt.Errorf("%s of cluster %s: status %d %s", g, cl[t], r.Code, r.Body)
					}
					continue
				}
				var it world.Item
				if r.Code != 200 || json.Unmarshal(r.Body, &it) != nil || it.Metadata.Annotations["id"] != cl[t] {
					return fmt.Errorf("%s of cluster %s: status %d %s", g, cl[t], r.Code, r.Body)
				}
			}
			for ns, all := range map[string]int{"": 3, "namespaces/m1/": 1, "namespaces/m2/": 1} {
				for _, sel := range []string{"", "a=1"} {
					x.Step(1)
					lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: sel}, pg)
					if err != nil {
						return err
					}
					_, items, err := world.ParseList(v.Get(p+ns+typ, url.Values{"labelSelector": {lo.LabelSelector}}))
					if err != nil {
						return err
					}
					n := 0
					if has {
						n = all
						if sel != "" {
							n = 1
							if strings.Contains(ns, "m2") {
								n = 0
							}
						}
					}
					if len(items) != n {
						return fmt.Errorf("list %s%s %q of cluster %s: %d objects, want %d", ns, typ, sel, cl[t], len(items), n)
					}
					for _, it := range items {
						if it.Metadata.Annotations["id"] != cl[t] {
							return fmt.Errorf("list %s%s of cluster %s has an object of cluster %s", ns, typ, cl[t], it.Metadata.Annotations["id"])
						}
					}
				}
			}
			if up := v.Taken(); len(up) > 0 {
				return fmt.Errorf("contacted %v", up)
			}
			x.Outcome(fmt.Sprint(has))
			return nil
		})
}
