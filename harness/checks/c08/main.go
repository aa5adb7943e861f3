// C08: pages partition the selection and totals add up.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"strings"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

var (
	cfg    = gen.Config("c1", "k")
	worlds map[int]*world.World
)

// setup makes one server per population size. Objects in c1/m1 are alternately labelled a=1/a=2, and
// there are some objects in another namespace and another cluster.
func setup(c *mc.Ctx) {
	base := world.New(cfg, "c1", "c2")
	worlds = map[int]*world.World{}
	sizes := []int{}
	for n := 0; n <= 14; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range append(append(sizes, 30, 99, 100, 101), large...) {
		w := base.Fork(cfg)
		var specs []gen.Spec
		for i := 0; i < n; i++ {
			j := (i*37 + 11) % n // not in the order of the names
			if n%37 == 0 {
				j = i
			}
			specs = append(specs, gen.Spec{C: "c1", N: "m1", O: fmt.Sprintf("o%05d", j), L: map[string]string{"a": fmt.Sprint(j%2 + 1), "all": "y"}, K: map[string]string{"k": fmt.Sprint(j % 3)}})
		}
		for i := 0; i < 3; i++ {
			specs = append(specs, gen.Spec{C: "c1", N: "m2", O: fmt.Sprintf("p%d", i), L: map[string]string{"a": "9"}, K: map[string]string{"k": "p"}},
				gen.Spec{C: "c2", N: "m1", O: fmt.Sprintf("q%d", i), L: map[string]string{"a": "1", "all": "y"}, K: map[string]string{"k": "q"}})
		}
		gen.Fill(w.Store, specs, true, true)
		worlds[n] = w
	}
}

// The selections: what restricts the n objects of c1/m1.
var sels = []struct {
	name, sel, search, sort string
	ns                      bool
	ok                      func(j int) bool
}{
	{name: "ns", ns: true, ok: func(j int) bool { return true }},
	{name: "label", sel: "all=y", ok: func(j int) bool { return true }},
	{name: "label half", sel: "a in (2)", ns: true, ok: func(j int) bool { return j%2 == 1 }},
	{name: "search", search: "k=0", ns: true, ok: func(j int) bool { return j%3 == 0 }},
	{name: "none", search: `name="nothing"`, ns: true, ok: func(j int) bool { return false }},
	{name: "label none", sel: "a=none", ok: func(j int) bool { return false }},
	{name: "sort", sort: "k!int desc", ns: true, search: "namespace=m1", ok: func(j int) bool { return true }},
	{name: "label sort", sort: "k desc, name desc", sel: "!none,a!=9", ok: func(j int) bool { return true }},
	{name: "label and search", sel: "all", search: "k=!1", ok: func(j int) bool { return j%3 != 1 }},
	{name: "adv", search: "__ckube_as__:k in (0,2)", ns: true, ok: func(j int) bool { return j%3 != 1 }},
}

// large populations: around what a server may take for too much.
var large = []int{257, 501, 1025, 2501}

type Case struct {
	N, Sel     int
	Page, Size int64
	Cust       bool `json:",omitempty"`
	NoKey      bool `json:",omitempty"` // leave zero fields out of the JSON (as the client does) or write them
	Store      bool `json:",omitempty"` // query the store directly
}

func order(n, sel int) []string {
	s := sels[sel]
	var js []int
	for j := 0; j < n; j++ {
		if s.ok(j) {
			js = append(js, j)
		}
	}
	var r []string
	add := func(j int) { r = append(r, fmt.Sprintf("c1/m1/o%05d", j)) }
	switch s.sort {
	case "":
		for _, j := range js {
			add(j)
		}
	case "k!int desc":
		for k := 2; k >= 0; k-- {
			for _, j := range js {
				if j%3 == k {
					add(j)
				}
			}
		}
	default:
		for k := 2; k >= 0; k-- {
			for i := len(js) - 1; i >= 0; i-- {
				if js[i]%3 == k {
					add(js[i])
				}
			}
		}
	}
	return r
}

func path(cust, ns bool) string {
	p := "/api/v1/"
	if cust {
		p = "/apis/x.io/v1/"
	}
	if ns {
		p += "namespaces/m1/"
	}
	if cust {
		return p + "widgets"
	}
	return p + "pods"
}

func selector(c Case) string {
	s := sels[c.Sel]
	pg := page.Paginate{Page: c.Page, PageSize: c.Size, Sort: s.sort, Search: s.search}
	sel := gen.Encode(pg)
	if c.NoKey {
		sel = encodeFull(pg)
	}
	if s.sel != "" {
		if sel != "" {
			sel += ","
		}
		sel += s.sel
	}
	return sel
}

func exec(x *mc.X, c Case) error {
	s := sels[c.Sel]
	all := order(c.N, c.Sel)
	x.State(fmt.Sprint(len(all), c.Page, c.Size, c.Sel))
	x.Step(1)
	w := worlds[c.N]
	if c.Store {
		if s.sel != "" {
			return nil
		}
		g := gen.Pods
		if c.Cust {
			g = gen.Widgets
		}
		res := w.Store.Query(g, store.Query{Namespace: "m1", Paginate: page.Paginate{Page: c.Page, PageSize: c.Size, Sort: s.sort, Search: join(s.search, `cluster="c1"`)}})
		if c.Page < 0 || c.Size < 0 {
			if res.Error == nil {
				return fmt.Errorf("negative page or size accepted")
			}
			return nil
		}
		if res.Error != nil {
			return fmt.Errorf("query: %v", res.Error)
		}
		f, t := cut(len(all), c.Page, c.Size)
		if g, e := strings.Join(gen.Keys(res.Items), " "), strings.Join(all[f:t], " "); g != e {
			return fmt.Errorf("page %d size %d of %d: got %s want %s", c.Page, c.Size, len(all), g, e)
		}
		if int(res.Total) != len(all) {
			return fmt.Errorf("total %d want %d", res.Total, len(all))
		}
		return nil
	}
	q := url.Values{}
	if sl := selector(c); sl != "" {
		q.Set("labelSelector", sl)
	}
	r := w.Get(path(c.Cust, s.ns), q)
	x.Outcome(fmt.Sprint(r.Code, len(r.Body)))
	if c.Page < 0 || c.Size < 0 {
		if r.Code != 400 {
			return fmt.Errorf("negative page or size: status %d: %s", r.Code, r.Body)
		}
		return nil
	}
	f, t := cut(len(all), c.Page, c.Size)
	beyond := c.Page > 1 && c.Size > 0 && f >= len(all)
	if r.Code == 400 && beyond {
		return nil
	}
	l, items, err := world.ParseList(r)
	if err != nil {
		return fmt.Errorf("page %d size %d of %d: %v", c.Page, c.Size, len(all), err)
	}
	if g, e := strings.Join(world.Keys(items), " "), strings.Join(all[f:t], " "); g != e {
		return fmt.Errorf("page %d size %d of %d (%s): got [%s] want [%s]", c.Page, c.Size, len(all), s.name, g, e)
	}
	kind, av := "PodList", "v1"
	if c.Cust {
		kind, av = "WidgetList", "x.io/v1"
	}
	if l.Kind != kind || l.APIVersion != av {
		return fmt.Errorf("kind %q apiVersion %q", l.Kind, l.APIVersion)
	}
	rem, _ := l.Metadata["remainingItemCount"].(float64)
	if want := len(all) - t; int(rem) != want {
		return fmt.Errorf("page %d size %d of %d: remainingItemCount %v want %d", c.Page, c.Size, len(all), l.Metadata["remainingItemCount"], want)
	}
	if !c.Cust && !beyond {
		// the helper recovers the total from what a typed client decodes
		var pl corev1.PodList
		if err := json.Unmarshal(r.Body, &pl); err != nil {
			return err
		}
		in := page.Paginate{Page: c.Page, PageSize: c.Size, Sort: s.sort, Search: s.search}
		out := page.MakeupResPaginate(&pl, in)
		if out.Total != int64(len(all)) {
			return fmt.Errorf("page %d size %d of %d: helper total %d", c.Page, c.Size, len(all), out.Total)
		}
		out.Total = 0
		if out != in {
			return fmt.Errorf("helper changed the query: %+v", out)
		}
	}
	if len(all) == 7 && c.Size == 3 {
		x.Sample(map[string]interface{}{"case": c, "items": world.Keys(items), "remaining": rem})
	}
	return nil
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	return a + ";" + b
}

// cut is the reference: which part of n objects is the page.
func cut(n int, p, s int64) (int, int) {
	if p == 0 || s == 0 {
		return 0, n
	}
	from := 0
	for i := int64(1); i < p && from < n; i++ {
		if int64(n-from) <= s {
			return n, n
		}
		from += int(s)
	}
	if int64(n-from) <= s {
		return from, n
	}
	return from, from + int(s)
}

// Walk asks for page 1, 2, ... until everything was seen.
type Walk struct {
	N, Sel int
	Size   int64
	Cust   bool
}

func walk(x *mc.X, c Walk) error {
	all := order(c.N, c.Sel)
	var got []string
	for p := int64(1); ; p++ {
		q := url.Values{"labelSelector": {selector(Case{N: c.N, Sel: c.Sel, Page: p, Size: c.Size})}}
		r := worlds[c.N].Get(path(c.Cust, sels[c.Sel].ns), q)
		l, items, err := world.ParseList(r)
		if err != nil {
			return fmt.Errorf("page %d: %v", p, err)
		}
		x.Step(1)
		got = append(got, world.Keys(items)...)
		rem, _ := l.Metadata["remainingItemCount"].(float64)
		if len(got)+int(rem) != len(all) {
			return fmt.Errorf("after page %d: %d seen, %v remaining, of %d", p, len(got), rem, len(all))
		}
		x.State(fmt.Sprint(len(all), p, c.Size))
		if rem == 0 {
			break
		}
		if len(items) == 0 {
			return fmt.Errorf("empty page %d although %v remain", p, rem)
		}
	}
	if strings.Join(got, " ") != strings.Join(all, " ") {
		return fmt.Errorf("pages of %d give %v want %v", c.Size, got, all)
	}
	return nil
}

// Kinds: types (numbers in coords) are configured in this order, each with a list kind of its own.
type Kinds struct{ T []int }

var coords = func() (l []store.GroupVersionResource) {
	for _, g := range []string{"", "x.io", "io"} {
		for _, v := range []string{"v1", "v2"} {
			for _, r := range []string{"pods", "widgets"} {
				l = append(l, world.GVR(g, v, r))
			}
		}
	}
	return
}()

func listKind(i int) string { return fmt.Sprintf("%cThingList", 'A'+i) }

func kinds(x *mc.X, c Kinds) error {
	cfg := common.Config{DefaultCluster: "c1"}
	for _, i := range c.T {
		g := coords[i]
		p := world.Proxy(g.Group, g.Version, g.Resource, "", gen.IndexKeys())
		p.ListKind = listKind(i)
		cfg.Proxies = append(cfg.Proxies, p)
	}
	w := world.New(cfg, "c1", "c2")
	for _, i := range c.T {
		_ = w.Store.OnResourceAdded(coords[i], "c1", gen.Spec{C: "c1", N: "m1", O: fmt.Sprintf("o%d", i)}.Custom())
	}
	x.State(fmt.Sprint(c.T))
	for _, i := range c.T {
		g := coords[i]
		p, av := "/api/"+g.Version, g.Version
		if g.Group != "" {
			p, av = "/apis/"+g.Group+"/"+g.Version, g.Group+"/"+g.Version
		}
		for j, path := range []string{p + "/" + g.Resource, p + "/namespaces/m1/" + g.Resource, p + "/namespaces/m2/" + g.Resource} {
			for _, sel := range []string{"", gen.Encode(page.Paginate{Page: 1, PageSize: 1}), "none=1", gen.Encode(page.Paginate{Search: "name=zzz"})} {
				x.Step(1)
				q := url.Values{}
				want := fmt.Sprintf("c1/m1/o%d", i)
				if sel != "" {
					q.Set("labelSelector", sel)
				}
				if j == 2 || sel == "none=1" || sel != "" && sel == gen.Encode(page.Paginate{Search: "name=zzz"}) {
					want = ""
				}
				l, items, err := world.ParseList(w.Get(path, q))
				if err != nil {
					return fmt.Errorf("types %v: %s?%v: %v", c.T, path, q, err)
				}
				if got := strings.Join(world.Keys(items), " "); got != want {
					return fmt.Errorf("types %v: %s?%v: got [%s] want [%s]", c.T, path, q, got, want)
				}
				if l.Kind != listKind(i) || l.APIVersion != av {
					return fmt.Errorf("types %v: %s?%v: a %s of %s instead of %s of %s", c.T, path, q, l.Kind, l.APIVersion, listKind(i), av)
				}
			}
		}
	}
	return nil
}

// Helper exercises the client-side helper alone.
type Helper struct {
	Items, Remain int64 // Remain -1: not reported
	Page, Size    int64
}

func helper(x *mc.X, c Helper) error {
	x.Step(1)
	x.State(mc.J(c))
	skipped := int64(0)
	if c.Page > 0 && c.Size > 0 {
		skipped = (c.Page - 1) * c.Size
	}
	for i := 0; i < 2; i++ {
		var l metav1.ListInterface
		lm := metav1.ListMeta{}
		rem := int64(0)
		if c.Remain >= 0 {
			rem = c.Remain
			lm.RemainingItemCount = &c.Remain
		}
		if i == 0 {
			l = &corev1.PodList{ListMeta: lm, Items: make([]corev1.Pod, c.Items)}
		} else {
			l = &corev1.ServiceList{ListMeta: lm, Items: make([]corev1.Service, c.Items)}
		}
		in := page.Paginate{Page: c.Page, PageSize: c.Size, Sort: "a", Search: "b", Total: 77}
		out := page.MakeupResPaginate(l, in)
		if out.Total != skipped+c.Items+rem {
			return fmt.Errorf("total %d want %d", out.Total, skipped+c.Items+rem)
		}
		out.Total = 77
		if out != in {
			return fmt.Errorf("other fields changed: %+v", out)
		}
	}
	return nil
}

func main() {
	ext := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 32, -1 << 31, -7, -1, 0, 1, 2, 3, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 3037000499, 3037000500, 1 << 33, 1 << 61, 1 << 62, 1<<62 + 1, math.MaxInt64/2 + 1, math.MaxInt64/3 + 1, math.MaxInt64 - 1, math.MaxInt64}
	mc.Main(mc.Def{
		ID:     "C08",
		Oracle: "slices of the separately computed ordered selection",
		Assume: []string{"a page after the last one may be refused with 400 or be empty"},
		Families: []mc.Family{
			mc.Cases("pages", mc.Opts{Bound: "0..12 objects x page 0..14 x size 0..14 (thorough 0..14, 30, 99..101) x 10 selections x typed/custom, over HTTP and directly", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					ns := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
					if c.Thorough() {
						ns = append(ns, 13, 14, 30, 99, 100, 101)
					}
					for _, n := range ns {
						for p := int64(0); p <= mc.Pick(c, int64(8), 14); p++ {
							for s := int64(0); s <= 14; s++ {
								for sel := range sels {
									for m := 0; m < 6; m++ {
										if !c.Thorough() && m > 0 && (int(p+s)+sel+n)%5 != m%5 {
											continue
										}
										if !emit(Case{N: n, Sel: sel, Page: p, Size: s, Cust: m&1 > 0, NoKey: m&2 > 0, Store: m&4 > 0}) {
											return
										}
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("extreme", mc.Opts{Bound: "every pair of 26 extreme 64-bit values as page and size x populations 0, 1, 7, 100 x 10 selections, over HTTP and directly", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, n := range []int{0, 1, 7, 100} {
						for _, p := range ext {
							for _, s := range ext {
								for sel := range sels {
									if !emit(Case{N: n, Sel: sel, Page: p, Size: s}) || !emit(Case{N: n, Sel: sel, Page: p, Size: s, Store: true}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("walk", mc.Opts{Bound: "all pages in turn, 0..14, 30, 99, 100 and 101 objects, every size 1..102, 10 selections", Setup: setup},
				func(c *mc.Ctx, emit func(Walk) bool) {
					for _, n := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 30, 99, 100, 101} {
						for s := int64(1); s <= 102; s++ {
							if !c.Thorough() && n >= 30 && s > 12 && s < 96 && s%9 != 0 {
								continue
							}
							for sel := range sels {
								if !emit(Walk{n, sel, s, (int(s)+sel)%2 == 0}) {
									return
								}
							}
						}
					}
				}, walk),
			mc.Cases("large", mc.Opts{Bound: "257, 501, 1025 and 2501 objects, 20 sizes around 250, 256, 500, 512, 1000, 1024, 2000 and the population, the first two pages, the last, and the one behind it, 5 (thorough 10) selections, over HTTP and (thorough) custom", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, n := range large {
						for _, sel := range mc.Pick(c, []int{0, 1, 3, 7, 8}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}) {
							k := len(order(n, sel))
							for _, size := range []int{0, 200, 249, 250, 251, 255, 256, 257, 499, 500, 501, 512, 513, 999, 1000, 1001, 1024, 2000, n - 1, n, n + 1, 5000, 1000000} {
								if size == 0 && n > 1025 && !c.Thorough() {
									continue
								}
								last := 1
								if size > 0 {
									last = (k + size - 1) / size
								}
								did := map[int]bool{}
								for _, pg := range []int{1, 2, last, last + 1} {
									if pg == 0 || did[pg] {
										continue
									}
									did[pg] = true
									if !emit(Case{N: n, Sel: sel, Page: int64(pg), Size: int64(size)}) || c.Thorough() && !emit(Case{N: n, Sel: sel, Page: int64(pg), Size: int64(size), Cust: true}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("kinds", mc.Opts{Bound: "every sequence of 1 to 2 (thorough 3) of 12 configured types that differ in group, version or resource, each with its own list kind; 3 paths, 4 selectors", Workers: 1},
				func(c *mc.Ctx, emit func(Kinds) bool) {
					for n := 1; n <= mc.Pick(c, 2, 3); n++ {
						if !mc.Words(len(coords), n, func(w []int) bool {
							for i := range w {
								for j := range w[:i] {
									if w[i] == w[j] {
										return true
									}
								}
							}
							return emit(Kinds{append([]int{}, w...)})
						}) {
							return
						}
					}
				}, kinds),
			mc.Cases("helper", mc.Opts{Bound: "0..6 items x remaining none, 0..6 x page 0..5 x size 0..6"},
				func(c *mc.Ctx, emit func(Helper) bool) {
					for i := int64(0); i <= 6; i++ {
						for r := int64(-1); r <= 6; r++ {
							for p := int64(0); p <= 5; p++ {
								for s := int64(0); s <= 6; s++ {
									if !emit(Helper{i, r, p, s}) {
										return
									}
								}
							}
						}
					}
				}, helper),
		},
	})
}

func encodeFull(p page.Paginate) string {
	// zero fields written out
	m := map[string]interface{}{"page": p.Page, "page_size": p.PageSize, "sort": p.Sort, "search": p.Search}
	b, _ := json.Marshal(m)
	return gen.EncodeText(string(b))
}
