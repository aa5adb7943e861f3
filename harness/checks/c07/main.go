// C07: sorting is total, stable across requests and honours the spec.
package main

import (
	"fmt"
	"net/url"
	"strings"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

var (
	cfg = gen.Config("c1", "n", "s", "t")
	w   *world.World
)

const all = ref.Adv + "cluster in (c1,c2,c-1)"

// population: ties on every key, several clusters and namespaces, cluster-scoped objects.
var pop = []gen.Spec{
	{C: "c2", N: "m1", O: "a", K: map[string]string{"n": "2", "s": "b", "t": "1"}},
	{C: "c1", N: "m2", O: "b", K: map[string]string{"n": "10", "s": "b", "t": "1"}},
	{C: "c1", N: "m1", O: "a", K: map[string]string{"n": "10", "s": "a", "t": "1"}},
	{C: "c1", N: "m1", O: "b", K: map[string]string{"n": "9", "s": "", "t": "1"}},
	{C: "c2", N: "m2", O: "c", K: map[string]string{"n": "9", "s": "B", "t": "1"}},
	{C: "c1", N: "", O: "c", K: map[string]string{"n": "-1", "s": "a b", "t": "1"}, Del: true},
	{C: "c2", N: "m1", O: "c", K: map[string]string{"n": "-1.5", "s": "b", "t": "1"}},
	{C: "c1", N: "m2", O: "a", K: map[string]string{"n": "2.0", "s": "名", "t": "1"}, Del: true},
	{C: "c-1", N: "m1", O: "a1", K: map[string]string{"n": "1e1", "s": "b", "t": "1"}},
	{C: "c-1", N: "m", O: "a", K: map[string]string{"n": "0", "s": "b1", "t": "1"}},
	{C: "c-1", N: "m1", O: "a-1", K: map[string]string{"n": "100", "s": "b", "t": "1"}},
	{C: "c1", N: "m1", O: "a-1", K: map[string]string{"n": "2", "s": "b", "t": "1"}},
}

func setup(c *mc.Ctx) { w = world.New(cfg, "c1", "c2", "c-1") }

func filled(objs []gen.Spec, cust bool) store.Store {
	s := memory.NewMemoryStore(world.IndexConf(cfg))
	gen.Fill(s, objs, !cust, cust)
	return s
}

func want(objs []gen.Spec, sort string) ([]string, error) {
	var rs []ref.Obj
	for _, o := range objs {
		rs = append(rs, o.Ref("n", "s", "t"))
	}
	r, err := ref.Sort(rs, sort)
	if err != nil {
		return nil, err
	}
	return gen.RefKeys(r), nil
}

func isErr(objs []gen.Spec, sort string) bool {
	_, err := want(objs, sort)
	return err != nil
}

type Case struct {
	Sort string
	HTTP bool     `json:",omitempty"`
	Cust bool     `json:",omitempty"`
	NS   string   `json:",omitempty"`
	Lab  bool     `json:",omitempty"` // with a label selector (a separate code path), HTTP only
	Page [2]int64 `json:",omitempty"`
}

func exprExec(x *mc.X, c Case) error {
	var objs []gen.Spec
	for _, o := range pop {
		if c.NS == "" || o.N == c.NS {
			objs = append(objs, o)
		}
	}
	st := popStore[c.Cust]
	return check(x, st, objs, c, 2)
}

var popStore = map[bool]store.Store{}

// check compares the served order with the reference order, rep times over.
func check(x *mc.X, st store.Store, objs []gen.Spec, c Case, rep int) error {
	ord, werr := want(objs, c.Sort)
	x.State(c.Sort + fmt.Sprint(c.Lab, c.Cust, c.NS, c.Page))
	f, t, _ := ref.Page(len(ord), c.Page[0], c.Page[1])
	for i := 0; i < rep; i++ {
		x.Step(1)
		var got []string
		var bad bool
		var detail string
		if c.HTTP {
			v := &world.World{Ups: w.Ups, Clients: w.Clients, Store: st}
			v.Serve()
			p := "/api/v1/pods"
			if c.Cust {
				p = "/apis/x.io/v1/widgets"
			}
			if c.NS != "" {
				p = strings.Replace(p, "/v1/", "/v1/namespaces/"+c.NS+"/", 1)
			}
			sel := gen.Encode(page.Paginate{Sort: c.Sort, Search: all, Page: c.Page[0], PageSize: c.Page[1]})
			if c.Lab {
				sel += ",!nolabel"
			}
			r := v.Get(p, url.Values{"labelSelector": {sel}})
			if r.Code == 200 {
				_, items, err := world.ParseList(r)
				if err != nil {
					return err
				}
				got = world.Keys(items)
			} else {
				bad = true
				detail = string(r.Body)
				if r.Code != 400 {
					return fmt.Errorf("sort %q: status %d: %s", c.Sort, r.Code, r.Body)
				}
			}
		} else {
			gvr := gen.Pods
			if c.Cust {
				gvr = gen.Widgets
			}
			res := st.Query(gvr, store.Query{Namespace: c.NS, Paginate: page.Paginate{Sort: c.Sort, Page: c.Page[0], PageSize: c.Page[1]}})
			bad = res.Error != nil
			detail = fmt.Sprint(res.Error)
			got = gen.Keys(res.Items)
		}
		if werr != nil {
			if !bad {
				return fmt.Errorf("sort %q is malformed but yields %v", c.Sort, got)
			}
			x.Outcome("error")
			continue
		}
		if bad {
			// several spaces in a row are not in the documented grammar, refusing them is fine
			return fmt.Errorf("sort %q is refused: %s", c.Sort, detail)
		}
		if strings.Join(got, " ") != strings.Join(ord[f:t], " ") {
			return fmt.Errorf("sort %q page %v gives\n  %v\nwant\n  %v\nobjects %s", c.Sort, c.Page, got, ord[f:t], mc.J(objs))
		}
		x.Outcome(strings.Join(got, " "))
	}
	return nil
}

// Values is a small population in an order of arrival.
type Values struct {
	V    []string
	Perm []int
	Sort string
	Mod  bool // report every object twice, the second time with the final value
}

func valuesExec(x *mc.X, c Values) error {
	objs := make([]gen.Spec, len(c.V))
	for i, v := range c.V {
		objs[i] = gen.Spec{C: "c1", N: "m", O: fmt.Sprintf("o%d", len(c.V)-i), K: map[string]string{"n": v, "s": "x", "t": "1"}}
	}
	st := memory.NewMemoryStore(world.IndexConf(cfg))
	for _, i := range c.Perm {
		if c.Mod {
			o := objs[i]
			o.K = map[string]string{"n": "5", "s": "x", "t": "1"}
			_ = st.OnResourceAdded(gen.Pods, "c1", o.Pod())
		}
		_ = st.OnResourceModified(gen.Pods, "c1", objs[i].Pod())
	}
	x.State(mc.J(c))
	return check(x, st, objs, Case{Sort: c.Sort}, 1)
}

// Large population.
type Large struct {
	N, Mod int
	Sort   string
}

func largeExec(x *mc.X, c Large) error {
	var objs []gen.Spec
	for i := 0; i < c.N; i++ {
		j := (i * 7919) % c.N
		objs = append(objs, gen.Spec{C: []string{"c1", "c2"}[j%2], N: fmt.Sprintf("m%d", j%3), O: fmt.Sprintf("o%d", j),
			K: map[string]string{"n": fmt.Sprint(j % c.Mod), "s": fmt.Sprintf("%02d", (j/2)%c.Mod), "t": "1"}})
	}
	return check(x, filled(objs, false), objs, Case{Sort: c.Sort}, 2)
}

// Many is a sort by K keys of which only the D-th tells two objects apart.
type Many struct {
	K, D      int
	Int, Desc bool
	HTTP      bool
}

func manyExec(x *mc.X, c Many) error {
	keys := make([]string, c.K)
	terms := make([]string, c.K)
	for i := range keys {
		keys[i] = fmt.Sprintf("k%d", i)
		terms[i] = keys[i]
		if c.Int {
			terms[i] += "!int"
		}
		if c.Desc && i%2 == 0 {
			terms[i] += " desc"
		}
	}
	cf := gen.Config("c1", keys...)
	st := memory.NewMemoryStore(world.IndexConf(cf))
	var objs []gen.Spec
	var rs []ref.Obj
	for o := 0; o < 3; o++ {
		m := map[string]string{}
		for i, k := range keys {
			m[k] = "7"
			if i == c.D {
				m[k] = []string{"10", "9", "8"}[o]
			} else if i > c.D { // what the later keys say does not count
				m[k] = []string{"2", "1", "3"}[(o+i)%3]
			}
		}
		objs = append(objs, gen.Spec{C: "c1", N: "m", O: []string{"b", "c", "a"}[o], K: m})
		rs = append(rs, objs[o].Ref(keys...))
	}
	gen.Fill(st, objs, true, false)
	sort := strings.Join(terms, ",")
	r, err := ref.Sort(rs, sort)
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	x.Step(1)
	x.State(mc.J(c))
	q := page.Paginate{Sort: sort}
	var got []string
	if c.HTTP {
		v := &world.World{Ups: w.Ups, Clients: w.Clients, Store: st}
		v.Serve()
		rs := v.Get("/api/v1/pods", url.Values{"labelSelector": {gen.Encode(q)}})
		_, items, err := world.ParseList(rs)
		if err != nil {
			return fmt.Errorf("sort %q: %v", sort, err)
		}
		got = world.Keys(items)
	} else {
		res := st.Query(gen.Pods, store.Query{Paginate: q})
		if res.Error != nil {
			return fmt.Errorf("sort %q: %v", sort, res.Error)
		}
		got = gen.Keys(res.Items)
	}
	if strings.Join(got, " ") != strings.Join(gen.RefKeys(r), " ") {
		return fmt.Errorf("sort %q gives %v, want %v, objects %s", sort, got, gen.RefKeys(r), mc.J(objs))
	}
	x.Outcome(strings.Join(got, " "))
	return nil
}

// numbers near every magnitude at which representations change.
func numbers() []string {
	seen := map[string]bool{}
	var r []string
	add := func(ss ...string) {
		for _, s := range ss {
			if !seen[s] {
				seen[s] = true
				r = append(r, s)
			}
		}
	}
	for _, e := range []uint{0, 1, 3, 7, 8, 15, 16, 23, 24, 25, 31, 32, 40, 52} {
		v := int64(1) << e
		add(fmt.Sprint(v-1), fmt.Sprint(v), fmt.Sprint(v+1), fmt.Sprint(-v))
	}
	for v := int64(10); v < 1e15; v *= 10 {
		add(fmt.Sprint(v-1), fmt.Sprint(v), fmt.Sprint(v+1))
	}
	add("1700000000", "1700000001", "1700000000.5", "1700000000123", "1700000000124", "-9", "-10", "-99", "-100", "-1000000001", "-1000000002")
	add("0.1", "0.2", "0.11", "0.5", "0.25", "1.5", "1.25", "1.125", "1.1", "1.01", "1.001", "1.0001", "1.00001", "1.000001", "1.0000001", "-0.1", "-0.5", "-1.5", "-1.25", "2.5", "9.9", "9.99", "10.1", "10.01", "99.5", "100.5")
	add("1e2", "1e-2", "1E3", "2e1", "-1e2", "1e100", "1e101", "-1e100", "1e-100", "00", "007", "1.0", "1.", ".5", "+1", "-0", "0x1F", "0b1", "1k", "5 ", "3m", "1,000", "Infinity", "-Inf", "nan", "true")
	return r
}

func main() {
	keys := []string{"cluster", "namespace", "name", "n", "s", "is_deleted", "t"}
	typs := []string{"", "!str", "!int"}
	dirs := []string{"", " asc", " desc"}
	var terms []string
	for _, k := range keys {
		for _, t := range typs {
			for _, d := range dirs {
				terms = append(terms, k+t+d)
			}
		}
	}
	malformed := []string{"nokey", "nokey desc", "n up", "n DESC", "n!int!str", "n!float", "n!", "n!int desc asc", "!int", "n desc asc", "n!int down", "N", "s!int", "s!num desc", "n;s", "n!INT", "desc", "n,nokey", "nokey,n", "n!int,s!int", "s,n!foo", "t,s x", "n!int,nokey desc"}
	good := []string{"", ",", " ", "n,", ",n", " n ", "n ,s", "n, s", "n,,s", " n!int desc , s asc ", "t", "t,t", "n!int,n", "n!int desc,n!int asc", "t,n!int,s desc,name", "t!int,t desc,cluster desc,namespace desc,name desc", "s,n,t,name,namespace,cluster", "is_deleted desc,s,n!int"}
	mc.Main(mc.Def{
		ID:     "C07",
		Oracle: "stable comparison sort over the documented grammar with cluster, namespace, name as last keys",
		Assume: []string{"numbers are compared in double precision", "an empty selection may be returned for a malformed sort"},
		Families: []mc.Family{
			mc.Cases("expressions", mc.Opts{Bound: "every sort of <=2 of 63 terms (7 keys x 3 types x 3 directions), 12 objects full of ties, typed and custom, each list made twice", Setup: func(c *mc.Ctx) {
				setup(c)
				popStore[false], popStore[true] = filled(pop, false), filled(pop, true)
			}},
				func(c *mc.Ctx, emit func(Case) bool) {
					emit(Case{})
					for _, s := range append(append([]string{}, good...), malformed...) {
						for m := 0; m < 16; m++ {
							cs := Case{Sort: s, HTTP: m&1 > 0, Cust: m&2 > 0, Lab: m&1 > 0 && m&4 > 0}
							if m&8 > 0 {
								cs.NS = "m1"
							}
							if !emit(cs) {
								return
							}
						}
					}
					for i, a := range terms {
						for m := 0; m < 16; m++ {
							if !emit(Case{Sort: a, HTTP: m&1 > 0, Cust: m&2 > 0, Lab: m&1 > 0 && m&4 > 0, Page: [2]int64{int64(m>>3) * 2, 5}}) {
								return
							}
						}
						for j, b := range terms {
							if !emit(Case{Sort: a + "," + b}) {
								return
							}
							if (i+j)%mc.Pick(c, 6, 1) == 0 && !emit(Case{Sort: a + ", " + b, HTTP: true, Cust: i%2 == 0, Lab: j%2 == 0}) {
								return
							}
						}
					}
					if c.Thorough() {
						for i, a := range terms {
							for j, b := range terms {
								for k := range terms {
									if (i+j+k)%3 == 0 && !emit(Case{Sort: a + "," + b + "," + terms[k]}) {
										return
									}
								}
							}
						}
					}
				}, exprExec),
			mc.Cases("values", mc.Opts{Bound: "every tuple of <=3 (thorough 4) of 17 values, in every order of arrival, as number and text, up and down", Setup: setup},
				func(c *mc.Ctx, emit func(Values) bool) {
					vals := []string{"1", "2", "10", "-1", "1.5", "1e3", "01", "+2", "", "x", " 1", "NaN", "Inf", "0x10", "9007199254740993", "1_0", "99999999999999999999"}
					for n := 0; n <= mc.Pick(c, 3, 4); n++ {
						if !mc.Words(len(vals), n, func(ws []int) bool {
							v := make([]string, n)
							for i, k := range ws {
								v[i] = vals[k]
							}
							for si, s := range []string{"n!int", "n!int desc", "n", "n desc", "t!int,n!int"} {
								first := true
								if !mc.Perms(n, func(p []int) bool {
									if n == 4 && !first {
										return true
									}
									ok := emit(Values{v, append([]int(nil), p...), s, si == 0 && first})
									first = false
									return ok
								}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				}, valuesExec),
			mc.Cases("numbers", mc.Opts{Bound: "every ordered pair of ~150 numbers (powers of two and ten and their neighbours, fractions, signs, notations), both orders of arrival, as number and text, up and down", Setup: setup},
				func(c *mc.Ctx, emit func(Values) bool) {
					vals := numbers()
					for _, a := range vals {
						for _, b := range vals {
							for _, s := range []string{"n!int", "n!int desc", "n", "n desc"} {
								for _, p := range [][]int{{0, 1}, {1, 0}} {
									if !emit(Values{[]string{a, b}, p, s, false}) {
										return
									}
								}
							}
						}
					}
				}, valuesExec),
			mc.Cases("ties", mc.Opts{Bound: "5 objects equal under the requested key, every order of arrival, each key, both directions", Setup: setup},
				func(c *mc.Ctx, emit func(Values) bool) {
					for _, s := range []string{"t", "t desc", "t!int", "t!int desc", "s", "n!int desc", "is_deleted", "namespace desc", "cluster"} {
						for _, n := range []int{2, 3, 4, 5} {
							v := []string{"7", "7", "7", "7.0", "7"}[:n]
							if !mc.Perms(n, func(p []int) bool { return emit(Values{v, append([]int(nil), p...), s, false}) }) {
								return
							}
						}
					}
				}, valuesExec),
			mc.Cases("many", mc.Opts{Bound: "1..20 (thorough 70) keys of which each in turn is the first to tell the objects apart, as text and numbers, up and down", Setup: setup},
				func(c *mc.Ctx, emit func(Many) bool) {
					for k := 1; k <= mc.Pick(c, 20, 70); k++ {
						for d := 0; d < k; d++ {
							for m := 0; m < 8; m++ {
								if !emit(Many{k, d, m&1 > 0, m&2 > 0, m&4 > 0}) {
									return
								}
							}
						}
					}
				}, manyExec),
			mc.Cases("large", mc.Opts{Bound: "populations of every size 0..40 and 100, 500, 2000 with 1, 2, 3 or 10 different values, 9 sorts", Setup: setup},
				func(c *mc.Ctx, emit func(Large) bool) {
					sizes := []int{100, 500, 2000}
					for n := 40; n >= 0; n-- {
						sizes = append([]int{n}, sizes...)
					}
					for _, n := range sizes {
						for _, m := range []int{1, 2, 3, 10} {
							for _, s := range []string{"", "n", "n!int desc", "s", "s desc,n", "n,s", "t", "cluster desc", "name"} {
								if !emit(Large{n, m, s}) {
									return
								}
							}
						}
					}
				}, largeExec),
		},
	})
}
