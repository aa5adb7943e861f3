// C10: label selectors on cached lists mean what Kubernetes says.
package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	"k8s.io/apimachinery/pkg/labels"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
)

var (
	cfg   = gen.Config("c1", "k")
	base  *world.World
	w     *world.World
	specs []gen.Spec
)

func setup(c *mc.Ctx) {
	base = world.New(cfg, "c1", "c2")
	w = base.Fork(cfg)
	specs = nil
	i := 0
	add := func(l map[string]string) {
		specs = append(specs, gen.Spec{C: "c1", N: fmt.Sprintf("m%d", i%2), O: fmt.Sprintf("o%02d", i), L: l, K: map[string]string{"k": fmt.Sprint((i * 7) % 3)}},
			gen.Spec{C: "c2", N: fmt.Sprintf("m%d", i%2), O: fmt.Sprintf("o%02d", i), L: l, K: map[string]string{"k": fmt.Sprint(i % 2)}})
		i++
	}
	add(nil)
	add(map[string]string{})
	for _, a := range []string{"-", "", "1", "2", "10"} {
		for _, b := range []string{"-", "", "1", "x"} {
			l := map[string]string{"z": "z"}
			if a != "-" {
				l["a"] = a
			}
			if b != "-" {
				l["b"] = b
			}
			add(l)
			add(l)
		}
	}
	add(map[string]string{"x.io/a": "1"})
	add(map[string]string{"x.io/a": "2", "a": "1"})
	add(map[string]string{"A": "1"})
	add(map[string]string{"ckube.daocloud.io/query": "1", "a": "2"})
	gen.Fill(w.Store, specs, true, true)
}

var reqs = []string{"a", "!a", "a=1", "a==1", "a!=1", "a=", "a!=", "a==", "a in (1)", "a in (1,2)", "a in (1,2,10)", "a in ()", "a in (,1)", "a notin (1)", "a notin (1,2)", "a notin (,2)", "a notin ()",
	"b", "!b", "b=1", "b=x", "b!=x", "b in (1,x)", "b notin (x)", "x.io/a", "!x.io/a", "x.io/a=1", "x.io/a!=1", "A=1", "z", "!z", "nokey", "!nokey", "nokey=1", "nokey!=1", "nokey notin (1)", "a=10", "a=2", "a!=2"}

var variants = []string{" a = 1 ", "a=1, b=1", "a = 1 , b in ( 1 , x )", "a  in  (1,2)", "a notin(1)", "a in(2)", "! a", "a=1,", ",a=1", "a>1", "a<10", "a > 1", "a>1,b=1", "a>1,a<10", "b>0", "a>x", "a=1,a>0", "a in 1", "a=1 b=2", "a in (1", "=", ",", "a=b=c", "a!", "a=!1", `a="1"`, "a~1", "()", "a in (1),in (2)",
	"in in (in)", "notin", "a=" + strings.Repeat("x", 63), "a=" + strings.Repeat("x", 64), strings.Repeat("k", 64), "-a=1", "a=1;b=2", "<none>", "a=名", "x.io/y/z=1", "/a=1", "a in (1,1)", "a in (1,1),a notin (2,2)", "!a=1", "a,!a", "a=1,a=1", "a=1,a=2", "a=1,a==1,a in (1)"}

type Case struct {
	Sel    string
	NS     string `json:",omitempty"`
	Search string `json:",omitempty"`
	Sort   string `json:",omitempty"`
	Page   int64  `json:",omitempty"`
	Size   int64  `json:",omitempty"`
	Cust   bool   `json:",omitempty"`
	After  bool   `json:",omitempty"` // put the query after the selector
}

// Large is a request for N objects.
type Large struct {
	N    int
	Last bool `json:",omitempty"`
	Case Case
}

var filled string

func exec(x *mc.X, c Case) error {
	q := gen.Encode(page.Paginate{Page: c.Page, PageSize: c.Size, Search: c.Search, Sort: c.Sort})
	sel := c.Sel
	if q != "" {
		if c.After {
			sel = sel + "," + q
		} else {
			sel = q + "," + sel
		}
	}
	s, perr := labels.Parse(c.Sel)
	numeric := false
	if perr == nil {
		rs, _ := s.Requirements()
		for _, r := range rs {
			if o := string(r.Operator()); o == "gt" || o == "lt" {
				numeric = true
			}
		}
	}
	p := "/api/v1/pods"
	if c.Cust {
		p = "/apis/x.io/v1/widgets"
	}
	if c.NS != "" {
		p = strings.Replace(p, "/v1/", "/v1/namespaces/"+c.NS+"/", 1)
	}
	x.State(mc.J(c))
	x.Step(1)
	v := &world.World{Store: w.Store, Ups: w.Ups, Clients: w.Clients, Router: w.Router}
	r := v.Get(p, url.Values{"labelSelector": {sel}})
	if perr != nil || numeric {
		// refused by an error or left to the API server, never answered from the cache with something else
		if r.Code >= 400 && r.Code < 500 || strings.Contains(string(r.Body), `"upstream":"c`) {
			x.Outcome("refused")
			return nil
		}
		if perr != nil {
			return fmt.Errorf("malformed selector %q (%v): status %d %s", c.Sel, perr, r.Code, r.Body)
		}
	}
	_, items, err := world.ParseList(r)
	if err != nil {
		return fmt.Errorf("selector %q: %v", sel, err)
	}
	var rs []ref.Obj
	cl := "c1"
	if strings.Contains(c.Search, "cluster in (c2)") {
		cl = "c2"
	}
	for _, o := range specs {
		if o.C != cl && !strings.Contains(c.Search, "(c1,c2)") || c.NS != "" && o.N != c.NS || !s.Matches(labels.Set(o.L)) {
			continue
		}
		ro := o.Ref("k")
		if ok, err := ref.Match(ro.Index, c.Search); err == nil && ok {
			rs = append(rs, ro)
		}
	}
	want, err := ref.Sort(rs, c.Sort)
	if err != nil {
		return err
	}
	f, t, _ := ref.Page(len(want), c.Page, c.Size)
	g, e := strings.Join(world.Keys(items), " "), strings.Join(gen.RefKeys(want[f:t]), " ")
	if g != e {
		return fmt.Errorf("selector %q of %s gives\n  %s\nwant\n  %s", c.Sel, mc.J(c), g, e)
	}
	x.Outcome(g)
	if len(items) == 3 {
		x.Sample(map[string]interface{}{"selector": sel, "items": world.Keys(items)})
	}
	return nil
}

// Pair: all label maps of two keys against a selector, alone in a store.
func main() {
	mc.Main(mc.Def{
		ID:     "C10",
		Oracle: "k8s.io/apimachinery labels.Parse and Matches",
		Assume: []string{"selectors with > or < and malformed ones may be refused or left to the API server"},
		Families: []mc.Family{
			mc.Cases("requirements", mc.Opts{Bound: "every selector of <=2 of 39 requirements and 47 odd forms on 46 label sets (0-3 labels), typed and custom, with and without namespace", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					both := func(s string) bool {
						for m := 0; m < 4; m++ {
							cs := Case{Sel: s, Cust: m&1 > 0}
							if m&2 > 0 {
								cs.NS = "m1"
							}
							if !emit(cs) {
								return false
							}
						}
						return true
					}
					for _, s := range append(append([]string{}, reqs...), variants...) {
						if !both(s) {
							return
						}
					}
					for _, a := range reqs {
						for _, b := range reqs {
							if !both(a + "," + b) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("combined", mc.Opts{Bound: "every requirement and odd form x 7 searches x 4 sorts x 6 pages, query before and after", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, s := range append(append([]string{}, reqs...), variants...) {
						for _, se := range []string{"", "k=1", "k=!1;o0", ref.Adv + "cluster in (c2)", ref.Adv + "cluster in (c1,c2)", ref.Adv + "k in (0,2),namespace=m0", "nothing"} {
							for _, so := range []string{"", "k!int desc", "k,name desc", "cluster desc,name"} {
								for _, pg := range [][2]int64{{0, 0}, {1, 3}, {2, 3}, {1, 1}, {3, 0}, {1, 100}} {
									if !emit(Case{Sel: s, Search: se, Sort: so, Page: pg[0], Size: pg[1], Cust: i%2 == 0, After: pg[0] != 2}) {
										return
									}
								}
							}
						}
					}
				}, pagedExec),
			mc.Cases("triples", mc.Opts{Bound: "every selector of 3 of 20 requirements (thorough: of 39)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					rs := []string{"a", "!a", "a=1", "a!=1", "a in (1,2)", "a notin (1,2)", "a=2", "a=", "b", "!b", "b=1", "b!=x", "b in (1,x)", "x.io/a", "!x.io/a", "x.io/a!=1", "z", "nokey!=1", "!nokey", "a notin (2)"}
					if c.Thorough() {
						rs = reqs
					}
					mc.Words(len(rs), 3, func(ws []int) bool {
						return emit(Case{Sel: rs[ws[0]] + "," + rs[ws[1]] + "," + rs[ws[2]], Cust: (ws[0]+ws[1]+ws[2])%2 == 0})
					})
				}, exec),
			mc.Cases("one key", mc.Opts{Bound: "every pair of in and notin requirements of one key with 1 to 6 of 6 values (quick: of 5), and 2 to 6 requirements of one key with 1 to 4 values each, in and notin, overlapping or not", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					vals := []string{"1", "2", "10", "x", "zz", ""}
					n := mc.Pick(c, 5, 6)
					set := func(m int) string {
						var v []string
						for i := range vals {
							if m>>i&1 == 1 {
								v = append(v, vals[i])
							}
						}
						return strings.Join(v, ",")
					}
					for _, ops := range [][2]string{{"notin", "notin"}, {"in", "in"}, {"in", "notin"}, {"notin", "in"}} {
						for a := 1; a < 1<<n; a++ {
							for b := 1; b < 1<<n; b++ {
								if !emit(Case{Sel: fmt.Sprintf("a %s (%s),a %s (%s)", ops[0], set(a), ops[1], set(b)), Cust: (a+b)%2 == 0}) {
									return
								}
							}
						}
					}
					for k := 2; k <= 6; k++ {
						for size := 1; size <= 4; size++ {
							for step := 0; step <= size; step++ {
								for ops := 0; ops < 1<<k; ops++ {
									var rs []string
									for i := 0; i < k; i++ {
										m := 0
										for j := 0; j < size; j++ {
											m |= 1 << ((i*step + j) % len(vals))
										}
										rs = append(rs, fmt.Sprintf("a %s (%s)", []string{"notin", "in"}[ops>>i&1], set(m)))
									}
									if !emit(Case{Sel: strings.Join(rs, ","), Cust: ops%2 == 0}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("large", mc.Opts{Bound: "300, 1030, 5010 and (thorough) 20050 objects of which 1 in 100 (the last ones, or evenly spread) or nearly all satisfy the selector; 6 selectors, with and without namespace, search, sort and paging", Workers: 1, Limit: 3 * time.Minute},
				func(c *mc.Ctx, emit func(Large) bool) {
					for _, n := range []int{300, 1030, 5010, 20050} {
						if n > 6000 && !c.Thorough() {
							continue
						}
						for _, last := range []bool{false, true} {
							for _, sel := range []string{"rare=1", "rare", "rare in (1,2)", "!common", "rare!=2,rare", "common"} {
								for f := 0; f < 6; f++ {
									if sel == "common" && f > 0 && n > 2000 {
										continue
									}
									if !emit(Large{n, last, Case{Sel: sel, NS: []string{"", "", "m1", "", "", "m0"}[f], Search: []string{"", "", "", "k=1", "", "k=!2"}[f], Sort: []string{"", "", "", "", "k desc", "k"}[f], Page: []int64{0, 1, 0, 0, 0, 2}[f], Size: []int64{0, 7, 0, 0, 0, 1}[f], Cust: f%2 == 1}}) {
										return
									}
								}
							}
						}
					}
				}, func(x *mc.X, c Large) error {
					if k := fmt.Sprint(c.N, c.Last); k != filled {
						base = world.New(cfg, "c1", "c2")
						w = base.Fork(cfg)
						specs = nil
						for i := 0; i < c.N; i++ {
							l := map[string]string{"common": "1"}
							if c.Last && i >= c.N-c.N/100 || !c.Last && i%100 == 50 {
								l = map[string]string{"rare": "1"}
							}
							specs = append(specs, gen.Spec{C: "c1", N: fmt.Sprintf("m%d", i%2), O: fmt.Sprintf("o%05d", i), L: l, K: map[string]string{"k": fmt.Sprint(i % 3)}})
						}
						gen.Fill(w.Store, specs, true, true)
						filled = k
					}
					return pagedExec(x, c.Case)
				}),
			mc.Cases("many", mc.Opts{Bound: "1..40 values in in/notin with the match at each position; 1..20 requirements of which one fails", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 1; n <= 40; n++ {
						for at := -1; at < n; at++ {
							vs := make([]string, n)
							for i := range vs {
								vs[i] = fmt.Sprintf("v%d", i)
								if i == at {
									vs[i] = "1"
								}
							}
							for _, op := range []string{"in", "notin"} {
								if !emit(Case{Sel: fmt.Sprintf("a %s (%s)", op, strings.Join(vs, ","))}) {
									return
								}
							}
						}
					}
					for n := 1; n <= 20; n++ {
						for at := -1; at < n; at++ {
							vs := make([]string, n)
							for i := range vs {
								vs[i] = []string{fmt.Sprintf("!q%d", i), fmt.Sprintf("r%d!=1", i), "a=1", "z", fmt.Sprintf("a notin (w%d)", i)}[i%5]
								if i == at {
									vs[i] = fmt.Sprintf("q%d", i)
								}
							}
							sort.Strings(vs)
							if !emit(Case{Sel: strings.Join(vs, ",")}) {
								return
							}
						}
					}
				}, exec),
		},
	})
}

// pagedExec: pages beyond the end may be refused.
func pagedExec(x *mc.X, c Case) error {
	err := exec(x, c)
	if err != nil && c.Page > 1 && strings.Contains(err.Error(), "status 400") {
		d := c
		d.Page, d.Size = 0, 0
		if e := exec(x, d); e != nil {
			return e
		}
		return nil
	}
	return err
}
