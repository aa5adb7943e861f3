// C05: search returns exactly the matching objects.
package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

var (
	w     *world.World
	specs []gen.Spec
	refs  []ref.Obj
)

var values = []string{"", "x", "z", "xz", "zx", "x;z", "X", `x"z`, `x\z`, "x\nz", "名x", "x z", "=", "!", "!x", "x=z", " x", ";", `"`, "n",
	"x1", "x;;z", "x;z;x", ";x;z;;x;", "x,z", "100%", "<none>", strings.Repeat("q", 70) + "x"}

func setup(c *mc.Ctx) {
	cfg := gen.Config("c1", "k", "k2")
	w = world.New(cfg, "c1", "c2")
	specs, refs = nil, nil
	i := 0
	for _, v := range values {
		for _, v2 := range []string{"", "x", "z"} {
			s := gen.Spec{C: "c1", N: fmt.Sprintf("m%d", i%2), O: fmt.Sprintf("o%d", i), Del: i%5 == 0, K: map[string]string{"k": v, "k2": v2}}
			specs = append(specs, s)
			refs = append(refs, s.Ref("k", "k2"))
			i++
		}
	}
	gen.Fill(w.Store, specs, true, true)
}

// singles is the alphabet of conditions, simplest first.
var singles = []string{
	"", "x", "z", "xz", "!x", "!z", "!xz", "q", "nothere", "!nothere", "!", "!!x", " x", "x ", " ", "o1", "o10", "true", "!true", "c1", "m1", "X", "名", "1",
	`"x"`, `!"x"`, `"xz"`, `""`, `"x`, `x"`, `\`, "n", ",", "%", "<none>",
	"k=x", "k=z", "k=xz", "k=!x", "k=!xz", `k="x"`, `k=!"x"`, `k="xz"`, `k=!"xz"`, "k=", "k=!", `k=""`, `k=!""`, "k=x=z", "k==", "k=!!x", `k="!x"`, "k= x", "k=x z", "k=X", `k="=`, "k=名",
	`k=\`, "k=n", `k="x\z"`, `k="x"z"`, `k="n"`, `k="x`, `k=x"`, "k=,", "k2=x", `k2="z"`, "k2=!x", `k2=""`,
	"name=o1", `name="o1"`, `name=!"o1"`, "name=!o1", "namespace=m0", `namespace=!"m1"`, "cluster=c1", "cluster=c2", "cluster=!c1", "is_deleted=true", `is_deleted="false"`, "is_deleted=!true",
	"k=x;z", "k=;", "k=;;", "k=x;z;x", "x;z;x", "!x;z;x", `k="x;z;x"`, `k=";x;z;;x;"`, `";x;z;;x;"`, "k=z;x", "k=;x", "k=!;", "x  z", "k=x  z", `k=""x`, `k="x""`,
	"nokey=x", "nokey=", "nokey=!x", "K=x", ".k=x", "k.=x", "/k=x", "k2k=x", "is_deleted =x", "labels=x", "metadata.name=o1", "k =x", "k2 = x", "!k=x",
	ref.Adv + "k=x", ref.Adv + "k==x", ref.Adv + "k!=x", ref.Adv + "k in (x,z)", ref.Adv + " k in (x, z)", ref.Adv + "k notin (x,xz)", ref.Adv + "k", ref.Adv + "!k", ref.Adv + "nokey", ref.Adv + "!nokey",
	ref.Adv + "nokey=x", ref.Adv + "nokey!=x", ref.Adv + "k=x,k2=z", ref.Adv + "k=x,k2 in (x,z)", ref.Adv + "k=x,k=z", ref.Adv + "k in (x,z),k!=z", ref.Adv + "k=", ref.Adv + "k!=", ref.Adv + "k in ()", ref.Adv + "k2 in (,x)",
	ref.Adv + "name=o1", ref.Adv + "name in (o1,o2,o3)", ref.Adv + "namespace=m1", ref.Adv + "is_deleted=true", ref.Adv + "cluster=c1",
	" " + ref.Adv + "k=x", ref.Adv + "k=x ", ref.Adv + "  k2  =  x  ",
	ref.Adv, ref.Adv + " ", ref.Adv + "k in (", ref.Adv + "k=x z", ref.Adv + "=x", ref.Adv + ",", ref.Adv + "k in x", ref.Adv + "k=!x", ref.Adv + `k="x"`, ref.Adv + "k=x,", ref.Adv + "k=" + strings.Repeat("q", 64),
	"__ckube_as__", "_ckube_as__:k=x", ref.Adv + ref.Adv + "k=x",
}

// core is the smaller alphabet used for longer searches.
var core = []string{"x", "!z", `"xz"`, "k=x", "k=!xz", `k="x;z"`, "k=;", "k2=x", `k2=!""`, "nokey=x", " ", "is_deleted=true", ref.Adv + "k2 in (x,z)", ref.Adv + "k!=x", ref.Adv, " " + ref.Adv + "namespace=m0", ";x"}

type Case struct {
	Parts []string `json:",omitempty"` // conditions, joined with ';'
	Raw   string   `json:",omitempty"` // or the text itself
	NS    string   `json:",omitempty"`
	HTTP  bool     `json:",omitempty"`
	Cust  bool     `json:",omitempty"`
}

func (c Case) text() string {
	if c.Parts == nil {
		return c.Raw
	}
	ps := make([]string, len(c.Parts))
	for i, p := range c.Parts {
		if i > 0 && strings.HasPrefix(p, ";") {
			p = " " + p // otherwise the text would be ambiguous
		}
		ps[i] = p
	}
	return ref.Join(ps)
}

// unclear texts have no documented meaning: a condition with an empty key.
func unclear(s string) bool {
	for _, p := range ref.Split(s) {
		if strings.HasPrefix(strings.TrimSpace(p), "=") {
			return true
		}
	}
	return false
}

func exec(x *mc.X, c Case) error {
	s := c.text()
	if unclear(s) {
		return nil
	}
	var want []string
	wantErr := false
	for _, o := range refs {
		if c.NS != "" && o.Index["namespace"] != c.NS {
			continue
		}
		ok, err := ref.Match(o.Index, s)
		if err != nil {
			wantErr = true
		}
		if ok {
			want = append(want, o.Key)
		}
	}
	x.State(s + "|" + c.NS)
	x.Step(len(refs))
	gvr := gen.Pods
	if c.Cust {
		gvr = gen.Widgets
	}
	var got []string
	if c.HTTP {
		p := "/api/v1/pods"
		if c.Cust {
			p = "/apis/x.io/v1/widgets"
		}
		if c.NS != "" {
			p = strings.Replace(p, "/v1/", "/v1/namespaces/"+c.NS+"/", 1)
		}
		r := w.Get(p, url.Values{"labelSelector": {gen.Encode(page.Paginate{Search: s})}})
		if wantErr {
			x.Outcome("error")
			if r.Code != 400 {
				return fmt.Errorf("GET with search %q: status %d, want 400 (%s)", s, r.Code, r.Body)
			}
			return nil
		}
		_, items, err := world.ParseList(r)
		if err != nil {
			return fmt.Errorf("GET with search %q: %v", s, err)
		}
		got = world.Keys(items)
	} else {
		res := w.Store.Query(gvr, store.Query{Namespace: c.NS, Paginate: page.Paginate{Search: s}})
		if wantErr != (res.Error != nil) {
			return fmt.Errorf("search %q: error %v, want error: %v", s, res.Error, wantErr)
		}
		if wantErr {
			x.Outcome("error")
			return nil
		}
		got = gen.Keys(res.Items)
		if int(res.Total) != len(want) {
			return fmt.Errorf("search %q: total %d want %d", s, res.Total, len(want))
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Errorf("search %q ns=%q selects %s", s, c.NS, diff(got, want))
	}
	x.Outcome(strings.Join(got, " "))
	if len(got) > 0 && len(got) < 5 {
		x.Sample(map[string]interface{}{"search": s, "selected": got})
	}
	return nil
}

func desc(k string) string {
	for _, s := range specs {
		if s.Key() == k {
			return fmt.Sprintf("%s(k=%q,k2=%q,del=%v)", k, s.K["k"], s.K["k2"], s.Del)
		}
	}
	return k
}

func diff(got, want []string) string {
	g, w := map[string]bool{}, map[string]bool{}
	for _, k := range got {
		g[k] = true
	}
	for _, k := range want {
		w[k] = true
	}
	var extra, missing []string
	for k := range g {
		if !w[k] {
			extra = append(extra, desc(k))
		}
	}
	for k := range w {
		if !g[k] {
			missing = append(missing, desc(k))
		}
	}
	sort.Strings(extra)
	sort.Strings(missing)
	return fmt.Sprintf("%d objects, want %d: unexpected %v, missing %v", len(got), len(want), extra, missing)
}

// Direct is a case for the matcher alone.
type Direct struct {
	Raw string
	M   map[string]string
}

func execDirect(x *mc.X, c Direct) error {
	if unclear(c.Raw) {
		return nil
	}
	want, werr := ref.Match(c.M, c.Raw)
	p := page.Paginate{Search: c.Raw}
	got, err := p.Match(c.M)
	x.Step(1)
	x.State(c.Raw + mc.J(c.M))
	x.Outcome(fmt.Sprint(want, werr))
	if (err != nil) != (werr != nil) {
		return fmt.Errorf("search %q on %v: error %v, want %v", c.Raw, c.M, err, werr)
	}
	if err == nil && got != want {
		return fmt.Errorf("search %q on %v: %v, want %v", c.Raw, c.M, got, want)
	}
	return nil
}

func main() {
	mc.Main(mc.Def{
		ID:     "C05",
		Oracle: "a matcher written from PAGINATE_SPEC.md over the index values; advanced conditions by k8s.io/apimachinery labels.Parse",
		Assume: []string{"conditions with an empty key ('=x') have no documented meaning and are skipped",
			"surrounding white space of a condition is insignificant"},
		Families: []mc.Family{
			mc.Cases("single", mc.Opts{Bound: "each of the ~120 conditions, on 78 objects, directly and over HTTP, typed and custom objects, with and without namespace", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, s := range singles {
						for _, ns := range []string{"", "m1"} {
							for _, h := range []bool{false, true} {
								for _, cu := range []bool{false, true} {
									if !emit(Case{Parts: []string{s}, NS: ns, HTTP: h, Cust: cu}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("pairs", mc.Opts{Bound: "every ordered pair of the ~120 conditions, on 78 objects; every 5th pair over HTTP as well (thorough: all)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, a := range singles {
						for j, b := range singles {
							if !emit(Case{Parts: []string{a, b}}) {
								return
							}
							if (i*7+j)%mc.Pick(c, 5, 1) == 0 && !emit(Case{Parts: []string{a, b}, HTTP: true}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("triples", mc.Opts{Bound: "every triple of 17 conditions (thorough: quadruples too)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 3; n <= mc.Pick(c, 3, 4); n++ {
						if !mc.Words(len(core), n, func(wd []int) bool {
							var ps []string
							for _, i := range wd {
								ps = append(ps, core[i])
							}
							return emit(Case{Parts: ps})
						}) {
							return
						}
					}
				}, exec),
			mc.Cases("raw", mc.Opts{Bound: "every text of length <=6 (thorough 8) over {x ; space = ! k \"} on 11 index maps", Setup: setup},
				func(c *mc.Ctx, emit func(Direct) bool) {
					al := []string{"x", ";", "k", "=", "!", " ", `"`}
					var maps []map[string]string
					for _, v := range []string{"", "x", "x;", "kx", ";x", "!x", "x=k", "k", `x"`, ";x;", "x;x;k"} {
						maps = append(maps, map[string]string{"k": v, "o": ""})
					}
					for n := 0; n <= mc.Pick(c, 6, 8); n++ {
						if !mc.Words(len(al), n, func(wd []int) bool {
							var sb strings.Builder
							for _, i := range wd {
								sb.WriteString(al[i])
							}
							for i := range maps {
								if n == 6 && (i+wd[0]+wd[5])%3 != 0 && !c.Thorough() {
									continue
								}
								if !emit(Direct{sb.String(), maps[i]}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				}, execDirect),
			mc.Cases("many", mc.Opts{Bound: "1..60 conditions of which one (at each position) is false; values and terms of every length 0..300; 0..12 repetitions of each special character in value and term; 0..40 index keys with the only match at each key", Setup: setup},
				func(c *mc.Ctx, emit func(Direct) bool) {
					for n := 1; n <= 60; n++ {
						for f := -1; f < n; f++ {
							var ps []string
							for i := 0; i < n; i++ {
								if i == f {
									ps = append(ps, "k=no")
								} else {
									ps = append(ps, []string{"k=x", "x", `k="x"`, "!no", "k=!no", ref.Adv + "k=x"}[i%6])
								}
							}
							if !emit(Direct{ref.Join(ps), map[string]string{"k": "x"}}) {
								return
							}
						}
					}
					for n := 0; n <= 300; n++ {
						v := strings.Repeat("a", n) + "z"
						for _, t := range []string{"z", `"` + v + `"`, v, "a" + v, `"a` + v + `"`, v[1:], `"` + v[1:] + `"`} {
							for _, pre := range []string{"", "!", "k=", "k=!"} {
								if !emit(Direct{pre + t, map[string]string{"k": v}}) {
									return
								}
							}
						}
					}
					for _, ch := range []string{";", "=", "!", `"`, " ", ",", "\\", "%", "x", "名", "\n", "(", "ab"} {
						for n := 0; n <= 12; n++ {
							for k := 0; k <= 12; k++ {
								for _, f := range []string{"a%sb", "%s", "a%s", "%sb", "a%sb%[1]sc"} {
									v, t := fmt.Sprintf(f, strings.Repeat(ch, n)), fmt.Sprintf(f, strings.Repeat(ch, k))
									for _, cond := range []string{t, "!" + t, "k=" + t, "k=!" + t, `k="` + t + `"`} {
										if !emit(Direct{ref.Join([]string{cond}), map[string]string{"k": v, "o": "p"}}) {
											return
										}
									}
								}
							}
						}
					}
					for n := 0; n <= 40; n++ {
						for at := -1; at < n; at++ {
							m := map[string]string{}
							for i := 0; i < n; i++ {
								m[fmt.Sprintf("i%d", i)] = "v"
								if i == at {
									m[fmt.Sprintf("i%d", i)] = "axb"
								}
							}
							for _, s := range []string{"x", "!x", `"axb"`, `!"axb"`} {
								if !emit(Direct{s, m}) {
									return
								}
							}
						}
					}
				}, execDirect),
		},
	})
}
