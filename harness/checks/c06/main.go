// C06: restricting a query by cluster or namespace only adds that restriction.
package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/selection"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"net/url"

	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

var (
	w       *world.World
	refs    []ref.Obj
	visited sync.Map
)

func setup(c *mc.Ctx) {
	visited.Clear()
	w = world.New(gen.Config("c1", "k", "k2"), "c1", "c2", "c3")
	refs = nil
	var specs []gen.Spec
	i := 0
	for _, cl := range []string{"c1", "c2", "c3"} {
		for _, ns := range []string{"m1", "m2", ""} {
			for _, k := range [][2]string{{"x", ""}, {"xz", "x"}, {"z;a", "z"}, {`"`, "x;"}} {
				s := gen.Spec{C: cl, N: ns, O: fmt.Sprintf("o%d", i), K: map[string]string{"k": k[0], "k2": k[1]}, Del: i%3 == 0}
				specs = append(specs, s)
				refs = append(refs, s.Ref("k", "k2"))
				i++
			}
		}
	}
	gen.Fill(w.Store, specs, true, false)
}

// Op is one restriction.
type Op struct {
	C bool `json:",omitempty"` // clusters, otherwise namespaces
	V []string
}

func many(p string, last ...string) []string {
	var r []string
	for i := 0; i < 40; i++ {
		r = append(r, fmt.Sprintf("%s%d", p, i+10))
	}
	return append(r, last...)
}

var ops = []Op{
	{true, []string{"c1"}}, {false, []string{"m1"}}, {true, []string{"c3", "c1"}}, {false, []string{"m2", "m1"}}, {true, []string{"c2"}}, {true, []string{"c2", "c1"}}, {true, []string{"c1", "c1"}}, {true, []string{"cx"}},
	{false, []string{"m2"}}, {false, []string{"m1", "m1"}}, {false, []string{""}}, {false, []string{"mx", "m2"}},
	// unusual
	{true, many("d", "c2")}, {false, many("n", "m2")}, {true, []string{"c1", "a.b_c-D"}}, {false, []string{"", "m1"}},
	{true, []string{""}}, {true, []string{"c1", ""}}, {true, []string{"admin@kubernetes"}}, {true, []string{"c1", "a b"}}, {true, []string{"名"}}, {true, []string{strings.Repeat("c", 64)}}, {true, []string{"c1,c2"}}, {true, []string{"c1;c2"}}, {true, []string{"c1)"}},
	{false, []string{"a b"}}, {false, []string{"m1;m2"}}, {false, []string{"m1,m2"}}, {false, []string{strings.Repeat("m", 64)}},
	{true, nil}, {false, nil},
}

const plainOps = 12

var starts = []string{
	"x", "!x", "k=x", `k="xz"`, "k=!x", `k="z;a"`, "k2=;", ";", ";a", "is_deleted=true", `name="o5"`, "!o5", "c1", "m1", " k2=x ", "nokey=x",
	"cluster=c1", `cluster="c2"`, "cluster=!c1", "namespace=m1", `namespace=""`, "namespace=!m2", `k="""`,
	ref.Adv + "k=x", ref.Adv + "k in (x,xz)", ref.Adv + "k2!=x", ref.Adv + "k2", ref.Adv + "!k2", ref.Adv + "!nokey", ref.Adv + "k2 notin (x,z)", " " + ref.Adv + " k = x , k2 != z ", ref.Adv + "k=x,k=xz", ref.Adv + "is_deleted=true",
	ref.Adv + "cluster=c1", ref.Adv + "cluster==c2", ref.Adv + "cluster in (c1)", ref.Adv + "cluster in (c1,c2),k=x", " " + ref.Adv + "k2!=x,cluster=c3", ref.Adv + "cluster=c1,cluster in (c1,c2)",
	ref.Adv + "namespace=m1", ref.Adv + "namespace in (m1,m2)", " " + ref.Adv + "namespace==m2,k2!=x", ref.Adv + "namespace in (m1),cluster in (c1,c2)", ref.Adv + "namespace=",
	"k=" + ref.Adv + "x", "k=!" + ref.Adv, "x" + ref.Adv + "k=x", "k=x cluster=c1", "k=!namespace in (m1)",
	ref.Adv, ref.Adv + "k in (", ref.Adv + "k=x z",
}

type Case struct {
	Parts []string
	Ops   []int
	HTTP  bool `json:",omitempty"`
}

func text(parts []string) string {
	ps := make([]string, len(parts))
	for i, p := range parts {
		if i > 0 && strings.HasPrefix(p, ";") {
			p = " " + p
		}
		ps[i] = p
	}
	return ref.Join(ps)
}

// model of a query: plain conditions, other advanced requirements, and the two restrictions.
type model struct {
	plain     []string
	reqs      []labels.Requirement
	bad       bool // a malformed advanced condition
	adv       bool
	cl, ns    map[string]bool // nil: not restricted
	clR, nsR  []labels.Requirement
	clSet, ok bool
}

func parse(parts []string) model {
	var m model
	for _, p := range parts {
		t := strings.TrimSpace(p)
		if !strings.HasPrefix(t, ref.Adv) {
			m.plain = append(m.plain, p)
			continue
		}
		m.adv = true
		rs, err := labels.ParseToRequirements(t[len(ref.Adv):])
		if err != nil || t == ref.Adv {
			m.bad = true
			continue
		}
		for _, r := range rs {
			switch r.Key() {
			case "cluster":
				m.clR = append(m.clR, r)
			case "namespace":
				m.nsR = append(m.nsR, r)
			default:
				m.reqs = append(m.reqs, r)
			}
		}
	}
	return m
}

func (m *model) matches(o ref.Obj) (bool, error) {
	if m.bad {
		return false, ref.ErrSearch
	}
	ok := true
	for _, p := range m.plain {
		r, err := ref.Cond(o.Index, p)
		if err != nil {
			return false, err
		}
		ok = ok && r
	}
	for _, rs := range [][]labels.Requirement{m.reqs, m.clR, m.nsR} {
		for i := range rs {
			ok = ok && rs[i].Matches(labels.Set(o.Index))
		}
	}
	if m.cl != nil {
		ok = ok && m.cl[o.Index["cluster"]]
	}
	if m.ns != nil {
		ok = ok && m.ns[o.Index["namespace"]]
	}
	return ok, nil
}

func set(v []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range v {
		m[s] = true
	}
	return m
}

func names(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func exec(x *mc.X, c Case) error {
	m := parse(c.Parts)
	p := page.Paginate{Page: 1, PageSize: 1000, Sort: "name", Search: text(c.Parts)}
	for _, i := range c.Ops {
		op := ops[i]
		before := p
		var err error
		if op.C {
			err = p.Clusters(append([]string(nil), op.V...))
		} else {
			err = p.Namespaces(append([]string(nil), op.V...))
		}
		x.Step(1)
		bad := m.bad || len(op.V) == 0
		odd := false
		for _, v := range op.V {
			if op.C && v == "" {
				bad = true
			}
			if _, e := labels.NewRequirement("a", selection.In, []string{v}); e != nil {
				odd = true
			}
		}
		if bad && err == nil {
			return fmt.Errorf("restricting %q to %v succeeded, want an error", before.Search, op)
		}
		if err != nil {
			if !bad && !odd {
				return fmt.Errorf("restricting %q to %v: %v", before.Search, op, err)
			}
			if p != before {
				return fmt.Errorf("restricting %q to %v failed (%v) but changed the query to %+v", before.Search, op, err, p)
			}
			continue
		}
		if op.C {
			m.cl, m.clR = set(op.V), nil
			if g := names(set(p.GetClusters())); g != names(m.cl) {
				return fmt.Errorf("restricting %q to %v gives %q, which reads back as %q", before.Search, op, p.Search, g)
			}
		} else {
			m.ns, m.nsR = set(op.V), nil
		}
	}
	if p.Page != 1 || p.PageSize != 1000 || p.Sort != "name" || p.Total != 0 {
		return fmt.Errorf("restricting changed other fields: %+v", p)
	}
	if m.cl != nil && !m.bad {
		if g := names(set(p.GetClusters())); g != names(m.cl) {
			return fmt.Errorf("restricted to %v, reads back as %q (search %q)", names(m.cl), g, p.Search)
		}
	}
	x.State(p.Search)
	// equal states (query text and model) have equal selections: evaluate each once
	key := fmt.Sprintf("%s\x00%v\x00%v\x00%v\x00%v %v\x00%v\x00%v", p.Search, m.plain, m.reqs, m.clR, m.nsR, m.cl != nil, names(m.cl)+" "+fmt.Sprint(m.ns != nil)+names(m.ns), c.HTTP)
	if _, seen := visited.LoadOrStore(key, true); seen {
		return nil
	}
	var want []string
	wantErr := false
	for _, o := range refs {
		ok, err := m.matches(o)
		if err != nil {
			wantErr = true
		}
		if ok {
			want = append(want, o.Key)
		}
	}
	var got []string
	if c.HTTP && m.cl != nil {
		lo, err := page.QueryListOptions(v1.ListOptions{}, p)
		if err != nil {
			return err
		}
		r := w.Get("/api/v1/pods", url.Values{"labelSelector": {lo.LabelSelector}})
		if (r.Code == 400) != wantErr {
			return fmt.Errorf("query %q: status %d, want error: %v", p.Search, r.Code, wantErr)
		}
		if wantErr {
			return nil
		}
		_, items, err := world.ParseList(r)
		if err != nil {
			return err
		}
		got = world.Keys(items)
	} else {
		res := w.Store.Query(gen.Pods, store.Query{Paginate: p})
		if (res.Error != nil) != wantErr {
			return fmt.Errorf("query %q: error %v, want error: %v", p.Search, res.Error, wantErr)
		}
		if wantErr {
			return nil
		}
		got = gen.Keys(res.Items)
	}
	x.Step(len(refs))
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		var o []string
		for _, i := range c.Ops {
			o = append(o, fmt.Sprint(ops[i]))
		}
		return fmt.Errorf("search %q restricted by %v became %q and selects\n  %v\nwant\n  %v", text(c.Parts), o, p.Search, got, want)
	}
	x.Outcome(strings.Join(got, " "))
	if len(c.Ops) == 2 && len(c.Parts) == 2 {
		x.Sample(map[string]string{"start": text(c.Parts), "ops": fmt.Sprint(ops[c.Ops[0]], ops[c.Ops[1]]), "result": p.Search})
	}
	return nil
}

func words(starts []string, np, no, nOps int, http int, emit func(Case) bool) bool {
	n := 0
	return mc.Words(len(starts), np, func(ws []int) bool {
		var parts []string
		for _, i := range ws {
			parts = append(parts, starts[i])
		}
		return mc.Words(nOps, no, func(wo []int) bool {
			n++
			return emit(Case{parts, append([]int(nil), wo...), http > 0 && n%http == 0})
		})
	})
}

func main() {
	mc.Main(mc.Def{
		ID:     "C06",
		Oracle: "plain conditions by the reference matcher, advanced requirements by labels.Requirement, restrictions as sets",
		Assume: []string{"an advanced condition written on the restricted key with = or in is an earlier restriction of that kind; a plain cluster= or namespace= condition is another condition",
			"names that are no label values may be refused with an error that leaves the query unchanged"},
		Families: []mc.Family{
			mc.Cases("sequences", mc.Opts{Bound: "0 or 1 starting condition of 47, every sequence of <=3 of 12 restrictions", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for np := 0; np <= 1; np++ {
						for no := 0; no <= 3; no++ {
							if !words(starts, np, no, plainOps, 3, emit) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("unusual", mc.Opts{Bound: "0 or 1 starting condition, every sequence of <=2 of 31 restrictions incl. refused ones, empty, many and odd names", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for np := 0; np <= 1; np++ {
						for no := 0; no <= 2; no++ {
							if !words(starts, np, no, len(ops), 3, emit) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("starts", mc.Opts{Bound: "every pair of the starting conditions with 1 of 12 restrictions or 2 of 3, every triple of 15 with 1 of 3 (thorough: pairs with 3 of 8, triples of all 47 with 2 of 4)", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					if !words(starts, 2, 1, plainOps, 7, emit) {
						return
					}
					// two cluster and one namespace restriction first
					if !c.Thorough() {
						_ = words(starts, 2, 2, 3, 7, emit) && words(few, 3, 1, 3, 0, emit)
						return
					}
					_ = words(starts, 2, 3, 8, 7, emit) && words(few, 4, 2, 4, 0, emit) && words(starts, 3, 2, 4, 0, emit)
				}, exec),
		},
	})
}

var few = []string{"x", "k=!x", ";a", "cluster=c1", "namespace=!m2", " k2=x ", ref.Adv + "k in (x,xz)", ref.Adv + "k2!=x", " " + ref.Adv + "!nokey", ref.Adv + "cluster=c1", ref.Adv + "cluster in (c1,c2),k=x",
	" " + ref.Adv + "namespace==m2,k2!=x", ref.Adv + "namespace in (m1,m2)", ref.Adv + "namespace in (m1),cluster in (c1,c2)", ref.Adv}
