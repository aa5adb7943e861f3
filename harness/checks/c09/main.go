// C09: a query survives its trip through the label selector.
package main

import (
	"fmt"
	"math"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
)

// capture is a store that records what the server decoded.
type capture struct {
	store.Store
	got   []store.Query
	items []interface{}
}

func (c *capture) Query(g store.GroupVersionResource, q store.Query) store.QueryResult {
	c.got = append(c.got, q)
	return store.QueryResult{Items: append([]interface{}(nil), c.items...), Total: int64(len(c.items))}
}
func (c *capture) IsStoreGVR(g store.GroupVersionResource) bool { return true }

type bench struct {
	w *world.World
	c *capture
}

var (
	base *world.World
	pool sync.Pool
)

// labelled objects for the meaning of the caller's selector
var assignments = []map[string]string{nil, {"a": "1"}, {"a": "2"}, {"a": ""}, {"b": "1"}, {"a": "1", "b": "1"}, {"a": "2", "b": "2"}, {"a": "1", "b": "2", "x.io/c": "v"}, {"ckube.daocloud.io/query": "own"},
	many(40, ""), many(40, "q39"), many(40, "q7"), many(9, "")}

// many is q0=1, q1=1... without one of them.
func many(n int, not string) map[string]string {
	m := map[string]string{"a": "1"}
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("q%d", i)] = "1"
	}
	delete(m, not)
	return m
}

func setup(c *mc.Ctx) {
	base = world.New(gen.Config("c1", "k"), "c1", "c2")
	pool = sync.Pool{New: func() interface{} {
		cp := &capture{}
		w := &world.World{Ups: base.Ups, Clients: base.Clients, Store: cp}
		w.Serve()
		return &bench{w, cp}
	}}
}

func items(sel bool) []interface{} {
	if !sel {
		return nil
	}
	var r []interface{}
	for i, a := range assignments {
		r = append(r, gen.Spec{C: "c1", N: "m", O: fmt.Sprintf("o%d", i), L: a}.Pod())
	}
	return r
}

// send gives the options to the server; what was decoded and which objects were selected.
func send(lo metav1.ListOptions, withItems bool) (*store.Query, []string, world.Resp, error) {
	b := pool.Get().(*bench)
	defer pool.Put(b)
	b.c.got, b.c.items = nil, items(withItems)
	q := url.Values{}
	if lo.LabelSelector != "" {
		q.Set("labelSelector", lo.LabelSelector)
	}
	r := b.w.Get("/api/v1/pods", q)
	if len(b.c.got) == 0 {
		return nil, nil, r, fmt.Errorf("the server did not decode the query: status %d %s (selector %s)", r.Code, clip(string(r.Body)), clip(lo.LabelSelector))
	}
	var names []string
	if r.Code == 200 {
		_, its, err := world.ParseList(r)
		if err != nil {
			return nil, nil, r, err
		}
		for _, i := range its {
			names = append(names, i.Metadata.Name)
		}
	}
	return &b.c.got[len(b.c.got)-1], names, r, nil
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

// split separates a search into its plain conditions and its advanced requirements.
func split(s string) (plain []string, adv []string) {
	for _, p := range ref.Split(s) {
		t := strings.TrimSpace(p)
		if strings.HasPrefix(t, ref.Adv) {
			rs, err := labels.ParseToRequirements(t[len(ref.Adv):])
			if err != nil || len(rs) == 0 {
				adv = append(adv, "?"+t)
			}
			for _, r := range rs {
				// = and == and in (one) are the same
				sl := labels.NewSelector().Add(r).String()
				adv = append(adv, strings.ReplaceAll(strings.Join(r.Values().List(), ","), " ", "")+"|"+r.Key()+"|"+opClass(sl))
			}
		} else if t != "" {
			plain = append(plain, t)
		}
	}
	sort.Strings(plain)
	sort.Strings(adv)
	return
}

func opClass(s string) string {
	switch {
	case strings.Contains(s, "!=") || strings.Contains(s, " notin "):
		return "notin"
	case strings.Contains(s, "=") || strings.Contains(s, " in "):
		return "in"
	}
	return strings.TrimLeft(s, "abcdefghijklmnopqrstuvwxyz_")
}

func hasCluster(adv []string) bool {
	for _, a := range adv {
		if strings.HasSuffix(a, "|cluster|in") {
			return true
		}
	}
	return false
}

func same(p page.Paginate, got store.Query, paged bool) error {
	if paged {
		if !sameNum(p.Page, got.Page) || !sameNum(p.PageSize, got.PageSize) {
			return fmt.Errorf("page %d size %d decoded as %d, %d", p.Page, p.PageSize, got.Page, got.PageSize)
		}
	}
	if p.Sort != got.Sort {
		return fmt.Errorf("sort %q decoded as %q", clip(p.Sort), clip(got.Sort))
	}
	wp, wa := split(p.Search)
	gp, ga := split(got.Search)
	if !hasCluster(wa) {
		wa = append(wa, "c1|cluster|in")
		sort.Strings(wa)
	}
	if !reflect.DeepEqual(wp, gp) {
		return fmt.Errorf("search %q decoded as %q", clip(p.Search), clip(got.Search))
	}
	if !reflect.DeepEqual(wa, ga) {
		return fmt.Errorf("search %q decoded as %q: advanced conditions %v, %v", clip(p.Search), clip(got.Search), wa, ga)
	}
	return nil
}

// numbers beyond any list may be clamped
func sameNum(a, b int64) bool { return a == b || a >= math.MaxInt32 && b >= math.MaxInt32 }

// Case: a query, built from a compact description.
type Case struct {
	P     page.Paginate
	From  rune   `json:",omitempty"` // the 64 code points from here on
	N     int    `json:",omitempty"` // how many
	Pad   int    `json:",omitempty"` // characters before them
	Len   int    `json:",omitempty"` // or a text of this length
	Sort  bool   `json:",omitempty"` // put it into the sort instead of the search
	Sel   string `json:",omitempty"` // the caller's selector
	First *Case  `json:",omitempty"` // a query encoded before
	Form  string `json:",omitempty"` // how the earlier query is written: "", "=", "!=", "in"
	Extra bool   `json:",omitempty"` // set the other list options as well
}

func (c Case) query() page.Paginate {
	p := c.P
	t := ""
	if c.N > 0 {
		var sb strings.Builder
		sb.WriteString(strings.Repeat("k", c.Pad))
		for i := 0; i < c.N; i++ {
			r := c.From + rune(i)
			if utf8.ValidRune(r) {
				sb.WriteRune(r)
			}
		}
		t = sb.String()
	}
	if c.Len > 0 {
		var sb strings.Builder
		for i := 0; sb.Len() < c.Len; i++ {
			sb.WriteByte("abcdefghijklmnopqrstuvwxyz0123456789-ABC"[(i*7+i/40)%40])
		}
		t = sb.String()
	}
	if c.Sort {
		p.Sort += t
	} else {
		p.Search += t
	}
	return p
}

func selMeaning(sel string) (string, error) {
	s, err := labels.Parse(sel)
	if err != nil {
		return "", err
	}
	rs, _ := s.Requirements()
	out := ""
	for i, a := range assignments {
		ok := true
		for _, r := range rs {
			if r.Key() != "ckube.daocloud.io/query" {
				ok = ok && r.Matches(labels.Set(a))
			}
		}
		if ok {
			out += fmt.Sprintf(" o%d", i)
		}
	}
	return out, nil
}

func exec(x *mc.X, c Case) error {
	p := c.query()
	lo := metav1.ListOptions{LabelSelector: c.Sel}
	if c.First != nil {
		f, err := page.QueryListOptions(lo, c.First.query())
		if err != nil {
			return fmt.Errorf("first encoding: %v", err)
		}
		switch c.Form {
		case "":
			lo = f
		default: // the same value in another notation
			e, _ := page.QueryListOptions(metav1.ListOptions{}, c.First.query())
			v := e.LabelSelector[strings.Index(e.LabelSelector, "(")+1 : len(e.LabelSelector)-1]
			m := "ckube.daocloud.io/query" + c.Form + v
			if c.Form == "in" {
				m = "ckube.daocloud.io/query in (" + v + ")"
			}
			if lo.LabelSelector != "" {
				m = "," + m
			}
			lo.LabelSelector += m
		}
	}
	if c.Extra {
		n := int64(5)
		lo.FieldSelector, lo.Limit, lo.Continue, lo.TimeoutSeconds, lo.ResourceVersion, lo.Watch, lo.AllowWatchBookmarks, lo.ResourceVersionMatch = "metadata.name=x", 7, "tok", &n, "12", true, true, "Exact"
		lo.Kind = "ListOptions"
	}
	before := lo
	x.Step(1)
	out, err := page.QueryListOptions(lo, p)
	if err != nil {
		return fmt.Errorf("encoding %s into %q: %v", clip(mc.J(p)), lo.LabelSelector, err)
	}
	if !reflect.DeepEqual(lo, before) {
		return fmt.Errorf("the caller's options were changed in place")
	}
	empty := p == (page.Paginate{})
	if empty {
		if !reflect.DeepEqual(out, before) {
			return fmt.Errorf("an empty query changed the options: %+v to %+v", before, out)
		}
		if c.First == nil {
			return nil
		}
		p = c.First.query() // the earlier one stays
	}
	x.State(out.LabelSelector)
	rest, rb := out, before
	rest.LabelSelector, rb.LabelSelector = "", ""
	if !reflect.DeepEqual(rest, rb) {
		return fmt.Errorf("other options changed: %+v to %+v", before, out)
	}
	if _, err := labels.Parse(out.LabelSelector); err != nil {
		return fmt.Errorf("encoded as the invalid selector %q: %v", clip(out.LabelSelector), err)
	}
	if p.Page < 0 || p.PageSize < 0 {
		if _, _, r, err := send(out, false); err == nil || r.Code != 400 {
			return fmt.Errorf("negative page accepted: %d", r.Code)
		}
		return nil
	}
	want, err := selMeaning(c.Sel)
	if err != nil {
		return err
	}
	if got, _ := selMeaning(out.LabelSelector); got != want {
		return fmt.Errorf("selector %q became %q, which selects%s instead of%s", c.Sel, clip(out.LabelSelector), got, want)
	}
	got, names, _, err := send(out, c.Sel != "")
	if err != nil {
		return err
	}
	if err := same(p, *got, c.Sel == ""); err != nil {
		return err
	}
	if c.Sel != "" && p.Page == 0 {
		if g := strings.Join(append([]string{""}, names...), " "); g != want {
			return fmt.Errorf("selector %q with query %s selects [%s] want [%s]", c.Sel, clip(mc.J(p)), g, want)
		}
	}
	x.Outcome(fmt.Sprint(len(out.LabelSelector)))
	if len(out.LabelSelector) < 200 {
		x.Sample(map[string]string{"query": mc.J(p), "selector": out.LabelSelector})
	}
	return nil
}

func main() {
	mc.Main(mc.Def{
		ID:     "C09",
		Oracle: "what the real server hands to its store, compared field by field; selectors by k8s.io/apimachinery",
		Assume: []string{"texts are valid UTF-8", "numbers of 2^31 and more may be clamped"},
		Families: []mc.Family{
			mc.Cases("characters", mc.Opts{Bound: "every Unicode code point, in blocks of 64 at 3 alignments, in search and sort; the first 2048 also one at a time", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for r := rune(0); r < 0x800; r++ {
						for pad := 0; pad < 3; pad++ {
							if !emit(Case{From: r, N: 1, Pad: pad}) || !emit(Case{From: r, N: 1, Pad: pad, Sort: true}) {
								return
							}
						}
					}
					for r := rune(0); r <= 0x10ffff; r += 64 {
						for pad := 0; pad < 3; pad++ {
							if !emit(Case{From: r, N: 64, Pad: pad}) || (pad == 0 || c.Thorough()) && !emit(Case{From: r, N: 64, Pad: pad, Sort: true}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("lengths", mc.Opts{Bound: "search of every length 0..2000, 7300..7700 (10,000 base64 characters) and around 75,000 (100,000); thorough 0..8000", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					for n := 0; n <= mc.Pick(c, 2000, 8000); n++ {
						if !emit(Case{Len: n}) || n%5 == 0 && !emit(Case{Len: n, Sel: "a=1", P: page.Paginate{Sort: "k"}}) {
							return
						}
					}
					for n := 7300; n <= 7700; n += mc.Pick(c, 3, 1) {
						if !emit(Case{Len: n}) {
							return
						}
					}
					for n := 74900; n <= 75100; n += mc.Pick(c, 20, 1) {
						if !emit(Case{Len: n}) {
							return
						}
					}
				}, exec),
			mc.Cases("fields", mc.Opts{Bound: "13 pages x 13 sizes x 4 sorts x 19 searches, and with total set", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					nums := []int64{0, 1, 2, 7, 10, 99, 1000, 1<<31 - 1, 1 << 31, math.MaxInt64, -1, -10, math.MinInt64}
					for _, a := range nums {
						for _, b := range nums {
							for _, so := range []string{"", "name", "n!int desc, name", " "} {
								for _, se := range searches {
									if !emit(Case{P: page.Paginate{Page: a, PageSize: b, Sort: so, Search: se}}) || !c.Thorough() && a > 2 && b > 2 {
										break
									}
								}
								if !emit(Case{P: page.Paginate{Page: a, PageSize: b, Sort: so, Total: 5}, Extra: true}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("selectors", mc.Opts{Bound: "every caller's selector of <=2 of 18 requirements x 12 queries, with all other list options", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					eachSel(func(sel string) bool {
						for _, p := range queries() {
							if !emit(Case{P: p, Sel: sel}) || !emit(Case{P: p, Sel: sel, Extra: true}) {
								return false
							}
						}
						return true
					})
				}, exec),
			mc.Cases("long selectors", mc.Opts{Bound: "caller's selectors of 1..40 requirements of each of 6 kinds and of all mixed, of which each in turn decides, and in and notin with 1..60 values, each with 4 queries", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					qs := []page.Paginate{{Page: 1, PageSize: 30}, {Search: "k=x;;y"}, {Search: strings.Repeat("long", 30)}, {Sort: "k desc"}}
					kinds := []string{"q%d=1", "q%d", "q%d!=2", "q%d in (1,2)", "q%d notin (0,2)", "!r%d"}
					deciding := []string{"q%d=2", "!q%d", "q%d!=1", "q%d in (0,2)", "q%d notin (1,2)", "r%d"}
					for n := 1; n <= 40; n++ {
						for at := -1; at < n; at++ {
							for k := 0; k <= len(kinds); k++ {
								var rs []string
								for i := 0; i < n; i++ {
									kk := k
									if k == len(kinds) {
										kk = i % len(kinds)
									}
									f := kinds[kk]
									if i == at {
										f = deciding[kk]
									}
									rs = append(rs, fmt.Sprintf(f, i))
								}
								if !c.Thorough() && (n+at+k)%3 != 0 && at >= 0 {
									continue
								}
								if !emit(Case{P: qs[(n+at+1+k)%len(qs)], Sel: strings.Join(rs, ",")}) {
									return
								}
							}
						}
					}
					for n := 1; n <= 60; n++ {
						for _, at := range []int{-1, 0, n / 2, n - 1} {
							var vs []string
							for i := 0; i < n; i++ {
								v := fmt.Sprintf("v%d", i)
								if i == at {
									v = "1"
								}
								vs = append(vs, v)
							}
							for i, op := range []string{"in", "notin"} {
								if !emit(Case{P: qs[(n+i)%len(qs)], Sel: fmt.Sprintf("a %s (%s)", op, strings.Join(vs, ","))}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("tampered", mc.Opts{Bound: "queries of 0..400 (step 7) and 7480..7620 (step 20) characters; each part dropped, repeated or renumbered, all reversed, a foreign one added: not answered from the cache, or decoded as it was", Setup: setup},
				func(c *mc.Ctx, emit func(Tamper) bool) {
					var ls []int
					for n := 0; n <= 400; n += mc.Pick(c, 7, 1) {
						ls = append(ls, n)
					}
					for n := 7480; n <= 7620; n += mc.Pick(c, 20, 1) {
						ls = append(ls, n)
					}
					for _, n := range ls {
						for _, sel := range []string{"", "a=1,b"} {
							for i := 0; i < 12; i++ {
								for _, op := range []string{"drop", "repeat", "renumber", "reverse", "extra"} {
									if i > 0 && (op == "reverse" || op == "extra") {
										continue
									}
									if !emit(Tamper{n, op, i, sel}) {
										return
									}
								}
							}
						}
					}
				}, tampered),
			mc.Cases("twice", mc.Opts{Bound: "every pair of 12 queries (and empty) encoded in turn, the earlier one in 4 notations where it is one value, with every caller's selector of <=1 requirement", Setup: setup},
				func(c *mc.Ctx, emit func(Case) bool) {
					qs := append(queries(), page.Paginate{})
					for _, a := range qs[:len(qs)-1] {
						for _, b := range qs {
							for _, sel := range append([]string{""}, reqs...) {
								if !emit(Case{P: b, First: &Case{P: a}, Sel: sel}) {
									return
								}
								if len(mc.J(a)) > 40 || b == (page.Paginate{}) {
									continue
								}
								for _, f := range []string{"=", "!=", "in", "=="} {
									if !emit(Case{P: b, First: &Case{P: a}, Form: f, Sel: sel}) {
										return
									}
								}
							}
						}
					}
				}, exec),
		},
	})
}

// Tamper: the encoded query loses, repeats or moves parts on its way.
type Tamper struct {
	Len int
	Op  string
	I   int
	Sel string `json:",omitempty"`
}

func tampered(x *mc.X, c Tamper) error {
	p := Case{Len: c.Len, P: page.Paginate{Page: 1, PageSize: 3}}.query()
	lo, err := page.QueryListOptions(metav1.ListOptions{LabelSelector: c.Sel}, p)
	if err != nil {
		return err
	}
	s := lo.LabelSelector
	a := strings.Index(s, "ckube.daocloud.io/query")
	a += strings.Index(s[a:], "(") + 1
	b := a + strings.Index(s[a:], ")")
	vals := strings.Split(s[a:b], ",")
	if c.I >= len(vals) {
		return nil
	}
	switch c.Op {
	case "drop":
		vals = append(append([]string{}, vals[:c.I]...), vals[c.I+1:]...)
	case "repeat":
		vals = append(vals, vals[c.I])
	case "reverse":
		for i, j := 0, len(vals)-1; i < j; i, j = i+1, j-1 {
			vals[i], vals[j] = vals[j], vals[i]
		}
	case "renumber":
		if i := strings.Index(vals[c.I], "."); i > 0 {
			vals[c.I] = "9" + vals[c.I][1:]
		}
	case "extra": // a part of another query
		if len(vals) < 2 {
			return nil
		}
		vals = append(vals, "0056."+strings.Repeat("A", 56))
	}
	if len(vals) == 0 {
		return nil
	}
	x.Step(1)
	x.State(mc.J(c))
	lo.LabelSelector = s[:a] + strings.Join(vals, ",") + s[b:]
	got, _, r, err := send(lo, false)
	same1 := c.Op == "repeat" || c.Op == "reverse"
	if err != nil {
		x.Outcome(fmt.Sprint(r.Code))
		if same1 {
			return fmt.Errorf("the parts in another order or repeated: %v", err)
		}
		return nil // refused, or left to the API server
	}
	x.Outcome("decoded")
	if !same1 && (c.Op != "renumber" || len(vals) > 1) {
		return fmt.Errorf("parts %s of the query (%d): decoded all the same as %s", c.Op, c.I, clip(mc.J(got.Paginate)))
	}
	return same(p, *got, c.Sel == "")
}

var searches = []string{"", "x", "k=x;k=!y", "a;;b", ";;", `k="x"`, "名前", "<&>\u2028", "??>>~~", "__ckube_as__:k in (a,b)", "__ckube_as__:cluster in (c2)", "__ckube_as__:cluster in (c1,c2);x", "x;__ckube_as__:cluster in (c2),k!=y",
	strings.Repeat("x", 29), strings.Repeat("y;", 40), "100%", "\x00\x01\t\n\r\x7f", "{\"page\":1}", "\\u0041\\"}

func queries() []page.Paginate {
	return []page.Paginate{{Page: 1}, {PageSize: 1}, {Page: 2, PageSize: 3}, {Sort: "k desc"}, {Search: "x"}, {Search: "k=x;;y"}, {Search: "名?>"}, {Page: 1, PageSize: 10, Sort: "k!int desc,name", Search: "__ckube_as__:cluster in (c1,c2);k=x"},
		{Search: strings.Repeat("long", 30)}, {Search: strings.Repeat("long", 300), Sort: "k"}, {Sort: strings.Repeat("k,", 50)}, {Search: "__ckube_as__:cluster in (c2)"}}
}

var reqs = []string{"a=1", "a==2", "a!=1", "a in (1,2)", "a notin (1)", "a", "!a", "a in (2)", "b=1", "b", "!b", "b notin (1,2)", "x.io/c=v", "x.io/c!=v", "!x.io/c", "a in (,1)", "a=", "a!="}

func eachSel(f func(string) bool) {
	for _, r := range reqs {
		if !f(r) {
			return
		}
	}
	for _, a := range reqs {
		for _, b := range reqs {
			if !f(a + "," + b) {
				return
			}
		}
	}
}
