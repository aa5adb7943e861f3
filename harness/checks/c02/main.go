// C02: concurrent cache reads and updates are atomic and race-free.
package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	corev1 "k8s.io/api/core/v1"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/vrt"
	_ "ckubemc/world"

	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

// Prog is a concurrent program: operations done before, and the operations of each thread.
//
//	A|M|D c/n/o  notification    R c  reset    G c/n/o  get    L [n]  list
//
// A leading w is about the second resource type.
type Prog struct {
	Init  []string
	T     [][]string
	Bound int
}

type event struct {
	op       string
	th       int
	version  string
	call     int64
	ret      int64
	got      map[string]string // cluster/ns/name -> version, for reads
	finished bool
}

var conf = map[store.GroupVersionResource]map[string]string{
	gen.Pods:    {"namespace": "{.metadata.namespace}", "name": "{.metadata.name}", "v": "{.metadata.labels.v}"},
	gen.Widgets: {"namespace": "{.metadata.namespace}"},
}

func gvr(op string) (store.GroupVersionResource, string) {
	if strings.HasPrefix(op, "w") {
		return gen.Widgets, op[1:]
	}
	return gen.Pods, op
}

func describe(i interface{}) (string, string, error) {
	p, ok := i.(*corev1.Pod)
	if !ok {
		return "", "", fmt.Errorf("a %T was returned", i)
	}
	var idx map[string]string
	_ = json.Unmarshal([]byte(p.Annotations["ckube.daocloud.io/indexes"]), &idx)
	v := p.ResourceVersion
	k := page.GetObjectCluster(p) + "/" + p.Namespace + "/" + p.Name
	if p.Labels["v"] != v || idx["cluster"] != page.GetObjectCluster(p) || idx["name"] != p.Name {
		return k, v, fmt.Errorf("an object that never existed was read: version %s labels %v annotations %v", v, p.Labels, p.Annotations)
	}
	return k, v, nil
}

func perform(s store.Store, e *event) (err error) {
	g, op := gvr(e.op)
	f := strings.SplitN(op, " ", 2)
	arg := ""
	if len(f) > 1 {
		arg = f[1]
	}
	k := strings.Split(arg, "/")
	e.call = vrt.Clock()
	defer func() { e.ret = vrt.Clock(); e.finished = true }()
	switch f[0] {
	case "A", "M", "D":
		p := gen.Spec{N: k[1], O: k[2], L: map[string]string{"v": e.version}}.Pod()
		p.ResourceVersion = e.version
		switch f[0] {
		case "A":
			return s.OnResourceAdded(g, k[0], p)
		case "M":
			return s.OnResourceModified(g, k[0], p)
		}
		return s.OnResourceDeleted(g, k[0], p)
	case "R":
		_ = s.Clean(g, arg)
	case "G":
		e.got = map[string]string{}
		if o := s.Get(g, k[0], k[1], k[2]); o != nil {
			key, v, err := describe(o)
			if err != nil {
				return err
			}
			e.got[key] = v
		}
	case "L":
		e.got = map[string]string{}
		r := s.Query(g, store.Query{Namespace: arg})
		if r.Error != nil {
			return r.Error
		}
		if r.Total != int64(len(r.Items)) {
			return fmt.Errorf("list of %d items has total %d", len(r.Items), r.Total)
		}
		for _, it := range r.Items {
			key, v, err := describe(it)
			if err != nil {
				return err
			}
			if _, ok := e.got[key]; ok {
				return fmt.Errorf("%s is listed twice", key)
			}
			e.got[key] = v
		}
	}
	return nil
}

// part is the effect of an event on one namespace of one cluster and type.
type part struct {
	e    *event
	kind byte // w(rite) d(elete) r(eset) g(et) l(ist)
	name string
	see  map[string]string
}

func project(evs []*event, g store.GroupVersionResource, cl, ns string) []part {
	var res []part
	pre := cl + "/" + ns + "/"
	for _, e := range evs {
		eg, op := gvr(e.op)
		if eg != g {
			continue
		}
		f := strings.SplitN(op, " ", 2)
		arg := ""
		if len(f) > 1 {
			arg = f[1]
		}
		switch f[0] {
		case "A", "M", "D", "G":
			if !strings.HasPrefix(arg, pre) {
				continue
			}
			p := part{e: e, name: arg[len(pre):]}
			p.kind = map[string]byte{"A": 'w', "M": 'w', "D": 'd', "G": 'g'}[f[0]]
			if p.kind == 'g' {
				p.see = map[string]string{}
				for k, v := range e.got {
					p.see[strings.TrimPrefix(k, pre)] = v
				}
			}
			res = append(res, p)
		case "R":
			if arg == cl {
				res = append(res, part{e: e, kind: 'r'})
			}
		case "L":
			if arg != "" && arg != ns {
				continue
			}
			p := part{e: e, kind: 'l', see: map[string]string{}}
			for k, v := range e.got {
				if strings.HasPrefix(k, pre) {
					p.see[k[len(pre):]] = v
				}
			}
			res = append(res, p)
		}
	}
	return res
}

func str(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// linearizable searches an order of the parts that respects real time and explains every read.
func linearizable(ps []part) bool {
	n := len(ps)
	seen := map[string]bool{}
	var rec func(done int, st map[string]string) bool
	rec = func(done int, st map[string]string) bool {
		if done == 1<<n-1 {
			return true
		}
		key := fmt.Sprint(done, str(st))
		if seen[key] {
			return false
		}
		seen[key] = true
		for i := range ps {
			if done&(1<<i) != 0 {
				continue
			}
			ok := true
			for j := range ps {
				if j != i && done&(1<<j) == 0 && ps[j].e.ret < ps[i].e.call {
					ok = false
				}
			}
			if !ok {
				continue
			}
			p := ps[i]
			nx := st
			switch p.kind {
			case 'g':
				w := map[string]string{}
				if v, ok := st[p.name]; ok {
					w[p.name] = v
				}
				if str(w) != str(p.see) {
					continue
				}
			case 'l':
				if str(st) != str(p.see) {
					continue
				}
			case 'r':
				nx = map[string]string{}
			default:
				nx = map[string]string{}
				for k, v := range st {
					nx[k] = v
				}
				if p.kind == 'w' {
					nx[p.name] = p.e.version
				} else {
					delete(nx, p.name)
				}
			}
			if rec(done|1<<i, nx) {
				return true
			}
		}
		return false
	}
	return rec(0, map[string]string{})
}

func show(evs []*event) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "  thread %d: [%d,%d] %s v=%s", e.th, e.call, e.ret, e.op, e.version)
		if e.got != nil {
			fmt.Fprintf(&b, " -> {%s}", str(e.got))
		}
		b.WriteString("\n")
	}
	return b.String()
}

func run(l *mc.Local, p Prog) error {
	var s store.Store
	var evs []*event
	var errs []error
	mk := func() []func() {
		s = memory.NewMemoryStore(conf)
		evs, errs = nil, nil
		for i, op := range p.Init {
			e := &event{op: op, th: -1, version: fmt.Sprintf("i%d", i)}
			evs = append(evs, e)
			if err := perform(s, e); err != nil {
				errs = append(errs, err)
			}
			e.call, e.ret = int64(2*i)-1000, int64(2*i)-999
		}
		errs = append(errs, make([]error, len(p.T))...)
		base := len(errs) - len(p.T)
		var fs []func()
		for t, ops := range p.T {
			var mine []*event
			for i, op := range ops {
				e := &event{op: op, th: t, version: fmt.Sprintf("t%d.%d", t, i)}
				mine = append(mine, e)
				evs = append(evs, e)
			}
			t, st, er := t, s, errs
			fs = append(fs, func() {
				for _, e := range mine {
					if err := perform(st, e); err != nil {
						er[base+t] = fmt.Errorf("%s: %v", e.op, err)
					}
				}
			})
		}
		return fs
	}
	var bad error
	max := 60000
	n, steps, all := vrt.Explore(p.Bound, max, mk, func(r vrt.Result) bool {
		where := func() string { return fmt.Sprintf("schedule %v\n%s", r.Schedule, show(evs)) }
		if r.Races > 0 {
			bad = fmt.Errorf("data race\n%s", where())
			return false
		}
		if r.Deadlock {
			bad = fmt.Errorf("deadlock\n%s", where())
			return false
		}
		if r.Panic != "" {
			bad = fmt.Errorf("panic: %s\n%s", r.Panic, where())
			return false
		}
		if r.Diverged {
			l.R.Notes = append(l.R.Notes, "an execution did not follow its schedule: "+mc.J(p))
			l.R.Capped = true
		}
		for _, e := range errs {
			if e != nil {
				bad = fmt.Errorf("%v\n%s", e, where())
				return false
			}
		}
		for _, g := range []string{"L", "wL"} {
			e := &event{op: g, th: len(p.T)}
			if err := perform(s, e); err != nil {
				bad = fmt.Errorf("%v\n%s", err, where())
				return false
			}
			e.call, e.ret = 1<<40, 1<<40+1
			evs = append(evs, e)
		}
		out := ""
		for _, g := range []store.GroupVersionResource{gen.Pods, gen.Widgets} {
			for _, cl := range []string{"c1", "c2"} {
				for _, ns := range []string{"n1", "n2", ""} {
					ps := project(evs, g, cl, ns)
					if len(ps) == 0 {
						continue
					}
					if !linearizable(ps) {
						bad = fmt.Errorf("not atomic for %s %s/%s\n%s", g.Resource, cl, ns, where())
						return false
					}
				}
			}
		}
		for _, e := range evs {
			if e.got != nil {
				out += e.op + "{" + str(e.got) + "}"
			}
		}
		l.Outcome(out)
		l.State(mc.J(p) + out)
		return true
	})
	l.Step(int(steps))
	l.Trace(n - 1)
	if bad != nil {
		return bad
	}
	if !all {
		l.R.Capped = true
		l.R.Notes = append(l.R.Notes, fmt.Sprintf("%d schedules of %s, more exist", n, mc.J(p)))
	}
	return nil
}

var alphabet = []string{"A c1/n1/x", "M c1/n1/x", "D c1/n1/x", "R c1", "G c1/n1/x", "L", "L n1", "A c1/n1/y", "A c1/n2/x", "A c2/n1/x", "D c1/n1/y", "R c2", "wA c1/n1/x", "wR c1"}

var inits = [][]string{nil, {"A c1/n1/x"}, {"A c1/n1/x", "A c1/n1/y", "A c1/n2/x", "A c2/n1/x"}}

func writes(ops ...string) bool {
	for _, o := range ops {
		_, o = gvr(o)
		if o[0] != 'G' && o[0] != 'L' {
			return true
		}
	}
	return false
}

func pairs(k int, ins [][]string, bound int, emit func(Prog) bool) bool {
	for _, in := range ins {
		for i, a := range alphabet[:k] {
			for _, b := range alphabet[i:k] {
				if writes(a, b) && !emit(Prog{in, [][]string{{a}, {b}}, bound}) {
					return false
				}
			}
		}
	}
	return true
}

func seqs(k int, ins [][]string, bound int, emit func(Prog) bool) bool {
	for _, in := range ins {
		for _, a := range alphabet[:k] {
			for _, a2 := range alphabet[:k] {
				for _, b := range alphabet[:k] {
					if writes(a, a2, b) && !emit(Prog{in, [][]string{{a, a2}, {b}}, bound}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func triples(k int, ins [][]string, bound int, emit func(Prog) bool) bool {
	for _, in := range ins {
		for i, a := range alphabet[:k] {
			for j, b := range alphabet[i:k] {
				for _, d := range alphabet[i+j : k] {
					if writes(a, b, d) && !emit(Prog{in, [][]string{{a}, {b}, {d}}, bound}) {
						return false
					}
				}
			}
		}
	}
	return true
}

func main() {
	if mc.IsWorker() {
		mc.Worker(map[string]func(*mc.Local, json.RawMessage) error{
			"pairs": mc.H(run), "sequences": mc.H(run), "triples": mc.H(run), "long": mc.H(run), "races": mc.H(run), "watchers": mc.H(runWatch),
		})
	}
	limit := 100 * time.Second
	mc.Main(mc.Def{ID: "C02",
		Oracle: "every history must be linearizable, separately for each namespace of a cluster and type, with respect to a map; data races are reported by the race detector, to which the scheduler adds no ordering; no enabled thread is a deadlock",
		Assume: []string{"threads are switched at lock, atomic and thread operations, which is enough for programs without data races; races themselves are detected on every explored schedule of the races family",
			"readers and writers of different namespaces need not agree on one order", "a waiting writer keeps later readers out, as sync.RWMutex does"},
		Families: []mc.Family{
			mc.Cases("pairs", mc.Opts{Bound: "every pair of 14 operations in 2 threads on 3 initial contents, up to 2 preemptions (thorough 5)"},
				func(c *mc.Ctx, emit func(Prog) bool) { pairs(14, inits, mc.Pick(c, 2, 5), emit) }, mc.Remote[Prog]("pairs", "", limit)),
			mc.Cases("sequences", mc.Opts{Bound: "every two of 8 (thorough 14) operations against every one, 1 (thorough 3) initial contents, up to 2 preemptions (thorough 3)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					seqs(mc.Pick(c, 8, 14), inits[1:mc.Pick(c, 2, 3)], mc.Pick(c, 2, 3), emit)
				}, mc.Remote[Prog]("sequences", "", limit)),
			mc.Cases("triples", mc.Opts{Bound: "every three of 7 (thorough 10) operations in 3 threads, 2 initial contents (thorough 3), up to 1 preemption (thorough 2)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					triples(mc.Pick(c, 7, 10), inits[:mc.Pick(c, 2, 3)], mc.Pick(c, 1, 2), emit)
				}, mc.Remote[Prog]("triples", "", limit)),
			mc.Cases("races", mc.Opts{Bound: "every pair of 14 operations, 3 initial contents, up to 1 preemption (thorough 2), and every three of 6 with 1, under the race detector"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					_ = pairs(14, inits, mc.Pick(c, 1, 2), emit) && c.Thorough() && triples(6, inits[1:2], 1, emit)
				}, mc.Remote[Prog]("races", ".race", limit)),
			mc.Cases("long", mc.Opts{Bound: "every two against every two of 8 operations, 2 initial contents, up to 2 preemptions", Thorough: true},
				func(c *mc.Ctx, emit func(Prog) bool) {
					for _, in := range inits[1:] {
						mc.Words(8, 4, func(w []int) bool {
							t := [][]string{{alphabet[w[0]], alphabet[w[1]]}, {alphabet[w[2]], alphabet[w[3]]}}
							if w[0]*8+w[1] > w[2]*8+w[3] || !writes(t[0]...) && !writes(t[1]...) {
								return true
							}
							return emit(Prog{in, t, 2})
						})
					}
				}, mc.Remote[Prog]("long", "", limit)),
			watchFamily(),
		}})
}
