// C16: concurrent requests and a store swap do not interfere.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"k8s.io/client-go/kubernetes"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/vrt"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

var (
	nodes = world.GVR("", "v1", "nodes")
	accts = world.GVR("", "v1", "serviceaccounts")
	lists = "/api/v1/pods?labelSelector="
)

// ops are requests, name -> method path body
var ops = map[string][3]string{
	"list":      {"GET", "/api/v1/pods", ""},
	"selected":  {"GET", "/api/v1/namespaces/m1/pods?labelSelector=l%3Da", ""},
	"page":      {"GET", "/api/v1/pods?labelSelector=Q", ""},
	"get":       {"GET", "/api/v1/namespaces/m1/pods/p1", ""},
	"nodes":     {"GET", "/api/v1/nodes", ""}, // cached by the first pair only
	"node":      {"GET", "/api/v1/nodes/p1", ""},
	"accts":     {"GET", "/api/v1/serviceaccounts", ""}, // cached by the later pairs only
	"fwd":       {"GET", "/api/v1/namespaces/m1/configmaps", ""},
	"fwd2":      {"GET", "/api/v1/namespaces/m1/secrets?cluster=c2", ""},
	"post":      {"POST", "/api/v1/namespaces/m1/pods", `{"a":1}`},
	"watch":     {"GET", "/api/v1/pods?watch=true", ""},
	"svc":       {"GET", "/custom/v1/namespaces/m1/deployments/d/services", ""},
	"table":     {"GET", "/api/v1/pods", "TABLE"},
	"only2":     {"GET", "/api/v1/pods/x?cluster=c3", ""},               // a cluster of the later pairs only
	"slowwatch": {"GET", "/api/v1/namespaces/slow/pods?watch=true", ""}, // ends when all others are done
	"slowfwd":   {"GET", "/api/v1/namespaces/slow/configmaps", ""},
	"slowpost":  {"POST", "/api/v1/namespaces/slow/pods", "{}"},
	"bad":       {"GET", "/api/v1/pods?labelSelector=BAD", ""},
}

func init() {
	q := gen.Encode(page.Paginate{Page: 1, PageSize: 1, Sort: "name desc", Search: "p"})
	o := ops["page"]
	o[1] = strings.Replace(o[1], "=Q", "="+strings.NewReplacer(" ", "+", "(", "%28", ")", "%29", ",", "%2C").Replace(q), 1)
	ops["page"] = o
	q = gen.Encode(page.Paginate{Sort: "nosuchkey"})
	o = ops["bad"]
	o[1] = strings.Replace(o[1], "=BAD", "="+strings.NewReplacer(" ", "+", "(", "%28", ")", "%29", ",", "%2C").Replace(q), 1)
	ops["bad"] = o
}

// Prog is a concurrent program: the steps of each thread. swap replaces store and clients, conf
// installs an equal configuration again.
type Prog struct {
	T     [][]string
	Bound int
}

type upstream struct {
	gen  int
	cl   string
	seen *[]string
}

// gate opens when all other threads are done.
var gate *vrt.LockState

func isWatch(r *http.Request) bool { return r.URL.Query().Get("watch") != "" }

type slow struct {
	io.Reader
	io.Closer
	open bool // stays open until the others are done
}

func (s *slow) Read(b []byte) (int, error) {
	n, err := s.Reader.Read(b)
	if err == io.EOF && s.open && gate != nil {
		vrt.Join(gate)
	}
	return n, err
}

func bucket(r *http.Request) string {
	d, ok := r.Context().Deadline()
	if !ok {
		return "none"
	}
	m := time.Until(d)
	switch {
	case m > 29*time.Minute && m <= 30*time.Minute:
		return "30m"
	case m > 50*time.Second && m <= time.Minute:
		return "1m"
	}
	return m.String()
}

func (u *upstream) RoundTrip(r *http.Request) (*http.Response, error) {
	vrt.Point()
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
	}
	s := fmt.Sprintf("gen%d %s %s %s %s %q limit %s", u.gen, u.cl, r.Method, r.URL.Path, r.URL.RawQuery, b, bucket(r))
	vrt.Point()
	if gate != nil && strings.Contains(r.URL.Path, "slow") && !isWatch(r) {
		vrt.Join(gate) // answers when all others are done
	}
	res := world.Response(r, 200, `{"by":`+fmt.Sprintf("%q", s)+"}\n{\"line\":2}\n")
	res.Body = &slow{res.Body, res.Body, isWatch(r) && strings.Contains(r.URL.Path, "slow")}
	return res, nil
}

type pair struct {
	st  store.Store
	cli map[string]kubernetes.Interface
}

var (
	cfg   common.Config
	pairs []pair
)

// prepare makes the three pairs once; requests do not change them.
func prepare() {
	if pairs != nil {
		return
	}
	cfg = gen.Config("c1", "k")
	cfg.Proxies = append(cfg.Proxies, world.Proxy("", "v1", "services", "Service", gen.IndexKeys()), world.Proxy("", "v1", "nodes", "Node", gen.IndexKeys()),
		world.Proxy("", "v1", "serviceaccounts", "ServiceAccount", gen.IndexKeys()))
	world.New(cfg)
	for g := 0; g < 3; g++ {
		ic := world.IndexConf(cfg)
		if g > 0 {
			delete(ic, nodes)
		} else {
			delete(ic, accts)
		}
		p := pair{memory.NewMemoryStore(ic), map[string]kubernetes.Interface{}}
		for _, c := range []string{"c1", "c2", "c3"} {
			if c == "c3" && g == 0 {
				continue
			}
			p.cli[c] = world.ClientFor(&upstream{gen: g, cl: c})
			for i := 0; i <= g+1; i++ {
				s := gen.Spec{C: c, N: "m1", O: fmt.Sprintf("p%d", i), L: map[string]string{"l": "a", "gen": fmt.Sprint(g)}}
				_ = p.st.OnResourceAdded(gen.Pods, c, s.Pod())
				if g == 0 {
					s.N = ""
					_ = p.st.OnResourceAdded(nodes, c, s.Custom())
				} else {
					_ = p.st.OnResourceAdded(accts, c, s.Custom())
				}
			}
		}
		pairs = append(pairs, p)
	}
	gate = nil
	// what every request answers alone, with every pair
	for g := range pairs {
		w := &world.World{Store: pairs[g].st, Clients: pairs[g].cli}
		w.Serve()
		for o := range ops {
			alone[fmt.Sprint(g, o)] = do(w, o)
		}
	}
}

var alone = map[string]string{}

func do(w *world.World, op string) string {
	o := ops[op]
	var h []string
	body := o[2]
	if body == "TABLE" {
		body, h = "", []string{"Accept", "application/json;as=Table"}
	}
	r := w.Do(world.Req(o[0], o[1], nil, body, h...))
	return fmt.Sprintf("%d %s", r.Code, r.Body)
}

type event struct {
	op        string
	call, ret int64
	ans       string
	gen       int // for swap: the number of the pair
}

func run(l *mc.Local, p Prog) error {
	prepare()
	var evs []*event
	mk := func() []func() {
		common.InitConfig(&[]common.Config{cfg}[0])
		w := &world.World{Store: pairs[0].st, Clients: pairs[0].cli}
		w.Serve()
		evs = nil
		g := 0
		gt := &vrt.LockState{}
		gate = gt
		var fs []func()
		for _, t := range p.T {
			var mine []*event
			counted := false
			for _, o := range t {
				if !counted && !strings.HasPrefix(o, "slow") {
					counted = true
					vrt.AddCount(gt, 1)
				}
				e := &event{op: o}
				if o == "swap" {
					g++
					e.gen = g
				}
				mine = append(mine, e)
				evs = append(evs, e)
			}
			fs = append(fs, func() {
				if counted {
					defer vrt.AddCount(gt, -1)
				}
				for _, e := range mine {
					e.call = vrt.Clock()
					switch e.op {
					case "swap":
						w.Server.ResetStore(pairs[e.gen].st, pairs[e.gen].cli)
					case "conf":
						c := cfg
						common.InitConfig(&c)
					default:
						e.ans = do(w, e.op)
					}
					e.ret = vrt.Clock()
				}
			})
		}
		return fs
	}
	var bad error
	n, steps, all := vrt.Explore(p.Bound, 60000, mk, func(r vrt.Result) bool {
		where := func() string {
			var b strings.Builder
			for _, e := range evs {
				fmt.Fprintf(&b, "  [%d,%d] %s %.300s\n", e.call, e.ret, e.op, e.ans)
			}
			return fmt.Sprintf("schedule %v\n%s", r.Schedule, b.String())
		}
		switch {
		case r.Races > 0:
			bad = fmt.Errorf("data race\n%s", where())
		case r.Deadlock:
			bad = fmt.Errorf("deadlock\n%s", where())
		case r.Panic != "":
			bad = fmt.Errorf("panic: %s\n%s", r.Panic, where())
		}
		if bad != nil {
			return false
		}
		if r.Diverged {
			l.R.Notes = append(l.R.Notes, "an execution did not follow its schedule: "+mc.J(p))
			l.R.Capped = true
		}
		var out []string
		for _, e := range evs {
			if e.op == "swap" || e.op == "conf" {
				continue
			}
			// the pairs that may serve it: the last swapped in before it began, and those swapped in while it ran
			may := map[int]bool{}
			for g := 0; g < 3; g++ {
				var sw *event
				for _, s := range evs {
					if s.gen == g && g > 0 {
						sw = s
					}
				}
				if g > 0 && (sw == nil || sw.call > e.ret) {
					continue
				}
				// replaced before the request began
				gone := false
				for _, s := range evs {
					if s.gen > 0 && s.gen != g && s.ret < e.call && (g == 0 || sw.ret < s.call) {
						gone = true
					}
				}
				if !gone {
					may[g] = true
				}
			}
			ok := false
			for g := range may {
				if alone[fmt.Sprint(g, e.op)] == e.ans {
					ok = true
				}
			}
			if !ok {
				want := ""
				for g := range may {
					want += "\n  " + alone[fmt.Sprint(g, e.op)]
				}
				bad = fmt.Errorf("%s is answered %.400s\nwant one of%.1500s\n%s", e.op, e.ans, want, where())
				return false
			}
			out = append(out, e.op+e.ans)
		}
		sort.Strings(out)
		l.Outcome(strings.Join(out, ";"))
		l.State(mc.J(p.T) + strings.Join(out, ";"))
		return true
	})
	l.Step(int(steps))
	l.Trace(n - 1)
	if bad == nil && !all {
		l.R.Capped = true
		l.R.Notes = append(l.R.Notes, fmt.Sprintf("%d schedules of %s, more exist", n, mc.J(p.T)))
	}
	return bad
}

var names = []string{"list", "selected", "page", "get", "nodes", "node", "accts", "fwd", "fwd2", "post", "watch", "svc", "table", "only2", "bad"}

func two(bound int, emit func(Prog) bool) bool {
	for i, a := range names {
		for _, b := range names[i:] {
			if !emit(Prog{[][]string{{a}, {b}}, bound}) {
				return false
			}
		}
	}
	for _, b := range []string{"swap", "conf"} {
		for _, a := range names {
			if !emit(Prog{[][]string{{a}, {b}}, bound}) || !emit(Prog{[][]string{{a, a}, {b}}, bound}) {
				return false
			}
		}
	}
	for _, a := range names {
		if !emit(Prog{[][]string{{a}, {"swap", "swap"}}, bound}) || !emit(Prog{[][]string{{a}, {"swap", "conf"}}, bound}) || !emit(Prog{[][]string{{a}, {"swap", a}}, bound}) {
			return false
		}
	}
	return emit(Prog{[][]string{{"conf"}, {"conf"}}, bound}) && emit(Prog{[][]string{{"swap"}, {"conf"}}, bound})
}

func main() {
	if mc.IsWorker() {
		mc.Worker(map[string]func(*mc.Local, json.RawMessage) error{"pairs": mc.H(run), "three": mc.H(run), "slow": mc.H(run), "races": mc.H(run)})
	}
	limit := 120 * time.Second
	mc.Main(mc.Def{ID: "C16",
		Oracle: "every answer (status, body, what the API server saw and which time limit it was given) must be the one the same request gets alone from one of the store and client pairs that were in service while it ran; data races, deadlocks and panics are violations",
		Assume: []string{"threads are switched at lock, atomic and thread operations of the repository's packages and at API-server contacts",
			"the configuration itself may change between two reads of one request"},
		Families: []mc.Family{
			mc.Cases("pairs", mc.Opts{Bound: "every pair of 15 requests, and every request against a swap, two swaps or a configuration change, up to 2 preemptions (thorough 4)"},
				func(c *mc.Ctx, emit func(Prog) bool) { two(mc.Pick(c, 2, 4), emit) }, mc.Remote[Prog]("pairs", "", limit)),
			mc.Cases("three", mc.Opts{Bound: "every pair of 15 requests against a swap, 3 threads, up to 1 preemption (thorough 2)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					for i, a := range names {
						for _, b := range names[i:] {
							if !emit(Prog{[][]string{{a}, {b}, {"swap"}}, mc.Pick(c, 1, 2)}) {
								return
							}
						}
					}
				}, mc.Remote[Prog]("three", "", limit)),
			mc.Cases("slow", mc.Opts{Bound: "a watch, read or write that the API server keeps open until all other threads are done, against every request, a swap, and a swap followed by every request; up to 2 preemptions (thorough 3)"},
				func(c *mc.Ctx, emit func(Prog) bool) {
					for _, a := range []string{"slowwatch", "slowfwd", "slowpost"} {
						for _, b := range append([]string{"swap", "conf", "slowwatch", "slowfwd"}, names...) {
							if !emit(Prog{[][]string{{a}, {b}}, mc.Pick(c, 2, 3)}) || !strings.HasPrefix(b, "slow") && !emit(Prog{[][]string{{a}, {"swap", b}}, mc.Pick(c, 2, 3)}) || !emit(Prog{[][]string{{a}, {"swap"}, {b}}, mc.Pick(c, 1, 2)}) {
								return
							}
						}
					}
				}, mc.Remote[Prog]("slow", "", limit)),
			mc.Cases("races", mc.Opts{Bound: "the programs of the pairs family, up to 1 preemption (thorough 2), under the race detector"},
				func(c *mc.Ctx, emit func(Prog) bool) { two(mc.Pick(c, 1, 2), emit) }, mc.Remote[Prog]("races", ".race", limit)),
			mc.Cases("crowd", mc.Opts{Limit: 6 * time.Minute, Bound: "1, 30 and 600 (thorough 2000) reads, writes, watches or all of them in turn, to 1 or 3 clusters, sent to the real server program; the API server answers none of them before all have arrived", Workers: 2},
				func(c *mc.Ctx, emit func(Crowd) bool) {
					for _, n := range mc.Pick(c, []int{1, 30, 600}, []int{1, 2, 8, 30, 120, 600, 2000}) {
						for _, k := range []string{"read", "write", "watch", "mixed"} {
							for _, cl := range []int{1, 3} {
								if n == 600 && !c.Thorough() && (k == "write" || cl == 3 && k != "mixed") {
									continue
								}
								if !emit(Crowd{n, k, cl}) {
									return
								}
							}
						}
					}
				}, crowd),
		}})
}
