// Package mc is a small explicit-state / exhaustive-enumeration engine. A check is a list of
// families; a family enumerates a finite, stated space of cases (operation words, inputs, fault
// histories, schedules) simplest first and executes every one of them on the real code, comparing
// it with a reference model.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const shards = 64

var stderr = os.Stderr

type hset struct {
	mu [shards]sync.Mutex
	m  [shards]map[uint64]struct{}
	n  atomic.Int64
}

func (h *hset) add(k uint64) {
	s := k % shards
	h.mu[s].Lock()
	if h.m[s] == nil {
		h.m[s] = map[uint64]struct{}{}
	}
	if _, ok := h.m[s][k]; !ok {
		h.m[s][k] = struct{}{}
		h.n.Add(1)
	}
	h.mu[s].Unlock()
}

func hash(s string) uint64 {
	f := fnv.New64a()
	_, _ = f.Write([]byte(s))
	return f.Sum64()
}

// Ctx is the state of one run of a check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	start    time.Time
	deadline time.Time
	states   hset
	outcomes hset
	steps    atomic.Int64
	traces   atomic.Int64
	capped   atomic.Bool
	mu       sync.Mutex
	samples  []interface{}
	fams     []map[string]interface{}
	viol     int
	known    int
	knownSet []string
	curFam   string
	famCases atomic.Int64
	notes    []string
	assume   []string
	hung     bool
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

// Expired reports that the internal deadline has passed; the caller stops enumerating.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.capped.Store(true)
		return true
	}
	return false
}

func (c *Ctx) Note(f string, a ...interface{}) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// Capped records that a bound was cut short.
func (c *Ctx) Capped() { c.capped.Store(true) }

// X records what one execution covered.
type X struct {
	c *Ctx
	r *running
}

// State records a (canonical) state of model and implementation that was reached.
func (x *X) State(s string) { x.c.states.add(hash(x.c.curFam + "\x00" + s)) }

// Step records n operations executed on the implementation and compared with the model.
func (x *X) Step(n int) { x.c.steps.Add(int64(n)) }

// Outcome records a distinct observable outcome.
func (x *X) Outcome(s string) { x.c.outcomes.add(hash(x.c.curFam + "\x00" + s)) }

// Trace records n complete model traces replayed on the implementation in addition to the case itself.
func (x *X) Trace(n int) { x.c.traces.Add(int64(n)) }

func (x *X) Ctx() *Ctx { return x.c }

// Sample adds a written-out case to the evidence (the first few are kept).
func (x *X) Sample(v interface{}) {
	x.c.mu.Lock()
	if len(x.c.samples) < 12 {
		x.c.samples = append(x.c.samples, v)
	}
	x.c.mu.Unlock()
}

type Family struct {
	Name     string
	Bound    string
	Thorough bool // only in the thorough tier
	run      func(c *Ctx) bool
	replay   func(c *Ctx, raw json.RawMessage) error
}

// Opts of a family.
type Opts struct {
	Bound    string
	Workers  int // 0 = all CPUs
	Setup    func(c *Ctx)
	Thorough bool
	Batch    int // cases handed to a worker at once, 16 if not set
	Confirm  int // 0: a failure counts at once (deterministic code); n: it must fail n more times
	// Limit is how long a case may take before it counts as hanging, a minute if not set (thorough: five times that).
	Limit time.Duration
}

// running is what a worker is busy with.
type running struct {
	mu    sync.Mutex
	since time.Time // zero: nothing
	what  interface{}
	gid   string
	extra time.Duration
}

// Allow gives the current case more time before it counts as hanging.
func (x *X) Allow(d time.Duration) {
	if x.r != nil {
		x.r.mu.Lock()
		x.r.extra += d
		x.r.mu.Unlock()
	}
}

func (r *running) begin(what interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.since, r.what, r.extra = time.Now(), what, 0
	if r.gid == "" {
		r.gid = strings.Fields(string(stack(false)))[1]
	}
}

func (r *running) end() { r.mu.Lock(); r.since = time.Time{}; r.mu.Unlock() }

func stack(all bool) []byte {
	b := make([]byte, 1<<20)
	return b[:runtime.Stack(b, all)]
}

// hanging describes where the goroutine and those of the code under check are.
func hanging(gid string) string {
	var own, others []string
	for _, g := range strings.Split(string(stack(true)), "\n\n") {
		f := strings.Fields(g)
		switch {
		case len(f) > 1 && f[1] == gid:
			own = append(own, trimStack([]byte(g)))
		case strings.Contains(g, "github.com/DaoCloud/ckube/") && len(others) < 3:
			others = append(others, trimStack([]byte(g)))
		}
	}
	return strings.Join(append(own, others...), "\n\n")
}

func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	if len(l) > 40 {
		l = l[:40]
	}
	return strings.Join(l, "\n")
}

// Cases makes a family from a generator (simplest first) and an executor.
func Cases[T any](name string, o Opts, gen func(c *Ctx, emit func(T) bool), exec func(x *X, t T) error) Family {
	f := Family{Name: name, Bound: o.Bound, Thorough: o.Thorough}
	one := func(c *Ctx, r *running, t T) error {
		return guard(func() error { return exec(&X{c, r}, t) })
	}
	f.replay = func(c *Ctx, raw json.RawMessage) error {
		var t T
		if err := json.Unmarshal(raw, &t); err != nil {
			return fmt.Errorf("bad replay file: %v", err)
		}
		if o.Setup != nil {
			o.Setup(c)
		}
		return one(c, nil, t)
	}
	f.run = func(c *Ctx) bool {
		workers := o.Workers
		if workers == 0 {
			workers = runtime.GOMAXPROCS(0)
		}
		var stop atomic.Bool
		var once sync.Mutex
		limit := o.Limit
		if limit == 0 {
			limit = time.Minute
		}
		if c.Thorough() {
			limit *= 5
		}
		busy := make([]*running, workers+1)
		for i := range busy {
			busy[i] = &running{}
		}
		handle := func(r *running, t T) {
			if stop.Load() || c.Expired() {
				return
			}
			c.famCases.Add(1)
			c.traces.Add(1)
			r.begin(t)
			err := one(c, r, t)
			r.end()
			if err == nil {
				return
			}
			if strings.HasPrefix(err.Error(), "HARNESS:") {
				c.Capped()
				c.Note("family %s: %v", name, err)
				fmt.Fprintf(stderr, "%v\n", err)
				return
			}
			for i := 0; i < o.Confirm; i++ {
				r.begin(t)
				e := one(c, r, t)
				r.end()
				if e == nil {
					c.Note("family %s: a failure was not reproducible and was discarded: %v", name, firstLine(err))
					fmt.Fprintf(stderr, "not reproducible: %v\n", err)
					return
				} else {
					err = e
				}
			}
			once.Lock()
			defer once.Unlock()
			if stop.Load() {
				return
			}
			var full interface{} = t
			if i, ok := err.(*instead); ok {
				full = i.t
			}
			if !c.violation(name, full, err) {
				return // a listed known finding
			}
			stop.Store(true)
		}
		done := make(chan bool)
		go func() {
			if o.Setup != nil {
				busy[workers].begin(nil)
				err := guard(func() error { o.Setup(c); return nil })
				busy[workers].end()
				if err != nil {
					c.violation(name, nil, err)
					stop.Store(true)
					close(done)
					return
				}
			}
			ch := make(chan []T, 4*workers)
			var wg sync.WaitGroup
			for i := 0; i < workers; i++ {
				wg.Add(1)
				go func(r *running) {
					defer wg.Done()
					for b := range ch {
						for _, t := range b {
							handle(r, t)
						}
					}
				}(busy[i])
			}
			bs := 16
			if o.Batch > 0 {
				bs = o.Batch
			}
			if workers == 1 {
				bs = 1
			}
			var batch []T
			gen(c, func(t T) bool {
				batch = append(batch, t)
				if len(batch) >= bs {
					ch <- batch
					batch = nil
				}
				return !stop.Load() && !c.Expired()
			})
			if len(batch) > 0 {
				ch <- batch
			}
			close(ch)
			wg.Wait()
			close(done)
		}()
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		for {
			select {
			case <-done:
				return stop.Load()
			case <-tick.C:
			}
			for _, r := range busy {
				r.mu.Lock()
				since, what, gid, limit := r.since, r.what, r.gid, limit+r.extra
				r.mu.Unlock()
				if since.IsZero() || time.Since(since) < limit {
					continue
				}
				once.Lock()
				if !stop.Load() {
					stop.Store(true)
					c.violation(name, what, fmt.Errorf("hangs: no end within %v\n%s", limit, hanging(gid)))
				}
				c.hung = true // the locks of the code may be held: nothing else can run in this process
				return true
			}
		}
	}
	return f
}

func firstLine(e error) string { return strings.SplitN(e.Error(), "\n", 2)[0] }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type replayFile struct {
	Property string          `json:"property"`
	Family   string          `json:"family"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	How      string          `json:"how"`
}

type instead struct {
	t interface{}
	error
}

// Instead makes t the case that a violation is reported with (for instance including what happened before).
func Instead(t interface{}, err error) error { return &instead{t, err} }

// violation reports and returns true, or prints KNOWN-FINDING and returns false.
func (c *Ctx) violation(fam string, t interface{}, err error) bool {
	raw, _ := json.Marshal(t)
	for _, k := range loadKnown() {
		if k.Property == c.ID && k.Family == fam && canon(k.Case) == canon(raw) {
			c.mu.Lock()
			c.known++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.What)
			c.mu.Unlock()
			return false
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.viol++
	dir := filepath.Join(verifDir(), "evidence", "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.ID, strings.ReplaceAll(fam, " ", "-"), c.viol))
	b, _ := json.MarshalIndent(replayFile{c.ID, fam, raw, err.Error(), "./run.sh " + c.ID + " replay " + p}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	fmt.Printf("  family %s\n  case %s\n  %s\n", fam, clip(string(raw), 2000), clip(err.Error(), 4000))
	return true
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func canon(b []byte) string {
	var v interface{}
	_ = json.Unmarshal(b, &v)
	o, _ := json.Marshal(v)
	return string(o)
}

type known struct {
	Property, Family, What string
	Case                   json.RawMessage
}

// loadKnown reads the "known:" lines of KNOWN_FINDINGS.txt. "fixed:" lines suppress nothing.
func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var res []known
	for _, l := range strings.Split(string(b), "\n") {
		if s, ok := strings.CutPrefix(l, "known: "); ok {
			var k known
			if json.Unmarshal([]byte(s), &k) == nil {
				res = append(res, k)
			}
		}
	}
	return res
}

// Def describes a check.
type Def struct {
	ID       string
	Assume   []string
	Oracle   string
	Families []Family
	Quick    time.Duration // internal deadline, default 150 s
	Long     time.Duration // default 780 s
}

// Main runs the check and exits.
func Main(d Def) {
	if os.Getenv(supervised) == "" {
		os.Exit(supervise(d, os.Args[1:]))
	}
	rc := RunDef(d, os.Args[1:])
	_ = os.WriteFile(os.Getenv(supervised), []byte("done"), 0o644)
	os.Exit(rc)
}

// RunDef runs the check: args is [quick|thorough] or [replay FILE] or [quick FAMILY].
func RunDef(d Def, args []string) int {
	debug.SetGCPercent(200)
	tier := os.Getenv("VERIF_TIER")
	only := ""
	if len(args) > 0 {
		switch args[0] {
		case "quick", "thorough":
			tier = args[0]
			if len(args) > 1 {
				only = args[1]
			}
		case "replay":
			return replay(d, args[1])
		}
	}
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	c := &Ctx{ID: d.ID, Tier: tier, Seed: seed, start: time.Now(), assume: d.Assume}
	lim := d.Quick
	if lim == 0 {
		lim = 150 * time.Second
	}
	if tier == "thorough" {
		lim = d.Long
		if lim == 0 {
			lim = 780 * time.Second
		}
	}
	c.deadline = c.start.Add(lim)
	for _, f := range d.Families {
		if f.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && f.Name != only {
			continue
		}
		st := time.Now()
		c.curFam = f.Name
		c.famCases.Store(0)
		if p := os.Getenv(supervised); p != "" {
			_ = os.WriteFile(p, []byte("family "+f.Name), 0o644)
		}
		s0, t0, cap0 := c.states.n.Load(), c.steps.Load(), c.capped.Load()
		c.capped.Store(false)
		stopped := f.run(c)
		capped := c.capped.Load()
		c.capped.Store(cap0 || capped)
		c.fams = append(c.fams, map[string]interface{}{
			"family": f.Name, "bound": f.Bound, "cases": c.famCases.Load(),
			"states": c.states.n.Load() - s0, "transitions": c.steps.Load() - t0,
			"exhaustive": !capped && !stopped, "wall_s": round(time.Since(st).Seconds()),
		})
		fmt.Fprintf(stderr, "%s %-28s cases=%d states=%d steps=%d %.1fs%s\n", d.ID, f.Name, c.famCases.Load(),
			c.states.n.Load()-s0, c.steps.Load()-t0, time.Since(st).Seconds(), map[bool]string{true: " CAPPED"}[capped])
		if c.hung {
			break
		}
	}
	c.write(d)
	if c.viol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func (c *Ctx) write(d Def) {
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none recorded")
	}
	sort.Strings(c.notes)
	if len(c.notes) > 20 {
		c.notes = c.notes[:20]
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": c.states.n.Load(), "transitions": c.steps.Load(),
			"traces_validated_against_impl": c.traces.Load(),
			"distinct_outcomes":             c.outcomes.n.Load(),
			"exhaustive":                    !c.capped.Load() && c.viol == 0,
			"families":                      c.fams, "samples": c.samples,
			"oracle": d.Oracle,
			"binding": "there is no separate model of the implementation: every trace is executed on the code built " +
				"from the working tree and compared with the reference model after each step",
			"known_findings_seen": c.known, "notes": c.notes,
		},
		"assumptions": append([]string{}, d.Assume...),
		"wall_s":      round(time.Since(c.start).Seconds()), "violations": c.viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}

func replay(d Def, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := &Ctx{ID: d.ID, Tier: "quick", start: time.Now(), deadline: time.Now().Add(10 * time.Minute)}
	for _, f := range d.Families {
		if f.Name == r.Family {
			c.curFam = f.Name
			if string(r.Case) == "null" { // the family as a whole
				return RunDef(d, []string{"quick", f.Name})
			}
			if err := f.replay(c, r.Case); err != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n%v\n", d.ID, file, err)
				return 1
			}
			fmt.Println("replayed: the property holds on this case")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such family", r.Family)
	return 2
}

// Words emits every word over 0..k-1 of length exactly n.
func Words(k, n int, emit func([]int) bool) bool {
	w := make([]int, n)
	for {
		if !emit(append([]int(nil), w...)) {
			return false
		}
		i := n - 1
		for ; i >= 0; i-- {
			w[i]++
			if w[i] < k {
				break
			}
			w[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// Perms emits every permutation of 0..n-1.
func Perms(n int, emit func([]int) bool) bool {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return emit(append([]int(nil), p...))
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			if !rec(i + 1) {
				return false
			}
			p[i], p[j] = p[j], p[i]
		}
		return true
	}
	return rec(0)
}

// Subsets emits every subset of 0..n-1 as a bit mask in order of size.
func Subsets(n int, emit func(mask int) bool) bool {
	for size := 0; size <= n; size++ {
		for m := 0; m < 1<<n; m++ {
			if popcount(m) == size && !emit(m) {
				return false
			}
		}
	}
	return true
}

func popcount(m int) int {
	c := 0
	for ; m != 0; m &= m - 1 {
		c++
	}
	return c
}

// J renders v as JSON for messages.
func J(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}
