package vrt

import (
	"fmt"
	"runtime"
	"sync"
)

// The scheduler runs exactly one thread at a time (GOMAXPROCS is 1) and hands over by spinning on
// plain variables from functions that the race detector does not see, so that it adds no
// happens-before edges: a race between two threads is reported in every schedule that executes both
// accesses without synchronisation of the code under test between them.
//
// Restrictions of norace code: no maps, no append, no copy, no channel operations.

const (
	maxThreads = 32
	maxPoints  = 1 << 16
)

const (
	opStep  = iota // always enabled
	opLock         // waits until nobody holds the lock
	opRLock        // waits until no writer holds it or waits for it
	opJoin         // waits until a counter is zero
)

// LockState is the model of a lock.
type LockState struct {
	writer  bool
	readers int32
	waiting int32 // announced writers: they keep later readers out
	count   int32 // for opJoin
}

type thread struct {
	op   int
	l    *LockState
	done bool
	gid  uint64
}

type point struct {
	choice, n int32
}

type sched struct {
	active   bool
	cur      int
	n        int
	th       [maxThreads]thread
	pts      [maxPoints]point
	prefix   int // the first choices are prescribed
	np       int
	preempt  int
	bound    int
	clock    int64
	abort    bool
	deadlock bool
	overflow bool
	diverged bool
	wg       *sync.WaitGroup
	panics   [maxThreads]interface{}
}

var s sched

//go:norace
func enabled(t *thread) bool {
	if t.done {
		return false
	}
	switch t.op {
	case opLock:
		return !t.l.writer && t.l.readers == 0
	case opRLock:
		return !t.l.writer && t.l.waiting == 0
	case opJoin:
		return t.l.count <= 0
	}
	return true
}

// pick chooses the thread that runs next; me is the one that runs now.
//
//go:norace
func pick(me int) {
	if s.abort {
		return
	}
	var cand [maxThreads]int
	n := 0
	meEnabled := enabled(&s.th[me])
	if meEnabled {
		cand[0] = me
		n = 1
	}
	if !meEnabled || s.preempt < s.bound {
		for i := 0; i < s.n; i++ {
			if i != me && enabled(&s.th[i]) {
				cand[n] = i
				n++
			}
		}
	}
	if n == 0 {
		for i := 0; i < s.n; i++ {
			if !s.th[i].done {
				s.deadlock = true
				s.abort = true
				return
			}
		}
		s.cur = -1
		return
	}
	c := 0
	if n > 1 { // a point with a choice
		if s.np >= maxPoints {
			s.overflow = true
		} else {
			p := &s.pts[s.np]
			if s.np < s.prefix {
				if p.n != 0 && int(p.n) != n {
					s.diverged = true
				}
				c = int(p.choice)
				if c >= n {
					s.diverged = true
					c = 0
				}
			} else {
				p.choice = 0
			}
			p.n = int32(n)
			s.np++
		}
	}
	if meEnabled && cand[c] != me {
		s.preempt++
	}
	s.clock++
	s.cur = cand[c]
}

// yield declares the next operation of the running thread and returns when it may perform it.
//
//go:norace
func yield(op int, l *LockState) {
	me := s.cur
	t := &s.th[me]
	t.op, t.l = op, l
	pick(me)
	wait(me)
}

//go:norace
func wait(me int) {
	for s.cur != me {
		if s.abort {
			break
		}
		runtime.Gosched()
	}
	if s.abort {
		runtime.Goexit()
	}
}

// strangers: goroutines that are no threads of the execution use instrumented code as well.
var strangers bool

// Strangers makes goroutines that are no threads of a controlled execution wait for its end at their
// next synchronisation operation. It must not be called during an execution.
func Strangers() { strangers = true }

// gid is the number of the running goroutine.
//
//go:norace
func gid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var g uint64
	for i := len("goroutine "); i < n && b[i] >= '0' && b[i] <= '9'; i++ {
		g = g*10 + uint64(b[i]-'0')
	}
	return g
}

// Active tells whether a controlled execution is running.
//
//go:norace
func Active() bool {
	if !s.active || s.abort {
		return false
	}
	if strangers {
		if c := s.cur; c < 0 || s.th[c].gid != gid() {
			for s.active {
				runtime.Gosched()
			}
			return false
		}
	}
	return true
}

// Point is a scheduling point.
//
//go:norace
func Point() {
	if Active() {
		yield(opStep, nil)
	}
}

// Clock is the number of scheduling decisions so far.
//
//go:norace
func Clock() int64 { s.clock++; return s.clock }

//go:norace
func register() int {
	i := s.n
	if i >= maxThreads {
		panic("too many threads")
	}
	s.n++
	s.th[i].op, s.th[i].l, s.th[i].done = opStep, nil, false
	return i
}

//go:norace
func finish(i int) {
	s.th[i].done = true
	if !s.abort {
		pick(i)
	}
}

// Go starts a thread.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	start(f)
	Point()
}

func start(f func()) {
	i := register()
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer finish(i)
		defer func() {
			if r := recover(); r != nil {
				setPanic(i, r)
			}
		}()
		setGid(i)
		wait(i)
		f()
	}()
}

//go:norace
func setGid(i int) {
	if strangers {
		s.th[i].gid = gid()
	}
}

//go:norace
func setPanic(i int, r interface{}) { s.panics[i] = r }

// WLock, WUnlock, RLock and RUnlock drive the model of a lock; the caller performs the real operation
// as well. No lock is held when a controlled execution begins or ends.
//
//go:norace
func WLock(l *LockState) {
	if !Active() {
		return
	}
	yield(opStep, nil)
	if l.writer || l.readers > 0 {
		l.waiting++
		yield(opLock, l)
		l.waiting--
	}
	l.writer = true
}

//go:norace
func TryWLock(l *LockState) bool {
	if !Active() {
		return true
	}
	yield(opStep, nil)
	if l.writer || l.readers > 0 {
		return false
	}
	l.writer = true
	return true
}

//go:norace
func WUnlock(l *LockState) {
	if Active() {
		l.writer = false
	}
}

//go:norace
func RLock(l *LockState) {
	if Active() {
		yield(opRLock, l)
		l.readers++
	}
}

//go:norace
func TryRLock(l *LockState) bool {
	if !Active() {
		return true
	}
	yield(opStep, nil)
	if l.writer || l.waiting > 0 {
		return false
	}
	l.readers++
	return true
}

//go:norace
func RUnlock(l *LockState) {
	if Active() {
		l.readers--
	}
}

//go:norace
func AddCount(l *LockState, n int32) { l.count += n }

//go:norace
func Join(l *LockState) {
	if Active() {
		yield(opJoin, l)
	}
}

// Result of one execution.
type Result struct {
	Schedule []int // the choices made where there were several
	Deadlock bool
	Overflow bool
	Diverged bool
	Preempt  int
	Points   int64
	Panic    string
	Races    int
}

// Run executes the threads with the prescribed choices (then the default ones) under the preemption bound.
func Run(bound int, prefix []point, threads []func()) Result {
	runtime.GOMAXPROCS(1)
	var wg sync.WaitGroup
	reset(bound, prefix, &wg)
	r0 := RaceErrors()
	for _, f := range threads {
		start(f)
	}
	begin()
	wg.Wait()
	end()
	res := Result{Deadlock: s.deadlock, Overflow: s.overflow, Diverged: s.diverged, Preempt: s.preempt, Points: s.clock, Races: RaceErrors() - r0}
	for i := 0; i < s.np; i++ {
		res.Schedule = append(res.Schedule, int(s.pts[i].choice))
	}
	for i := 0; i < s.n; i++ {
		if s.panics[i] != nil {
			res.Panic = fmt.Sprint(s.panics[i])
		}
	}
	return res
}

//go:norace
func reset(bound int, prefix []point, wg *sync.WaitGroup) {
	for i := range s.th {
		s.th[i] = thread{}
		s.panics[i] = nil
	}
	for i := range prefix {
		s.pts[i] = prefix[i]
	}
	s.prefix, s.np, s.preempt, s.bound, s.clock, s.n = len(prefix), 0, 0, bound, 0, 0
	s.abort, s.deadlock, s.overflow, s.diverged = false, false, false, false
	s.wg = wg
	s.cur = -1
	s.active = true
}

//go:norace
func begin() {
	// the first choice is which thread starts
	n := s.n
	p := &s.pts[0]
	c := 0
	if n > 1 {
		if s.prefix > 0 {
			c = int(p.choice)
		} else {
			p.choice = 0
		}
		p.n = int32(n)
		s.np = 1
	}
	s.cur = c
}

//go:norace
func end() { s.active = false }

// Explore executes every schedule with at most bound preemptions. make builds a fresh instance of the
// threads, after is called with the result of each execution and returns false to stop. Explore
// returns the number of executions, the number of scheduling decisions and whether all were executed.
func Explore(bound, max int, mk func() []func(), after func(Result) bool) (int, int64, bool) {
	var prefix []point
	var steps int64
	for n := 1; ; n++ {
		r := Run(bound, prefix, mk())
		steps += r.Points
		if !after(r) {
			return n, steps, false
		}
		if r.Overflow || n >= max {
			return n, steps, false
		}
		i := s.np - 1
		for ; i >= 0; i-- {
			if s.pts[i].choice+1 < s.pts[i].n {
				break
			}
		}
		if i < 0 {
			return n, steps, true
		}
		prefix = append(prefix[:0], s.pts[:i+1]...)
		prefix[i].choice++
	}
}

// Replay executes one schedule.
func Replay(bound int, schedule []int, mk func() []func()) Result {
	prefix := make([]point, len(schedule))
	for i, c := range schedule {
		prefix[i].choice = int32(c)
	}
	return Run(bound, prefix, mk())
}
