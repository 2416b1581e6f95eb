// Package vsync runs goroutines one at a time, under schedules that are chosen by
// the caller, and has replacements of the types of package sync whose operations are
// scheduled. The library is compiled against it in an instrumented copy, in which
// every statement is preceded by a call of Yield.
//
// This package must be compiled without the instrumentation of the race detector, and
// disables its handling of synchronisation while it hands over the processor, so that
// the only happens-before relations are those of the library: the race detector then
// finds conflicting accesses in every schedule that has them.
package vsync

import (
	"fmt"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

func getg() uintptr

// G is a scheduled goroutine.
type G struct {
	ID    int
	wake  chan struct{}
	wait  waiter // what it is blocked on, or nil
	away  bool   // it does not yield: blocked on something unknown, or slow
	since int    // yields since another goroutine was chosen
	done  bool
	prio  int
	g     uintptr
	// Name is that of the goroutine that started it and a number.
	Name string
	kids int
}

type waiter interface{ ready() bool }

// Preempt is a decision to switch to a goroutine at a step.
type Preempt struct {
	Step int `json:"s"`
	To   int `json:"g"`
}

// Plan is a schedule: the order of preference of goroutines whenever the running one
// cannot go on, and preemptions. Goroutines that are not in Prio follow by their
// number, the later ones first if Last.
type Plan struct {
	Prio     []int     `json:"prio"`
	Last     bool      `json:"last"`
	Preempts []Preempt `json:"pre"`
	// Guide has the names of goroutines in the order in which they lock and wait.
	Guide []string `json:"guide,omitempty"`
}

// Event is an operation of a goroutine on something that synchronises: N is what is
// added to a counter, or the number of the goroutine that is started.
type Event struct {
	G    string
	Op   string
	Addr uintptr
	N    int
}

// Outcome describes how an execution ended.
type Outcome struct {
	Deadlock bool
	Hang     bool
	Panic    string
	Steps    int
	// Alts has, for every step, the goroutines other than the current one that could run.
	Alts [][]int8
	From int // the first step of the concurrent phase
	To   int
	// Degraded tells that goroutines blocked on something that is not known here.
	Degraded bool
	// Log has the synchronisation of a phase.
	Log []Event
}

type sched struct {
	mu      sync.Mutex
	gs      []*G
	cur     *G
	plan    Plan
	at      int // index of the next preemption
	out     Outcome
	over    bool
	fin     chan struct{}
	seq     int
	live    int
	record  bool
	logging bool
	step    int // of the guide
	tok     byte
	marks   [16]int
	chans   []*channel
	after   int
}

const (
	fair     = 3000 // yields before others get a chance
	awayTime = 10 * time.Millisecond
	hangTime = 15 * time.Second
	stepsMax = 400000
	afterMax = 20000 // when all calls have returned
)

var (
	s     *sched
	smu   sync.Mutex
	stuck int // executions that were abandoned
)

// Run executes main, and what it starts, under a plan.
func Run(plan Plan, main func()) *Outcome {
	x := &sched{plan: plan, fin: make(chan struct{})}
	smu.Lock()
	for _, c := range global {
		x.chans = append(x.chans, &channel{p: c.p, n: c.n})
	}
	s = x
	smu.Unlock()
	g := x.spawn(nil)
	x.cur = g
	go x.body(g, main)
	x.watch()
	smu.Lock()
	s = nil
	smu.Unlock()
	raceAcquire(unsafe.Pointer(&x.tok))
	return &x.out
}

func (x *sched) spawn(by *G) *G {
	g := &G{ID: len(x.gs), wake: make(chan struct{}, 1)}
	if by != nil {
		by.kids++
		// not with fmt: its cache would look like one that goroutines share without order
		g.Name = strconv.Itoa(by.kids)
		if by.Name != "" {
			g.Name = by.Name + "." + g.Name
		}
		x.log(by, "go", nil, by.kids)
	}
	g.prio = 1000 + g.ID
	if x.plan.Last {
		g.prio = 1000 - g.ID
	}
	for i, id := range x.plan.Prio {
		if id == g.ID {
			g.prio = i
		}
	}
	x.gs = append(x.gs, g)
	x.live++
	return g
}

func (x *sched) body(g *G, f func()) {
	raceOff()
	x.mu.Lock()
	g.g = getg()
	x.mu.Unlock()
	if g.ID != 0 {
		x.mu.Lock()
		x.park(g)
		x.mu.Unlock()
	}
	raceOn()
	defer x.exit(g)
	f()
}

func (x *sched) exit(g *G) {
	failed := ""
	if p := recover(); p != nil {
		failed = fmt.Sprint(p)
	}
	raceRelease(unsafe.Pointer(&x.tok))
	raceOff()
	x.mu.Lock()
	g.g = 0
	g.done = true
	x.live--
	x.seq++
	if failed != "" && !x.over {
		x.out.Panic = failed
		x.finish()
	} else if x.live == 0 {
		x.finish()
	} else if x.cur == g || x.cur == nil {
		x.next(g)
	}
	x.mu.Unlock()
	raceOn()
}

func (x *sched) finish() {
	if !x.over {
		x.over = true
		x.out.Steps = x.seq
		close(x.fin)
	}
}

// watch waits for the end, and lets others run if the current goroutine does not yield.
func (x *sched) watch() {
	t := time.NewTicker(awayTime)
	defer t.Stop()
	last, lastChange := -1, time.Now()
	for {
		select {
		case <-x.fin:
			return
		case <-t.C:
		}
		x.mu.Lock()
		if x.over {
			x.mu.Unlock()
			return
		}
		if x.seq != last {
			last, lastChange = x.seq, time.Now()
		} else if time.Since(lastChange) > hangTime {
			x.out.Hang = !x.gs[0].done
			stuck++
			x.finish()
		} else if g := x.cur; g != nil && !g.away {
			if to := x.best(g); to != nil {
				g.away = true
				x.out.Degraded = true
				x.grant(to)
			}
		}
		x.mu.Unlock()
	}
}

func (g *G) runnable() bool {
	return !g.done && !g.away && (g.wait == nil || g.wait.ready())
}

// best returns the preferred runnable goroutine other than g.
func (x *sched) best(g *G) *G {
	var to *G
	for _, h := range x.gs {
		if h != g && h.runnable() && (to == nil || h.prio < to.prio) {
			to = h
		}
	}
	return to
}

func (x *sched) grant(to *G) {
	x.cur = to
	to.since = 0
	to.wake <- struct{}{}
}

// next chooses a goroutine when g cannot go on.
func (x *sched) next(g *G) {
	if to := x.best(g); to != nil {
		x.grant(to)
		return
	}
	x.cur = nil
	for _, h := range x.gs {
		if !h.done && h.away {
			return // it will come back
		}
	}
	if x.live > 0 && x.step < len(x.plan.Guide) {
		// the guide cannot be followed
		x.step = len(x.plan.Guide)
		if to := x.best(g); to != nil {
			x.grant(to)
			return
		}
		if g.runnable() {
			x.cur = g
			x.grant(g)
			return
		}
	}
	if x.live > 0 {
		// goroutines that remain when all calls have returned do no harm
		x.out.Deadlock = !x.gs[0].done
		stuck++
		x.finish()
	}
}

// park waits to be chosen; the lock is held on entry and exit. A goroutine that was so
// slow to wake up that another one was chosen instead has lost its turn.
func (x *sched) park(g *G) {
	for {
		x.mu.Unlock()
		<-g.wake
		x.mu.Lock()
		if x.over {
			x.mu.Unlock()
			select {}
		}
		if !g.away {
			return
		}
		g.away = false
		if x.cur == nil {
			if g.runnable() {
				x.cur = g
				return
			}
			x.next(g)
		}
	}
}

func self() (*sched, *G) {
	x := s
	if x == nil {
		return nil, nil
	}
	x.mu.Lock()
	var g *G
	id := getg()
	for _, h := range x.gs {
		if h.g == id {
			g = h
		}
	}
	if g == nil {
		x.mu.Unlock()
		return nil, nil
	}
	if x.over {
		// the execution has been abandoned
		x.mu.Unlock()
		select {}
	}
	x.seq++
	if g.away {
		g.away = false
		if x.cur == nil {
			x.cur = g
		} else if x.cur != g {
			x.park(g)
		}
	}
	return x, g
}

// Yield is a point at which another goroutine may be scheduled.
func Yield() {
	raceOff()
	if x, g := self(); g != nil {
		x.yield(g, false)
		x.mu.Unlock()
	}
	raceOn()
}

// Gosched lets another goroutine run, if any can.
func Gosched() {
	raceOff()
	if x, g := self(); g != nil {
		x.log(g, "other", nil, 0)
		x.yield(g, true)
		x.mu.Unlock()
	}
	raceOn()
}

func (x *sched) yield(g *G, force bool) {
	if x.gs[0].done {
		x.after++
	}
	if len(x.out.Alts) > stepsMax || x.after > afterMax {
		x.out.Hang = !x.gs[0].done
		stuck++
		x.finish()
		x.mu.Unlock()
		select {}
	}
	step := len(x.out.Alts)
	var to *G
	var alts []int8
	if x.record {
		for _, h := range x.gs {
			if h != g && h.runnable() {
				alts = append(alts, int8(h.ID))
			}
		}
		for x.at < len(x.plan.Preempts) && x.plan.Preempts[x.at].Step < step {
			x.at++
		}
		if x.at < len(x.plan.Preempts) && x.plan.Preempts[x.at].Step == step {
			if id := x.plan.Preempts[x.at].To; id < len(x.gs) && x.gs[id] != g && x.gs[id].runnable() {
				to = x.gs[id]
			}
			x.at++
		}
	}
	x.out.Alts = append(x.out.Alts, alts)
	g.since++
	if to == nil && (force || g.since > fair) {
		if to = x.best(g); to != nil && force {
			// round robin among those that wait for each other
			g.prio = x.lowest() + 1
		}
		g.since = 0
	}
	if to != nil {
		x.grant(to)
		x.park(g)
	}
}

func (x *sched) lowest() int {
	p := 0
	for _, h := range x.gs {
		if h.prio > p {
			p = h.prio
		}
	}
	return p
}

type guided struct {
	x *sched
	g *G
}

func (w *guided) ready() bool {
	return w.x.step >= len(w.x.plan.Guide) || w.x.plan.Guide[w.x.step] == w.g.Name
}

// sync waits until it is the turn of g in the guide; the lock is held.
func (x *sched) sync(g *G) {
	if x.record && x.step < len(x.plan.Guide) {
		x.block(g, &guided{x, g})
		x.step++
	}
}

func (x *sched) log(g *G, op string, p unsafe.Pointer, n int) {
	if x.logging {
		x.out.Log = append(x.out.Log, Event{g.Name, op, uintptr(p), n})
	}
}

// Log starts or ends the recording of synchronisation, and returns the number of
// recorded events.
func Log(on bool) int {
	raceOff()
	x, g := self()
	x.logging = on
	n := len(x.out.Log)
	g.kids = 0
	x.mu.Unlock()
	raceOn()
	return n
}

// Quiesce lets all other goroutines run until they end or cannot go on.
func Quiesce() {
	raceOff()
	defer raceOn()
	for i := 0; i < 2000; i++ {
		x, g := self()
		n := x.live
		if n > 1 {
			x.yield(g, true)
		}
		x.mu.Unlock()
		if n == 1 {
			return
		}
	}
}

// block waits until w is ready; the lock is held.
func (x *sched) block(g *G, w waiter) {
	for !w.ready() {
		g.wait = w
		x.next(g)
		if x.over {
			x.mu.Unlock()
			select {}
		}
		x.park(g)
	}
	g.wait = nil
}

// Phase tells the number of the next step; preemptions and alternatives are considered
// while on.
func Phase(on bool) int {
	raceOff()
	x, g := self()
	n := 0
	if g != nil {
		n = len(x.out.Alts)
		x.record = on
		if on {
			x.out.From = n
		} else {
			x.out.To = n
		}
		x.mu.Unlock()
	}
	raceOn()
	return n
}

// Seq returns a number that is greater than those returned before.
func Seq() int {
	raceOff()
	x, g := self()
	n := 0
	if g != nil {
		n = x.seq
		x.mu.Unlock()
	}
	raceOn()
	return n
}

// Me returns the number of the current goroutine.
func Me() int {
	raceOff()
	x, g := self()
	id := -1
	if g != nil {
		id = g.ID
		x.mu.Unlock()
	}
	raceOn()
	return id
}

type markWait struct {
	x    *sched
	t, n int
}

func (w *markWait) ready() bool { return w.x.marks[w.t] >= w.n }

// Mark counts up the mark t.
func Mark(t int) {
	raceOff()
	if x, g := self(); g != nil {
		x.marks[t]++
		x.mu.Unlock()
	}
	raceOn()
}

// AwaitMark waits until the mark t is at least n. It does not order memory accesses.
func AwaitMark(t, n int) {
	raceOff()
	x, g := self()
	if g == nil {
		panic("harness: unscheduled AwaitMark")
	}
	x.yield(g, false)
	x.block(g, &markWait{x, t, n})
	x.mu.Unlock()
	raceOn()
}

// Sleep is a Gosched.
func Sleep(time.Duration) { Gosched() }

// Stuck returns the number of executions that were abandoned, with their goroutines.
func Stuck() int { return stuck }

// Go starts a goroutine.
func Go(f func()) {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		go f()
		return
	}
	h := x.spawn(g)
	x.mu.Unlock()
	raceOn()
	go x.body(h, f)
	Yield()
}
