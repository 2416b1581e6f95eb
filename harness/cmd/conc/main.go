// Command conc executes concurrent scenarios under many schedules and writes the
// distinct histories.
//
//	conc SCENARIOS.ndjson HISTORIES.ndjson
//
// A scenario has calls that are made before and after, and those of threads. A history
// has the calls with their results and the order of their starts and returns.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"vp/obj"
	"vp/trace"
	"vp/vsync"
)

type scenario struct {
	ID      string      `json:"id"`
	Setup   []obj.Op    `json:"setup"`
	Threads [][]obj.Op  `json:"threads"`
	Final   []obj.Op    `json:"final"`
	Limit   int         `json:"limit"` // schedules
	Seed    int64       `json:"seed"`
	Plan    *vsync.Plan `json:"plan"` // only this one
	Mode    string      `json:"mode"`
}

type mark struct {
	seq  int
	ret  bool
	call int // index of the call of the thread
}

type thread struct {
	evs   []trace.Rec
	marks []mark
}

type history struct {
	ID    string      `json:"id"`
	Calls []trace.Rec `json:"calls"`
	Ev    []trace.Rec `json:"ev"`
	End   string      `json:"end"`
	Plan  vsync.Plan  `json:"plan"`
	Steps int         `json:"steps"`
	// Degraded tells that the plan does not determine the execution
	Degraded bool `json:"degraded"`
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func (t *thread) exec(w *obj.World, ops []obj.Op, id int) bool {
	for i := range ops {
		op := &ops[i]
		if op.Op == "await" { // a number of calls of another thread
			vsync.AwaitMark(op.I, op.K)
			continue
		}
		n := len(t.evs)
		ev := obj.Echo(op)
		ev["t"] = id
		t.evs = append(t.evs, ev)
		t.marks = append(t.marks, mark{vsync.Seq(), false, n})
		ev = w.Exec(op)
		if ev == nil {
			t.evs = t.evs[:n]
			t.marks = t.marks[:len(t.marks)-1]
			return false
		}
		ev["t"] = id
		t.evs[n] = ev
		t.marks = append(t.marks, mark{vsync.Seq(), true, n})
		vsync.Mark(id)
		if ev["r"].(trace.Rec)["k"] == "panic" {
			return false
		}
	}
	return true
}

// run executes a scenario once.
func run(s *scenario, plan vsync.Plan) (*history, *vsync.Outcome) {
	races := vsync.Races()
	ts := make([]*thread, len(s.Threads)+1)
	for i := range ts {
		ts[i] = &thread{}
	}
	w := obj.NewWorld()
	for _, ops := range append([][]obj.Op{s.Setup}, s.Threads...) {
		for _, op := range ops {
			w.Reserve(op.O)
		}
	}
	out := vsync.Run(plan, func() {
		if !ts[0].exec(w, s.Setup, 0) {
			return
		}
		var wg vsync.WaitGroup
		vsync.Log(false)
		for i := range s.Threads {
			i := i
			wg.Add(1)
			vsync.Go(func() {
				defer wg.Done()
				ts[i+1].exec(w, s.Threads[i], i+1)
			})
		}
		vsync.Phase(true)
		wg.Wait()
		vsync.Phase(false)
		ts[0].exec(w, s.Final, 0)
	})
	// what follows may read what abandoned goroutines wrote
	races = vsync.Races() - races
	h := &history{ID: s.ID, End: "ok", Plan: plan, Steps: out.Steps, Degraded: out.Degraded}
	type at struct {
		mark
		thread int
	}
	var all []at
	for i, t := range ts {
		for _, m := range t.marks {
			all = append(all, at{m, i})
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	// starts that follow each other, and returns, are put in the order of their threads
	for i := 0; i < len(all); {
		j := i
		for j < len(all) && all[j].ret == all[i].ret {
			j++
		}
		part := all[i:j]
		sort.SliceStable(part, func(a, b int) bool { return part[a].thread < part[b].thread })
		i = j
	}
	num := map[[2]int]int{}
	for _, a := range all {
		k := [2]int{a.thread, a.call}
		if !a.ret {
			h.Calls = append(h.Calls, ts[a.thread].evs[a.call])
			num[k] = len(h.Calls)
		}
		h.Ev = append(h.Ev, trace.Rec{"ret": a.ret, "i": num[k]})
	}
	switch {
	case races > 0 && !(s.Mode == "term" && (out.Deadlock || out.Hang)):
		h.End = "race"
	case out.Panic != "":
		h.End = "panic: " + out.Panic
	case out.Deadlock:
		h.End = "deadlock"
	case out.Hang:
		h.End = "hang"
	}
	return h, out
}

// record executes calls one after the other, each in its own goroutine.
func record(s *scenario) trace.Rec {
	defer debug.SetGCPercent(debug.SetGCPercent(-1)) // addresses are not used again
	w := obj.NewWorld()
	for _, ops := range append([][]obj.Op{s.Setup}, s.Threads...) {
		for _, op := range ops {
			w.Reserve(op.O)
		}
	}
	var calls []trace.Rec
	out := vsync.Run(vsync.Plan{}, func() {
		t := &thread{}
		if !t.exec(w, s.Setup, 0) {
			return
		}
		vsync.Quiesce()
		vsync.Log(true)
		for i := range s.Threads {
			i := i
			var wg vsync.WaitGroup
			wg.Add(1)
			t := &thread{}
			vsync.Go(func() {
				defer wg.Done()
				t.exec(w, s.Threads[i], 1)
			})
			wg.Wait()
			vsync.Quiesce()
			calls = append(calls, trace.Rec{"evs": t.evs})
		}
		vsync.Log(false)
	})
	return trace.Rec{"id": s.ID, "calls": calls, "log": out.Log, "degraded": out.Degraded,
		"ok": !out.Deadlock && !out.Hang && out.Panic == ""}
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var res [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n), p[i:]...)
			res = append(res, q)
		}
	}
	return res
}

// spent is the time of executions that were degraded, which is limited.
var spent time.Duration

const spend = 60 * time.Second

// explore executes a scenario under schedules without preemptions, with one preemption
// and with several ones.
func explore(s *scenario, emit func(*history)) (int, bool) {
	rng := rand.New(rand.NewSource(s.Seed))
	seen := map[string]bool{}
	count := 0
	degraded := false
	try := func(plan vsync.Plan) (*vsync.Outcome, bool) {
		start := time.Now()
		h, out := run(s, plan)
		if out.Degraded {
			spent += time.Since(start)
		}
		count++
		degraded = degraded || out.Degraded
		key, err := json.Marshal([]interface{}{h.Calls, h.Ev, h.End})
		die(err)
		if !seen[string(key)] {
			seen[string(key)] = true
			emit(h)
		}
		if degraded && spent > spend {
			return out, false
		}
		return out, h.End == "ok" || s.Mode == "term" && h.End == "race"
	}
	if s.Plan != nil {
		try(*s.Plan)
		return count, degraded
	}
	type base struct {
		plan vsync.Plan
		out  *vsync.Outcome
	}
	var bases []base
	for _, p := range perms(len(s.Threads)) {
		for _, last := range []bool{false, true} {
			plan := vsync.Plan{Prio: p, Last: last}
			out, ok := try(plan)
			if !ok {
				return count, degraded
			}
			bases = append(bases, base{plan, out})
		}
	}
	var single []vsync.Plan
	for _, b := range bases {
		for step := b.out.From; step < b.out.To; step++ {
			for _, to := range b.out.Alts[step] {
				p := b.plan
				p.Preempts = []vsync.Preempt{{Step: step, To: int(to)}}
				single = append(single, p)
			}
		}
	}
	rng.Shuffle(len(single), func(i, j int) { single[i], single[j] = single[j], single[i] })
	if n := s.Limit * 6 / 10; len(single) > n {
		single = single[:n]
	}
	for _, p := range single {
		if _, ok := try(p); !ok {
			return count, degraded
		}
	}
	for count < s.Limit {
		b := bases[rng.Intn(len(bases))]
		p := b.plan
		n := 2 + rng.Intn(4)
		steps := b.out.To - b.out.From
		if steps <= 0 {
			break
		}
		at := map[int]bool{}
		for i := 0; i < n; i++ {
			at[b.out.From+rng.Intn(steps+steps/2)] = true
		}
		for st := range at {
			p.Preempts = append(p.Preempts, vsync.Preempt{Step: st, To: 1 + rng.Intn(len(s.Threads)+3)})
		}
		sort.Slice(p.Preempts, func(i, j int) bool { return p.Preempts[i].Step < p.Preempts[j].Step })
		for i := range p.Preempts {
			// prefer goroutines that could run there without the other preemptions
			if st := p.Preempts[i].Step; st < b.out.To && rng.Intn(4) > 0 {
				if alts := b.out.Alts[st]; len(alts) > 0 {
					p.Preempts[i].To = int(alts[rng.Intn(len(alts))])
				}
			}
		}
		if _, ok := try(p); !ok {
			return count, degraded
		}
	}
	return count, degraded
}

func main() {
	obj.Yield = vsync.Yield
	in, err := os.Open(os.Args[1])
	die(err)
	out, err := os.Create(os.Args[2])
	die(err)
	bw := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(bw)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s scenario
		die(json.Unmarshal(sc.Bytes(), &s))
		if s.Mode == "record" {
			die(enc.Encode(record(&s)))
			die(enc.Encode(trace.Rec{"id": s.ID, "done": true, "schedules": 1, "degraded": false}))
			die(bw.Flush())
			continue
		}
		n, degraded := explore(&s, func(h *history) { die(enc.Encode(h)) })
		die(enc.Encode(trace.Rec{"id": s.ID, "done": true, "schedules": n, "degraded": degraded}))
		die(bw.Flush())
	}
	die(sc.Err())
	die(out.Close())
}
