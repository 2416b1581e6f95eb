// Command driver executes the scenarios of a file and writes their traces.
//
//	driver SCENARIOS.ndjson TRACES.ndjson        one line for every trace
//	driver -step SCENARIOS.ndjson TRACES.ndjson  one line for every event, written at once
//
// Lines are written out before the next scenario (or event) is started, so that it
// is known where the process was if it dies.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"vp/obj"
	"vp/trace"
)

type scenario struct {
	ID  string   `json:"id"`
	Ops []obj.Op `json:"ops"`
}

const (
	hangAfter = 25 * time.Second
	maxHangs  = 2 // more would only take time
)

var step *json.Encoder

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

func kind(ev trace.Rec) string {
	return ev["r"].(trace.Rec)["k"].(string)
}

// run executes a scenario; an operation that does not return is reported as a hang.
func run(s *scenario) []trace.Rec {
	var at, since int64
	evs := make([]trace.Rec, len(s.Ops))
	done := make(chan int, 1)
	failed := make(chan interface{}, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				failed <- p
			}
		}()
		w := obj.NewWorld()
		for i := range s.Ops {
			if step != nil {
				die(step.Encode(obj.Echo(&s.Ops[i])))
			}
			atomic.StoreInt64(&at, int64(i))
			atomic.StoreInt64(&since, time.Now().UnixNano())
			evs[i] = w.Exec(&s.Ops[i])
			if evs[i] == nil {
				done <- i
				return
			}
			if kind(evs[i]) == "panic" {
				done <- i + 1
				return
			}
		}
		done <- len(s.Ops)
	}()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for {
		select {
		case n := <-done:
			return evs[:n]
		case p := <-failed:
			die(fmt.Errorf("scenario %s: %v", s.ID, p))
		case <-tick.C:
			if t := atomic.LoadInt64(&since); t != 0 && time.Since(time.Unix(0, t)) > hangAfter {
				i := int(atomic.LoadInt64(&at))
				ev := obj.Echo(&s.Ops[i])
				ev["r"] = trace.Rec{"k": "hang"}
				return append(append([]trace.Rec{}, evs[:i]...), ev)
			}
		}
	}
}

func main() {
	args := os.Args[1:]
	stepping := args[0] == "-step"
	if stepping {
		args = args[1:]
	}
	in, err := os.Open(args[0])
	die(err)
	out, err := os.Create(args[1])
	die(err)
	bw := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(bw)
	if stepping {
		step = json.NewEncoder(out)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	hangs := 0
	for sc.Scan() {
		var s scenario
		die(json.Unmarshal(sc.Bytes(), &s))
		evs := run(&s)
		if stepping {
			continue
		}
		die(enc.Encode(trace.Rec{"id": s.ID, "ev": evs}))
		die(bw.Flush())
		if n := len(evs); n > 0 && kind(evs[n-1]) == "hang" {
			if hangs++; hangs >= maxHangs {
				break
			}
		}
	}
	die(sc.Err())
	die(out.Close())
}
