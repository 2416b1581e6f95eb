package obj

import (
	heapops "container/heap"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"sync/atomic"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"github.com/alexander-yu/stream/sample"

	"vp/trace"
)

// World has the objects of a scenario.
type World struct {
	objs map[string]*slot
	cfgs map[string]*Config
	opts map[string][]quantile.Option
	// failed tells that something could not be created, so that calls of it are impossible
	failed int32
}

// NewWorld returns a World without objects.
func NewWorld() *World {
	return &World{
		objs: map[string]*slot{},
		cfgs: map[string]*Config{},
		opts: map[string][]quantile.Option{},
	}
}

// Probe is a metric of this harness: it counts pushes and values pushed, and may
// reject pushes or have no value.
type Probe struct {
	name     string
	failPush bool
	failVal  bool
	pushes   int64
}

type slot struct{ o interface{} }

// Reserve makes place for an object, so that threads may create different ones.
func (w *World) Reserve(id string) {
	if w.objs[id] == nil {
		w.objs[id] = &slot{}
	}
}

func (w *World) put(id string, o interface{}) {
	w.Reserve(id)
	w.objs[id].o = o
}

func (w *World) get(id string) interface{} {
	if s := w.objs[id]; s != nil {
		return s.o
	}
	return nil
}

// Yield is called before and after the operations of probes.
var Yield = func() {}

// bump counts without synchronisation that would hide the lack of it elsewhere.
//
//go:norace
func (p *Probe) bump() { p.pushes++ }

//go:norace
func (p *Probe) count() int64 { return p.pushes }

//go:norace
func (p *Probe) reset() { p.pushes = 0 }

// Push counts.
func (p *Probe) Push(x float64) error { return p.push(x) }

func (p *Probe) push(xs ...float64) error {
	Yield()
	p.bump()
	Yield()
	if p.failPush {
		return errors.New("probe rejects pushes")
	}
	return nil
}

// Value returns the number of pushes.
func (p *Probe) Value() (float64, error) {
	Yield()
	n := p.count()
	Yield()
	if p.failVal {
		return 0, errors.New("probe has no value")
	}
	return float64(n), nil
}

// String returns the name.
func (p *Probe) String() string { return p.name }

// Clear resets the count.
func (p *Probe) Clear() {
	Yield()
	p.reset()
	Yield()
}

// JProbe is a Probe that is a joint metric.
type JProbe struct{ Probe }

// Push counts.
func (p *JProbe) Push(xs ...float64) error { return p.push(xs...) }

var (
	okRes   = trace.Rec{"k": "ok"}
	skipped = trace.Rec{"k": "skip"}
	errRes  = trace.Rec{"k": "err"}
)

func res(err error) trace.Rec {
	if err != nil {
		return errRes
	}
	return okRes
}

func numRes(v float64, err error) trace.Rec {
	if err != nil {
		return errRes
	}
	return trace.NumRec(v)
}

func skipOpts(opts []Opt) []order.Option {
	var out []order.Option
	for _, o := range opts {
		switch o.T {
		case "max":
			out = append(out, skiplist.MaxLevelOption(o.V))
		case "p":
			out = append(out, skiplist.ProbabilityOption(float64(o.P)))
		case "rand":
			out = append(out, skiplist.RandOption(rand.New(rand.NewSource(int64(o.V)))))
		case "script":
			out = append(out, skiplist.RandOption(rand.New(&script{vals: o.Script})))
		default:
			panic("harness: bad skip list option " + o.T)
		}
	}
	return out
}

// script is a random source that yields given numbers, as fractions of its range.
type script struct {
	vals []float64
	i    int
}

func (s *script) Seed(int64) {}

func (s *script) Int63() int64 {
	f := 0.0
	if len(s.vals) > 0 {
		f = s.vals[s.i%len(s.vals)]
		s.i++
	}
	return int64(f * (1 << 63)) // what Rand.Float64 divides by 2^63
}

func quantOpts(opts []Opt) []quantile.Option {
	var out []quantile.Option
	for _, o := range opts {
		switch o.T {
		case "impl":
			out = append(out, quantile.ImplOption(quantile.Impl(o.V), skipOpts(o.Sopts)...))
		case "interp":
			out = append(out, quantile.InterpolationOption(quantile.Interpolation(o.V)))
		default:
			panic("harness: bad quantile option " + o.T)
		}
	}
	return out
}

func optRecs(opts []Opt) []trace.Rec {
	out := []trace.Rec{}
	for _, o := range opts {
		out = append(out, trace.Rec{"t": o.T, "v": o.V, "p": trace.NumRec(float64(o.P)), "sopts": optRecs(o.Sopts)})
	}
	return out
}

// sameOpts tells whether two slices of options hold the same functions.
func sameOpts(a, b []quantile.Option) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i] == nil) != (b[i] == nil) || reflect.ValueOf(a[i]).Pointer() != reflect.ValueOf(b[i]).Pointer() {
			return false
		}
	}
	return true
}

// create constructs a metric; the error is that of its constructor or of Init.
func (w *World) create(op *Op, qopts []quantile.Option) (interface{}, error) {
	d := float64(op.D)
	switch op.Kind {
	case "Mean":
		if op.Glob {
			return initM(op, moment.NewGlobalMean())
		}
		return initM(op, moment.NewMean(op.W))
	case "Std":
		if op.Glob {
			return initM(op, moment.NewGlobalStd())
		}
		return initM(op, moment.NewStd(op.W))
	case "Skewness":
		if op.Glob {
			return initM(op, moment.NewGlobalSkewness())
		}
		return initM(op, moment.NewSkewness(op.W))
	case "Kurtosis":
		if op.Glob {
			return initM(op, moment.NewGlobalKurtosis())
		}
		return initM(op, moment.NewKurtosis(op.W))
	case "Moment":
		if op.Glob {
			return initM(op, moment.NewGlobal(op.K))
		}
		return initM(op, moment.New(op.K, op.W))
	case "EWMA":
		return initM(op, moment.NewEWMA(d))
	case "EWMMoment":
		return initM(op, moment.NewEWMMoment(op.K, d))
	case "EWMStd":
		return initM(op, moment.NewEWMStd(d))
	case "Cov":
		if op.Glob {
			return initJ(op, joint.NewGlobalCov())
		}
		return initJ(op, joint.NewCov(op.W))
	case "Corr":
		if op.Glob {
			return initJ(op, joint.NewGlobalCorr())
		}
		return initJ(op, joint.NewCorr(op.W))
	case "EWMCov":
		return initJ(op, joint.NewEWMCov(d))
	case "EWMCorr":
		return initJ(op, joint.NewEWMCorr(d))
	case "Autocov":
		var m *joint.Autocov
		var err error
		if op.Glob {
			m, err = joint.NewGlobalAutocov(op.Lag)
		} else {
			m, err = joint.NewAutocov(op.Lag, op.W)
		}
		if err != nil {
			return nil, err
		}
		return initJ(op, m)
	case "Autocorr":
		var m *joint.Autocorr
		var err error
		if op.Glob {
			m, err = joint.NewGlobalAutocorr(op.Lag)
		} else {
			m, err = joint.NewAutocorr(op.Lag, op.W)
		}
		if err != nil {
			return nil, err
		}
		return initJ(op, m)
	case "Min":
		if op.Glob {
			return minmax.NewGlobalMin(), nil
		}
		return minmax.NewMin(op.W)
	case "Max":
		if op.Glob {
			return minmax.NewGlobalMax(), nil
		}
		return minmax.NewMax(op.W)
	case "HeapMedian":
		if op.Glob {
			return quantile.NewGlobalHeapMedian(), nil
		}
		return quantile.NewHeapMedian(op.W)
	case "Quantile":
		if op.Glob {
			return quantile.NewGlobalQuantile(qopts...)
		}
		return quantile.New(op.W, qopts...)
	case "Median":
		if op.Glob {
			return quantile.NewGlobalMedian(qopts...)
		}
		return quantile.NewMedian(op.W, qopts...)
	case "IQR":
		if op.Glob {
			return quantile.NewGlobalIQR(qopts...)
		}
		return quantile.NewIQR(op.W, qopts...)
	case "AVL":
		return &avl.Tree{}, nil
	case "RB":
		return &rb.Tree{}, nil
	case "Skip":
		return skiplist.New(skipOpts(op.Opts)...)
	case "Probe":
		return &Probe{name: op.O, failPush: op.Mode == "failpush", failVal: op.Mode == "failval"}, nil
	case "JProbe":
		return &JProbe{Probe{name: op.O, failPush: op.Mode == "failpush", failVal: op.Mode == "failval"}}, nil
	case "Reservoir":
		return &sample.Reservoir{Size: op.Size}, nil
	case "SAgg":
		ms := make([]stream.SimpleMetric, len(op.Mem), len(op.Mem)+2)
		for i, id := range op.Mem {
			ms[i] = w.get(id).(stream.SimpleMetric)
		}
		a := aggregate.NewSimpleAggregateMetric(ms...)
		if op.Mut {
			for i := range ms {
				ms[i] = &Probe{name: "intruder", failPush: true, failVal: true}
			}
		}
		return a, nil
	case "JAgg":
		ms := make([]stream.SimpleJointMetric, len(op.Mem), len(op.Mem)+2)
		for i, id := range op.Mem {
			ms[i] = w.get(id).(stream.SimpleJointMetric)
		}
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		if op.Mut {
			for i := range ms {
				ms[i] = &JProbe{Probe{name: "intruder", failPush: true, failVal: true}}
			}
		}
		return a, nil
	}
	panic("harness: bad kind " + op.Kind)
}

func initM(op *Op, m moment.CoreWrapper) (interface{}, error) {
	if op.NoInit {
		return m, nil
	}
	return m, moment.Init(m)
}

func initJ(op *Op, m joint.CoreWrapper) (interface{}, error) {
	if op.NoInit {
		return m, nil
	}
	return m, joint.Init(m)
}

func (w *World) config(c *Cfg, ref string) *Config {
	if ref != "" {
		return w.cfgs[ref]
	}
	return c.build()
}

// metricConfig returns the configuration that a metric asks for.
func metricConfig(o interface{}) *Config {
	switch m := o.(type) {
	case interface{ Config() *moment.CoreConfig }:
		return &Config{dom: "moment", m: m.Config()}
	case interface{ Config() *joint.CoreConfig }:
		return &Config{dom: "joint", j: m.Config()}
	}
	panic(fmt.Sprintf("harness: %T has no Config", o))
}

type univ interface{ Push(float64) error }
type multi interface{ Push(...float64) error }
type simpleValue interface{ Value() (float64, error) }

type heapObj struct {
	h     *heap.Heap
	items map[string]*heap.Item
	names map[*heap.Item]string
	// which items a heap has depends on which of several equal ones it chose to pop: an
	// operation that has no meaning for the items that are left is skipped
	in map[*heap.Item]bool
	n  int
}

// Echo returns the event of an operation without its result.
func Echo(op *Op) trace.Rec {
	ev := trace.Rec{"op": op.Op, "o": op.O, "unsafe": op.Unsafe}
	switch op.Op {
	case "new":
		ev["kind"] = op.Kind
		ev["w"] = op.W
		ev["kk"] = op.K
		ev["d"] = trace.NumRec(float64(op.D))
		ev["lag"] = op.Lag
		ev["opts"] = optRecs(op.Opts)
		ev["init"] = !op.NoInit
		ev["members"] = append([]string{}, op.Mem...)
		ev["mode"] = op.Mode
		ev["size"] = op.Size
	case "hnew":
		ev["cmp"] = op.Cmp
		ev["xs"] = trace.Vec(op.Xs)
	case "push", "snap":
		ev["xs"] = trace.Vec(op.Xs)
	case "pushn":
		xss := [][][]int{}
		for _, xs := range op.Xss {
			xss = append(xss, trace.Vec(xs))
		}
		ev["xss"] = xss
	case "val":
		if op.Q == nil {
			ev["q"] = trace.NumRec(0)
		} else {
			ev["q"] = trace.NumRec(float64(*op.Q))
		}
	case "vals":
		ev["os"] = op.Os
		if op.Q == nil {
			ev["q"] = trace.NumRec(0)
		} else {
			ev["q"] = trace.NumRec(float64(*op.Q))
		}
	case "mean":
		ev["i"] = op.I
	case "sum":
		ev["ks"] = append([]int{}, op.Ks...)
	case "select":
		ev["i"] = op.I
	case "add", "remove", "rank":
		ev["x"] = trace.Lim(float64(op.X))
	case "hpush", "hupdate":
		ev["item"], ev["x"] = op.Item, trace.Lim(float64(op.X))
	case "hremove":
		ev["item"] = op.Item
	case "attach":
		ev["core"] = op.Core
	case "rpush":
		ev["i"] = op.I
	case "rstat":
		ev["size"], ev["ns"], ev["rep"], ev["mode"] = op.Size, append([]int{}, op.Ks...), op.K, op.Mode
	}
	return ev
}

// missing returns whether something that an operation refers to does not exist.
func (w *World) missing(op *Op) bool {
	ids := append(append([]string{}, op.Mem...), op.Os...)
	switch op.Op {
	case "new", "newcore", "merge", "cfg", "optslice":
	default:
		ids = append(ids, op.O)
	}
	refs := []string{op.CfgRef}
	for _, f := range op.From {
		ids = append(ids, f.O)
		refs = append(refs, f.CfgRef)
	}
	for _, id := range append(ids, op.Core) {
		if id != "" && w.get(id) == nil {
			return true
		}
	}
	for _, id := range refs {
		if id != "" && w.cfgs[id] == nil {
			return true
		}
	}
	return false
}

// Exec executes an operation and returns its event, which is nil if the operation
// needs an object that the library refused to create.
func (w *World) Exec(op *Op) (ev trace.Rec) {
	ev = Echo(op)
	defer func() {
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if atomic.LoadInt32(&w.failed) != 0 && w.missing(op) {
				ev = nil
				return
			}
			if len(s) >= 8 && s[:8] == "harness:" {
				panic(p)
			}
			ev["r"] = trace.Rec{"k": "panic", "s": s}
		}
	}()
	ev["r"] = w.exec(op, ev)
	switch op.Op {
	case "new", "newcore", "merge":
		if ev["r"].(trace.Rec)["k"] == "err" {
			atomic.StoreInt32(&w.failed, 1)
		}
	}
	return ev
}

func (w *World) exec(op *Op, ev trace.Rec) trace.Rec {
	switch op.Op {
	case "all": // several calls, as one event
		evs := []trace.Rec{}
		k := "all"
		for i := range op.Ops {
			e := w.Exec(&op.Ops[i])
			if e == nil {
				break
			}
			evs = append(evs, e)
			if e["r"].(trace.Rec)["k"] == "panic" {
				k = "panic"
				break
			}
		}
		ev["evs"] = evs
		return trace.Rec{"k": k}
	case "new":
		ev["name"] = ""
		ev["optsame"] = true
		var qopts, before []quantile.Option
		if op.OptRef != "" {
			qopts = w.opts[op.OptRef]
			before = append([]quantile.Option{}, qopts[:cap(qopts)]...)
		} else {
			switch op.Kind {
			case "Quantile", "Median", "IQR":
				qopts = quantOpts(op.Opts)
			}
		}
		o, err := w.create(op, qopts)
		if op.OptRef != "" {
			ev["optsame"] = sameOpts(before, qopts[:cap(qopts)])
		}
		if err != nil {
			return errRes
		}
		w.put(op.O, o)
		switch op.Kind {
		case "AVL", "RB", "Skip":
		default:
			if s, ok := o.(fmt.Stringer); ok {
				ev["name"] = s.String()
			}
		}
		return okRes
	case "optslice":
		opts := quantOpts(op.Opts)
		w.opts[op.O] = append(make([]quantile.Option, 0, len(opts)+op.Spare), opts...)
		return okRes
	case "optscramble":
		opts := w.opts[op.O]
		opts = opts[:cap(opts)]
		for i := range opts {
			opts[i] = func(*quantile.Quantile) error { return errors.New("scrambled") }
		}
		return okRes
	case "init":
		switch m := w.get(op.O).(type) {
		case moment.CoreWrapper:
			return res(moment.Init(m))
		case joint.CoreWrapper:
			return res(joint.Init(m))
		}
		panic("harness: bad init")
	case "cfg":
		c := op.Cfg.build()
		w.cfgs[op.O] = c
		ev["cfg"] = c.rec()
		return okRes
	case "cfgscramble":
		w.cfgs[op.O].scramble()
		return okRes
	case "mcfgscramble": // the configuration that a metric returns
		metricConfig(w.get(op.O)).scramble()
		return okRes
	case "merge":
		var cfgs []*Config
		recs := []trace.Rec{}
		for _, src := range op.From {
			var c *Config
			if src.O != "" {
				c = metricConfig(w.get(src.O))
			} else {
				c = w.config(src.Cfg, src.CfgRef)
			}
			cfgs = append(cfgs, c)
			recs = append(recs, c.rec())
		}
		ev["from"] = recs
		ev["dom"] = op.Mode
		out := &Config{dom: op.Mode}
		var err error
		if op.Mode == "moment" {
			var in []*moment.CoreConfig
			for _, c := range cfgs {
				in = append(in, c.m)
			}
			out.m, err = moment.MergeConfigs(in...)
		} else {
			var in []*joint.CoreConfig
			for _, c := range cfgs {
				in = append(in, c.j)
			}
			out.j, err = joint.MergeConfigs(in...)
		}
		if err != nil {
			return errRes
		}
		w.cfgs[op.O] = out
		return trace.Rec{"k": "cfg", "cfg": out.rec()}
	case "newcore":
		c := w.config(op.Cfg, op.CfgRef)
		ev["cfg"] = c.rec()
		ev["unchanged"] = true
		if c.dom == "moment" {
			core, err := moment.NewCore(c.m)
			ev["unchanged"] = reflect.DeepEqual(sortedRec(ev["cfg"].(trace.Rec)), sortedRec(c.rec()))
			if op.Mut {
				c.scramble()
			}
			if err != nil {
				return errRes
			}
			w.put(op.O, core)
			return okRes
		}
		core, err := joint.NewCore(c.j)
		ev["unchanged"] = reflect.DeepEqual(ev["cfg"], c.rec())
		if op.Mut {
			c.scramble()
		}
		if err != nil {
			return errRes
		}
		w.put(op.O, core)
		return okRes
	case "attach":
		switch m := w.get(op.O).(type) {
		case moment.CoreWrapper:
			m.SetCore(w.get(op.Core).(*moment.Core))
			return okRes
		case joint.CoreWrapper:
			m.SetCore(w.get(op.Core).(*joint.Core))
			return okRes
		}
		panic("harness: bad attach")
	case "push":
		return w.push(op, op.Xs)
	case "pushn":
		for _, xs := range op.Xss {
			if r := w.push(op, xs); r["k"] != "ok" {
				return r
			}
		}
		return okRes
	case "val":
		return w.value(op.O, op.Q)
	case "vals":
		rs := []trace.Rec{}
		for _, o := range op.Os {
			rs = append(rs, w.value(o, op.Q))
		}
		return trace.Rec{"k": "recs", "rs": rs}
	case "clear":
		w.get(op.O).(interface{ Clear() }).Clear()
		return okRes
	case "str":
		return trace.Rec{"k": "str", "s": w.get(op.O).(fmt.Stringer).String()}
	case "rstat":
		return reservoirStat(op)
	case "isset":
		return trace.Rec{"k": "bool", "b": w.get(op.O).(interface{ IsSetCore() bool }).IsSetCore()}
	}
	switch o := w.get(op.O).(type) {
	case *moment.Core:
		return w.execMCore(o, op)
	case *joint.Core:
		return w.execJCore(o, op)
	case *sample.Reservoir:
		return w.execReservoir(o, op)
	case *quantile.Quantile:
		switch op.Op {
		case "rlock":
			o.RLock()
			return okRes
		case "runlock":
			o.RUnlock()
			return okRes
		}
	case order.Statistic:
		return w.execOrder(o, op)
	}
	if op.Op[0] == 'h' {
		return w.execHeap(op)
	}
	panic("harness: bad op " + op.Op + " on " + op.O)
}

func sortedRec(r trace.Rec) trace.Rec {
	sums := r["sums"].([][]int)
	set := map[int]bool{}
	for _, t := range sums {
		set[t[0]] = true
	}
	return trace.Rec{"sums": set, "w": r["w"], "d": r["d"]}
}

func (w *World) push(op *Op, xs []float64) trace.Rec {
	switch m := w.get(op.O).(type) {
	case *moment.Core:
		if op.Unsafe {
			return res(m.UnsafePush(xs[0]))
		}
		return res(m.Push(xs[0]))
	case *joint.Core:
		buf := append([]float64{}, xs...)
		var err error
		if op.Unsafe {
			err = m.UnsafePush(buf...)
		} else {
			err = m.Push(buf...)
		}
		if op.Mut {
			scrambleVals(buf)
		}
		return res(err)
	case univ:
		return res(m.Push(xs[0]))
	case multi:
		buf := append([]float64{}, xs...)
		err := m.Push(buf...)
		if op.Mut {
			scrambleVals(buf)
		}
		return res(err)
	}
	panic("harness: bad push to " + op.O)
}

func scrambleVals(buf []float64) {
	for i := range buf {
		buf[i] = -1e6*buf[i] + 12345
	}
}

func (w *World) value(id string, q *trace.Num) trace.Rec {
	switch m := w.get(id).(type) {
	case *quantile.Quantile:
		return numRes(m.Value(float64(*q)))
	case simpleValue:
		return numRes(m.Value())
	case *aggregate.SimpleAggregateMetric:
		return mapRes(m.Values())
	case *aggregate.SimpleJointAggregateMetric:
		return mapRes(m.Values())
	}
	panic("harness: bad value of " + id)
}

func mapRes(vals map[string]float64, err error) trace.Rec {
	if err != nil {
		if len(vals) != 0 {
			return trace.Rec{"k": "errvals"}
		}
		return errRes
	}
	keys := []string{}
	nums := []trace.Rec{}
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		nums = append(nums, trace.NumRec(vals[k]))
	}
	return trace.Rec{"k": "map", "keys": keys, "nums": nums}
}

func intRes(i int) trace.Rec { return trace.Rec{"k": "int", "i": i} }

func (w *World) execMCore(c *moment.Core, op *Op) trace.Rec {
	switch op.Op {
	case "count":
		if op.Unsafe {
			return intRes(c.UnsafeCount())
		}
		return intRes(c.Count())
	case "mean":
		if op.Unsafe {
			return numRes(c.UnsafeMean())
		}
		return numRes(c.Mean())
	case "sum":
		if op.Unsafe {
			return numRes(c.UnsafeSum(op.Ks[0]))
		}
		return numRes(c.Sum(op.Ks[0]))
	case "uclear":
		c.UnsafeClear()
	case "lock":
		c.Lock()
	case "unlock":
		c.Unlock()
	case "rlock":
		c.RLock()
	case "runlock":
		c.RUnlock()
	default:
		panic("harness: bad op " + op.Op)
	}
	return okRes
}

func (w *World) execJCore(c *joint.Core, op *Op) trace.Rec {
	switch op.Op {
	case "count":
		if op.Unsafe {
			return intRes(c.UnsafeCount())
		}
		return intRes(c.Count())
	case "mean":
		if op.Unsafe {
			return numRes(c.UnsafeMean(op.I))
		}
		return numRes(c.Mean(op.I))
	case "sum":
		if op.Unsafe {
			return numRes(c.UnsafeSum(op.Ks...))
		}
		return numRes(c.Sum(op.Ks...))
	case "uclear":
		c.UnsafeClear()
	case "lock":
		c.Lock()
	case "unlock":
		c.Unlock()
	case "rlock":
		c.RLock()
	case "runlock":
		c.RUnlock()
	default:
		panic("harness: bad op " + op.Op)
	}
	return okRes
}

func (w *World) execOrder(s order.Statistic, op *Op) trace.Rec {
	switch op.Op {
	case "add":
		s.Add(float64(op.X))
		return okRes
	case "remove":
		s.Remove(float64(op.X))
		return okRes
	case "size":
		return intRes(s.Size())
	case "select":
		n := s.Select(op.I)
		if n == nil || reflect.ValueOf(n).IsNil() {
			return trace.Rec{"k": "nil"}
		}
		return trace.NumRec(n.Value())
	case "rank":
		return intRes(s.Rank(float64(op.X)))
	case "height":
		return intRes(s.(*avl.Tree).Height())
	case "snap": // everything that the structure answers
		n := s.Size()
		r := trace.Rec{"k": "snap", "n": n}
		var sel []trace.Rec
		ranks := []int{}
		if n > 5000 {
			n = 5000
		}
		sel = make([]trace.Rec, n+2)
		for i := range sel { // in an order that ends anywhere
			j := (i + op.I) % len(sel)
			sel[j] = w.execOrder(s, &Op{Op: "select", I: j - 1})
		}
		for _, x := range op.Xs {
			ranks = append(ranks, s.Rank(x))
		}
		r["sel"], r["ranks"] = sel, ranks
		return r
	case "shape":
		t := s.(*avl.Tree)
		return trace.Rec{"k": "shape", "tree": parseTree(t.String()), "h": t.Height()}
	case "render":
		str := s.(fmt.Stringer).String()
		if _, ok := s.(*skiplist.SkipList); ok {
			return parseLanes(str)
		}
		return parseTree(str)
	}
	panic("harness: bad op " + op.Op)
}

func (w *World) execHeap(op *Op) trace.Rec {
	if op.Op == "hnew" {
		cmp := func(x, y float64) bool { return x < y }
		if op.Cmp == "max" {
			cmp = func(x, y float64) bool { return x > y }
		}
		vals := append([]float64{}, op.Xs...)
		h := heap.New(op.O, vals, cmp)
		scrambleVals(vals)
		w.put(op.O, &heapObj{h: h, items: map[string]*heap.Item{}, names: map[*heap.Item]string{}, in: map[*heap.Item]bool{}, n: len(op.Xs)})
		return okRes
	}
	o := w.get(op.O).(*heapObj)
	switch op.Op {
	case "hpush":
		if o.in[o.items[op.Item]] {
			return skipped
		}
		o.n++
	case "hupdate":
		if !o.in[o.items[op.Item]] {
			return skipped
		}
	case "hremove":
		if !o.in[o.items[op.Item]] {
			return skipped
		}
		delete(o.in, o.items[op.Item])
		o.n--
	case "hpop":
		if o.n == 0 {
			return skipped
		}
		o.n--
	case "hpeek":
		if o.n == 0 {
			return skipped
		}
	}
	switch op.Op {
	case "hpush":
		item, ok := o.items[op.Item]
		if !ok {
			item = &heap.Item{}
			o.items[op.Item] = item
			o.names[item] = op.Item
		}
		o.in[item] = true
		item.Val = float64(op.X)
		heapops.Push(o.h, item)
		if item.HeapID != op.O {
			return trace.Rec{"k": "badheapid"}
		}
		return okRes
	case "hpop":
		item := heapops.Pop(o.h).(*heap.Item)
		delete(o.in, item)
		return trace.Rec{"k": "item", "item": o.names[item], "v": trace.Lim(item.Val)}
	case "hpeek":
		return trace.NumRec(o.h.Peek())
	case "hlen":
		return intRes(o.h.Len())
	case "hvalues":
		vals := o.h.Values()
		r := trace.Rec{"k": "list", "vs": trace.Vec(vals)}
		scrambleVals(vals)
		return r
	case "hupdate":
		o.h.Update(o.items[op.Item], float64(op.X))
		return okRes
	case "hremove":
		o.h.Remove(o.items[op.Item])
		return okRes
	}
	panic("harness: bad op " + op.Op)
}

func (w *World) execReservoir(r *sample.Reservoir, op *Op) trace.Rec {
	switch op.Op {
	case "rseed":
		rand.Seed(int64(op.I))
		return okRes
	case "rpush":
		r.Push(op.I)
		return okRes
	case "rsample":
		s := r.Sample()
		out := []int{}
		for _, x := range s {
			i, ok := x.(int)
			if !ok {
				i = -1
			}
			out = append(out, i)
		}
		if op.Mut {
			for i := range s {
				s[i] = -7
			}
			s = append(s[:0], -8)
		}
		return trace.Rec{"k": "ints", "is": out}
	}
	panic("harness: bad op " + op.Op)
}

// reservoirStat counts, over many reservoirs, how often subsets (in lexicographic
// order), or items and pairs, are the sample after some numbers of pushes.
func reservoirStat(op *Op) trace.Rec {
	rand.Seed(int64(op.I))
	n := op.Ks[len(op.Ks)-1]
	index := make([]map[uint64]int, len(op.Ks))
	sets := make([][]int, len(op.Ks))
	ones := make([][]int, len(op.Ks))
	pairs := make([][][]int, len(op.Ks))
	for c, m := range op.Ks {
		if op.Mode == "subsets" {
			index[c] = subsets(m, op.Size)
			sets[c] = make([]int, len(index[c]))
		}
		ones[c] = make([]int, m)
		pairs[c] = make([][]int, m)
		for i := range pairs[c] {
			pairs[c][i] = make([]int, i)
		}
	}
	for rep := 0; rep < op.K; rep++ {
		r := &sample.Reservoir{Size: op.Size}
		c := 0
		for i := 0; i < n; i++ {
			r.Push(i)
			if i+1 != op.Ks[c] {
				continue
			}
			s := r.Sample()
			if len(s) != op.Size {
				return trace.Rec{"k": "badsample"}
			}
			var set uint64
			for a, x := range s {
				xi := x.(int)
				if op.Mode == "subsets" {
					set |= 1 << uint(xi)
					continue
				}
				ones[c][xi]++
				for _, y := range s[:a] {
					if yi := y.(int); yi < xi {
						pairs[c][xi][yi]++
					} else if yi > xi {
						pairs[c][yi][xi]++
					}
				}
			}
			if op.Mode == "subsets" {
				k, ok := index[c][set]
				if !ok {
					return trace.Rec{"k": "badsample"}
				}
				sets[c][k]++
			}
			c++
		}
	}
	out := []trace.Rec{}
	for c := range op.Ks {
		if op.Mode == "subsets" {
			out = append(out, trace.Rec{"sets": sets[c]})
		} else {
			out = append(out, trace.Rec{"ones": ones[c], "pairs": pairs[c][1:]})
		}
	}
	return trace.Rec{"k": "stat", "at": out}
}

// subsets numbers the subsets of size k of 0..n-1, as sets of bits.
func subsets(n, k int) map[uint64]int {
	res := map[uint64]int{}
	for b := uint64(0); b < 1<<uint(n); b++ {
		c := 0
		for x := b; x != 0; x &= x - 1 {
			c++
		}
		if c == k {
			res[b] = len(res)
		}
	}
	return res
}
