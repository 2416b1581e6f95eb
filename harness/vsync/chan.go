package vsync

import (
	"reflect"
	"unsafe"
)

// Channels that instrumented code makes are known here, so that goroutines that wait
// for them are scheduled. Operations on others are those of the language.

type channel struct {
	p       unsafe.Pointer
	n       int // what it holds at most
	closed  bool
	waiting []*selection // if it holds nothing
}

var global []*channel // made before executions

//go:norace
func pointer[C any](c C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }

// Make returns c, which is new.
//
//go:norace
func Make[C any](c C) C {
	raceOff()
	ch := &channel{p: pointer(c), n: reflect.ValueOf(c).Cap()}
	if x, g := self(); g != nil {
		x.chans = append(x.chans, ch)
		x.mu.Unlock()
	} else {
		smu.Lock()
		global = append(global, ch)
		smu.Unlock()
	}
	raceOn()
	return c
}

func (x *sched) channel(p unsafe.Pointer) *channel {
	for i := len(x.chans) - 1; i >= 0; i-- {
		if x.chans[i].p == p {
			return x.chans[i]
		}
	}
	return nil
}

// Case is an operation on a channel.
type Case interface {
	common() *which
	length() int
	// do performs the operation, which does not block.
	do()
	// accept takes the value of a case that sends.
	accept(Case)
	native() reflect.SelectCase
	received(reflect.Value, bool)
}

type which struct {
	p    unsafe.Pointer
	send bool
	ch   *channel
}

func (w *which) common() *which { return w }

// RecvCase receives V, and OK.
type RecvCase[T any] struct {
	which
	c  <-chan T
	V  T
	OK bool
}

// Receiving returns a case that receives.
//
//go:norace
func Receiving[T any](c <-chan T) *RecvCase[T] {
	return &RecvCase[T]{which: which{p: pointer(c)}, c: c}
}

//go:norace
func (r *RecvCase[T]) length() int { return len(r.c) }

//go:norace
func (r *RecvCase[T]) do() { r.V, r.OK = <-r.c }

//go:norace
func (r *RecvCase[T]) accept(s Case) {
	r.V, r.OK = s.(interface{ value() interface{} }).value().(holder[T]).v, true
}

//go:norace
func (r *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.c)}
}

//go:norace
func (r *RecvCase[T]) received(v reflect.Value, ok bool) {
	reflect.ValueOf(&r.V).Elem().Set(v)
	r.OK = ok
}

type holder[T any] struct{ v T }

// SendCase sends.
type SendCase[T any] struct {
	which
	c chan<- T
	v T
}

// Sending returns what makes a case that sends.
//
//go:norace
func Sending[T any](c chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		return &SendCase[T]{which: which{p: pointer(c), send: true}, c: c, v: v}
	}
}

//go:norace
func (s *SendCase[T]) length() int { return len(s.c) }

//go:norace
func (s *SendCase[T]) do() { s.c <- s.v }

//go:norace
func (s *SendCase[T]) accept(Case) {}

//go:norace
func (s *SendCase[T]) value() interface{} { return holder[T]{s.v} }

//go:norace
func (s *SendCase[T]) native() reflect.SelectCase {
	v := reflect.New(reflect.TypeOf(s.c).Elem()).Elem()
	v.Set(reflect.ValueOf(&s.v).Elem())
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.c), Send: v}
}

//go:norace
func (s *SendCase[T]) received(reflect.Value, bool) {}

type selection struct {
	cases  []Case
	done   bool
	chosen int
	before byte // what happened before
	after  byte
}

// partner returns a case of another selection that waits to meet k.
func (w *selection) partner(k *which) (*selection, int) {
	for _, u := range k.ch.waiting {
		if u == w || u.done {
			continue
		}
		for j, c := range u.cases {
			if o := c.common(); o.p == k.p && o.send != k.send {
				return u, j
			}
		}
	}
	return nil, 0
}

func possible(c Case) bool {
	k := c.common()
	switch {
	case k.ch == nil:
		return false
	case k.ch.closed:
		return true
	case k.ch.n == 0:
		return false
	case k.send:
		return c.length() < k.ch.n
	}
	return c.length() > 0
}

func (w *selection) ready() bool {
	if w.done {
		return true
	}
	for _, c := range w.cases {
		if possible(c) {
			return true
		}
		if k := c.common(); k.ch != nil && k.ch.n == 0 {
			if u, _ := w.partner(k); u != nil {
				return true
			}
		}
	}
	return false
}

// attempt performs one of the cases, and returns its number, or -1 if none can be. The
// lock is held, and not if it panics.
func (x *sched) attempt(w *selection) int {
	for j := range w.cases {
		i := j
		if x.plan.Last {
			i = len(w.cases) - 1 - j
		}
		c := w.cases[i]
		k := c.common()
		if k.ch == nil {
			continue
		}
		if possible(c) {
			if k.send && k.ch.closed {
				x.mu.Unlock()
				raceOn()
				panic("send on closed channel")
			}
			raceOn()
			c.do()
			raceOff()
			return i
		}
		if k.ch.n > 0 {
			continue
		}
		if u, n := w.partner(k); u != nil {
			if k.send {
				u.cases[n].accept(c)
			} else {
				c.accept(u.cases[n])
			}
			u.done, u.chosen = true, n
			raceOn()
			raceAcquire(unsafe.Pointer(&u.before))
			raceRelease(unsafe.Pointer(&u.after))
			raceOff()
			return i
		}
	}
	return -1
}

// Select performs one of the cases and returns its number, or -1 if none can be
// performed at once and there is a default.
func Select(def bool, cases ...Case) int {
	raceOff()
	x, g := self()
	if g == nil {
		raceOn()
		return native(def, cases)
	}
	for _, c := range cases {
		k := c.common()
		if k.p == nil {
			continue
		}
		if k.ch = x.channel(k.p); k.ch == nil {
			x.log(g, "other", nil, 0)
			x.mu.Unlock()
			raceOn()
			return native(def, cases)
		}
	}
	x.yield(g, false)
	x.log(g, "other", nil, 0)
	w := &selection{cases: cases}
	i := x.attempt(w)
	if i < 0 && !def {
		raceOn()
		raceRelease(unsafe.Pointer(&w.before))
		raceOff()
		for _, c := range cases {
			if ch := c.common().ch; ch != nil && ch.n == 0 {
				ch.waiting = append(ch.waiting, w)
			}
		}
		x.block(g, w)
		for _, c := range cases {
			if ch := c.common().ch; ch != nil {
				var rest []*selection
				for _, u := range ch.waiting {
					if u != w {
						rest = append(rest, u)
					}
				}
				ch.waiting = rest
			}
		}
		if w.done {
			i = w.chosen
			raceOn()
			raceAcquire(unsafe.Pointer(&w.after))
			raceOff()
		} else {
			i = x.attempt(w)
		}
	}
	x.mu.Unlock()
	raceOn()
	return i
}

func native(def bool, cases []Case) int {
	var cs []reflect.SelectCase
	for _, c := range cases {
		cs = append(cs, c.native())
	}
	if def {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	if i == len(cases) {
		return -1
	}
	if !cases[i].common().send {
		cases[i].received(v, ok)
	}
	return i
}

// Recv receives.
//
//go:norace
func Recv[T any](c <-chan T) T {
	r := Receiving(c)
	Select(false, r)
	return r.V
}

// Recv2 receives, and tells whether the channel was open.
//
//go:norace
func Recv2[T any](c <-chan T) (T, bool) {
	r := Receiving(c)
	Select(false, r)
	return r.V, r.OK
}

// Send returns what sends.
//
//go:norace
func Send[T any](c chan<- T) func(T) {
	return func(v T) { Select(false, Sending(c)(v)) }
}

// Close returns what closes.
//
//go:norace
func Close[T any](c chan<- T) func() {
	return func() {
		raceOff()
		x, g := self()
		if g == nil {
			raceOn()
			close(c)
			return
		}
		ch := x.channel(pointer(c))
		if ch == nil {
			x.mu.Unlock()
			raceOn()
			close(c)
			return
		}
		x.yield(g, false)
		x.log(g, "other", nil, 0)
		if ch.closed {
			x.mu.Unlock()
			raceOn()
			panic("close of closed channel")
		}
		raceOn()
		close(c)
		raceOff()
		ch.closed = true
		x.mu.Unlock()
		raceOn()
	}
}
