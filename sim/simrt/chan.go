package simrt

import (
	"reflect"
	"time"
	"unsafe"
)

// Channel operations of instrumented code. Outside a multi-task run they are the native ones. Inside one, waiting is
// handed to the scheduler. A value passes from task to task through a native channel of capacity one, so the race
// detector sees the edges that the Go memory model gives: a send happens before the receive that completes it and, on
// an unbuffered channel, the receive happens before the send completes.

// firing is shared by the cases of one waiting operation: the first counterpart that comes along completes it
type firing struct {
	done   bool
	closed bool
	idx    int
}

// waiter is a task that waits to send to or receive from an unbuffered channel
type waiter struct {
	next *waiter
	ch   unsafe.Pointer
	send bool
	f    *firing
	idx  int
	slot interface{}   // chan T: the value
	pub  chan struct{} // what the other side did before
}

var (
	waiters     *waiter
	chanWaiting int // tasks that wait in a channel operation
	polls       int
	waited      time.Duration
	chanRng     uint64
)

// A task can also be waiting for something outside the simulation, such as a timer. This many milliseconds pass
// before it counts as waiting for ever.
const maxPolls = 400

// The same on a simulated clock
const maxWait = 40 * time.Minute

//go:norace
func resetChans(seed uint64) {
	waiters = nil
	chanWaiting = 0
	polls, waited = 0, 0
	chanRng = seed
}

//go:norace
func find(ch unsafe.Pointer, send bool, self *firing) *waiter {
	if ch == nil {
		return nil
	}
	var last *waiter
	for w := waiters; w != nil; w = w.next {
		if w.ch == ch && w.send == send && w.f != self && !w.f.done {
			last = w // the list is newest first; the oldest is served
		}
	}
	return last
}

//go:norace
func slotOf(w *waiter) (interface{}, chan struct{}) { return w.slot, w.pub }

//go:norace
func fire(w *waiter, closed bool) {
	w.f.done = true
	w.f.closed = closed
	w.f.idx = w.idx
}

//go:norace
func enqueue(w *waiter) {
	w.next = waiters
	waiters = w
}

//go:norace
func dequeue(f *firing) {
	p := &waiters
	for *p != nil {
		if (*p).f == f {
			*p = (*p).next
		} else {
			p = &(*p).next
		}
	}
}

//go:norace
func fireClosed(ch unsafe.Pointer) {
	for w := waiters; w != nil; w = w.next {
		if w.ch == ch && !w.f.done {
			fire(w, true)
		}
	}
}

//go:norace
func isMulti() bool { return active && multi }

//go:norace
func chanRotate(n int) int {
	chanRng += 0x9e3779b97f4a7c15
	z := chanRng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return int((z >> 33) % uint64(n))
}

//go:norace
func chanWait(d int) { chanWaiting += d }

//go:norace
func isFired(f *firing) (bool, int, bool) { return f.done, f.idx, f.closed }

// poll lets real time pass when every task waits and at least one of them in a channel operation
//
//go:norace
func poll() bool {
	if chanWaiting == 0 || aborted {
		return false
	}
	d := time.Millisecond
	if bubble {
		// the clock is simulated
		if waited > maxWait {
			return false
		}
		if waited/50 > d {
			d = waited / 50
		}
		waited += d
	} else if polls >= maxPolls {
		return false
	}
	polls++
	raceDisable()
	time.Sleep(d)
	raceEnable()
	for i := int32(0); i < ntasks; i++ {
		tasks[i].blocked = false
	}
	return true
}

//go:norace
func progressed() { polls, waited = 0, 0 }

// Sleep is time.Sleep. On a simulated clock the other tasks go on meanwhile.
func Sleep(d time.Duration) {
	if !isMulti() || !inBubble() {
		time.Sleep(d)
		return
	}
	Recv(time.After(d))
}

//go:norace
func inBubble() bool { return bubble }

// Case is one communication of a select statement
type Case interface {
	try(self *firing) bool
	wait(f *firing, idx int)
	complete(closed bool)
	native() reflect.SelectCase
	set(v reflect.Value, ok bool)
	block()
}

// RecvCase is a receive operation; V and OK are what it received
type RecvCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
	w  *waiter
}

// R is a receive operation that has not happened yet
func R[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

func (c *RecvCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *RecvCase[T]) try(self *firing) bool {
	select {
	case c.V, c.OK = <-c.ch:
		return true
	default:
	}
	if w := find(c.ptr(), true, self); w != nil {
		slot, pub := slotOf(w)
		c.V, c.OK = <-slot.(chan T), true
		pub <- struct{}{}
		fire(w, false)
		return true
	}
	return false
}

func (c *RecvCase[T]) wait(f *firing, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	c.w = &waiter{ch: c.ptr(), f: f, idx: idx, slot: make(chan T, 1), pub: make(chan struct{}, 1)}
	c.w.pub <- struct{}{}
	enqueue(c.w)
}

func (c *RecvCase[T]) complete(closed bool) {
	if closed {
		c.V, c.OK = <-c.ch
		return
	}
	c.V, c.OK = <-c.w.slot.(chan T), true
}

func (c *RecvCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvCase[T]) set(v reflect.Value, ok bool) {
	c.OK = ok
	if ok {
		reflect.ValueOf(&c.V).Elem().Set(v)
	}
}

func (c *RecvCase[T]) block() { c.V, c.OK = <-c.ch }

// SendCase is a send operation
type SendCase[T any] struct {
	ch chan<- T
	v  T
	w  *waiter
}

// S is a send operation that has not happened yet: S(ch)(v)
func S[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }
}

func (c *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

func (c *SendCase[T]) try(self *firing) bool {
	select {
	case c.ch <- c.v:
		return true
	default:
	}
	if w := find(c.ptr(), false, self); w != nil {
		slot, pub := slotOf(w)
		<-pub
		slot.(chan T) <- c.v
		fire(w, false)
		return true
	}
	return false
}

func (c *SendCase[T]) wait(f *firing, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	slot := make(chan T, 1)
	slot <- c.v
	c.w = &waiter{ch: c.ptr(), send: true, f: f, idx: idx, slot: slot, pub: make(chan struct{}, 1)}
	enqueue(c.w)
}

func (c *SendCase[T]) complete(closed bool) {
	if closed {
		c.ch <- c.v // panics
	}
	<-c.w.pub
}

func (c *SendCase[T]) native() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *SendCase[T]) set(reflect.Value, bool) {}

func (c *SendCase[T]) block() { c.ch <- c.v }

// Select performs one of the cases and returns its index, or -1 for the default
func Select(hasDefault bool, cases ...Case) int {
	IO()
	if !isMulti() {
		if len(cases) == 1 && !hasDefault {
			cases[0].block()
			return 0
		}
		rc := make([]reflect.SelectCase, 0, len(cases)+1)
		for _, c := range cases {
			rc = append(rc, c.native())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return -1
		}
		cases[i].set(v, ok)
		return i
	}
	attempt := func(f *firing) int {
		if len(cases) == 0 {
			return -1
		}
		o := 0
		if len(cases) > 1 {
			o = chanRotate(len(cases))
		}
		for k := range cases {
			i := (k + o) % len(cases)
			if cases[i].try(f) {
				return i
			}
		}
		return -1
	}
	if i := attempt(nil); i >= 0 {
		progressed()
		Notify()
		IO()
		return i
	}
	if hasDefault {
		return -1
	}
	f := &firing{}
	for i, c := range cases {
		c.wait(f, i)
	}
	chanWait(1)
	defer chanWait(-1)
	defer dequeue(f)
	for {
		Block()
		if done, i, closed := isFired(f); done {
			progressed()
			cases[i].complete(closed)
			return i
		}
		if i := attempt(f); i >= 0 {
			progressed()
			Notify()
			return i
		}
	}
}

// SendTo is a send statement: SendTo(ch)(v)
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, S(ch)(v)) }
}

// Recv is a receive expression
func Recv[T any](ch <-chan T) T {
	c := R(ch)
	Select(false, c)
	return c.V
}

// Recv2 is a receive expression with two results
func Recv2[T any](ch <-chan T) (T, bool) {
	c := R(ch)
	Select(false, c)
	return c.V, c.OK
}

// Range evaluates the operand of a range over a channel
func Range[T any](ch <-chan T) (<-chan T, T, bool) {
	var v T
	return ch, v, false
}

// Close closes a channel
func Close[T any](ch chan<- T) {
	IO()
	close(ch)
	if isMulti() {
		fireClosed(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
		progressed()
		Notify()
		IO()
	}
}
