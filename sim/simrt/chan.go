package simrt

import (
	"sync"
	"unsafe"
)

// Channels of the instrumented library. The real channel keeps buffered values
// and the closed state; who waits for whom is the simulator's business.

type chanWaiter struct {
	grp  *waitGroup
	idx  int
	val  any
	ok   bool
	send bool
}

// waitGroup is one blocked operation (with several cases in a select).
type waitGroup struct {
	fired *chanWaiter
}

type chanState struct {
	recvq, sendq []*chanWaiter
}

var (
	chanMu     sync.Mutex // also the happens-before edge of hand-offs under -race
	chanStates = map[unsafe.Pointer]*chanState{}
)

func chanKey[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func pop(q *[]*chanWaiter) *chanWaiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.grp.fired == nil {
			return w
		}
	}
	return nil
}

func enqueue(k unsafe.Pointer, w *chanWaiter) {
	st := chanStates[k]
	if st == nil {
		st = &chanState{}
		chanStates[k] = st
	}
	if w.send {
		st.sendq = append(st.sendq, w)
	} else {
		st.recvq = append(st.recvq, w)
	}
}

// drop removes a group's waiters from a channel's queues.
func drop(k unsafe.Pointer, g *waitGroup) {
	st := chanStates[k]
	if st == nil {
		return
	}
	keep := func(q []*chanWaiter) []*chanWaiter {
		var out []*chanWaiter
		for _, w := range q {
			if w.grp != g {
				out = append(out, w)
			}
		}
		return out
	}
	st.recvq, st.sendq = keep(st.recvq), keep(st.sendq)
	if len(st.recvq)+len(st.sendq) == 0 {
		delete(chanStates, k)
	}
}

func fire(w *chanWaiter) {
	w.grp.fired = w
	Wake(w.grp)
}

// trySend completes a send if it can go ahead now.
func trySend[T any](ch chan T, v T) bool {
	if ch == nil {
		return false
	}
	if st := chanStates[chanKey(ch)]; st != nil {
		if w := pop(&st.recvq); w != nil {
			w.val, w.ok = v, true
			fire(w)
			return true
		}
	}
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

// tryRecv completes a receive if it can go ahead now.
func tryRecv[T any](ch chan T) (v T, ok, done bool) {
	if ch == nil {
		return v, false, false
	}
	select {
	case v, ok = <-ch:
		done = true
	default:
	}
	if done && !ok {
		return v, false, true
	}
	if st := chanStates[chanKey(ch)]; st != nil {
		if w := pop(&st.sendq); w != nil {
			wv, _ := w.val.(T)
			if done {
				ch <- wv // room was just made
			} else {
				v, ok, done = wv, true, true
			}
			fire(w)
		}
	}
	return v, ok, done
}

// Case is one case of a select.
type Case interface {
	try() bool
	key() unsafe.Pointer
	waiter(g *waitGroup, i int) *chanWaiter
	take(w *chanWaiter)
}

// RecvC is a receiving case.
type RecvC[T any] struct {
	ch chan T
	V  T
	OK bool
}

// SendC is a sending case.
type SendC[T any] struct {
	ch chan T
	v  T
}

func anyDir[T any](p unsafe.Pointer) chan T { return *(*chan T)(p) }

// RecvCase makes a receiving case.
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: anyDir[T](unsafe.Pointer(&ch))} }

// SendCase makes a sending case (curried, so that the value converts to the
// element type as in a send statement).
func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: anyDir[T](unsafe.Pointer(&ch)), v: v} }
}

func (c *RecvC[T]) try() bool {
	v, ok, done := tryRecv(c.ch)
	if done {
		c.V, c.OK = v, ok
	}
	return done
}
func (c *RecvC[T]) key() unsafe.Pointer { return chanKey(c.ch) }
func (c *RecvC[T]) waiter(g *waitGroup, i int) *chanWaiter {
	return &chanWaiter{grp: g, idx: i}
}
func (c *RecvC[T]) take(w *chanWaiter) {
	c.V, _ = w.val.(T)
	c.OK = w.ok
}

func (c *SendC[T]) try() bool           { return trySend(c.ch, c.v) }
func (c *SendC[T]) key() unsafe.Pointer { return chanKey(c.ch) }
func (c *SendC[T]) waiter(g *waitGroup, i int) *chanWaiter {
	return &chanWaiter{grp: g, idx: i, val: c.v, send: true}
}
func (c *SendC[T]) take(w *chanWaiter) {
	if w.ok { // woken by close
		panic("send on closed channel")
	}
}

// Select runs a select statement: the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	Yield()
	chanMu.Lock()
	n := len(cases)
	first := 0
	if n > 1 {
		first = int(Draw(StreamSched, int64(n)))
	}
	for i := 0; i < n; i++ {
		j := (first + i) % n
		if tryCase(cases[j]) {
			chanMu.Unlock()
			return j
		}
	}
	if hasDefault {
		chanMu.Unlock()
		return -1
	}
	g := &waitGroup{}
	for i, c := range cases {
		if k := c.key(); k != nil {
			enqueue(k, c.waiter(g, i))
		}
	}
	chanMu.Unlock()
	defer func() {
		chanMu.Lock()
		for _, c := range cases {
			if k := c.key(); k != nil {
				drop(k, g)
			}
		}
		chanMu.Unlock()
	}()
	var f *chanWaiter
	for {
		chanMu.Lock()
		f = g.fired
		chanMu.Unlock()
		if f != nil {
			break
		}
		Block(g)
	}
	cases[f.idx].take(f)
	return f.idx
}

// tryCase releases the lock when a send on a closed channel panics.
func tryCase(c Case) bool {
	ok := false
	defer func() {
		if !ok {
			chanMu.Unlock()
		}
	}()
	r := c.try()
	ok = true
	return r
}

// Send is ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	c := RecvCase(ch)
	Select(false, c)
	return c.V
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	c := RecvCase(ch)
	Select(false, c)
	return c.V, c.OK
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	Yield()
	chanMu.Lock()
	defer chanMu.Unlock()
	close(ch)
	c := anyDir[T](unsafe.Pointer(&ch))
	if st := chanStates[chanKey(c)]; st != nil {
		for w := pop(&st.recvq); w != nil; w = pop(&st.recvq) {
			fire(w)
		}
		for w := pop(&st.sendq); w != nil; w = pop(&st.sendq) {
			w.ok = true
			fire(w)
		}
	}
}
