package mcrt

import "unsafe"

const (
	opSend = iota
	opRecv
	opSelect
)

type selState struct {
	done bool
	idx  int
	ok   bool
}

type waiter[T any] struct {
	sel  *selState
	idx  int
	val  T
	next *waiter[T]
	sync byte // address for the happens-before edge
}

type wqueue[T any] struct{ head, tail *waiter[T] }

//go:norace
func (q *wqueue[T]) push(w *waiter[T]) {
	if q.tail == nil {
		q.head = w
	} else {
		q.tail.next = w
	}
	q.tail = w
}

// first is the first live waiter that does not belong to self.
//
//go:norace
func (q *wqueue[T]) first(self *selState) *waiter[T] {
	for q.head != nil && q.head.sel.done {
		q.head = q.head.next
	}
	if q.head == nil {
		q.tail = nil
	}
	for w := q.head; w != nil; w = w.next {
		if !w.sel.done && w.sel != self {
			return w
		}
	}
	return nil
}

// Chan is a channel.
type Chan[T any] struct {
	buf    []T
	slots  []byte // addresses for happens-before edges
	cap    int
	r, n   int
	closed bool
	csync  byte
	recvq  wqueue[T]
	sendq  wqueue[T]
}

// MakeChan is make(chan T, n).
//
//go:norace
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{cap: n, buf: make([]T, n), slots: make([]byte, n+1)}
}

// IntOf converts the size argument of make.
func IntOf[N ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n N) int {
	return int(n)
}

//go:norace
func (c *Chan[T]) canSend(self *selState) bool {
	return c.closed || c.n < c.cap || c.cap == 0 && c.recvq.first(self) != nil
}

//go:norace
func (c *Chan[T]) canRecv(self *selState) bool {
	return c.n > 0 || c.closed || c.cap == 0 && c.sendq.first(self) != nil
}

// op is one pending channel operation.
type chanOp[T any] struct {
	c    *Chan[T]
	send bool
	sel  selState
}

//go:norace
func (o *chanOp[T]) Ready(int) bool {
	if o.c == nil {
		return false
	}
	if o.sel.done {
		return true
	}
	if o.send {
		return o.c.canSend(&o.sel)
	}
	return o.c.canRecv(&o.sel)
}

//go:norace
func (c *Chan[T]) slot(i int) unsafe.Pointer { return unsafe.Pointer(&c.slots[i%len(c.slots)]) }

// doSend carries out a send that is possible.
//
//go:norace
func (c *Chan[T]) doSend(v T, self *selState) {
	if c.closed {
		panic("send on closed channel")
	}
	if c.cap == 0 {
		w := c.recvq.first(self)
		w.val = v
		w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
		RaceReleaseMerge(unsafe.Pointer(&w.sync))
		// the receive completes together with the send
		RaceAcquire(unsafe.Pointer(&w.sel.done))
		return
	}
	i := (c.r + c.n) % c.cap
	RaceAcquire(c.slot(i))
	c.buf[i] = v
	c.n++
	RaceRelease(c.slot(i))
}

//go:norace
func (c *Chan[T]) doRecv(self *selState) (v T, ok bool) {
	if c.cap == 0 {
		if w := c.sendq.first(self); w != nil {
			v = w.val
			w.sel.done, w.sel.idx, w.sel.ok = true, w.idx, true
			RaceAcquire(unsafe.Pointer(&w.sel.done))
			RaceReleaseMerge(unsafe.Pointer(&w.sync))
			return v, true
		}
	} else if c.n > 0 {
		i := c.r
		RaceAcquire(c.slot(i))
		v = c.buf[i]
		var zero T
		c.buf[i] = zero
		c.r = (c.r + 1) % c.cap
		c.n--
		RaceRelease(c.slot(i))
		return v, true
	}
	RaceAcquire(unsafe.Pointer(&c.csync))
	return v, false
}

// Send is c <- v.
//
//go:norace
func (c *Chan[T]) Send(v T) {
	if Aborting() {
		panic(abortSignal{})
	}
	o := &chanOp[T]{c: c, send: true}
	var w *waiter[T]
	if c != nil && c.cap == 0 {
		w = &waiter[T]{sel: &o.sel, val: v}
		RaceRelease(unsafe.Pointer(&o.sel.done))
		c.sendq.push(w)
	}
	Point(o, opSend, "channel send")
	if o.sel.done {
		RaceAcquire(unsafe.Pointer(&w.sync))
		return
	}
	o.sel.done = true // no longer waiting
	c.doSend(v, &o.sel)
}

// Recv2 is v, ok := <-c.
//
//go:norace
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if Aborting() {
		panic(abortSignal{})
	}
	o := &chanOp[T]{c: c}
	var w *waiter[T]
	if c != nil && c.cap == 0 {
		w = &waiter[T]{sel: &o.sel}
		RaceRelease(unsafe.Pointer(&o.sel.done))
		c.recvq.push(w)
	}
	Point(o, opRecv, "channel receive")
	if o.sel.done {
		RaceAcquire(unsafe.Pointer(&w.sync))
		return w.val, o.sel.ok
	}
	o.sel.done = true
	return c.doRecv(&o.sel)
}

// Recv is <-c.
//
//go:norace
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Close is close(c).
//
//go:norace
func (c *Chan[T]) Close() {
	if Aborting() {
		return
	}
	Point(nil, 0, "close")
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	RaceRelease(unsafe.Pointer(&c.csync))
}

// Len is len(c).
//
//go:norace
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Point(nil, 0, "len")
	return c.n
}

// Cap is cap(c).
//
//go:norace
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

// SelCase is a case of a select statement.
type SelCase interface {
	can(self *selState) bool
	enqueue(self *selState, idx int)
	do(self *selState) (any, bool)
	result() (any, bool)
}

type sendCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

type recvCase[T any] struct {
	c *Chan[T]
	w *waiter[T]
}

// SendCase is case c <- v.
//
//go:norace
func (c *Chan[T]) SendCase(v T) SelCase { return &sendCase[T]{c: c, v: v} }

// RecvCase is case <-c.
//
//go:norace
func (c *Chan[T]) RecvCase() SelCase { return &recvCase[T]{c: c} }

// As converts the value of a select receive.
//
//go:norace
func (c *Chan[T]) As(v any) T {
	if v == nil {
		var zero T
		return zero
	}
	return v.(T)
}

//go:norace
func (k *sendCase[T]) can(self *selState) bool { return k.c != nil && k.c.canSend(self) }

//go:norace
func (k *recvCase[T]) can(self *selState) bool { return k.c != nil && k.c.canRecv(self) }

//go:norace
func (k *sendCase[T]) enqueue(self *selState, idx int) {
	if k.c != nil && k.c.cap == 0 {
		k.w = &waiter[T]{sel: self, idx: idx, val: k.v}
		k.c.sendq.push(k.w)
	}
}

//go:norace
func (k *recvCase[T]) enqueue(self *selState, idx int) {
	if k.c != nil && k.c.cap == 0 {
		k.w = &waiter[T]{sel: self, idx: idx}
		k.c.recvq.push(k.w)
	}
}

//go:norace
func (k *sendCase[T]) do(self *selState) (any, bool) { k.c.doSend(k.v, self); return nil, false }

//go:norace
func (k *recvCase[T]) do(self *selState) (any, bool) {
	v, ok := k.c.doRecv(self)
	return v, ok
}

//go:norace
func (k *sendCase[T]) result() (any, bool) {
	RaceAcquire(unsafe.Pointer(&k.w.sync))
	return nil, false
}

//go:norace
func (k *recvCase[T]) result() (any, bool) {
	RaceAcquire(unsafe.Pointer(&k.w.sync))
	return k.w.val, true
}

type selOp struct {
	cases []SelCase
	def   bool
	sel   selState
}

//go:norace
func (o *selOp) Ready(int) bool {
	if o.def || o.sel.done {
		return true
	}
	for _, c := range o.cases {
		if c.can(&o.sel) {
			return true
		}
	}
	return false
}

// Select is a select statement; it returns the index of the case taken (-1:
// the default one) and what it received.
//
//go:norace
func Select(def bool, cases ...SelCase) (int, any, bool) {
	if Aborting() {
		panic(abortSignal{})
	}
	o := &selOp{cases: cases, def: def}
	if !def {
		RaceRelease(unsafe.Pointer(&o.sel.done))
		for i, c := range cases {
			c.enqueue(&o.sel, i)
		}
	}
	Point(o, opSelect, "select")
	if o.sel.done {
		v, ok := cases[o.sel.idx].result()
		return o.sel.idx, v, ok
	}
	var can [64]int
	n := 0
	for i, c := range cases {
		if n < len(can) && c.can(&o.sel) {
			can[n] = i
			n++
		}
	}
	o.sel.done = true
	if n == 0 {
		return -1, nil, false
	}
	i := can[Decide(n)]
	v, ok := cases[i].do(&o.sel)
	return i, v, ok
}
