package rt

// Chan is the simulated channel the instrumenter puts in place of Go channels.
// Its methods are instantiated in the code under test; the state is kept in a
// part that is not generic, which the race detector does not look at.
type Chan[T any] struct{ c *achan }

type item struct {
	v  interface{}
	hb *byte
}

type achan struct {
	wld    *World
	born   *World
	snap   []item // contents when the first world began
	snapcl bool
	cap    int
	buf    []item
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	free   byte // receivers release, senders acquire
	cl     byte
}

// sel is one blocking operation (possibly on several channels).
type sel struct {
	q     WaitQ
	fired bool
	idx   int
}

type waiter struct {
	s    *sel
	idx  int
	it   item
	ok   bool
	hb   byte // released by the blocked side
	peer byte // released by the other side
}

func MakeChan[T any](n ...int) *Chan[T] {
	k := 0
	if len(n) > 0 {
		k = n[0]
	}
	return &Chan[T]{newAchan(k)}
}

// ChanLoop starts a loop over a channel, and gives a zero value for its variable.
func ChanLoop[T any](c *Chan[T]) (*Chan[T], T) {
	var z T
	return c, z
}

func newAchan(n int) *achan {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &achan{cap: n, wld: Key(), born: Key()}
}

// fresh: a channel made before the first world (at package initialisation) is in
// every world what it was then; others are as they were, without the tasks of other worlds.
func (c *achan) fresh() {
	if c.wld == Key() {
		return
	}
	if Key() != nil && c.born == nil {
		if c.wld == nil {
			c.snap = append([]item(nil), c.buf...)
			c.snapcl = c.closed
		}
		c.buf = append([]item(nil), c.snap...)
		c.closed = c.snapcl
	}
	c.wld = Key()
	c.sendq, c.recvq = nil, nil
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.s.fired {
			return x
		}
	}
	return nil
}

func (x *waiter) fire(ok bool) {
	x.ok = ok
	x.s.fired, x.s.idx = true, x.idx
	if W != nil {
		W.WakeAll(&x.s.q)
	}
}

func (c *achan) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	it := item{v, new(byte)}
	if r := pop(&c.recvq); r != nil {
		raceRelease(it.hb)
		raceAcquire(&r.hb)
		r.it = it
		r.fire(true)
		return true
	}
	if len(c.buf) < c.cap {
		raceAcquire(&c.free)
		raceRelease(it.hb)
		c.buf = append(c.buf, it)
		return true
	}
	return false
}

func (c *achan) tryRecv() (item, bool, bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		raceAcquire(it.hb)
		raceRelease(&c.free)
		if s := pop(&c.sendq); s != nil {
			c.buf = append(c.buf, s.it)
			raceRelease(&s.peer)
			s.fire(true)
		}
		return it, true, true
	}
	if s := pop(&c.sendq); s != nil {
		raceAcquire(s.it.hb)
		raceRelease(&s.peer)
		s.fire(true)
		return s.it, true, true
	}
	if c.closed {
		raceAcquire(&c.cl)
		return item{}, false, true
	}
	return item{}, false, false
}

func (c *achan) close() {
	if Dying() && W != nil {
		return
	}
	c.fresh()
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	raceRelease(&c.cl)
	for {
		r := pop(&c.recvq)
		if r == nil {
			break
		}
		raceRelease(&r.peer)
		r.fire(false)
	}
	for {
		r := pop(&c.sendq)
		if r == nil {
			break
		}
		r.fire(false)
	}
}

func (c *Chan[T]) core() *achan {
	if c == nil {
		return nil
	}
	return c.c
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) { selectOn(c.core().sendCase(v)) }

// Recv is <-c.
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	selectOn(c.core().recvCase())
	return c.Val2()
}

// Val is the value received by the last Select of the task.
func (c *Chan[T]) Val() T { v, _ := c.Val2(); return v }
func (c *Chan[T]) Val2() (T, bool) {
	v, ok := received()
	if v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

// Close is close(c).
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	c.c.close()
}

func (c *Chan[T]) Len() int { return c.core().length() }
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

func (c *achan) length() int {
	if c == nil {
		return 0
	}
	c.fresh()
	return len(c.buf)
}

// what the last receive of a task got
var outside item
var outsideOK bool

func gotten(it item, ok bool) {
	if w := W; w != nil && w.cur != nil {
		w.cur.recv, w.cur.recvOK = it.v, ok
		return
	}
	outside, outsideOK = it, ok
}

func received() (interface{}, bool) {
	if w := W; w != nil && w.cur != nil {
		return w.cur.recv, w.cur.recvOK
	}
	return outside.v, outsideOK
}

// Case is one alternative of a select.
type Case struct {
	c    *achan
	send bool
	v    interface{}
	w    *waiter
}

func (c *Chan[T]) RecvCase() Case    { return c.core().recvCase() }
func (c *Chan[T]) SendCase(v T) Case { return c.core().sendCase(v) }

func (c *achan) recvCase() Case              { return Case{c: c} }
func (c *achan) sendCase(v interface{}) Case { return Case{c: c, send: true, v: v} }

func (a *Case) try() bool {
	if a.c == nil {
		return false
	}
	a.c.fresh()
	if a.send {
		return a.c.trySend(a.v)
	}
	it, ok, done := a.c.tryRecv()
	if done {
		gotten(it, ok)
	}
	return done
}

func (a *Case) enq(s *sel, i int) {
	if a.c == nil {
		return
	}
	a.w = &waiter{s: s, idx: i}
	if a.send {
		a.w.it = item{a.v, new(byte)}
		raceAcquire(&a.c.free)
		raceRelease(a.w.it.hb)
		a.c.sendq = append(a.c.sendq, a.w)
		return
	}
	raceRelease(&a.w.hb)
	a.c.recvq = append(a.c.recvq, a.w)
}

func (a *Case) finish() {
	w := a.w
	raceAcquire(&w.peer)
	if a.send {
		if !w.ok {
			panic("send on closed channel")
		}
		return
	}
	if w.ok {
		raceAcquire(w.it.hb)
	}
	gotten(w.it, w.ok)
}

func selectOn(c Case) {
	if W != nil && Dying() {
		W.cur.recv, W.cur.recvOK = nil, false
		return
	}
	cs := []Case{c}
	sel1(false, cs)
}

// Select performs one of the cases and returns its index, or -1 for default.
func Select(def bool, cs ...Case) int {
	if W != nil && Dying() {
		return -1
	}
	return sel1(def, cs)
}

func sel1(def bool, cs []Case) int {
	w := W
	n := len(cs)
	st := 0
	if w != nil {
		w.Pause()
		if n > 1 {
			st = w.Uniform("select", n)
		}
	}
	for k := 0; k < n; k++ {
		i := (st + k) % n
		if cs[i].try() {
			return i
		}
	}
	if def {
		return -1
	}
	if w == nil {
		panic("simulator: blocking channel operation outside a world")
	}
	s := &sel{}
	for i := range cs {
		cs[i].enq(s, i)
	}
	for !s.fired {
		w.Wait(&s.q, 0)
	}
	cs[s.idx].finish()
	return s.idx
}

// Push adds a value without blocking (timers); it is for use in events.
func (c *Chan[T]) Push(v T) { c.c.fresh(); c.c.trySend(v) }
