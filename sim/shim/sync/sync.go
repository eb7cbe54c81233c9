// Package sync stands in for the standard package in instrumented code.
package sync

import (
	"verif.local/sim/rt"
)

// Locker as in the standard package.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated lock.
type Mutex struct {
	wld  *rt.World
	held bool
	q    rt.WaitQ
	hb   byte
}

func (m *Mutex) Lock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	rt.W.Pause()
	for m.held {
		rt.W.Wait(&m.q, 0)
	}
	m.held = true
	rt.RaceAcq(&m.hb)
}

func (m *Mutex) TryLock() bool {
	if rt.Dying() {
		return true
	}
	m.fresh()
	if m.held {
		return false
	}
	m.held = true
	rt.RaceAcq(&m.hb)
	return true
}

func (m *Mutex) Unlock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rt.RaceRel(&m.hb)
	m.held = false
	rt.W.WakeOne(&m.q)
}

// Locks left held by a world that ended are free in the next one.
func (m *Mutex) fresh() {
	if m.wld != rt.W {
		m.wld, m.held, m.q = rt.W, false, rt.WaitQ{}
	}
}

func (m *RWMutex) fresh() {
	if m.wld != rt.W {
		m.wld, m.w, m.r, m.ww, m.q = rt.W, false, 0, 0, rt.WaitQ{}
	}
}

// RWMutex is a simulated readers/writer lock.
type RWMutex struct {
	wld *rt.World
	w   bool
	r   int
	ww  int
	q   rt.WaitQ
	hb  byte
	rb  byte
}

func (m *RWMutex) Lock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	rt.W.Pause()
	m.ww++
	for m.w || m.r > 0 {
		rt.W.Wait(&m.q, 0)
	}
	m.ww--
	m.w = true
	rt.RaceAcq(&m.hb)
	rt.RaceAcq(&m.rb)
}
func (m *RWMutex) TryLock() bool {
	if rt.Dying() {
		return true
	}
	m.fresh()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	rt.RaceAcq(&m.hb)
	rt.RaceAcq(&m.rb)
	return true
}
func (m *RWMutex) Unlock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRel(&m.hb)
	m.w = false
	rt.W.WakeAll(&m.q)
}
func (m *RWMutex) RLock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	rt.W.Pause()
	for m.w || m.ww > 0 {
		rt.W.Wait(&m.q, 0)
	}
	m.r++
	rt.RaceAcq(&m.hb)
}
func (m *RWMutex) TryRLock() bool {
	if rt.Dying() {
		return true
	}
	m.fresh()
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	rt.RaceAcq(&m.hb)
	return true
}
func (m *RWMutex) RUnlock() {
	if rt.Dying() {
		return
	}
	m.fresh()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceRel(&m.rb)
	m.r--
	rt.W.WakeAll(&m.q)
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once as in the standard package.
//
// What was done in an earlier world counts as not done, since tasks that it
// started are gone.
type Once struct {
	wld  *rt.World
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	k := rt.Key()
	if k != o.wld && o.wld != nil && k != nil {
		o.done = false
	}
	if k != nil {
		o.wld = k
	}
	if k == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if rt.Dying() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc as in the standard package.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// WaitGroup is simulated.
type WaitGroup struct {
	wld *rt.World
	n   int
	q   rt.WaitQ
	hb  byte
}

func (g *WaitGroup) fresh() {
	if g.wld != rt.W {
		g.wld, g.n, g.q = rt.W, 0, rt.WaitQ{}
	}
}

func (g *WaitGroup) Add(d int) {
	if rt.Dying() {
		return
	}
	g.fresh()
	if d < 0 {
		rt.RaceRel(&g.hb)
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		rt.W.WakeAll(&g.q)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() { defer g.Done(); f() })
}
func (g *WaitGroup) Wait() {
	if rt.Dying() {
		return
	}
	g.fresh()
	for g.n > 0 {
		rt.W.Wait(&g.q, 0)
	}
	rt.RaceAcq(&g.hb)
}

// Cond is simulated.
type Cond struct {
	L Locker
	q rt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	c.L.Unlock()
	if rt.Dying() {
		return
	}
	rt.W.Wait(&c.q, 0)
	c.L.Lock()
}
func (c *Cond) Signal() {
	if !rt.Dying() {
		rt.W.WakeOne(&c.q)
	}
}
func (c *Cond) Broadcast() {
	if !rt.Dying() {
		rt.W.WakeAll(&c.q)
	}
}

// Pool keeps everything that is put back and hands out the most recent item, or now and then a new one.
type Pool struct {
	New   func() interface{}
	wld   *rt.World
	items []pitem
}

type pitem struct {
	v  interface{}
	hb *byte
}

func (p *Pool) Get() interface{} {
	if p.wld != rt.W {
		p.wld, p.items = rt.W, nil
	}
	if n := len(p.items); n > 0 && rt.W != nil && !rt.Dying() {
		if !rt.W.Chance("pool", 0.2) {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			rt.RaceAcq(x.hb)
			return x.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil || rt.W == nil || rt.Dying() {
		return
	}
	if p.wld != rt.W {
		p.wld, p.items = rt.W, nil
	}
	it := pitem{x, new(byte)}
	rt.RaceRel(it.hb)
	if len(p.items) < 64 {
		p.items = append(p.items, it)
	}
}

// Map is a simulated concurrent map. It is a list, since the race detector
// sees operations on maps.
type Map struct {
	k, v []interface{}
	hb   byte
}

func (m *Map) touch() {
	if rt.W != nil && !rt.Dying() {
		rt.W.Pause()
		rt.RaceAcq(&m.hb)
		rt.RaceRel(&m.hb)
	}
}

func (m *Map) find(k interface{}) int {
	for i := range m.k {
		if m.k[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) put(k, v interface{}) {
	if i := m.find(k); i >= 0 {
		m.v[i] = v
		return
	}
	m.k = append(m.k, k)
	m.v = append(m.v, v)
}

func (m *Map) del(i int) {
	for ; i+1 < len(m.k); i++ {
		m.k[i], m.v[i] = m.k[i+1], m.v[i+1]
	}
	m.k, m.v = m.k[:len(m.k)-1], m.v[:len(m.v)-1]
}

func (m *Map) get(k interface{}) (interface{}, bool) {
	if i := m.find(k); i >= 0 {
		return m.v[i], true
	}
	return nil, false
}

func (m *Map) Load(k interface{}) (interface{}, bool) { m.touch(); return m.get(k) }
func (m *Map) Store(k, v interface{})                 { m.touch(); m.put(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.touch()
	if x, ok := m.get(k); ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.touch()
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.v[i]
	m.del(i)
	return v, true
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.touch()
	x, ok := m.get(k)
	m.put(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	m.touch()
	if x, ok := m.get(k); ok && x == o {
		m.put(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	m.touch()
	if i := m.find(k); i >= 0 && m.v[i] == o {
		m.del(i)
		return true
	}
	return false
}
func (m *Map) Clear() { m.touch(); m.k, m.v = nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	m.touch()
	for _, k := range append([]interface{}(nil), m.k...) {
		if v, ok := m.get(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
