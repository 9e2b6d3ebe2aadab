// Package sync stands in for the standard "sync" in the instrumented library: same API,
// but blocking goes through the simulation's scheduler. The Pool is the least forgiving legal
// one: it hands out the item returned last.
package sync

import (
	"unsafe"

	"verif.local/sim/rt"
)

// acq and rel tell the race detector (in builds that have it) what the primitive orders.
func acq(p *int) { rt.RaceAcquire(unsafe.Pointer(p)) }
func rel(p *int) { rt.RaceRelease(unsafe.Pointer(p)) }

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	hb     int
}

func (m *Mutex) Lock() {
	rt.Point()
	rt.WaitFor(func() bool { return !m.locked })
	m.locked = true
	acq(&m.hb)
}
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	acq(&m.hb)
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	rel(&m.hb)
	m.locked = false
}

type RWMutex struct {
	w  bool
	r  int
	hb int
	rd int
}

func (m *RWMutex) Lock() {
	rt.Point()
	rt.WaitFor(func() bool { return !m.w && m.r == 0 })
	m.w = true
	acq(&m.hb)
	acq(&m.rd)
}
func (m *RWMutex) Unlock() { rel(&m.hb); m.w = false }
func (m *RWMutex) RLock() {
	rt.Point()
	rt.WaitFor(func() bool { return !m.w })
	m.r++
	acq(&m.hb)
}
func (m *RWMutex) RUnlock() { rel(&m.rd); m.r-- }
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acq(&m.hb)
	acq(&m.rd)
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	acq(&m.hb)
	return true
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
	hb   int
}

func (o *Once) Do(f func()) {
	if o.done {
		acq(&o.hb)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { rel(&o.hb); o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ n, hb int }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		rel(&w.hb)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { rt.WaitFor(func() bool { return w.n == 0 }); acq(&w.hb) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L   Locker
	gen int
	sig int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	g, s := c.gen, c.sig
	c.L.Unlock()
	rt.WaitFor(func() bool { return c.gen != g || c.sig != s })
	c.L.Lock()
}
func (c *Cond) Signal()    { c.sig++ }
func (c *Cond) Broadcast() { c.gen++ }

type Pool struct {
	New   func() interface{}
	items []interface{}
	hb    int
	run   int64
}

// fresh drops what earlier executions put in (a pool may do that at any time).
func (p *Pool) fresh() {
	if p.run != rt.RunID {
		p.run, p.items = rt.RunID, nil
	}
}

func (p *Pool) Get() interface{} {
	rt.Point()
	p.fresh()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		acq(&p.hb)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	p.fresh()
	if x != nil {
		rel(&p.hb)
		p.items = append(p.items, x)
	}
	rt.Point()
}

type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
	hb   int
}

// in orders the accesses to the map in the eyes of the race detector.
func (m *Map) in() func() { acq(&m.hb); return m.out }
func (m *Map) out()       { rel(&m.hb) }

func (m *Map) get(k interface{}) (interface{}, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	rt.Point()
	defer m.in()()
	return m.get(k)
}
func (m *Map) Store(k, v interface{}) {
	rt.Point()
	defer m.in()()
	m.set(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	rt.Point()
	defer m.in()()
	if old, ok := m.get(k); ok {
		return old, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	defer m.in()()
	v, ok := m.get(k)
	m.del(k)
	return v, ok
}
func (m *Map) Delete(k interface{}) {
	defer m.in()()
	m.del(k)
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	defer m.in()()
	old, ok := m.get(k)
	m.set(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	defer m.in()()
	if v, ok := m.get(k); ok && v == old {
		m.set(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	defer m.in()()
	if v, ok := m.get(k); ok && v == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	out := m.in()
	keys := append([]interface{}(nil), m.keys...)
	out()
	for _, k := range keys {
		out := m.in()
		v, ok := m.get(k)
		out()
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	defer m.in()()
	m.m, m.keys = nil, nil
}
