// Package vsync stands in for sync in an instrumented copy of the library:
// the same operations, decided by the controlled scheduler.
package vsync

import "verif.local/harness/rt/sched"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ held bool }

func (m *Mutex) Lock() {
	sched.Sync()
	sched.Wait(func() bool { return !m.held })
	m.held = true
}
func (m *Mutex) TryLock() bool {
	sched.Sync()
	if m.held {
		return false
	}
	m.held = true
	return true
}
func (m *Mutex) Unlock() {
	sched.Sync()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	sched.Sync()
	sched.Wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	sched.Sync()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	sched.Sync()
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) Unlock() {
	sched.Sync()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	sched.Sync()
	sched.Wait(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) RUnlock() {
	sched.Sync()
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	sched.Sync()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

// WaitGroup counts; nothing but controlled threads can change the count.
type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	sched.Sync()
	if w.n += d; w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	sched.Sync()
	sched.Wait(func() bool { return w.n == 0 })
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond wakes its waiters in order.
type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(append([]*bool{}, c.waiters...), woken)
	c.L.Unlock()
	sched.Wait(func() bool { return *woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	sched.Sync()
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	sched.Sync()
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool hands out the item put back last, so that reuse is always seen.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	sched.Sync()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = append([]interface{}{}, p.items[:n-1]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	sched.Sync()
	if x != nil {
		p.items = append(append([]interface{}{}, p.items...), x)
	}
}

type Map struct{ m map[interface{}]interface{} }

func (m *Map) Load(k interface{}) (interface{}, bool) {
	sched.Sync()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v interface{}) {
	sched.Sync()
	m.set(k, v)
}
func (m *Map) set(k, v interface{}) {
	n := map[interface{}]interface{}{k: v}
	for a, b := range m.m {
		if a != k {
			n[a] = b
		}
	}
	m.m = n
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	sched.Sync()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) Delete(k interface{}) {
	sched.Sync()
	m.del(k)
}
func (m *Map) del(k interface{}) {
	n := map[interface{}]interface{}{}
	for a, b := range m.m {
		if a != k {
			n[a] = b
		}
	}
	m.m = n
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	sched.Sync()
	for k, v := range m.m {
		if !f(k, v) {
			return
		}
	}
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	sched.Sync()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	sched.Sync()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, v interface{}) bool {
	sched.Sync()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.set(k, v)
	return true
}
func (m *Map) CompareAndDelete(k, old interface{}) bool {
	sched.Sync()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Clear() {
	sched.Sync()
	m.m = nil
}
