// Package sync replaces the standard package for instrumented code.
package sync

import "simrt/simrt"

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	q      simrt.WaitQ
	obj    simrt.SyncObj
}

func (m *Mutex) Lock() {
	if simrt.Killing() {
		return
	}
	if !simrt.Active() { // inside an atomic observation
		if m.locked {
			panic("simrt: lock held during an atomic observation")
		}
		m.locked = true
		return
	}
	simrt.Pre()
	for m.locked {
		m.q.Wait("mutex lock")
	}
	m.locked = true
	m.obj.Acquire()
}

func (m *Mutex) TryLock() bool {
	if simrt.Killing() {
		return true
	}
	simrt.Pre()
	if m.locked {
		return false
	}
	m.locked = true
	m.obj.Acquire()
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Killing() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.obj.Release()
	m.locked = false
	m.q.WakeOne()
	if simrt.Active() {
		simrt.Pre()
	}
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       simrt.WaitQ
	wobj    simrt.SyncObj
	robj    simrt.SyncObj
}

func (m *RWMutex) Lock() {
	if simrt.Killing() {
		return
	}
	if !simrt.Active() {
		if m.w || m.readers > 0 {
			panic("simrt: lock held during an atomic observation")
		}
		m.w = true
		return
	}
	simrt.Pre()
	m.wwait++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex lock")
	}
	m.wwait--
	m.w = true
	m.wobj.Acquire()
	m.robj.Acquire()
}

func (m *RWMutex) Unlock() {
	if simrt.Killing() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.wobj.Release()
	m.w = false
	m.q.WakeAll()
	if simrt.Active() {
		simrt.Pre()
	}
}

func (m *RWMutex) RLock() {
	if simrt.Killing() {
		return
	}
	if !simrt.Active() {
		if m.w {
			panic("simrt: lock held during an atomic observation")
		}
		m.readers++
		return
	}
	simrt.Pre()
	for m.w || m.wwait > 0 {
		m.q.Wait("rwmutex rlock")
	}
	m.readers++
	m.wobj.Acquire()
}

func (m *RWMutex) RUnlock() {
	if simrt.Killing() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.robj.Release()
	m.readers--
	if m.readers == 0 {
		m.q.WakeAll()
	}
	if simrt.Active() {
		simrt.Pre()
	}
}

func (m *RWMutex) TryLock() bool {
	simrt.Pre()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	m.wobj.Acquire()
	m.robj.Acquire()
	return true
}

func (m *RWMutex) TryRLock() bool {
	simrt.Pre()
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	m.wobj.Acquire()
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n   int
	q   simrt.WaitQ
	obj simrt.SyncObj
}

func (w *WaitGroup) Add(d int) {
	if simrt.Killing() {
		return
	}
	simrt.Pre()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if d < 0 {
		w.obj.Release()
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if simrt.Killing() {
		return
	}
	simrt.Pre()
	for w.n > 0 {
		w.q.Wait("waitgroup")
	}
	w.obj.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done && !simrt.RaceOn() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type Cond struct {
	L   Locker
	ws  []*condWait
	obj simrt.SyncObj
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if simrt.Killing() {
		return
	}
	// enqueue before releasing the lock: Unlock may yield
	w := &condWait{}
	c.ws = append(c.ws, w)
	c.L.Unlock()
	for !w.fired {
		w.q.Wait("cond wait")
	}
	c.obj.Acquire()
	c.L.Lock()
}

type condWait struct {
	fired bool
	q     simrt.WaitQ
}

func (c *Cond) Signal() {
	if simrt.Killing() {
		return
	}
	simrt.Pre()
	c.obj.Release()
	if len(c.ws) > 0 {
		w := c.ws[0]
		c.ws = c.ws[1:]
		w.fired = true
		w.q.WakeAll()
	}
}

func (c *Cond) Broadcast() {
	if simrt.Killing() {
		return
	}
	simrt.Pre()
	c.obj.Release()
	for _, w := range c.ws {
		w.fired = true
		w.q.WakeAll()
	}
	c.ws = nil
}

type Map struct {
	mu Mutex
	m  map[any]any
	ks []any
}

func (m *Map) Load(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) { m.Swap(k, v) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[any]any{}
	}
	old, ok := m.m[k]
	if !ok {
		m.ks = append(m.ks, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.ks = append(m.ks, k)
	m.m[k] = v
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.ks {
		if x == k {
			m.ks = append(m.ks[:i:i], m.ks[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, old, nw any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = nw
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[k]; ok && v == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.mu.Lock()
	ks := append([]any(nil), m.ks...)
	m.mu.Unlock()
	if n := len(ks); n > 1 && simrt.Active() {
		r := simrt.S.C.Choose(simrt.Map, n)
		ks = append(append([]any(nil), ks[r:]...), ks[:r]...)
	}
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.ks = nil, nil
}

type Pool struct {
	New   func() any
	items []any
	obj   simrt.SyncObj
}

func (p *Pool) Get() any {
	if simrt.Active() {
		simrt.Pre()
	}
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		if !simrt.Killing() {
			p.obj.Acquire()
		}
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if simrt.Active() {
		simrt.Pre()
		p.obj.Release()
	}
	p.items = append(p.items, x)
}
