package simrt

import (
	"reflect"
	"unsafe"
)

type uintptrKey = unsafe.Pointer

// Chan is the simulated state behind a real channel value, which is only a handle.
type Chan struct {
	capa   int
	buf    []any
	bufvc  []VC
	relvc  []VC // k-th receive happens before (k+cap)-th send completes
	closed bool
	clvc   VC
	recvq  []*waiter
	sendq  []*waiter
}

type waiter struct {
	g    *G
	sel  *selectWait
	idx  int
	val  any
	vc   VC
	ok   bool
	done bool
}

type selectWait struct {
	fired bool
	idx   int
	val   any
	ok    bool
}

func chanPtr[T any](c *T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(c)) }

func (s *Sim) chanOf(p unsafe.Pointer, capa int) *Chan {
	c := s.chans[p]
	if c == nil {
		c = &Chan{capa: capa}
		s.chans[p] = c
	}
	return c
}

func (s *Sim) acquire(vc VC) {
	if s.Cfg.Race && s.cur != nil && vc != nil {
		s.cur.vc.join(vc)
	}
}

func (s *Sim) release() VC {
	if !s.Cfg.Race || s.cur == nil {
		return nil
	}
	v := s.cur.vc.clone()
	s.cur.vc.inc(s.cur.ID)
	return v
}

func (s *Sim) pre() {
	if s.killing {
		panic(kill)
	}
	if (s.armed > 0 || s.Cfg.SyncGap > 0) && !s.C.replay && s.quiet == 0 && s.cur != nil {
		s.syncPoint()
	}
	s.steps++
	if s.quiet == 0 && s.cur != nil && s.steps >= s.nextSlow {
		s.slow()
	}
}

func (c *Chan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

func (c *Chan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
			w.sel.idx = w.idx
		}
		return w
	}
	return nil
}

// trySend completes a send without blocking if it can.
func (c *Chan) trySend(s *Sim, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.val, w.ok, w.done = v, true, true
		w.vc = s.release()
		if w.sel != nil {
			w.sel.val, w.sel.ok = v, true
		}
		if s.Cfg.Race && w.g != nil && s.cur != nil && c.capa == 0 {
			s.cur.vc.join(w.g.vc)
		}
		s.ready(w.g)
		return true
	}
	if len(c.buf) < c.capa {
		c.buf = append(c.buf, v)
		c.bufvc = append(c.bufvc, s.release())
		if len(c.relvc) > 0 {
			s.acquire(c.relvc[0])
			c.relvc = c.relvc[1:]
		}
		return true
	}
	return false
}

func (c *Chan) tryRecv(s *Sim) (any, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		s.acquire(c.bufvc[0])
		c.buf, c.bufvc = c.buf[1:], c.bufvc[1:]
		c.relvc = append(c.relvc, s.release())
		if len(c.relvc) > c.capa+1 {
			c.relvc = c.relvc[1:]
		}
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			c.bufvc = append(c.bufvc, w.vc)
			w.done = true
			s.ready(w.g)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		s.acquire(w.vc)
		w.done = true
		if s.Cfg.Race && s.cur != nil {
			w.vc = s.release()
		}
		s.ready(w.g)
		return w.val, true, true
	}
	if c.closed {
		s.acquire(c.clvc)
		return nil, false, true
	}
	return nil, false, false
}

func send(p unsafe.Pointer, capa int, v any) {
	s := S
	s.pre()
	if p == nil {
		s.park("send on nil channel")
	}
	c := s.chanOf(p, capa)
	if c.trySend(s, v) {
		return
	}
	w := &waiter{g: s.cur, val: v, vc: s.release()}
	c.sendq = append(c.sendq, w)
	for !w.done {
		if c.closed {
			panic("send on closed channel")
		}
		s.park("chan send")
	}
	s.acquire(w.vc)
}

func recv(p unsafe.Pointer, capa int) (any, bool) {
	s := S
	s.pre()
	if p == nil {
		s.park("receive from nil channel")
	}
	c := s.chanOf(p, capa)
	if v, ok, done := c.tryRecv(s); done {
		return v, ok
	}
	w := &waiter{g: s.cur}
	if s.Cfg.Race {
		w.vc = nil
	}
	c.recvq = append(c.recvq, w)
	for !w.done {
		s.park("chan receive")
	}
	s.acquire(w.vc)
	return w.val, w.ok
}

// SendTo returns a sender for ch (keeps the evaluation order channel, value).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(chanPtr(&ch), cap(ch), v) }
}

func Recv[T any](ch <-chan T) T {
	v, _ := recv(chanPtr(&ch), cap(ch))
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

func Recv2[T any](ch <-chan T) (T, bool) {
	v, ok := recv(chanPtr(&ch), cap(ch))
	if v == nil {
		var z T
		return z, ok
	}
	return v.(T), ok
}

func Close[T any](ch chan<- T) {
	s := S
	s.pre()
	p := chanPtr(&ch)
	if p == nil {
		panic("close of nil channel")
	}
	c := s.chanOf(p, cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.clvc = s.release()
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.done = true
		w.vc = c.clvc
		if w.sel != nil {
			w.sel.val, w.sel.ok = nil, false
		}
		s.ready(w.g)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		s.ready(w.g)
	}
}

func ChanLen[T any](ch T) int {
	rv := reflect.ValueOf(ch)
	if rv.IsNil() {
		return 0
	}
	return len(S.chanOf(rv.UnsafePointer(), rv.Cap()).buf)
}

// Case is one arm of a select.
type Case struct {
	p    unsafe.Pointer
	capa int
	send bool
	val  any
}

func RecvCase[T any](ch <-chan T) Case { return Case{p: chanPtr(&ch), capa: cap(ch)} }
func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{p: chanPtr(&ch), capa: cap(ch), send: true, val: v} }
}

// Got is the result of a select.
type GotR struct {
	val any
	ok  bool
}

func Got[T any](_ <-chan T, r GotR) T {
	if r.val == nil {
		var z T
		return z
	}
	return r.val.(T)
}

func Got2[T any](_ <-chan T, r GotR) (T, bool) {
	if r.val == nil {
		var z T
		return z, r.ok
	}
	return r.val.(T), r.ok
}

// Select picks a ready case (or -1 with a default).
func Select(hasDefault bool, cases ...Case) (int, GotR) {
	s := S
	s.pre()
	n := len(cases)
	start := 0
	if n > 1 {
		start = s.C.Choose(Sched, n)
	}
	for k := 0; k < n; k++ {
		i := (start + k) % n
		cs := cases[i]
		if cs.p == nil {
			continue
		}
		c := s.chanOf(cs.p, cs.capa)
		if cs.send {
			if c.trySend(s, cs.val) {
				return i, GotR{}
			}
		} else if v, ok, done := c.tryRecv(s); done {
			return i, GotR{v, ok}
		}
	}
	if hasDefault {
		return -1, GotR{}
	}
	sw := &selectWait{}
	ws := make([]*waiter, n)
	for i, cs := range cases {
		if cs.p == nil {
			continue
		}
		c := s.chanOf(cs.p, cs.capa)
		w := &waiter{g: s.cur, sel: sw, idx: i, val: cs.val}
		ws[i] = w
		if cs.send {
			w.vc = s.release()
			c.sendq = append(c.sendq, w)
		} else {
			c.recvq = append(c.recvq, w)
		}
	}
	for !sw.fired {
		s.park("select")
	}
	w := ws[sw.idx]
	s.acquire(w.vc)
	if cases[sw.idx].send && !w.done {
		panic("send on closed channel")
	}
	return sw.idx, GotR{w.val, w.ok}
}

// RangeChan iterates over a channel.
func RangeChan[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Deliver sends without blocking from the event loop (timer channels).
func Deliver[T any](ch chan T, v T) bool {
	s := S
	c := s.chanOf(chanPtr(&ch), cap(ch))
	saved := s.cur
	s.cur = nil
	ok := c.trySend(s, v)
	s.cur = saved
	return ok
}

// Drain empties a timer channel (Stop/Reset semantics since Go 1.23).
func Drain[T any](ch chan T) {
	c := S.chanOf(chanPtr(&ch), cap(ch))
	c.buf, c.bufvc = nil, nil
}
