package simrt

// Exported primitives for the shim packages.

func Pre()            { S.pre() }
func Park(why string) { S.park(why) }
func Ready(g *G)      { S.ready(g) }
func CurG() *G        { return S.cur }
func Killing() bool   { return S == nil || S.killing }
func Active() bool    { return S != nil && S.cur != nil && !S.killing && S.quiet == 0 }
func ReleaseVC() VC   { return S.release() }
func AcquireVC(v VC)  { S.acquire(v) }
func NowNS() int64 {
	if S == nil {
		return 0
	}
	return S.Now()
}
func RaceOn() bool       { return S.Cfg.Race }
func JoinVC(a *VC, b VC) { a.join(b) }
func Panicf(msg string)  { panic(msg) }

// WaitQ is a queue of parked goroutines.
type WaitQ struct{ q []*G }

func (w *WaitQ) Wait(why string) {
	w.q = append(w.q, S.cur)
	S.park(why)
}
func (w *WaitQ) Len() int { return len(w.q) }
func (w *WaitQ) WakeOne() {
	if len(w.q) > 0 {
		i := 0
		if len(w.q) > 1 {
			i = S.C.Choose(Sched, len(w.q))
		}
		g := w.q[i]
		w.q = append(w.q[:i:i], w.q[i+1:]...)
		S.ready(g)
	}
}
func (w *WaitQ) WakeAll() {
	q := w.q
	w.q = nil
	for _, g := range q {
		S.ready(g)
	}
}
func (w *WaitQ) Remove(g *G) {
	for i, x := range w.q {
		if x == g {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			return
		}
	}
}

// SpawnTimer runs f as a new library goroutine from the event loop (AfterFunc).
func (s *Sim) SpawnTimer(f func(), vc VC) {
	saved := s.cur
	s.cur = nil
	g := s.spawn("timer", true, f)
	s.cur = saved
	if s.Cfg.Race {
		g.vc.join(vc)
	}
}

// DeliverVC is a non-blocking timer-channel send from the event loop.
func DeliverVC[T any](ch chan T, v T, vc VC) {
	s := S
	c := s.chanOf(chanPtr(&ch), cap(ch))
	saved := s.cur
	s.cur = nil
	if len(c.buf) < c.capa || len(c.recvq) > 0 {
		if w := c.popRecv(); w != nil {
			w.val, w.ok, w.done, w.vc = v, true, true, vc
			if w.sel != nil {
				w.sel.val, w.sel.ok = v, true
			}
			s.ready(w.g)
		} else if len(c.buf) < c.capa {
			c.buf = append(c.buf, v)
			c.bufvc = append(c.bufvc, vc)
		}
	}
	s.cur = saved
}

// Sleep blocks the running goroutine for d ns of virtual time.
func (s *Sim) Sleep(d int64, lib bool) {
	if s.killing {
		panic(kill)
	}
	if d <= 0 {
		s.Yield()
		return
	}
	g := s.cur
	fired := false
	s.at(s.Now()+d, lib, func() { fired = true; s.ready(g) })
	for !fired {
		s.park("sleep")
	}
}
