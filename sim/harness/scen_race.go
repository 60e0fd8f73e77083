package main

import (
	"fmt"

	"simrt/simrt"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C12: any goroutine, any time ----

// storm is one client used by many goroutines, callbacks included.
type storm struct {
	r      *Run
	c      *Client
	t      *Tree
	lock   busy
	pub    simrt.SyncObj // the application's own lock around what callbacks hand to its goroutines
	root   *embertree.RootElement
	elems  []*embertree.Element
	inCB   int // operations callbacks may still make
	depth  int
	ops    int64
	cbs    []*CB
	listen []*CB
	trees  []*CB
}

// publish hands the elements to the other goroutines; it runs inside a callback.
func (s *storm) publish(root *embertree.RootElement) {
	var es []*embertree.Element
	s.r.S.Atomic(func() {
		got, err := observe(root)
		if err != nil {
			return
		}
		for _, p := range got.paths() {
			e := root.RootElementCollection[int(p[0])]
			for _, n := range p[1:] {
				e = e.Children[int(n)]
			}
			es = append(es, e)
		}
	})
	s.pub.Acquire()
	s.root, s.elems = root, es
	s.pub.Release()
}

func (s *storm) pick() *embertree.Element {
	s.pub.Acquire()
	defer s.pub.Release()
	if len(s.elems) == 0 {
		return nil
	}
	return s.elems[s.r.n(len(s.elems))]
}

func (s *storm) cb(name string) *CB {
	r := s.r
	cb := r.cb(name)
	cb.lock = &s.lock
	s.cbs = append(s.cbs, cb)
	cb.hook = func(node interface{}, err liberr.Error) {
		if root, ok := node.(*embertree.RootElement); ok && root != nil {
			s.publish(root)
		}
		if s.inCB > 0 && r.n(3) == 2 {
			s.inCB--
			r.S.Count("call-in-callback")
			s.op("callback")
		} else if r.n(4) == 3 {
			r.sleep(int64(r.n(3000)) * us) // a slow callback
			r.S.Count("slow-callback")
		}
	}
	return cb
}

func (s *storm) op(who string) {
	r, c := s.r, s.c
	s.ops++
	name := fmt.Sprintf("%s.%d", who, s.ops)
	switch r.n(14) {
	case 13:
		s.pub.Acquire()
		root := s.root
		s.pub.Release()
		if root != nil {
			r.call("HasListner", 3*sec, func() { root.HasListner(s.listen[r.n(len(s.listen))]) })
		}
	case 12:
		T := []int{0, 5, 30, 100}[r.n(4)]
		r.call("SetTimeout", 3*sec, func() { c.SetTimeout(T) })
	case 0:
		r.call("Connect", 3*sec, func() { c.Connect(c.addr, c.port) })
	case 1:
		if r.n(2) == 1 {
			r.call("Disconnect", 3*sec, func() { c.Disconnect() })
		}
	case 2:
		r.call("IsConnected", 3*sec, func() { c.IsConnected() })
	case 3, 4, 5:
		e := s.pick()
		cb := s.cb(name)
		r.call("GetDirectory", 3*sec, func() { c.GetDirectory(e, cb) })
	case 6:
		cb := s.cb(name)
		s.trees = append(s.trees, cb)
		r.call("GetTree", 3*sec, func() { c.GetTree(cb) })
	case 7, 8:
		e := s.pick()
		cb := s.listen[r.n(len(s.listen))]
		r.call("AddListener", 3*sec, func() {
			if e != nil {
				e.AddListener(cb)
			} else if s.root != nil {
				s.root.AddListener(cb)
			}
		})
	case 9, 10:
		e := s.pick()
		cb := s.listen[r.n(len(s.listen))]
		r.call("RemoveListener", 3*sec, func() {
			if e != nil {
				e.RemoveListener(cb)
			} else if s.root != nil {
				s.root.RemoveListener(cb)
			}
		})
	case 11:
		r.call("GetDirectory", 3*sec, func() { c.GetDirectory(nil, nil) })
	}
}

func mainC12(r *Run) {
	c := r.newClient(9000, r.netParams())
	s := &storm{r: r, c: c, t: r.tree(3+r.n(12), 3, 1)}
	s.inCB = r.n(12)
	c.SetTimeout([]int{0, 5, 30, 100}[r.n(4)])
	bad := r.n(3) // a provider whose messages are not all as they should be
	c.setup = func(p *Peer) {
		p.lenient = true
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if r.n(4) == 3 {
				return
			}
			if len(path) == 0 && r.n(2) == 1 {
				p.postMsg(encMsg(r.form(), s.t.wholeMsg()), 0, nil)
				return
			}
			if bad > 0 && r.n(4) == 3 {
				if m := r.contradiction(s.t, path); m != nil {
					r.S.Count("answer-contradicting")
					p.postMsg(encMsg(r.form(), m), 0, nil)
					return
				}
			}
			for _, m := range r.answers(s.t, path, r.n(3), false) {
				p.postMsg(encMsg(r.form(), m), r.S.Now()+int64(r.n(2)*r.n(8))*ms, nil)
			}
		}
	}
	for i := 0; i < 3; i++ {
		s.listen = append(s.listen, s.cb(fmt.Sprintf("L%d", i)))
	}
	if r.n(4) > 0 { // otherwise the storm begins before there is a tree
		c.connect()
		cb := s.cb("first")
		r.call("GetDirectory", 3*sec, func() { c.GetDirectory(nil, cb) })
		r.waitFor(200*ms, func() bool { return len(s.elems) > 0 })
	}
	g := &group{r: r}
	for i := 2 + r.n(5); i > 0; i-- {
		n := 2 + r.n(14)
		pace := r.n(4)
		g.spawn(fmt.Sprintf("app%d", i), func() {
			for j := 0; j < n; j++ {
				s.op(fmt.Sprintf("app%d", i))
				if pace > 0 && r.n(3) == 2 {
					r.sleep(int64(r.n(4000*pace)) * us)
				}
			}
		})
	}
	for k := r.n(14); k > 0; k-- {
		r.sleep(int64(r.n(6000)) * us)
		p := c.peer()
		if p == nil || p.gone {
			continue
		}
		switch r.n(8) {
		case 0:
			p.gone = true
			r.S.Count("net-fin")
			p.c.Close()
		case 1:
			p.gone = true
			p.c.Reset()
		case 2:
			p.post(s101KeepAliveReq(), 0, nil)
		default:
			u := s.t.all()[r.n(len(s.t.all()))].clone(false)
			u.Qual = true
			if bad > 0 && r.n(3) == 2 {
				m := r.contradiction(s.t, u.Path)
				if m == nil {
					m = &Msg{Elems: []*Elem{u}}
				}
				enc := encMsg(r.form(), m)
				if bad > 1 && r.n(2) == 1 {
					enc = r.mutate(enc, func() []byte { return encMsg(nil, s.t.wholeMsg()) })
					for i := range enc { // no commands: they are not elements that could be asked for
						if enc[i] == 0x62 {
							enc[i] = 0x63
						}
					}
					r.S.Count("malformed-message")
				} else {
					r.S.Count("message-contradicting")
				}
				p.postMsg(enc, 0, nil)
				continue
			}
			p.postMsg(encMsg(r.form(), &Msg{Elems: []*Elem{u}}), 0, nil)
		}
	}
	g.wait(60 * sec)
	s.inCB = 0
	r.sleep(400 * ms)
	// afterwards the client is as good as new
	r.call("Disconnect", 3*sec, func() { c.Disconnect() })
	if !r.waitFor(3*sec, func() bool { return !c.connected() }) {
		r.Fail("still-connected", "after Disconnect the client reports itself connected")
	}
	for _, p := range c.peers {
		p.gone = true
	}
	c.SetTimeout(0)
	c.setup = func(p *Peer) {
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if len(path) == 0 {
				p.postMsg(encMsg(r.form(), s.t.wholeMsg()), 0, nil)
			}
		}
	}
	c.connect()
	cb := r.cb("last")
	ok := false
	cb.hook = func(node interface{}, err liberr.Error) {
		root, isRoot := node.(*embertree.RootElement)
		ok = ok || err == nil && isRoot && root != nil
	}
	var err liberr.Error
	for i := 0; i < 50; i++ {
		r.call("GetDirectory", 1*sec, func() { err = c.GetDirectory(nil, cb) })
		if err == nil {
			break
		}
		r.sleep(20 * ms)
	}
	if err != nil {
		r.Fail("request-refused", "after the storm a request is refused: %s", errStr(err))
	}
	if !r.waitFor(20*sec, func() bool { return ok }) {
		r.Fail("client-dead", "after the storm a request on a new connection was not answered to its callback")
	}
	if !r.waitFor(1*sec, func() bool {
		for _, conn := range c.conns[:len(c.conns)-1] {
			if !conn.Closed() {
				return false
			}
		}
		return true
	}) {
		r.Fail("leaked-connection", "of %d connections more than the last one are open for the client", len(c.conns))
	}
	for _, cb := range s.trees {
		if len(cb.calls) > 1 {
			r.Fail("completed-twice", "the callback of a tree retrieval was called %d times", len(cb.calls))
		}
	}
	r.note("%d calls, %d callbacks, %d connections", s.ops, s.lock.seen, len(c.peers))
	r.nontrivial = s.ops > 0 && s.lock.seen > 0
}
