package main

import (
	"fmt"

	simnet "simrt/net"
	"simrt/simrt"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C11: connection loss, close, reconnect ----

// connected asks the client.
func (c *Client) connected() bool {
	var v bool
	c.r.call("IsConnected", 500*ms, func() { v = c.IsConnected() })
	return v
}

// dialling lets Connect fail in some way first; connecting must work afterwards.
func (c *Client) dialling() {
	r := c.r
	failing := func(what string, bound int64) {
		before := len(c.peers)
		var err liberr.Error
		r.call("Connect", bound, func() { err = c.Connect(c.addr, c.port) })
		r.S.Count("dial-" + what)
		if err == nil {
			r.Fail("connect-lied", "Connect reported success although the provider did not accept (%s)", what)
		}
		if c.connected() || len(c.peers) > before {
			r.Fail("connected-after-failure", "the client reports itself connected after Connect failed (%s)", what)
		}
	}
	for k := r.n(4) - 1; k > 0; k-- {
		c.ep.DialLat = int64(r.n(40)) * ms
		switch r.n(5) {
		case 0, 1, 2:
			c.ep.Refuse = true
			failing("refused", 3*sec)
			c.ep.Refuse = false
		case 3:
			c.ep.Hang = true
			failing("unanswered", 200*sec)
			c.ep.Hang = false
		case 4: // other calls while the dial hangs
			c.ep.Hang = true
			g := &group{r: r}
			g.spawn("dialler", func() { failing("unanswered", 200*sec) })
			r.sleep(int64(1+r.n(3000)) * ms)
			if c.connected() {
				r.Fail("connect-lied", "the client reports itself connected while its dial is unanswered")
			}
			if r.n(2) == 1 {
				r.call("GetDirectory", 1*sec, func() { c.GetDirectory(nil, nil) })
			}
			if r.n(2) == 1 {
				r.call("Disconnect", 1*sec, func() { c.Disconnect() })
			}
			g.wait(200 * sec)
			c.ep.Hang = false
		}
	}
	c.ep.DialLat = int64(r.n(3)*r.n(40)) * ms
}

type sessReq struct {
	sess int
	ret  int64 // 0 while the call has not returned
}

type ended struct {
	conn          *simnet.SimConn
	read, written int64
	when          string
}

type lifeC11 struct {
	r        *Run
	c        *Client
	t        *Tree
	sess     int
	endStart []int64 // by session; 0 while it lasts
	reqs     map[string]*sessReq
	unused   [][]int32
	tail     [][]byte // packets of a message which began in the session before
	poison   []int32  // numbers that must never appear
	ends     []ended
	marks    *marks // of the session
	release  bool   // stalls end when a request has been made
	base     int
	roots    int // root requests that arrived
	T        int
}

func (l *lifeC11) setup(p *Peer) {
	r := l.r
	k := len(l.endStart) - 1
	p.maxPkt = []int{1024, 100, 16}[r.n(3)]
	for _, f := range l.tail {
		p.post(f, 0, nil)
		r.S.Count("rest-of-earlier-message")
	}
	l.tail = nil
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		q := l.reqs[pathStr(path)]
		if len(path) > 0 {
			if q == nil {
				r.Fail("bad-request", "a request for [%s] arrived which nobody made", pathStr(path))
				return
			}
			if q.sess < k && q.ret > 0 && q.ret < l.endStart[q.sess] {
				r.Fail("stale-request", "a request for [%s] of session %d, made before that ended, arrived in session %d", pathStr(path), q.sess, k)
			}
			if r.n(3) == 2 {
				return
			}
			for _, m := range r.answers(l.t, path, r.n(3), false) {
				p.postMsg(encMsg(r.form(), m), r.S.Now()+int64(r.n(3)*r.n(20))*ms, nil)
			}
			return
		}
		p.postMsg(encMsg(r.form(), l.t.wholeMsg()), 0, nil)
		l.roots++
	}
}

// fetch gets the whole tree through a root request.
func (l *lifeC11) fetch() {
	r, c := l.r, l.c
	c.SetTimeout(0)
	got, roots := false, l.roots
	cb := r.cb("root")
	cb.hook = func(node interface{}, err liberr.Error) {
		if err != nil {
			r.Fail("spurious-error", "the root request of session %d reported %q", l.sess, errStr(err))
			return
		}
		root, ok := node.(*embertree.RootElement)
		if !ok {
			r.Fail("wrong-node", "root directory callback got %T", node)
			return
		}
		c.root = root
		got = true
	}
	var err liberr.Error
	for i := 0; ; i++ { // requests which raced with the connect may fill the queue for a moment
		r.call("GetDirectory", 1*sec, func() { err = c.GetDirectory(nil, cb) })
		if l.release {
			r.S.ReleaseStalls()
			l.release = false
		}
		if err == nil {
			break
		}
		if i > 50 {
			r.Fail("request-refused", "session %d: the root request is refused: %s", l.sess, errStr(err))
		}
		r.sleep(20 * ms)
	}
	if !r.waitFor(60*sec, func() bool { return got && l.roots > roots }) {
		r.Fail("session-dead", "session %d: the provider's answer to the root request was not delivered within 60 s (connected: %v)", l.sess, c.connected())
	}
	if !c.settle(60 * sec) {
		r.Fail("not-processed", "session %d: the client did not process its input within 60 s", l.sess)
	}
	cb.hook = nil
	r.call("RemoveListener", 1*sec, func() { c.root.RemoveListener(cb) })
	c.SetTimeout(l.T)
}

func (l *lifeC11) request(cb *CB) {
	r := l.r
	if len(l.unused) == 0 {
		return
	}
	path := l.unused[0]
	le := l.c.elem(path)
	if le == nil {
		return
	}
	l.unused = l.unused[1:]
	q := &sessReq{sess: len(l.endStart) - 1}
	l.reqs[pathStr(path)] = q
	var err liberr.Error
	r.call("GetDirectory", 2*sec, func() {
		if cb == nil {
			err = l.c.GetDirectory(le, nil)
		} else {
			err = l.c.GetDirectory(le, cb)
		}
	})
	if err == nil {
		q.ret = r.S.Now()
	}
}

// move now and then lets the provider listen elsewhere.
func (c *Client) move() {
	r := c.r
	if r.n(3) < 2 {
		return
	}
	r.S.Count("provider-moved")
	simnet.N().Listen(fmt.Sprintf("%s:%d", c.addr, c.port), nil)
	c.port = []uint16{9000, 9001, 90, 65535, 9002}[r.n(5)]
	if r.host == "" {
		c.addr = []string{"10.0.0.1", "10.0.0.2", "provider.example"}[r.n(3)]
	}
	simnet.N().Listen(fmt.Sprintf("%s:%d", c.addr, c.port), c.ep)
}

// marks are messages which follow each other closely, counted as they are applied.
type marks struct {
	count int
	limit int // once disconnected
	ended bool
}

// burst sends several updates of one element in one piece, with a listener on it.
func (l *lifeC11) burst(p *Peer, inCallback *bool) {
	r, c := l.r, l.c
	var of []*Elem
	for _, e := range l.t.all() {
		if v, ok := e.F[1]; ok && v.T == 's' && c.elem(e.Path) != nil {
			of = append(of, e)
		}
	}
	if len(of) == 0 {
		return
	}
	e := of[r.n(len(of))]
	m := &marks{}
	l.marks = m
	sess := l.sess
	k := 2 + r.n(5)
	at := -1
	if *inCallback {
		at = 1 + r.n(k)
	}
	text := func(i int) string { return fmt.Sprintf("mark %d of session %d", i, sess) }
	seen := map[int]bool{}
	cb := r.cb("marks")
	cb.hook = func(node interface{}, err liberr.Error) {
		le, _ := node.(*embertree.Element)
		if le == nil {
			return
		}
		is := false
		r.S.Atomic(func() {
			par, _ := le.GetParent()
			if o, oerr := observeElem(le, e.Path, par, 0); oerr == nil {
				for i := 0; i < k; i++ {
					if o.F[1].S == text(i) && !seen[i] {
						is, seen[i] = true, true
					}
				}
			}
		})
		if !is {
			return
		}
		m.count++
		if m.ended && m.count > m.limit {
			r.Fail("applied-after-disconnect", "update %d of session %d was applied though Disconnect had returned when there were %d", m.count, sess, m.limit)
		}
		if m.count == at && *inCallback {
			*inCallback = false
			l.disconnect("in-callback")
			if m.ended {
				m.limit = m.count
			}
			return
		}
		if r.n(2) == 1 {
			r.sleep(int64(r.n(3000)) * us)
		}
	}
	le := c.elem(e.Path)
	r.call("AddListener", 1*sec, func() { le.AddListener(cb) })
	var all []byte
	for i := 0; i < k; i++ {
		u := &Elem{Path: e.Path, Kind: e.Kind, HasC: true, Qual: true, F: map[int]Val{1: {T: 's', S: text(i)}}, Conns: map[int32]Conn{}}
		for _, f := range s101Split(encMsg(r.form(), &Msg{Elems: []*Elem{u}}), p.maxPkt, false) {
			all = append(all, f...)
		}
	}
	p.post(all, 0, nil)
	r.S.Count("messages-in-one-piece")
	if r.n(3) > 0 {
		n := r.n(k)
		r.waitFor(100*ms, func() bool { return m.count >= n })
	}
}

// connect connects, now and then from several goroutines at once.
func (l *lifeC11) connect() {
	r, c := l.r, l.c
	if r.n(3) < 2 {
		c.connect()
		return
	}
	before := len(c.peers)
	good := 0
	var last liberr.Error
	g := &group{r: r}
	for i := 2 + r.n(2); i > 0; i-- {
		d := int64(r.n(2)*r.n(3000)) * us
		g.spawn(fmt.Sprintf("connector%d", i), func() {
			if d > 0 {
				r.sleep(d)
			}
			var err liberr.Error
			r.call("Connect", 3*sec, func() { err = c.Connect(c.addr, c.port) })
			if err == nil {
				good++
			} else {
				last = err
			}
		})
	}
	g.wait(10 * sec)
	r.S.Count("connect-at-once")
	if good == 0 {
		r.Fail("connect-failed", "of several calls of Connect at once to an accepting provider none succeeded: %s", errStr(last))
	}
	if !r.waitFor(1*sec, func() bool { return len(c.peers) > before }) {
		r.harnessBug("no connection arrived")
	}
	if n := len(c.peers) - before; n > 1 {
		r.Fail("second-connection", "several calls of Connect at once opened %d connections", n)
	}
}

func (l *lifeC11) disconnect(when string) {
	r, c := l.r, l.c
	conn := c.conns[len(c.conns)-1]
	if l.endStart[len(l.endStart)-1] == 0 {
		l.endStart[len(l.endStart)-1] = r.S.Now()
	}
	was := !conn.Closed()
	var err liberr.Error
	r.call("Disconnect", 1*sec, func() { err = c.Disconnect() })
	r.S.Count("disconnect-" + when)
	if err != nil || !was {
		return
	}
	if l.marks != nil && !l.marks.ended {
		// one message may be in the works
		l.marks.ended, l.marks.limit = true, l.marks.count+1
	}
	l.ends = append(l.ends, ended{conn, conn.ReadTotal(), conn.WrittenTotal(), when})
}

func (l *lifeC11) session() {
	r, c := l.r, l.c
	c.dialling()
	l.endStart = append(l.endStart, 0)
	l.marks = nil
	c.move()
	l.connect()
	p, conn := c.peer(), c.conns[len(c.conns)-1]
	if !c.connected() {
		r.Fail("connect-lied", "Connect succeeded but the client reports itself disconnected")
	}
	l.fetch()
	r.compare(c, l.t, fmt.Sprintf("session %d", l.sess))
	for _, n := range l.poison {
		if c.elem([]int32{n}) != nil {
			r.Fail("partial-message-applied", "session %d: element %d is in the tree; its message was begun in one session and never completed there", l.sess, n)
		}
	}
	p.post(s101KeepAliveReq(), 0, nil)
	if !r.waitFor(3*sec, func() bool { return p.keepResp == 1 }) {
		r.Fail("session-dead", "session %d: a keep-alive request was not answered", l.sess)
	}
	r.sleep(int64(l.T)*ms + 200*ms)
	if n := r.live(); l.sess == 0 {
		l.base = n
	} else if n > l.base && !r.waitFor(1*sec, func() bool { return r.live() <= l.base }) {
		r.Fail("extra-loop", "%d goroutines of the library serve session %d, the first session had %d", n, l.sess, l.base)
	}
	if r.n(4) == 3 { // connecting twice
		r.S.Count("connect-while-connected")
		before := len(c.peers)
		r.call("Connect", 2*sec, func() { c.Connect(c.addr, c.port) })
		r.sleep(20 * ms)
		if len(c.peers) != before {
			r.Fail("second-connection", "Connect on a connected client opened another connection")
		}
		if !c.connected() {
			r.Fail("connection-dropped", "Connect on a connected client ended the connection")
		}
	}
	// activity
	g := &group{r: r}
	kind := r.n(7)
	inCallback := kind == 4
	hook := func(cb *CB) {
		cb.hook = func(node interface{}, err liberr.Error) {
			if inCallback && r.n(2) == 1 {
				inCallback = false
				l.disconnect("in-callback")
				return
			}
			if r.n(4) == 3 {
				l.request(nil)
			}
		}
	}
	for i := r.n(4); i > 0; i-- {
		name := fmt.Sprintf("s%da%d", l.sess, i)
		n := 1 + r.n(10)
		g.spawn(name, func() {
			for j := 0; j < n; j++ {
				var cb *CB
				if r.n(3) > 0 {
					cb = r.cb(fmt.Sprintf("%s.%d", name, j))
					hook(cb)
				}
				l.request(cb)
				if r.n(2) == 1 {
					r.sleep(int64(r.n(30)) * ms)
				}
			}
		})
	}
	if r.n(3) == 2 {
		p.pause = true
		r.S.Count("peer-paused")
	}
	for k := r.n(4); k > 0; k-- {
		p.postFrames(encMsg(r.form(), r.update(l.t)), nil, 4)
		r.sleep(int64(r.n(10)) * ms)
	}
	if r.n(2) == 1 {
		l.burst(p, &inCallback)
	}
	// the session ends in the middle of a message
	if r.n(2) == 1 {
		n := int32(1234567890 - l.sess)
		e := &Elem{Path: []int32{n}, Kind: KNode, HasC: true, F: map[int]Val{0: {T: 's', S: "poison"}, 1: {T: 's', S: string(r.bytesN(60))}}, Conns: map[int32]Conn{}}
		fs := s101Split(encMsg(r.form(), &Msg{Elems: []*Elem{e}}), []int{16, 40}[r.n(2)], false)
		l.poison = append(l.poison, n)
		j := 1 + r.n(len(fs)-1)
		for _, f := range fs[:j] {
			p.post(f, 0, nil)
		}
		l.tail = fs[j:]
		switch r.n(3) {
		case 1: // and of a frame
			k := 1 + r.n(len(fs[j])-1)
			p.post(fs[j][:k], 0, nil)
			if r.n(2) == 1 {
				l.tail[0] = l.tail[0][k:]
			}
		case 2:
			l.tail = nil
		}
		r.S.Count("message-cut-by-end")
		if r.n(3) > 0 {
			r.waitFor(1*sec, func() bool { return p.drained() && p.c.OutPending() == 0 })
		}
	}
	r.sleep(int64(r.n(3)*r.n(40)) * ms)
	endPeer := func(rst bool) {
		i := len(l.endStart) - 1
		if l.endStart[i] == 0 {
			l.endStart[i] = r.S.Now()
		}
		p.gone = true
		if rst {
			p.c.Reset()
		} else {
			r.S.Count("net-fin")
			p.c.Close()
		}
	}
	if r.n(3) == 2 {
		// the client is held up somewhere while the session ends, perhaps until the next one has begun
		if r.n(2) == 1 {
			r.S.ArmStall(1+r.n(40), int64(1+r.n(600))*ms)
		} else { // until a request of the next session is queued
			r.S.ArmStall(1+r.n(16), 20*sec)
			l.release = true
		}
		r.S.Count("stall-at-end")
	}
	switch kind {
	case 0:
		endPeer(false)
	case 1:
		endPeer(true)
	case 2:
		l.disconnect("main")
	case 3:
		d := &group{r: r}
		d.spawn("disconnector", func() { l.disconnect("goroutine") })
		for k := r.n(3); k > 0; k-- {
			l.request(nil)
		}
		if r.n(3) == 2 {
			d.spawn("disconnector2", func() { l.disconnect("goroutine") })
		}
		d.wait(10 * sec)
	case 4:
		if !r.waitFor(100*ms, func() bool { return !inCallback }) {
			inCallback = false
			l.disconnect("main")
		}
	case 5:
		d := &group{r: r}
		at := r.S.Now()
		rst := r.n(2) == 1
		a, b := int64(r.n(200))*us, int64(r.n(200))*us
		d.spawn("disconnector", func() { r.sleep(at + a - r.S.Now()); l.disconnect("with-peer") })
		d.spawn("peer-end", func() { r.sleep(at + b - r.S.Now()); endPeer(rst) })
		d.wait(10 * sec)
	case 6:
		p.c.BlackHole()
		r.sleep(int64(r.n(400)) * ms)
		l.disconnect("black-hole")
	}
	if kind == 2 && c.connected() {
		r.Fail("still-connected", "after Disconnect the client reports itself connected")
	}
	if !r.waitFor(2*sec, func() bool { return !c.connected() }) {
		r.Fail("still-connected", "2 s after the connection ended the client reports itself connected (end kind %d)", kind)
	}
	if !r.waitFor(1*sec, func() bool { return conn.Closed() }) {
		r.Fail("not-closed", "the client did not close its connection (end kind %d)", kind)
	}
	if conn.MaxReaders > 1 {
		r.Fail("extra-loop", "%d goroutines read from one connection", conn.MaxReaders)
	}
	if r.n(3) == 2 {
		r.call("Disconnect", 1*sec, func() { c.Disconnect() })
	}
	p.pause = false
	p.gone = true
	if r.n(2) == 1 {
		g.wait(60 * sec)
	} else { // they go on into the next session
		defer g.wait(200 * sec)
	}
	if n := len(c.peers); n != l.sess+1 {
		r.Fail("second-connection", "%d connections were opened in %d sessions", n, l.sess+1)
	}
	l.sess++
}

func mainC11(r *Run) {
	c := r.newClient(9000, r.netParams())
	l := &lifeC11{r: r, c: c, t: r.tree(5+r.n(40), 4, 1), reqs: map[string]*sessReq{}}
	l.T = []int{0, 0, 40, 200}[r.n(4)]
	for _, q := range l.t.paths() {
		l.unused = append(l.unused, q)
	}
	for i := len(l.unused) - 1; i > 0; i-- {
		j := r.n(i + 1)
		l.unused[i], l.unused[j] = l.unused[j], l.unused[i]
	}
	c.setup = l.setup
	if r.n(8) == 7 {
		r.call("Disconnect", 1*sec, func() { c.Disconnect() })
		if c.connected() {
			r.Fail("connect-lied", "a client that never connected reports itself connected")
		}
	}
	n := 1 + r.n(4)
	if r.n(40) == 39 {
		n = 5 + r.n(40)
		r.S.Count("many-sessions")
	}
	for i := 0; i < n; i++ {
		c.par = r.netParams()
		l.session()
	}
	r.sleep(500 * ms)
	for _, e := range l.ends {
		if e.conn.ReadTotal() != e.read || e.conn.WrittenTotal() != e.written {
			r.Fail("used-after-disconnect", "after Disconnect (%s) returned %d more bytes were read and %d written", e.when, e.conn.ReadTotal()-e.read, e.conn.WrittenTotal()-e.written)
		}
	}
	r.note("%d sessions, %d requests", n, len(l.reqs))
	r.nontrivial = true
}

var _ = simrt.Y
