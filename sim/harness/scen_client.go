package main

import (
	"fmt"
	"strings"

	simnet "simrt/net"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C03: requests leave whole, once and in order ----

type sentReq struct {
	path     string
	inv, ret int64
	refused  bool
	who      string
}

// deepChain appends a chain of nested nodes so long that a request for its end needs several packets.
func (r *Run) deepChain(t *Tree, depth int) *Elem {
	top := &Elem{Path: []int32{r.freeNum(t.Top)}, Kind: KNode, F: map[int]Val{}, Conns: map[int32]Conn{}}
	t.Top = append(t.Top, top)
	e := top
	for len(e.Path) < depth {
		k := &Elem{Path: append(append([]int32(nil), e.Path...), int32(0x7F000000+len(e.Path))), Kind: KNode, F: map[int]Val{}, Conns: map[int32]Conn{}}
		e.Kids = []*Elem{k}
		e = k
	}
	return e
}

func mainC03(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(4+r.n(36), 5, 1)
	if r.n(12) == 11 {
		r.deepChain(t, 220+r.n(40)+170*r.n(4))
		r.S.Count("multi-packet-request")
	}
	if r.n(2) == 1 {
		c.SetTimeout(100 + r.n(2000))
	}
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	base := len(p.reqs)
	paths := t.paths()
	// the elements are shared out, so that requests for one element have an order of their own
	ng := 1 + r.n(4)
	long := r.n(40) == 39 // hundreds of requests in one session
	if long {
		r.S.Count("long-session")
	}
	pools := make([][][]int32, ng+1)
	for i, q := range paths {
		k := i
		if len(paths) > ng {
			k = r.n(ng + 1)
		}
		pools[k%(ng+1)] = append(pools[k%(ng+1)], q)
	}
	pools[0] = append(pools[0], nil) // the root
	var seq int64
	var recs []*sentReq
	accepted := 0
	answer := r.n(3)
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		if answer > 0 && r.n(answer+1) == 0 {
			for _, m := range r.answers(t, path, r.n(3), r.n(2) == 1) {
				p.postMsg(encMsg(r.form(), m), r.S.Now()+int64(r.n(8))*ms, nil)
			}
			p.keepNoise(4)
		}
	}
	var request func(who string, path []int32, cb *CB)
	request = func(who string, path []int32, cb *CB) {
		var le *embertree.Element
		if len(path) > 0 {
			if le = c.elem(path); le == nil {
				r.Fail("missing-element", "element %s announced by the provider is not in the tree", pathStr(path))
			}
		}
		rec := &sentReq{path: pathStr(path), inv: seq, who: who}
		seq++
		recs = append(recs, rec)
		var err liberr.Error
		r.call("GetDirectory", 2*sec, func() {
			if cb == nil {
				err = c.GetDirectory(le, nil)
			} else {
				err = c.GetDirectory(le, cb)
			}
		})
		rec.ret = seq
		seq++
		rec.refused = err != nil
		if err == nil {
			accepted++
		}
	}
	inCallback := pools[ng]
	mkcb := func(name string) *CB {
		cb := r.cb(name)
		n := r.n(3)
		cb.hook = func(node interface{}, err liberr.Error) {
			for ; n > 0 && len(inCallback) > 0; n-- {
				q := inCallback[0]
				inCallback = inCallback[1:]
				r.S.Count("request-in-callback")
				request("callback", q, nil)
			}
		}
		return cb
	}
	g := &group{r: r}
	for i := 0; i < ng; i++ {
		if len(pools[i]) == 0 {
			continue
		}
		k := 1 + r.n(30)
		if long {
			k = 60 + r.n(400)
		}
		g.spawn(fmt.Sprintf("app%d", i), func() {
			for j := 0; j < k; j++ {
				q := pools[i][r.n(len(pools[i]))]
				var cb *CB
				if r.n(3) > 0 {
					cb = mkcb(fmt.Sprintf("app%d.%d", i, j))
				}
				request(fmt.Sprintf("app%d", i), q, cb)
				if long && j%8 == 7 || r.n(4) == 3 {
					r.sleep(int64(r.n(40)) * ms / 4)
				}
			}
		})
	}
	stop := false
	if mode := r.n(3); mode > 0 {
		r.S.Spawn("pauser", func() {
			for k := 1 + r.n(4); k > 0 && !stop; k-- {
				r.sleep(int64(r.n(30)) * ms)
				p.pause = true
				r.S.Count("peer-paused")
				r.sleep(int64(r.n(300)) * ms)
				p.pause = false
			}
		})
	}
	for k := r.n(6); k > 0; k-- {
		p.keepNoise(2)
		if es := t.all(); r.n(2) == 1 {
			e := es[r.n(len(es))].clone(false)
			e.Qual = true
			p.postMsg(encMsg(r.form(), &Msg{Elems: []*Elem{e}}), 0, nil)
		}
		r.sleep(int64(r.n(20)) * ms)
	}
	g.wait(60 * sec)
	stop = true
	r.waitFor(3*sec, func() bool { return !p.pause })
	inCallback = nil // timeouts still to come make no requests
	for before := -1; before != accepted; {
		r.waitFor(3*sec, func() bool {
			for _, rec := range recs {
				if rec.ret == 0 {
					return false
				}
			}
			return true
		})
		before = accepted
		if !r.waitFor(12*sec, func() bool { return len(p.reqs)-base >= accepted }) {
			r.Fail("request-lost", "%d of %d accepted requests arrived within 12 s although the provider reads", len(p.reqs)-base, accepted)
		}
		r.sleep(300 * ms) // callbacks may make more
	}
	got := p.reqs[base:]
	pos := map[string][]int{}
	for i, q := range got {
		pos[pathStr(q.path)] = append(pos[pathStr(q.path)], i)
	}
	at := map[*sentReq]int{}
	var acc []*sentReq
	for _, rec := range recs {
		if rec.refused {
			continue
		}
		acc = append(acc, rec)
		l := pos[rec.path]
		if len(l) == 0 {
			r.Fail("request-lost", "a request for [%s] was accepted (%s) but did not arrive", rec.path, rec.who)
		}
		at[rec] = l[0]
		pos[rec.path] = l[1:]
	}
	for _, k := range sortedKeys(pos) {
		if len(pos[k]) > 0 {
			r.Fail("request-repeated", "%d requests for [%s] arrived beyond those that were accepted", len(pos[k]), k)
		}
	}
	for _, a := range acc {
		for _, b := range acc {
			if a.ret < b.inv && at[a] > at[b] {
				r.Fail("request-order", "the request for [%s] (%s) returned before the request for [%s] (%s) was made, but arrived after it", a.path, a.who, b.path, b.who)
			}
		}
	}
	if p.keepReq > 0 {
		r.Fail("foreign-frame", "the client sent %d keep-alive requests", p.keepReq)
	}
	r.note("%d goroutines, %d requests accepted of %d", ng, len(acc), len(recs))
	r.nontrivial = len(acc) > 0
}

// ---- C04: keep-alive ----

func mainC04(r *Run) {
	par := r.netParams()
	if r.n(3) == 2 {
		par.LatMin = int64(5+r.n(20)) * ms
		par.LatMax = par.LatMin
		par.Window = []int{512, 200, 4096}[r.n(3)]
	}
	c := r.newClient(9000, par)
	t := r.tree(3+r.n(12), 4, 2)
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	p.maxPkt = []int{1024, 16, 100}[r.n(3)]
	base := len(p.reqs)
	cc := c.conns[0]
	var readAt, respAt []int64
	kas := 0
	var worst int64
	rtt := 2*par.LatMax + 12*ms
	wrx := s101Rx{}
	wrx.onKeep = func(k s101Kind) {
		if k != fkKeepResp {
			r.Fail("foreign-frame", "the client sent a keep-alive request")
		}
		respAt = append(respAt, r.S.Now())
		i := len(respAt) - 1
		if i >= len(readAt) {
			r.Fail("spurious-response", "keep-alive response %d although only %d requests were received", i+1, len(readAt))
			return
		}
		if d := respAt[i] - readAt[i]; d > worst {
			worst = d
		}
		limit := 300*ms + 6*rtt + r.stall()
		if d := respAt[i] - readAt[i]; d > limit {
			r.Fail("late-response", "keep-alive request %d was answered %.1f ms after it was read (limit %.1f ms)", i+1, float64(d)/1e6, float64(limit)/1e6)
		}
	}
	wrx.onMsg = func([]byte) {}
	cc.OnShip = func(b []byte, total int64) { wrx.feed(b) }
	postKA := func() {
		kas++
		p.post(s101KeepAliveReq(), 0, func(end int64) {
			p.onClientRead(end, func() { readAt = append(readAt, r.S.Now()) })
		})
		r.S.Count("keepalive-request")
	}
	es := t.all()
	accepted := 0
	model := t
	n := 2 + r.n(10)
	long := r.n(50) == 49 // a long session
	if long {
		n = 40 + r.n(60)
		r.S.Count("long-session")
	}
	for i := 0; i < n; i++ {
		switch r.n(8) {
		case 6, 7: // damaged frames and malformed messages, with keep-alives between them
			for k := 1 + r.n(6); k > 0; k-- {
				e := bare(es[r.n(len(es))])
				e.Path = append([]int32{1 << 20}, e.Path...)
				e.Qual = true
				b := encMsg(r.form(), &Msg{Elems: []*Elem{e}})
				if r.n(2) == 1 {
					fr := s101Split(b, p.maxPkt, false)
					p.post(flipBit(r, fr[0]), 0, nil)
				} else {
					p.postMsg(b[:len(b)-1-r.n(len(b)-1)], 0, nil)
				}
				r.S.Count("damaged-among-keepalives")
				for j := r.n(4); j > 0; j-- {
					postKA()
				}
			}
		case 0:
			postKA()
		case 1:
			k := 2 + r.n(40)
			if r.n(40) == 39 {
				k = 200 + r.n(400)
			}
			for ; k > 0; k-- {
				postKA()
			}
		case 2:
			for k := 1 + r.n(5); k > 0; k-- {
				p.post(s101KeepAliveResp(), 0, nil)
			}
		case 3: // an update with keep-alives between its packets
			e := es[r.n(len(es))]
			u := bare(e)
			u.HasC = true
			u.F[1] = r.field(e.Kind, 1)
			u.Qual = true
			m := &Msg{Elems: []*Elem{u}}
			model.apply(m)
			for _, f := range s101Split(encMsg(r.form(), m), p.maxPkt, false) {
				p.post(f, 0, nil)
				if r.n(3) == 2 {
					postKA()
					r.S.Count("keepalive-inside-message")
				}
			}
		case 4: // a long queue of requests
			k := 1 + r.n(60)
			if r.n(4) == 3 && !long {
				k = 270
			}
			for ; k > 0; k-- {
				e := es[r.n(len(es))]
				var err liberr.Error
				r.call("GetDirectory", 2*sec, func() { err = c.GetDirectory(c.elem(e.Path), nil) })
				if err == nil {
					accepted++
				}
			}
		case 5:
			r.sleep(int64(r.n(250)) * ms)
		}
	}
	if !r.waitFor(60*sec, func() bool { return p.drained() && len(readAt) == kas }) {
		r.Fail("not-read", "the client read only %d of %d keep-alive requests", len(readAt), kas)
	}
	if !r.waitFor(2*sec+8*rtt, func() bool { return len(respAt) >= kas }) {
		r.Fail("unanswered", "%d keep-alive requests were received but only %d answered", kas, len(respAt))
	}
	if !r.waitFor(30*sec, func() bool { return len(p.reqs)-base >= accepted && p.keepResp >= kas }) {
		r.Fail("request-lost", "only %d of %d requests accepted before arrived", len(p.reqs)-base, accepted)
	}
	if !c.settle(5 * sec) {
		r.Fail("not-processed", "the client did not process its input within 5 s")
	}
	r.sleep(300 * ms)
	if p.keepResp != kas {
		r.Fail("response-count", "%d keep-alive requests, %d responses", kas, p.keepResp)
	}
	if len(p.reqs)-base != accepted {
		r.Fail("request-count", "%d requests accepted, %d arrived", accepted, len(p.reqs)-base)
	}
	got, err := observe(c.root)
	if err != nil {
		r.Fail("tree-corrupt", "%v", err)
	}
	if d := diffTrees(model, got); d != "" {
		r.Fail("message-lost", "after keep-alive traffic the tree differs: %s", d)
	}
	r.note("%d keep-alive requests, %d directory requests, slowest response %.2f ms", kas, accepted, float64(worst)/1e6)
	r.nontrivial = kas > 0
}

// ---- C05: answers and timeouts ----

type arrival struct {
	at  int64
	m   *Msg
	bad []int32 // the element whose answer contradicts the tree
}

// relevance of an arrival. A contradicting answer concludes the requests for its element,
// with or without an error; nothing is known about others.
func (a *arrival) relevance(path []int32) int {
	if a.bad == nil || len(path) == 0 {
		return relevance(a.m, path)
	}
	n := len(path)
	if n > len(a.bad) {
		n = len(a.bad)
	}
	switch {
	case !samePath(path[:n], a.bad[:n]):
		return 0
	case len(path) == len(a.bad):
		return 2
	}
	return 1
}

// contradiction makes an answer for the element at path in which one child is of another kind
// than it has been announced as before.
func (r *Run) contradiction(t *Tree, path []int32) *Msg {
	if len(path) == 0 {
		return nil
	}
	e := t.find(path)
	if e == nil || len(e.Kids) == 0 {
		return nil
	}
	m := e.clone(false)
	m.Qual = true
	which := r.n(len(e.Kids))
	for i, k := range e.Kids {
		k = k.clone(false)
		if i == which {
			kind := KNode
			if k.Kind == KNode {
				kind = KParam
			}
			k = &Elem{Path: k.Path, Kind: kind, F: r.fields(kind, 2), HasC: true, Conns: map[int32]Conn{}}
		} else if r.n(2) == 0 {
			continue
		}
		k.Qual = false
		m.Kids = append(m.Kids, k)
	}
	return &Msg{Elems: []*Elem{m}}
}

// relevance of a message for a request: 2 answers it, 1 may be taken for an answer, 0 has nothing to do with it.
func relevance(m *Msg, path []int32) int {
	if len(path) == 0 {
		return 2
	}
	best := 0
	var rec func(e *Elem, top bool)
	rec = func(e *Elem, top bool) {
		v := 0
		if len(e.Path) >= len(path) && samePath(e.Path[:len(path)], path) {
			v = 1
			if len(e.Path) == len(path) {
				if e.HasC {
					v = 2
				}
				for _, k := range e.Kids {
					if k.HasC {
						v = 2
					}
				}
			} else if len(e.Path) == len(path)+1 && top && e.Qual && e.HasC {
				v = 2
			}
		}
		if v > best {
			best = v
		}
		for _, k := range e.Kids {
			rec(k, false)
		}
	}
	for _, e := range m.Elems {
		rec(e, true)
	}
	return best
}

type timedReq struct {
	path   []int32
	cb     *CB
	t0, t1 int64
	T      int64
	err    bool
}

func mainC05(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(3+r.n(14), 4, 1)
	for _, e := range t.all() {
		e.HasC = true
	}
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	var arrivals []arrival
	post := func(m *Msg) {
		p.postMsg(encMsg(r.form(), m), 0, func() { arrivals = append(arrivals, arrival{at: r.S.Now(), m: m}) })
	}
	contradicting := r.n(3) == 2
	var T int64
	closed := false
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		ans := r.answers(t, path, r.n(3), r.n(3) == 2)
		if len(ans) == 0 {
			r.Fail("bad-request", "request for an element [%s] that was never announced", pathStr(path))
			return
		}
		var bad *Msg
		if contradicting && r.n(3) == 2 {
			bad = r.contradiction(t, path)
		}
		var d int64
		switch r.n(6) {
		case 0, 1:
		case 2:
			d = int64(r.n(1 + int(T/ms)/3))
		case 3: // around the timeout
			d = T/ms - 20 + int64(r.n(40))
		case 4: // late
			d = T/ms + 60 + int64(r.n(200))
		case 5:
			r.S.Count("request-ignored")
			return
		}
		if d < 0 {
			d = 0
		}
		if d > 0 {
			r.S.Count("answer-delayed")
		}
		r.S.At(r.S.Now()+d*ms, func() {
			if !p.gone {
				if bad != nil {
					r.S.Count("answer-contradicting")
					p.postMsg(encMsg(r.form(), bad), 0, func() { arrivals = append(arrivals, arrival{r.S.Now(), bad, path}) })
					return
				}
				for _, m := range ans {
					post(m)
				}
			}
		})
	}
	paths := t.paths()
	var reqs []*timedReq
	settings := 0 // odd while the timeout is being set
	var request func(name string, path []int32, depth int)
	request = func(name string, path []int32, depth int) {
		var le *embertree.Element
		if len(path) > 0 {
			le = c.elem(path)
			if le == nil {
				r.Fail("missing-element", "element %s announced by the provider is not in the tree", pathStr(path))
			}
		}
		q := &timedReq{path: path, cb: r.cb(name + "[" + pathStr(path) + "]"), T: T}
		if depth < 2 && r.n(4) == 3 {
			q.cb.hook = func(node interface{}, err liberr.Error) {
				q.cb.hook = nil
				r.S.Count("request-in-callback")
				request(name+"'", paths[r.n(len(paths))], depth+1)
			}
		}
		var err liberr.Error
		set := settings
		q.t0 = r.S.Now()
		r.call("GetDirectory", 2*sec, func() { err = c.GetDirectory(le, q.cb) })
		q.t1 = r.S.Now()
		q.err = err != nil
		if settings != set || settings%2 == 1 {
			return // the timeout was being changed
		}
		reqs = append(reqs, q)
	}
	phases := 1 + r.n(2)
	var maxT int64
	for ph := 0; ph < phases; ph++ {
		settings++
		T = []int64{0, 30, 120, 400, 1000, 2500, 70000}[r.n(2)*r.n(2)+r.n(6)] * ms
		if r.n(500) == 499 { // beyond what 32 bits hold in microseconds
			T = int64(2200+r.n(2200)) * sec
			r.S.Count("long-timeout")
		}
		if T > maxT {
			maxT = T
		}
		c.SetTimeout(int(T / ms))
		settings++
		g := &group{r: r}
		for i := 1 + r.n(3); i > 0; i-- {
			k := 1 + r.n(8)
			if T < 100*ms && r.n(30) == 29 {
				k = 20 + r.n(100)
				r.S.Count("many-requests")
			}
			one := paths[r.n(len(paths))]
			same := r.n(3) == 2
			name := fmt.Sprintf("p%dg%d", ph, i)
			g.spawn(name, func() {
				for j := 0; j < k; j++ {
					q := paths[r.n(len(paths))]
					if same {
						q = one
					}
					if r.n(8) == 7 {
						q = nil
					}
					request(fmt.Sprintf("%s.%d", name, j), q, 0)
					if r.n(3) == 2 {
						r.sleep(int64(r.n(1+int(min(T, 100*sec)/ms))) * ms)
					}
				}
			})
		}
		for k := r.n(3); k > 0; k-- { // unsolicited updates
			es := t.all()
			e := es[r.n(len(es))].clone(false)
			e.Qual = true
			post(&Msg{Elems: []*Elem{e}})
			r.sleep(int64(r.n(50)) * ms)
		}
		g.wait(120*sec + 10*T)
		if ph+1 < phases && r.n(2) == 1 {
			r.sleep(min(T, 100*sec))
		}
	}
	if r.n(6) == 5 {
		r.sleep(int64(r.n(1+int(maxT/ms))) * ms)
		closed = true
		p.gone = true
		r.S.Count("connection-closed")
		if r.n(2) == 0 {
			p.c.Reset()
		} else {
			p.c.Close()
		}
	}
	r.sleep(3*maxT + 1*sec) // also requests made in callbacks of requests made in callbacks
	if r.multi {
		r.sleep(3 * r.stall())
	}
	stall := r.stall()
	margin := 40*ms + stall
	late := 300*ms + stall
	nA, nT := 0, 0
	for _, q := range reqs {
		oks, errs := 0, 0
		for _, k := range q.cb.calls {
			if k.isE && k.node == nil {
				errs++
			} else {
				oks++
			}
		}
		if q.err {
			if len(q.cb.calls) > 0 {
				r.Fail("refused-called", "the callback of a refused request was called")
			}
			continue
		}
		seenOK := false
		for _, k := range q.cb.calls {
			if !k.isE || k.node != nil {
				// what comes while the request is being made may be an update of before
				for _, a := range arrivals {
					seenOK = seenOK || a.at > q.t1 && a.at <= k.at && a.relevance(q.path) > 0
				}
				if k.isE {
					why := false
					for _, a := range arrivals {
						why = why || a.bad != nil && a.at <= k.at && a.relevance(q.path) > 0
					}
					if !why {
						r.Fail("error-with-node", "request for [%s] reported %q for %T though no answer was wrong", pathStr(q.path), k.err, k.node)
					}
				}
				continue
			}
			if q.T == 0 {
				r.Fail("timeout-without-timeout", "request for [%s] reported %q though no timeout is configured", pathStr(q.path), k.err)
			}
			if k.at < q.t0+q.T {
				r.Fail("early-timeout", "request for [%s] timed out %.2f ms after it was made instead of %d ms", pathStr(q.path), float64(k.at-q.t0)/1e6, q.T/ms)
			}
			if k.at > q.t1+q.T+late {
				r.Fail("late-timeout", "request for [%s] timed out %.2f ms after it was made instead of %d ms", pathStr(q.path), float64(k.at-q.t1)/1e6, q.T/ms)
			}
			if seenOK {
				r.Fail("timeout-after-answer", "request for [%s] was answered and later reported %q", pathStr(q.path), k.err)
			}
		}
		if errs > 1 {
			r.Fail("timeout-twice", "request for [%s] reported %d errors", pathStr(q.path), errs)
		}
		def, any := false, false
		for _, a := range arrivals {
			v := a.relevance(q.path)
			if v == 2 && a.at > q.t1 && (q.T == 0 || a.at < q.t0+q.T-margin) {
				def = true
			}
			if v > 0 && a.at > q.t0-margin && a.at < q.t1+q.T+late {
				any = true
			}
		}
		if def {
			nA++
			if oks == 0 {
				r.Fail("answer-not-delivered", "request for [%s] was answered in time but the callback was not called", pathStr(q.path))
			}
			if errs > 0 {
				r.Fail("timeout-though-answered", "request for [%s] was answered in time but reported %q", pathStr(q.path), q.cb.calls[len(q.cb.calls)-1].err)
			}
		}
		if !any && q.T > 0 {
			nT++
			if errs != 1 {
				r.Fail("no-timeout", "request for [%s] was not answered within %d ms but reported %d errors", pathStr(q.path), q.T/ms, errs)
			}
		}
	}
	r.S.Counters["requests-answered-in-time"] += int64(nA)
	r.S.Counters["requests-timed-out"] += int64(nT)
	r.note("%d requests: %d answered in time, %d not answered, closed=%v", len(reqs), nA, nT, closed)
	r.nontrivial = nA+nT > 0
}

// ---- C06: tree retrieval ----

type provider struct {
	r      *Run
	t      *Tree
	style  int
	split  bool
	noise  int
	delay  int64
	ignore map[string]bool
	late   []string
	asked  map[string]int
}

func (v *provider) attach(p *Peer) {
	r := v.r
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		k := pathStr(path)
		v.asked[k]++
		if v.ignore[k] {
			r.S.Count("request-ignored")
			return
		}
		st := v.style
		if st == 3 {
			st = r.n(3)
		}
		ms := r.answers(v.t, path, st, v.split)
		if ms == nil {
			r.Fail("bad-request", "request for an element [%s] that was never announced", k)
			return
		}
		var at int64
		if v.delay > 0 {
			at = r.S.Now() + int64(r.n(int(v.delay/us)+1))*us
		}
		if len(path) > 0 {
			p.keepNoise(v.noise)
		}
		for _, m := range ms {
			p.postMsg(encMsg(r.form(), m), at, nil)
			if len(path) > 0 {
				p.keepNoise(v.noise)
			}
		}
	}
}

// announcedContents makes announcements carry everything: a provider which announces an element
// as a child and again when asked tells the same both times.
func mainC06(r *Run) {
	par := r.netParams()
	big := r.n(10) == 9
	if big && par.LatMax > 2*ms {
		par.LatMin, par.LatMax = 50*us, 200*us
	}
	c := r.newClient(9000, par)
	n := 1 + r.n(40)
	if big {
		n = 260 + r.n(80)
	}
	var t *Tree
	switch r.n(5) {
	case 4: // flat
		t = &Tree{}
		for i := 0; i < n; i++ {
			t.Top = append(t.Top, r.newElem(nil, t.Top, r.kind(), 1))
		}
	case 3: // one node with many children
		t = &Tree{}
		top := r.newElem(nil, nil, KNode, 1)
		t.Top = []*Elem{top}
		for i := 1; i < n; i++ {
			top.Kids = append(top.Kids, r.newElem(top, top.Kids, r.kind(), 1))
		}
	default:
		t = r.tree(n, 7, 1)
	}
	if r.n(40) == 39 {
		t = &Tree{}
	}
	total := len(t.all())
	v := &provider{r: r, t: t, style: r.n(4), split: r.n(2) == 1, ignore: map[string]bool{}, asked: map[string]int{}}
	v.noise = []int{0, 3, 10}[r.n(3)]
	v.delay = []int64{0, 0, 2 * ms, 10 * ms}[r.n(4)]
	fail := r.n(4) == 3 && total > 0
	var T int64
	if fail {
		T = []int64{200, 600}[r.n(2)] * ms
	} else {
		T = []int64{0, 30, 60}[r.n(3)] * sec
	}
	c.SetTimeout(int(T / ms))
	kill := int64(0)
	if fail {
		if r.n(3) == 2 {
			kill = 1 + int64(r.n(60))*ms/2
		} else {
			all := t.all()
			for k := 1 + r.n(3); k > 0; k-- {
				v.ignore[pathStr(all[r.n(len(all))].Path)] = true
			}
			if r.n(6) == 5 {
				v.ignore[""] = true
			}
		}
	}
	c.setup = func(p *Peer) {
		p.maxPkt = []int{1024, 200}[r.n(2)]
		v.attach(p)
	}
	c.connect()
	p := c.peer()
	calls := 1
	if !fail && r.n(5) == 4 {
		calls = 2
	}
	var cbs []*CB
	begin := r.S.Now()
	killed := false
	if kill > 0 {
		r.S.At(begin+kill, func() {
			killed = true
			p.gone = true
			r.S.Count("connection-closed")
			p.c.Reset()
		})
	}
	var doneAt int64
	for i := 0; i < calls; i++ {
		cb := r.cb(fmt.Sprintf("tree%d", i))
		cbs = append(cbs, cb)
		cb.hook = func(node interface{}, err liberr.Error) {
			if len(cb.calls) > 1 {
				r.Fail("completed-twice", "the callback of a tree retrieval was called %d times", len(cb.calls))
				return
			}
			doneAt = r.S.Now()
			if err != nil {
				return
			}
			root, ok := node.(*embertree.RootElement)
			if !ok || root == nil {
				r.Fail("wrong-node", "tree retrieval delivered %T", node)
				return
			}
			c.root = root
			if fail || calls > 1 {
				return // overlapping retrievals take each other's answers for theirs
			}
			got, oerr := observe(root)
			if oerr != nil {
				r.Fail("tree-corrupt", "%v", oerr)
				return
			}
			if d := diffTrees(t, got); d != "" {
				r.Fail("tree-incomplete", "tree retrieval completed but the tree differs from the provider's (%d elements): %s", total, d)
			}
		}
		var err liberr.Error
		r.call("GetTree", 2*sec, func() { err = c.GetTree(cb) })
		if err != nil {
			r.Fail("request-refused", "GetTree refused on an idle connection: %s", errStr(err))
		}
	}
	// a round trip per element at worst; with failures a timeout each
	bound := int64(total+2)*(2*par.LatMax+v.delay*2+120*ms) + 5*sec
	if fail {
		bound += int64(total+2) * (T + 200*ms)
	}
	done := func() bool {
		for _, cb := range cbs {
			if len(cb.calls) == 0 {
				return false
			}
		}
		return true
	}
	if !r.waitFor(bound, done) {
		r.Fail("not-completed", "tree retrieval of %d elements did not complete within %.1f s (timeout %d ms, failures %v)", total, float64(bound)/1e9, T/ms, fail)
	}
	hit := false
	for _, k := range sortedKeys(v.asked) {
		if v.ignore[k] {
			hit = true
		}
	}
	tail := 1 * sec
	if fail {
		tail = 2*T + 500*ms
	}
	r.sleep(tail)
	for _, cb := range cbs {
		if len(cb.calls) != 1 {
			r.Fail("completed-twice", "the callback of a tree retrieval was called %d times", len(cb.calls))
		}
		k := cb.calls[0]
		if k.isE && !fail {
			r.Fail("spurious-error", "tree retrieval from a responsive provider reported %q", k.err)
		}
		if !k.isE && fail {
			if hit {
				r.Fail("error-not-reported", "part of the tree could not be retrieved (ignored: %s) but no error was reported", strings.Join(sortedKeys(v.ignore), " "))
			}
			if killed && c.root != nil {
				got, oerr := observe(c.root)
				if oerr != nil {
					r.Fail("tree-corrupt", "%v", oerr)
				} else if d := diffTrees(t, got); d != "" && doneAt > begin+kill {
					r.Fail("error-not-reported", "the connection was lost during the retrieval, no error was reported and the tree is incomplete: %s", d)
				}
			}
		}
	}
	// (answers to overlapping retrievals may still be on their way)
	if !fail && calls == 1 && r.n(3) == 2 && total > 0 && !big {
		// the provider's tree grows and changes; retrieving it again brings everything
		r.S.Count("retrieved-again")
		v.split = false // a later part could not be told from the answer to the request for the element it announces
		all := t.all()
		for k := 1 + r.n(5); k > 0; k-- {
			e := all[r.n(len(all))]
			if r.n(2) == 1 && (e.Kind == KNode || len(e.Kids) > 0) {
				e.Kids = append(e.Kids, r.newElem(e, e.Kids, r.kind(), 2))
			} else {
				e.HasC = true
				e.F[1] = r.field(e.Kind, 1)
			}
		}
		if r.n(2) == 1 {
			t.Top = append(t.Top, r.newElem(nil, t.Top, KNode, 2))
		}
		total = len(t.all())
		cb := r.cb("again")
		cb.hook = func(node interface{}, err liberr.Error) {
			if err != nil {
				r.Fail("spurious-error", "the second tree retrieval from a responsive provider reported %q", errStr(err))
				return
			}
			got, oerr := observe(c.root)
			if oerr != nil {
				r.Fail("tree-corrupt", "%v", oerr)
			} else if d := diffTrees(t, got); d != "" {
				r.Fail("tree-incomplete", "the second tree retrieval completed but the tree differs: %s", d)
			}
		}
		var err liberr.Error
		r.call("GetTree", 2*sec, func() { err = c.GetTree(cb) })
		if err != nil {
			r.Fail("request-refused", "GetTree refused on an idle connection: %s", errStr(err))
		}
		if !r.waitFor(bound+2*sec, func() bool { return len(cb.calls) > 0 }) {
			r.Fail("not-completed", "the second tree retrieval did not complete")
		}
		r.sleep(1 * sec)
		if len(cb.calls) != 1 {
			r.Fail("completed-twice", "the callback of a tree retrieval was called %d times", len(cb.calls))
		}
		for _, old := range cbs {
			if len(old.calls) != 1 {
				r.Fail("completed-twice", "the callback of the first tree retrieval was called again by the second")
			}
		}
	}
	r.note("%d elements, style %d split %v, timeout %d ms, failures %v, took %.1f ms", total, v.style, v.split, T/ms, fail, float64(doneAt-begin)/1e6)
	r.nontrivial = true
}

var _ = simnet.N
