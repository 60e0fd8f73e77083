package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- histories of provider messages ----

// partial announces a part of an existing element.
func (r *Run) partial(e *Elem) *Elem {
	u := bare(e)
	fs := fieldsOf[e.Kind]
	switch k := r.n(10); {
	case k == 9: // everything again
		u.HasC = true
		u.F = r.fields(e.Kind, 7)
	case k == 8: // confirmed without contents
	default:
		u.HasC = true
		for i := 1 + k%3; i > 0; i-- {
			n := fs[r.n(len(fs))]
			u.F[n] = r.field(e.Kind, n)
		}
	}
	if e.Kind == KMatrix && r.n(2) == 1 {
		r.matrixParts(u)
		if r.n(3) > 0 && len(e.COrder) > 0 { // a connection that exists
			u.HasX = true
			tg := e.COrder[r.n(len(e.COrder))]
			if _, ok := u.Conns[tg]; !ok {
				u.COrder = append(u.COrder, tg)
			}
			u.Conns[tg] = r.conn()
		}
	}
	r.extras(u)
	return u
}

// extras adds parts without an accessor: they must be skipped without disturbing anything.
func (r *Run) extras(u *Elem) {
	if !u.HasC || r.n(6) < 5 {
		return
	}
	r.S.Count("extra-fields")
	for k := 1 + r.n(2); k > 0; k-- {
		switch r.n(4) {
		case 0:
			if u.Kind == KParam {
				u.F[15] = Val{T: 'x', I: int64(r.n(5))}
			}
		case 1:
			if u.Kind == KParam {
				u.F[16] = Val{T: 'x', I: int64(r.n(300))}
			}
		case 2:
			if u.Kind == KParam {
				n := []int{2, 3, 4, 12}[r.n(4)]
				if _, ok := u.F[n]; !ok {
					u.F[n] = Val{T: 'n'}
				}
			}
		case 3:
			u.F[19+r.n(12)] = Val{T: 'x', S: r.Str()}
		}
	}
}

// subtree makes a new element below par (or at the top) with new descendants.
func (r *Run) subtree(t *Tree, par *Elem, n int) *Elem {
	sibs := t.Top
	if par != nil {
		sibs = par.Kids
	}
	e := r.newElem(par, sibs, r.kind(), 2)
	if r.n(6) == 5 && par == nil {
		e.Kind = KNode
		e.F, e.Conns, e.HasT, e.HasS, e.HasX, e.COrder = map[int]Val{}, map[int32]Conn{}, false, false, false, nil
	}
	if e.Kind == KNode {
		for ; n > 0; n-- {
			e.Kids = append(e.Kids, r.subtree(t, e, n/2))
		}
	}
	r.extras(e)
	return e
}

// place wraps the announcement u of an element below existing ancestors into a message part:
// qualified, in a chain from the root, or below a qualified ancestor.
func (r *Run) place(t *Tree, u *Elem) *Elem {
	switch r.n(4) {
	case 0, 1:
		u.Qual = true
		return u
	}
	n := u
	n.Qual = false
	stop := 0
	if r.n(2) == 1 {
		stop = r.n(len(u.Path)) // ancestors above are left out
	}
	for l := len(u.Path) - 1; l > stop; l-- {
		a := t.find(u.Path[:l])
		p := bare(a)
		if r.n(4) == 3 {
			p = r.partial(a)
		}
		p.Kids = []*Elem{n}
		n = p
	}
	if len(n.Path) > 1 || r.n(4) == 3 {
		n.Qual = true
	}
	return n
}

// update makes the next message of the provider and applies it to the model.
func (r *Run) update(t *Tree) *Msg {
	m := &Msg{}
	switch r.n(24) {
	case 20:
		m.Other = 6
		r.S.Count("stream-message")
		return m
	case 21:
		m.Other = 23
		r.S.Count("invocation-result-message")
		return m
	case 22:
		m.NoCollection = true
		return m
	case 23:
		return m
	}
	for k := 1 + r.n(3); k > 0; k-- {
		all := t.all()
		var e *Elem
		if len(all) > 0 {
			e = all[r.n(len(all))]
		}
		op := r.n(8)
		if e == nil {
			op = 6
		}
		var u *Elem
		switch op {
		case 0, 1, 2:
			u = r.place(t, r.partial(e))
		case 3, 4: // an element with some of its children, known and new
			u = bare(e)
			if r.n(2) == 1 {
				u = r.partial(e)
			}
			for _, c := range e.Kids {
				if r.n(2) == 1 {
					p := r.partial(c)
					for _, g := range c.Kids {
						if r.n(4) == 3 {
							p.Kids = append(p.Kids, r.partial(g))
						}
					}
					u.Kids = append(u.Kids, p)
				}
			}
			if e.Kind != KFunc && r.n(2) == 1 {
				x := e.clone(false)
				x.Kids = append(append(x.Kids, e.Kids...), u.Kids...)
				u.Kids = append(u.Kids, r.subtree(t, x, r.n(4)))
				r.S.Count("new-child")
			}
			u.HasK = len(u.Kids) == 0 && r.n(2) == 1
			u = r.place(t, u)
		case 5: // a new element below a known one
			if e.Kind == KFunc {
				continue
			}
			u = r.place(t, r.subtree(t, e, r.n(4)))
			r.S.Count("new-element")
		case 6: // a new element at the top
			u = r.subtree(t, nil, r.n(6))
			u.Qual = r.n(2) == 1
			r.S.Count("new-top-element")
		case 7: // an element whose parent is unknown
			var par *Elem
			if r.n(3) > 0 {
				par = bare(e)
				par.Path = append(par.Path, r.freeNum(e.Kids))
			} else {
				par = &Elem{Path: []int32{r.freeNum(t.Top)}}
			}
			u = r.newElem(par, nil, r.kind(), 2)
			u.Qual = true
			r.S.Count("orphan")
		}
		t.apply(&Msg{Elems: []*Elem{u}})
		m.Elems = append(m.Elems, u)
	}
	return m
}

// postFrames queues a message with keep-alives between its packets; lose >= 0 leaves that packet out.
func (p *Peer) postFrames(m []byte, lose func(n int) int, noise int) (whole bool) {
	fs := s101Split(m, p.maxPkt, false)
	x := -1
	if lose != nil {
		x = lose(len(fs))
	}
	for i, f := range fs {
		if i != x {
			p.post(f, 0, nil)
		}
		if i+1 < len(fs) {
			p.keepNoise(noise)
		}
	}
	return x < 0 || x >= len(fs)
}

// dispatchTree compares the client's tree with the model.
func (r *Run) compare(c *Client, t *Tree, when string) {
	got, err := observe(c.root)
	if err != nil {
		r.Fail("tree-corrupt", "%s: %v", when, err)
		return
	}
	if d := diffTrees(t, got); d != "" {
		r.Fail("tree-differs", "%s: the tree differs from what the provider announced: %s", when, d)
	}
}

func mainC07(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	r.big = r.n(40) == 39
	t := r.tree(1+r.n(25), 5, 2)
	model := t
	maxPkt := []int{1024, 1024, 60, 300}[r.n(4)]
	noise := []int{0, 3, 10}[r.n(3)]
	answering := true
	c.setup = func(p *Peer) {
		p.maxPkt = maxPkt
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if !answering {
				return
			}
			for _, m := range r.answers(model, path, r.n(3), r.n(3) == 2) {
				p.postFrames(encMsg(r.form(), m), nil, noise)
			}
		}
	}
	first := t.wholeMsg()
	if r.n(2) == 1 { // only the top is known at first
		first = &Msg{}
		model = &Tree{}
		for _, e := range t.Top {
			first.Elems = append(first.Elems, e.clone(false))
		}
		model.apply(first)
	}
	if r.n(8) == 7 {
		first, model = &Msg{NoCollection: r.n(2) == 1}, &Tree{}
	}
	c.connect()
	c.peer().maxPkt = maxPkt
	c.fetchRoot(encMsg(r.form(), first))
	r.compare(c, model, "after the first answer")
	if r.n(3) == 2 {
		c.SetTimeout(1 + r.n(3000))
	}
	total := 0
	lost := false // two incomplete messages in a row could look like one
	for b := 1 + r.n(4); b > 0; b-- {
		p := c.peer()
		k := 1 + r.n(8)
		for i := 0; i < k; i++ {
			w := model.clone()
			m := r.update(w)
			enc := encMsg(r.form(), m)
			var lose func(n int) int
			if r.n(12) == 11 && !lost {
				lose = func(n int) int {
					if n < 2 {
						return -1
					}
					r.S.Count("packet-lost")
					r.S.Logf("a packet of %d will be lost", n)
					return r.n(2) * (n - 1) // the first or the last one: the framing cannot show the loss of others
				}
			}
			r.S.Logf("message: %s", m.brief())
			lost = !p.postFrames(enc, lose, noise)
			if !lost {
				model = w
				total++
			}
			p.keepNoise(noise)
			if r.n(4) == 3 && len(model.Top) > 0 {
				ps := model.paths()
				le := c.elem(ps[r.n(len(ps))])
				if le != nil || r.n(3) == 2 {
					r.call("GetDirectory", 2*sec, func() { c.GetDirectory(le, r.cb("dir")) })
				}
			}
			if r.n(3) == 2 {
				r.sleep(int64(r.n(30)) * ms)
			}
		}
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s")
		}
		r.sleep(300 * ms)
		c.settle(20 * sec) // requests queued meanwhile are answered
		r.compare(c, model, fmt.Sprintf("after %d messages", total))
		if b > 1 && r.n(4) == 3 {
			n := r.n(4)
			if n > 1 { // in the middle of a message
				fs := s101Split(encMsg(r.form(), r.update(model.clone())), 40, false)
				r.S.Logf("%d packets, cut", len(fs))
				if len(fs) == 1 {
					fs = [][]byte{fs[0][:r.n(len(fs[0])-1)]}
				} else {
					fs = fs[:1+r.n(len(fs)-1)]
				}
				for _, f := range fs {
					p.post(f, 0, nil)
				}
				c.settle(5 * sec)
				r.S.Count("connection-lost-inside-message")
			}
			p.gone = true
			switch n {
			case 0, 2:
				p.c.Close()
			case 1:
				p.c.Reset()
			case 3:
				r.call("Disconnect", 2*sec, func() { c.Disconnect() })
			}
			if !r.waitFor(2*sec, func() bool { return !c.IsConnected() }) {
				r.Fail("still-connected", "the connection ended but the client still reports itself connected after 2 s")
			}
			r.S.Count("reconnect")
			c.connect()
		}
	}
	r.note("%d messages, %d elements at the end", total, len(model.all()))
	r.nontrivial = total > 0
}

var _ = sort.Ints
var _ = strings.Join
var _ embertree.Listener
var _ liberr.Error
