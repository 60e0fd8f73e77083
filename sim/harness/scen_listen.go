package main

import (
	"fmt"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C08: listeners ----

// place of a registration: "" is the tree, otherwise the path of an element.
type regKey struct {
	cb    *CB
	place string
}

type reg struct {
	regKey
	path    []int32
	le      *embertree.Element
	active  bool
	changed bool // added or removed since the message was sent
	once    bool // a request: only the first answer must be heard
	heard   bool
	loose   bool // changed on another goroutine
	calls   int
	lastOwn string
	lastKid map[int32]bool
	early   string // what a call before the message's contents were in place showed
}

type hearing struct {
	r     *Run
	c     *Client
	regs  map[regKey]*reg
	order []*reg
	cbs   []*CB
	model *Tree
}

func (h *hearing) reg(cb *CB, path []int32) *reg {
	k := regKey{cb, pathStr(path)}
	g := h.regs[k]
	if g == nil {
		g = &reg{regKey: k, path: path}
		h.regs[k] = g
		h.order = append(h.order, g)
	}
	return g
}

func (h *hearing) add(cb *CB, path []int32) {
	r := h.r
	g := h.reg(cb, path)
	if len(path) > 0 {
		g.le = h.c.elem(path)
		if g.le == nil {
			r.Fail("missing-element", "element %s announced by the provider is not in the tree", pathStr(path))
		}
	}
	r.S.Logf("add %s at [%s]", cb.name, g.place)
	g.changed, g.active, g.once, g.heard = true, true, false, false
	r.call("AddListener", 1*sec, func() {
		if g.le == nil {
			h.c.root.AddListener(cb)
		} else {
			g.le.AddListener(cb)
		}
	})
}

func (h *hearing) remove(cb *CB, path []int32) {
	r := h.r
	g := h.reg(cb, path)
	le := g.le
	if le == nil && len(path) > 0 {
		le = h.c.elem(path)
	}
	if le == nil && len(path) > 0 {
		return
	}
	r.S.Logf("remove %s at [%s]", cb.name, g.place)
	r.call("RemoveListener", 1*sec, func() {
		if le == nil {
			h.c.root.RemoveListener(cb)
		} else {
			le.RemoveListener(cb)
		}
	})
	g.changed, g.active = true, false
}

func (h *hearing) request(cb *CB, path []int32) {
	r := h.r
	g := h.reg(cb, path)
	if g.active && !g.once {
		return
	}
	if len(path) > 0 {
		g.le = h.c.elem(path)
	}
	g.changed, g.active, g.once, g.heard = true, true, true, false
	var err liberr.Error
	r.call("GetDirectory", 1*sec, func() { err = h.c.GetDirectory(g.le, cb) })
	if err != nil {
		r.Fail("request-refused", "GetDirectory refused on a connection with few requests: %s", errStr(err))
	}
}

// anywhere picks the tree or an element.
func (h *hearing) anywhere() []int32 {
	ps := h.model.paths()
	if len(ps) == 0 || h.r.n(5) == 4 {
		return nil
	}
	if len(ps) > 4 && h.r.n(2) == 1 {
		ps = ps[:4]
	}
	q := ps[h.r.n(len(ps))]
	if h.c.elem(q) == nil {
		return nil // comes with the message being handled
	}
	return q
}

func (h *hearing) randomOp(cbs []*CB) {
	r := h.r
	cb := cbs[r.n(len(cbs))]
	switch r.n(5) {
	case 0, 1:
		h.add(cb, h.anywhere())
	case 2:
		h.remove(cb, h.anywhere())
	case 3, 4:
		if len(h.order) > 0 {
			g := h.order[r.n(len(h.order))]
			for _, x := range cbs {
				if x == g.cb {
					if r.n(2) == 0 {
						h.remove(g.cb, g.path)
					} else {
						h.add(g.cb, g.path)
					}
				}
			}
		}
	}
}

// receive judges one call while it happens.
func (h *hearing) receive(cb *CB, node interface{}, err liberr.Error) *reg {
	r := h.r
	if err != nil {
		r.Fail("error-callback", "listener %s was called with error %q although the provider's message is valid", cb.name, errStr(err))
	}
	var g *reg
	switch n := node.(type) {
	case *embertree.RootElement:
		if n != h.c.root {
			r.Fail("wrong-node", "listener %s was called with another tree", cb.name)
		}
		g = h.regs[regKey{cb, ""}]
		if g == nil {
			r.Fail("not-registered", "listener %s was called for the tree but was never added there", cb.name)
			return nil
		}
	case *embertree.Element:
		for _, x := range h.order {
			if x.cb == cb && x.le == n && n != nil {
				g = x
			}
		}
		if g == nil {
			r.Fail("not-registered", "listener %s was called with an element it was never added to", cb.name)
			return nil
		}
	default:
		r.Fail("wrong-node", "listener %s was called with %T", cb.name, node)
		return nil
	}
	if !g.active && !g.loose {
		r.Fail("called-after-removal", "listener %s was called for [%s] after it had been removed there", cb.name, g.place)
	}
	g.calls++
	if g.le != nil {
		if h.c.elem(g.path) != g.le {
			r.Fail("wrong-node", "listener %s was called with an object that is not element [%s] of the tree", cb.name, g.place)
		}
		r.S.Atomic(func() {
			par, _ := g.le.GetParent()
			e, oerr := observeElem(g.le, g.path, par, 0)
			if oerr != nil {
				r.Fail("tree-corrupt", "in a callback: %v", oerr)
				return
			}
			g.lastOwn = e.own()
			g.lastKid = map[int32]bool{}
			for _, k := range e.Kids {
				g.lastKid[k.Num()] = true
			}
			if w := h.model.find(g.path); w != nil && w.own() != g.lastOwn && g.early == "" {
				g.early = g.lastOwn
			}
		})
	} else {
		got, oerr := observe(h.c.root)
		if oerr != nil {
			r.Fail("tree-corrupt", "in a callback: %v", oerr)
		}
		if d := diffTrees(h.model, got); d != "" {
			r.Fail("called-too-early", "the tree listener was called when the message was not yet in place: %s", d)
		}
	}
	return g
}

// expectation of calls per path for one message: at least, at most; parts counts the parts of the
// message which are about the element or what is below it.
func expectCalls(m *Msg) (lo, hi, parts map[string]int) {
	lo, hi, parts = map[string]int{}, map[string]int{}, map[string]int{}
	var in map[string]bool
	var rec func(e *Elem, top bool) bool
	rec = func(e *Elem, top bool) bool {
		for l := 1; l <= len(e.Path); l++ {
			hi[pathStr(e.Path[:l])]++
			in[pathStr(e.Path[:l])] = true
		}
		strong := e.HasC || e.HasT || e.HasS || e.HasX
		for _, k := range e.Kids {
			if rec(k, false) {
				strong = true
			}
		}
		if strong {
			lo[pathStr(e.Path)] = 1
			if top && e.Qual && len(e.Path) > 1 && e.HasC {
				lo[pathStr(e.Path[:len(e.Path)-1])] = 1
			}
		}
		return strong
	}
	for _, e := range m.Elems {
		in = map[string]bool{}
		rec(e, true)
		for q := range in {
			parts[q]++
		}
	}
	return
}

func mainC08(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(2+r.n(14), 4, 1)
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	p := c.peer()
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {}
	h := &hearing{r: r, c: c, regs: map[regKey]*reg{}, model: t}
	nl := 1 + r.n(5)
	crowd := r.n(30) == 29
	if crowd {
		nl = 6 + r.n(40)
		r.S.Count("many-listeners")
	}
	for i := nl; i > 0; i-- {
		cb := r.cb(fmt.Sprintf("L%d", i))
		h.cbs = append(h.cbs, cb)
	}
	hooks := 0
	isSide := map[*CB]bool{} // only changed by one goroutine
	for _, cb := range h.cbs {
		cb.hook = func(node interface{}, err liberr.Error) {
			g := h.receive(cb, node, err)
			if g == nil || hooks == 0 {
				return
			}
			if r.n(3) > 0 {
				return
			}
			hooks--
			r.S.Count("listener-change-in-callback")
			switch r.n(4) {
			case 0:
				h.remove(cb, g.path)
			case 1: // another one at the same place
				for _, x := range h.order {
					if x.place == g.place && x.cb != cb && x.active && !isSide[x.cb] {
						h.remove(x.cb, x.path)
						break
					}
				}
			case 2:
				h.add(h.cbs[r.n(len(h.cbs))], g.path)
			case 3:
				h.randomOp(h.cbs)
			}
		}
	}
	// these are added and removed on another goroutine while messages arrive
	var side []*CB
	for i := r.n(3); i > 0; i-- {
		cb := r.cb(fmt.Sprintf("S%d", i))
		side = append(side, cb)
		isSide[cb] = true
		cb.hook = func(node interface{}, err liberr.Error) { h.receive(cb, node, err) }
	}
	for k := 1 + r.n(8); k > 0; k-- {
		h.add(h.cbs[r.n(len(h.cbs))], h.anywhere())
	}
	if crowd { // at one place
		q := h.anywhere()
		for _, cb := range h.cbs {
			h.add(cb, q)
		}
	}
	heard := 0
	for i := 1 + r.n(8); i > 0; i-- {
		for k := r.n(3); k > 0; k-- {
			h.randomOp(h.cbs)
		}
		if r.n(6) == 5 {
			h.request(h.cbs[r.n(len(h.cbs))], h.anywhere())
			if !c.settle(5 * sec) {
				r.Fail("not-processed", "the client is not idle 5 s after a request")
			}
		}
		for _, g := range h.order {
			if g.place == "" && !g.once && !g.loose {
				has := false
				r.call("HasListner", 1*sec, func() { has = c.root.HasListner(g.cb) })
				if has != g.active {
					r.Fail("registration-misreported", "HasListner tells %v of listener %s, which %s added to the tree", has, g.cb.name, map[bool]string{true: "is", false: "is not"}[g.active])
				}
			}
			g.changed, g.calls, g.lastOwn, g.lastKid, g.early = false, 0, "", nil, ""
			if !g.active {
				g.loose = false
			}
		}
		hooks = r.n(4)
		w := h.model.clone()
		m := r.update(w)
		known := map[string]bool{}
		for _, q := range h.model.paths() {
			known[pathStr(q)] = true
		}
		sideOps := &group{r: r}
		old := h.model
		if len(side) > 0 && r.n(2) == 1 {
			r.S.Count("listener-change-meanwhile")
			ps := append(old.paths(), nil)
			sideOps.spawn("side", func() {
				for k := 1 + r.n(6); k > 0; k-- {
					cb := side[r.n(len(side))]
					q := ps[r.n(len(ps))]
					g := h.reg(cb, q)
					g.loose = true
					if r.n(2) == 0 {
						h.add(cb, q)
					} else {
						h.remove(cb, q)
					}
					if r.n(2) == 1 {
						r.sleep(int64(r.n(2000)) * us)
					}
				}
			})
		}
		h.model = w
		r.S.Logf("message: %s", m.brief())
		p.maxPkt = []int{1024, 40}[r.n(2)]
		p.postFrames(encMsg(r.form(), m), nil, 10)
		if !c.settle(20 * sec) {
			r.Fail("not-processed", "the client did not process its input within 20 s")
		}
		sideOps.wait(10 * sec)
		c.settle(5 * sec)
		lo, hi, parts := expectCalls(m)
		for _, g := range h.order {
			l, u := lo[g.place], hi[g.place]
			if g.place == "" {
				l, u = 1, 1
				if m.Other != 0 {
					l = 0
				}
			} else if !known[g.place] {
				l = 0
			}
			if g.changed {
				l, u = 0, 2*u
			}
			if g.once && g.heard {
				l = 0
			}
			if !g.active && !g.changed {
				l, u = 0, 0
			}
			if g.calls < l {
				r.Fail("not-called", "listener %s at [%s] was not called for a message which announces it: %s", g.cb.name, g.place, m.brief())
			}
			if g.calls > u {
				r.Fail("called-too-often", "listener %s at [%s] was called %d times (at most %d) for the message %s", g.cb.name, g.place, g.calls, u, m.brief())
			}
			if g.once && l > 0 {
				g.heard = true
			}
			if g.calls > 0 && g.le != nil {
				e := h.model.find(g.path)
				if e == nil {
					r.harnessBug("element %s not in the model", g.place)
				}
				if !g.changed {
					if g.early != "" && parts[g.place] == 1 {
						r.Fail("called-too-early", "when listener %s at [%s] was first called its element was %s instead of %s", g.cb.name, g.place, g.early, e.own())
					}
					if e.own() != g.lastOwn {
						r.Fail("called-too-early", "when listener %s at [%s] was called its element was %s instead of %s", g.cb.name, g.place, g.lastOwn, e.own())
					}
					for _, k := range e.Kids {
						if !g.lastKid[k.Num()] {
							r.Fail("called-too-early", "when listener %s at [%s] was called child %d of the message was missing", g.cb.name, g.place, k.Num())
						}
					}
				}
				heard++
			}
			if g.calls > 0 && g.le == nil {
				heard++
			}
		}
	}
	r.note("%d registrations, %d were called for a message", len(h.order), heard)
	r.nontrivial = heard > 0
}
