package main

import (
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C16: addressing ----

type keptPath struct {
	got  asn1.RelativeOID
	path []int32
}

type keptReq struct {
	root *embertree.RootElement
	path []int32
	how  string
}

type outsider struct {
	e    *embertree.Element
	path []int32
}

type addressing struct {
	r       *Run
	c       *Client
	t       *Tree
	paths   []keptPath
	reqs    []keptReq
	outside []outsider // elements outside of the tree
	want    map[string]int
	desc    map[string]string
	made    int
	inCB    int
	base    int // requests of earlier connections
}

// path asks an element for its path.
func (a *addressing) path(e *embertree.Element, p []int32) {
	r := a.r
	got := e.GetPath()
	if !samePath([]int32(got), p) {
		r.Fail("path-wrong", "the element at %s reports the path %s", pathStr(p), pathStr([]int32(got)))
	}
	if r.n(4) == 3 {
		a.paths = append(a.paths, keptPath{got, append([]int32(nil), p...)})
		if r.n(2) == 1 { // as for the path of a child
			for k := 1 + r.n(3); k > 0; k-- {
				x := append(got, int32(r.n(1000)))
				if r.n(2) == 1 {
					a.paths = append(a.paths, keptPath{x[:len(p)], append([]int32(nil), p...)})
				}
			}
		}
	}
}

// message makes the request messages of an element and interprets them.
func (a *addressing) message(e *embertree.Element, p []int32) {
	r := a.r
	var root *embertree.RootElement
	how := "GetDirectoryMsg"
	var l embertree.Listener
	if r.n(4) == 3 {
		l = r.cb("message")
	}
	if r.n(2) == 1 {
		how = "GetQualifiedDirectoryMsg"
		root = e.GetQualifiedDirectoryMsg(l)
	} else {
		var err liberr.Error
		root, err = e.GetDirectoryMsg(l)
		if err != nil {
			r.Fail("no-request", "%s of %s fails: %s", how, pathStr(p), errStr(err))
		}
	}
	if l != nil {
		e.RemoveListener(l)
	}
	if root == nil {
		r.Fail("no-request", "%s of %s gives nothing", how, pathStr(p))
		return
	}
	k := keptReq{root, append([]int32(nil), p...), how}
	a.judge(k)
	if r.n(4) == 3 {
		a.reqs = append(a.reqs, k)
	}
}

func (a *addressing) judge(k keptReq) {
	r := a.r
	b, err := encodeLib(k.root.Encode)
	if err != nil {
		r.Fail("bad-request", "%s of %s cannot be encoded: %v", k.how, pathStr(k.path), err)
	}
	m, err := decMsg(b)
	if err != nil {
		r.Fail("bad-request", "%s of %s is not valid Glow: %v (% x)", k.how, pathStr(k.path), err, clip(b))
		return
	}
	p, mask, err := getDirTarget(m)
	if err != nil {
		r.Fail("bad-request", "%s of %s is not a directory request: %v (% x)", k.how, pathStr(k.path), err, clip(b))
	}
	a.valid(p, mask)
	if !samePath(p, k.path) {
		r.Fail("wrong-target", "%s of the element at %s addresses %s", k.how, pathStr(k.path), pathStr(p))
	}
	r.S.Count("request-message")
}

func (a *addressing) valid(path []int32, mask int64) {
	if mask != -1 {
		a.r.Fail("wrong-mask", "a directory request for [%s] has the field mask %d instead of all (-1)", pathStr(path), mask)
	}
}

// request sends a request through the client.
func (a *addressing) request(e *embertree.Element, p []int32, cb *CB) {
	r := a.r
	var err liberr.Error
	a.want[pathStr(p)]++ // it may arrive before the call returns
	r.call("GetDirectory", 3*sec, func() {
		if cb == nil {
			err = a.c.GetDirectory(e, nil)
		} else {
			err = a.c.GetDirectory(e, cb)
		}
	})
	if err != nil {
		a.want[pathStr(p)]--
		return
	}
	a.made++
}

func (a *addressing) cb() *CB {
	r := a.r
	cb := r.cb(fmt.Sprintf("d%d", a.made))
	cb.hook = func(node interface{}, err liberr.Error) {
		if a.inCB > 0 && r.n(3) == 2 {
			a.inCB--
			if e, p := a.pick(); e != nil {
				a.request(e, p, nil)
				r.S.Count("request-in-callback")
			}
		}
	}
	return cb
}

// pick chooses an element and its path; nil if it has not arrived yet.
func (a *addressing) pick() (*embertree.Element, []int32) {
	r := a.r
	if len(a.outside) > 0 && r.n(6) == 5 {
		o := a.outside[r.n(len(a.outside))]
		return o.e, o.path
	}
	all := a.t.all()
	if len(all) == 0 {
		return nil, nil
	}
	p := all[r.n(len(all))].Path
	return a.c.elem(p), p
}

func (a *addressing) some(n int, who string) {
	r := a.r
	for ; n > 0; n-- {
		e, p := a.pick()
		if e == nil {
			continue
		}
		switch r.n(6) {
		case 0, 1:
			a.path(e, p)
		case 2:
			a.message(e, p)
		case 3:
			if r.n(4) == 3 {
				a.want[""]++
				var err liberr.Error
				r.call("GetDirectory", 3*sec, func() { err = a.c.GetDirectory(nil, nil) })
				if err != nil {
					a.want[""]--
				} else {
					a.made++
				}
				continue
			}
			a.request(e, p, a.cb())
		default:
			a.request(e, p, nil)
		}
		if r.n(5) == 4 {
			r.sleep(int64(r.n(12)) * ms)
		}
	}
}

// create makes an element (with descendants) locally and attaches it below par.
func (a *addressing) create(par *Elem, pl *embertree.Element, depth int, attach bool) (*Elem, *embertree.Element) {
	r := a.r
	sibs := a.t.Top
	if par != nil {
		sibs = par.Kids
	}
	k := r.newElem(par, sibs, r.kind(), 0)
	k.HasC, k.F, k.HasT, k.HasS, k.HasX = false, map[int]Val{}, false, false, false
	k.Conns, k.COrder, k.Targets, k.Sources = map[int32]Conn{}, nil, nil, nil
	qual := len(k.Path) > 1 && r.n(3) == 2 || len(k.Path) == 1 && r.n(6) == 5
	var e *embertree.Element
	path := append(asn1.RelativeOID(nil), k.Path...)
	num := int(k.Num())
	switch k.Kind {
	case KNode:
		e = embertree.NewNode(num)
		if qual {
			e = embertree.NewQualifiedNode(path)
		}
	case KParam:
		e = embertree.NewParameter(num)
		if qual {
			e = embertree.NewQualifiedParameter(path)
		}
	case KMatrix:
		k.HasC = true
		k.F[2], k.F[3] = Val{T: 'i'}, Val{T: 'i'}
		if qual {
			e = embertree.NewQualifiedMatrix(path, 0, 0)
		} else {
			var err liberr.Error
			e, err = embertree.NewMatrix(num, 0, 0)
			must(r, "NewMatrix", err)
		}
	case KFunc:
		e = embertree.NewFunction(num)
		if qual {
			e = embertree.NewQualifiedElement(embertree.QualifiedFunctionApplication, path, embertree.NewFunctionContents)
		}
	}
	if e == nil {
		r.Fail("constructor-failed", "no element was made for %s %s", k.Kind, pathStr(k.Path))
		return k, e
	}
	r.S.Count("local-element")
	if qual {
		r.S.Count("local-qualified")
	}
	if r.n(3) == 2 { // its own path as long as it stands alone
		own := []int32{k.Num()}
		if qual {
			own = k.Path
		}
		if r.n(2) == 1 {
			a.path(e, own)
		} else {
			a.message(e, own)
		}
	}
	early := r.n(2) == 1
	put := func() {
		if !attach {
			return
		}
		if pl == nil {
			if par == nil {
				a.c.root.AddElement(e)
			}
		} else {
			must(r, "AddChild", pl.AddChild(e))
		}
	}
	if early {
		put()
	}
	if k.Kind == KNode && depth > 0 {
		for n := r.n(3); n > 0; n-- {
			x, _ := a.create(k, e, depth-1, true)
			k.Kids = append(k.Kids, x)
		}
	}
	if !early {
		put()
	}
	return k, e
}

// local grows the tree (or something outside of it) locally.
func (a *addressing) local() {
	r := a.r
	all := a.t.all()
	switch r.n(5) {
	case 0: // at the top
		k, _ := a.create(nil, nil, 2, true)
		a.t.Top = append(a.t.Top, k)
	case 1: // outside
		var par *Elem
		if r.n(2) == 1 && len(all) > 0 {
			par = all[r.n(len(all))]
		}
		k, e := a.create(par, nil, 2, false)
		got := e.GetPath()
		p := []int32{k.Num()}
		if len(got) > 1 {
			p = k.Path
		}
		var rec func(x *Elem, e *embertree.Element, p []int32)
		rec = func(x *Elem, e *embertree.Element, p []int32) {
			if e == nil {
				r.Fail("missing-element", "an element added below %s is not there", pathStr(p))
				return
			}
			a.outside = append(a.outside, outsider{e, p})
			for _, y := range x.Kids {
				rec(y, e.Children[int(y.Num())], append(append([]int32(nil), p...), y.Num()))
			}
		}
		rec(k, e, p)
	default:
		if len(all) == 0 {
			return
		}
		par := all[r.n(len(all))]
		if par.Kind == KFunc {
			return
		}
		pl := a.c.elem(par.Path)
		if pl == nil {
			r.Fail("missing-element", "the element %s is not in the tree", pathStr(par.Path))
		}
		k, _ := a.create(par, pl, 2, true)
		par.Kids = append(par.Kids, k)
	}
}

// check judges everything known so far; the client is idle.
func (a *addressing) check() {
	r := a.r
	seen := map[string]bool{}
	n := 0
	var rec func(e *embertree.Element, chain []int32)
	rec = func(e *embertree.Element, chain []int32) {
		n++
		if len(chain) > 300 {
			r.Fail("tree-corrupt", "the tree is deeper than anything announced")
		}
		got := e.GetPath()
		if !samePath([]int32(got), chain) {
			r.Fail("path-wrong", "the element at %s reports the path %s", pathStr(chain), pathStr([]int32(got)))
		}
		if int32(e.Number) != chain[len(chain)-1] {
			r.Fail("path-wrong", "the element at %s has the number %d", pathStr(chain), e.Number)
		}
		if seen[pathStr([]int32(got))] {
			r.Fail("path-shared", "two elements report the path %s", pathStr(chain))
		}
		seen[pathStr([]int32(got))] = true
		for _, k := range a.t.childNums(chain) {
			c := e.Children[int(k)]
			if c == nil {
				r.Fail("missing-element", "the element %s is not in the tree", pathStr(append(append([]int32(nil), chain...), k)))
				return
			}
			rec(c, append(append([]int32(nil), chain...), k))
		}
		if m := len(a.t.childNums(chain)); m != len(e.Children) {
			r.Fail("foreign-element", "%d elements are below %s instead of %d", len(e.Children), pathStr(chain), m)
		}
	}
	for _, x := range a.t.Top {
		e := a.c.root.RootElementCollection[int(x.Num())]
		if e == nil {
			r.Fail("missing-element", "the element %s is not in the tree", pathStr(x.Path))
		}
		rec(e, x.Path)
	}
	if len(a.c.root.RootElementCollection) != len(a.t.Top) {
		r.Fail("foreign-element", "%d elements are at the top instead of %d", len(a.c.root.RootElementCollection), len(a.t.Top))
	}
	for _, k := range a.paths {
		if !samePath([]int32(k.got), k.path) {
			r.Fail("path-changed", "a path obtained as %s has become %s", pathStr(k.path), pathStr([]int32(k.got)))
		}
	}
	for _, k := range a.reqs {
		a.judge(k)
	}
	for _, o := range a.outside {
		if got := o.e.GetPath(); !samePath([]int32(got), o.path) {
			r.Fail("path-wrong", "the local element made as %s reports the path %s", pathStr(o.path), pathStr([]int32(got)))
		}
	}
}

// childNums lists the numbers below a path.
func (t *Tree) childNums(path []int32) []int32 {
	e := t.find(path)
	if e == nil {
		return nil
	}
	var ns []int32
	for _, k := range e.Kids {
		ns = append(ns, k.Num())
	}
	return ns
}

// arrived waits for the requests and compares.
func (a *addressing) arrived() {
	r := a.r
	p := a.c.peer()
	a.inCB = 0
	total := func() (n int) {
		for _, v := range a.want {
			n += v
		}
		return
	}
	if !r.waitFor(60*sec, func() bool { return len(p.reqs)-a.base >= total() }) {
		r.Fail("request-lost", "%d of %d requests arrived", len(p.reqs)-a.base, total())
	}
	got := map[string]int{}
	for _, q := range p.reqs[a.base:] {
		a.valid(q.path, q.mask)
		got[pathStr(q.path)]++
	}
	for _, k := range sortedKeys(got) {
		if got[k] > a.want[k] {
			var miss string
			for _, w := range sortedKeys(a.want) {
				if got[w] < a.want[w] {
					miss = w
				}
			}
			r.Fail("wrong-target", "%d requests for [%s] arrived although %d were made (a request for [%s] did not arrive)", got[k], k, a.want[k], miss)
		}
	}
	a.base = len(p.reqs)
	a.want = map[string]int{}
}

func mainC16(r *Run) {
	c := r.newClient(9000, r.netParams())
	t := r.tree(1+r.n(30), 6, 1)
	switch r.n(16) {
	case 15:
		r.deepChain(t, 60+r.n(100))
	case 14:
		r.deepChain(t, 10+r.n(20))
	}
	a := &addressing{r: r, c: c, t: t, want: map[string]int{}}
	first := t.wholeMsg()
	if r.n(2) == 1 { // only the top is known at first
		first, a.t = &Msg{}, &Tree{}
		for _, e := range t.Top {
			first.Elems = append(first.Elems, e.clone(false))
		}
		a.t.apply(first)
	}
	c.setup = func(p *Peer) {
		p.maxPkt = []int{1024, 200, 40}[r.n(3)]
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if r.n(3) == 2 {
				for _, m := range r.answers(a.t, path, r.n(3), r.n(3) == 2) {
					p.postMsg(encMsg(r.form(), m), 0, nil)
				}
			}
		}
	}
	c.bootstrap(encMsg(r.form(), first))
	a.base = len(c.peer().reqs)
	if r.n(2) == 1 {
		c.SetTimeout(5 + r.n(500))
	}
	if a.t != t { // the rest follows in small parts while requests are made
		g := &group{r: r}
		for k := r.n(3); k > 0; k-- {
			m := 1 + r.n(12)
			g.spawn(fmt.Sprintf("app.%d", k), func() { a.some(m, "app") })
		}
		for _, e := range t.all() {
			if len(e.Path) == 1 {
				continue
			}
			u := r.place(a.t, e.clone(false))
			a.t.apply(&Msg{Elems: []*Elem{u}})
			c.peer().postMsg(encMsg(r.form(), &Msg{Elems: []*Elem{u}}), 0, nil)
			if r.n(6) == 5 {
				r.sleep(int64(r.n(4)) * ms)
			}
		}
		g.wait(100 * sec)
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s")
		}
		a.check()
	}
	for n := 1 + r.n(6); n > 0; n-- {
		p := c.peer()
		g := &group{r: r}
		a.inCB = r.n(6)
		switch r.n(8) {
		case 0, 1, 2: // the provider announces while requests are made
			for k := r.n(4); k > 0; k-- {
				m := 1 + r.n(12)
				g.spawn(fmt.Sprintf("app%d.%d", n, k), func() { a.some(m, "app") })
			}
			for k := 1 + r.n(5); k > 0; k-- {
				p.postFrames(encMsg(r.form(), r.update(a.t)), nil, 6)
				r.sleep(int64(r.n(3)*r.n(6)) * ms)
			}
		case 3, 4, 5: // the application adds elements
			for k := 1 + r.n(4); k > 0; k-- {
				a.local()
				if r.n(2) == 1 {
					a.some(r.n(4), "main")
					a.arrived()
					c.settle(20 * sec)
				}
			}
		case 6:
			for k := 1 + r.n(3); k > 0; k-- {
				m := 1 + r.n(20)
				g.spawn(fmt.Sprintf("app%d.%d", n, k), func() { a.some(m, "app") })
			}
		case 7: // another connection
			r.S.Count("reconnect")
			a.some(r.n(6), "main")
			a.inCB = 0
			a.arrived()
			c.settle(20 * sec)
			r.call("Disconnect", 2*sec, func() { c.Disconnect() })
			p.gone = true
			if !r.waitFor(2*sec, func() bool { return !c.IsConnected() }) {
				r.Fail("still-connected", "after Disconnect the client reports itself connected")
			}
			c.connect()
			a.base = 0
		}
		g.wait(100 * sec)
		a.inCB = 0
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s")
		}
		a.some(1+r.n(8), "main")
		a.arrived()
		if !c.settle(60 * sec) {
			r.Fail("not-processed", "the client did not process its input within 60 s")
		}
		a.check()
	}
	r.note("%d requests, %d elements, %d outside", a.made, len(a.t.all()), len(a.outside))
	r.nontrivial = a.made > 0
}
