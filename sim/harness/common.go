package main

import (
	"sort"

	"github.com/dufourgilles/emberlib/embertree"
)

// elem finds a library element by its path.
func (c *Client) elem(path []int32) *embertree.Element {
	var e *embertree.Element
	c.r.S.Atomic(func() {
		if c.root == nil || len(path) == 0 {
			return
		}
		e = c.root.RootElementCollection[int(path[0])]
		for _, n := range path[1:] {
			if e == nil {
				return
			}
			e = e.Children[int(n)]
		}
	})
	return e
}

// nested makes the announcement of e with its whole subtree.
func nested(e *Elem) *Elem {
	n := e.clone(false)
	n.Qual = false
	for _, k := range e.Kids {
		n.Kids = append(n.Kids, nested(k))
	}
	return n
}

// bare is e without contents and children: a link of a chain.
func bare(e *Elem) *Elem {
	return &Elem{Path: append([]int32(nil), e.Path...), Kind: e.Kind, F: map[int]Val{}, Conns: map[int32]Conn{}}
}

// chain wraps the announcement n (of an element of t) into its ancestors.
func (t *Tree) chain(n *Elem) *Elem {
	n.Qual = false
	for l := len(n.Path) - 1; l > 0; l-- {
		p := bare(t.find(n.Path[:l]))
		p.Kids = []*Elem{n}
		n = p
	}
	return n
}

// wholeMsg announces the whole tree in one message.
func (t *Tree) wholeMsg() *Msg {
	m := &Msg{}
	for _, e := range t.Top {
		n := nested(e)
		n.Qual = e.TopQ
		m.Elems = append(m.Elems, n)
	}
	return m
}

// answers builds the messages which answer a directory request for path.
// style: 0 qualified children, 1 nested from the root, 2 the element (qualified) with its children.
func (r *Run) answers(t *Tree, path []int32, style int, split bool) []*Msg {
	announce := func(e *Elem) *Elem { return e.clone(false) }
	var kids []*Elem
	var self *Elem
	if len(path) == 0 {
		kids = t.Top
	} else {
		self = t.find(path)
		if self == nil {
			return nil
		}
		kids = self.Kids
	}
	groups := [][]*Elem{}
	ks := append([]*Elem(nil), kids...)
	for i := len(ks) - 1; i > 0 && r.n(4) == 3; i-- { // sometimes in another order
		j := r.n(i + 1)
		ks[i], ks[j] = ks[j], ks[i]
	}
	for len(ks) > 0 {
		k := len(ks)
		if split && k > 1 {
			k = 1 + r.n(k)
		}
		groups = append(groups, ks[:k])
		ks = ks[k:]
	}
	if len(groups) > 1 {
		r.S.Count("answer-split")
	}
	var out []*Msg
	if self == nil {
		for _, g := range groups {
			m := &Msg{}
			for _, e := range g {
				a := announce(e)
				a.Qual = style != 1
				m.Elems = append(m.Elems, a)
			}
			out = append(out, m)
		}
		if len(out) == 0 {
			out = append(out, &Msg{NoCollection: r.n(2) == 1})
		}
		return out
	}
	if len(groups) == 0 {
		groups = [][]*Elem{nil}
	}
	for i, g := range groups {
		m := &Msg{}
		if style == 0 && len(g) > 0 && self.Kind != KMatrix {
			for _, e := range g {
				a := announce(e)
				a.Qual = true
				m.Elems = append(m.Elems, a)
			}
			out = append(out, m)
			continue
		}
		a := announce(self)
		if i > 0 || (len(g) > 0 && self.Kind != KMatrix && r.n(2) == 1) {
			a = bare(self)
		}
		for _, e := range g {
			k := announce(e)
			k.Qual = false
			a.Kids = append(a.Kids, k)
		}
		if len(g) == 0 && r.n(4) == 3 {
			a.HasK = true
		}
		if style == 2 || style == 0 {
			a.Qual = true
			m.Elems = []*Elem{a}
		} else {
			m.Elems = []*Elem{t.chain(a)}
		}
		out = append(out, m)
	}
	return out
}

// keepNoise posts keep-alive frames now and then.
func (p *Peer) keepNoise(prob int) {
	r := p.r
	if prob > 0 && r.n(prob) == prob-1 {
		if r.n(2) == 0 {
			p.post(s101KeepAliveReq(), 0, nil)
			r.S.Count("keepalive-request")
		} else {
			p.post(s101KeepAliveResp(), 0, nil)
		}
	}
}

// paths lists all element paths of t in a fixed order.
func (t *Tree) paths() [][]int32 {
	var out [][]int32
	for _, e := range t.all() {
		out = append(out, e.Path)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// group runs goroutines of the application and waits for them.
type group struct {
	r    *Run
	left int
}

func (g *group) spawn(name string, fn func()) {
	g.left++
	g.r.S.Spawn(name, func() {
		fn()
		g.left--
	})
}

// wait fails the run as hung if the goroutines do not end; their calls have their own watchdogs.
func (g *group) wait(bound int64) {
	if !g.r.waitFor(bound, func() bool { return g.left == 0 }) {
		g.r.Fail("blocked:app", "application goroutines did not finish within %d ms", bound/ms)
	}
}
