package main

import (
	"reflect"
	"strings"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C15: memory ----

// holds estimates the bytes the library's objects vs keep reachable; objects of the harness and
// of the simulator are not followed.
func holds(vs ...any) int64 {
	type key struct {
		p uintptr
		t reflect.Type
		n int
	}
	seen := map[key]bool{}
	var total int64
	var walk func(v reflect.Value)
	foreign := func(t reflect.Type) bool {
		p := t.PkgPath()
		return p == "main" || strings.HasPrefix(p, "simrt")
	}
	walk = func(v reflect.Value) {
		if !v.IsValid() || foreign(v.Type()) {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || foreign(v.Type().Elem()) {
				return
			}
			k := key{v.Pointer(), v.Type(), 0}
			if seen[k] {
				return
			}
			seen[k] = true
			total += int64(v.Type().Elem().Size())
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				e := v.Elem()
				if k := e.Kind(); k != reflect.Ptr && k != reflect.Map && k != reflect.Func && k != reflect.Chan {
					total += int64(e.Type().Size())
				}
				walk(e)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			k := key{v.Pointer(), v.Type(), v.Cap()}
			if v.Cap() > 0 && seen[k] {
				return
			}
			seen[k] = true
			total += int64(v.Cap()) * int64(v.Type().Elem().Size())
			switch v.Type().Elem().Kind() {
			case reflect.Ptr, reflect.Interface, reflect.Struct, reflect.Slice, reflect.Map, reflect.String, reflect.Array:
				// also what lies before and behind is kept, but only what is in use can be seen
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.String:
			total += int64(v.Len())
		case reflect.Map:
			if v.IsNil() {
				return
			}
			k := key{v.Pointer(), v.Type(), 0}
			if seen[k] {
				return
			}
			seen[k] = true
			it := v.MapRange()
			for it.Next() {
				total += int64(v.Type().Key().Size() + v.Type().Elem().Size())
				walk(it.Key())
				walk(it.Value())
			}
		}
	}
	for _, v := range vs {
		walk(reflect.ValueOf(v))
	}
	return total
}

// flipBit damages one byte within a frame.
func flipBit(r *Run, f []byte) []byte {
	f = append([]byte(nil), f...)
	for k := 0; k < 1000; k++ {
		i, b := 1+r.n(len(f)-2), byte(1)<<uint(r.n(8))
		if f[i] < 0xF0 && f[i]^b < 0xF0 && f[i-1] < 0xF8 {
			f[i] ^= b
			return f
		}
	}
	return f[:len(f)-2]
}

// mainC15mem repeats the same work in batches, with the same callbacks, and watches what the client holds.
func mainC15mem(r *Run) {
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(3+r.n(8), 3, 1)
	for _, e := range t.all() {
		e.HasC = true
	}
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	c.settle(5 * sec)
	p := c.peer()
	paths := t.paths()
	style := r.n(3)
	kind := r.n(9)
	ignore := false
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		if ignore {
			return
		}
		for _, m := range r.answers(t, path, style, false) {
			p.postMsg(encMsg(r.form(), m), 0, nil)
		}
	}
	root := r.cb("root")
	cbs := map[string]*CB{}
	for _, q := range paths {
		cbs[pathStr(q)] = r.cb(pathStr(q))
		c.elem(q).AddListener(cbs[pathStr(q)]) // as a request for it would
	}
	c.root.AddListener(root)
	accepted := 0
	request := func() {
		var le *embertree.Element
		cb := root
		if r.n(8) > 0 {
			q := paths[r.n(len(paths))]
			le, cb = c.elem(q), cbs[pathStr(q)]
		}
		r.call("GetDirectory", 1*sec, func() {
			if c.GetDirectory(le, cb) == nil {
				accepted++
			}
		})
	}
	K := 40 + r.n(40)
	batch := func() {
		from := len(p.reqs)
		accepted = 0
		switch kind {
		case 0: // answered
			c.SetTimeout([]int{0, 3000}[K%2])
			for i := 0; i < K; i++ {
				request()
			}
		case 1: // timed out
			ignore = true
			c.SetTimeout(40)
			for i := 0; i < K; i++ {
				request()
			}
			r.sleep(60 * ms)
		case 2: // the tree
			c.SetTimeout(5000)
			for i := 0; i < K/10; i++ {
				n := len(root.calls)
				r.call("GetTree", 1*sec, func() { c.GetTree(root) })
				if !r.waitFor(int64(len(paths)+1)*(2*par.LatMax+150*ms)+5*sec, func() bool { return len(root.calls) > n }) {
					r.Fail("not-finished", "a tree retrieval from a responsive provider did not complete")
				}
			}
		case 3: // keep-alives and updates
			es := t.all()
			for i := 0; i < K; i++ {
				if i%2 == 0 {
					p.post(s101KeepAliveReq(), 0, nil)
				} else {
					e := es[r.n(len(es))].clone(false)
					e.Qual = true
					p.postMsg(encMsg(r.form(), &Msg{Elems: []*Elem{e}}), 0, nil)
				}
			}
		case 4: // listeners come and go
			for i := 0; i < K; i++ {
				q := paths[r.n(len(paths))]
				cb := r.cb("passing")
				e := c.elem(q)
				e.AddListener(cb)
				c.root.AddListener(cb)
				e.RemoveListener(cb)
				c.root.RemoveListener(cb)
			}
		case 5: // refused
			p.pause = true
			c.SetTimeout(100)
			var err liberr.Error
			for i := 0; i < 700 && err == nil; i++ {
				q := paths[r.n(len(paths))]
				r.call("GetDirectory", 1*sec, func() { err = c.GetDirectory(c.elem(q), cbs[pathStr(q)]) })
				if err == nil {
					accepted++
				}
			}
			for i := 0; i < K; i++ {
				request()
			}
			p.pause = false
			r.sleep(1 * sec)
		case 7: // damaged frames and malformed messages
			for i := 0; i < K; i++ {
				m := &Msg{Elems: []*Elem{{Path: []int32{1 << 20, int32(i)}, Kind: KNode, Qual: true, Conns: map[int32]Conn{}}}}
				b := encMsg(r.form(), m)
				switch fr := s101Split(b, 1024, false); i % 3 {
				case 0:
					p.postMsg(b[:len(b)-1-r.n(len(b)-1)], 0, nil)
				case 1:
					p.post(flipBit(r, fr[0]), 0, nil)
				case 2:
					p.postMsg(b, 0, nil)
				}
			}
		case 6, 8: // sessions
			for i := 0; i < 1+K/12; i++ {
				c.SetTimeout(50)
				request()
				if kind == 6 {
					r.call("Disconnect", 1*sec, func() { c.Disconnect() })
					p.gone = true
				} else {
					p.gone = true
					if i%2 == 0 {
						p.c.Reset()
					} else {
						p.c.Close()
					}
					if !r.waitFor(10*sec, func() bool { return !c.connected() }) {
						r.Fail("not-noticed", "the client did not notice within 10 s that the peer ended the connection")
					}
				}
				r.sleep(200 * ms)
				if i%3 == 2 {
					c.ep.Refuse = true
					r.call("Connect", 10*sec, func() { c.Connect(c.addr, c.port) })
					c.ep.Refuse = false
				}
				c.connect()
				onReq := p.onReq
				p = c.peer()
				p.onReq = onReq
			}
		}
		// what is still queued is not finished
		if kind < 2 || kind == 5 {
			if !r.waitFor(60*sec, func() bool { return len(p.reqs)-from >= accepted }) {
				r.Fail("request-lost", "only %d of %d accepted requests arrived within 60 s", len(p.reqs)-from, accepted)
			}
		}
		c.settle(20 * sec)
		r.sleep(400 * ms)
		c.settle(20 * sec)
	}
	ops := int64(K) // in one batch
	switch kind {
	case 2:
		ops = int64(K / 10)
	case 6, 8:
		ops = int64(1 + K/12)
	}
	// growth has to go on, as something that is doubled now and then would grow
	h := []int64{}
	for i, to := range []int{2, 6, 18} {
		for b := []int{0, 2, 6}[i]; b < to; b++ {
			batch()
		}
		h = append(h, holds(append(libraryVars(), c.S101Client)...))
		// what is doubled when full grows by half as much as is kept at least
		if i == 1 && h[1]-h[0] < ops*8*2 || i == 2 && (h[2]-h[1] < ops*8*6 || h[2]-h[1] < (h[1]-h[0])*6/10) {
			break
		}
		if i == 2 {
			r.Fail("memory", "the client holds ever more memory, about %v bytes after 2, 6 and 18 batches of the same %d operations (kind %d)", h, K, kind)
		}
	}
	r.S.Count("memory-batches")
	r.note("memory held after batches of %d operations of kind %d", K, kind)
	r.nontrivial = true
}
