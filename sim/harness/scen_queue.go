package main

import (
	"fmt"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
)

// ---- C13: a full send queue ----

type queued struct {
	path     string
	inv, ret int64
	refused  bool
	tree     bool
	cb       *CB
}

func mainC13(r *Run) {
	par := r.netParams()
	par.Window = []int{4096, 512, 200, 1500}[r.n(4)]
	c := r.newClient(9000, par)
	t := r.tree(3+r.n(10), 4, 1)
	T := []int{0, 0, 50, 400, 30000}[r.n(5)]
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	paths := t.paths()
	c.SetTimeout(T)
	trees := r.n(4) == 3 // accepted retrievals make requests of their own
	var all []*queued
	var seq int64
	// g of ng goroutines: each has elements of its own, so that equal requests are made one after the other
	request := func(name string, g, ng int) *queued {
		q := &queued{cb: r.cb(name)}
		var le *embertree.Element
		var mine [][]int32
		for i := g; i < len(paths); i += ng {
			mine = append(mine, paths[i])
		}
		if g == 0 && (r.n(12) == 11 || len(mine) == 0) {
			q.tree = trees && r.n(3) == 2
		} else {
			path := mine[r.n(len(mine))]
			q.path = pathStr(path)
			le = c.elem(path)
		}
		all = append(all, q)
		q.inv = seq
		seq++
		var err liberr.Error
		at, base := r.S.Now(), r.held()
		r.call("GetDirectory", 1*sec, func() {
			if q.tree {
				err = c.GetTree(q.cb)
			} else {
				err = c.GetDirectory(le, q.cb)
			}
		})
		q.ret = seq
		seq++
		q.refused = err != nil
		if d := r.S.Now() - at - (r.held() - base); q.refused && d > 300*ms {
			r.Fail("slow-refusal", "a request was refused only after %.1f ms", float64(d)/1e6)
		}
		return q
	}
	cycles := 1 + r.n(3)
	refusals := 0
	insist := 20
	if r.n(20) == 19 {
		insist = 300
	}
	for cy := 0; cy < cycles; cy++ {
		p := c.peer()
		base := len(p.reqs)
		p.pause = true
		r.S.Count("peer-paused")
		r.sleep(2 * ms)
		ng := min(1+r.n(3), len(paths))
		from := len(all)
		g := &group{r: r}
		waiting := 0 // accepted since the provider stopped
		for i := 0; i < ng; i++ {
			slow := r.n(4) == 3
			g.spawn(fmt.Sprintf("fill%d", i), func() {
				refused := 0
				for k := 0; refused < 1+insist/ng; k++ {
					if request(fmt.Sprintf("c%df%d.%d", cy, i, k), i, ng).refused {
						refused++
						r.S.Count("request-refused")
					} else {
						waiting++
					}
					if waiting > 3000 {
						r.Fail("unbounded-queue", "%d requests were accepted although the provider takes no data", waiting)
					}
					if slow && r.n(8) == 7 {
						r.sleep(int64(r.n(20)) * ms)
					}
				}
			})
		}
		g.wait(300 * sec)
		if r.n(3) == 2 {
			r.sleep(int64(r.n(1000)) * ms)
		}
		for k := r.n(8); k > 0; k-- { // still full
			q := request(fmt.Sprintf("c%dfull", cy), 0, 1)
			if !q.refused {
				waiting++
			} else {
				r.S.Count("request-refused")
			}
		}
		for _, q := range all[from:] {
			if q.refused {
				refusals++
			}
		}
		if !trees && r.n(5) == 4 { // the connection ends with the queue full
			r.S.Count("disconnect-while-full")
			r.call("Disconnect", 1*sec, func() { c.Disconnect() })
			p.gone, p.pause = true, false
			if r.n(2) == 1 {
				r.sleep(int64(r.n(200)) * ms)
			}
			c.SetTimeout(0)
			c.connect()
			c.fetchRoot(encMsg(r.form(), t.wholeMsg()))
			c.SetTimeout(T)
			continue
		}
		// the provider takes data again
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if r.n(6) == 5 {
				for _, m := range r.answers(t, path, r.n(3), false) {
					p.postMsg(encMsg(r.form(), m), 0, nil)
				}
			}
		}
		p.pause = false
		acc := all[from:]
		want := 0
		for _, q := range acc {
			if !q.refused {
				want++
			}
		}
		bound := 10*sec + int64(want*40/par.Window+1)*(2*par.LatMax+30*ms)
		if !r.waitFor(bound, func() bool { return len(p.reqs)-base >= want }) {
			r.Fail("request-lost", "after the provider took data again %d of %d accepted requests arrived within %.1f s", len(p.reqs)-base, want, float64(bound)/1e9)
		}
		if !trees {
			r.sleep(200 * ms)
			inOrder(r, acc, p.reqs[base:])
		}
		// and new requests are accepted
		before := len(p.reqs)
		if !r.waitFor(bound, func() bool { return !request(fmt.Sprintf("c%dnew", cy), 0, 1).refused }) {
			r.Fail("still-refused", "requests are still refused %.1f s after the provider took data again", float64(bound)/1e9)
		}
		if !r.waitFor(5*sec, func() bool { return len(p.reqs) > before }) {
			r.Fail("request-lost", "a request accepted after the queue drained did not arrive")
		}
		p.onReq = nil
		c.settle(20 * sec)
	}
	r.sleep(min(int64(T), 500)*ms + 100*ms)
	for _, q := range all {
		if q.refused && len(q.cb.calls) > 0 {
			k := q.cb.calls[0]
			r.Fail("refused-called", "the callback of a refused request for [%s] was called (error %q)", q.path, k.err)
		}
	}
	r.note("%d cycles, %d requests, %d refused", cycles, len(all), refusals)
	r.nontrivial = refusals > 0
}

// inOrder compares what arrived with what was accepted.
func inOrder(r *Run, made []*queued, got []reqRec) {
	var acc []*queued
	for _, q := range made {
		if !q.refused {
			acc = append(acc, q)
		}
	}
	count := map[string]int{}
	for _, q := range acc {
		count[q.path]++
	}
	for _, q := range got {
		count[pathStr(q.path)]--
	}
	for _, k := range sortedKeys(count) {
		if count[k] > 0 {
			r.Fail("request-lost", "%d accepted requests for [%s] did not arrive", count[k], k)
		}
		if count[k] < 0 {
			r.Fail("refused-sent", "%d requests for [%s] arrived beyond those that were accepted", -count[k], k)
		}
	}
	// Equal requests do not overlap, so their order of arrival is their order of invocation.
	next := map[string][]int{}
	for i, q := range got {
		next[pathStr(q.path)] = append(next[pathStr(q.path)], i)
	}
	pos := make([]int, len(acc))
	for i, q := range acc { // acc is in the order of invocation
		pos[i] = next[q.path][0]
		next[q.path] = next[q.path][1:]
	}
	last := -1 // the largest position of requests that returned before
	j := 0
	byRet := append([]*queued(nil), acc...)
	idx := map[*queued]int{}
	for i, q := range acc {
		idx[q] = i
	}
	for i := 1; i < len(byRet); i++ {
		for k := i; k > 0 && byRet[k].ret < byRet[k-1].ret; k-- {
			byRet[k], byRet[k-1] = byRet[k-1], byRet[k]
		}
	}
	for i, q := range acc {
		for j < len(byRet) && byRet[j].ret < q.inv {
			if x := pos[idx[byRet[j]]]; x > last {
				last = x
			}
			j++
		}
		if pos[i] < last {
			r.Fail("request-order", "the request for [%s] arrived before one that was accepted earlier", q.path)
		}
	}
}

// ---- C15: finished work releases its resources ----

type census struct{ live, timers int }

func (r *Run) census() census { return census{r.live(), r.timers()} }

// idleCensus is the most that is seen while the client is idle.
func (r *Run) idleCensus() census {
	var m census
	for i := 0; i < 8; i++ {
		n := r.census()
		m.live = max(m.live, n.live)
		m.timers = max(m.timers, n.timers)
		r.sleep(37 * ms)
	}
	return m
}

// released waits until no more is in use than base.
func (r *Run) released(bound int64, base census, class, what string) {
	if !r.waitFor(bound, func() bool { n := r.census(); return n.live <= base.live && n.timers <= base.timers }) {
		n := r.census()
		r.Fail(class, "%s: %d goroutines and %d timers of the library remain, %d and %d when idle", what, n.live, n.timers, base.live, base.timers)
	}
}

func mainC15(r *Run) {
	if r.n(6) == 5 {
		mainC15mem(r)
		return
	}
	par := r.netParams()
	c := r.newClient(9000, par)
	t := r.tree(3+r.n(12), 4, 1)
	for _, e := range t.all() {
		e.HasC = true
	}
	r.sleep(10 * ms)
	if n := r.census(); n.live != 0 || n.timers != 0 {
		r.Fail("before-connect", "a new client runs %d goroutines and %d timers", n.live, n.timers)
	}
	c.bootstrap(encMsg(r.form(), t.wholeMsg()))
	c.settle(5 * sec)
	r.sleep(250 * ms)
	base := r.idleCensus()
	paths := t.paths()
	rtt := 2*par.LatMax + 100*ms
	longest := 0
	total := 0
	var p *Peer
	for round := 1 + r.n(4); round > 0; round-- {
		p = c.peer()
		mode := r.n(5)
		T := 30000
		if mode == 1 || mode == 4 {
			T = []int{20, 100, 400}[r.n(3)]
		}
		if mode == 3 && r.n(2) == 1 {
			T = 0
		}
		c.SetTimeout(T)
		n := 1 + r.n(60)
		var cbs []*CB
		open := 0
		ignore := func() bool { return mode == 1 || mode == 4 && r.n(2) == 1 }
		p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
			if ignore() {
				return
			}
			for _, m := range r.answers(t, path, r.n(3), false) {
				p.postMsg(encMsg(r.form(), m), 0, nil)
			}
		}
		request := func(i int) {
			var le *embertree.Element
			if r.n(10) < 9 {
				le = c.elem(paths[r.n(len(paths))])
			}
			cb := r.cb(fmt.Sprintf("r%d.%d", round, i))
			var err liberr.Error
			r.call("GetDirectory", 1*sec, func() { err = c.GetDirectory(le, cb) })
			total++
			if err == nil {
				cbs = append(cbs, cb)
			} else {
				open--
				r.S.Count("request-refused")
				r.refusals++
			}
			if le != nil && r.n(4) == 3 {
				defer le.RemoveListener(nil)
			}
		}
		switch mode {
		case 0, 1, 4: // answered, ignored, some of both
			r.S.Count([]string{"stream-answered", "stream-ignored", "", "", "stream-mixed"}[mode])
			g := &group{r: r}
			for k := 1 + r.n(2); k > 0; k-- {
				g.spawn("stream", func() {
					for i := 0; i < n; i++ {
						request(i)
						if r.n(3) == 2 {
							r.sleep(int64(r.n(10)) * ms)
						}
					}
				})
			}
			g.wait(60 * sec)
			bound := int64(n)*60*ms + 5*sec
			if mode != 0 {
				bound += int64(T) * ms
			}
			if !r.waitFor(bound, func() bool {
				for _, cb := range cbs {
					if len(cb.calls) == 0 {
						return false
					}
				}
				return true
			}) {
				r.Fail("not-finished", "requests of a stream (kind %d) were neither answered nor timed out within %.1f s", mode, float64(bound)/1e9)
			}
		case 2: // refused ones
			p.pause = true
			r.S.Count("stream-refused")
			r.sleep(2 * ms)
			T = 100
			c.SetTimeout(T)
			from := r.refusals
			for i := 0; i < 1200 && r.refusals < from+20; i++ {
				request(i)
			}
			p.pause = false
			r.sleep(int64(T)*ms + 5*sec)
		case 3: // the tree
			r.S.Count("stream-trees")
			for i := 1 + r.n(3); i > 0; i-- {
				cb := r.cb("tree")
				var err liberr.Error
				r.call("GetTree", 1*sec, func() { err = c.GetTree(cb) })
				if err == nil {
					if !r.waitFor(int64(len(paths)+1)*(rtt+50*ms)+5*sec, func() bool { return len(cb.calls) > 0 }) {
						r.Fail("not-finished", "a tree retrieval from a responsive provider did not complete")
					}
				}
				total++
			}
		}
		longest = max(longest, T)
		r.released(500*ms+rtt, base, "leak", fmt.Sprintf("after %d requests (kind %d, timeout %d ms) are finished", total, mode, T))
		if r.n(3) == 2 && round > 1 { // between two connections
			r.S.Count("reconnect")
			r.call("Disconnect", 1*sec, func() { c.Disconnect() })
			p.gone = true
			r.released(1*sec, census{}, "leak-disconnected", "after Disconnect with all requests finished")
			c.SetTimeout(0)
			c.connect()
			c.fetchRoot(encMsg(r.form(), t.wholeMsg()))
			c.settle(5 * sec)
			r.sleep(200 * ms)
		}
	}
	c.settle(5 * sec)
	// idle: it waits
	cc := c.conns[len(c.conns)-1]
	reads, steps, at := cc.Reads, r.S.Steps(), r.S.Now()
	r.sleep(10 * sec)
	if n := cc.Reads - reads; n > 20000 {
		r.Fail("spinning", "an idle client read %d times in 10 s", n)
	}
	if n := r.S.Steps() - steps; n > 5_000_000 && !r.multi {
		r.Fail("spinning", "an idle client made %d steps in 10 s", n)
	}
	if cc.Closed() {
		r.Fail("idle-closed", "the connection of an idle client was closed")
	}
	_ = at
	// the end, with requests open
	p = c.peer()
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {}
	T := []int{0, 50, 1000, 30000}[r.n(4)]
	c.SetTimeout(T)
	for k := r.n(20); k > 0; k-- {
		le := c.elem(paths[r.n(len(paths))])
		r.call("GetDirectory", 1*sec, func() { c.GetDirectory(le, r.cb("open")) })
	}
	if r.n(2) == 1 {
		r.sleep(int64(r.n(150)) * ms)
	}
	longest = max(longest, T)
	how := r.n(3)
	switch how {
	case 0:
		r.call("Disconnect", 1*sec, func() { c.Disconnect() })
	case 1:
		p.gone = true
		r.S.Count("net-fin")
		p.c.Close()
	case 2:
		p.gone = true
		p.c.Reset()
	}
	if !r.waitFor(2*sec, func() bool { return cc.Closed() }) {
		r.Fail("not-closed", "the connection is still open 2 s after its end (kind %d)", how)
	}
	steps = r.S.Steps()
	r.sleep(2 * sec)
	if n := r.S.Steps() - steps; n > 2_000_000 && !r.multi {
		r.Fail("spinning", "a disconnected client made %d steps in 2 s", n)
	}
	r.sleep(int64(T) * ms)
	r.released(1*sec, census{}, "leak-disconnected", "after the connection ended and all requests are settled")
	r.note("%d requests, baseline %d goroutines %d timers", total, base.live, base.timers)
	r.nontrivial = total > 0
}
