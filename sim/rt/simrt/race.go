package simrt

import (
	"fmt"
	"sort"
	"unsafe"
)

// VC is a vector clock indexed by goroutine id.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v *VC) grow(n int) {
	for len(*v) <= n {
		*v = append(*v, 0)
	}
}

func (v *VC) inc(id int) { v.grow(id); (*v)[id]++ }

func (v *VC) join(o VC) {
	v.grow(len(o) - 1)
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) get(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

type shadowKey struct {
	p  unsafe.Pointer
	sz uintptr
}

type access struct {
	g    int
	clk  uint32
	site int
}

type cell struct {
	w     access
	reads []access
}

type mapCell struct{ cell }

// SiteNames maps site ids to source positions (set by generated code).
var SiteNames []string

func siteName(i int) string {
	if i >= 0 && i < len(SiteNames) {
		return SiteNames[i]
	}
	return fmt.Sprintf("site%d", i)
}

func (s *Sim) check(c *cell, write bool, site int) {
	g := s.cur
	hb := func(a access) bool { return a.g == 0 || a.g == g.ID || a.clk <= g.vc.get(a.g) }
	if !hb(c.w) {
		s.race(c.w, true, write, site)
	}
	if write {
		for _, r := range c.reads {
			if !hb(r) {
				s.race(r, false, true, site)
			}
		}
		c.reads = c.reads[:0]
		c.w = access{g.ID, g.vc.get(g.ID), site}
		return
	}
	for i := range c.reads {
		if c.reads[i].g == g.ID {
			c.reads[i] = access{g.ID, g.vc.get(g.ID), site}
			return
		}
	}
	c.reads = append(c.reads, access{g.ID, g.vc.get(g.ID), site})
}

func (s *Sim) race(prev access, prevWrite, write bool, site int) {
	k := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	if s.Cfg.CrossRace && s.tags[prev.g] == s.cur.Tag {
		return
	}
	names := []string{k(prevWrite) + " " + siteName(prev.site), k(write) + " " + siteName(site)}
	pg := ""
	for _, g := range s.gs {
		if g.ID == prev.g {
			pg = g.Name
		}
	}
	msg := fmt.Sprintf("data race: %s by %s, unordered with %s by %s", names[0], pg, names[1], s.cur.Name)
	sort.Strings(names)
	s.Fail("race", msg+"\n"+stackOf())
}

func R[T any](p *T, site int) *T {
	s := S
	if s == nil || s.quiet > 0 {
		return p
	}
	s.steps++
	if s.steps >= s.nextSlow {
		s.slow()
	}
	if s.shadow != nil && s.cur != nil && !s.killing {
		s.shadowCheck(unsafe.Pointer(p), unsafe.Sizeof(*p), false, site)
	}
	return p
}

func W[T any](p *T, site int) *T {
	s := S
	if s == nil || s.quiet > 0 {
		return p
	}
	s.steps++
	if s.steps >= s.nextSlow {
		s.slow()
	}
	if s.shadow != nil && s.cur != nil && !s.killing {
		s.shadowCheck(unsafe.Pointer(p), unsafe.Sizeof(*p), true, site)
	}
	return p
}

func (s *Sim) shadowCheck(p unsafe.Pointer, sz uintptr, write bool, site int) {
	if p == nil || sz == 0 {
		return
	}
	k := shadowKey{p, sz}
	c := s.shadow[k]
	if c == nil {
		c = &cell{}
		s.shadow[k] = c
	}
	s.check(c, write, site)
}

func mapAcc(m any, p unsafe.Pointer, write bool, site int) {
	s := S
	if s == nil || s.quiet > 0 {
		return
	}
	s.steps++
	if s.steps >= s.nextSlow {
		s.slow()
	}
	if s.shadow == nil || s.cur == nil || s.killing || p == nil {
		return
	}
	s.shadowCheck(p, ^uintptr(0), write, site)
}

// MR marks a read of a map, MW a write.
func MR[M ~map[K]V, K comparable, V any](m M, site int) M {
	mapAcc(nil, *(*unsafe.Pointer)(unsafe.Pointer(&m)), false, site)
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M, site int) M {
	mapAcc(nil, *(*unsafe.Pointer)(unsafe.Pointer(&m)), true, site)
	return m
}

// SyncObj is the clock of a lock-like object.
type SyncObj struct{ vc VC }

func (o *SyncObj) Acquire() { S.acquire(o.vc) }
func (o *SyncObj) Release() {
	if S.Cfg.Race && S.cur != nil {
		o.vc.join(S.cur.vc)
		S.cur.vc.inc(S.cur.ID)
	}
}
