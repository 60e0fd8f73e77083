package simrt

import "container/heap"

type evHeap []*event

func (h evHeap) Len() int { return len(h) }
func (h evHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h evHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].index = i; h[j].index = j }
func (h *evHeap) Push(x any)   { e := x.(*event); e.index = len(*h); *h = append(*h, e) }
func (h *evHeap) Pop() any {
	o := *h
	e := o[len(o)-1]
	*h = o[:len(o)-1]
	e.index = -1
	return e
}

// Event is a handle to a scheduled event.
type Event = event

func (s *Sim) at(t int64, lib bool, fn func()) *event {
	s.evseq++
	e := &event{at: t, seq: s.evseq, fn: fn, lib: lib, tag: s.CurTag()}
	if lib {
		s.LibTimers++
		s.TimersOf[e.tag]++
	}
	h := evHeap(s.heap)
	heap.Push(&h, e)
	s.heap = h
	if e.index == 0 {
		s.recalc()
	}
	return e
}

// At schedules fn at virtual time t.
func (s *Sim) At(t int64, fn func()) *Event { return s.at(t, false, fn) }

// AtLib schedules a library timer.
func (s *Sim) AtLib(t int64, fn func()) *Event { return s.at(t, true, fn) }

// Cancel removes the event; false if it already fired.
func (s *Sim) Cancel(e *Event) bool {
	if e == nil || e.index < 0 {
		return false
	}
	h := evHeap(s.heap)
	heap.Remove(&h, e.index)
	s.heap = h
	e.index = -1
	if e.lib {
		s.LibTimers--
		s.TimersOf[e.tag]--
	}
	return true
}

func (s *Sim) fireDue() {
	for len(s.heap) > 0 && s.heap[0].at <= s.Now() && !s.killing {
		h := evHeap(s.heap)
		e := heap.Pop(&h).(*event)
		s.heap = h
		if e.lib {
			s.LibTimers--
			s.TimersOf[e.tag]--
		}
		s.Mix(uint64(e.seq)<<8 | 3)
		s.firing, s.evTag = true, e.tag
		e.fn()
		s.firing = false
	}
}

// PendingEvents is the number of scheduled events.
func (s *Sim) PendingEvents() int { return len(s.heap) }
