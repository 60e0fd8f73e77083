// Package simrt is the deterministic simulator runtime: coroutine goroutines under a seeded
// scheduler, virtual time, simulated channels and locks, a happens-before race detector and
// allocation/step guards. The instrumented copy of the library calls it.
package simrt

// Stream identifies one family of decisions on the tape.
type Stream int

const (
	Plan  Stream = iota // workload and fault generation
	Sched               // who runs next when the running goroutine blocks, select order
	Net                 // segmentation, latency, short reads
	Map                 // map iteration order
	NStreams
)

// Preempt is one involuntary context switch: at step Step the running goroutine is
// suspended; Pick chooses the next one; Stall (ns) keeps the suspended one from running.
type Preempt struct {
	Step  int64
	Pick  uint32
	Stall int64
}

// Tape is the full record of the decisions of one run. Zero always means the benign default.
type Tape struct {
	Vals     [NStreams][]uint32
	Preempts []Preempt
}

func (t *Tape) Clone() *Tape {
	c := &Tape{}
	for i := range t.Vals {
		c.Vals[i] = append([]uint32(nil), t.Vals[i]...)
	}
	c.Preempts = append([]Preempt(nil), t.Preempts...)
	return c
}

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// Chooser hands out decisions, drawing them from a seed or from a recorded tape.
type Chooser struct {
	replay bool
	tape   *Tape
	pos    [NStreams]int
	rngs   [NStreams]rng
	prng   rng
	ppos   int
}

func NewSeeded(seed uint64) *Chooser {
	c := &Chooser{tape: &Tape{}}
	base := rng{s: seed}
	for i := range c.rngs {
		c.rngs[i] = rng{s: base.next()}
	}
	c.prng = rng{s: base.next()}
	return c
}

func NewReplay(t *Tape) *Chooser { return &Chooser{replay: true, tape: t} }

func (c *Chooser) Tape() *Tape { return c.tape }

// Choose returns a value in [0,n). 0 is the benign default.
func (c *Chooser) Choose(st Stream, n int) int {
	if n <= 1 {
		return 0
	}
	if c.replay {
		p := c.pos[st]
		c.pos[st]++
		if p >= len(c.tape.Vals[st]) {
			return 0
		}
		return int(c.tape.Vals[st][p]) % n
	}
	v := c.rngs[st].intn(n)
	c.tape.Vals[st] = append(c.tape.Vals[st], uint32(v))
	return v
}
