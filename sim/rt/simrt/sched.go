package simrt

import (
	"fmt"
	"iter"
	"runtime"
	"strings"
)

const (
	StepCost = 20 // virtual nanoseconds per step
	never    = int64(1) << 62
)

// Config are the per-run scheduler parameters (chosen by the harness from the plan stream).
type Config struct {
	GapMean     int   // mean steps between preemptions; 0 = only at blocking points
	SyncGap     int   // mean synchronising operations between preemptions right before one; 0 = none
	StallProb   int   // of 1000 preemptions, how many stall the suspended goroutine
	ArmProb     int   // of 1000 calls of the library, how many have it held up at some later synchronising operation
	StallMax    int64 // ns
	StallBudget int64 // number of stalls per run
	RandomPick  bool  // random choice among runnable goroutines when one blocks
	Race        bool  // happens-before race detection
	CrossRace   bool  // only races between goroutines of different tags
	BurstBudget int64 // steps one goroutine may run without ever blocking
	StepBudget  int64 // total steps of the run
	AllocLimit  int64 // bytes of a single make
	ReadSlack   int64 // ns by which read deadlines fire late
	Trace       bool
}

type Violation struct {
	Class string // stable identity of what failed (used by the minimiser and known findings)
	Msg   string
	At    int64
	Tag   int // of the goroutine that failed
}

type killT struct{}

var kill = killT{}

type event struct {
	at    int64
	seq   int64
	fn    func()
	index int
	lib   bool // timer owned by the library
	tag   int  // of the goroutine that scheduled it
}

// G is one simulated goroutine.
type G struct {
	ID       int
	Name     string
	Lib      bool
	Tag      int // inherited from the goroutine that started this one
	next     func() (struct{}, bool)
	stop     func()
	yield    func(struct{}) bool
	runnable bool
	done     bool
	burst    int64
	vc       VC
	wake     any
	sel      *selectWait
	Blocked  string
	parked   bool
	stalled  bool // parked by a stall
}

type Sim struct {
	C          *Chooser
	Cfg        Config
	gs         []*G
	runq       []*G
	cur        *G
	steps      int64
	nextSlow   int64
	nextPre    int64
	prePick    uint32
	preStall   int64
	tbase      int64 // virtual time = tbase + steps*StepCost
	heap       []*event
	evseq      int64
	quiet      int
	killing    bool
	stopping   bool
	Viol       *Violation
	HarnessErr string
	handoff    *G
	ngs        int
	chans      map[uintptrKey]*Chan
	keyIDs     map[any]int64
	nextKey    int64
	shadow     map[shadowKey]*cell
	Hash       uint64
	Switches   int64
	stalled    []int64 // ends of stalls
	syncLeft   int
	armed      int
	armStall   int64
	armTag     int
	Preempted  int64
	MaxBurst   int64 // most steps of one goroutine without blocking
	Stalls     int64
	StallTotal int64 // ns
	trace      []string
	LibLive    int
	LiveOf     [32]int // by tag
	TimersOf   [32]int
	tags       []int // by goroutine
	evTag      int
	firing     bool
	LibTimers  int
	Net        any // simnet state
	Counters   map[string]int64
	AllocMax   int64
	AllocSum   int64
	races      map[string]bool
	mapShadow  map[any]*mapCell
	globals    map[any]any
}

// S is the running simulation.
var S *Sim

func NewSim(c *Chooser, cfg Config) *Sim {
	s := &Sim{C: c, Cfg: cfg, chans: map[uintptrKey]*Chan{}, keyIDs: map[any]int64{}, Counters: map[string]int64{}, races: map[string]bool{}}
	if s.Cfg.BurstBudget == 0 {
		s.Cfg.BurstBudget = 3_000_000
	}
	if s.Cfg.StepBudget == 0 {
		s.Cfg.StepBudget = 40_000_000
	}
	if cfg.Race {
		s.shadow = map[shadowKey]*cell{}
		s.mapShadow = map[any]*mapCell{}
	}
	s.Hash = 14695981039346656037
	s.nextPre = never
	s.planPreempt()
	s.recalc()
	return s
}

func (s *Sim) Count(k string) { s.Counters[k]++ }

func (s *Sim) Mix(v uint64) {
	s.Hash = (s.Hash ^ v) * 1099511628211
}

func (s *Sim) MixStr(v string) {
	for i := 0; i < len(v); i++ {
		s.Hash = (s.Hash ^ uint64(v[i])) * 1099511628211
	}
}

// Logf appends to the run's trace (only kept when tracing).
func (s *Sim) Logf(format string, a ...any) {
	if s.Cfg.Trace {
		n := "-"
		if s.cur != nil {
			n = s.cur.Name
		}
		s.trace = append(s.trace, fmt.Sprintf("%12.6fms #%d %s: %s", float64(s.Now())/1e6, s.steps, n, fmt.Sprintf(format, a...)))
	}
}

func (s *Sim) TraceLines() []string { return s.trace }

func (s *Sim) Now() int64 { return s.tbase + s.steps*StepCost }

func (s *Sim) planPreempt() {
	c := s.C
	if c.replay {
		for c.ppos < len(c.tape.Preempts) && c.tape.Preempts[c.ppos].Step <= s.steps {
			c.ppos++
		}
		if c.ppos < len(c.tape.Preempts) {
			p := c.tape.Preempts[c.ppos]
			s.nextPre, s.prePick, s.preStall = p.Step, p.Pick, p.Stall
		} else {
			s.nextPre = never
		}
		return
	}
	if s.Cfg.GapMean <= 0 {
		s.nextPre = never
		return
	}
	s.nextPre = s.steps + 1 + int64(c.prng.intn(2*s.Cfg.GapMean))
	s.prePick = uint32(c.prng.intn(1 << 16))
	s.preStall = 0
	if s.Cfg.StallProb > 0 && s.Stalls < s.Cfg.StallBudget && c.prng.intn(1000) < s.Cfg.StallProb {
		s.preStall = 1 + int64(c.prng.next()%uint64(s.Cfg.StallMax))
	}
}

// preemptNow has the running goroutine preempted at the next step.
func (s *Sim) preemptNow(stall int64) {
	s.nextPre = s.steps + 1
	s.prePick = uint32(s.C.prng.intn(1 << 16))
	s.preStall = stall
	s.recalc()
}

// syncPoint runs before every synchronising operation when Cfg.SyncGap is set or a stall is armed.
func (s *Sim) syncPoint() {
	if s.Cfg.SyncGap > 0 {
		s.syncLeft--
		if s.syncLeft <= 0 {
			s.syncLeft = 1 + s.C.prng.intn(2*s.Cfg.SyncGap)
			stall := int64(0)
			if s.Cfg.StallProb > 0 && s.Stalls < s.Cfg.StallBudget && s.C.prng.intn(1000) < s.Cfg.StallProb {
				stall = 1 + int64(s.C.prng.next()%uint64(s.Cfg.StallMax))
			}
			s.preemptNow(stall)
		}
	}
	if s.armed > 0 && s.cur.Lib && s.cur.Tag == s.armTag {
		s.armed--
		if s.armed == 0 {
			s.preemptNow(s.armStall)
		}
	}
}

// StallLeft is how much is still to pass of the stalls which are not over.
func (s *Sim) StallLeft() int64 {
	left, now := int64(0), s.Now()
	on := s.stalled[:0]
	for _, until := range s.stalled {
		if until > now {
			left += until - now
			on = append(on, until)
		}
	}
	s.stalled = on
	return left
}

// MaybeArm arms a stall now and then.
func (s *Sim) MaybeArm() {
	if s.C.replay || s.Cfg.ArmProb == 0 || s.armed > 0 || s.Stalls >= s.Cfg.StallBudget || s.C.prng.intn(1000) >= s.Cfg.ArmProb {
		return
	}
	s.ArmStall(1+s.C.prng.intn(30), 1+int64(s.C.prng.next()%uint64(s.Cfg.StallMax)))
}

// ReleaseStalls ends all stalls now.
func (s *Sim) ReleaseStalls() {
	for _, g := range s.gs {
		if g.stalled {
			s.ready(g)
		}
	}
	s.stalled = s.stalled[:0]
}

// ArmStall stalls the goroutine of the library (started by this run) which makes the k-th synchronising
// operation from now, right before that, for the time given.
func (s *Sim) ArmStall(k int, stall int64) {
	if !s.C.replay { // a replay has it on its tape
		s.armed, s.armStall, s.armTag = k, stall, s.CurTag()
	}
}

func (s *Sim) recalc() {
	n := s.nextPre
	if len(s.heap) > 0 {
		due := (s.heap[0].at - s.tbase + StepCost - 1) / StepCost
		if due < n {
			n = due
		}
	}
	if s.Cfg.StepBudget < n {
		n = s.Cfg.StepBudget
	}
	if s.cur != nil {
		if b := s.steps + s.Cfg.BurstBudget - s.cur.burst; b < n {
			n = b
		}
	}
	s.nextSlow = n
}

// Y is a yield point.
func Y() {
	s := S
	if s == nil || s.quiet > 0 {
		return
	}
	s.steps++
	if s.steps >= s.nextSlow {
		s.slow()
	}
}

func (s *Sim) slow() {
	g := s.cur
	if s.killing || g == nil {
		return
	}
	// account burst
	s.accountBurst()
	if g.burst >= s.Cfg.BurstBudget {
		s.Fail("hang", fmt.Sprintf("goroutine %s ran %d steps without blocking or finishing\n%s", g.Name, g.burst, stackOf()))
	}
	if s.steps >= s.Cfg.StepBudget {
		s.Fail("hang", fmt.Sprintf("run exceeded %d steps\n%s", s.steps, stackOf()))
	}
	s.fireDue()
	if s.steps >= s.nextPre {
		pick, stall := s.prePick, s.preStall
		if !s.C.replay {
			// recorded only when it has an effect
			if len(s.runq) > 0 || stall > 0 {
				s.C.tape.Preempts = append(s.C.tape.Preempts, Preempt{s.nextPre, pick, stall})
			}
		}
		effective := len(s.runq) > 0 || stall > 0
		s.planPreempt()
		if effective {
			s.Preempted++
			s.Mix(uint64(g.ID)<<8 | 1)
			if stall > 0 {
				s.Stalls++
				s.StallTotal += stall
				g.parked = true
				until := s.Now() + stall
				s.stalled = append(s.stalled, until)
				g.stalled = true
				s.at(until, false, func() {
					if g.stalled {
						s.ready(g)
					}
				})
			}
			if len(s.runq) > 0 {
				i := int(pick) % len(s.runq)
				s.handoff = s.runq[i]
				s.runq = append(s.runq[:i], s.runq[i+1:]...)
				s.handoff.runnable = false
			}
			if stall == 0 {
				s.runq = append(s.runq, g)
				g.runnable = true
			}
			s.switchOut(g)
			s.recalc()
			return
		}
	}
	s.recalc()
}

var burstMark int64

func (s *Sim) accountBurst() {
	if s.cur != nil {
		s.cur.burst += s.steps - burstMark
		if s.cur.burst > s.MaxBurst {
			s.MaxBurst = s.cur.burst
		}
	}
	burstMark = s.steps
}

func stackOf() string {
	buf := make([]byte, 8192)
	n := runtime.Stack(buf, false)
	return trimStack(string(buf[:n]))
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 1; i+1 < len(lines); i += 2 {
		f := lines[i]
		if strings.Contains(f, "emberlib/") || strings.HasPrefix(f, "main.") {
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, "/"); j >= 0 {
				if k := strings.LastIndex(loc[:j], "/"); k >= 0 {
					loc = loc[k+1:]
				}
			}
			if j := strings.Index(loc, " +0x"); j >= 0 {
				loc = loc[:j]
			}
			if j := strings.Index(f, "("); j > 0 && !strings.HasPrefix(f[j:], "(*") {
				f = f[:j]
			} else if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			out = append(out, f+" "+loc)
			if len(out) > 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// Fail records the first violation and stops the run.
func (s *Sim) Fail(class, msg string) {
	if s.Viol == nil && !s.killing {
		s.Viol = &Violation{Class: class, Msg: msg, At: s.Now(), Tag: s.CurTag()}
		s.Logf("VIOLATION %s: %s", class, msg)
	}
	s.stopping = true
	if s.cur != nil && !s.killing {
		s.killing = true
		panic(kill)
	}
}

// switchOut gives control back to the scheduler loop.
func (s *Sim) switchOut(g *G) {
	s.accountBurst()
	if !g.yield(struct{}{}) {
		panic(kill)
	}
	if s.killing {
		panic(kill)
	}
	burstMark = s.steps
}

// park blocks the running goroutine until something calls ready on it.
func (s *Sim) park(why string) {
	g := s.cur
	if g == nil {
		panic("simrt: park outside goroutine (" + why + ")")
	}
	if s.quiet > 0 {
		panic("simrt: blocking operation (" + why + ") inside an atomic section")
	}
	if s.killing {
		panic(kill)
	}
	g.Blocked = why
	g.parked = true
	s.Mix(uint64(g.ID)<<8 | 2)
	s.switchOut(g)
	g.Blocked = ""
	g.burst = 0
	burstMark = s.steps
	s.recalc()
}

// ready makes g runnable.
func (s *Sim) ready(g *G) {
	if g.done || g.runnable || !g.parked {
		return
	}
	g.parked = false
	g.stalled = false
	g.runnable = true
	s.runq = append(s.runq, g)
}

func (s *Sim) spawn(name string, lib bool, fn func()) *G {
	s.ngs++
	g := &G{ID: s.ngs, Name: fmt.Sprintf("%s#%d", name, s.ngs), Lib: lib, Tag: s.CurTag()}
	for len(s.tags) <= g.ID {
		s.tags = append(s.tags, 0)
	}
	s.tags[g.ID] = g.Tag
	if s.Cfg.Race {
		if s.cur != nil {
			g.vc = s.cur.vc.clone()
			s.cur.vc.inc(s.cur.ID)
		}
		g.vc.inc(g.ID)
	}
	if lib {
		s.LibLive++
		s.LiveOf[g.Tag]++
	}
	g.next, g.stop = iter.Pull(func(yield func(struct{}) bool) {
		g.yield = yield
		defer func() {
			r := recover()
			g.done = true
			if lib {
				s.LibLive--
				s.LiveOf[g.Tag]--
			}
			if r != nil && r != any(kill) {
				s.crash(r)
			}
		}()
		fn()
	})
	s.gs = append(s.gs, g)
	g.runnable = true
	s.runq = append(s.runq, g)
	return g
}

func (s *Sim) crash(r any) {
	st := stackOf2()
	first := ""
	if i := strings.IndexByte(st, '\n'); i >= 0 {
		first = st[:i]
	} else {
		first = st
	}
	if s.killing {
		return
	}
	if strings.HasPrefix(first, "main.") || first == "" {
		s.HarnessErr = fmt.Sprintf("panic in harness: %v\n%s", r, st)
		s.stopping = true
		return
	}
	fn := first
	if i := strings.IndexByte(fn, ' '); i > 0 {
		fn = fn[:i]
	}
	if s.Viol == nil {
		s.Viol = &Violation{Class: "crash:" + fn, Msg: fmt.Sprintf("panic: %v\n%s", r, st), At: s.Now(), Tag: s.CurTag()}
	}
	s.stopping = true
}

func stackOf2() string {
	buf := make([]byte, 16384)
	n := runtime.Stack(buf, false)
	st := string(buf[:n])
	// drop frames up to the panic call
	if i := strings.LastIndex(st, "\npanic("); i >= 0 {
		if j := strings.Index(st[i+1:], "\n"); j >= 0 {
			rest := st[i+1+j+1:]
			if k := strings.Index(rest, "\n"); k >= 0 {
				st = "x\n" + rest[k+1:]
			}
		}
	}
	return trimStack(st)
}

// Go starts a library goroutine.
func Go(fn func()) {
	s := S
	if s.killing {
		panic(kill)
	}
	s.spawn("lib", true, fn)
	Y()
}

// CurTag is the tag of what is running.
func (s *Sim) CurTag() int {
	if s.firing {
		return s.evTag
	}
	if s.cur != nil {
		return s.cur.Tag
	}
	return 0
}

// SpawnTagged starts a harness goroutine whose descendants carry the tag.
func (s *Sim) SpawnTagged(name string, tag int, fn func()) *G {
	g := s.spawn(name, false, fn)
	g.Tag = tag
	s.tags[g.ID] = tag
	return g
}

// Spawn starts a harness goroutine.
func (s *Sim) Spawn(name string, fn func()) *G { return s.spawn(name, false, fn) }

// Cur is the running goroutine.
func (s *Sim) Cur() *G { return s.cur }

// Waiting tells whether g is blocked waiting for something (not runnable, not merely stalled).
func (g *G) Waiting() bool { return g.parked && g.Blocked != "" }

// Done tells whether g has ended.
func (g *G) Done() bool { return g.done }

// Run executes until stop() is called, a violation occurs, or nothing can happen any more.
func (s *Sim) Run() {
	burstMark = 0
	for !s.stopping {
		s.cur = nil
		s.fireDue()
		if s.stopping {
			break
		}
		g := s.handoff
		s.handoff = nil
		if g == nil {
			if len(s.runq) == 0 {
				if len(s.heap) == 0 {
					break
				}
				// idle: jump to the next event
				if at := s.heap[0].at; at > s.Now() {
					s.tbase = at - s.steps*StepCost
				}
				continue
			}
			i := 0
			if s.Cfg.RandomPick && len(s.runq) > 1 {
				i = s.C.Choose(Sched, len(s.runq))
			}
			g = s.runq[i]
			s.runq = append(s.runq[:i], s.runq[i+1:]...)
			g.runnable = false
		}
		if g.done {
			continue
		}
		s.cur = g
		s.Switches++
		s.Mix(uint64(g.ID) << 8)
		burstMark = s.steps
		s.recalc()
		g.next()
	}
	s.cur = nil
}

// Stop ends the run after the current goroutine yields.
func (s *Sim) Stop() { s.stopping = true }

// Finish kills what is left.
func (s *Sim) Finish() {
	s.killing = true
	for _, g := range s.gs {
		if !g.done {
			s.cur = g
			g.stop()
		}
	}
	s.cur = nil
}

// Atomic runs fn without yield points, race checks or virtual time.
func (s *Sim) Atomic(fn func()) {
	s.quiet++
	defer func() { s.quiet-- }()
	fn()
}

// Steps so far.
func (s *Sim) Steps() int64 { return s.steps }

// Gs lists all goroutines.
func (s *Sim) Gs() []*G { return s.gs }

// Yield lets every other runnable goroutine go first.
func (s *Sim) Yield() {
	if s.killing {
		panic(kill)
	}
	if s.quiet > 0 || s.cur == nil {
		return
	}
	g := s.cur
	if len(s.runq) == 0 {
		s.steps++
		if s.steps >= s.nextSlow {
			s.slow()
		}
		return
	}
	s.runq = append(s.runq, g)
	g.runnable = true
	s.switchOut(g)
	s.recalc()
}

// Gosched is runtime.Gosched for instrumented code.
func Gosched() {
	if S != nil {
		S.steps++
		S.Yield()
	}
}

// Recover wraps recover() in instrumented code so that it cannot swallow the simulator's kill.
func Recover(r any) any {
	if r == any(kill) {
		panic(kill)
	}
	return r
}

func KillRecovered(r any) bool { return r == any(kill) }
