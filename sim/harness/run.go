package main

import (
	"fmt"
	"os"
	"strings"

	simnet "simrt/net"
	"simrt/simrt"

	"github.com/dufourgilles/emberlib/embertree"
	liberr "github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

const (
	us  = int64(1000)
	ms  = int64(1000000)
	sec = int64(1000000000)
)

// Run is one simulated execution.
type Run struct {
	*Gen
	S          *simrt.Sim
	Prop       string
	Cfg        simrt.Config
	mainDone   bool
	nontrivial bool
	size       int64 // workload measure
	sample     []string
	after      []func()
	slackOn    bool
	known      func(class, msg string) bool
	commands   bool   // malformed messages may hold commands
	multi      bool   // one of several runs in one simulation
	tag        int    // of its goroutines
	host       string // address of its provider
	refusals   int64
	actors     []*actor
}

type Result struct {
	Viol       *simrt.Violation
	HarnessErr string
	Hash       uint64
	Steps      int64
	Virtual    int64
	Switches   int64
	Preempts   int64
	Stalls     int64
	Counters   map[string]int64
	Nontrivial bool
	Sample     []string
	Tape       *simrt.Tape
	Trace      []string
	AllocMax   int64
	Burst      int64
}

// Fail reports a violation. class identifies what failed, independent of the seed.
func (r *Run) Fail(class, format string, a ...any) {
	if r.multi && r.mainDone {
		return
	}
	r.S.Fail(class, fmt.Sprintf(format, a...))
}

func (r *Run) note(format string, a ...any) {
	if len(r.sample) < 40 {
		r.sample = append(r.sample, fmt.Sprintf(format, a...))
	}
	r.S.Logf(format, a...)
}

// harnessBug aborts with an error of the check itself.
func (r *Run) harnessBug(format string, a ...any) {
	r.S.HarnessErr = fmt.Sprintf(format, a...)
	r.S.Stop()
	simrt.S.Yield()
	panic("harness: " + fmt.Sprintf(format, a...))
}

// slack is by how much bounded-time checks must be extended: injected stalls and consumed steps.
func (r *Run) slack() int64 { return r.S.StallTotal + r.S.Steps()*simrt.StepCost }

// stall is by how long the run may have been held up so far by what is not its own doing:
// injected stalls and, if it shares the simulation, the computing time of others.
func (r *Run) stall() int64 {
	if r.multi {
		return r.slack()
	}
	return r.S.StallTotal
}

// held is like stall, but of a stall which is not over only what has passed of it.
func (r *Run) held() int64 { return r.stall() - r.S.StallLeft() }

// live and timers count the library's goroutines and timers of this run.
func (r *Run) live() int   { return r.S.LiveOf[r.tag] }
func (r *Run) timers() int { return r.S.TimersOf[r.tag] }

type scenario struct {
	main  func(r *Run)
	sched func(g *Gen, cfg *simrt.Config) // extra configuration
	rule  string
	quick int64                     // runs of the quick tier
	judge func(r *Run, res *Result) // may withdraw a violation
}

func defaultSched(g *Gen, cfg *simrt.Config) {
	gaps := []int{0, 3000, 400, 80, 20, -2, -6}
	cfg.GapMean = gaps[g.n(len(gaps))]
	if cfg.GapMean < 0 {
		cfg.SyncGap, cfg.GapMean = -cfg.GapMean, 0
	}
	cfg.RandomPick = g.n(2) == 1
	if cfg.GapMean > 0 || cfg.SyncGap > 0 {
		cfg.StallProb = []int{0, 100, 500, 10, 1}[g.n(5)]
	}
	cfg.ArmProb = []int{0, 0, 50, 300}[g.n(4)]
	cfg.StallMax = []int64{2 * ms, 30 * ms}[g.n(2)]
	cfg.StallBudget = 6
}

func execute(prop string, ch *simrt.Chooser, trace bool) *Result {
	sc := scenarios[prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario for", prop)
		os.Exit(2)
	}
	g := &Gen{c: ch}
	cfg := simrt.Config{Trace: trace, AllocLimit: 64 << 20, ReadSlack: 0}
	defaultSched(g, &cfg)
	if sc.sched != nil {
		sc.sched(g, &cfg)
	}
	r, res := simulate(prop, ch, g, cfg, sc.main)
	if sc.judge != nil {
		sc.judge(r, res)
	}
	return res
}

// simulate makes one simulation.
func simulate(prop string, ch *simrt.Chooser, g *Gen, cfg simrt.Config, main func(r *Run)) (*Run, *Result) {
	sim := simrt.NewSim(ch, cfg)
	simrt.S = sim
	resetGlobals()
	r := &Run{Gen: g, S: sim, Prop: prop, Cfg: cfg}
	sim.Spawn("main", func() {
		main(r)
		r.mainDone = true
		sim.Stop()
	})
	sim.Run()
	if sim.Viol == nil && sim.HarnessErr == "" && !r.mainDone {
		var bl []string
		for _, g := range sim.Gs() {
			if !g.Done() {
				bl = append(bl, g.Name+":"+g.Blocked)
			}
		}
		sim.Viol = &simrt.Violation{Class: "deadlock", Msg: "nothing can run any more: " + strings.Join(bl, ", "), At: sim.Now()}
	}
	res := &Result{Viol: sim.Viol, HarnessErr: sim.HarnessErr, Hash: sim.Hash, Steps: sim.Steps(), Virtual: sim.Now(),
		Switches: sim.Switches, Preempts: sim.Preempted, Stalls: sim.Stalls, Counters: sim.Counters,
		Nontrivial: r.nontrivial, Sample: r.sample, Tape: ch.Tape(), Trace: sim.TraceLines(), AllocMax: sim.AllocMax, Burst: sim.MaxBurst}
	sim.Finish()
	simrt.S = nil
	return r, res
}

// call runs an API call that must return within bound ns of virtual time (plus injected stalls).
func (r *Run) call(name string, bound int64, fn func()) {
	s := r.S
	start := s.Now()
	base := r.held()
	done := false
	var arm func(at int64)
	arm = func(at int64) {
		s.At(at, func() {
			if done || r.mainDone {
				return
			}
			limit := start + bound + (r.held() - base)
			if s.Now() < limit {
				arm(limit)
				return
			}
			s.Fail("blocked:"+name, fmt.Sprintf("%s has not returned after %.1f ms", name, float64(s.Now()-start)/1e6))
		})
	}
	arm(start + bound)
	s.MaybeArm()
	fn()
	done = true
}

func (r *Run) sleep(d int64) { r.S.Sleep(d, false) }

// waitFor polls cond until it holds or the time (plus stalls injected meanwhile) is over.
func (r *Run) waitFor(bound int64, cond func() bool) bool {
	start, base := r.S.Now(), r.held()
	for !cond() {
		if r.S.Now() > start+bound+(r.held()-base) {
			return false
		}
		r.sleep(500 * us)
	}
	return true
}

// libQuiet tells whether every library goroutine is blocked waiting for something.
func (r *Run) libQuiet() bool {
	for _, g := range r.S.Gs() {
		if g.Lib && g.Tag == r.tag && !g.Done() && !g.Waiting() {
			return false
		}
	}
	return true
}

// netParams draws a connection's behaviour. 0 = plain.
func (g *Gen) netParams() simnet.Params {
	p := simnet.Params{LatMin: 50 * us, LatMax: 50 * us, Window: 1 << 20, Slack: 2 * ms}
	switch g.n(4) {
	case 1:
		p.LatMax = 2 * ms
	case 2:
		p.LatMin, p.LatMax = 1*ms, 10*ms
	case 3:
		p.LatMin, p.LatMax = 1, 1
	}
	p.SegMode = g.n(5)
	p.ShortReads = g.n(3) == 2
	switch g.n(6) {
	case 4:
		p.Window = 4096
	case 5:
		p.Window = 512
	}
	p.Slack = []int64{2 * ms, 300 * us, 10 * ms, 20 * ms}[g.n(4)]
	return p
}

// ---- provider side ----

// Peer is the provider's end of one connection (runs as a harness goroutine).
type Peer struct {
	r        *Run
	c        *simnet.SimConn
	rx       s101Rx
	g        *simrt.G
	onReq    func(p *Peer, path []int32, mask int64, raw []byte)
	onMsg    func(p *Peer, m []byte)
	onKeep   func(p *Peer, k s101Kind)
	pause    bool // does not read
	gone     bool
	eofSeen  bool
	readErr  error
	reqs     []reqRec
	keepResp int
	keepReq  int
	sent     []sentRec
	wlock    bool
	wq       simrt.WaitQ
	maxPkt   int
	openedAt int64
	raw      []byte
	keepRaw  bool
	outq     []outItem
	outBusy  bool
	outWQ    simrt.WaitQ
	outErr   error
	marks    []mark // by stream offset, ascending
	lenient  bool
}

// outItem is queued output of the peer's writer goroutine.
type outItem struct {
	b  []byte
	at int64           // not before
	fn func(end int64) // called with the stream offset of its end, before it is written
}

// mark is called once the client has read the stream up to an offset.
type mark struct {
	off int64
	fn  func()
}

// post queues bytes for the writer goroutine; order is kept.
func (p *Peer) post(b []byte, at int64, fn func(end int64)) {
	p.outq = append(p.outq, outItem{b, at, fn})
	p.outWQ.WakeOne()
}

// postMsg queues one message. onRead runs once the client has read all of it.
func (p *Peer) postMsg(m []byte, at int64, onRead func()) {
	var b []byte
	for _, f := range s101Split(m, p.maxPkt, false) {
		b = append(b, f...)
	}
	p.post(b, at, func(end int64) {
		if onRead != nil {
			p.onClientRead(end, onRead)
		}
	})
}

// onClientRead calls fn once the client has read up to offset off of the peer's output.
func (p *Peer) onClientRead(off int64, fn func()) {
	p.marks = append(p.marks, mark{off, fn})
}

func (p *Peer) startWriter() {
	p.c.Peer().OnRead = func(total int64) {
		for len(p.marks) > 0 && p.marks[0].off <= total {
			f := p.marks[0].fn
			p.marks = p.marks[1:]
			f()
		}
	}
	p.r.S.Spawn("peer-writer", func() {
		for {
			for len(p.outq) == 0 {
				p.outWQ.Wait("peer output")
			}
			it := p.outq[0]
			p.outq = p.outq[1:]
			p.outBusy = true
			if d := it.at - p.r.S.Now(); d > 0 {
				p.r.sleep(d)
			}
			if p.gone {
				return
			}
			if it.fn != nil {
				it.fn(p.c.WrittenTotal() + int64(len(it.b)))
			}
			if err := p.write(it.b); err != nil {
				p.outErr = err
				p.outBusy = false
				return
			}
			p.outBusy = false
		}
	})
}

// drained tells whether everything queued has been written.
func (p *Peer) drained() bool { return len(p.outq) == 0 && !p.outBusy || p.outErr != nil }

type reqRec struct {
	at   int64
	path []int32
	mask int64
}

type sentRec struct {
	at int64
	m  []byte
}

func (r *Run) newPeer(c *simnet.SimConn) *Peer {
	p := &Peer{r: r, c: c, openedAt: r.S.Now()}
	p.rx.onMsg = func(m []byte) {
		if p.onMsg != nil {
			p.onMsg(p, m)
			return
		}
		msg, err := decMsg(m)
		if err != nil {
			r.Fail("bad-request", "the client sent a message that is not valid Glow: %v (% x)", err, clip(m))
			return
		}
		path, mask, err := getDirTarget(msg)
		if err != nil {
			r.Fail("bad-request", "the client sent a message that is not a directory request: %v (% x)", err, clip(m))
			return
		}
		p.reqs = append(p.reqs, reqRec{r.S.Now(), path, mask})
		r.S.Logf("peer got directory request for [%s] mask %d", pathStr(path), mask)
		if p.onReq != nil {
			p.onReq(p, path, mask, m)
		}
	}
	p.rx.onKeep = func(k s101Kind) {
		if k == fkKeepResp {
			p.keepResp++
		} else {
			p.keepReq++
		}
		if p.onKeep != nil {
			p.onKeep(p, k)
		}
	}
	return p
}

// serve reads from the connection until it ends.
func (p *Peer) serve() {
	p.g = p.r.S.Spawn("peer", func() {
		buf := make([]byte, 8192)
		for {
			for p.pause {
				p.r.sleep(1 * ms)
				if p.gone {
					return
				}
			}
			n, err := p.c.Read(buf)
			if n > 0 {
				if p.keepRaw {
					p.raw = append(p.raw, buf[:n]...)
				}
				p.rx.feed(buf[:n])
				if len(p.rx.errs) > 0 && !p.lenient {
					p.r.Fail("bad-frame", "the client's byte stream is not well-formed S101: %s", p.rx.errs[0])
				}
			}
			if err != nil {
				p.eofSeen = true
				p.readErr = err
				return
			}
		}
	})
}

// write sends raw bytes atomically with respect to other writers of this peer.
func (p *Peer) write(b []byte) error {
	for p.wlock {
		p.wq.Wait("peer write lock")
	}
	p.wlock = true
	_, err := p.c.Write(b)
	p.wlock = false
	p.wq.WakeOne()
	return err
}

// send frames and writes one message.
func (p *Peer) send(m []byte) error {
	p.sent = append(p.sent, sentRec{p.r.S.Now(), m})
	var b []byte
	for _, f := range s101Split(m, p.maxPkt, false) {
		b = append(b, f...)
	}
	return p.write(b)
}

// ---- client side ----

// CB is a recording listener.
type CB struct {
	r     *Run
	name  string
	calls []cbCall
	hook  func(node interface{}, err liberr.Error)
	onErr func(err liberr.Error)
	lock  *busy // callback exclusion of one client
}

type cbCall struct {
	at   int64
	node interface{}
	err  string
	isE  bool
	gid  int
}

// busy detects callbacks of one client running concurrently.
type busy struct {
	in   int
	who  string
	gid  int
	on   bool
	seen int
}

func (c *CB) Receive(node interface{}, err liberr.Error) {
	r := c.r
	gid := 0
	if g := simrt.CurG(); g != nil {
		gid = g.ID
	}
	k := cbCall{at: r.S.Now(), node: node, gid: gid}
	if err != nil {
		k.isE = true
		k.err = errStr(err)
	}
	r.S.Logf("callback %s(%T, err=%v)", c.name, node, k.err)
	c.calls = append(c.calls, k)
	if c.lock != nil {
		if c.lock.in > 0 && c.lock.gid != gid {
			r.Fail("concurrent-callbacks", "callback %s entered while callback %s of the same client is still running", c.name, c.lock.who)
		}
		prevWho, prevGid := c.lock.who, c.lock.gid
		c.lock.in++
		c.lock.who, c.lock.gid = c.name, gid
		c.lock.seen++
		defer func() { c.lock.in--; c.lock.who, c.lock.gid = prevWho, prevGid }()
	}
	if c.hook != nil {
		c.hook(node, err)
	}
}

func (c *CB) oks() int {
	n := 0
	for _, k := range c.calls {
		if !k.isE {
			n++
		}
	}
	return n
}
func (c *CB) errs() int { return len(c.calls) - c.oks() }

func (r *Run) cb(name string) *CB { return &CB{r: r, name: name} }

// Client wraps a library client with its provider endpoint.
type Client struct {
	*socket.S101Client
	r     *Run
	ep    *simnet.Endpoint
	addr  string
	port  uint16
	peers []*Peer
	root  *embertree.RootElement
	setup func(p *Peer)
	par   simnet.Params
	conns []*simnet.SimConn // client ends
}

var nextPort uint16

func (r *Run) newClient(port uint16, par simnet.Params) *Client {
	c := &Client{r: r, addr: "10.0.0.1", port: port, par: par}
	if r.host != "" {
		c.addr = r.host
	}
	c.ep = &simnet.Endpoint{P: func() simnet.Params { return c.par }}
	c.ep.Accept = func(sc *simnet.SimConn) {
		p := r.newPeer(sc)
		c.peers = append(c.peers, p)
		c.conns = append(c.conns, sc.Peer())
		if c.setup != nil {
			c.setup(p)
		}
		p.startWriter()
		p.serve()
	}
	simnet.N().Listen(fmt.Sprintf("%s:%d", c.addr, port), c.ep)
	c.S101Client = socket.NewS101Client()
	if r.n(6) == 5 {
		c.SetLogger(&checkLogger{})
		r.S.Count("with-logger")
	}
	return c
}

func (c *Client) peer() *Peer {
	if len(c.peers) == 0 {
		return nil
	}
	return c.peers[len(c.peers)-1]
}

// connect must succeed.
func (c *Client) connect() {
	var err liberr.Error
	before := len(c.peers)
	c.r.call("Connect", 2*sec, func() { err = c.Connect(c.addr, c.port) })
	if err != nil {
		c.r.Fail("connect-failed", "Connect to an accepting provider failed: %s", errStr(err))
	}
	if !c.r.waitFor(1*sec, func() bool { return len(c.peers) > before }) {
		c.r.harnessBug("no connection arrived")
	}
}

// settle waits until the client has consumed everything sent to it and is idle.
func (c *Client) settle(bound int64) bool {
	r := c.r
	ok := func() bool {
		for i, p := range c.peers {
			if c.conns[i].Closed() {
				continue
			}
			if !p.drained() && !p.c.Closed() || p.wlock || p.c.OutPending() > 0 {
				return false
			}
		}
		return r.libQuiet()
	}
	if !r.waitFor(bound, ok) {
		return false
	}
	// once more after a poll period: consumed data may still be handled by another goroutine
	r.sleep(25 * ms)
	return r.waitFor(bound, ok)
}

// bootstrap connects and obtains the tree object through a root directory request whose answer is m.
func (c *Client) bootstrap(answer []byte) {
	c.connect()
	c.fetchRoot(answer)
}

func (c *Client) fetchRoot(answer []byte) {
	r := c.r
	p := c.peer()
	prev := p.onReq
	done := false
	p.onReq = func(p *Peer, path []int32, mask int64, raw []byte) {
		if len(path) != 0 {
			r.Fail("bad-request", "directory request for the root addressed %s", pathStr(path))
		}
		if !done {
			done = true
			p.send(answer)
		}
	}
	got := false
	cb := r.cb("bootstrap")
	cb.hook = func(node interface{}, err liberr.Error) {
		if err != nil {
			return
		}
		root, ok := node.(*embertree.RootElement)
		if !ok {
			r.Fail("wrong-node", "root directory callback got %T", node)
			return
		}
		c.root = root
		got = done
	}
	var err liberr.Error
	r.call("GetDirectory", 1*sec, func() { err = c.GetDirectory(nil, cb) })
	if err != nil {
		r.Fail("request-refused", "GetDirectory(nil) refused on an idle connection: %s", errStr(err))
	}
	bound := 2*sec + int64(3*len(answer)/c.par.Window+1)*(2*c.par.LatMax+40*ms)
	if !r.waitFor(bound, func() bool { return got }) {
		r.Fail("no-answer", "the root directory answer was not delivered to the callback within 2 s (requests seen by the provider: %d)", len(p.reqs))
	}
	p.onReq = prev
	cb.hook = nil
	c.root.RemoveListener(cb)
	if r.n(8) == 7 && !r.S.Cfg.Race { // nothing orders this before the next message
		c.root.SetLogger(&checkLogger{})
	}
}
