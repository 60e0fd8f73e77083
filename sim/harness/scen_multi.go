package main

import (
	"fmt"
	"os"
	"strings"

	simnet "simrt/net"
	"simrt/simrt"

	liberr "github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

// ---- C17: independence ----
//
// Several scenarios of the other properties, each with its own clients, providers, decoders and
// faults, share one process. Each judges what it sees by its own provider alone. A violation that
// one of them reports is an influence of the others if the same scenario does not show it alone.

// actor is one of the scenarios that share a simulation.
type actor struct {
	kind string
	seed uint64
	tag  int
	run  *Run
	done bool
}

var multiKinds = []string{"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C16", "slow", "slow", "C12", "C06"}

func schedC17(g *Gen, cfg *simrt.Config) {
	cfg.GapMean, cfg.SyncGap, cfg.ArmProb, cfg.StallProb = []int{20, 80, 400, 5, 2000, 0}[g.n(6)], 0, 0, 0
	if cfg.GapMean > 0 {
		cfg.StallProb = []int{0, 100, 500}[g.n(3)]
		cfg.StallMax = []int64{2 * ms, 30 * ms}[g.n(2)]
		cfg.StallBudget = 6
	}
	cfg.Race, cfg.CrossRace = g.n(3) == 2, true
	cfg.BurstBudget = 200_000_000
	cfg.StepBudget = 2_000_000_000
	cfg.AllocLimit = 64 << 20
}

func mainC17(r *Run) {
	k := 2 + r.n(4)
	same := r.n(6) // 4: the same scenario, 5: with the same plan too, so that trees and messages are equal
	for i := 0; i < k; i++ {
		a := &actor{kind: multiKinds[r.n(len(multiKinds))], seed: uint64(r.n(1 << 20)), tag: i + 1}
		if same >= 4 && i > 0 {
			a.kind = r.actors[0].kind
			if same == 5 {
				a.seed = r.actors[0].seed
			}
		}
		r.actors = append(r.actors, a)
	}
	var wq simrt.WaitQ
	left := k
	for _, a := range r.actors {
		r.note("actor %d: %s plan %d", a.tag, a.kind, a.seed)
		r.S.Count("actor-" + a.kind)
		r.start(a, func() { left--; wq.WakeOne() })
	}
	for left > 0 {
		wq.Wait("the other scenarios")
	}
	r.S.Counters["actors"] += int64(k)
	r.nontrivial = true
}

// start runs one actor's scenario in this simulation.
func (r *Run) start(a *actor, fin func()) {
	sub := &Run{Gen: &Gen{c: simrt.NewSeeded(a.seed*0x9E3779B97F4A7C15 + 17)}, S: r.S, Prop: a.kind, Cfg: r.Cfg, multi: true, tag: a.tag, host: fmt.Sprintf("10.0.0.%d", a.tag)}
	a.run = sub
	main := mainSlow
	if sc := scenarios[a.kind]; sc != nil {
		main = sc.main
	}
	r.S.SpawnTagged("actor", a.tag, func() {
		main(sub)
		sub.mainDone = true
		a.done = true
		r.S.Logf("actor %d (%s) has finished", a.tag, a.kind)
		fin()
	})
}

// mainSlow is a user who does everything slowly: callbacks and handlers that take seconds, and a
// connection attempt that hangs.
func mainSlow(r *Run) {
	d := &group{r: r}
	c := r.newClient(9000, r.netParams())
	t := r.tree(6, 2, 3)
	c.bootstrap(encMsg(r.form(), r.answers(t, nil, 0, false)[0]))
	p := c.peer()
	lst := r.cb("slow")
	lst.hook = func(node interface{}, err liberr.Error) {
		r.S.Count("slow-callback")
		r.sleep(int64(1+r.n(12)) * sec)
	}
	c.root.AddListener(lst)
	d.spawn("provider", func() {
		for i := 0; i < 1+r.n(3); i++ {
			r.sleep(int64(r.n(3000)) * ms)
			p.postMsg(encMsg(r.form(), r.answers(t, nil, 0, false)[0]), 0, nil)
		}
	})
	if r.n(2) == 0 {
		d.spawn("handler", func() {
			slow := func(packet []byte) liberr.Error {
				r.S.Count("slow-handler")
				r.sleep(int64(1+r.n(8)) * sec)
				return nil
			}
			dec := socket.NewS101Decoder(slow, slow, slow, func(err liberr.Error) { r.sleep(2 * sec) })
			for i := 0; i < 2; i++ {
				for _, f := range s101Split(r.bytesN(20+r.n(400)), 100, false) {
					dec.DecodeBuffer(len(f), f)
				}
			}
		})
	}
	if r.n(2) == 0 {
		d.spawn("hanging", func() {
			ep := &simnet.Endpoint{Hang: true, P: func() simnet.Params { return r.netParams() }}
			simnet.N().Listen(r.host+":9100", ep)
			cl := socket.NewS101Client()
			r.S.Count("hanging-connect")
			cl.SetTimeout(5)
			cl.Connect(r.host, 9100)
		})
	}
	d.wait(300 * sec)
	r.sleep(1 * sec)
}

// judgeC17 withdraws what is not an influence between the actors.
func judgeC17(r *Run, res *Result) {
	if res.Viol == nil || res.HarnessErr != "" {
		return
	}
	var sus []*actor
	for _, a := range r.actors {
		if a.tag == res.Viol.Tag || res.Viol.Tag == 0 && !a.done {
			sus = append(sus, a)
		}
	}
	const tries = 24
	var what []string
	for _, a := range sus {
		for i := 0; i < tries; i++ {
			v := alone(a, r.Cfg, uint64(i))
			if v != nil {
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "alone %s %d/%d: %s: %s\n   multi: %s: %s\n", a.kind, a.seed, i, v.Class, v.Msg, res.Viol.Class, res.Viol.Msg)
				}
				res.Counters["fails-alone-"+a.kind]++
				res.Viol = nil
				return
			}
		}
		what = append(what, fmt.Sprintf("%d (%s)", a.tag, a.kind))
	}
	res.Viol.Class = "influence:" + res.Viol.Class
	res.Viol.Msg = fmt.Sprintf("actor %s, which behaves correctly alone under %d schedules: %s", strings.Join(what, ", "), tries, res.Viol.Msg)
}

// alone runs one actor without the others.
func alone(a *actor, cfg simrt.Config, n uint64) *simrt.Violation {
	ch := simrt.NewSeeded(a.seed<<8 + n)
	g := &Gen{c: ch}
	cfg.Trace = false
	if n%2 == 1 {
		cfg.GapMean = []int{20, 80, 400, 5}[n/2%4]
		cfg.StallProb, cfg.StallMax, cfg.StallBudget = 500, 30*ms, 6
	}
	_, res := simulate("C17", ch, g, cfg, func(r *Run) {
		b := &actor{kind: a.kind, seed: a.seed, tag: a.tag}
		var wq simrt.WaitQ
		r.start(b, func() { wq.WakeOne() })
		for !b.done {
			wq.Wait("the scenario")
		}
		r.sleep(10 * sec)
	})
	if res.HarnessErr != "" {
		return &simrt.Violation{Class: "harness", Msg: res.HarnessErr}
	}
	return res.Viol
}
