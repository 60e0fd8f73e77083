package main

import (
	"simrt/simrt"
)

var scenarios = map[string]*scenario{
	"C01": {main: mainC01, sched: long, rule: "a run is one stream of messages and keep-alives cut, framed and delivered under one schedule; non-trivial when at least one delivery was expected and compared"},
	"C02": {main: mainC02, sched: long, rule: "a run is one stream with at least one injected damage; non-trivial when the deliveries were judged against the independent scan of the damaged stream"},
	"C03": {main: mainC03, sched: long, rule: "a run is one connection with requests from several goroutines and callbacks; non-trivial when at least one accepted request was compared with what arrived"},
	"C04": {main: mainC04, sched: long, rule: "a run is one connection with keep-alives among requests and updates; non-trivial when at least one keep-alive request was sent"},
	"C05": {main: mainC05, sched: long, rule: "a run is one connection with timed requests and a provider that answers, delays or ignores; non-trivial when the outcome of at least one request was determined by the provider's behaviour"},
	"C06": {main: mainC06, sched: func(g *Gen, cfg *simrt.Config) { cfg.BurstBudget = 300_000_000; cfg.StepBudget = 2_000_000_000 }, quick: 8000, rule: "a run is the retrieval of one provider tree"},
	"C07": {main: mainC07, sched: func(g *Gen, cfg *simrt.Config) { cfg.BurstBudget = 300_000_000; cfg.StepBudget = 2_000_000_000 }, rule: "a run is one history of provider messages; non-trivial when at least one message was applied and the tree compared with the model"},
	"C08": {main: mainC08, sched: long, rule: "a run is one history of listener registrations and provider messages; non-trivial when at least one listener was called"},
	"C09": {main: mainC09, sched: func(g *Gen, cfg *simrt.Config) { cfg.StepBudget = 400_000_000 }, rule: "a run is one connection with malformed messages among well-formed traffic"},
	"C10": {main: mainC10, sched: long, rule: "a run is one tree with messages cut short or with exceeding lengths; non-trivial when at least one was judged"},
	"C11": {main: mainC11, sched: long, quick: 10000, rule: "a run is one client with one to four sessions, each ended in some way"},
	"C12": {main: mainC12, sched: func(g *Gen, cfg *simrt.Config) { cfg.Race = g.n(8) < 7; long(g, cfg) }, rule: "a run is one storm of calls from many goroutines and callbacks; non-trivial when callbacks ran"},
	"C13": {main: mainC13, sched: long, quick: 12000, rule: "a run is one client whose provider stops taking data; non-trivial when requests were refused"},
	"C14": {main: mainC14, sched: long, rule: "a run is one tree built, published and carried over a link; non-trivial when at least one publication arrived and was compared"},
	"C15": {main: mainC15, sched: long, quick: 12000, rule: "a run is one client with streams of requests that are answered, ignored or refused; non-trivial when resources were counted after at least one"},
	"C16": {main: mainC16, sched: long, rule: "a run is one growing tree with requests for its elements; non-trivial when requests were made and their targets compared"},
}

// long is for scenarios in which a lot of input may be there at once.
func long(g *Gen, cfg *simrt.Config) { cfg.BurstBudget = 300_000_000; cfg.StepBudget = 2_000_000_000 }

func init() {
	for k, v := range map[string]*scenario{
		"C17": {main: mainC17, sched: schedC17, judge: judgeC17, quick: 3000, rule: "a run is two to five of the other scenarios at once in one process, each with its own clients and providers"},
	} {
		scenarios[k] = v
	}
}
