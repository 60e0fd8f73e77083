package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"simrt/simrt"
)

// Command line: worker, drive, replay, one.

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	debug.SetMaxStack(512 << 20)
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "drive":
		driveMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	case "prints":
		printsMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: h drive PROP TIER | h replay FILE | h one PROP SEED")
	os.Exit(2)
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9
	x = (x ^ (x >> 27)) * 0x94D049BB133111EB
	return x ^ (x >> 31)
}

func runSeed(base uint64, prop string, i int64) uint64 {
	h := mix(base)
	for _, c := range []byte(prop) {
		h = mix(h ^ uint64(c))
	}
	return mix(h ^ uint64(i))
}

// ---- worker ----

type violOut struct {
	Seed  uint64 `json:"seed"`
	Index int64  `json:"index"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Err   string `json:"err,omitempty"`
}

type workerOut struct {
	Runs       int64             `json:"runs"`
	Nontrivial int64             `json:"nontrivial"`
	Hashes     []uint64          `json:"hashes"` // of the non-trivial runs
	Virtual    int64             `json:"virtual"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	MaxSteps   int64             `json:"max_steps"`
	MaxBurst   int64             `json:"max_burst"`
	Preempts   int64             `json:"preempts"`
	Stalls     int64             `json:"stalls"`
	Counters   map[string]int64  `json:"counters"`
	Samples    []sampleOut       `json:"samples"`
	Viol       *violOut          `json:"viol,omitempty"`
	Known      map[string]int64  `json:"known,omitempty"`
	Check      map[string]uint64 `json:"check"` // index -> fingerprint, for the determinism test
	TimedOut   bool              `json:"timed_out"`
}

type sampleOut struct {
	Seed uint64   `json:"seed"`
	What []string `json:"what"`
	Virt float64  `json:"simulated_ms"`
	Sw   int64    `json:"context_switches"`
}

func fingerprint(r *Result) uint64 {
	h := r.Hash ^ uint64(r.Steps)*0x9E3779B97F4A7C15 ^ uint64(r.Virtual)
	if r.Viol != nil {
		for _, c := range []byte(r.Viol.Class) {
			h = mix(h ^ uint64(c))
		}
	}
	return mix(h)
}

const checkEvery = 40

func workerMain(a []string) {
	prop := a[0]
	base, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.ParseInt(a[2], 10, 64)
	step, _ := strconv.ParseInt(a[3], 10, 64)
	total, _ := strconv.ParseInt(a[4], 10, 64)
	prog := a[5]
	secs, _ := strconv.ParseFloat(a[6], 64)
	known := loadKnown(prop)
	start := time.Now()
	out := workerOut{Counters: map[string]int64{}, Known: map[string]int64{}, Check: map[string]uint64{}}
	pf, err := os.OpenFile(prog, os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for i := from; i < total; i += step {
		if time.Since(start).Seconds() > secs {
			out.TimedOut = true
			break
		}
		seed := runSeed(base, prop, i)
		pf.WriteAt([]byte(fmt.Sprintf("%20d %20d\n", i, seed)), 0)
		res := execute(prop, simrt.NewSeeded(seed), false)
		out.Runs++
		if i%checkEvery == 0 {
			out.Check[strconv.FormatInt(i, 10)] = fingerprint(res)
		}
		out.Virtual += res.Virtual
		out.Steps += res.Steps
		out.Switches += res.Switches
		out.MaxSteps = max(out.MaxSteps, res.Steps)
		out.MaxBurst = max(out.MaxBurst, res.Burst)
		out.Preempts += res.Preempts
		out.Stalls += res.Stalls
		for k, v := range res.Counters {
			out.Counters[k] += v
		}
		if res.HarnessErr != "" {
			out.Viol = &violOut{Seed: seed, Index: i, Err: res.HarnessErr}
			break
		}
		if res.Viol != nil {
			if k := known.match(res.Viol); k != "" {
				out.Known[k]++
				continue
			}
			out.Viol = &violOut{Seed: seed, Index: i, Class: res.Viol.Class, Msg: res.Viol.Msg}
			break
		}
		if res.Nontrivial {
			out.Nontrivial++
			out.Hashes = append(out.Hashes, res.Hash)
			if len(out.Samples) < 2 && len(res.Sample) > 0 {
				out.Samples = append(out.Samples, sampleOut{seed, res.Sample, float64(res.Virtual) / 1e6, res.Switches})
			}
		}
	}
	pf.Close()
	w := bufio.NewWriter(os.Stdout)
	json.NewEncoder(w).Encode(&out)
	w.Flush()
}

// ---- known findings ----

type knownEntry struct {
	id, class, match, text string
}
type knownSet []knownEntry

// loadKnown reads lines "KNOWN-FINDING: property=<id> class=<class> match=<substring> :: <what fails>".
func loadKnown(prop string) knownSet {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			continue
		}
		head, text, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		_, rest, _ := strings.Cut(head, " class=")
		class, match, _ := strings.Cut(rest, " match=")
		out = append(out, knownEntry{strconv.Itoa(len(out)), class, match, text})
	}
	return out
}

func (k knownSet) match(v *simrt.Violation) string {
	for _, e := range k {
		if e.class == v.Class && strings.Contains(v.Msg, e.match) {
			return e.id
		}
	}
	return ""
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// ---- replay files ----

type tapeJSON struct {
	Plan     []uint32        `json:"plan"`
	Sched    []uint32        `json:"sched"`
	Net      []uint32        `json:"net"`
	Map      []uint32        `json:"map"`
	Preempts []simrt.Preempt `json:"preempts"`
}

type replayFile struct {
	Property string    `json:"property"`
	Class    string    `json:"class"`
	Message  string    `json:"message"`
	Seed     uint64    `json:"seed"`
	Tape     *tapeJSON `json:"tape,omitempty"` // nil: run from the seed
	Death    bool      `json:"process_death,omitempty"`
	Note     string    `json:"note,omitempty"`
	Trace    []string  `json:"trace,omitempty"`
}

func toJSON(t *simrt.Tape) *tapeJSON {
	return &tapeJSON{t.Vals[simrt.Plan], t.Vals[simrt.Sched], t.Vals[simrt.Net], t.Vals[simrt.Map], t.Preempts}
}

func fromJSON(j *tapeJSON) *simrt.Tape {
	t := &simrt.Tape{}
	t.Vals[simrt.Plan], t.Vals[simrt.Sched], t.Vals[simrt.Net], t.Vals[simrt.Map] = j.Plan, j.Sched, j.Net, j.Map
	t.Preempts = j.Preempts
	return t
}

func replayMain(a []string) {
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	quiet := len(a) > 1 && a[1] == "-q"
	ch := simrt.NewSeeded(rf.Seed)
	if rf.Tape != nil {
		ch = simrt.NewReplay(fromJSON(rf.Tape))
	}
	res := execute(rf.Property, ch, !quiet)
	if !quiet {
		for _, l := range res.Trace {
			fmt.Println(l)
		}
	}
	if res.HarnessErr != "" {
		fmt.Println("harness error:", res.HarnessErr)
		os.Exit(2)
	}
	if res.Viol == nil {
		fmt.Println("no violation")
		os.Exit(0)
	}
	fmt.Printf("class: %s\n%s\n", res.Viol.Class, res.Viol.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, a[0])
	os.Exit(1)
}

// oneMain runs a single seed verbosely (development).
func oneMain(a []string) {
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	quiet := len(a) > 2
	res := execute(a[0], simrt.NewSeeded(seed), !quiet)
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	for _, l := range res.Sample {
		fmt.Println("sample:", l)
	}
	fmt.Printf("fingerprint %x steps %d virtual %.3f ms alloc %d\n", fingerprint(res), res.Steps, float64(res.Virtual)/1e6, res.AllocMax)
	if res.HarnessErr != "" {
		fmt.Println("harness error:", res.HarnessErr)
		os.Exit(2)
	}
	if res.Viol != nil {
		fmt.Printf("class: %s\n%s\n", res.Viol.Class, res.Viol.Msg)
		os.Exit(1)
	}
}

// ---- driver ----

func dur(env string, def float64) float64 {
	if v, err := strconv.ParseFloat(os.Getenv(env), 64); err == nil {
		return v
	}
	return def
}

func driveMain(a []string) {
	prop := a[0]
	sc := scenarios[prop]
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(a) > 1 {
		tier = a[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	base := uint64(1)
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		base = v
	}
	runs, secs := sc.quick, 240.0
	if runs == 0 {
		runs = 20000
	}
	if tier == "thorough" {
		runs, secs = runs*20, 780
	}
	if v, err := strconv.ParseInt(os.Getenv("VERIF_RUNS"), 10, 64); err == nil {
		runs = v
	}
	secs = dur("VERIF_SECS", secs)
	nw := int64(8)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_WORKERS"), 10, 64); err == nil {
		nw = v
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vsim")
	if err != nil {
		fail2("mktemp: %v", err)
	}
	defer os.RemoveAll(tmp)
	self, _ := os.Executable()
	type done struct {
		w   int64
		out workerOut
		err error
		se  string
	}
	ch := make(chan done, nw)
	for w := int64(0); w < nw; w++ {
		go func(w int64) {
			cmd := exec.Command(self, "worker", prop, fmt.Sprint(base), fmt.Sprint(w), fmt.Sprint(nw), fmt.Sprint(runs), filepath.Join(tmp, fmt.Sprintf("p%d", w)), fmt.Sprint(secs))
			var se, so strings.Builder
			cmd.Stderr = &se
			cmd.Stdout = &so
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2GiB")
			kill := time.AfterFunc(time.Duration((secs+60)*float64(time.Second)), func() { cmd.Process.Kill() })
			err := cmd.Run()
			kill.Stop()
			d := done{w: w, err: err, se: se.String()}
			if err == nil {
				d.err = json.Unmarshal([]byte(so.String()), &d.out)
			}
			ch <- d
		}(w)
	}
	agg := workerOut{Counters: map[string]int64{}, Known: map[string]int64{}, Check: map[string]uint64{}}
	hashes := map[uint64]bool{}
	var best *violOut
	death := false
	var problems []string
	for i := int64(0); i < nw; i++ {
		d := <-ch
		if d.err != nil {
			v := deadWorker(self, prop, filepath.Join(tmp, fmt.Sprintf("p%d", d.w)), d.se)
			if v == nil {
				problems = append(problems, fmt.Sprintf("worker %d died: %v\n%s", d.w, d.err, tail(d.se, 2000)))
				continue
			}
			if best == nil || v.Index < best.Index {
				best, death = v, true
			}
			continue
		}
		o := d.out
		agg.Runs += o.Runs
		agg.Nontrivial += o.Nontrivial
		agg.Virtual += o.Virtual
		agg.Steps += o.Steps
		agg.Switches += o.Switches
		agg.MaxSteps = max(agg.MaxSteps, o.MaxSteps)
		agg.MaxBurst = max(agg.MaxBurst, o.MaxBurst)
		agg.Preempts += o.Preempts
		agg.Stalls += o.Stalls
		agg.TimedOut = agg.TimedOut || o.TimedOut
		for k, v := range o.Counters {
			agg.Counters[k] += v
		}
		for k, v := range o.Known {
			agg.Known[k] += v
		}
		for k, v := range o.Check {
			agg.Check[k] = v
		}
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		if len(agg.Samples) < 4 {
			agg.Samples = append(agg.Samples, o.Samples...)
		}
		if o.Viol != nil {
			if o.Viol.Err != "" {
				problems = append(problems, fmt.Sprintf("harness error at seed %d: %s", o.Viol.Seed, o.Viol.Err))
			} else if best == nil || o.Viol.Index < best.Index {
				best, death = o.Viol, false
			}
		}
	}
	searchSecs := time.Since(start).Seconds()
	if best == nil && len(problems) > 0 {
		fail2("%s", strings.Join(problems, "\n"))
	}
	// determinism: other processes must reproduce these runs exactly
	checked := 0
	if best == nil {
		checked = determinism(self, prop, base, agg.Check)
	}
	exit := 0
	viol := 0
	var replay string
	if best != nil {
		viol = 1
		exit = 1
		replay = report(self, prop, best, death)
	}
	known := loadKnown(prop)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen in %d runs)\n", prop, k.text, agg.Known[k.id])
	}
	writeEvidence(prop, tier, base, sc, &agg, len(hashes), checked, searchSecs, time.Since(start).Seconds(), viol, nw)
	fmt.Printf("%s: %d runs, %d distinct non-trivial executions, %.1f s simulated, %.0f runs/s, %d re-executed identically\n",
		prop, agg.Runs, len(hashes), float64(agg.Virtual)/1e9, float64(agg.Runs)/searchSecs, checked)
	if best != nil {
		fmt.Printf("violation class %s (seed %d):\n%s\n", best.Class, best.Seed, best.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	}
	os.RemoveAll(tmp)
	os.Exit(exit)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func fail2(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

// deadWorker decides whether a worker died because the code under test killed the process.
func deadWorker(self, prop, prog, se string) *violOut {
	b, err := os.ReadFile(prog)
	if err != nil {
		return nil
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return nil
	}
	idx, _ := strconv.ParseInt(f[0], 10, 64)
	seed, _ := strconv.ParseUint(f[1], 10, 64)
	cls, msg := runSeedAlone(self, prop, seed)
	if cls == "" {
		return nil
	}
	return &violOut{Seed: seed, Index: idx, Class: cls, Msg: msg}
}

func runSeedAlone(self, prop string, seed uint64) (string, string) {
	cmd := exec.Command(self, "one", prop, fmt.Sprint(seed), "-q")
	var sb strings.Builder
	cmd.Stderr = &sb
	cmd.Stdout = &sb
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	kill := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	cmd.Run()
	kill.Stop()
	o := sb.String()
	if strings.Contains(o, "stack exceeds") || strings.Contains(o, "stack overflow") {
		return "crash:stack-overflow", "the process died of stack exhaustion\n" + clipStack(o)
	}
	if strings.Contains(o, "out of memory") || strings.Contains(o, "cannot allocate memory") {
		return "crash:out-of-memory", "the process ran out of memory\n" + clipStack(o)
	}
	if i := strings.Index(o, "fatal error: "); i >= 0 {
		l, _, _ := strings.Cut(o[i:], "\n")
		return "crash:" + l, clipStack(o)
	}
	return "", o
}

func clipStack(o string) string {
	if len(o) > 1500 {
		return o[:1500]
	}
	return o
}

func determinism(self, prop string, base uint64, check map[string]uint64) int {
	var idx []int64
	for k := range check {
		i, _ := strconv.ParseInt(k, 10, 64)
		idx = append(idx, i)
	}
	sort.Slice(idx, func(a, b int) bool { return idx[a] < idx[b] })
	if len(idx) > 400 {
		idx = idx[:400]
	}
	n := 4
	res := make(chan string, n)
	for w := 0; w < n; w++ {
		var mine []string
		for k := w; k < len(idx); k += n {
			mine = append(mine, fmt.Sprint(idx[k]))
		}
		go func() {
			if len(mine) == 0 {
				res <- ""
				return
			}
			cmd := exec.Command(self, append([]string{"prints", prop, fmt.Sprint(base)}, mine...)...)
			o, err := cmd.Output()
			if err != nil {
				res <- "determinism self-test failed to run: " + err.Error()
				return
			}
			f := strings.Fields(string(o))
			for k, i := range mine {
				if k >= len(f) || f[k] != strconv.FormatUint(check[i], 16) {
					res <- "run " + i + " is not reproducible"
					return
				}
			}
			res <- ""
		}()
	}
	for w := 0; w < n; w++ {
		if m := <-res; m != "" {
			fail2("%s", m)
		}
	}
	return len(idx)
}

func printsMain(a []string) {
	base, _ := strconv.ParseUint(a[1], 10, 64)
	for _, s := range a[2:] {
		i, _ := strconv.ParseInt(s, 10, 64)
		res := execute(a[0], simrt.NewSeeded(runSeed(base, a[0], i)), false)
		fmt.Println(strconv.FormatUint(fingerprint(res), 16))
	}
}

func report(self, prop string, v *violOut, death bool) string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", prop, v.Seed))
	rf := replayFile{Property: prop, Class: v.Class, Message: v.Msg, Seed: v.Seed}
	if death {
		rf.Death = true
		rf.Note = "the process itself dies; replay runs the seed"
		writeReplay(path, &rf)
		return path
	}
	res := execute(prop, simrt.NewSeeded(v.Seed), false)
	if res.Viol == nil || res.Viol.Class != v.Class {
		fail2("violation at seed %d did not reproduce in another process", v.Seed)
	}
	best := minimise(prop, res, time.Duration(dur("VERIF_SHRINK", 25)*float64(time.Second)))
	fin := execute(prop, simrt.NewReplay(best), true)
	rf.Tape = toJSON(best)
	rf.Message = fin.Viol.Msg
	v.Msg = fin.Viol.Msg
	rf.Trace = fin.Trace
	if len(rf.Trace) > 400 {
		rf.Trace = rf.Trace[len(rf.Trace)-400:]
	}
	writeReplay(path, &rf)
	// a fresh process must fail the same way
	o, _ := exec.Command(self, "replay", path, "-q").Output()
	if !strings.Contains(string(o), "class: "+v.Class+"\n") {
		fail2("replay of %s in a fresh process gave something else:\n%s", path, o)
	}
	return path
}

func writeReplay(path string, rf *replayFile) {
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail2("%v", err)
	}
}

// minimise shrinks a failing tape while the same class of violation persists.
func minimise(prop string, res *Result, budget time.Duration) *simrt.Tape {
	class := res.Viol.Class
	end := time.Now().Add(budget)
	best := res.Tape.Clone()
	try := func(t *simrt.Tape) bool {
		if time.Now().After(end) {
			return false
		}
		r := execute(prop, simrt.NewReplay(t.Clone()), false)
		if r.HarnessErr == "" && r.Viol != nil && r.Viol.Class == class {
			best = t
			return true
		}
		return false
	}
	// drop all preemptions, then chunks
	t := best.Clone()
	t.Preempts = nil
	try(t)
	order := []simrt.Stream{simrt.Map, simrt.Net, simrt.Sched, simrt.Plan}
	for pass := 0; pass < 4; pass++ {
		changed := false
		for n := (len(best.Preempts) + 1) / 2; n >= 1 && len(best.Preempts) > 0; n /= 2 {
			for i := 0; i < len(best.Preempts); {
				t := best.Clone()
				e := i + n
				if e > len(t.Preempts) {
					e = len(t.Preempts)
				}
				t.Preempts = append(t.Preempts[:i:i], t.Preempts[e:]...)
				if try(t) {
					changed = true
				} else {
					i += n
				}
				if time.Now().After(end) {
					return best
				}
			}
		}
		for _, st := range order {
			// truncate
			for n := len(best.Vals[st]); n >= 1; {
				t := best.Clone()
				k := len(t.Vals[st]) - n
				if k < 0 {
					k = 0
				}
				t.Vals[st] = t.Vals[st][:k]
				if len(best.Vals[st]) > 0 && try(t) {
					changed = true
					if n > len(best.Vals[st]) {
						n = len(best.Vals[st])
					}
				} else {
					n /= 2
				}
			}
			// zero chunks
			for n := (len(best.Vals[st]) + 1) / 2; n >= 1; n /= 2 {
				for i := 0; i < len(best.Vals[st]); i += n {
					t := best.Clone()
					any := false
					for j := i; j < i+n && j < len(t.Vals[st]); j++ {
						if t.Vals[st][j] != 0 {
							any = true
							t.Vals[st][j] = 0
						}
					}
					if any && try(t) {
						changed = true
					}
					if time.Now().After(end) {
						return best
					}
				}
				if n == 1 {
					break
				}
			}
			// delete chunks of the plan
			if st == simrt.Plan {
				for n := len(best.Vals[st]) / 2; n >= 1; n /= 2 {
					for i := 0; i+n <= len(best.Vals[st]); {
						t := best.Clone()
						t.Vals[st] = append(t.Vals[st][:i:i], t.Vals[st][i+n:]...)
						if try(t) {
							changed = true
						} else {
							i += n
						}
						if time.Now().After(end) {
							return best
						}
					}
				}
				// smaller values
				for i := range best.Vals[st] {
					for best.Vals[st][i] > 0 {
						t := best.Clone()
						t.Vals[st][i] /= 2
						if !try(t) {
							break
						}
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return best
}

func writeEvidence(prop, tier string, seed uint64, sc *scenario, a *workerOut, distinct, checked int, search, wall float64, viol int, nw int64) {
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range a.Counters {
		if strings.HasPrefix(k, "net-") || strings.HasPrefix(k, "damage-") || strings.HasPrefix(k, "fault-") {
			faults[k] = v
		} else {
			probes[k] = v
		}
	}
	faults["goroutine-preempted"] = a.Preempts
	faults["goroutine-stalled"] = a.Stalls
	samples := []any{}
	for _, s := range a.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]any{"note": "no run completed without a violation"})
	}
	kf := []string{}
	for _, k := range loadKnown(prop) {
		kf = append(kf, k.text)
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"assumptions": []string{
			"the instrumenter preserves the library's behaviour; goroutines switch only at its yield points (function entries, loop heads, channel, lock, timer and network operations, shared memory accesses when race detection is on)",
			"TCP is modelled as a reliable ordered byte stream with arbitrary segmentation, latency, windows, FIN and RST",
			"sampled executions: a clean batch is evidence, not proof",
		},
		"coverage": map[string]any{
			"evaluations":                 a.Runs,
			"distinct_nontrivial":         distinct,
			"rule":                        sc.rule + "; distinct = different hash over every scheduling, network and blocking event of the run",
			"samples":                     samples,
			"runs_per_hour":               int64(float64(a.Runs) / search * 3600),
			"seeds_per_hour":              int64(float64(a.Runs) / search * 3600),
			"simulated_seconds":           float64(a.Virtual) / 1e9,
			"scheduler_steps":             a.Steps,
			"context_switches":            a.Switches,
			"largest_run_steps":           a.MaxSteps,
			"longest_burst_steps":         a.MaxBurst,
			"faults_injected":             faults,
			"probes":                      probes,
			"runs_reexecuted_identically": checked,
			"workers":                     nw,
			"stopped_by_wall_clock":       a.TimedOut,
			"known_findings":              kf,
			"real_components":             "all packages of /repo (asn1, embertree, socket, errors, logger), instrumented",
			"stub_components":             "net (simulated TCP), time (virtual clock), sync/atomic/channels/goroutines (simulated scheduler), math/rand; the Ember+ provider and application code are the harness's",
		},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fail2("%v", err)
	}
}
