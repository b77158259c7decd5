// Package worker runs the code under test (translated by simgen) inside the
// simulator: scenarios, stubs, oracles, replay and shrinking.
package worker

import (
	crand "crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif.local/sim/simnet"
	"verif.local/sim/simrt"
)

// World is one simulated execution.
type World struct {
	S      *simrt.Sim
	Net    *simnet.Network
	G      *simrt.Tape
	Prop   string
	Alias  bool // failures of every oracle count for Prop (C16: all sessions behave as alone)
	Strict bool // no stalls are injected: timed oracles apply
	waits  []*await
	Others map[string]int
	Feat   map[string]bool // features of the run, its non-triviality and diversity
	srvs   []*server
	tags   int
}

type await struct {
	cond func() bool
	q    simrt.WaitQ
	done bool
}

// Fail records a violated oracle; props names the properties it decides.
func (w *World) Fail(props, class, format string, a ...any) {
	if w.Alias || strings.Contains(props, w.Prop) {
		w.S.Violate(class, format, a...)
		return
	}
	w.Others[props+" "+class]++
	w.S.Logf("(oracle of %s: %s: %s)", props, class, fmt.Sprintf(format, a...))
}

// Await blocks the calling task until cond holds or d has passed; cond is
// evaluated after every scheduling step.
func (w *World) Await(d time.Duration, cond func() bool) bool {
	if cond() {
		return true
	}
	t := w.S.CurTask()
	a := &await{cond: cond}
	tk := a.q.Enqueue()
	w.waits = append(w.waits, a)
	w.S.After(d, "await", func() {
		if !a.done {
			a.done = true
			a.q.WakeAll()
		}
	})
	t.WaitTicket(tk, "await", -1)
	return cond()
}

func (w *World) onStep() {
	if len(w.waits) == 0 {
		return
	}
	k := 0
	for _, a := range w.waits {
		if !a.done && a.cond() {
			a.done = true
			a.q.WakeAll()
		}
		if !a.done {
			w.waits[k] = a
			k++
		}
	}
	w.waits = w.waits[:k]
}

// Join waits for a workload task to end (with the synchronisation that implies).
func (w *World) Join(t *simrt.Task, d time.Duration) bool {
	ok := w.Await(d, t.Done)
	if ok {
		simrt.JoinTask(w.S.CurTask(), t)
	}
	return ok
}

func (w *World) Sleep(d time.Duration) { simrt.Sleep(d, -1) }

func (w *World) Has(f string) { w.Feat[f] = true }

func (w *World) sleepy(s string, d time.Duration) { w.Sleep(d); w.Has(s) }

// Timed calls f and returns how long it took.
func (w *World) Timed(f func()) time.Duration {
	t := w.S.Now()
	f()
	return w.S.Now() - t
}

// Scenario is one workload.
type Scenario struct {
	Name     string
	Run      func(w *World)
	Stalls   bool // tolerates injected stalls of all tasks
	MaxSteps int
}

type use struct {
	scn    string
	weight int
}

var scenarios = map[string]*Scenario{}
var suites = map[string][]use{}

func register(s *Scenario, uses map[string]int) {
	scenarios[s.Name] = s
	for p, k := range uses {
		suites[p] = append(suites[p], use{s.Name, k})
	}
}

// Spec identifies one run completely.
type Spec struct {
	Prop     string       `json:"property"`
	Scenario string       `json:"scenario"`
	Cfg      simrt.Config `json:"config"`
	Seed     uint64       `json:"run_seed"`
	Index    int          `json:"index"`
	Job      uint64       `json:"seed"`
	Gen      []uint32     `json:"gen_tape,omitempty"`
	Net      []uint32     `json:"net_tape,omitempty"`
	Sched    []uint32     `json:"sched_tape,omitempty"`
	Tapes    bool         `json:"replay_tapes"`
	All      bool         `json:"all_oracles,omitempty"` // development: every oracle counts
}

// Outcome is what a run showed.
type Outcome struct {
	Viol   *simrt.Violation
	Stats  simrt.Stats
	Feat   map[string]bool
	Others map[string]int
	Trace  []string
	Gen    []uint32
	Net    []uint32
	Sched  []uint32
	Err    string
}

// specFor derives run i of a job.
func specFor(prop string, seed uint64, i int) Spec {
	rs := simrt.Mix(seed, simrt.HashString(prop), uint64(i))
	r := simrt.NewRand(simrt.Mix(rs, 77))
	us := suites[prop]
	if len(us) == 0 {
		panic("no scenario for " + prop)
	}
	us = append([]use(nil), us...)
	sort.Slice(us, func(a, b int) bool { return us[a].scn < us[b].scn })
	tot := 0
	for _, u := range us {
		tot += u.weight
	}
	k := r.Intn(tot)
	var sc *Scenario
	for _, u := range us {
		if k < u.weight {
			sc = scenarios[u.scn]
			break
		}
		k -= u.weight
	}
	c := simrt.Config{Policy: r.Intn(simrt.NumPolicies), MaxSteps: sc.MaxSteps}
	switch r.Intn(6) {
	case 1:
		c.PreemptGap = 200
	case 2:
		c.PreemptGap = 40
	case 3:
		c.PreemptGap = 8
	case 4:
		c.PreemptGap = 3
	}
	if r.Intn(3) == 0 {
		c.SyncPreempt = 0.1
	}
	if sc.Stalls && r.Intn(3) == 0 {
		c.StallProb = 0.003
		c.MaxStall = 6 * time.Second
	}
	if prop == "C17" {
		c.Race = true
		if c.PreemptGap == 0 {
			c.PreemptGap = 25
		}
	}
	if prop == "C16" && r.Intn(6) == 0 {
		// what two sessions share must at least be synchronised
		c.Race, c.RaceGroups = true, true
	}
	return Spec{Prop: prop, Scenario: sc.Name, Cfg: c, Seed: rs, Index: i, Job: seed}
}

type zeroReader struct{ r *simrt.Rand }

func (z zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(z.r.Uint64())
	}
	return len(p), nil
}

// execute performs one run.
func execute(t *testing.T, sp Spec, trace bool) (out *Outcome) {
	out = &Outcome{}
	cfg := sp.Cfg
	cfg.Trace = trace
	sc := scenarios[sp.Scenario]
	if sc == nil {
		out.Err = "unknown scenario " + sp.Scenario
		return
	}
	crand.Reader = zeroReader{simrt.NewRand(sp.Seed)}
	mrand.Seed(int64(sp.Seed >> 1))
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if out.Viol == nil && !strings.Contains(msg, "blocked goroutines remain") {
				out.Err = msg + "\n" + string(debug.Stack())
			}
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		var g, n, s *simrt.Tape
		if sp.Tapes {
			g, n, s = simrt.ReplayTape(sp.Gen), simrt.ReplayTape(sp.Net), simrt.ReplayTape(sp.Sched)
		} else {
			g, n, s = simrt.NewTape(simrt.Mix(sp.Seed, 1)), simrt.NewTape(simrt.Mix(sp.Seed, 2)), simrt.NewTape(simrt.Mix(sp.Seed, 3))
		}
		sim := simrt.New(cfg, g, n, s, simrt.Mix(sp.Seed, 4))
		w := &World{S: sim, Net: simnet.NewNetwork(sim), G: g, Prop: sp.Prop, Others: map[string]int{}, Feat: map[string]bool{},
			Strict: cfg.StallProb == 0, Alias: sp.All || sp.Prop == "C15" || sp.Prop == "C16"}
		sim.OnStep = w.onStep
		defer func() {
			simnet.N = nil
			out.Stats = sim.Stats
			out.Feat = w.Feat
			out.Others = w.Others
			out.Trace = sim.Trace()
			out.Gen, out.Net, out.Sched = g.Rec, n.Rec, s.Rec
			out.Viol = verdict(sim, sp.Prop)
		}()
		sim.Run(func() { sc.Run(w) })
	})
	return
}

func verdict(s *simrt.Sim, prop string) *simrt.Violation {
	if s.Crash != nil {
		v := *s.Crash
		l := strings.Split(v.Msg, "\n")
		if len(l) > 1 {
			v.Class += " " + l[1]
		} else if v.Class != "crash" {
			v.Class = v.Msg
		}
		return &v
	}
	if len(s.Viols) > 0 {
		return &s.Viols[0]
	}
	return nil
}

// ---- jobs ----

type Job struct {
	Mode     string  `json:"mode"` // run, replay, shrink
	Prop     string  `json:"prop"`
	Seed     uint64  `json:"seed"`
	Start    int     `json:"start"`
	Stride   int     `json:"stride"`
	Count    int     `json:"count"`
	Limit    float64 `json:"limit_seconds"`
	Out      string  `json:"out"`
	Progress string  `json:"progress"`
	Replay   string  `json:"replay"`
	Known    []Known `json:"known"`
	Only     string  `json:"only"` // restrict to one scenario
	Hashes   int     `json:"hashes"`
	All      bool    `json:"all"`
}

// Known is a listed finding: a violation of that property whose class and
// message both match is reported but does not fail the check.
type Known struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Match string `json:"match"`
	What  string `json:"what"`
}

type Report struct {
	Runs      int
	Seconds   float64
	SimTime   float64 // seconds
	Steps     int64
	Preempts  int64
	Faults    map[string]int
	FaultRuns map[string]int
	Probes    map[string]int
	Feats     map[string]int
	Scenarios map[string]int
	Policies  map[string]int
	Others    map[string]int
	Sched     []uint64 // distinct schedule hashes
	Trace     map[int]uint64
	Nontriv   int
	MaxTasks  int
	Viols     []Found
	KnownHits map[string]int
	Errs      []string
	Samples   []string
	Shrunk    *Found
	Repro     bool
	Lines     []string
}

type Found struct {
	Spec      Spec
	Class     string
	Msg       string
	TraceHash uint64
	Trace     []string
}

func found(sp Spec, o *Outcome) Found {
	sp.Gen, sp.Net, sp.Sched, sp.Tapes = trim(o.Gen), trim(o.Net), trim(o.Sched), true
	return Found{sp, o.Viol.Class, o.Viol.Msg, o.Stats.TraceHash, o.Trace}
}

func trim(v []uint32) []uint32 {
	n := len(v)
	for n > 0 && v[n-1] == 0 {
		n--
	}
	return v[:n]
}

func isKnown(j *Job, v *simrt.Violation) *Known {
	for i := range j.Known {
		k := &j.Known[i]
		if k.Prop == j.Prop && k.Class == v.Class && strings.Contains(v.Msg, k.Match) {
			return k
		}
	}
	return nil
}

// Main is the worker's entry.
func Main(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_JOB"))
	if err != nil {
		t.Skip("no job")
	}
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	quiet()
	j := &Job{}
	if err := json.Unmarshal(b, j); err != nil {
		t.Fatal(err)
	}
	if j.Stride == 0 {
		j.Stride = 1
	}
	rep := &Report{Faults: map[string]int{}, FaultRuns: map[string]int{}, Probes: map[string]int{}, Feats: map[string]int{}, Scenarios: map[string]int{},
		Policies: map[string]int{}, Others: map[string]int{}, Trace: map[int]uint64{}, KnownHits: map[string]int{}}
	switch j.Mode {
	case "run":
		runJob(t, j, rep)
	case "replay", "shrink":
		b, err := os.ReadFile(j.Replay)
		if err != nil {
			t.Fatal(err)
		}
		f := &Found{}
		if err := json.Unmarshal(b, f); err != nil {
			t.Fatal(err)
		}
		if j.Mode == "shrink" {
			rep.Shrunk = shrink(t, f, time.Duration(j.Limit*float64(time.Second)))
			break
		}
		o := execute(t, f.Spec, true)
		rep.Lines = o.Trace
		if o.Err != "" {
			rep.Errs = append(rep.Errs, o.Err)
		}
		if o.Viol != nil {
			n := found(f.Spec, o)
			rep.Viols = append(rep.Viols, n)
			rep.Repro = o.Viol.Class == f.Class && (f.TraceHash == 0 || f.TraceHash == o.Stats.TraceHash)
		}
	}
	out, err := json.Marshal(rep)
	if err != nil {
		t.Fatal(err)
	}
	tmp := j.Out + ".tmp"
	if err := os.WriteFile(tmp, out, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(tmp, j.Out); err != nil {
		t.Fatal(err)
	}
}

func runJob(t *testing.T, j *Job, rep *Report) {
	start := time.Now()
	seen := map[uint64]struct{}{}
	var prog *os.File
	if j.Progress != "" {
		os.MkdirAll(filepath.Dir(j.Progress), 0o755)
		prog, _ = os.Create(j.Progress)
	}
	polName := []string{"random", "priority", "sticky", "fifo"}
	for k := 0; k < j.Count; k++ {
		if j.Limit > 0 && time.Since(start).Seconds() > j.Limit {
			break
		}
		i := j.Start + k*j.Stride
		sp := specFor(j.Prop, j.Seed, i)
		if j.Only != "" && sp.Scenario != j.Only {
			continue
		}
		sp.All = j.All
		if prog != nil {
			prog.WriteAt([]byte(fmt.Sprintf("%-20d", i)), 0)
		}
		o := execute(t, sp, false)
		rep.Runs++
		if o.Err != "" {
			rep.Errs = append(rep.Errs, fmt.Sprintf("run %d (%s): %s", i, sp.Scenario, o.Err))
			if len(rep.Errs) > 5 {
				break
			}
			continue
		}
		st := &o.Stats
		rep.SimTime += st.SimTime.Seconds()
		rep.Steps += int64(st.Steps)
		rep.Preempts += int64(st.Preempts)
		nf := 0
		for f, c := range st.Faults {
			rep.Faults[f] += c
			rep.FaultRuns[f]++
			nf += c
		}
		for f, c := range st.Probes {
			rep.Probes[f] += c
		}
		for f := range o.Feat {
			rep.Feats[f]++
		}
		for f, c := range o.Others {
			rep.Others[f] += c
		}
		rep.Scenarios[sp.Scenario]++
		rep.Policies[polName[sp.Cfg.Policy]]++
		if _, ok := seen[st.SchedHash]; !ok {
			seen[st.SchedHash] = struct{}{}
			rep.Sched = append(rep.Sched, st.SchedHash)
			if nf > 0 && st.Steps > 30 {
				rep.Nontriv++
			}
		}
		if st.Tasks > rep.MaxTasks {
			rep.MaxTasks = st.Tasks
		}
		if len(rep.Trace) < j.Hashes {
			rep.Trace[i] = st.TraceHash
		}
		if len(rep.Samples) < 4 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("run %d scenario=%s policy=%s preempt_gap=%d steps=%d simulated=%v tasks=%d schedule=%016x faults=%s features=%s",
				i, sp.Scenario, polName[sp.Cfg.Policy], sp.Cfg.PreemptGap, st.Steps, st.SimTime, st.Tasks, st.SchedHash, fmtMap(st.Faults), fmtSet(o.Feat)))
		}
		if o.Viol != nil {
			if kn := isKnown(j, o.Viol); kn != nil {
				rep.KnownHits[kn.What]++
				continue
			}
			rep.Viols = append(rep.Viols, found(sp, o))
			break
		}
	}
	rep.Seconds = time.Since(start).Seconds()
}

func fmtMap(m map[string]int) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s:%d", k, v))
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func fmtSet(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return "{" + strings.Join(l, " ") + "}"
}

func quiet() {
	devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		_ = devnull
	}
	logDiscard(io.Discard)
}

// shrink minimises the tapes of a failing run, keeping the class of failure.
func shrink(t *testing.T, f *Found, limit time.Duration) *Found {
	start := time.Now()
	best := f.Spec
	tries := 0
	try := func(sp Spec) bool {
		if time.Since(start) > limit {
			return false
		}
		tries++
		o := execute(t, sp, false)
		return o.Err == "" && o.Viol != nil && o.Viol.Class == f.Class
	}
	if !try(best) {
		return nil
	}
	get := func(sp *Spec, k int) *[]uint32 {
		switch k {
		case 0:
			return &sp.Sched
		case 1:
			return &sp.Net
		}
		return &sp.Gen
	}
	with := func(k int, v []uint32) Spec {
		sp := best
		*get(&sp, k) = trim(v)
		return sp
	}
	// fewer kinds of interference first
	for _, m := range []func(c *simrt.Config){
		func(c *simrt.Config) { c.StallProb = 0 },
		func(c *simrt.Config) { c.PreemptGap = 0 },
		func(c *simrt.Config) { c.SyncPreempt = 0 },
	} {
		sp := best
		m(&sp.Cfg)
		if sp.Cfg != best.Cfg && try(sp) {
			best = sp
		}
	}
	for round := 0; round < 4; round++ {
		before := len(best.Sched) + len(best.Net) + len(best.Gen)
		changed := false
		for k := 0; k < 3; k++ {
			// truncate
			cur := *get(&best, k)
			lo, hi := 0, len(cur)
			for lo < hi && time.Since(start) < limit {
				mid := (lo + hi) / 2
				if sp := with(k, append([]uint32(nil), cur[:mid]...)); try(sp) {
					hi = mid
					best = sp
				} else {
					lo = mid + 1
				}
			}
			// zero and delete blocks
			for size := len(*get(&best, k)); size >= 1; size /= 2 {
				if time.Since(start) > limit {
					break
				}
				for i := 0; i < len(*get(&best, k)); {
					cur := *get(&best, k)
					e := min(i+size, len(cur))
					nz := false
					for _, x := range cur[i:e] {
						nz = nz || x != 0
					}
					if nz {
						z := append([]uint32(nil), cur...)
						for q := i; q < e; q++ {
							z[q] = 0
						}
						if sp := with(k, z); try(sp) {
							best, changed = sp, true
							i = e
							continue
						}
					}
					if k == 2 || size > 8 || len(cur) < 400 {
						z := append(append([]uint32(nil), cur[:i]...), cur[e:]...)
						if sp := with(k, z); try(sp) {
							best, changed = sp, true
							continue
						}
					}
					i = e
					if time.Since(start) > limit {
						break
					}
				}
			}
			// smaller values
			for i := 0; i < len(*get(&best, k)) && time.Since(start) < limit; i++ {
				cur := *get(&best, k)
				if cur[i] > 1 {
					for _, nv := range []uint32{1, cur[i] / 2} {
						z := append([]uint32(nil), cur...)
						z[i] = nv
						if sp := with(k, z); try(sp) {
							best, changed = sp, true
							break
						}
					}
				}
			}
		}
		if !changed && len(best.Sched)+len(best.Net)+len(best.Gen) == before || time.Since(start) > limit {
			break
		}
	}
	o := execute(t, best, true)
	if o.Viol == nil {
		return nil
	}
	r := found(best, o)
	r.Trace = o.Trace
	return &r
}
