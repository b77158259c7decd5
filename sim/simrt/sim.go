// Package simrt is the simulation runtime: it decides which task (goroutine of
// the code under test or of the workload) runs next, when simulated time
// advances and when network events are delivered.  It runs inside a
// testing/synctest bubble, which supplies the fake clock and the detection that
// every task is blocked; the choice of who proceeds is always the Sched tape's.
package simrt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
)

// S is the simulation in progress, nil outside of one.
var S *Sim

// Scheduling policies (how the Sched tape is filled when generating).
const (
	PolicyRandom = iota
	PolicyPriority
	PolicySticky
	PolicyFIFO
	NumPolicies
)

type Config struct {
	Policy      int
	PreemptGap  int     // mean number of shared accesses between forced preemption points, 0 = none
	SyncPreempt float64 // probability of a preemption point before a synchronisation operation
	StallProb   float64 // probability that simulated time passes although tasks are runnable
	MaxStall    time.Duration
	Race        bool // happens-before data race detection
	RaceGroups  bool // only between tasks of different groups
	Trace       bool // keep a full text trace
	MaxSteps    int
}

type state int

const (
	stNew state = iota
	stRunning
	stParked
	stBlocked
	stDone
)

// Task is one goroutine under the scheduler's control.
type Task struct {
	ID      int
	Name    string
	Lib     bool // started by the code under test
	GoSite  int32
	Group   int // inherited by the tasks it starts
	grant   chan struct{}
	st      state
	op      string
	site    int32
	vc      []uint32
	prio    uint64
	Started time.Duration
	Ended   time.Duration
}

func (t *Task) Done() bool { return t.st == stDone }

func (t *Task) Describe() string {
	w := "running"
	switch t.st {
	case stParked:
		w = "runnable"
	case stBlocked:
		w = "blocked"
	case stDone:
		w = "done"
	}
	return fmt.Sprintf("task %d %s: %s in %s at %s", t.ID, t.Name, w, t.op, SiteName(t.site))
}

type event struct {
	at   time.Duration
	seq  uint64
	name string
	run  func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any     { o := *h; e := o[len(o)-1]; *h = o[:len(o)-1]; return e }

// Violation is a broken property found in a run.
type Violation struct {
	Class string // stable identity of the kind of failure
	Msg   string
}

type Stats struct {
	Steps      int
	SimTime    time.Duration
	Preempts   int
	StallTime  time.Duration
	Tasks      int
	Faults     map[string]int
	Probes     map[string]int
	SchedHash  uint64 // hash of the sequence of (task, site, op) decisions
	TraceHash  uint64 // hash of everything logged, time included
	SchedDraws int
}

type Sim struct {
	Cfg   Config
	Gen   *Tape // workload and fault plan
	Net   *Tape // run-time network choices
	Sched *Tape // scheduling choices
	pol   *Rand // policy state, generation only

	start      time.Time
	cur        *Task
	last       *Task
	sticky     int
	tasks      []*Task
	mu         sync.Mutex
	fresh      []*Task
	parked     []*Task
	wake       chan struct{}
	kill       chan struct{}
	killed     atomic.Bool
	events     eventHeap
	evSeq      uint64
	gap        int
	ticks      int
	instant    int
	instantPre int // preemptions before the last progress
	progress   int // network deliveries; each allows for more steps
	changes    map[int]bool

	Viols    []Violation
	Crash    *Violation
	stopped  bool
	Stats    Stats
	trace    []string
	race     *raceState
	mainTask *Task

	OnStep func() // invariant evaluated after every scheduling step
}

var sites []string

// AddSites registers source locations for a contiguous range of site numbers.
func AddSites(first int32, names []string) {
	for len(sites) < int(first)+len(names) {
		sites = append(sites, "?")
	}
	copy(sites[first:], names)
}

// SiteName is the source location of a site number.
func SiteName(i int32) string {
	if i >= 0 && int(i) < len(sites) && sites[i] != "" {
		return sites[i]
	}
	if i < 0 {
		return "harness"
	}
	return "?"
}

// New prepares a simulation; it must be called inside the bubble.
func New(cfg Config, gen, net, sched *Tape, polSeed uint64) *Sim {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 400000
	}
	s := &Sim{Cfg: cfg, Gen: gen, Net: net, Sched: sched, pol: NewRand(polSeed),
		start: time.Now(), wake: make(chan struct{}, 1), kill: make(chan struct{})}
	s.Stats.Faults = map[string]int{}
	s.Stats.Probes = map[string]int{}
	s.Stats.SchedHash = 14695981039346656037
	s.Stats.TraceHash = 14695981039346656037
	if cfg.Race {
		s.race = newRaceState()
	}
	if cfg.Policy == PolicyPriority {
		s.changes = map[int]bool{}
		for i := 0; i < 1+s.pol.Intn(6); i++ {
			s.changes[s.pol.Intn(600)] = true
		}
	}
	s.gap = s.drawGap()
	return s
}

func (s *Sim) drawGap() int {
	if s.Cfg.PreemptGap <= 0 {
		return 1 << 60
	}
	g := s.Sched.Draw(1<<20, func(r *Rand) int {
		return 1 + r.Intn(2*s.Cfg.PreemptGap)
	})
	if g == 0 {
		return 1 << 60
	}
	return g
}

// Now is the simulated time since the run began.
func (s *Sim) Now() time.Duration { return time.Since(s.start) }

func (s *Sim) Fault(kind string) { s.Stats.Faults[kind]++ }
func (s *Sim) Probe(name string) { s.Stats.Probes[name]++ }

func (s *Sim) Violate(class, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	s.Viols = append(s.Viols, Violation{class, msg})
	s.Logf("VIOLATION %s: %s", class, msg)
}

func hashAdd(h *uint64, str string) {
	x := *h
	for i := 0; i < len(str); i++ {
		x ^= uint64(str[i])
		x *= 1099511628211
	}
	*h = x
}

// Logf adds to the history of the run (hashed always, kept when tracing).
func (s *Sim) Logf(format string, a ...any) {
	line := fmt.Sprintf("%12v ", s.Now()) + fmt.Sprintf(format, a...)
	s.mu.Lock()
	hashAdd(&s.Stats.TraceHash, line)
	if s.Cfg.Trace {
		s.trace = append(s.trace, line)
	}
	s.mu.Unlock()
}

func (s *Sim) Trace() []string { return s.trace }

// After schedules an event of the environment.
func (s *Sim) After(d time.Duration, name string, f func()) {
	if d < 0 {
		d = 0
	}
	s.evSeq++
	heap.Push(&s.events, &event{s.Now() + d, s.evSeq, name, f})
}

func (s *Sim) newTask(name string, lib bool, site int32) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Lib: lib, GoSite: site, grant: make(chan struct{}, 1), site: site, op: "start", Started: s.Now()}
	t.prio = s.pol.Uint64()
	if s.cur != nil {
		t.Group = s.cur.Group
	}
	s.tasks = append(s.tasks, t)
	if s.race != nil {
		s.race.fork(s.cur, t)
	}
	return t
}

func (s *Sim) startTask(t *Task, f func()) {
	go func() {
		ok := false
		defer func() {
			if !ok {
				if r := recover(); r != nil && !s.killed.Load() {
					s.mu.Lock()
					if s.Crash == nil {
						s.Crash = &Violation{"crash", fmt.Sprintf("goroutine %s panicked: %v\n%s", t.Name, r, trimStack(debug.Stack()))}
					}
					s.mu.Unlock()
				}
			}
			t.Ended = s.Now()
			t.st = stDone
			t.op = "done"
			if s.race != nil && !s.killed.Load() {
				s.race.exit(t)
			}
			select {
			case s.wake <- struct{}{}:
			default:
			}
		}()
		t.park("start", t.site)
		f()
		ok = true
	}()
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if i := strings.Index(l, "/sut/"); i >= 0 {
				l = l[i+5:]
			} else {
				continue
			}
			out = append(out, l)
			if len(out) > 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

// park gives up the processor until the scheduler grants it again.
func (t *Task) park(op string, site int32) {
	s := S
	s.mu.Lock()
	t.st = stParked
	t.op, t.site = op, site
	s.fresh = append(s.fresh, t)
	s.mu.Unlock()
	select {
	case s.wake <- struct{}{}:
	default:
	}
	select {
	case <-t.grant:
	case <-s.kill:
		runtime.Goexit()
	}
}

func (t *Task) block(op string, site int32) {
	t.st = stBlocked
	t.op, t.site = op, site
}

// pre is the entry of every synchronisation operation; nil means "not under
// the scheduler" and the caller performs the plain operation.
func (s *Sim) pre(op string, site int32) *Task {
	if s.killed.Load() {
		runtime.Goexit()
	}
	t := s.cur
	if t == nil {
		return nil
	}
	t.op, t.site = op, site
	if s.Cfg.SyncPreempt > 0 && s.Sched.Draw(2, func(r *Rand) int {
		if r.Float() < s.Cfg.SyncPreempt {
			return 1
		}
		return 0
	}) == 1 {
		s.Stats.Preempts++
		t.park(op, site)
	}
	return t
}

const maxPreSteps = 1000000

// Progress tells that the outside world did something; the limits on
// scheduling steps are relative to it.
func (s *Sim) Progress() {
	s.instant = 0
	s.instantPre = s.Stats.Preempts
	s.progress++
}

func (s *Sim) collect() {
	s.mu.Lock()
	f := s.fresh
	s.fresh = nil
	s.mu.Unlock()
	if len(f) > 1 {
		sort.Slice(f, func(i, j int) bool { return f[i].ID < f[j].ID })
	}
	s.parked = append(s.parked, f...)
}

// Run executes main as the driver task until it ends (or the run is cut short).
func (s *Sim) Run(main func()) {
	for _, f := range resets {
		f()
	}
	S = s
	defer func() { S = nil }()
	s.mainTask = s.newTask("driver", false, -1)
	s.startTask(s.mainTask, main)
	lastTime := time.Duration(-1)
	for {
		synctest.Wait()
		s.cur = nil
		s.collect()
		if s.OnStep != nil {
			s.OnStep()
		}
		if s.Crash != nil || s.stopped || s.mainTask.st == stDone || len(s.Viols) > 0 {
			break
		}
		now := s.Now()
		if now != lastTime {
			lastTime = now
			s.instant = 0
			s.instantPre = s.Stats.Preempts
		}
		s.Stats.Steps++
		s.instant++
		// steps that only a preemption made are not the code's doing
		if s.instant > 100000+min(s.Stats.Preempts-s.instantPre, maxPreSteps) {
			s.Violate("livelock", "100000 scheduling steps without simulated time advancing; %s", s.blockedSummary())
			break
		}
		if lim := s.Cfg.MaxSteps + 20*s.progress + min(s.Stats.Preempts, 2*maxPreSteps); s.Stats.Steps > lim {
			s.Violate("livelock", "more than %d scheduling steps; %s", lim, s.blockedSummary())
			break
		}
		evDue := len(s.events) > 0 && s.events[0].at <= now
		n := len(s.parked)
		if n == 0 && !evDue {
			d := 2 * time.Hour
			if len(s.events) > 0 {
				d = s.events[0].at - now
			}
			tm := time.NewTimer(d)
			select {
			case <-s.wake:
			case <-tm.C:
				if len(s.events) == 0 {
					panic("simrt: nothing can happen any more: " + s.blockedSummary())
				}
			}
			tm.Stop()
			continue
		}
		k := n
		if evDue {
			k++
		}
		stall := -1
		if n > 0 && s.Cfg.StallProb > 0 && s.Stats.StallTime < s.Cfg.MaxStall {
			stall = k
			k++
		}
		// candidates: the current task first if it is runnable, then the
		// others, oldest first, then the due event, then a stall
		ci := -1
		for i, t := range s.parked {
			if t == s.last {
				ci = i
				break
			}
		}
		if ci > 0 && s.sticky < 200 {
			t := s.parked[ci]
			copy(s.parked[1:ci+1], s.parked[:ci])
			s.parked[0] = t
		} else if ci == 0 && s.sticky >= 200 && n > 1 {
			t := s.parked[0]
			copy(s.parked, s.parked[1:])
			s.parked[n-1] = t
			s.sticky = 0
		}
		pick := s.Sched.Draw(k, func(r *Rand) int { return s.policy(r, n, evDue, stall) })
		switch {
		case pick == stall && stall >= 0:
			d := []time.Duration{time.Millisecond, 20 * time.Millisecond, 300 * time.Millisecond, 2100 * time.Millisecond}[s.Sched.Int(4)]
			s.Stats.StallTime += d
			s.Fault("stalled-tasks")
			s.Logf("stall %v", d)
			time.Sleep(d)
		case pick >= n:
			e := heap.Pop(&s.events).(*event)
			hashAdd(&s.Stats.SchedHash, e.name)
			if s.Cfg.Trace {
				s.Logf("event %s", e.name)
			}
			e.run()
		default:
			t := s.parked[pick]
			s.parked = append(s.parked[:pick], s.parked[pick+1:]...)
			if t == s.last {
				s.sticky++
			} else {
				s.sticky = 0
			}
			s.last = t
			h := &s.Stats.SchedHash
			*h = (*h ^ uint64(t.ID)<<32 ^ uint64(uint32(t.site))) * 1099511628211
			hashAdd(h, t.op)
			if s.Cfg.Trace {
				s.Logf("run   task %d %s [%s at %s]", t.ID, t.Name, t.op, SiteName(t.site))
			}
			t.st = stRunning
			s.ticks = 0
			s.cur = t
			t.grant <- struct{}{}
		}
	}
	if s.Crash != nil {
		s.Logf("CRASH %s", s.Crash.Msg)
	}
	s.Stats.SimTime = s.Now()
	s.Stats.Tasks = len(s.tasks)
	s.Stats.SchedDraws = len(s.Sched.Rec)
	hashAdd(&s.Stats.TraceHash, fmt.Sprint(s.Stats.Steps, s.Stats.SimTime, s.Stats.SchedHash))
	s.cur = nil
	s.killed.Store(true)
	close(s.kill)
	synctest.Wait()
}

func (s *Sim) policy(r *Rand, n int, evDue bool, stall int) int {
	if stall >= 0 && r.Float() < s.Cfg.StallProb {
		return stall
	}
	k := n
	if evDue {
		k++
	}
	switch s.Cfg.Policy {
	case PolicyPriority:
		if s.changes[s.Stats.Steps] && n > 0 {
			// lower the priority of whoever would run
			b := s.best(n)
			s.parked[b].prio >>= 20
		}
		if n == 0 {
			return 0
		}
		if evDue && r.Float() < 0.2 {
			return n
		}
		return s.best(n)
	case PolicySticky:
		if r.Float() < 0.85 {
			return 0
		}
		return r.Intn(k)
	case PolicyFIFO:
		if evDue && r.Float() < 0.3 {
			return n
		}
		return 0
	}
	return r.Intn(k)
}

func (s *Sim) best(n int) int {
	b := 0
	for i := 1; i < n; i++ {
		if s.parked[i].prio > s.parked[b].prio {
			b = i
		}
	}
	return b
}

func (s *Sim) blockedSummary() string {
	var l []string
	for _, t := range s.tasks {
		if t.st != stDone {
			l = append(l, t.Describe())
		}
	}
	return strings.Join(l, "; ")
}

// Stop ends the run after the current step.
func (s *Sim) Stop() { s.stopped = true }

// LiveLib returns the unfinished tasks started by the code under test.
func (s *Sim) LiveLib() []*Task {
	var l []*Task
	for _, t := range s.tasks {
		if t.Lib && t.st != stDone {
			l = append(l, t)
		}
	}
	return l
}

func (s *Sim) Tasks() []*Task { return s.tasks }

// CurTask is the task executing now (nil in environment events).
func (s *Sim) CurTask() *Task { return s.cur }

// Killed tells whether the run is being torn down.
func (s *Sim) Killed() bool { return s.killed.Load() }
