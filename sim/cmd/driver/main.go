// driver runs one check: it builds the simulator from the current tree of the
// repository, spreads the seeded runs over worker processes, minimises and
// confirms what they find and writes the evidence.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Config struct {
	Policy      int
	PreemptGap  int
	SyncPreempt float64
	StallProb   float64
	MaxStall    time.Duration
	Race        bool
	RaceGroups  bool
	Trace       bool
	MaxSteps    int
}

type Spec struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Cfg      Config   `json:"config"`
	Seed     uint64   `json:"run_seed"`
	Index    int      `json:"index"`
	Job      uint64   `json:"seed"`
	Gen      []uint32 `json:"gen_tape,omitempty"`
	Net      []uint32 `json:"net_tape,omitempty"`
	Sched    []uint32 `json:"sched_tape,omitempty"`
	Tapes    bool     `json:"replay_tapes"`
	All      bool     `json:"all_oracles,omitempty"`
}

type Found struct {
	Spec      Spec
	Class     string
	Msg       string
	TraceHash uint64
	Trace     []string
	Fatal     bool // the worker process itself died; replay by seed
}

type Report struct {
	Runs      int
	Seconds   float64
	SimTime   float64
	Steps     int64
	Preempts  int64
	Faults    map[string]int
	FaultRuns map[string]int
	Probes    map[string]int
	Feats     map[string]int
	Scenarios map[string]int
	Policies  map[string]int
	Others    map[string]int
	Sched     []uint64
	Trace     map[int]uint64
	Nontriv   int
	MaxTasks  int
	Viols     []Found
	KnownHits map[string]int
	Errs      []string
	Samples   []string
	Shrunk    *Found
	Repro     bool
	Lines     []string
}

type Known struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Match string `json:"match"`
	What  string `json:"what"`
}

type Job struct {
	Mode     string  `json:"mode"`
	Prop     string  `json:"prop"`
	Seed     uint64  `json:"seed"`
	Start    int     `json:"start"`
	Stride   int     `json:"stride"`
	Count    int     `json:"count"`
	Limit    float64 `json:"limit_seconds"`
	Out      string  `json:"out"`
	Progress string  `json:"progress"`
	Replay   string  `json:"replay"`
	Known    []Known `json:"known"`
	Only     string  `json:"only"`
	Hashes   int     `json:"hashes"`
	All      bool    `json:"all"`
}

// runs per property in the quick tier
var quickRuns = map[string]int{
	"C01": 50000, "C02": 80000, "C03": 80000, "C04": 80000, "C05": 40000, "C06": 40000, "C07": 120000, "C08": 40000, "C09": 24000,
	"C10": 80000, "C11": 45000, "C12": 120000, "C13": 25000, "C14": 35000, "C15": 45000, "C16": 32000, "C17": 60000, "C18": 45000,
}

const defaultQuick = 20000
const thoroughFactor = 40

func fail(f string, a ...any) {
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

type workerResult struct {
	rep    *Report
	err    string
	stderr string
	index  int
	killed bool
}

var binary, tmp string
var jobSeq int
var jobMu sync.Mutex

func runWorker(j Job, hard time.Duration) workerResult {
	jobMu.Lock()
	jobSeq++
	n := jobSeq
	jobMu.Unlock()
	base := filepath.Join(tmp, fmt.Sprintf("job%d", n))
	j.Out = base + ".out"
	j.Progress = base + ".progress"
	b, _ := json.Marshal(j)
	if err := os.WriteFile(base+".json", b, 0o644); err != nil {
		return workerResult{err: err.Error()}
	}
	ef, err := os.Create(base + ".err")
	if err != nil {
		return workerResult{err: err.Error()}
	}
	cmd := exec.Command(binary, "-test.run=^TestWorker$", "-test.timeout=0")
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "VERIF_JOB="+base+".json", "GODEBUG=randseednop=0,asyncpreemptoff=1", "GOMAXPROCS=1", "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	r := workerResult{index: -1}
	if err := cmd.Start(); err != nil {
		r.err = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(hard):
		r.killed = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	ef.Close()
	if b, e := os.ReadFile(j.Progress); e == nil {
		if k, e := strconv.Atoi(strings.TrimSpace(string(b))); e == nil {
			r.index = k
		}
	}
	if b, e := os.ReadFile(j.Out); e == nil {
		r.rep = &Report{}
		if e := json.Unmarshal(b, r.rep); e != nil {
			r.rep = nil
			r.err = "bad report: " + e.Error()
		}
		return r
	}
	eb, _ := os.ReadFile(base + ".err")
	r.stderr = string(eb)
	r.err = fmt.Sprintf("worker ended without a report (%v)", err)
	return r
}

func fatalLine(stderr string) string {
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return ""
}

func hashTree(h interface{ Write([]byte) (int, error) }, root string, skip func(string) bool) {
	var files []string
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == ".build") {
			return filepath.SkipDir
		}
		if !d.IsDir() && !skip(p) {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		fmt.Fprintf(h, "%s %d\n", f, len(b))
		h.Write(b)
	}
}

func build(verif, repo string) string {
	h := sha256.New()
	hashTree(h, repo, func(p string) bool {
		b := filepath.Base(p)
		return !(strings.HasSuffix(b, ".go") && !strings.HasSuffix(b, "_test.go") || b == "go.mod" || b == "go.sum")
	})
	hashTree(h, filepath.Join(verif, "sim"), func(p string) bool { return false })
	hashTree(h, filepath.Join(verif, "worker"), func(p string) bool { return false })
	if b, err := os.ReadFile(filepath.Join(verif, "tools/mkwork.sh")); err == nil {
		h.Write(b)
	}
	fmt.Fprint(h, runtime.Version())
	dir := filepath.Join(verif, ".build", hex.EncodeToString(h.Sum(nil))[:20])
	bin := filepath.Join(dir, "worker.test")
	if _, err := os.Stat(bin); err == nil {
		now := time.Now()
		os.Chtimes(dir, now, now)
		return bin
	}
	os.MkdirAll(filepath.Join(verif, ".build"), 0o755)
	// forget old builds
	if old, err := filepath.Glob(filepath.Join(verif, ".build", "????????????????????")); err == nil {
		for _, o := range old {
			if st, err := os.Stat(o); err == nil && time.Since(st.ModTime()) > time.Hour {
				os.RemoveAll(o)
			}
		}
	}
	part := fmt.Sprintf("%s.part%d", dir, os.Getpid())
	defer os.RemoveAll(part)
	cmd := exec.Command("/bin/bash", filepath.Join(verif, "tools/mkwork.sh"), repo, part)
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.RemoveAll(part)
		fail("building the simulator from %s failed: %v\n%s", repo, err, out)
	}
	os.MkdirAll(dir, 0o755)
	if err := os.Rename(filepath.Join(part, "worker.test"), bin); err != nil {
		fail("%v", err)
	}
	return bin
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func main() {
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	runs := flag.Int("runs", 0, "")
	start := flag.Int("start", 0, "")
	workers := flag.Int("workers", 8, "")
	limit := flag.Float64("limit", 0, "wall clock limit of the search in seconds")
	replay := flag.String("replay", "", "")
	only := flag.String("only", "", "")
	dev := flag.Bool("dev", false, "")
	justBuild := flag.Bool("build", false, "")
	noShrink := flag.Bool("noshrink", false, "")
	all := flag.Bool("all", false, "every oracle counts")
	determinism := flag.Bool("determinism", false, "")
	flag.Parse()
	t0 := time.Now()
	binary = build(*verif, *repo)
	buildTime := time.Since(t0).Seconds()
	if *justBuild {
		fmt.Printf("built %s in %.1fs\n", binary, buildTime)
		return
	}
	var err error
	tmp, err = os.MkdirTemp("", "verif-"+*prop+"-")
	if err != nil {
		fail("%v", err)
	}
	code := 2
	defer func() {
		os.RemoveAll(tmp)
		os.Exit(code)
	}()
	if *replay != "" {
		code = doReplay(*replay)
		return
	}
	known, fixed := readKnown(*verif)
	_ = fixed
	count := quickRuns[*prop]
	if count == 0 {
		count = defaultQuick
	}
	lim := *limit
	if *tier == "thorough" {
		count *= thoroughFactor
		if lim == 0 {
			lim = 3000
		}
	} else if lim == 0 {
		lim = 420
	}
	if *runs > 0 {
		count = *runs
	}
	if *determinism {
		code = doDeterminism(*prop, *seed, count, *start)
		return
	}
	nw := *workers
	if nw > count {
		nw = count
	}
	var wg sync.WaitGroup
	res := make([]workerResult, nw)
	searchStart := time.Now()
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := (count - i + nw - 1) / nw
			res[i] = runWorker(Job{Mode: "run", Prop: *prop, Seed: *seed, Start: *start + i, Stride: nw, Count: n, Limit: lim, Known: known, Only: *only, Hashes: 12, All: *all},
				time.Duration(lim+120)*time.Second)
		}()
	}
	wg.Wait()
	searchTime := time.Since(searchStart).Seconds()
	tot := &Report{Faults: map[string]int{}, FaultRuns: map[string]int{}, Probes: map[string]int{}, Feats: map[string]int{}, Scenarios: map[string]int{},
		Policies: map[string]int{}, Others: map[string]int{}, KnownHits: map[string]int{}, Trace: map[int]uint64{}}
	distinct := map[uint64]struct{}{}
	var finds []Found
	var trouble []string
	for i := range res {
		r := &res[i]
		if r.rep == nil {
			line := fatalLine(r.stderr)
			if r.killed || line == "" || r.index < 0 {
				trouble = append(trouble, fmt.Sprintf("worker %d: %s at run %d (killed: %v)\n%s", i, r.err, r.index, r.killed, tail(r.stderr, 4000)))
				continue
			}
			// the process died: confirm with that run alone
			c := runWorker(Job{Mode: "run", Prop: *prop, Seed: *seed, Start: r.index, Stride: 1, Count: 1, Known: known}, 120*time.Second)
			if c.rep == nil && fatalLine(c.stderr) == line {
				finds = append(finds, Found{Spec: Spec{Prop: *prop, Seed: *seed, Job: *seed, Index: r.index}, Class: "process death", Msg: line + "\n" + tail(c.stderr, 3000), Fatal: true})
			} else {
				trouble = append(trouble, fmt.Sprintf("worker %d died at run %d (%s) and the run alone does not repeat it", i, r.index, line))
			}
			continue
		}
		p := r.rep
		tot.Runs += p.Runs
		tot.SimTime += p.SimTime
		tot.Steps += p.Steps
		tot.Preempts += p.Preempts
		tot.Nontriv += p.Nontriv
		if p.MaxTasks > tot.MaxTasks {
			tot.MaxTasks = p.MaxTasks
		}
		addMap(tot.Faults, p.Faults)
		addMap(tot.FaultRuns, p.FaultRuns)
		addMap(tot.Probes, p.Probes)
		addMap(tot.Feats, p.Feats)
		addMap(tot.Scenarios, p.Scenarios)
		addMap(tot.Policies, p.Policies)
		addMap(tot.Others, p.Others)
		addMap(tot.KnownHits, p.KnownHits)
		for _, h := range p.Sched {
			distinct[h] = struct{}{}
		}
		for k, v := range p.Trace {
			tot.Trace[k] = v
		}
		finds = append(finds, p.Viols...)
		trouble = append(trouble, p.Errs...)
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, p.Samples...)
		}
	}
	// the same runs again in other processes, split differently
	detChecked, detDiff := 0, 0
	var idx []int
	for k := range tot.Trace {
		idx = append(idx, k)
	}
	sort.Ints(idx)
	if len(idx) > 0 && *only == "" && !*all && len(finds) == 0 {
		k := min(len(idx), 64)
		parts := 3
		rr := make([]workerResult, parts)
		for i := 0; i < parts; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr[i] = runWorker(Job{Mode: "run", Prop: *prop, Seed: *seed, Start: idx[0] + i, Stride: parts, Count: (k + parts - 1 - i) / parts, Known: known, Hashes: 1 << 20}, 300*time.Second)
			}()
		}
		wg.Wait()
		for i := range rr {
			if rr[i].rep == nil {
				continue
			}
			for n, h := range rr[i].rep.Trace {
				if o, ok := tot.Trace[n]; ok {
					detChecked++
					if o != h {
						detDiff++
					}
				}
			}
		}
	}
	if *dev {
		fmt.Printf("runs %d in %.1fs (%.0f/s), sim %.0fs, steps/run %d, distinct %d, nontrivial %d, determinism %d checked %d differ\n", tot.Runs, searchTime, float64(tot.Runs)/searchTime, tot.SimTime,
			tot.Steps/int64(max(1, tot.Runs)), len(distinct), tot.Nontriv, detChecked, detDiff)
		fmt.Println("scenarios", tot.Scenarios)
		fmt.Println("faults", tot.Faults)
		fmt.Println("probes", tot.Probes)
		fmt.Println("features", tot.Feats)
		fmt.Println("other oracles", tot.Others)
	}
	// violations: lowest run first, minimise, confirm in a fresh process
	sort.Slice(finds, func(a, b int) bool { return finds[a].Spec.Index < finds[b].Spec.Index })
	viols := 0
	var vline string
	for k, f := range finds {
		if k >= 6 {
			break
		}
		path, why := settle(*verif, *prop, f, *noShrink, *tier)
		if path == "" {
			trouble = append(trouble, fmt.Sprintf("violation of run %d (%s: %s) did not repeat: %s", f.Spec.Index, f.Class, firstLine(f.Msg), why))
			continue
		}
		viols = len(finds)
		fmt.Printf("run %d, scenario %s, %s: %s\n", f.Spec.Index, f.Spec.Scenario, f.Class, f.Msg)
		vline = fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path)
		break
	}
	for what, n := range tot.KnownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s (in %d runs)\n", *prop, what, n)
	}
	for _, kn := range known {
		if kn.Prop == *prop && tot.KnownHits[kn.What] == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this sample)\n", *prop, kn.What)
		}
	}
	writeEvidence(*verif, *prop, *tier, *seed, tot, len(distinct), searchTime, buildTime, time.Since(t0).Seconds(), viols, detChecked, detDiff, nw)
	switch {
	case vline != "":
		fmt.Println(vline)
		code = 1
	case len(trouble) > 0:
		for _, t := range trouble {
			fmt.Println("ERROR", t)
		}
		code = 2
	case tot.Runs == 0:
		fmt.Println("ERROR no run was made")
		code = 2
	default:
		fmt.Printf("%s held on %d simulated runs (%d distinct interleavings, %.0f simulated hours, %.0fs)\n", *prop, tot.Runs, len(distinct), tot.SimTime/3600, time.Since(t0).Seconds())
		code = 0
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// settle minimises a violation, writes its replay file and confirms that a
// fresh process repeats it exactly.
func settle(verif, prop string, f Found, noShrink bool, tier string) (string, string) {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	write := func(f *Found) string {
		b, _ := json.MarshalIndent(f, "", " ")
		h := sha256.Sum256(b)
		p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", prop, hex.EncodeToString(h[:])[:12]))
		os.WriteFile(p, b, 0o644)
		return p
	}
	if f.Fatal {
		return write(&f), ""
	}
	raw := write(&f)
	confirm := func(p string) bool {
		r := runWorker(Job{Mode: "replay", Prop: prop, Replay: p}, 200*time.Second)
		return r.rep != nil && r.rep.Repro
	}
	if !noShrink {
		lim := 25.0
		if tier == "thorough" {
			lim = 200
		}
		r := runWorker(Job{Mode: "shrink", Prop: prop, Replay: raw, Limit: lim}, time.Duration(lim+100)*time.Second)
		if r.rep != nil && r.rep.Shrunk != nil {
			p := write(r.rep.Shrunk)
			if confirm(p) {
				if p != raw {
					os.Remove(raw)
				}
				return p, ""
			}
			os.Remove(p)
		}
	}
	f.TraceHash = 0
	b, _ := json.MarshalIndent(&f, "", " ")
	os.WriteFile(raw, b, 0o644)
	if confirm(raw) {
		return raw, ""
	}
	os.Remove(raw)
	return "", "the replay in a fresh process shows no such violation"
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	f := &Found{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if f.Fatal {
		r := runWorker(Job{Mode: "run", Prop: f.Spec.Prop, Seed: f.Spec.Job, Start: f.Spec.Index, Stride: 1, Count: 1}, 200*time.Second)
		if r.rep == nil && fatalLine(r.stderr) != "" {
			fmt.Println(tail(r.stderr, 4000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Spec.Prop, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	r := runWorker(Job{Mode: "replay", Prop: f.Spec.Prop, Replay: path}, 200*time.Second)
	if r.rep == nil {
		fmt.Println("ERROR", r.err, tail(r.stderr, 4000))
		return 2
	}
	for _, l := range r.rep.Lines {
		fmt.Println(l)
	}
	for _, e := range r.rep.Errs {
		fmt.Println("ERROR", e)
	}
	if len(r.rep.Viols) == 0 {
		fmt.Println("no violation")
		return 0
	}
	v := r.rep.Viols[0]
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	if !r.rep.Repro {
		fmt.Printf("differs from the recorded run (class %q, hash %x, now %x)\n", f.Class, f.TraceHash, v.TraceHash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Spec.Prop, path)
	return 1
}

// doDeterminism runs the same seeds in differently split processes and
// compares the complete histories.
func doDeterminism(prop string, seed uint64, count, start int) int {
	collect := func(parts int) map[int]uint64 {
		m := map[int]uint64{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		for i := 0; i < parts; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := runWorker(Job{Mode: "run", Prop: prop, Seed: seed, Start: start + i, Stride: parts, Count: (count - i + parts - 1) / parts, Hashes: 1 << 30}, time.Hour)
				if r.rep == nil {
					fmt.Println("ERROR", r.err)
					return
				}
				mu.Lock()
				for k, v := range r.rep.Trace {
					m[k] = v
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		return m
	}
	a, b := collect(8), collect(3)
	n, d := 0, 0
	for k, v := range a {
		if w, ok := b[k]; ok {
			n++
			if v != w {
				d++
				if d < 5 {
					fmt.Printf("run %d differs: %x %x\n", k, v, w)
				}
			}
		}
	}
	fmt.Printf("%s: %d runs compared between 8 and 3 processes, %d differ\n", prop, n, d)
	if d > 0 {
		return 2
	}
	return 0
}

func readKnown(verif string) (known []Known, fixed []string) {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(l, "fixed:"):
			fixed = append(fixed, l)
		case strings.HasPrefix(l, "{"):
			var k Known
			if err := json.Unmarshal([]byte(l), &k); err != nil {
				fail("known-findings.txt: %v", err)
			}
			known = append(known, k)
		}
	}
	return
}

func top(m map[string]int) map[string]int { return m }

func writeEvidence(verif, prop, tier string, seed uint64, t *Report, distinct int, search, build, wall float64, viols, detN, detDiff, nw int) {
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": min(t.Nontriv, distinct),
		"rule": "one evaluation is one complete simulated execution (real client code, simulated scheduler, clock, network and peer) derived from (VERIF_SEED, property, run number); " +
			"it is distinct if the hash of its sequence of scheduling decisions (task, code location, operation, environment event) is new, and non-trivial if in addition it took more than 30 scheduling steps and at least one injected fault fired",
		"samples":                      t.Samples,
		"distinct_interleavings":       distinct,
		"interleaving_measure":         "64 bit hash over the sequence of (task id, resumption site, operation) and environment events of the run",
		"runs_per_hour":                int(float64(t.Runs) / search * 3600),
		"seeds_per_hour":               int(float64(t.Runs) / search * 3600),
		"simulated_seconds":            t.SimTime,
		"scheduling_steps":             t.Steps,
		"forced_preemptions":           t.Preempts,
		"max_tasks_in_a_run":           t.MaxTasks,
		"faults_fired":                 t.Faults,
		"runs_with_fault":              t.FaultRuns,
		"features_runs":                t.Feats,
		"probes":                       t.Probes,
		"scenarios":                    t.Scenarios,
		"scheduling_policies":          t.Policies,
		"oracles_of_other_properties":  t.Others,
		"determinism_runs_repeated":    detN,
		"determinism_runs_that_differ": detDiff,
		"worker_processes":             nw,
		"search_seconds":               search,
		"build_seconds":                build,
		"components_real":              []string{"rtspclient (root package)", "rtspclient/tcpnetwork", "rtspclient/sdp", "github.com/gorilla/websocket client"},
		"components_stub":              []string{"goroutine scheduler, channels' wake-up order, select choice (simrt)", "clock and timers (testing/synctest)", "TCP network and dialling (simnet)", "RTSP server, WebSocket server and framed peers", "application callbacks"},
		"known_findings_met":           t.KnownHits,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viols,
		"assumptions": []string{"the translation to scheduler operations (simgen) preserves the meaning of the Go source", "code between two intercepted operations or accesses is executed atomically",
			"the simulated network offers what TCP offers: ordered bytes, segmentation, delay, end, reset, bounded buffers"}}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, prop+".json")
	if err := os.WriteFile(p+".tmp", append(b, '\n'), 0o644); err != nil {
		fail("%v", err)
	}
	os.Rename(p+".tmp", p)
}
