package simkit

import (
	"bufio"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// result is what a worker process reports.
type result struct {
	Runs, Checks, Ops, SimMs int64
	Faults, Probes           map[string]int64
	Distinct                 []uint64 // schedules of non-trivial runs
	States                   []uint64
	Samples                  []Trace
	Logs                     map[int]uint64 // event log hash of some runs
	Violation                *Trace         // first violation, as found
	Err                      string
	TimedOut                 bool
}

// Main is the entry point of a simulator binary.
//
//	sim check  PROP TIER VERIFDIR   explore, write evidence, report violations
//	sim replay PROP FILE            re-execute one replay file
//	sim trace  PROP SEED RUN [FROM] print the event log of one run (after those since FROM)
//	sim hashes PROP SEED FROM TO    print event log hashes (determinism proof)
//	sim worker ...                  internal
func Main(args []string, props []*Prop) int {
	find := func(id string) *Prop {
		for _, p := range props {
			if p.ID == id {
				return p
			}
		}
		fmt.Fprintf(os.Stderr, "no property %s in this simulator\n", id)
		os.Exit(2)
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintf(os.Stderr, "simulator error: %v\n%s", r, debug.Stack())
			os.Exit(harnessError())
		}
	}()
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: sim check|replay|trace|hashes ...")
		return 2
	}
	switch args[0] {
	case "worker":
		return worker(find(args[1]), args[2:])
	case "minimise":
		return minimise(find(args[1]), args[2])
	case "replay":
		return replay(find(args[1]), args[2])
	case "trace":
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		run, _ := strconv.Atoi(args[3])
		p := find(args[1])
		tr := generate(p, seed, run)
		for i, e := range tr.Ev {
			fmt.Println(i, e.Short())
		}
		if len(args) > 4 { // after other runs in the same process
			from, _ := strconv.Atoi(args[4])
			for ; from < run; from++ {
				Execute(p, generate(p, seed, from), nil)
			}
		}
		c, v := Execute(p, tr, func(s string) { fmt.Fprintln(os.Stderr, s) })
		fmt.Printf("log %x checks %d faults %v probes %v violation %v\n", c.LogHash(), c.Checks, c.Faults, c.Probes, v)
		return 0
	case "hashes":
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		from, _ := strconv.Atoi(args[3])
		to, _ := strconv.Atoi(args[4])
		p := find(args[1])
		out := bufio.NewWriter(os.Stderr)
		for run := from; run < to; run++ {
			tr := generate(p, seed, run)
			c, v := Execute(p, tr, nil)
			fmt.Fprintf(out, "%s %d %d %x %x %v\n", p.ID, seed, run, tr.Hash(), c.LogHash(), v)
		}
		out.Flush()
		return 0
	case "check":
		return check(find(args[1]), args[2], args[3])
	}
	return 2
}

// harnessError is the exit status of a process that failed by itself, unlike one that the
// code under test took down (the Go runtime then exits with 2).
func harnessError() int {
	if os.Getenv("VERIF_WORKER") != "" {
		return 3
	}
	return 2
}

func generate(p *Prop, seed uint64, run int) *Trace {
	r := NewRng(Mix(seed, HashStr(p.ID), uint64(run)))
	tr := p.Gen(r, run)
	tr.Prop, tr.Seed, tr.Run = p.ID, seed, run
	return tr
}

// worker explores runs first, first+stride, ... below total.
func worker(p *Prop, args []string) int {
	num := func(i int) int { n, _ := strconv.Atoi(args[i]); return n }
	seed, _ := strconv.ParseUint(args[0], 10, 64)
	first, stride, total, limit := num(1), num(2), num(3), num(4)
	logEvery := num(5)
	out := os.NewFile(3, "result")
	res := result{Faults: map[string]int64{}, Probes: map[string]int64{}, Logs: map[int]uint64{}}
	states := map[uint64]struct{}{}
	deadline := time.Now().Add(time.Duration(limit) * time.Second)

	// A run that does not come back breaks its property: nothing in these runs waits for long
	var mu sync.Mutex
	report := func() {
		b, err := json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		out.Write(b)
		out.Close()
	}
	var cur *Trace
	dog := watch(func(class, what string) {
		mu.Lock()
		tr := *cur
		tr.Class, tr.What = class, what
		res = result{Runs: 1, Checks: 1, Violation: &tr}
		report()
		os.Exit(0)
	})

	progress := os.NewFile(4, "progress")
	for run := first; run < total; run += stride {
		if progress != nil {
			progress.WriteAt(binary.LittleEndian.AppendUint64(nil, uint64(run)), 0)
		}
		if time.Now().After(deadline) {
			res.TimedOut = true
			break
		}
		tr := generate(p, seed, run)
		mu.Lock()
		cur = tr
		mu.Unlock()
		dog.kick()
		c, v := Execute(p, tr, nil)
		res.Runs++
		res.Checks += c.Checks
		res.Ops += c.Ops
		res.SimMs += c.SimMs
		for k, n := range c.Faults {
			res.Faults[k] += n
		}
		for k, n := range c.Probes {
			res.Probes[k] += n
		}
		for s := range c.States {
			states[s] = struct{}{}
		}
		if p.NonTrivial == nil || p.NonTrivial(c, tr) {
			res.Distinct = append(res.Distinct, tr.Hash())
			if len(res.Samples) < 1 && len(tr.Ev) <= 60 {
				res.Samples = append(res.Samples, *tr)
			}
		}
		if logEvery > 0 && run%logEvery == 0 {
			res.Logs[run] = c.LogHash()
		}
		if v != nil {
			tr.Class, tr.What = v.Class, v.Detail
			res.Violation = tr
			break
		}
	}
	for s := range states {
		res.States = append(res.States, s)
	}
	dog.stop()
	report()
	return 0
}

// watchdog reports runs that use up processor time or memory without end.
type watchdog struct {
	mu    sync.Mutex
	cpu   time.Duration
	start time.Time
	off   bool
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func (d *watchdog) kick() {
	d.mu.Lock()
	d.cpu, d.start = cpuTime(), time.Now()
	d.mu.Unlock()
}

func (d *watchdog) stop() { d.mu.Lock(); d.off = true; d.mu.Unlock() }

func watch(bark func(class, what string)) *watchdog {
	d := &watchdog{}
	d.kick()
	stalled := 0
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			d.mu.Lock()
			cpu, wall, off := cpuTime()-d.cpu, time.Since(d.start), d.off
			d.mu.Unlock()
			if off {
				return
			}
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if wall < 20*time.Second {
				stalled = 0
			}
			switch {
			case m.HeapAlloc > 3<<30:
				bark("memory", "the run uses more and more memory (over 3 GB)")
			case cpu > 40*time.Second:
				bark("no-progress", "the run does not end (over 40 s of processor time)")
			case wall > 20*time.Second && cpu < 5*time.Second && stuck():
				stalled++
				if stalled > 10 {
					bark("no-progress", "the run waits for ever (all its goroutines are blocked)")
				}
				continue
			case wall > 400*time.Second:
				fmt.Fprintln(os.Stderr, "a run does not end")
				os.Exit(harnessError())
			}
		}
	}()
	return d
}

// stuck tells whether every goroutine (but the calling one) waits for another one.
func stuck() bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	executing := false
	for i, g := range strings.Split(string(buf), "\n\n") {
		header, body, _ := strings.Cut(g, "\n")
		_, state, ok := strings.Cut(header, "[")
		if i == 0 || !ok { // the caller
			continue
		}
		state, _, _ = strings.Cut(strings.TrimSuffix(state, ":"), "]")
		state, _, _ = strings.Cut(state, ",")
		switch state {
		case "chan receive", "chan send", "chan receive (nil chan)", "chan send (nil chan)", "select", "select (no cases)",
			"semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.WaitGroup.Wait", "sync.Cond.Wait":
			executing = executing || strings.Contains(body, "simkit.Execute(")
		default:
			return false
		}
	}
	return executing
}

// crash is the end of a worker process that the code under test took down.
type crash struct {
	run  int
	what string
}

func (c *crash) Error() string { return c.what }

// died finds out why a process that executed runs ended, and gives nil unless the Go runtime ended it.
func died(err error, stderr string) *crash {
	var ee *exec.ExitError
	if !errors.As(err, &ee) || ee.ExitCode() != 2 {
		return nil
	}
	for _, line := range strings.Split(stderr, "\n") {
		for _, prefix := range []string{"fatal error: ", "panic: ", "runtime: goroutine stack exceeds"} {
			if strings.HasPrefix(line, prefix) {
				return &crash{what: "the program was ended: " + line}
			}
		}
	}
	return nil
}

// spawn starts a worker process and returns its result.
func spawn(p *Prop, args ...any) (*result, error) {
	strs := []string{"worker", p.ID}
	for _, a := range args {
		strs = append(strs, fmt.Sprint(a))
	}
	cmd := exec.Command(os.Args[0], append(extraArgs, strs...)...)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	progress, err := os.CreateTemp("", "verif-progress")
	if err != nil {
		return nil, err
	}
	os.Remove(progress.Name())
	defer progress.Close()
	cmd.ExtraFiles = []*os.File{pw, progress}
	var stderr strings.Builder
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "GOTRACEBACK=single", "VERIF_WORKER=1")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	var res result
	decErr := json.NewDecoder(pr).Decode(&res)
	err = cmd.Wait()
	if c := died(err, stderr.String()); c != nil {
		var b [8]byte
		if n, _ := progress.ReadAt(b[:], 0); n == 8 {
			c.run = int(binary.LittleEndian.Uint64(b[:]))
			return nil, c
		}
	}
	if err != nil || decErr != nil {
		return nil, fmt.Errorf("worker %v: %v %v\n%s", strs, err, decErr, stderr.String())
	}
	return &res, nil
}

// extraArgs come before the simulator's own (a test binary needs none of its flags).
var extraArgs []string

func replay(p *Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var tr Trace
	if err := json.Unmarshal(b, &tr); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if tr.Class == "crash" && os.Getenv("VERIF_APART") == "" {
		if c := replayApart(p, file, 100*time.Second); c != nil {
			fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", "crash", c.what, p.ID, file)
			return 1
		}
	}
	verbose := func(string) {}
	if os.Getenv("VERIF_VERBOSE") != "" {
		verbose = func(s string) { fmt.Fprintln(os.Stderr, s) }
	}
	watch(func(class, what string) {
		fmt.Printf("%s: %s\nVIOLATION property=%s replay=%s\n", class, what, p.ID, file)
		os.Exit(1)
	})
	c, v := Execute(p, &tr, verbose)
	fmt.Printf("replayed %d events of %s (seed %d, run %d), event log %016x\n", len(tr.Ev), p.ID, tr.Seed, tr.Run, c.LogHash())
	if v == nil {
		fmt.Println("the property held")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	if tr.Class != "" && v.Class != tr.Class {
		fmt.Printf("note: the file records violation %q\n", tr.Class)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
	return 1
}

// knownFinding is a line "known: property=<id> sig=<class> <what fails>".
func knownFindings(dir, id string) map[string]string {
	known := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(dir, "known-findings.txt"))
	for _, line := range strings.Split(string(b), "\n") {
		f := strings.SplitN(line, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			known[strings.TrimPrefix(f[2], "sig=")] = f[3]
		}
	}
	return known
}

func check(p *Prop, tier, dir string) int {
	start := time.Now()
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			n = HashStr(s)
		}
		seed = n
	}
	fmt.Printf("property %s, tier %s, VERIF_SEED=%d\n", p.ID, tier, seed)
	total, limit := p.Quick, 150
	if tier == "thorough" {
		total, limit = p.Thorough, 660
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	workers := min(runtime.NumCPU(), 8, max(1, total))
	logEvery := max(1, total/64)

	results := make([]*result, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[w], errs[w] = spawn(p, seed, w, workers, total, limit, logEvery)
		}()
	}
	wg.Wait()
	for w, err := range errs {
		var c *crash
		if errors.As(err, &c) {
			// The run alone must end its process, too
			res, err2 := spawn(p, seed, c.run, 1, c.run+1, limit, 0)
			var again *crash
			if errors.As(err2, &again) {
				tr := generate(p, seed, c.run)
				tr.Class, tr.What = "crash", again.what
				res, err2 = &result{Runs: 1, Checks: 1, Violation: tr}, nil
			}
			if err2 == nil && res.Violation != nil {
				results[w], err = res, nil
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	explore := time.Since(start)

	all := result{Faults: map[string]int64{}, Probes: map[string]int64{}, Logs: map[int]uint64{}}
	distinct, states := map[uint64]struct{}{}, map[uint64]struct{}{}
	var found *Trace
	for _, r := range results {
		all.Runs += r.Runs
		all.Checks += r.Checks
		all.Ops += r.Ops
		all.SimMs += r.SimMs
		for k, n := range r.Faults {
			all.Faults[k] += n
		}
		for k, n := range r.Probes {
			all.Probes[k] += n
		}
		for _, d := range r.Distinct {
			distinct[d] = struct{}{}
		}
		for _, s := range r.States {
			states[s] = struct{}{}
		}
		for k, h := range r.Logs {
			all.Logs[k] = h
		}
		all.Samples = append(all.Samples, r.Samples...)
		all.TimedOut = all.TimedOut || r.TimedOut
		if r.Violation != nil && (found == nil || r.Violation.Run < found.Run) {
			found = r.Violation
		}
	}

	// Determinism: one other process repeats a sample of the runs; the event logs must agree
	repeated, mismatched := 0, 0
	if found == nil {
		again, err := spawn(p, seed, 0, logEvery, total, max(5, limit/10), logEvery)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for run, h := range again.Logs {
			if h0, ok := all.Logs[run]; ok {
				repeated++
				if h != h0 {
					mismatched++
				}
			}
		}
		if mismatched > 0 {
			fmt.Printf("note: %d of %d repeated runs had a different event log\n", mismatched, repeated)
		}
	}

	known := knownFindings(dir, p.ID)
	for _, sig := range SortedKeys(known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, known[sig])
	}

	code, violations, replayFile := 0, 0, ""
	minRuns := 0
	if found != nil && known[found.Class] == "" {
		violations = 1
		code = 1
		v := &Violation{found.Class, found.What}
		replayFile = filepath.Join(dir, "evidence", fmt.Sprintf("replay-%s-%d-%d.json", p.ID, seed, found.Run))
		if err := writeTrace(replayFile, found); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		minimal := found
		if found.Class != "memory" && found.Class != "no-progress" {
			minimiser := minimiseFile
			if found.Class == "crash" {
				minimiser = minimiseCrash
			}
			if tr, runs, err := minimiser(p, replayFile); err == nil {
				minRuns = runs
				if writeTrace(replayFile, tr); confirm(p, replayFile) {
					minimal = tr
					v = &Violation{tr.Class, tr.What}
				} else {
					// Not what was found: keep the whole execution as the replay
					writeTrace(replayFile, found)
					fmt.Printf("note: the minimised execution did not replay; the file holds the full one\n")
				}
			}
		}
		fmt.Printf("found by run %d of seed %d with %d events; %d after %d minimising runs\n",
			found.Run, seed, len(found.Ev), len(minimal.Ev), minRuns)
		for i, e := range minimal.Ev {
			if i == 40 {
				fmt.Printf("  ...\n")
				break
			}
			fmt.Printf("  %3d %s\n", i, e.Short())
		}
		fmt.Printf("%s: %s\n", v.Class, v.Detail)
	}

	wall := time.Since(start).Seconds()
	var samples []any
	for i, s := range all.Samples {
		if i == 2 {
			break
		}
		evs := make([]string, len(s.Ev))
		for j, e := range s.Ev {
			evs[j] = e.Short()
		}
		samples = append(samples, map[string]any{"run": s.Run, "config": s.Cfg, "init": s.Init, "events": evs})
	}
	if samples == nil {
		samples = []any{}
		tr := generate(p, seed, 0)
		if len(tr.Ev) > 60 {
			tr.Ev = tr.Ev[:60]
		}
		samples = append(samples, tr)
	}
	perHour := int64(float64(all.Runs) / max(0.001, explore.Seconds()) * 3600)
	evidence := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":             all.Runs,
			"distinct_nontrivial":     len(distinct),
			"rule":                    p.Rule,
			"samples":                 samples,
			"oracle_checks":           all.Checks,
			"operations_on_real_code": all.Ops,
			"simulated_runs_per_hour": perHour,
			"simulated_time_s":        float64(all.SimMs) / 1000,
			"faults_injected":         all.Faults,
			"probes_reached":          all.Probes,
			"distinct_states_reached": len(states),
			"distinct_states_measure": "hash of the full state of the system under test after each event",
			"repeated_runs":           repeated,
			"repeated_runs_differing": mismatched,
			"stopped_by_time_limit":   all.TimedOut,
			"components_real":         p.Real,
			"components_stub":         p.Stub,
			"worker_processes":        workers,
			"minimising_runs":         minRuns,
			"replay":                  replayFile,
			"runs_requested":          total,
			"exploration_wall_s":      explore.Seconds(),
		},
		"assumptions": p.Assume,
		"wall_s":      wall,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(evidence, "", " ")
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%d runs, %d distinct non-trivial, %d oracle checks, faults %v, %.1f s\n",
		all.Runs, len(distinct), all.Checks, all.Faults, wall)
	if code == 0 && (all.Runs == 0 || all.Checks == 0) {
		fmt.Fprintln(os.Stderr, "nothing was explored")
		return 2
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayFile)
	}
	return code
}

// minimiseFile shrinks the execution in a file, in a process of its own.
func minimiseFile(p *Prop, file string) (*Trace, int, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], append(extraArgs, "minimise", p.ID, file)...)
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, 0, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "VERIF_WORKER=1")
	if err := cmd.Start(); err != nil {
		return nil, 0, err
	}
	pw.Close()
	var res struct {
		Trace *Trace
		Runs  int
	}
	decErr := json.NewDecoder(pr).Decode(&res)
	if err := cmd.Wait(); err != nil {
		return nil, 0, err
	}
	return res.Trace, res.Runs, decErr
}

// minimiseCrash shrinks an execution that ends its process, with a process for each attempt.
func minimiseCrash(p *Prop, file string) (*Trace, int, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, 0, err
	}
	var tr Trace
	if err := json.Unmarshal(b, &tr); err != nil {
		return nil, 0, err
	}
	start := time.Now()
	tmp := file + ".tmp"
	defer os.Remove(tmp)
	min, _, runs := Minimise(&tr, &Violation{tr.Class, tr.What}, 300, func() bool { return time.Since(start) > 60*time.Second },
		func(cand *Trace) *Violation {
			if writeTrace(tmp, cand) != nil {
				return nil
			}
			if c := replayApart(p, tmp, 20*time.Second); c != nil {
				return &Violation{"crash", c.what}
			}
			return nil
		})
	return min, runs, nil
}

// replayApart replays a file in a process of its own and tells whether the code under test ended it.
func replayApart(p *Prop, file string, limit time.Duration) *crash {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], append(extraArgs, "replay", p.ID, file)...)
	var stderr strings.Builder
	cmd.Stderr = &stderr
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "GOTRACEBACK=single", "VERIF_WORKER=1", "VERIF_APART=1")
	return died(cmd.Run(), stderr.String())
}

func minimise(p *Prop, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return 2
	}
	var tr Trace
	if err := json.Unmarshal(b, &tr); err != nil {
		return 2
	}
	watch(func(string, string) { os.Exit(2) })
	_, v := Execute(p, &tr, nil)
	if v == nil {
		return 2
	}
	budget := 3000
	if p.MaxMin > 0 {
		budget = p.MaxMin
	}
	start := time.Now()
	min, _, runs := Minimise(&tr, v, budget, func() bool { return time.Since(start) > 25*time.Second },
		func(cand *Trace) *Violation {
			_, v := Execute(p, cand, nil)
			return v
		})
	out, err := json.Marshal(map[string]any{"Trace": min, "Runs": runs})
	if err != nil {
		return 2
	}
	os.NewFile(3, "result").Write(out)
	return 0
}

func writeTrace(file string, tr *Trace) error {
	b, err := json.MarshalIndent(tr, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(file), 0o755)
	return os.WriteFile(file, append(b, '\n'), 0o644)
}

// confirm replays the file in a fresh process.
func confirm(p *Prop, file string) bool {
	cmd := exec.Command(os.Args[0], append(extraArgs, "replay", p.ID, file)...)
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMAXPROCS=2", "VERIF_WORKER=1")
	err := cmd.Run()
	ee, ok := err.(*exec.ExitError)
	return ok && ee.ExitCode() == 1
}
