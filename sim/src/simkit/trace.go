package simkit

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Ev is one resolved event of a simulated execution: everything the scheduler, the
// network, the clocks and the fault injector decided is written out in it.
type Ev struct {
	Op   string   `json:"op"`
	Node int      `json:"node,omitempty"`
	Msg  int      `json:"msg,omitempty"`
	A    int64    `json:"a,omitempty"`
	B    int64    `json:"b,omitempty"`
	At   int64    `json:"at,omitempty"` // simulated time (ms)
	T    int64    `json:"ts,omitempty"` // timestamp carried by the event (a skewed clock's reading)
	Path string   `json:"path,omitempty"`
	Val  string   `json:"val,omitempty"` // JSON text of a value
	Mode string   `json:"mode,omitempty"`
	Strs []string `json:"strs,omitempty"`
	RS   uint64   `json:"rs,omitempty"` // seeds the code under test's own randomness during this event
}

// Trace is one exactly repeatable execution.
type Trace struct {
	Prop  string           `json:"property"`
	Seed  uint64           `json:"verif_seed"`
	Run   int              `json:"run"`
	Class string           `json:"violation,omitempty"`
	What  string           `json:"detail,omitempty"`
	Cfg   map[string]int64 `json:"config"`
	Init  []string         `json:"init,omitempty"`
	Ev    []Ev             `json:"events"`
}

func (t *Trace) Clone() *Trace {
	c := *t
	c.Ev = append([]Ev(nil), t.Ev...)
	return &c
}

// Hash identifies the schedule (not the outcome).
func (t *Trace) Hash() uint64 {
	b, _ := json.Marshal(struct {
		C map[string]int64
		I []string
		E []Ev
	}{t.Cfg, t.Init, t.Ev})
	return HashStr(string(b))
}

// Violation is a broken property.
type Violation struct{ Class, Detail string }

// Ctx collects what one run did and saw.
type Ctx struct {
	Checks  int64            // oracle evaluations
	Faults  map[string]int64 // faults that actually took effect
	Probes  map[string]int64 // rare conditions that were reached
	SimMs   int64            // simulated time covered
	Ops     int64            // operations executed on the code under test
	hash    uint64
	States  map[uint64]struct{} // distinct states of the system under test
	Step    int
	Verbose func(string)
}

func NewCtx() *Ctx {
	return &Ctx{Faults: map[string]int64{}, Probes: map[string]int64{}, States: map[uint64]struct{}{}, hash: 1}
}

// Log adds an observation to the run's event log (kept as a hash, for determinism checks).
func (c *Ctx) Log(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	c.hash = Mix(c.hash, HashStr(s))
	if c.Verbose != nil {
		c.Verbose(s)
	}
}

// LogHash is the hash of everything observed so far.
func (c *Ctx) LogHash() uint64 { return c.hash }

// State records that the system under test was in the given state.
func (c *Ctx) State(h uint64) { c.States[h] = struct{}{} }

func (c *Ctx) Fault(kind string) { c.Faults[kind]++ }
func (c *Ctx) Probe(kind string) { c.Probes[kind]++ }

// Fail reports a violation and ends the run.
func (c *Ctx) Fail(class, format string, args ...any) {
	panic(&Violation{class, fmt.Sprintf("event %d: ", c.Step) + fmt.Sprintf(format, args...)})
}

// Check counts an oracle evaluation and reports a violation if it does not hold.
func (c *Ctx) Check(ok bool, class, format string, args ...any) {
	c.Checks++
	if !ok {
		c.Fail(class, format, args...)
	}
}

// Try calls the code under test; a panic in it is returned as text.
func (c *Ctx) Try(f func()) (msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(*Violation); ok {
				panic(v)
			}
			if s, ok := r.(Sentinel); ok {
				panic(s)
			}
			if e, ok := r.(runtime.Error); ok {
				msg, panicked = "runtime error: "+e.Error(), true
				return
			}
			msg, panicked = fmt.Sprint(r), true
		}
	}()
	c.Ops++
	f()
	return "", false
}

// Must calls the code under test, which must not panic.
func (c *Ctx) Must(what string, f func()) {
	if msg, panicked := c.Try(f); panicked {
		c.Fail("panic", "%s panicked: %s", what, msg)
	}
}

// Sentinel is a simulated crash: it unwinds the code under test.
type Sentinel string

// Prop is one property's generator, executor and description.
type Prop struct {
	ID       string
	Quick    int // number of runs
	Thorough int
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
	// Gen draws one execution; all choices come from r.
	Gen func(r *Rng, run int) *Trace
	// Exec runs it against the real code; it reports through c.
	Exec func(c *Ctx, tr *Trace)
	// NonTrivial says whether a run counts towards distinct_nontrivial.
	NonTrivial func(c *Ctx, tr *Trace) bool
	// MaxMin bounds the executions spent on minimising (0: default).
	MaxMin int
}

// Execute runs one trace; harness errors propagate as panics.
func Execute(p *Prop, tr *Trace, verbose func(string)) (c *Ctx, v *Violation) {
	c = NewCtx()
	c.Verbose = verbose
	defer func() {
		runtime.VerifSim(false)
		if r := recover(); r != nil {
			if vv, ok := r.(*Violation); ok {
				v = vv
				return
			}
			if where := origin(); where != "" {
				v = &Violation{"panic", fmt.Sprintf("panic in %s: %v", where, r)}
				return
			}
			panic(fmt.Sprintf("simulator error in property %s run %d: %v\n%s", p.ID, tr.Run, r, debug.Stack()))
		}
	}()
	runtime.VerifSeed(Mix(tr.Seed, uint64(tr.Run)))
	runtime.VerifSim(true)
	p.Exec(c, tr)
	return c, nil
}

// origin is the function of the code under test in which the panic being handled came up, or ""
// if it was the simulator.
func origin() string {
	pcs := make([]uintptr, 64)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	panicking := false
	for {
		f, more := frames.Next()
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.sigpanic") {
			panicking = true
		} else if panicking && strings.HasPrefix(f.Function, module) {
			if strings.HasPrefix(f.Function, module+"/internal/verifsim/") || strings.Contains(f.File, "verif_") {
				return ""
			}
			return f.Function
		}
		if !more {
			return ""
		}
	}
}

const module = "github.com/CAU-CPSS/logument"

// Minimise shrinks a failing trace while the same class of violation persists.
func Minimise(tr *Trace, v *Violation, budget int, stop func() bool, execute func(*Trace) *Violation) (*Trace, *Violation, int) {
	runs := 0
	cur, curV := tr.Clone(), v
	try := func(cand *Trace) bool {
		if runs >= budget || stop() {
			return false
		}
		runs++
		vv := execute(cand)
		if vv != nil && vv.Class == v.Class {
			cur, curV = cand, vv
			return true
		}
		return false
	}
	// cut the tail
	for chunk := len(cur.Ev) / 2; chunk > 0; chunk /= 2 {
		for i := len(cur.Ev); i > 0; {
			lo := max(0, i-chunk)
			cand := cur.Clone()
			cand.Ev = append(append([]Ev(nil), cur.Ev[:lo]...), cur.Ev[min(i, len(cur.Ev)):]...)
			if !try(cand) {
				i = lo
			} else {
				i = min(lo, len(cur.Ev))
			}
		}
	}
	// simplify what is left
	for i := 0; i < len(cur.Ev); i++ {
		simpler := []func(e *Ev) bool{
			func(e *Ev) bool { ok := e.Val != "" && e.Val != "0" && e.Val != "1"; e.Val = "1"; return ok },
			func(e *Ev) bool { ok := e.RS != 0; e.RS = 0; return ok },
			func(e *Ev) bool { ok := e.At != 0; e.At = 0; return ok },
			func(e *Ev) bool { ok := e.A != 0; e.A = 0; return ok },
			func(e *Ev) bool { ok := e.A > 1; e.A = e.A / 2; return ok },
			func(e *Ev) bool { ok := e.B != 0; e.B = 0; return ok },
			func(e *Ev) bool { ok := e.B > 1; e.B = e.B / 2; return ok },
			func(e *Ev) bool { ok := e.T != 0; e.T = 0; return ok },
			func(e *Ev) bool { ok := e.T > 100; e.T = e.T % 10; return ok },
			func(e *Ev) bool { ok := e.Mode != ""; e.Mode = ""; return ok },
		}
		for _, s := range simpler {
			cand := cur.Clone()
			if s(&cand.Ev[i]) {
				try(cand)
			}
		}
		for j := len(cur.Ev[i].Strs) - 1; j >= 0 && len(cur.Ev[i].Strs) > 1; j-- {
			cand := cur.Clone()
			old := cur.Ev[i].Strs
			cand.Ev[i].Strs = append(append([]string(nil), old[:j]...), old[j+1:]...)
			try(cand)
		}
	}
	cur.Class, cur.What = curV.Class, curV.Detail
	return cur, curV, runs
}

// SortedKeys returns the keys of a counter in order.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Short renders an event for samples and reports.
func (e Ev) Short() string {
	b, _ := json.Marshal(e)
	return strings.TrimSpace(string(b))
}
