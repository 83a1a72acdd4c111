// Command exp simulates the experiment programs: vehicles, clock, randomness and result files.
package main

import (
	"os"
	"runtime/debug"

	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

type Ctx = simkit.Ctx
type rng = simkit.Rng

func main() {
	real := []string{"exp", "internal/logument", "internal/tsonpatch", "internal/tson", "Go standard library (map order, math/rand, clock and files under the simulator)"}
	stub := []string{"clock, randomness and map order: seeded", "disk: real files in a scratch directory behind a fault injector", "terminal: captured"}
	told := "a user counts as informed if the program prints something that names an error, failure or warning, or if it panics"
	debug.SetGCPercent(400) // an experiment leaves megabytes behind
	code := simkit.Main(os.Args[1:], []*simkit.Prop{
		{ID: "C19", Quick: 320, Thorough: 20000, MaxMin: 40, Rule: "signal definitions, clock schedules and seeds that differ from every other, of complete experiments", Real: real, Stub: stub,
			Assume: []string{"the time-dependent columns are checked against each other only"},
			Gen:    genPatchExp(false), Exec: execPatchExp("accounting"), NonTrivial: ran},
		{ID: "C20", Quick: 320, Thorough: 20000, MaxMin: 40, Rule: "signal definitions, clock schedules and seeds that differ from every other, of complete experiments", Real: real, Stub: stub,
			Assume: []string{"the JSON document may differ from the recorded changes within the documented tolerance of 0.005"},
			Gen:    genPatchExp(false), Exec: execPatchExp("replay"), NonTrivial: ran},
		{ID: "C21", Quick: 400, Thorough: 20000, MaxMin: 60, Rule: "schedules that differ from every other, of runs with at least one fault that took effect", Real: real, Stub: stub,
			Assume: []string{told},
			Gen:    genPatchExp(true), Exec: execPatchExp("faults"),
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.Faults) > 0 }},
		{ID: "C22", Quick: 24000, Thorough: 3000000, Rule: "schedules that differ from every other, of runs with at least one change of scenario", Real: real, Stub: stub,
			Assume: []string{"the battery level is a finite number or missing"},
			Gen:    genState, Exec: execState,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return c.Probes["switched"]+c.Probes["scenario_changed"] > 0 }},
		{ID: "C23", Quick: 320, Thorough: 20000, MaxMin: 40, Rule: "signal definitions, clock schedules and seeds that differ from every other, of complete experiments", Real: real, Stub: stub,
			Assume: []string{"signals that oscillate or carry noise are not promised to stay within the range of their definition"},
			Gen:    genPatchExp(false), Exec: execPatchExp("schedule"), NonTrivial: ran},
		{ID: "C24", Quick: 8000, Thorough: 300000, MaxMin: 400, Rule: "histories that differ from every other and contain at least 3 changes", Real: real, Stub: stub,
			Assume: []string{"timestamps are not negative, and changes replace leaves, as those of the experiments do"},
			Gen:    genTemporal, Exec: execTemporal,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(tr.Ev) >= 4 }},
		{ID: "C28", Quick: 16000, Thorough: 2000000, Rule: "schedules that differ from every other, of runs in which at least 3 patterns were followed", Real: real, Stub: stub,
			Assume: []string{"signals are asked for their next value as the experiments do (calculateNewValue); the parameters of a pattern are those of its comments"},
			Gen:    genPattern, Exec: execPattern,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.Probes) >= 3 }},
		{ID: "C29", Quick: 12000, Thorough: 1000000, Rule: "schedules that differ from every other, of runs in which something was saved", Real: real, Stub: stub,
			Assume: []string{"what a stopped process had written stays (no power failure); other processes act between two file operations"},
			Gen:    genStorage, Exec: execStorage,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return c.Probes["saved"] > 0 }},
	})
	simfs.Cleanup()
	os.Exit(code)
}
