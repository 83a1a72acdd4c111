// Command core simulates vehicles, network, document keepers, replicas and clients around the
// Logument document, TSON and TSON patch code.
package main

import (
	"os"
	"strings"

	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

var realCore = []string{"internal/logument", "internal/tsonpatch", "internal/tson", "Go standard library (map order and math/rand seeded per event)"}
var stubCore = []string{"vehicles, clocks, network, clients, operators: simulated; reference model in Go as oracle"}

func docProp(id string, p *profile, rule string, quick, thorough int, nontrivial func(c *Ctx, tr *simkit.Trace) bool) *simkit.Prop {
	return &simkit.Prop{
		ID: id, Quick: quick, Thorough: thorough, Rule: rule, Real: realCore, Stub: stubCore,
		Assume: []string{
			"documents and patches hold strings, finite numbers, booleans and containers; text is valid UTF-8",
			"a stored operation is applicable to the state it arrives at (inapplicable ones belong to C14 and C15)",
			"one goroutine uses a document at a time, as its API requires",
		},
		Gen: genFleet(p),
		Exec: func(c *Ctx, tr *simkit.Trace) {
			run(c, tr, int(tr.Run))
		},
		NonTrivial: nontrivial,
	}
}

// busy: at least some versions were made and some oracles were evaluated under at least one fault or query.
func busy(c *Ctx, tr *simkit.Trace) bool {
	n := 0
	for _, e := range tr.Ev {
		if e.Op == "append" || e.Op == "msg" {
			n++
		}
	}
	return n >= 4 && len(c.States) >= 3
}

const scheduleRule = "schedules (events with all their resolved choices) that differ from every other, of runs with at least 4 deliveries or appends and 3 distinct document states"

func main() {
	props := []*simkit.Prop{
		docProp("C01", &profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 120, standby: true,
			weights: map[string]int{"snap": 10, "create": 1, "slice": 1, "set": 2, "history": 1, "track": 1, "ttrack": 1, "misuse": 1}},
			scheduleRule, 40000, 2000000, busy),
		docProp("C02", &profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 100, standby: true,
			weights: map[string]int{"reuse": 4, "create": 2, "snap": 2, "set": 3, "testset": 2, "append": 2, "slice": 1, "misuse": 1}},
			scheduleRule, 48000, 2000000, busy),
		docProp("C03", &profile{mixed: true, arrays: true, goInts: true, skew: true, minEv: 20, maxEv: 120, standby: true,
			weights: map[string]int{"snap": 3, "tsnap": 3, "track": 3, "ttrack": 3, "slice": 2, "tslice": 2, "history": 3, "misuse": 1}},
			scheduleRule, 28000, 1500000, busy),
		docProp("C04", &profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 30, maxEv: 140, replicas: 3,
			weights: map[string]int{"track": 6, "snap": 1, "slice": 1}},
			scheduleRule, 32000, 1500000, busy),
		docProp("C05", &profile{wild: true, arrays: true, spell: true, skew: true, goInts: true, minEv: 30, maxEv: 140, standby: true,
			weights: map[string]int{"slice": 8, "create": 1, "append": 3, "set": 3, "testset": 2, "track": 3, "snap": 3, "ttrack": 1, "history": 1, "compact": 1}},
			scheduleRule, 22000, 1000000, busy),
		docProp("C06", &profile{mixed: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 100,
			weights: map[string]int{"tsnap": 10, "snap": 1, "slice": 1, "set": 1}},
			scheduleRule, 32000, 1500000, busy),
		docProp("C07", &profile{mixed: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 100,
			weights: map[string]int{"ttrack": 10, "tsnap": 1, "tslice": 1}},
			scheduleRule, 28000, 1500000, busy),
		docProp("C08", &profile{mixed: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 100,
			weights: map[string]int{"tslice": 8, "append": 2, "set": 3, "snap": 2, "tsnap": 3, "ttrack": 2, "track": 2, "history": 1}},
			scheduleRule, 16000, 1000000, busy),
		docProp("C09", &profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 20, maxEv: 100, standby: true,
			weights: map[string]int{"compact": 8, "snap": 3, "track": 1, "slice": 1, "set": 1}},
			scheduleRule, 40000, 1500000, busy),
		docProp("C10", &profile{wild: true, arrays: true, goInts: true, skew: true, minEv: 20, maxEv: 100,
			weights: map[string]int{"history": 10, "snap": 1, "compact": 1, "slice": 1}},
			scheduleRule, 28000, 1500000, busy),
		docProp("C11", &profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, invalid: true, minEv: 20, maxEv: 100, standby: true,
			weights: map[string]int{"create": 1, "set": 8, "testset": 10, "snap": 2, "slice": 2, "append": 2}},
			scheduleRule, 48000, 1500000, busy),
		{ID: "C12", Quick: 72000, Thorough: 2000000, Rule: "schedules that differ from every other, of runs that generated at least one non-empty patch",
			Real: realCore, Stub: stubCore,
			Assume: []string{"a difference that introduces containers or nulls may be refused, and is then sent as a full document"},
			Gen:    genDiff(&profile{wild: true, arrays: true, minEv: 10, maxEv: 80}), Exec: execDiff,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return c.Probes["patch_generated"] > 0 }},
		{ID: "C13", Quick: 56000, Thorough: 2000000, Rule: "schedules that differ from every other, of runs with at least one crash",
			Real: realCore, Stub: append([]string{"disk: simulated files with durable and unsynced content"}, stubCore...),
			Assume: []string{"what was synced survives; an unsynced file is lost, complete, cut short or zero-filled after the crash", "the TSON syntax writes every negative timestamp as an absent one"},
			Gen:    genPersist(&profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 15, maxEv: 100, appendMs: 400}), Exec: execPersist,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return c.Faults["crash"] > 0 }},
		{ID: "C14", Quick: 56000, Thorough: 1500000, Rule: "schedules that differ from every other, of runs in which damage was refused at least once",
			Real: realCore, Stub: stubCore,
			Assume: []string{"damage that leaves a well-formed text cannot be detected without a checksum; it must be read as what it says"},
			Gen:    genHostile(&profile{wild: true, arrays: true, spell: true, goInts: true, minEv: 20, maxEv: 100}), Exec: execHostile,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return c.Probes["damage_refused"] > 0 }},
		{ID: "C15", Quick: 96000, Thorough: 2000000, Rule: "schedules that differ from every other, of runs with at least 3 distinct states",
			Real: realCore, Stub: stubCore,
			Assume: []string{"paths are non-empty; array indexes stay small"},
			Gen:    genApply(&profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, invalid: true, minEv: 10, maxEv: 100}), Exec: execApply,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.States) >= 3 }},
		docProp("C30", &profile{wild: true, arrays: true, spell: true, skew: true, goInts: true, minEv: 20, maxEv: 100,
			weights: map[string]int{"misuse": 12, "snap": 2, "slice": 4, "tslice": 1, "append": 2, "set": 2, "track": 1}, strict: true},
			"schedules that differ from every other, of runs with at least 5 refused requests and 3 distinct document states",
			32000, 1500000, func(c *Ctx, tr *simkit.Trace) bool { return c.Probes["refused"] >= 5 && len(c.States) >= 3 }),
		{ID: "C25", Quick: 28000, Thorough: 1500000, Rule: "schedules that differ from every other, of runs with at least 5 conversions and 2 distinct documents",
			Real: realCore, Stub: stubCore,
			Assume: []string{"the TSON syntax writes every negative timestamp as an absent one; JSON has none", "the compatible form as a Go value holds timestamps up to 2^53"},
			Gen:    genGateway(&profile{wild: true, arrays: true, spell: true, goInts: true, skew: true, minEv: 15, maxEv: 100}), Exec: execGateway,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool {
				n := int64(0)
				for k, v := range c.Probes {
					if strings.HasPrefix(k, "hop_") {
						n += v
					}
				}
				return n >= 5 && len(c.States) >= 2
			}},
	}
	os.Exit(simkit.Main(os.Args[1:], props))
}
