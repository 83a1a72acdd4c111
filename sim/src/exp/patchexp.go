package main

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

const (
	stepMs     = 100
	durationMs = 300_000
	expDir     = "results/patch_experiment"
)

const mixed = "mixed_scenario"

var scenarioNames = []string{"urban_traffic", "highway_cruising", "battery_charging"}

func ran(c *Ctx, tr *simkit.Trace) bool { return c.Checks > 0 }

// section is what one scenario of one experiment left behind.
type section struct {
	name   string
	out    string // what was printed meanwhile
	runDir string // where its documents went
}

// machine runs experiments.
type machine struct {
	c     *Ctx
	names []string // the scenarios
	fs    *simfs.FS
	clock *simfs.Clock
	secs  []*section
	from  int
}

func newMachine(c *Ctx, tr *simkit.Trace) *machine {
	m := &machine{c: c, fs: simfs.New(c, simfs.Scratch()), clock: &simfs.Clock{Now: tr.Cfg["clock"], Rest: tr.Cfg["tick"]}}
	m.fs.BeforeOp = func(op, path string) {
		rel, ok := strings.CutPrefix(path, m.fs.Root+"/"+expDir+"/")
		if !ok || op != "mkdir" && op != "openw" {
			return
		}
		parts := strings.Split(rel, "/")
		if len(m.secs) == 0 || m.secs[len(m.secs)-1].name != parts[0] {
			m.cut()
			m.secs = append(m.secs, &section{name: parts[0]})
		}
		if len(parts) >= 2 && len(parts[1]) == 15 && parts[1][8] == '_' {
			m.secs[len(m.secs)-1].runDir = filepath.Join(m.fs.Root, expDir, parts[0], parts[1])
		}
	}
	return m
}

// cut ends the output of the current section.
func (m *machine) cut() {
	out := m.fs.Out.String() + m.fs.Err.String()
	if len(m.secs) > 0 {
		m.secs[len(m.secs)-1].out = out[min(m.from, len(out)):]
	}
	m.from = len(out)
}

func (m *machine) run(faults []simfs.Fault, names []string) (msg string, panicked, crashed bool) {
	m.secs, m.from, m.names = nil, 0, scenarioNames
	if len(names) > 0 {
		undo, ok := exp.VerifScenarios(names)
		defer undo()
		if ok {
			m.names = names
		}
	}
	m.fs.Plan(faults)
	msg, panicked, crashed = m.fs.Run(exp.RealworldScenario)
	m.cut()
	return
}

type patch struct {
	Op        string `json:"op"`
	Path      string `json:"path"`
	Value     any    `json:"value"`
	Timestamp *int64 `json:"timestamp"`
}

type leaf struct {
	val any
	ts  int64
}

func readFile(path string, v any) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Errorf("%s: %v", filepath.Base(path), err)
	}
	return nil
}

// flatten reads a document of values and timestamps.
func flatten(v map[string]any, stamp, prefix string, out map[string]leaf) error {
	for k, x := range v {
		m, ok := x.(map[string]any)
		if !ok {
			return fmt.Errorf("%s%s is not an object", prefix, k)
		}
		if ts, ok := m[stamp].(float64); ok {
			val, ok := m["value"]
			if !ok || len(m) != 2 {
				return fmt.Errorf("%s%s holds %v", prefix, k, m)
			}
			out[prefix+k] = leaf{val, int64(ts)}
		} else if err := flatten(m, stamp, prefix+k+".", out); err != nil {
			return err
		}
	}
	return nil
}

func readDoc(path, stamp string) (map[string]leaf, error) {
	var m map[string]any
	if err := readFile(path, &m); err != nil {
		return nil, err
	}
	out := map[string]leaf{}
	if err := flatten(m, stamp, "", out); err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(path), err)
	}
	return out, nil
}

func readCSV(path string) ([][]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := csv.NewReader(bytes.NewReader(b))
	rows, err := r.ReadAll()
	if err != nil {
		return nil, fmt.Errorf("%s: %v", filepath.Base(path), err)
	}
	if len(b) == 0 || b[len(b)-1] != '\n' || len(rows) == 0 {
		return nil, fmt.Errorf("%s ends in the middle", filepath.Base(path))
	}
	return rows, nil
}

// columns finds the columns of a table by name.
func columns(rows [][]string, names ...string) ([]int, error) {
	idx := make([]int, len(names))
	for i, n := range names {
		idx[i] = -1
		for j, h := range rows[0] {
			if h == n {
				idx[i] = j
			}
		}
		if idx[i] < 0 {
			return nil, fmt.Errorf("no column %s", n)
		}
	}
	return idx, nil
}

// outcome is everything one scenario left behind, read back.
type outcome struct {
	scenario               string
	said                   string // what was printed
	initJSON, finalJSON    map[string]leaf
	initTSON, finalTSON    map[string]leaf
	jsonPatches            []patch
	tsonPatches            []patch
	jsonSize, tsonSize     int
	results, cumul, timing [][]string
	transitions            [][]string
	sensors                map[string][][]string
	phases                 []phase
}

// phase is a stretch of an experiment under one scenario.
type phase struct {
	from  int64
	name  string
	level float64 // of the battery, when it began
}

// compactLen is the size of a JSON text without any blanks.
func compactLen(b []byte) (size int) {
	quoted := false
	for i := 0; i < len(b); i++ {
		switch c := b[i]; {
		case quoted && c == '\\':
			size++
			i++
		case c == '"':
			quoted = !quoted
		case !quoted && (c == ' ' || c == '\n' || c == '\t' || c == '\r'):
			size--
		}
		size++
	}
	return size
}

func compactSize(path string) (int, error) {
	b, err := os.ReadFile(path)
	if err == nil && !json.Valid(b) {
		err = fmt.Errorf("%s is not JSON", filepath.Base(path))
	}
	return compactLen(b), err
}

// readPatches also gives their size without any blanks.
func readPatches(path string) (ps []patch, size int, err error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, 0, err
	}
	if err := json.Unmarshal(b, &ps); err != nil {
		return nil, 0, fmt.Errorf("%s: %v", filepath.Base(path), err)
	}
	return ps, compactLen(b), nil
}

func readOutcome(root string, s *section) (o *outcome, err error) {
	if s.runDir == "" {
		return nil, fmt.Errorf("no documents were written")
	}
	o = &outcome{scenario: s.name, said: s.out, sensors: map[string][][]string{}}
	steps := []func() error{
		func() (e error) { o.initJSON, e = readDoc(s.runDir+"/initial_json.json", "timestamp"); return },
		func() (e error) { o.initTSON, e = readDoc(s.runDir+"/initial_tson.json", "_ts"); return },
		func() (e error) { o.finalJSON, e = readDoc(s.runDir+"/final_json.json", "timestamp"); return },
		func() (e error) { o.finalTSON, e = readDoc(s.runDir+"/final_tson.json", "_ts"); return },
		func() (e error) {
			o.jsonPatches, o.jsonSize, e = readPatches(s.runDir + "/all_json_patches.json")
			return
		},
		func() (e error) {
			o.tsonPatches, o.tsonSize, e = readPatches(s.runDir + "/all_tson_patches.json")
			return
		},
	}
	dir := filepath.Join(root, expDir, s.name)
	for name, dst := range map[string]*[][]string{"results": &o.results, "cumulative": &o.cumul, "timing": &o.timing} {
		steps = append(steps, func() (e error) { *dst, e = readCSV(dir + "/" + name + ".csv"); return })
	}
	for _, p := range exp.KeySensorPaths {
		steps = append(steps, func() (e error) {
			o.sensors[p], e = readCSV(dir + "/sensor_data/" + filepath.Base(p) + ".csv")
			return
		})
	}
	if s.name == mixed {
		steps = append(steps, func() (e error) { o.transitions, e = readCSV(dir + "/transitions.csv"); return })
	}
	for _, f := range steps {
		if err := f(); err != nil {
			return nil, err
		}
	}
	o.phases = []phase{{name: s.name}}
	if s.name == mixed {
		o.phases = o.followBattery()
	}
	return o, nil
}

// followBattery derives the scenarios of a mixed experiment from the level of its battery.
func (o *outcome) followBattery() []phase {
	level, before, last := 60.0, "urban_traffic", int64(0)
	if f, ok := o.initTSON[batteryPath].val.(float64); ok {
		level = f
	}
	out := []phase{{name: before, level: level}}
	i := 0
	for at := int64(0); at < durationMs; at += stepMs {
		for ; i < len(o.tsonPatches) && o.tsonPatches[i].Timestamp != nil && *o.tsonPatches[i].Timestamp < at; i++ {
			if f, ok := o.tsonPatches[i].Value.(float64); ok && o.tsonPatches[i].Path == batteryPath {
				level = f
			}
		}
		next := out[len(out)-1].name
		switch {
		case at-last < 60_000:
		case next == "urban_traffic" && level <= 10:
			next = "battery_charging"
		case next == "battery_charging" && level >= 99.95:
			next = before
		}
		if next != out[len(out)-1].name {
			out = append(out, phase{at, next, level})
			last = at
		}
	}
	return out
}

// phaseAt is the index of the scenario at a time.
func (o *outcome) phaseAt(at int64) int {
	i := len(o.phases) - 1
	for o.phases[i].from > at {
		i--
	}
	return i
}

// patternOf is how a signal changes in a phase.
func (o *outcome) patternOf(s *exp.VSSSensor, phase int) string {
	out := "constant"
	if p := s.ChangePatterns[o.scenario]; p != "" {
		out = p
	}
	for _, ph := range o.phases[:phase+1] {
		if p := s.ChangePatterns[ph.name]; p != "" {
			out = p
		}
	}
	switch {
	case s.Type == "number" && (out == "constant_with_noise" || out == "linear" || out == "sinusoidal" || out == "random_walk"), s.Type == "boolean" && out == "toggle":
		return out
	}
	return "constant"
}

// setAt tells whether the value of a signal was set by a change of scenario at or before the time
// (which phase began with), and has not been recorded since.
func (o *outcome) setAt(path string, at int64) (set func(old, v any) bool, phase int) {
	s := exp.VSSSensors[path]
	if s == nil || at <= 0 {
		return nil, 0
	}
	updated := (at - 1) / stepMs * stepMs // the last update before
	for updated%int64(s.UpdateInterval) != 0 {
		updated -= stepMs
	}
	for i := o.phaseAt(at); i > 0 && o.phases[i].from > updated; i-- {
		if set := setBy[o.phases[i].name][path]; set != nil {
			return set, i
		}
	}
	return nil, 0
}

// changesOfScenario checks the recorded changes of scenario.
func (o *outcome) changesOfScenario() error {
	if o.scenario != mixed {
		return nil
	}
	col, err := columns(o.transitions, "Timestamp", "FromScenario", "ToScenario", "BatteryLevel", "TransitionCount")
	if err != nil {
		return err
	}
	for i, ph := range o.phases[1:] {
		want := []string{fmt.Sprint(ph.from), o.phases[i].name, ph.name, fmt.Sprintf("%.2f", ph.level), fmt.Sprint(i + 1)}
		if i+1 >= len(o.transitions) {
			return fmt.Errorf("the change %v is not recorded", want)
		}
		for j, w := range want {
			if o.transitions[i+1][col[j]] != w {
				return fmt.Errorf("a change is recorded as %v instead of %v", o.transitions[i+1], want)
			}
		}
	}
	n := 0
	for _, l := range saidTransition.FindAllStringSubmatch(o.said, -1) {
		n++
		if n >= len(o.phases) {
			return fmt.Errorf("a change was told that did not happen: %s", l[0])
		}
		if want := fmt.Sprintf("[%d ms] Scenario transition #%d: %s -> %s (Battery: %.1f%%)", o.phases[n].from, n, o.phases[n-1].name, o.phases[n].name,
			o.phases[n].level); l[0] != want {
			return fmt.Errorf("the user was told %q instead of %q", l[0], want)
		}
	}
	if n > 0 && n != len(o.phases)-1 {
		return fmt.Errorf("%d of %d changes were told", n, len(o.phases)-1)
	}
	kinds := map[string]int{}
	for i, ph := range o.phases[1:] {
		kinds[o.phases[i].name+"->"+ph.name]++
	}
	for _, l := range saidKinds.FindAllStringSubmatch(o.said, -1) {
		if l[2] != strconv.Itoa(kinds[l[1]]) {
			return fmt.Errorf("the user was told %q, but there were %d", l[0], kinds[l[1]])
		}
	}
	if len(o.transitions) != len(o.phases) {
		return fmt.Errorf("a change is recorded that should not have happened: %v", o.transitions[len(o.phases)])
	}
	if col, err = columns(o.timing, "TimeMs", "CurrentScenario"); err != nil {
		return err
	}
	for _, row := range o.timing[1:] {
		at, _ := strconv.ParseInt(row[col[0]], 10, 64)
		if want := o.phases[o.phaseAt(at)].name; row[col[1]] != want {
			return fmt.Errorf("timing row %v belongs to %s", row, want)
		}
	}
	return nil
}

// What the user is told, as far as it is worded like this (and has not been worded otherwise since).
var (
	saidTransition = regexp.MustCompile(`\[\d+ ms\] Scenario transition #\d+: \S+ -> \S+ \(Battery: [-.\d]+%\)`)
	saidKinds      = regexp.MustCompile(`(?m)^  (\w+->\w+): (\d+) times$`)
	saidNumber     = regexp.MustCompile(`(?m)^([A-Z][A-Za-z -]*): (-?\d+)(?: \((\S+)%\))?$`)
	saidRate       = regexp.MustCompile(`(?m)^([A-Z][A-Za-z -]*): (-?[\d.]+)( ms|%)$`)
	saidDone       = regexp.MustCompile(`(?m)^Simulation completed. Total updates: (\d+), value changes: (\d+) \((\S+)%\)$`)
	saidProgress   = regexp.MustCompile(`\(time: (\d+) ms, updates: (\d+), changes: (\d+)(?:, scenario: (\w+))?\)`)
)

// told compares what the user was told with what is reported in the files.
func (o *outcome) told(c *Ctx, n [12]int64) error {
	numbers := map[string]int64{"Total updates": n[1], "Value changes": n[2], "Timestamp-only changes": n[3], "JSON patches": n[4], "TSON patches": n[5],
		"Timing Data": n[1], "Scenario transitions": int64(len(o.phases) - 1)}
	rate := func(label, got string, want float64) error {
		f, err := strconv.ParseFloat(got, 64)
		if err != nil || !math.IsNaN(want) && !math.IsInf(want, 0) && math.Abs(f-want) > 0.051+math.Abs(want)*1e-9 {
			return fmt.Errorf("the user was told %s: %s, not %.1f", label, got, want)
		}
		return nil
	}
	share := func(k int64) float64 { return float64(k) * 100 / float64(n[1]) }
	for _, l := range saidNumber.FindAllStringSubmatch(o.said, -1) {
		if want, ok := numbers[l[1]]; ok && l[2] != fmt.Sprint(want) {
			return fmt.Errorf("the user was told %q, not %d", l[0], want)
		} else if ok && l[3] != "" {
			if err := rate(l[1], l[3], share(want)); err != nil {
				return err
			}
		}
	}
	less := func(a, b int64) float64 { return (1 - float64(a)/float64(b)) * 100 }
	rates := map[string]float64{"Patch reduction": less(n[5], n[4]), "JSON processing time": float64(n[10]) / 1e6, "TSON processing time": float64(n[11]) / 1e6,
		"Processing time difference": less(n[11], n[10])}
	for _, l := range saidRate.FindAllStringSubmatch(o.said, -1) {
		if want, ok := rates[l[1]]; ok {
			if err := rate(l[1], l[2], want); err != nil {
				return err
			}
		}
	}
	if saidNumber.MatchString(o.said) {
		c.Probe("printed_numbers_compared")
	}
	for _, l := range saidDone.FindAllStringSubmatch(o.said, -1) {
		if l[1] != fmt.Sprint(n[1]) || l[2] != fmt.Sprint(n[2]) {
			return fmt.Errorf("the user was told %q", l[0])
		}
		if err := rate("value changes", l[3], share(n[2])); err != nil {
			return err
		}
	}
	updates, changes, row := 0, 0, 1
	for _, l := range saidProgress.FindAllStringSubmatch(o.said, -1) {
		at, _ := strconv.ParseInt(l[1], 10, 64)
		for ; row < len(o.timing); row++ {
			if t, _ := strconv.ParseInt(o.timing[row][1], 10, 64); t >= at {
				break
			}
			updates++
			if o.timing[row][5] == "true" {
				changes++
			}
		}
		if l[2] != fmt.Sprint(updates) || l[3] != fmt.Sprint(changes) || l[4] != "" && l[4] != o.phases[o.phaseAt(at)].name {
			return fmt.Errorf("the user was told %q when there were %d updates and %d changes in %s", l[0], updates, changes, o.phases[o.phaseAt(at)].name)
		}
	}
	return nil
}

// setSize bounds the size of all updates as TSON patches: only the digits of numbers that are within the tolerance are unknown.
func (o *outcome) setSize() (lo, hi int) {
	text := func(v any) int { b, _ := json.Marshal(v); return len(b) }
	now := map[string]any{}
	for p, l := range o.initTSON {
		now[p] = l.val
	}
	lo, hi = 2, 2
	t := 0
	for i, row := range o.timing[1:] {
		size := len(`{"op":"replace","path":,"value":,"timestamp":}`) + text(row[2]) + len(row[1])
		if i > 0 {
			size++
		}
		lo, hi = lo+size, hi+size
		if row[5] == "true" {
			now[row[2]] = o.tsonPatches[t].Value
			t++
		} else if _, ok := now[row[2]].(float64); ok {
			lo, hi = lo+1, hi+25
			continue
		}
		lo, hi = lo+text(now[row[2]]), hi+text(now[row[2]])
	}
	return lo, hi
}

// accounting compares the reported counts with each other and with what was recorded.
func (o *outcome) accounting(c *Ctx) error {
	col, err := columns(o.results, "SimulationTimeMs", "TotalUpdates", "ValueChanges", "TimestampOnlyChanges", "JsonPatchCount", "TsonPatchCount",
		"SetTsonPatchCount", "JsonPatchSize", "TsonPatchSize", "SetTsonPatchSize", "JsonProcessingTimeNs", "TsonProcessingTimeNs",
		"JsonBandwidthUsage", "TsonBandwidthUsage", "PatchReduction")
	if err != nil {
		return err
	}
	if len(o.results) != 2 {
		return fmt.Errorf("%d result rows", len(o.results)-1)
	}
	var n [12]int64
	for i := range n {
		if n[i], err = strconv.ParseInt(o.results[1][col[i]], 10, 64); err != nil {
			return err
		}
	}
	simMs, total, changes, stampOnly, nJSON, nTSON, nSet := n[0], n[1], n[2], n[3], n[4], n[5], n[6]
	switch {
	case simMs != durationMs:
		return fmt.Errorf("simulation time %d", simMs)
	case total != changes+stampOnly:
		return fmt.Errorf("%d updates are not %d value changes and %d others", total, changes, stampOnly)
	case nJSON != int64(len(o.jsonPatches)) || nTSON != int64(len(o.tsonPatches)):
		return fmt.Errorf("%d and %d patches counted, %d and %d recorded", nJSON, nTSON, len(o.jsonPatches), len(o.tsonPatches))
	case nJSON != total+changes || nTSON != changes || nSet != total:
		return fmt.Errorf("%d JSON, %d TSON and %d set patches do not come from %d updates with %d value changes", nJSON, nTSON, nSet, total, changes)
	case n[7] != int64(o.jsonSize) || n[8] != int64(o.tsonSize):
		return fmt.Errorf("patch sizes %d and %d counted, %d and %d recorded", n[7], n[8], o.jsonSize, o.tsonSize)
	case n[9] < n[8]:
		return fmt.Errorf("the set patches (%d bytes) include the TSON patches (%d bytes)", n[9], n[8])
	}
	for i, want := range []float64{float64(o.jsonSize) / (durationMs / 1000) / 1024, float64(o.tsonSize) / (durationMs / 1000) / 1024,
		(1 - float64(len(o.tsonPatches))/float64(len(o.jsonPatches))) * 100} {
		got, err := strconv.ParseFloat(o.results[1][col[12+i]], 64)
		if err != nil || math.Abs(got-want) > 0.0051 {
			return fmt.Errorf("%s is %s, not %.2f", o.results[0][col[12+i]], o.results[1][col[12+i]], want)
		}
	}

	// The timing rows are the updates
	col, err = columns(o.timing, "UpdateIndex", "TimeMs", "SensorPath", "JsonProcessingTimeNs", "TsonProcessingTimeNs", "ValueChanged", "ProcessingTimeDiffPct")
	if err != nil {
		return err
	}
	if int64(len(o.timing)-1) != total {
		return fmt.Errorf("%d timing rows for %d updates", len(o.timing)-1, total)
	}
	var sumJ, sumT, lastMs int64
	t := 0
	for i, row := range o.timing[1:] {
		at, _ := strconv.ParseInt(row[col[1]], 10, 64)
		j, _ := strconv.ParseInt(row[col[3]], 10, 64)
		ts, _ := strconv.ParseInt(row[col[4]], 10, 64)
		sumJ += j
		sumT += ts
		if row[col[0]] != strconv.Itoa(i+1) {
			return fmt.Errorf("timing row %d has index %s", i+1, row[col[0]])
		}
		if at < lastMs {
			return fmt.Errorf("timing row %d goes back to %d", i+1, at)
		}
		lastMs = at
		if row[col[5]] == "true" {
			if t >= len(o.tsonPatches) {
				return fmt.Errorf("timing row %d has no patch", i+1)
			}
			p := o.tsonPatches[t]
			if p.Path != row[col[2]] || p.Timestamp == nil || *p.Timestamp != at {
				return fmt.Errorf("timing row %v and patch %d (%s) differ", row, t, p.Path)
			}
			t++
		} else if row[col[5]] != "false" {
			return fmt.Errorf("timing row %v", row)
		}
		want := 0.0
		if j > 0 {
			want = (1 - float64(ts)/float64(j)) * 100
		}
		if got, err := strconv.ParseFloat(row[col[6]], 64); err != nil || math.Abs(got-want) > 0.0051+math.Abs(want)*1e-9 {
			return fmt.Errorf("timing row %v should show a difference of %.2f", row, want)
		}
	}
	if t != len(o.tsonPatches) {
		return fmt.Errorf("%d value changes in the timing rows, %d patches", t, len(o.tsonPatches))
	}
	if sumJ != n[10] || sumT != n[11] {
		return fmt.Errorf("processing times %d and %d reported, %d and %d recorded", n[10], n[11], sumJ, sumT)
	}

	if err := o.told(c, n); err != nil {
		return err
	}
	if len(o.phases) == 1 { // changes of scenario set values besides
		if lo, hi := o.setSize(); n[9] < int64(lo) || n[9] > int64(hi) {
			return fmt.Errorf("the set patches have a size of %d, not %d to %d", n[9], lo, hi)
		}
	}

	// The cumulative counts are those of the patches before each mark
	col, err = columns(o.cumul, "TimeMs", "JsonPatchCount", "TsonPatchCount")
	if err != nil {
		return err
	}
	if len(o.cumul)-1 != durationMs/10_000 {
		return fmt.Errorf("%d cumulative rows", len(o.cumul)-1)
	}
	ji, ti := 0, 0
	for i, row := range o.cumul[1:] {
		at := int64(i) * 10_000
		for ti < len(o.tsonPatches) && *o.tsonPatches[ti].Timestamp < at {
			ti++
		}
		for ji < len(o.jsonPatches) {
			p := o.jsonPatches[ji]
			if strings.HasSuffix(p.Path, "/timestamp") {
				if ts, ok := p.Value.(float64); !ok || int64(ts) >= at {
					break
				}
			}
			ji++
		}
		if want := []string{fmt.Sprint(at), fmt.Sprint(ji), fmt.Sprint(ti)}; row[col[0]] != want[0] || row[col[1]] != want[1] || row[col[2]] != want[2] {
			return fmt.Errorf("cumulative row %v should be %v", row, want)
		}
	}
	return nil
}

// shown is how sensor data show a value.
func shown(v any) string {
	if f, ok := v.(float64); ok {
		return fmt.Sprintf("%.4f", f)
	}
	return fmt.Sprint(v)
}

func changed(a, b any) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return math.Abs(x-y) >= 0.005
	}
	return a != b
}

// replay applies the recorded patches to the initial documents.
func (o *outcome) replay() error {
	if len(o.initJSON) != len(o.initTSON) || len(o.initTSON) == 0 {
		return fmt.Errorf("initial documents with %d and %d signals", len(o.initJSON), len(o.initTSON))
	}
	for p, l := range o.initTSON {
		if o.initJSON[p] != l {
			return fmt.Errorf("initial documents differ at %s: %v and %v", p, o.initJSON[p], l)
		}
	}
	now := map[string]leaf{}
	for p, l := range o.initTSON {
		now[p] = l
	}
	type setRow struct {
		row   string
		phase int
	}
	shownSet := map[string]setRow{}
	// the value each tracked signal has before each step
	rec := map[string]int{}
	for _, p := range exp.KeySensorPaths {
		rec[p] = 1
	}
	record := func(upto int64) error {
		for _, p := range exp.KeySensorPaths {
			rows := o.sensors[p]
			l, ok := now[p]
			if !ok {
				continue
			}
			for rec[p] < len(rows) {
				row := rows[rec[p]]
				if len(row) != 3 {
					return fmt.Errorf("sensor data row %v", row)
				}
				at, err := strconv.ParseInt(row[1], 10, 64)
				if err != nil {
					return err
				}
				if at > upto {
					break
				}
				if want := int64(rec[p]-1) * stepMs; at != want {
					return fmt.Errorf("sensor data of %s has a row for %d instead of %d", p, at, want)
				}
				want := shown(l.val)
				if set, ph := o.setAt(p, at); set != nil {
					var v any = row[2]
					if f, err := strconv.ParseFloat(row[2], 64); err == nil {
						v = f
					} else if b, err := strconv.ParseBool(row[2]); err == nil {
						v = b
					}
					if set(l.val, v) || set(l.val, l.val) && row[2] == want {
						want = row[2]
					}
					if prev := shownSet[p]; prev.phase == ph {
						want = prev.row
					}
					shownSet[p] = setRow{row[2], ph}
				}
				if row[2] != want {
					return fmt.Errorf("sensor data of %s at %d is %s, but its value was %s", p, at, row[2], want)
				}
				rec[p]++
			}
		}
		return nil
	}
	last := int64(0)
	for i, p := range o.tsonPatches {
		if p.Timestamp == nil || *p.Timestamp < last || *p.Timestamp >= durationMs {
			return fmt.Errorf("patch %d has no proper timestamp", i)
		}
		old, ok := now[p.Path]
		if p.Op != "replace" || !ok {
			return fmt.Errorf("patch %d (%s %s) does not apply", i, p.Op, p.Path)
		}
		if !changed(old.val, p.Value) {
			return fmt.Errorf("patch %d of %s does not change the value %v (to %v)", i, p.Path, old.val, p.Value)
		}
		if err := record(*p.Timestamp); err != nil {
			return err
		}
		last = *p.Timestamp
		// a value set by the scenario is recorded as it is if the signal is constant
		if set, ph := o.setAt(p.Path, last); set != nil && o.patternOf(exp.VSSSensors[p.Path], o.phaseAt(last)) == "constant" {
			if r, ok := shownSet[p.Path]; ok && r.phase == ph && r.row != shown(p.Value) {
				return fmt.Errorf("%s was set to %s, but recorded as %v at %d", p.Path, r.row, p.Value, last)
			}
		}
		now[p.Path] = leaf{p.Value, last}
	}
	if err := record(durationMs); err != nil {
		return err
	}
	for _, p := range exp.KeySensorPaths {
		if _, ok := now[p]; ok && len(o.sensors[p])-1 != durationMs/stepMs {
			return fmt.Errorf("sensor data of %s has %d rows", p, len(o.sensors[p])-1)
		}
	}
	if d := diffDocs(o.finalTSON, now, 0); d != "" {
		return fmt.Errorf("final TSON document: %s", d)
	}

	js := map[string]leaf{}
	for p, l := range o.initJSON {
		js[p] = l
	}
	for i, p := range o.jsonPatches {
		path, field, ok := strings.Cut(p.Path, "/")
		l, known := js[path]
		if !ok || !known || p.Op != "replace" {
			return fmt.Errorf("JSON patch %d (%s %s) does not apply", i, p.Op, p.Path)
		}
		switch field {
		case "value":
			l.val = p.Value
		case "timestamp":
			ts, ok := p.Value.(float64)
			if !ok {
				return fmt.Errorf("JSON patch %d sets the timestamp %v", i, p.Value)
			}
			l.ts = int64(ts)
		default:
			return fmt.Errorf("JSON patch %d sets %s", i, p.Path)
		}
		js[path] = l
	}
	if d := diffDocs(o.finalJSON, js, 0.005); d != "" {
		return fmt.Errorf("final JSON document: %s", d)
	}
	// Both kinds of patches carry the same changes
	i := 0
	for _, p := range o.jsonPatches {
		if path, field, _ := strings.Cut(p.Path, "/"); field == "value" {
			if i >= len(o.tsonPatches) || o.tsonPatches[i].Path != path || o.tsonPatches[i].Value != p.Value {
				return fmt.Errorf("the value change of %s to %v is not TSON patch %d", path, p.Value, i)
			}
			i++
		}
	}
	if i != len(o.tsonPatches) {
		return fmt.Errorf("%d value changes as JSON, %d as TSON", i, len(o.tsonPatches))
	}
	return nil
}

func diffDocs(got, want map[string]leaf, tolerance float64) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d instead of %d signals", len(got), len(want))
	}
	for _, p := range simkit.SortedKeys(want) {
		g, ok := got[p]
		w := want[p]
		if !ok {
			return p + " is missing"
		}
		gf, ok1 := g.val.(float64)
		wf, ok2 := w.val.(float64)
		if g.ts != w.ts || !(g.val == w.val || ok1 && ok2 && math.Abs(gf-wf) < tolerance) {
			return fmt.Sprintf("%s is %v at %d instead of %v at %d", p, g.val, g.ts, w.val, w.ts)
		}
	}
	return ""
}

// schedule checks when signals were updated and which values they took.
func (o *outcome) schedule() error {
	if len(o.initTSON) != len(exp.VSSSensors) {
		return fmt.Errorf("%d of %d signals", len(o.initTSON), len(exp.VSSSensors))
	}
	col, err := columns(o.timing, "TimeMs", "SensorPath")
	if err != nil {
		return err
	}
	got := map[string]map[int64]int{}
	for p := range exp.VSSSensors {
		got[p] = map[int64]int{}
	}
	for _, row := range o.timing[1:] {
		at, err := strconv.ParseInt(row[col[0]], 10, 64)
		if err != nil || got[row[col[1]]] == nil {
			return fmt.Errorf("timing row %v", row)
		}
		got[row[col[1]]][at]++
	}
	for _, p := range simkit.SortedKeys(exp.VSSSensors) {
		s := exp.VSSSensors[p]
		want := 0
		for at := int64(0); at < durationMs; at += stepMs {
			if at%int64(s.UpdateInterval) != 0 {
				continue
			}
			want++
			if n := got[p][at]; n != 1 {
				return fmt.Errorf("%s was updated %d times at %d (interval %d)", p, n, at, s.UpdateInterval)
			}
		}
		if len(got[p]) != want {
			return fmt.Errorf("%s was updated %d instead of %d times", p, len(got[p]), want)
		}
	}
	now := map[string]any{}
	dir := map[string]float64{}
	for p, l := range o.initTSON {
		now[p] = l.val
		if exp.VSSSensors[p] == nil {
			return fmt.Errorf("%s is not defined", p)
		}
		if fmt.Sprintf("%T", l.val) != fmt.Sprintf("%T", exp.VSSSensors[p].DefaultValue) {
			return fmt.Errorf("%s starts as %v", p, l.val)
		}
	}
	phase := 0
	check := func(next int) error { // the values set by a scenario are there once they are recorded
		if phase == 0 {
			return nil
		}
		end := int64(durationMs)
		if next < len(o.phases) {
			end = o.phases[next].from
		}
		for _, p := range simkit.SortedKeys(setBy[o.phases[phase].name]) {
			s, set := exp.VSSSensors[p], setBy[o.phases[phase].name][p]
			if s == nil || o.patternOf(s, phase) != "constant" {
				continue
			}
			if s, _ := o.setAt(p, end-1); s != nil {
				continue
			}
			if _, known := now[p]; known && !set(now[p], now[p]) && !near(set, now[p]) {
				return fmt.Errorf("%s is %v although the change to %s at %d set it", p, now[p], o.phases[phase].name, o.phases[phase].from)
			}
		}
		return nil
	}
	for _, tp := range o.tsonPatches {
		for ph := o.phaseAt(*tp.Timestamp); phase < ph; phase++ {
			if err := check(phase + 1); err != nil {
				return err
			}
			clear(dir)
		}
		s := exp.VSSSensors[tp.Path]
		if s == nil || fmt.Sprintf("%T", tp.Value) != fmt.Sprintf("%T", s.DefaultValue) {
			return fmt.Errorf("%s takes the value %v", tp.Path, tp.Value)
		}
		pattern := o.patternOf(s, phase)
		set, _ := o.setAt(tp.Path, *tp.Timestamp)
		f, num := tp.Value.(float64)
		switch pattern {
		case "constant":
			if set != nil && set(now[tp.Path], tp.Value) {
				break
			}
			return fmt.Errorf("the constant %s changes to %v", tp.Path, tp.Value)
		case "random_walk", "linear":
			if !num || f < s.Min || f > s.Max {
				return fmt.Errorf("%s takes the value %v outside %v to %v", tp.Path, tp.Value, s.Min, s.Max)
			}
			if d := f - now[tp.Path].(float64); pattern == "linear" {
				if set != nil {
					d = 0
				}
				if d*dir[tp.Path] < 0 {
					return fmt.Errorf("%s turns back to %v", tp.Path, f)
				}
				dir[tp.Path] = d
			}
		}
		now[tp.Path] = tp.Value
	}
	for ; phase < len(o.phases); phase++ {
		if err := check(phase + 1); err != nil {
			return err
		}
	}
	return nil
}

// near allows for the tolerance within which a value counts as unchanged.
func near(set func(old, v any) bool, v any) bool {
	f, ok := v.(float64)
	return ok && (set(f, f-0.005) || set(f, f+0.005) || math.Abs(f) < 0.005 && set(f, 0.0))
}

func execPatchExp(what string) func(c *Ctx, tr *simkit.Trace) {
	return func(c *Ctx, tr *simkit.Trace) {
		m := newMachine(c, tr)
		defer m.clock.Install(c)()
		defer define(tr)()
		defs := copyDefs()
		var faults []simfs.Fault
		for i, e := range tr.Ev {
			c.Step = i
			switch e.Op {
			case "clock":
				m.clock.Steps = append(m.clock.Steps, e.A)
			case "fault":
				faults = append(faults, simfs.Fault{Kind: e.Mode, N: e.A})
			case "experiment":
				msg, panicked, crashed := m.run(faults, e.Strs)
				m.judge(what, msg, panicked, crashed, uint64(i)+tr.Seed)
				faults = nil
			case "queries":
				m.secs, m.from = nil, 0
				m.fs.Plan(faults)
				msg, panicked, crashed := m.fs.Run(exp.RunTemporalQueryExperiments)
				m.judgeQueries(msg, panicked, crashed, uint64(i)+tr.Seed)
				faults = nil
			}
		}
		checkDefs(c, defs)
	}
}

func (m *machine) told(out, msg string, panicked bool) string {
	if panicked {
		return "panic: " + strings.ReplaceAll(msg, m.fs.Root, "ROOT")
	}
	return strings.ReplaceAll(simfs.ReportedIn(out), m.fs.Root, "ROOT")
}

func (m *machine) judge(what, msg string, panicked, crashed bool, seed uint64) {
	c := m.c
	if crashed {
		m.fs.PowerLoss(seed)
		c.Probe("restarted_after_crash")
		c.Log("crashed")
		return
	}
	m.fs.Synced()
	all := m.told(m.fs.Out.String()+m.fs.Err.String(), msg, panicked)
	if m.fs.Hit == 0 {
		c.Check(all == "", "spurious-error", "the experiment failed without a fault: %s (denied %v)", all, m.fs.Denied)
	} else if all == "" {
		c.Probe("fault_without_report")
	} else {
		c.Probe("fault_reported")
	}
	seen := map[string]bool{}
	for _, s := range m.secs {
		seen[s.name] = true
		told := m.told(s.out, msg, panicked)
		if told != "" {
			c.Log("%s told %s", s.name, told)
			continue
		}
		o, err := readOutcome(m.fs.Root, s)
		if err != nil {
			err = errors.New(strings.ReplaceAll(err.Error(), m.fs.Root, "ROOT"))
		}
		if err == nil {
			c.SimMs += durationMs
			for p, l := range o.finalTSON {
				c.State(simkit.HashStr(fmt.Sprint(s.name, p, l)))
			}
			c.Log("%s: %d updates, %d changes, final %v", s.name, len(o.timing), len(o.tsonPatches), o.results[1:])
		}
		class := what
		if what == "faults" {
			class = "silent-failure"
		}
		c.Check(err == nil, class, "%s: results cannot be read, and nothing was reported: %v", s.name, err)
		if what == "accounting" || what == "faults" {
			err = o.accounting(c)
			c.Check(err == nil, class, "%s: %v", s.name, err)
		}
		if what == "replay" || what == "faults" {
			err = o.replay()
			c.Check(err == nil, class, "%s: %v", s.name, err)
		}
		if what != "accounting" {
			err = o.changesOfScenario()
			c.Check(err == nil, class, "%s: %v", s.name, err)
			if n := len(o.phases) - 1; n > 0 {
				c.Probe("scenario_changed")
				if n > 1 {
					c.Probe("scenario_changed_back")
				}
			}
		}
		if what == "schedule" || what == "scenario" || what == "faults" {
			err = o.schedule()
			c.Check(err == nil, class, "%s: %v", s.name, err)
		}
	}
	if all == "" {
		for _, n := range m.names {
			c.Check(seen[n], "missing-scenario", "nothing was recorded for %s, and nothing was reported", n)
		}
	}
}

func genPatchExp(faults bool) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		tr := &simkit.Trace{Cfg: map[string]int64{}}
		tr.Cfg["clock"] = []int64{1_000_000_000, 1_700_000_000_000_000_000, 1_763_596_799_900_000_000}[r.Intn(3)]
		tr.Cfg["tick"] = []int64{1, 137, 1_003, 20_011, 0}[r.Weighted([]int{2, 3, 3, 2, 1})]
		if r.P(0.6) {
			for i, n := 0, r.Between(1, 60); i < n; i++ {
				d := int64(r.Intn(5_000_000))
				switch r.Intn(8) {
				case 0:
					d = 0
				case 1:
					d = -int64(r.Intn(5_000_000_000))
				case 2:
					d = int64(r.Intn(100)) * 3600_000_000_000
				case 3:
					d = -int64(r.Intn(100)) * 3600_000_000_000
				}
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "clock", A: d})
			}
		}
		queries := faults && r.P(0.25)
		if r.P(0.8) {
			var must []string
			if queries {
				must = []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", batteryPath}
			}
			tr.Ev = append(tr.Ev, genDefs(r, must)...)
		}
		experiment := func() {
			e := simkit.Ev{Op: "experiment"}
			if r.P(0.7) {
				all := append([]string{mixed}, scenarioNames...)
				for len(e.Strs) == 0 {
					for i := range all {
						j := i + r.Intn(len(all)-i)
						all[i], all[j] = all[j], all[i]
						if r.P(0.4) || all[i] == mixed && r.P(0.3) || queries && all[i] == "urban_traffic" {
							e.Strs = append(e.Strs, all[i])
						}
					}
				}
			}
			tr.Ev = append(tr.Ev, e)
		}
		if !faults {
			experiment()
			return tr
		}
		plan := func(ops, writes int) {
			for i, n := 0, r.Weighted([]int{0, 6, 2, 1}); i < n; i++ {
				ks := simfs.Kinds()
				k := ks[r.Intn(len(ks))]
				at := 3
				switch k {
				case "crash":
					at = ops
				case "write_error", "short_write", "disk_full":
					at = writes
				case "open_error", "close_error":
					at = 48
				case "mkdir_error":
					at = 14
				case "read_error", "read_open_error", "short_read", "stat_error":
					at = 8
				}
				if r.P(0.3) {
					at = min(at, 60)
				}
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "fault", Mode: k, A: int64(r.Intn(at))})
			}
		}
		plan(6000, 6000)
		experiment()
		if queries {
			if r.P(0.5) {
				plan(300, 150)
			}
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "queries"})
		}
		if r.P(0.2) {
			experiment()
		}
		return tr
	}
}
