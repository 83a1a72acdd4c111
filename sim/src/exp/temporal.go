package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C24: questions about the past, answered by a document and by a temporal JSON document.

const queryDir = "results/temporal_query_experiment"

type change struct {
	path string
	val  any // nil: removed
	ts   int64
}

// past is the reference: initial values and changes in arrival order.
type past struct {
	initial map[string]any
	changes []change
}

func (p *past) sorted() []change {
	s := append([]change(nil), p.changes...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].ts < s[j].ts })
	return s
}

// at gives the values at a time.
func (p *past) at(ts int64) map[string]any {
	now := map[string]any{}
	for k, v := range p.initial {
		now[k] = v
	}
	for _, ch := range p.sorted() {
		if ch.ts > ts {
			break
		}
		if ch.val == nil {
			delete(now, ch.path)
		} else {
			now[ch.path] = ch.val
		}
	}
	return now
}

// changesIn lists the changes of a path in a range, without repetitions.
func (p *past) changesIn(path string, lo, hi int64) []change {
	var out []change
	var last any
	for _, ch := range p.changes {
		if ch.path == path && ch.ts >= lo && ch.ts <= hi {
			if !reflect.DeepEqual(last, ch.val) {
				out = append(out, ch)
			}
			last = ch.val
		}
	}
	return out
}

type period struct {
	start, end int64
	val        any
}

// periods lists the values a path had, the initial one since time 0.
func (p *past) periods(path string) []period {
	var out []period
	open := false
	set := func(v any, ts int64) {
		if open && reflect.DeepEqual(out[len(out)-1].val, v) {
			return
		}
		if open {
			out[len(out)-1].end = ts - 1
		}
		if open = v != nil; open {
			out = append(out, period{ts, math.MaxInt64, v})
		}
	}
	all := p.sorted()
	if v, ok := p.initial[path]; ok {
		all = append([]change{{path, v, 0}}, all...)
		sort.SliceStable(all, func(i, j int) bool { return all[i].ts < all[j].ts })
	}
	for _, ch := range all {
		if ch.path == path {
			set(ch.val, ch.ts)
		}
	}
	return out
}

func (p *past) periodsIn(path string, lo, hi int64) []period {
	var out []period
	for _, v := range p.periods(path) {
		if v.start <= hi && v.end >= lo {
			out = append(out, v)
		}
	}
	return out
}

// leaves reads plain nested values.
func leaves(v map[string]any, prefix string, out map[string]any) {
	for k, x := range v {
		if m, ok := x.(map[string]any); ok {
			leaves(m, prefix+k+".", out)
		} else {
			out[prefix+k] = x
		}
	}
}

func sameValues(got, want map[string]any) string {
	for _, k := range simkit.SortedKeys(want) {
		if g, ok := got[k]; !ok {
			return k + " is missing"
		} else if !reflect.DeepEqual(g, want[k]) {
			return fmt.Sprintf("%s is %v instead of %v", k, g, want[k])
		}
	}
	for _, k := range simkit.SortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%s should not be there (%v)", k, got[k])
		}
	}
	return ""
}

// answers compares the two answers to one question with the reference.
type question struct {
	kind      string // TemporalSnapshot, TemporalTrack, EventSearch
	path      string
	lo, hi    int64
	threshold float64
}

func (p *past) checkLogument(q question, file string) error {
	switch q.kind {
	case "TemporalSnapshot":
		var m map[string]any
		if err := readFile(file, &m); err != nil {
			return err
		}
		doc := map[string]leaf{}
		if err := flatten(m, "timestamp", "", doc); err != nil {
			return err
		}
		got := map[string]any{}
		for k, l := range doc {
			got[k] = l.val
		}
		if d := sameValues(got, p.at(q.lo)); d != "" {
			return fmt.Errorf("at %d %s", q.lo, d)
		}
		// the timestamps are those of the changes
		stamp := map[string]int64{}
		for _, ch := range p.sorted() {
			if ch.ts <= q.lo {
				stamp[ch.path] = ch.ts
			}
		}
		for k, ts := range stamp {
			if doc[k].ts != ts {
				return fmt.Errorf("at %d %s has the timestamp %d instead of %d", q.lo, k, doc[k].ts, ts)
			}
		}
	case "TemporalTrack":
		var m map[string][]patch
		if err := readFile(file, &m); err != nil {
			return err
		}
		vs := simkit.SortedKeys(m)
		sort.Slice(vs, func(i, j int) bool { a, _ := strconv.Atoi(vs[i]); b, _ := strconv.Atoi(vs[j]); return a < b })
		var got []change
		for _, v := range vs {
			for _, o := range m[v] {
				if o.Timestamp == nil || o.Op != "replace" {
					return fmt.Errorf("%+v is listed", o)
				}
				got = append(got, change{o.Path, o.Value, *o.Timestamp})
			}
		}
		want := p.changesIn(q.path, q.lo, q.hi)
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			return fmt.Errorf("from %d to %d %s has the changes %s instead of %s", q.lo, q.hi, q.path, brief(got), brief(want))
		}
	case "EventSearch":
		var got []int64
		if err := readFile(file, &got); err != nil {
			return err
		}
		want := []int64{}
		for _, ch := range p.changesIn(q.path, q.lo, q.hi) {
			if f, ok := ch.val.(float64); ok && f > q.threshold {
				want = append(want, ch.ts)
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		got, want = slices.Compact(got), slices.Compact(want) // two changes at the same time may be told once
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			return fmt.Errorf("from %d to %d %s exceeds %v at %s instead of %s", q.lo, q.hi, q.path, q.threshold, brief(got), brief(want))
		}
	}
	return nil
}

// checkCreated: snapshot i shows the initial document after the first i patches, with their timestamps.
func (p *past) checkCreated(dir string) error {
	now, stamp := map[string]any{}, map[string]int64{}
	for k, v := range p.initial {
		now[k] = v
	}
	for i := 0; i <= len(p.changes); i++ {
		if i > 0 {
			ch := p.changes[i-1]
			now[ch.path], stamp[ch.path] = ch.val, ch.ts
		}
		name := fmt.Sprintf("snapshot_%d.json", i)
		var m map[string]any
		if err := readFile(filepath.Join(dir, name), &m); err != nil {
			return err
		}
		doc, got := map[string]leaf{}, map[string]any{}
		if err := flatten(m, "timestamp", "", doc); err != nil {
			return fmt.Errorf("%s: %v", name, err)
		}
		for k, l := range doc {
			got[k] = l.val
			if ts, ok := stamp[k]; ok && ts != l.ts {
				return fmt.Errorf("in %s %s has the timestamp %d instead of %d", name, k, l.ts, ts)
			}
		}
		if d := sameValues(got, now); d != "" {
			return fmt.Errorf("in %s %s", name, d)
		}
	}
	return nil
}

func (p *past) checkTJSON(q question, file string) error {
	switch q.kind {
	case "TemporalSnapshot":
		var m map[string]any
		if err := readFile(file, &m); err != nil {
			return err
		}
		got := map[string]any{}
		leaves(m, "", got)
		if d := sameValues(got, p.at(q.lo)); d != "" {
			return fmt.Errorf("at %d %s", q.lo, d)
		}
	case "TemporalTrack":
		var got []map[string]any
		if err := readFile(file, &got); err != nil {
			return err
		}
		return p.checkPeriods(q, got)
	case "EventSearch":
		var got []int64
		if err := readFile(file, &got); err != nil {
			return err
		}
		return p.checkEvents(q, got)
	}
	return nil
}

func (p *past) checkPeriods(q question, got []map[string]any) error {
	want := p.periodsIn(q.path, q.lo, q.hi)
	for i, w := range want {
		if i >= len(got) || got[i]["timestamp"] != fmt.Sprintf("%d-%d", w.start, w.end) || !reflect.DeepEqual(got[i]["data"], w.val) {
			return fmt.Errorf("from %d to %d %s has the versions %s instead of %s", q.lo, q.hi, q.path, brief(got), brief(want))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("from %d to %d %s has the versions %s instead of %s", q.lo, q.hi, q.path, brief(got), brief(want))
	}
	return nil
}

func (p *past) checkEvents(q question, got []int64) error {
	want := []int64{}
	for _, v := range p.periodsIn(q.path, q.lo, q.hi) {
		if f, ok := v.val.(float64); ok && f > q.threshold {
			want = append(want, v.start)
		}
	}
	got, want = slices.Compact(got), slices.Compact(want)
	if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
		return fmt.Errorf("from %d to %d %s exceeds %v since %s instead of %s", q.lo, q.hi, q.path, q.threshold, brief(got), brief(want))
	}
	return nil
}

func brief(v any) string {
	s := fmt.Sprint(v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// loadPast reads what an experiment left.
func loadPast(dir string) (*past, error) {
	doc, err := readDoc(dir+"/initial_json.json", "timestamp")
	if err != nil {
		return nil, err
	}
	p := &past{initial: map[string]any{}}
	for k, l := range doc {
		p.initial[k] = l.val
	}
	var patches []patch
	if err := readFile(dir+"/all_tson_patches.json", &patches); err != nil {
		return nil, err
	}
	for i, o := range patches {
		if _, ok := p.initial[o.Path]; !ok || o.Op != "replace" || o.Timestamp == nil {
			return nil, fmt.Errorf("patch %d is %+v", i, o)
		}
		p.changes = append(p.changes, change{o.Path, o.Value, *o.Timestamp})
	}
	return p, nil
}

var runName = regexp.MustCompile(`^[0-9]{8}_[0-9]{6}$`)

func latestRun(root string) string {
	es, _ := os.ReadDir(filepath.Join(root, expDir, "urban_traffic"))
	latest := ""
	for _, e := range es {
		if e.IsDir() && runName.MatchString(e.Name()) {
			latest = max(latest, e.Name())
		}
	}
	if latest == "" {
		return ""
	}
	return filepath.Join(root, expDir, "urban_traffic", latest)
}

// checkRow compares one row of a table of results with the answers it stands for.
func (p *past) checkRow(row []string, col []int, q question, lgm, tj string) error {
	if err := p.checkLogument(q, lgm); err != nil {
		return fmt.Errorf("document: %w", err)
	}
	if err := p.checkTJSON(q, tj); err != nil {
		return fmt.Errorf("temporal JSON: %w", err)
	}
	if row[col[0]] != "urban_traffic" || row[col[1]] != q.kind {
		return fmt.Errorf("row %v", row)
	}
	a, err1 := compactSize(lgm)
	b, err2 := compactSize(tj)
	if err1 != nil || err2 != nil || row[col[6]] != strconv.Itoa(a) || row[col[7]] != strconv.Itoa(b) {
		return fmt.Errorf("row %v should have the sizes %d and %d", row, a, b)
	}
	for _, k := range []int{3, 6} {
		x, _ := strconv.ParseFloat(row[col[k]], 64)
		y, _ := strconv.ParseFloat(row[col[k+1]], 64)
		want := 0.0
		if y > 0 {
			want = (x - y) / y * 100
		}
		if got, err := strconv.ParseFloat(row[col[k+2]], 64); err != nil || math.Abs(got-want) > 0.0051+math.Abs(want)*1e-9 {
			return fmt.Errorf("row %v should have a difference of %.2f", row, want)
		}
	}
	return nil
}

var queryColumns = []string{"Scenario", "QueryType", "Parameter", "LogumentTimeNs", "TJSONTimeNs", "TimeDiffPct", "LogumentResultSize", "TJSONResultSize", "SizeDiffPct"}

var rangeParam = regexp.MustCompile(`^(\S+)(?: > ([0-9.-]+))? \((-?\d+)-(-?\d+)\)$`)

// checkPipeline reads back everything a run of the temporal experiment has to leave.
func (p *past) checkPipeline(root string) error {
	out := filepath.Join(root, queryDir, "urban_traffic", "temporal_query")
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for _, ch := range p.changes {
		lo, hi = min(lo, ch.ts), max(hi, ch.ts)
	}
	table := func(name string, n int) ([][]string, []int, error) {
		rows, err := readCSV(out + "/" + name)
		if err != nil {
			return nil, nil, err
		}
		col, err := columns(rows, queryColumns...)
		if err == nil && len(rows)-1 != n {
			err = fmt.Errorf("%s has %d instead of %d rows", name, len(rows)-1, n)
		}
		return rows[1:], col, err
	}
	rows, col, err := table("snapshot_results.csv", 61)
	if err != nil {
		return err
	}
	for i, row := range rows {
		ts, err := strconv.ParseInt(row[col[2]], 10, 64)
		if want := lo + int64(float64(i)/60*float64(hi-lo)); err != nil || ts < want-1 || ts > want+1 || i == 0 && ts != lo || i == 60 && ts != hi {
			return fmt.Errorf("question %d is about the time %s instead of %d", i, row[col[2]], want)
		}
		err = p.checkRow(row, col, question{kind: "TemporalSnapshot", lo: ts},
			fmt.Sprintf("%s/logument/snapshot_logument_%d_%d.json", out, i, ts), fmt.Sprintf("%s/tjson/snapshot_tjson_%d_%d.json", out, i, ts))
		if err != nil {
			return err
		}
	}
	paths := []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", batteryPath}
	if rows, col, err = table("track_results.csv", len(paths)); err != nil {
		return err
	}
	for i, row := range rows {
		if want := fmt.Sprintf("%s (%d-%d)", paths[i], lo, hi); row[col[2]] != want {
			return fmt.Errorf("track %d is about %s instead of %s", i, row[col[2]], want)
		}
		name := fmt.Sprintf("%d_%s_%d_%d.json", i, strings.ReplaceAll(paths[i], ".", "_"), lo, hi)
		if err := p.checkRow(row, col, question{kind: "TemporalTrack", path: paths[i], lo: lo, hi: hi},
			out+"/logument/track_logument_"+name, out+"/tjson/track_tjson_"+name); err != nil {
			return err
		}
	}
	if rows, col, err = table("event_search_results.csv", 3); err != nil {
		return err
	}
	for i, row := range rows {
		m := rangeParam.FindStringSubmatch(row[col[2]])
		if m == nil || m[1] != "Vehicle.Speed" || m[2] != []string{"10.0", "30.0", "50.0"}[i] {
			return fmt.Errorf("event search %d is about %s", i, row[col[2]])
		}
		q := question{kind: "EventSearch", path: m[1]}
		q.threshold, _ = strconv.ParseFloat(m[2], 64)
		q.lo, _ = strconv.ParseInt(m[3], 10, 64)
		q.hi, _ = strconv.ParseInt(m[4], 10, 64)
		if q.hi-q.lo != 10_000 || q.lo < lo || q.hi > hi {
			return fmt.Errorf("event search %d is about %s", i, row[col[2]])
		}
		name := fmt.Sprintf("%d_Vehicle_Speed_%s_%s_%s.json", i, m[2], m[3], m[4])
		if err := p.checkRow(row, col, q, out+"/logument/event_logument_"+name, out+"/tjson/event_tjson_"+name); err != nil {
			return err
		}
	}
	return nil
}

// judgeQueries judges a run of the whole temporal experiment.
func (m *machine) judgeQueries(msg string, panicked, crashed bool, seed uint64) {
	c := m.c
	if crashed {
		m.fs.PowerLoss(seed)
		c.Probe("restarted_after_crash")
		c.Log("queries crashed")
		return
	}
	m.fs.Synced()
	told := m.told(m.fs.Out.String()+m.fs.Err.String(), msg, panicked)
	c.Log("queries told %q", told)
	var p *past
	err := fmt.Errorf("there is no experiment")
	if dir := latestRun(m.fs.Root); dir != "" {
		if p, err = loadPast(dir); err != nil {
			err = errors.New(strings.ReplaceAll(err.Error(), m.fs.Root, "ROOT"))
		}
	}
	if err != nil {
		c.Probe("queries_without_experiment")
		c.Check(told != "", "silent-failure", "nothing was reported about the experiment that cannot be read: %v", err)
		return
	}
	lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
	for _, ch := range p.changes {
		lo, hi = min(lo, ch.ts), max(hi, ch.ts)
	}
	if len(p.changes) == 0 || hi-lo < 10_000 {
		return
	}
	if m.fs.Hit == 0 {
		c.Check(told == "", "spurious-error", "the temporal experiment failed without a fault: %s (denied %v)", told, m.fs.Denied)
	} else if told == "" {
		c.Probe("fault_without_report")
	} else {
		c.Probe("fault_reported")
	}
	if told == "" {
		err := p.checkPipeline(m.fs.Root)
		c.Check(err == nil, "answer", "temporal experiment: %v", err)
		c.Probe("queries_verified")
	}
}

// nest writes leaves as a document of values and timestamps.
func nest(initial map[string]any) map[string]any {
	out := map[string]any{}
	for _, p := range simkit.SortedKeys(initial) {
		m := out
		parts := strings.Split(p, ".")
		for _, k := range parts[:len(parts)-1] {
			if _, ok := m[k]; !ok {
				m[k] = map[string]any{}
			}
			m = m[k].(map[string]any)
		}
		m[parts[len(parts)-1]] = map[string]any{"value": initial[p], "timestamp": 0}
	}
	return out
}

func execTemporal(c *Ctx, tr *simkit.Trace) {
	m := newMachine(c, tr)
	defer m.clock.Install(c)()
	p := &past{initial: map[string]any{}}
	if err := json.Unmarshal([]byte(tr.Init[0]), &p.initial); err != nil {
		panic(err)
	}
	var patches []exp.TsonPatch
	seen := map[string]bool{}
	for _, e := range tr.Ev {
		if e.Op != "change" {
			continue
		}
		var v any
		if json.Unmarshal([]byte(e.Val), &v) != nil {
			continue
		}
		key := fmt.Sprint(e.Path, e.T)
		if _, ok := p.initial[e.Path]; !ok || seen[key] && tr.Cfg["same"] == 0 || e.T < 0 {
			continue
		}
		seen[key] = true
		p.changes = append(p.changes, change{e.Path, v, e.T})
		patches = append(patches, exp.TsonPatch{Op: "replace", Path: e.Path, Value: v, Timestamp: e.T})
	}
	dir := filepath.Join(m.fs.Root, expDir, "urban_traffic", "20250314_091500")
	write := func(name string, v any) {
		b, err := json.MarshalIndent(v, "", "  ")
		if err == nil {
			if err = os.MkdirAll(filepath.Dir(name), 0o755); err == nil {
				err = os.WriteFile(name, b, 0o644)
			}
		}
		if err != nil {
			panic(err)
		}
	}
	write(dir+"/initial_json.json", nest(p.initial))
	write(dir+"/all_tson_patches.json", patches)
	if len(patches) == 0 {
		os.WriteFile(dir+"/all_tson_patches.json", []byte("[]"), 0o644)
	}
	given := append([]exp.TsonPatch(nil), patches...)
	var x *exp.TemporalQueryExperiment
	var faults []simfs.Fault
	run := func(f func()) (told string) {
		m.fs.Plan(faults)
		faults = nil
		msg, panicked, _ := m.fs.Run(f)
		told = m.told(m.fs.Out.String()+m.fs.Err.String(), msg, panicked)
		m.fs.Synced()
		if m.fs.Hit == 0 {
			c.Check(told == "", "spurious-error", "failed without a fault: %s (denied %v)", told, m.fs.Denied)
		}
		return
	}
	for i, e := range tr.Ev {
		c.Step = i
		switch e.Op {
		case "snapshots", "track", "events":
			if x == nil {
				var err error
				told := run(func() {
					x, err = exp.NewTemporalQueryExperiment(dir, "./"+queryDir, "urban_traffic", patches)
				})
				c.Check(reflect.DeepEqual(patches, given), "input", "the patches given to the experiment were changed")
				if told != "" || err != nil {
					c.Check(m.fs.Hit > 0, "spurious-error", "NewTemporalQueryExperiment failed without a fault: %v", err)
					x = nil
					break
				}
			}
			m.ask(p, x, e, run)
		case "create": // a snapshot for each patch
			told := run(func() { exp.CreateSnapshot(dir+"/initial_json.json", patches) })
			c.Check(reflect.DeepEqual(patches, given), "input", "the patches given to CreateSnapshot were changed")
			c.Ops++
			if told == "" {
				c.Probe("created")
				err := p.checkCreated(filepath.Join(m.fs.Root, "results/snapshots"))
				c.Check(err == nil, "created", "%v", err)
			}
		case "fault":
			faults = append(faults, simfs.Fault{Kind: e.Mode, N: e.A})
		case "older": // other experiments that don't count
			base := filepath.Join(m.fs.Root, expDir, "urban_traffic")
			name := []string{"20250314_091459", "20241231_235959", "20250314_0915000", "2025031_4091500", "backup", "20250314-091501"}[e.A%6]
			write(filepath.Join(base, name, "initial_json.json"), nest(map[string]any{"Vehicle.Speed": 1.0}))
			write(filepath.Join(base, name, "all_tson_patches.json"), []exp.TsonPatch{{Op: "replace", Path: "Vehicle.Speed", Value: 77.0, Timestamp: 3}})
			if e.B == 1 {
				os.WriteFile(filepath.Join(base, "20990101_000000"), nil, 0o644)
			}
		case "pipeline":
			m.secs, m.from = nil, 0
			m.fs.Plan(faults)
			faults = nil
			msg, panicked, crashed := m.fs.Run(exp.RunTemporalQueryExperiments)
			m.judgeQueries(msg, panicked, crashed, uint64(i)+tr.Seed)
		case "tjson":
			direct(c, tr, e)
		}
		c.Log("%s %d", e.Op, len(p.changes))
	}
	for _, ch := range p.changes {
		c.SimMs = max(c.SimMs, ch.ts)
	}
	c.State(simkit.HashStr(fmt.Sprint(p.at(math.MaxInt64))))
}

// ask poses one set of questions to an experiment.
func (m *machine) ask(p *past, x *exp.TemporalQueryExperiment, e simkit.Ev, run func(f func()) string) {
	c := m.c
	var qs []question
	var res []exp.TemporalQueryResult
	var err error
	told := run(func() {
		switch e.Op {
		case "snapshots":
			var at []int64
			for _, s := range e.Strs {
				ts, _ := strconv.ParseInt(s, 10, 64)
				at = append(at, ts)
				qs = append(qs, question{kind: "TemporalSnapshot", lo: ts})
			}
			res, err = x.RunTemporalSnapshotExperiment(at)
		case "track":
			for _, path := range e.Strs {
				qs = append(qs, question{kind: "TemporalTrack", path: path, lo: e.A, hi: e.B})
			}
			res, err = x.RunTemporalTrackExperiment(e.Strs, e.A, e.B)
		case "events":
			var th []float64
			json.Unmarshal([]byte(e.Val), &th)
			if th == nil {
				th = []float64{1}
			}
			for _, path := range e.Strs {
				for _, t := range th {
					qs = append(qs, question{kind: "EventSearch", path: path, lo: e.A, hi: e.B, threshold: t})
				}
			}
			res, err = x.RunEventSearchExperiment(e.Strs, e.A, e.B, th)
		}
	})
	c.Check(err == nil, "answer", "%s failed: %v", e.Op, err)
	if told != "" {
		c.Probe("fault_reported")
		return
	}
	c.Check(len(res) == len(qs), "answer", "%d answers to %d questions", len(res), len(qs))
	for i, q := range qs {
		c.Check(res[i].QueryType == q.kind && res[i].Scenario == "urban_traffic", "answer", "answer %d is %+v", i, res[i])
		err := p.checkLogument(q, res[i].LogumentResultFile)
		c.Check(err == nil, "answer", "%s: document: %v", q.kind, err)
		err = p.checkTJSON(q, res[i].TJSONResultFile)
		c.Check(err == nil, "answer", "%s: temporal JSON: %v", q.kind, err)
		a, err1 := compactSize(res[i].LogumentResultFile)
		b, err2 := compactSize(res[i].TJSONResultFile)
		c.Check(err1 == nil && err2 == nil && a == res[i].LogumentResultSize && b == res[i].TJSONResultSize, "answer",
			"%s: sizes %d and %d instead of %d and %d (%v, %v)", q.kind, res[i].LogumentResultSize, res[i].TJSONResultSize, a, b, err1, err2)
	}
	// the table of these answers
	told = run(func() { err = x.SaveResults(res, "table.csv") })
	if told == "" && err == nil {
		rows, e1 := readCSV(filepath.Join(m.fs.Root, queryDir, "urban_traffic", "temporal_query", "table.csv"))
		c.Check(e1 == nil && len(rows) == len(qs)+1, "answer", "the table has %d rows for %d answers: %v", len(rows)-1, len(qs), e1)
		col, e1 := columns(rows, queryColumns...)
		c.Check(e1 == nil, "answer", "%v", e1)
		for i, q := range qs {
			e1 := p.checkRow(rows[i+1], col, q, res[i].LogumentResultFile, res[i].TJSONResultFile)
			c.Check(e1 == nil, "answer", "table: %v", e1)
		}
	} else {
		c.Check(m.fs.Hit > 0, "spurious-error", "SaveResults failed without a fault: %v", err)
	}
}

// direct builds a temporal JSON document from adds, replacements and removals.
func direct(c *Ctx, tr *simkit.Trace, q simkit.Ev) {
	p := &past{initial: map[string]any{}}
	var patches []exp.TsonPatch
	seen := map[string]bool{}
	paths := map[string]bool{}
	for _, e := range tr.Ev {
		if e.Op != "op" {
			continue
		}
		key := fmt.Sprint(e.Path, e.T)
		var v any
		json.Unmarshal([]byte(e.Val), &v)
		if seen[key] && tr.Cfg["same"] == 0 || e.Mode != "remove" && v == nil || e.T == math.MinInt64 {
			continue
		}
		seen[key] = true
		if e.Mode == "remove" {
			v = nil
		} else {
			paths[e.Path] = true
		}
		p.changes = append(p.changes, change{e.Path, v, e.T})
		path := e.Path
		if e.B == 1 {
			path = "/" + strings.ReplaceAll(path, ".", "/")
		}
		op := e.Mode
		if op == "" {
			op = "replace"
		}
		patches = append(patches, exp.TsonPatch{Op: op, Path: path, Value: v, Timestamp: e.T})
	}
	given := append([]exp.TsonPatch(nil), patches...)
	var doc *exp.TJSONDocument
	var err error
	c.Must("FromTSONPatches", func() { doc, err = exp.FromTSONPatches(patches) })
	c.Check(err == nil, "tjson", "FromTSONPatches: %v", err)
	c.Check(reflect.DeepEqual(patches, given), "input", "the patches were changed")
	for _, s := range q.Strs {
		ts, _ := strconv.ParseInt(s, 10, 64)
		var snap map[string]any
		c.Must("TemporalSnapshot", func() { snap, err = doc.TemporalSnapshot(ts) })
		c.Check(err == nil, "tjson", "TemporalSnapshot: %v", err)
		got := map[string]any{}
		leaves(snap, "", got)
		d := sameValues(got, p.at(ts))
		c.Check(d == "", "tjson", "at %d %s", ts, d)
	}
	lo, hi := min(q.A, q.B), max(q.A, q.B)
	for _, path := range simkit.SortedKeys(paths) {
		ask := question{path: path, lo: lo, hi: hi, threshold: 10}
		var track []map[string]any
		c.Must("TemporalTrack", func() { track, err = doc.TemporalTrack(path, lo, hi) })
		if err == nil {
			err = p.checkPeriods(ask, track)
		}
		c.Check(err == nil, "tjson", "track: %v", err)
		var events []int64
		c.Must("FindEvents", func() {
			events, err = doc.FindEvents(path, lo, hi, func(v any) bool { f, ok := v.(float64); return ok && f > 10 })
		})
		if err == nil {
			err = p.checkEvents(ask, events)
		}
		c.Check(err == nil, "tjson", "events: %v", err)
	}
	c.Must("TemporalTrack", func() { _, err = doc.TemporalTrack("Vehicle.No.Such", lo, hi) })
	c.Check(err != nil, "tjson", "the track of an unknown path was not refused")
	c.Probe("tjson_direct")
}

func genTemporal(r *rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": 1_700_000_000_000_000_000, "tick": []int64{0, 1, 1003, 250_000}[r.Intn(4)]}}
	names := []string{"Vehicle.Speed", "Vehicle.CurrentLocation.Latitude", "Vehicle.CurrentLocation.Longitude", batteryPath}
	names = append(names, []string{"Vehicle.Body.Horn.IsActive", "Vehicle.VehicleIdentification.VIN", "Vehicle.Cabin.Door.Row1.Left.IsOpen", "Vehicle.CurrentLocation.Heading", "Trip.Start", "Trip.Distance", "Odometer"}[:r.Intn(8)]...)
	if r.P(0.3) { // names that begin with others
		names = append(names, []string{"Vehicle.SpeedLimit", "Vehicle.CurrentLocation.LatitudeRaw", "Vehicle.Speed2", batteryPath + "Raw"}[:r.Between(1, 4)]...)
	}
	kind := map[string]int{}
	kinds := r.P(0.2)
	var value func(p string) any
	value = func(p string) any {
		k := kind[p]
		if kinds && r.P(0.15) { // of another type, or looking like one
			if r.P(0.5) {
				return r.Pick("0", "10", "true", "30", "false")
			}
			k = r.Intn(3)
		}
		switch k {
		case 1:
			return r.P(0.5)
		case 2:
			return r.Pick("", "a", "b", "한국", "x<1>", "with \"quotes\"", "a/b~c")
		}
		return []float64{0, 10, 10.5, 30, 49.99, 50, 50.01, -3, 100, 1e300, float64(r.Intn(60)), float64(r.Intn(6000)) / 100}[r.Intn(12)]
	}
	init := map[string]any{}
	for i, p := range names {
		if i >= 4 {
			kind[p] = r.Intn(3)
		}
		init[p] = value(p)
	}
	b, _ := json.Marshal(init)
	tr.Init = []string{string(b)}
	span := int64([]int{3, 50, 2_000, 30_000, 300_000}[r.Weighted([]int{1, 2, 2, 3, 2})])
	var stamps []int64
	stamp := func() int64 {
		if len(stamps) > 0 && r.P(0.3) {
			return stamps[r.Intn(len(stamps))]
		}
		return int64(r.Intn(int(span) + 1))
	}
	late := r.P(0.3)
	tr.Cfg["same"] = int64(r.Intn(2))
	var now int64
	n := r.Between(3, 60)
	if r.P(0.015) {
		n = r.Between(130, 1100)
	}
	for i := 0; i < n; i++ {
		p := names[r.Intn(len(names))]
		if r.P(0.4) {
			p = names[0]
		}
		ts := now
		if late && r.P(0.3) {
			ts = stamp()
		} else if r.P(0.8) {
			now = min(span, now+int64(r.Intn(int(2*span)/n+2)))
			ts = now
		}
		stamps = append(stamps, ts)
		b, _ := json.Marshal(value(p))
		tr.Ev = append(tr.Ev, simkit.Ev{Op: "change", Path: p, Val: string(b), T: ts})
	}
	// times around the changes
	when := func() int64 {
		return max(0, []int64{stamp(), stamp() - 1, stamp() + 1, 0, span, span * 3, math.MaxInt64 - 1}[r.Weighted([]int{5, 3, 3, 1, 1, 1, 1})])
	}
	faulty := r.P(0.15)
	for i, k := 0, r.Between(1, 6); i < k; i++ {
		if faulty && r.P(0.5) {
			ks := simfs.Kinds()
			if kind := ks[r.Intn(len(ks))]; kind != "crash" {
				tr.Ev = append(tr.Ev, simkit.Ev{Op: "fault", Mode: kind, A: int64(r.Intn(8))})
			}
		}
		a, b := when(), when()
		lo, hi := min(a, b), max(a, b)
		some := func() []string {
			var out []string
			for j, n := 0, r.Between(1, 4); j < n; j++ {
				out = append(out, names[r.Intn(len(names))])
			}
			return out
		}
		switch r.Weighted([]int{4, 4, 4, 1, 1, 4, 1}) {
		case 6:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "create"})
		case 0:
			var at []string
			for j, n := 0, r.Between(1, 8); j < n; j++ {
				at = append(at, fmt.Sprint(when()))
			}
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "snapshots", Strs: at})
		case 1:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "track", Strs: some(), A: lo, B: hi})
		case 2:
			th := []float64{10, 30, 50, 10.5, -5}[:r.Between(1, 5)]
			b, _ := json.Marshal(th)
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "events", Strs: some(), A: lo, B: hi, Val: string(b)})
		case 3:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "older", A: int64(r.Intn(6)), B: int64(r.Intn(2))})
		case 4:
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "pipeline"})
		case 5:
			for j, n := 0, r.Between(2, 20); j < n; j++ {
				p := names[r.Intn(len(names))]
				b, _ := json.Marshal(value(p))
				e := simkit.Ev{Op: "op", Path: p, Val: string(b), T: stamp() - int64(r.Intn(2))*span/2, B: int64(r.Intn(2)), Mode: r.Pick("add", "replace", "remove")}
				tr.Ev = append(tr.Ev, e)
			}
			var at []string
			for j, n := 0, r.Between(1, 8); j < n; j++ {
				at = append(at, fmt.Sprint(stamp()-int64(r.Intn(2))*span/2+int64(r.Intn(3))-1))
			}
			tr.Ev = append(tr.Ev, simkit.Ev{Op: "tjson", Strs: at, A: stamp() - int64(r.Intn(2))*span/2, B: stamp()})
		}
	}
	return tr
}
