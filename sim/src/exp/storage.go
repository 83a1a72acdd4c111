package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C29: experiments of several processes store their results side by side.

type store struct {
	ds    *exp.DataStorage
	dir   string
	made  bool              // its directory was there when it had been opened
	gone  bool              // its process has stopped
	owned map[string]string // what is saved under which key: file
	told  map[string]bool   // keys whose last save failed
	event int               // when it was opened
}

type record struct {
	r     *exp.SensorDataRecorder
	rows  map[string][][]string
	told  bool
	dirty bool // a fault took effect while it was open
}

type act struct {
	e      simkit.Ev
	st     *store
	key    string
	data   any
	bad    bool
	err    error
	done   bool
	made   *exp.DataStorage
	doWork func()
}

type shelf struct {
	c       *Ctx
	fs      *simfs.FS
	clock   *simfs.Clock
	base    string
	stores  []*store
	recs    map[string]*record
	content map[string]string
	scratch string
}

func execStorage(c *Ctx, tr *simkit.Trace) {
	root := simfs.Scratch()
	w := &shelf{c: c, fs: simfs.New(c, root), base: "results/patch_experiment", recs: map[string]*record{}, content: map[string]string{}, scratch: root}
	w.clock = &simfs.Clock{Now: tr.Cfg["clock"], Rest: tr.Cfg["rest"]}
	defer w.clock.Install(c)()
	var faults []simfs.Fault
	for i := 0; i < len(tr.Ev); i++ {
		e := tr.Ev[i]
		c.Step = i
		w.clock.Now = max(0, w.clock.Now+e.T)
		c.SimMs += max(0, e.T) / 1e6
		if e.T < 0 {
			c.Fault("clock_jump_back")
		}
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "fault":
			faults = append(faults, simfs.Fault{Kind: e.Mode, N: e.A})
			continue
		case "restart":
			w.stop()
			continue
		}
		acts := []*act{w.plan(e)}
		if e.B > 0 && i+1 < len(tr.Ev) {
			if a := w.plan(tr.Ev[i+1]); a != nil && acts[0] != nil && (a.e.Op == "open" || a.e.Op == "save" && a.st != acts[0].st) { // another process does this meanwhile
				i++
				acts = append(acts, a)
				n := e.B
				w.fs.BeforeOp = func(op, path string) {
					if n--; n == 0 {
						w.fs.BeforeOp = nil
						c.Probe("meanwhile")
						a.doWork()
					}
				}
			}
		}
		if acts[0] == nil {
			continue
		}
		w.fs.Plan(faults)
		faults = nil
		msg, panicked, crashed := w.fs.Run(func() {
			acts[0].doWork()
			w.fs.BeforeOp = nil
			if len(acts) > 1 && !acts[1].done {
				acts[1].doWork()
			}
		})
		w.fs.BeforeOp = nil
		c.Check(!panicked || crashed, "panic", "%s ended with %s", acts[0].e.Op, msg)
		w.judge(acts, crashed)
		if crashed {
			w.stop()
		}
		c.Log("%s %d files", e.Op, len(w.content))
	}
	for _, k := range simkit.SortedKeys(w.recs) {
		w.fs.Plan(nil)
		if a := w.plan(simkit.Ev{Op: "close", Mode: k}); a != nil {
			w.fs.Run(a.doWork)
			w.judge([]*act{a}, false)
		}
	}
	c.State(simkit.HashStr(fmt.Sprint(w.content)))
}

// stop ends all processes.
func (w *shelf) stop() {
	for _, s := range w.stores {
		s.gone = true
	}
	for _, r := range w.recs { // their files are never closed; that is not seen
		r.r.Close()
	}
	w.recs = map[string]*record{}
}

func (w *shelf) plan(e simkit.Ev) *act {
	a := &act{e: e}
	switch e.Op {
	case "open":
		a.doWork = func() {
			a.made = exp.NewDataStorage(w.base, e.Mode)
			a.done = true
		}
		return a
	case "save":
		var there []*store
		for _, s := range w.stores {
			if !s.gone {
				there = append(there, s)
			}
		}
		if len(there) == 0 {
			return nil
		}
		a.st = there[e.Node%len(there)]
		if json.Unmarshal([]byte(e.Val), &a.data) != nil {
			return nil
		}
		given := a.data
		switch e.Val {
		case `"NaN"`:
			given, a.bad = map[string]any{"a": 1, "z": math.NaN()}, true
		case `"chan"`:
			given, a.bad = []any{1, make(chan int)}, true
		case `"inf"`:
			given, a.bad = []exp.TsonPatch{{Op: "replace", Path: "/a", Value: math.Inf(1), Timestamp: 3}}, true
		}
		ds := a.st.ds
		saves := map[string]func(any) error{
			"initial json": ds.SaveInitialJSON, "initial tson": ds.SaveInitialTSON, "final json": ds.SaveFinalJSON, "final tson": ds.SaveFinalTSON,
			"all json": ds.SaveAllJSONPatches, "all tson": ds.SaveAllTSONPatches,
			"patch json": func(v any) error { return ds.SaveJSONPatch(int(e.A), v) }, "patch tson": func(v any) error { return ds.SaveTSONPatch(int(e.A), v) },
			"snapshot json": func(v any) error { return ds.SaveJSONSnapshot(e.A, v) }, "snapshot tson": func(v any) error { return ds.SaveTSONSnapshot(e.A, v) },
		}
		f := saves[e.Mode]
		if f == nil {
			return nil
		}
		a.key = e.Mode
		if strings.HasPrefix(e.Mode, "patch") || strings.HasPrefix(e.Mode, "snapshot") {
			a.key += strconv.FormatInt(e.A, 10)
		}
		a.doWork = func() {
			a.err = f(given)
			a.done = true
			w.c.Check(a.bad || reflect.DeepEqual(given, a.data), "input", "saving changed the data")
		}
		return a
	case "record":
		if w.recs[e.Mode] != nil {
			return nil
		}
		a.doWork = func() {
			r, err := exp.NewSensorDataRecorder(w.base, e.Mode)
			a.err, a.done = err, true
			w.c.Check((r == nil) == (err != nil), "recorder", "the recorder is %v and the error %v", r, err)
			if err == nil {
				w.recs[e.Mode] = &record{r: r, rows: map[string][][]string{}}
			}
		}
		return a
	case "row", "close":
		rec := w.recs[e.Mode]
		if rec == nil {
			return nil
		}
		a.doWork = func() {
			if e.Op == "close" {
				rec.r.Close()
			} else {
				v := vehicleOf(e.Val)
				n := len(w.clock.Readings)
				a.err = rec.r.RecordSensorData(e.A, v)
				w.rows(rec, v, e.A, n)
			}
			a.done = true
		}
		return a
	}
	return nil
}

func vehicleOf(val string) *exp.VehicleData {
	v := &exp.VehicleData{}
	groups := []*map[string]*exp.SensorData{&v.SensorsHighFreq, &v.SensorsMedFreq, &v.SensorsLowFreq, &v.ActuatorsHighVar, &v.ActuatorsLowVar, &v.Attributes}
	for _, g := range groups {
		*g = map[string]*exp.SensorData{}
	}
	var vals map[string]any
	json.Unmarshal([]byte(val), &vals)
	for i, p := range simkit.SortedKeys(vals) {
		(*groups[(i+len(val))%len(groups)])[p] = &exp.SensorData{Path: p, Value: vals[p]}
	}
	return v
}

func (w *shelf) rows(rec *record, v *exp.VehicleData, at int64, n int) {
	for _, g := range []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes} {
		for _, p := range exp.KeySensorPaths {
			if s := g[p]; s != nil {
				val := fmt.Sprint(s.Value)
				if f, ok := s.Value.(float64); ok {
					val = fmt.Sprintf("%.4f", f)
				}
				lo, hi := int64(math.MaxInt64), int64(math.MinInt64)
				for _, r := range w.clock.Readings[n:] {
					ms := (r - rec.r.StartTime.UnixNano()) / 1e6
					lo, hi = min(lo, ms), max(hi, ms)
				}
				rec.rows[p] = append(rec.rows[p], []string{strconv.FormatInt(lo, 10), strconv.FormatInt(hi, 10), strconv.FormatInt(at, 10), val})
			}
		}
	}
}

// tree reads all files of the storages.
func (w *shelf) tree() map[string]string {
	got := map[string]string{}
	filepath.Walk(filepath.Join(w.scratch, w.base), func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && filepath.Base(filepath.Dir(p)) != "sensor_data" {
			b, _ := os.ReadFile(p)
			got[p] = string(b)
		}
		return nil
	})
	return got
}

func (w *shelf) judge(acts []*act, crashed bool) {
	c, hit := w.c, w.fs.Hit > 0
	for _, r := range w.recs {
		r.dirty = r.dirty || hit
	}
	for _, a := range acts {
		if a.e.Op != "open" || a.made == nil {
			continue
		}
		s := &store{ds: a.made, dir: w.fs.Abs(a.made.OutputDir), owned: map[string]string{}, event: c.Step}
		st, err := os.Stat(s.dir)
		s.made = err == nil && st.IsDir()
		c.Check(s.made || hit, "place", "the storage has no directory %s", a.made.OutputDir)
		parent := filepath.Join(w.scratch, w.base, a.e.Mode)
		c.Check(filepath.Dir(s.dir) == parent, "place", "the storage for %s is in %s", a.e.Mode, a.made.OutputDir)
		for _, o := range w.stores {
			if o.dir == s.dir && hit && o.event == c.Step {
				o.gone, s.gone = true, true // one of them has failed and the other one has made it; they can not be told apart
				continue
			}
			c.Check(o.dir != s.dir || !o.made || !s.made, "shared", "two storages use the directory %s", s.dir)
			if o.dir == s.dir && !o.made {
				o.gone = true // it could not be made, and now there is one of another process
			}
			if filepath.Dir(o.dir) == parent && o.made && s.made && len(acts) == 1 && !w.wentBack() {
				c.Check(o.dir < s.dir, "order", "the later storage %s is listed before %s", s.dir, o.dir)
			}
		}
		if s.made {
			if dir, err, ok := exp.VerifLatest(parent); ok && len(acts) == 1 && !w.wentBack() {
				c.Check(err == nil && filepath.Clean(w.fs.Abs(dir)) == s.dir, "latest", "the latest experiment is %s instead of %s (%v)", dir, s.dir, err)
				c.Probe("latest")
			}
		}
		w.stores = append(w.stores, s)
		c.Ops++
	}
	now := w.tree()
	fresh := map[string]bool{} // changed files that nobody has saved before
	owner := map[string]*store{}
	keyOf := map[string]string{}
	for _, s := range w.stores {
		for k, f := range s.owned {
			owner[f], keyOf[f] = s, k
		}
	}
	failed := map[string]bool{} // directories in which files may be left over
	saving := map[string]bool{} // files that may change
	for _, a := range acts {
		if a.e.Op == "save" {
			if !a.done || a.err != nil {
				failed[a.st.dir] = true
			}
			if f, ok := a.st.owned[a.key]; ok && !a.bad {
				saving[f] = true
			}
		}
	}
	for f, text := range now {
		if old, ok := w.content[f]; ok && old == text {
			continue
		}
		if owner[f] == nil {
			fresh[f] = true
			continue
		}
		c.Check(saving[f], "changed", "%s changed although nothing was saved there", w.name(f))
	}
	for f := range w.content {
		_, ok := now[f]
		c.Check(ok || saving[f], "changed", "%s is gone", w.name(f))
	}
	for _, a := range acts {
		switch a.e.Op {
		case "save":
			c.Ops++
			if !a.done {
				continue
			}
			if a.bad {
				c.Check(a.err != nil, "lost", "%s of a value that can not be written reports no error", a.key)
				continue
			}
			if a.err != nil {
				c.Check(hit || !a.st.made, "spurious-error", "%s failed without a fault: %v", a.key, a.err)
				continue
			}
			c.Probe("saved")
			f := a.st.owned[a.key]
			if f == "" {
				for _, g := range simkit.SortedKeys(fresh) {
					if filepath.Dir(g) == a.st.dir && sameJSON(now[g], a.data) {
						f = g
						break
					}
				}
				c.Check(f != "", "lost", "%s is reported as saved but is not in %s: %v", a.key, a.st.dir, simkit.SortedKeys(fresh))
				if f == "" {
					continue
				}
				delete(fresh, f)
				a.st.owned[a.key] = f
				known := map[string]string{"initial json": "initial_json.json", "all tson": "all_tson_patches.json"}[a.key] // read by others
				c.Check(known == "" || filepath.Base(f) == known, "name", "%s is saved as %s", a.key, w.name(f))
			}
			last := true
			for _, o := range acts {
				if o != a && o.st == a.st && o.key == a.key {
					last = false // either may be what is there
				}
			}
			c.Check(!last || sameJSON(now[f], a.data), "lost", "%s is reported as saved but %s holds %.80q", a.key, w.name(f), now[f])
		case "record", "row", "close":
			c.Ops++
			w.judgeRecord(a, crashed)
		}
	}
	for f := range fresh {
		c.Check(failed[filepath.Dir(f)], "stray", "%s appeared although nothing was saved there", w.name(f))
		os.Remove(f)
		delete(now, f)
	}
	w.content = now
}

func (w *shelf) name(f string) string { return strings.TrimPrefix(f, w.scratch+"/") }

// wentBack tells whether the clock has shown earlier times than before.
func (w *shelf) wentBack() bool {
	return !sort.SliceIsSorted(w.clock.Readings, func(i, j int) bool { return w.clock.Readings[i] < w.clock.Readings[j] })
}

func sameJSON(text string, want any) bool {
	var got any
	return json.Unmarshal([]byte(text), &got) == nil && reflect.DeepEqual(got, want)
}

func (w *shelf) judgeRecord(a *act, crashed bool) {
	c, hit := w.c, w.fs.Hit > 0
	warned := w.fs.Reported()
	rec := w.recs[a.e.Mode]
	if !hit && (rec == nil || !rec.dirty) {
		c.Check(a.err == nil && warned == "", "spurious-error", "%s failed without a fault: %v %s", a.e.Op, a.err, warned)
	}
	if rec == nil {
		return
	}
	if a.err != nil || warned != "" {
		rec.told = true
	}
	if a.e.Op != "close" || !a.done {
		return
	}
	delete(w.recs, a.e.Mode)
	if rec.told || crashed {
		return
	}
	dir := filepath.Join(w.scratch, w.base, a.e.Mode, "sensor_data")
	for _, p := range exp.KeySensorPaths {
		var got [][]string
		f, err := os.Open(filepath.Join(dir, filepath.Base(p)+".csv"))
		if err == nil {
			got, err = csv.NewReader(f).ReadAll()
			f.Close()
		}
		c.Check(err == nil && len(got) == len(rec.rows[p])+1, "rows", "%d rows of %s were recorded and %d are there (%v)", len(rec.rows[p]), p, len(got)-1, err)
		if err != nil || len(got) != len(rec.rows[p])+1 {
			continue
		}
		for i, r := range rec.rows[p] {
			g := got[i+1]
			at, err1 := strconv.ParseInt(g[0], 10, 64)
			lo, _ := strconv.ParseInt(r[0], 10, 64)
			hi, _ := strconv.ParseInt(r[1], 10, 64)
			c.Check(err1 == nil && lo <= at && at <= hi && g[1] == r[2] && g[2] == r[3], "rows", "row %d of %s is %q instead of %q", i, p, g, r)
		}
	}
	c.Probe("recorded")
}

func genStorage(r *rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{"clock": 1_700_000_000_000_000_000 + int64(r.Intn(86_400))*1_000_000_000, "rest": []int64{0, 1000, 1_000_000, 300_000_000}[r.Intn(4)]}}
	scenarios := []string{"urban_traffic", "mixed_scenario", "parking"}[:r.Between(1, 3)]
	pause := []int64{0, 1_000_000, 400_000_000, 5_000_000_000}[r.Intn(4)]
	faulty := []float64{0, 0, 0.1, 0.25}[r.Intn(4)]
	jumps := []float64{0, 0, 0.03}[r.Intn(3)]
	meanwhile := []float64{0, 0.1, 0.4}[r.Intn(3)]
	var value func(depth int) any
	value = func(depth int) any {
		switch k := r.Intn(8); {
		case k < 2 && depth > 0:
			m := map[string]any{}
			for i := r.Intn(5); i > 0; i-- {
				m[r.Pick("a", "b", "value", "timestamp", "Speed", "", "한", "a/b", "<x>")] = value(depth - 1)
			}
			return m
		case k == 2 && depth > 0:
			l := []any{}
			for i := []int{0, 1, 3, 60}[r.Intn(4)]; i > 0; i-- {
				l = append(l, value(depth-1))
			}
			return l
		case k == 3:
			return r.Pick("", "x", "&<>", "\n\t\"", "속도", "\u2028")
		case k == 4:
			return []any{true, false, nil}[r.Intn(3)]
		default:
			return []any{0.0, 1.5, -1e-7, 1e21, 42.0, 9007199254740993.0, r.F()}[r.Intn(7)]
		}
	}
	val := func() string {
		if r.P(0.03) {
			return r.Pick(`"NaN"`, `"chan"`, `"inf"`)
		}
		b, _ := json.Marshal(value(3))
		return string(b)
	}
	kinds := []string{"initial json", "initial tson", "final json", "final tson", "all json", "all tson", "patch json", "patch tson", "snapshot json", "snapshot tson", "patch json", "patch tson", "snapshot json", "snapshot tson"}
	for i, n := 0, r.Between(8, 70); i < n; i++ {
		e := simkit.Ev{T: pause, RS: r.U64() >> 20, Node: r.Intn(8)}
		if r.P(jumps) {
			e.T = []int64{-1_000_000_000, -3600_000_000_000, 3600_000_000_000, -5_000_000}[r.Intn(4)]
		}
		switch {
		case i == 0 || r.P(0.2):
			e.Op, e.Mode = "open", scenarios[r.Intn(len(scenarios))]
		case r.P(0.03):
			e.Op = "restart"
		case r.P(faulty):
			e.Op, e.T = "fault", 0
			e.Mode = r.Pick("write_error", "short_write", "disk_full", "open_error", "mkdir_error", "close_error", "crash", "stat_error", "list_error")
			e.A = int64(r.Intn(4))
		case r.P(0.25):
			e.Mode = scenarios[r.Intn(len(scenarios))]
			e.Op = r.Pick("record", "row", "row", "row", "row", "close")
			if e.Op == "row" {
				e.A = int64(r.Intn(50)) * []int64{1, 250, 1000}[r.Intn(3)]
				m := map[string]any{}
				for _, p := range exp.KeySensorPaths {
					if r.P(0.7) {
						m[p] = []any{1.0, -0.00004, 123456.78905, true, "x", "a,b", "q\"q", "l\nm", "", nil, " s", r.F()}[r.Intn(12)]
					}
				}
				b, _ := json.Marshal(m)
				e.Val = string(b)
				if r.P(0.02) { // a long recording
					for j := r.Between(50, 250); j > 0; j-- {
						tr.Ev = append(tr.Ev, e)
						e.T, e.A = 0, e.A+[]int64{1, 100, 1000}[r.Intn(3)]
					}
				}
			}
		default:
			e.Op, e.Mode, e.Val = "save", kinds[r.Intn(len(kinds))], val()
			e.A = []int64{0, 1, 2, int64(r.Intn(20)), 9999, 10000, 99999, -1, 1_800_000, 999_999_999, 1_000_000_000, 1e12}[r.Intn(12)]
		}
		if (e.Op == "open" || e.Op == "save") && r.P(meanwhile) {
			e.B = int64(r.Between(1, 4))
		}
		tr.Ev = append(tr.Ev, e)
	}
	return tr
}
