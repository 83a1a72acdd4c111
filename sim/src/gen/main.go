// Command gen simulates the dataset generator: its clock, randomness, map order and files.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
	"github.com/CAU-CPSS/logument/internal/verifsim/specgen"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

type Ctx = simkit.Ctx
type rng = simkit.Rng

// leafSpec is a leaf of the vehicle signal specification.
type leafSpec struct {
	Datatype string `json:"datatype"`
	Unit     string `json:"unit"`
	Allowed  []any  `json:"allowed"`
}

func readSpec(b []byte) (map[string]leafSpec, error) {
	var top map[string]json.RawMessage
	if err := json.Unmarshal(b, &top); err != nil {
		return nil, err
	}
	leafs := map[string]leafSpec{}
	var walk func(prefix string, m map[string]json.RawMessage) error
	walk = func(prefix string, m map[string]json.RawMessage) error {
		for k, raw := range m {
			var n struct {
				Children map[string]json.RawMessage `json:"children"`
				leafSpec
			}
			if err := json.Unmarshal(raw, &n); err != nil {
				return err
			}
			path := prefix + "/" + escape(k)
			if n.Children != nil {
				if err := walk(path, n.Children); err != nil {
					return err
				}
			} else {
				leafs[path] = n.leafSpec
			}
		}
		return nil
	}
	return leafs, walk("", top)
}

func escape(k string) string {
	return strings.ReplaceAll(strings.ReplaceAll(k, "~", "~0"), "/", "~1")
}

var vssLeafs map[string]leafSpec
var vssText []byte

// conforms checks a first value against the specification.
func conforms(n *ref.Node, s leafSpec) string {
	num := func(n *ref.Node, lo, hi float64, whole bool) string {
		if n.K != ref.Num || n.F < lo || n.F > hi || whole && n.F != math.Trunc(n.F) {
			return fmt.Sprintf("%s is no %s", n.Text(), s.Datatype)
		}
		return ""
	}
	if elem, ok := strings.CutSuffix(s.Datatype, "[]"); ok && s.Allowed == nil {
		if n.K != ref.Arr || len(n.A) < 1 || len(n.A) > 5 {
			return fmt.Sprintf("%s is no %s of 1 to 5 elements", n.Text(), s.Datatype)
		}
		for _, e := range n.A {
			if d := conforms(e, leafSpec{Datatype: elem}); d != "" {
				return d
			}
		}
		return ""
	}
	switch {
	case s.Datatype == "boolean":
		if n.K != ref.Bool {
			return fmt.Sprintf("%s is no boolean", n.Text())
		}
	case s.Datatype == "float" && s.Unit == "percent":
		return num(n, 0, 100, false)
	case s.Datatype == "uint8":
		return num(n, 0, 255, true)
	case s.Datatype == "int8":
		return num(n, -128, 127, true)
	case s.Allowed != nil:
		for _, a := range s.Allowed {
			if want, ok := ref.LeafOf(a, 0); ok && ref.Diff(n, want, false) == "" {
				return ""
			}
		}
		return fmt.Sprintf("%s is not among the allowed %v", n.Text(), s.Allowed)
	case s.Datatype == "int16" || s.Datatype == "int32":
		return num(n, math.MinInt32, math.MaxInt32, true)
	case s.Datatype == "uint16" || s.Datatype == "uint32":
		return num(n, 0, math.MaxUint32, true)
	case s.Datatype == "float" || s.Datatype == "double":
		return num(n, -math.MaxFloat64, math.MaxFloat64, false)
	case s.Datatype == "string":
		if n.K != ref.Str {
			return fmt.Sprintf("%s is no string", n.Text())
		}
	}
	return ""
}

// dataset is what one generation was asked for.
type dataset struct {
	specFile         string
	leafs            map[string]leafSpec
	odds             *rates
	cars, files      int
	rate, keep, size float64
	withKeep         bool
	readings         []int64
}

func (d *dataset) meta() map[string]any {
	m := map[string]any{"dataset": d.specFile, "cars": d.cars, "files": d.files, "change_rate": d.rate, "size": d.size}
	if d.withKeep {
		m["maintain_rate"] = d.keep
	}
	return m
}

// names of all files of the data set, relative to its directory
func (d *dataset) names() map[string]bool {
	m := map[string]bool{"metadata.json": true}
	for i := 1; i <= d.cars; i++ {
		for j := 1; j <= max(1, d.files); j++ {
			m[fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)] = true
			m[fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j)] = true
		}
	}
	return m
}

// verify reads a data set back and returns what is wrong with it.
func (d *dataset) verify(c *Ctx, dir string) string {
	want := d.names()
	found := map[string]bool{}
	bad := ""
	filepath.WalkDir(dir, func(path string, e os.DirEntry, err error) error {
		if err != nil {
			bad = err.Error()
		} else if !e.IsDir() {
			rel, _ := filepath.Rel(dir, path)
			found[rel] = true
		}
		return nil
	})
	if bad != "" {
		return bad
	}
	for _, name := range simkit.SortedKeys(want) {
		if !found[name] {
			return name + " is missing"
		}
	}
	for _, name := range simkit.SortedKeys(found) {
		if !want[name] {
			return name + " does not belong to the data set"
		}
	}
	b, err := os.ReadFile(dir + "/metadata.json")
	if err != nil {
		return err.Error()
	}
	var got map[string]any
	wb, _ := json.Marshal(d.meta())
	var wm map[string]any
	json.Unmarshal(wb, &wm)
	if err := json.Unmarshal(b, &got); err != nil || !reflect.DeepEqual(got, wm) {
		return fmt.Sprintf("metadata.json holds %s instead of %s", b, wb)
	}
	for i := 1; i <= d.cars; i++ {
		if bad := d.verifyCar(c, dir, i); bad != "" {
			return fmt.Sprintf("car %d: %s", i, bad)
		}
	}
	return ""
}

func (d *dataset) verifyCar(c *Ctx, dir string, i int) string {
	var prev *ref.Node
	var l *logument.Logument
	var maxTS int64
	read := map[int64]bool{}
	rising := true
	for k, r := range d.readings {
		read[r] = true
		if k > 0 && r <= d.readings[k-1] {
			rising = false
		}
	}
	for j := 1; j <= max(1, d.files); j++ {
		name := fmt.Sprintf("car_%d/tson/%d_%d.tson", i, i, j)
		pname := fmt.Sprintf("car_%d/patches/%d_%d.json", i, i, j)
		tb, err := os.ReadFile(dir + "/" + name)
		if err != nil {
			return err.Error()
		}
		pb, err := os.ReadFile(dir + "/" + pname)
		if err != nil {
			return err.Error()
		}
		var doc tson.Tson
		if msg, panicked := c.Try(func() { err = tson.Unmarshal(tb, &doc) }); panicked || err != nil {
			return fmt.Sprintf("%s cannot be read: %s%v", name, msg, err)
		}
		cur := ref.From(doc)
		c.State(cur.Hash())
		c.Checks++
		if j == 1 {
			if string(pb) != string(tb) {
				var p tson.Tson
				if err := tson.Unmarshal(pb, &p); err != nil || ref.Diff(ref.From(p), cur, true) != "" {
					return pname + " is not the first document"
				}
			}
			if bad := d.verifyFirst(cur, read); bad != "" {
				return name + ": " + bad
			}
			if msg, panicked := c.Try(func() { l = logument.NewLogument(tb, nil) }); panicked {
				return fmt.Sprintf("NewLogument panicked: %s", msg)
			}
			maxTS = maxStamp(cur)
			prev = cur
			continue
		}
		var p tsonpatch.Patch
		if msg, panicked := c.Try(func() { p, err = tsonpatch.Unmarshal(pb) }); panicked || err != nil {
			return fmt.Sprintf("%s cannot be read: %s%v", pname, msg, err)
		}
		// Each patch leads from one document to the next
		next, err := ref.ApplyAll(prev, p)
		if err != nil {
			return fmt.Sprintf("%s does not apply to the document before: %v", pname, err)
		}
		if diff := ref.Diff(cur, next, true); diff != "" {
			return fmt.Sprintf("%s is not the document before with %s: %s", name, pname, diff)
		}
		var snap tson.Tson
		if msg, panicked := c.Try(func() {
			l.Store(pb)
			l.Append()
			snap = l.Snapshot(uint64(j - 1))
		}); panicked {
			return fmt.Sprintf("the document panicked on %s: %s", pname, msg)
		}
		if diff := ref.Diff(ref.From(snap), cur, true); diff != "" {
			return fmt.Sprintf("version %d of the document is not %s: %s", j-1, name, diff)
		}
		if bad := d.verifyStep(prev, cur, read, rising, maxTS); bad != "" {
			return name + ": " + bad
		}
		maxTS = max(maxTS, maxStamp(cur))
		prev = cur
		c.Checks += 3
	}
	return ""
}

func maxStamp(n *ref.Node) int64 {
	m := int64(math.MinInt64)
	n.EachLeaf(func(_ string, l *ref.Node) { m = max(m, l.TS) })
	return m
}

// odds compares how often something happened with how often it should. For each of some other
// probabilities it keeps the logarithm of how much more likely they make what was seen: if the
// right ones hold, it ever gets as large as unlikely with a probability below 1e-13.
type odds struct {
	ll   [6]float64
	hits int
	n    int
	want float64
}

const unlikely = 34

func (o *odds) see(p float64, hit bool) {
	if p <= 0 || p >= 1 {
		return
	}
	o.n++
	o.want += p
	if hit {
		o.hits++
	}
	for i, q := range [6]float64{math.Sqrt(p), math.Pow(p, 0.25), p * p, math.Pow(p, 4), 0.98 + 0.02*p, 0.02 * p} {
		if hit {
			o.ll[i] += math.Log(q / p)
		} else {
			o.ll[i] += math.Log((1 - q) / (1 - p))
		}
	}
}

func (o *odds) off(what string) string {
	for _, l := range o.ll {
		if l > unlikely {
			return fmt.Sprintf("%d of %d signals %s, but about %.0f should", o.hits, o.n, what, o.want)
		}
	}
	return ""
}

// rates are the odds of one run.
type rates struct{ size, change, renew odds }

// verifyFirst checks a first document against the specification.
func (d *dataset) verifyFirst(n *ref.Node, read map[int64]bool) string {
	for path, s := range d.leafs {
		if got, ok := n.Get(path); ok {
			if bad := conforms(got, s); bad != "" {
				return path + ": " + bad
			}
		} else if d.size >= 1 && producible(s) {
			return path + " is missing although all were asked for"
		}
		if producible(s) {
			_, ok := n.Get(path)
			if ok && d.size <= 0 {
				return path + " is there although none was asked for"
			}
			d.odds.size.see(d.size, ok)
		}
	}
	if bad := d.odds.size.off("are there"); bad != "" {
		return bad
	}
	bad := ""
	n.EachLeaf(func(path string, l *ref.Node) {
		if !read[l.TS] {
			bad = fmt.Sprintf("%s has a timestamp the clock never showed", path)
		}
		for p := path; ; {
			if _, ok := d.leafs[p]; ok {
				return
			}
			i := strings.LastIndex(p, "/")
			if i <= 0 {
				break
			}
			p = p[:i]
		}
		bad = path + " is not in the specification"
	})
	return bad
}

func producible(s leafSpec) bool {
	switch s.Datatype {
	case "boolean", "int8", "uint8", "int16", "uint16", "int32", "uint32", "float", "double", "string", "float[]", "string[]", "uint8[]":
		return true
	}
	return false
}

// verifyStep checks how a document may differ from the one before.
func (d *dataset) verifyStep(prev, cur *ref.Node, read map[int64]bool, rising bool, maxTS int64) string {
	bad := ""
	n := 0
	cur.EachLeaf(func(path string, l *ref.Node) {
		n++
		if bad != "" {
			return
		}
		old, ok := prev.Get(path)
		if !ok {
			bad = path + " is new"
			return
		}
		if old.K != l.K {
			bad = fmt.Sprintf("%s changed its type from %s to %s", path, old.Text(), l.Text())
			return
		}
		same := ref.Diff(l, old, false) == ""
		if whole(d.leafs, path) && l.F != math.Trunc(l.F) {
			bad = fmt.Sprintf("%s is a whole number and became %s", path, l.Text())
			return
		}
		if spec, ok := d.leafs[path]; ok { // not an element of an array
			keep := d.keep
			if !d.withKeep {
				keep = 0
			}
			if rising {
				d.odds.renew.see(d.rate+keep, l.TS != old.TS)
				if d.rate+keep <= 0 && l.TS != old.TS {
					bad = fmt.Sprintf("%s has a new timestamp although nothing should change", path)
					return
				}
			}
			if spec.Allowed == nil && (l.K == ref.Bool || l.K == ref.Str || l.K == ref.Num && (spec.Datatype == "float" || spec.Datatype == "double")) {
				d.odds.change.see(d.rate, !same)
			}
		}
		if !same && d.rate == 0 {
			bad = fmt.Sprintf("%s changed from %s to %s although nothing should change", path, old.Text(), l.Text())
		}
		if l.TS != old.TS || !same {
			if !read[l.TS] {
				bad = fmt.Sprintf("%s has a timestamp the clock never showed (%d)", path, l.TS)
			}
			if rising && l.TS <= maxTS {
				bad = fmt.Sprintf("%s changed from %s to %s without a later timestamp (%d, before %d)", path, old.Text(), l.Text(), l.TS, old.TS)
			}
		}
		if rising && l.TS == old.TS && d.withKeep && d.rate+d.keep >= 1 {
			bad = fmt.Sprintf("%s keeps its timestamp although all should be renewed", path)
		}
		if l.K == ref.Bool && same && d.rate >= 1 {
			bad = path + " did not change although all should"
		}
	})
	m := 0
	prev.EachLeaf(func(string, *ref.Node) { m++ })
	if bad == "" && m != n {
		bad = fmt.Sprintf("%d leafs became %d", m, n)
	}
	if bad == "" {
		bad = d.odds.change.off("changed")
	}
	if bad == "" {
		bad = d.odds.renew.off("have a new timestamp")
	}
	return bad
}

// whole says whether the specification has whole numbers in a place.
func whole(leafs map[string]leafSpec, path string) bool {
	s, ok := leafs[path]
	if !ok {
		s = leafs[path[:max(0, strings.LastIndexByte(path, '/'))]] // an element
	}
	return strings.HasPrefix(s.Datatype, "int") || strings.HasPrefix(s.Datatype, "uint")
}

// sim is a machine on which data sets are generated.
type sim struct {
	c     *Ctx
	fs    *simfs.FS
	clock *simfs.Clock
	dir   string
	spec  map[string]leafSpec
	file  string
	odds  rates
}

func newSim(c *Ctx, tr *simkit.Trace) *sim {
	root := simfs.Scratch()
	s := &sim{c: c, fs: simfs.New(c, root), dir: root + "/dataset", spec: vssLeafs, file: "vss.json"}
	text := vssText
	if len(tr.Init) > 0 {
		text = []byte(tr.Init[0])
		s.spec, _ = readSpec(text)
	}
	if err := os.WriteFile(root+"/vss.json", text, 0o644); err != nil {
		panic(err)
	}
	s.clock = &simfs.Clock{Now: tr.Cfg["clock"], Rest: tr.Cfg["tick"]}
	return s
}

func (s *sim) generate(e simkit.Ev, faults []simfs.Fault) (d *dataset, told string, crashed bool) {
	c := s.c
	if e.Op == "command" {
		d = asked(e.Strs, s.file)
		d.odds, d.leafs = &s.odds, s.spec
	} else {
		var rates [3]float64
		for i, x := range e.Strs {
			if i < 3 {
				fmt.Sscan(x, &rates[i])
			}
		}
		d = &dataset{odds: &s.odds, specFile: s.file, leafs: s.spec, cars: int(e.A), files: int(e.B), rate: rates[0], keep: rates[1], size: rates[2], withKeep: e.Mode == "keep"}
	}
	from := len(s.clock.Readings)
	s.fs.Plan(faults)
	defer func() { os.VerifExit = nil }()
	msg, panicked, crashed := s.fs.Run(func() {
		m := d.meta()
		if e.Op == "command" {
			os.VerifExit = func(n int) { c.Fail("command-line", "%q was refused (exit code %d)", e.Strs, n) }
			m = parseArgs(e.Strs)
			os.VerifExit = nil
			if bad := d.given(m); bad != "" {
				c.Fail("command-line", "of %q, %s", e.Strs, bad)
			}
			c.Checks++
		}
		vssgen.PrepareOutputDir("./dataset")
		vssgen.SaveMetadata(m, "./dataset")
		vssgen.Generate(m, "./dataset")
	})
	d.readings = append([]int64(nil), s.clock.Readings[from:]...)
	told = s.fs.Reported()
	if panicked {
		told = "panic: " + msg
	}
	told = strings.ReplaceAll(told, s.fs.Root, "ROOT")
	c.SimMs = s.clock.Now/1_000_000 - c.SimMs
	return
}

func exec(c *Ctx, tr *simkit.Trace) {
	s := newSim(c, tr)
	defer simfs.Cleanup()
	defer s.clock.Install(c)()
	start := s.clock.Now
	var faults []simfs.Fault
	for i, e := range tr.Ev {
		c.Step = i
		switch e.Op {
		case "clock":
			s.clock.Steps = append(s.clock.Steps, e.A)
		case "fault":
			faults = append(faults, simfs.Fault{Kind: e.Mode, N: e.A})
		case "command":
			if asked(e.Strs, s.file) == nil {
				s.refused(e)
				continue
			}
			fallthrough
		case "generate":
			d, told, crashed := s.generate(e, faults)
			c.Log("generated %v told %q crashed %v ops %d", d.meta(), told, crashed, s.fs.Ops)
			switch {
			case crashed:
				s.fs.PowerLoss(simkit.Mix(tr.Seed, uint64(i)))
				c.Probe("restarted_after_crash")
			case told != "" && s.fs.Hit == 0:
				c.Fail("spurious-error", "generation failed without a fault: %s (denied %v)", told, s.fs.Denied)
			case told != "":
				c.Probe("fault_reported")
				c.Checks++
			default:
				if s.fs.Hit > 0 {
					c.Probe("fault_survived")
				}
				bad := d.verify(c, s.dir)
				class := "broken-chain"
				if s.fs.Hit > 0 {
					class = "silent-failure"
				}
				c.Check(bad == "", class, "the data set is not what was asked for, and nothing was reported: %s", bad)
			}
			s.fs.Synced()
			faults = nil
		}
	}
	c.SimMs = max(0, (s.clock.Now-start)/1_000_000)
}

func rate(r *rng, edge float64) string {
	if r.P(edge) {
		return r.Pick("0", "1")
	}
	return fmt.Sprintf("%.2f", r.F())
}

func genTrace(faults bool) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		tr := &simkit.Trace{Cfg: map[string]int64{}}
		big := r.P(0.12)
		if !big {
			tr.Init = []string{specgen.Small(r)}
		}
		// Clocks from just booted (1970) to the present, running, standing still or jumping
		tr.Cfg["clock"] = []int64{0, 1_000_000_000, 1_700_000_000_000_000_000, 1_763_000_000_123_456_789}[r.Intn(4)]
		tr.Cfg["tick"] = []int64{1, 1_000_003, 37_000_000, 0}[r.Weighted([]int{3, 3, 3, 1})]
		jumpy := r.P(0.5)
		gens := 1
		if faults || r.P(0.3) {
			gens = r.Between(2, 4)
		}
		for g := 0; g < gens; g++ {
			cars, files := r.Between(1, 3), r.Between(1, 6)
			if big {
				cars, files = 1, r.Between(2, 3)
			} else if r.P(0.06) { // numbers of two or three digits
				cars, files = 1, r.Between(10, 12)
				if r.P(0.15) {
					files = r.Between(64, 140)
				}
				if r.P(0.4) {
					cars, files = files, 2
				}
			}
			if jumpy {
				for i, n := 0, r.Between(1, 4*cars*files); i < n; i++ {
					d := int64(r.Intn(50_000_000))
					switch r.Intn(8) {
					case 0:
						d = 0
					case 1:
						d = -int64(r.Intn(5_000_000_000))
					case 2:
						d = int64(r.Intn(1000)) * 86_400_000_000_000
					case 3:
						d = -int64(r.Intn(400)) * 86_400_000_000_000
					}
					tr.Ev = append(tr.Ev, simkit.Ev{Op: "clock", A: d})
				}
			}
			if faults && g < gens-1 {
				ops := int64(cars*files*6 + 10)
				for i, n := 0, r.Weighted([]int{0, 6, 2, 1}); i < n; i++ {
					ks := simfs.Kinds()
					k := ks[r.Intn(len(ks))]
					at := ops
					switch k {
					case "mkdir_error":
						at = int64(3*cars + 1)
					case "read_error", "read_open_error", "short_read", "remove_error", "list_error":
						at = 2
					case "stat_error":
						at = int64(4*cars + 1)
					case "crash":
					default:
						at = int64(cars*files*2 + 1)
					}
					tr.Ev = append(tr.Ev, simkit.Ev{Op: "fault", Mode: k, A: int64(r.Intn(int(at)))})
				}
			}
			e := simkit.Ev{Op: "generate", A: int64(cars), B: int64(files), Strs: []string{rate(r, 0.3), rate(r, 0.3), r.Pick("1", "1", "0.5", "0.1", rate(r, 0))}}
			if r.P(0.6) {
				e.Mode = "keep"
			}
			if r.P(0.25) { // as one who calls the program asks for it
				e = simkit.Ev{Op: "command", Strs: command(r, e)}
			}
			tr.Ev = append(tr.Ev, e)
		}
		if r.P(0.1) {
			at := r.Intn(len(tr.Ev) + 1)
			tr.Ev = append(tr.Ev[:at:at], append([]simkit.Ev{{Op: "command", Strs: badCommand(r)}}, tr.Ev[at:]...)...)
		}
		return tr
	}
}

var real = []string{"internal/vssgen", "internal/tsonpatch", "internal/tson", "internal/logument", "Go standard library and the progress bar (map order, math/rand, clock and files under the simulator)"}

func main() {
	b, err := os.ReadFile(simfs.Repo() + "/internal/vssgen/vss.json")
	if err == nil {
		vssText = b
		vssLeafs, err = readSpec(b)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	stub := []string{"clock, randomness and map order: seeded", "disk: real files in a scratch directory behind a fault injector", "terminal: captured"}
	os.Exit(simkit.Main(os.Args[1:], []*simkit.Prop{
		{ID: "C16", Quick: 4000, Thorough: 400000, Rule: "schedules that differ from every other, of runs that produced a patched document", Real: real, Stub: stub,
			Assume: []string{"the clock never shows times before 1970", "specifications name no signal timestamp, value or children"},
			Gen:    genTrace(false), Exec: exec,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.States) >= 2 }},
		{ID: "C17", Quick: 4000, Thorough: 400000, Rule: "schedules that differ from every other, of runs with at least one fault that took effect", Real: real, Stub: stub,
			Assume: []string{"a user counts as informed if the program prints something that names an error, failure or warning, or if it panics", "the clock never shows times before 1970"},
			Gen:    genTrace(true), Exec: exec,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.Faults) > 0 }},
		{ID: "C26", Quick: 24000, Thorough: 1500000, Rule: "schedules that differ from every other, of runs that derived at least two data sets", Real: real, Stub: stub,
			Assume: []string{"the clock never shows times before 1970", "specifications name no signal timestamp, value or children, and none with a dot", "one goroutine uses a data set at a time"},
			Gen:    genBranch, Exec: execBranch,
			NonTrivial: func(c *Ctx, tr *simkit.Trace) bool { return len(c.States) >= 3 }},
	}))
}
