package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simfs"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
	"github.com/CAU-CPSS/logument/internal/verifsim/specgen"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

// C26: data sets in memory, from which others are derived in any order.

type member struct {
	real  *vssgen.VssJson
	means *ref.Node
	maxTS int64
}

// held reads a data set through the data it gives away.
func held(v *vssgen.VssJson) (*ref.Node, error) {
	b, err := json.Marshal(v.GetData())
	if err != nil {
		return nil, err
	}
	return readForm(b, true)
}

// readForm reads the compatible form, or plain JSON values.
func readForm(b []byte, exact bool) (*ref.Node, error) {
	d := json.NewDecoder(strings.NewReader(string(b)))
	if exact {
		d.UseNumber()
	}
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return form(v)
}

func form(v any) (*ref.Node, error) {
	switch v := v.(type) {
	case nil:
		return ref.NullNode, nil
	case map[string]any:
		if ts, ok := v["timestamp"]; ok {
			x, ok := v["value"]
			if n, isNum := x.(json.Number); isNum {
				x, _ = n.Float64()
			} else if reflect.ValueOf(x).CanInt() {
				x = float64(reflect.ValueOf(x).Int())
			}
			var t int64
			switch ts := ts.(type) {
			case json.Number:
				t, _ = ts.Int64()
			case float64:
				t = int64(ts)
			case int64:
				t = ts
			default:
				ok = false
			}
			n, good := ref.LeafOf(x, t)
			if !ok || !good || len(v) != 2 {
				return nil, fmt.Errorf("not a leaf: %v", v)
			}
			return n, nil
		}
		o := map[string]*ref.Node{}
		for k, c := range v {
			n, err := form(c)
			if err != nil {
				return nil, err
			}
			o[k] = n
		}
		return &ref.Node{K: ref.Obj, O: o}, nil
	case []any:
		a := make([]*ref.Node, len(v))
		for i, c := range v {
			n, err := form(c)
			if err != nil {
				return nil, err
			}
			a[i] = n
		}
		return &ref.Node{K: ref.Arr, A: a}, nil
	}
	return nil, fmt.Errorf("not part of a document: %v", v)
}

// views compares everything a data set can be looked at through.
func (s *sim) views(m *member) {
	c := s.c
	// leaves: each signal once, with its value
	var leaves []map[string]any
	c.Must("LeafNodes", func() { leaves = m.real.LeafNodes() })
	seen := map[string]bool{}
	for _, l := range leaves {
		for path, v := range l {
			c.Check(!seen[path], "views", "LeafNodes gives %q twice", path)
			seen[path] = true
			got, err := form(v)
			want, ok := m.means, true
			for _, part := range strings.Split(path, ".") {
				if ok {
					want, ok = want.O[part], want.O[part] != nil
				}
			}
			c.Check(ok && err == nil, "views", "LeafNodes gives %q: %v, %v", path, v, err)
			diff := ref.Diff(got, want, true)
			c.Check(diff == "", "views", "LeafNodes gives %q: %s", path, diff)
		}
	}
	n := 0
	var count func(x *ref.Node)
	count = func(x *ref.Node) {
		if x.K != ref.Obj {
			n++
		}
		for _, k := range x.Keys() {
			count(x.O[k])
		}
	}
	count(m.means)
	c.Check(n == len(seen), "views", "LeafNodes gives %d of %d signals", len(seen), n)
	for name, f := range map[string]func() (map[string]any, error){"BuildFromLeafNodes": m.real.BuildFromLeafNodes, "ToMapStringInterface": m.real.ToMapStringInterface} {
		var v map[string]any
		var err error
		c.Must(name, func() { v, err = f() })
		c.Check(err == nil, "views", "%s: %v", name, err)
		got, err := form(v)
		c.Check(err == nil, "views", "%s gives %v: %v", name, v, err)
		want := m.means
		if name == "ToMapStringInterface" { // a map of JSON values
			want = rounded(want)
			got = rounded(got)
		}
		diff := ref.Diff(got, want, true)
		c.Check(diff == "", "views", "%s: %s", name, diff)
	}
	c.Probe("views")
}

// rounded has the timestamps that a float64 can hold.
func rounded(n *ref.Node) *ref.Node {
	m := *n
	m.TS = int64(float64(n.TS))
	if n.O != nil {
		m.O = map[string]*ref.Node{}
		for k, c := range n.O {
			m.O[k] = rounded(c)
		}
	}
	if n.A != nil {
		m.A = make([]*ref.Node, len(n.A))
		for i, c := range n.A {
			m.A[i] = rounded(c)
		}
	}
	return &m
}

func execBranch(c *Ctx, tr *simkit.Trace) {
	s := newSim(c, tr)
	defer simfs.Cleanup()
	defer s.clock.Install(c)()
	start := s.clock.Now
	spec := vssgen.NewVssJson(filepath.Join(s.fs.Root, "vss.json"))
	before, _ := json.Marshal(spec.GetData())
	var all []*member
	d := &dataset{odds: &s.odds, leafs: s.spec, withKeep: true}
	for i, e := range tr.Ev {
		c.Step = i
		var m *member
		if len(all) > 0 {
			m = all[int(e.Node)%len(all)]
		}
		d.rate, d.keep, d.size = float64(e.A)/100, float64(e.B)/100, float64(e.T)/100
		from := len(s.clock.Readings)
		stamps := func() map[int64]bool {
			read := map[int64]bool{}
			for _, r := range s.clock.Readings[from:] {
				read[r] = true
			}
			return read
		}
		switch {
		case e.Op == "clock":
			s.clock.Steps = append(s.clock.Steps, e.A)
		case e.Op == "generate" && len(all) < 8:
			n := &member{}
			c.Must("Generate", func() { n.real = spec.Generate(d.size, len(all)+1) })
			var err error
			n.means, err = held(n.real)
			c.Check(err == nil, "generated", "a data set cannot be read: %v", err)
			bad := d.verifyFirst(n.means, stamps())
			c.Check(bad == "", "generated", "%s", bad)
			n.maxTS = maxStamp(n.means)
			all = append(all, n)
		case e.Op == "next" && m != nil && len(all) < 8:
			n := &member{}
			var patch *vssgen.VssJson
			c.Must("GenerateNext", func() { n.real, patch = m.real.GenerateNext(d.rate, d.keep, 1, len(all)+1) })
			var err error
			n.means, err = held(n.real)
			c.Check(err == nil, "derived", "a data set cannot be read: %v", err)
			b, err := json.Marshal(patch.GetData())
			var p tsonpatch.Patch
			if err == nil {
				p, err = tsonpatch.Unmarshal(b)
			}
			c.Check(err == nil, "derived", "a patch cannot be read: %v", err)
			next, err := ref.ApplyAll(m.means, p)
			c.Check(err == nil, "derived", "the patch does not apply to what it was derived from: %v", err)
			diff := ref.Diff(n.means, next, true)
			c.Check(diff == "", "derived", "the data set before with the patch is not the derived one: %s", diff)
			read := stamps()
			rising := true
			for r := range read {
				rising = rising && r > m.maxTS
			}
			bad := d.verifyStep(m.means, n.means, read, rising, m.maxTS)
			c.Check(bad == "", "derived", "%s", bad)
			n.maxTS = max(m.maxTS, maxStamp(n.means))
			if m != all[len(all)-1] {
				c.Probe("branched")
			}
			all = append(all, n)
		case e.Op == "view" && m != nil:
			s.views(m)
		case e.Op == "save" && m != nil: // and read it back
			name := filepath.Join(s.fs.Root, "one.tson")
			c.Must("Save", func() { m.real.Save(name) })
			b, err := os.ReadFile(name)
			var t tson.Tson
			if err == nil {
				err = tson.Unmarshal(b, &t)
			}
			c.Check(err == nil, "saved", "a saved data set cannot be read: %v", err)
			diff := ref.Diff(ref.From(t), m.means, true)
			c.Check(diff == "", "saved", "%s", diff)
		case e.Op == "drop" && len(all) > 1: // nobody needs it any more
			all = append(all[:int(e.Node)%len(all)], all[int(e.Node)%len(all)+1:]...)
		}
		// nothing else has changed
		for j, x := range all {
			now, err := held(x.real)
			c.Check(err == nil, "changed", "data set %d cannot be read: %v", j, err)
			diff := ref.Diff(now, x.means, true)
			c.Check(diff == "", "changed", "data set %d: %s", j, diff)
			c.State(x.means.Hash())
		}
		after, _ := json.Marshal(spec.GetData())
		c.Check(string(before) == string(after), "changed", "the specification was %.200s and is %.200s", before, after)
		c.Log("%s %d", e.Op, len(all))
	}
	c.SimMs = max(0, (s.clock.Now-start)/1_000_000)
}

func genBranch(r *rng, run int) *simkit.Trace {
	tr := &simkit.Trace{Cfg: map[string]int64{}}
	big := r.P(0.02)
	if !big {
		tr.Init = []string{specgen.Small(r)}
	}
	tr.Cfg["clock"] = []int64{0, 1_000_000_000, 1_700_000_000_000_000_000, 1_763_000_000_123_456_789}[r.Intn(4)]
	tr.Cfg["tick"] = []int64{1, 1_000_003, 37_000_000, 0}[r.Weighted([]int{3, 3, 3, 1})]
	num := func(xs ...int64) int64 {
		if r.P(0.5) {
			return xs[r.Intn(len(xs))]
		}
		return int64(r.Intn(101))
	}
	n := r.Between(4, 25)
	if big {
		n = 5
	} else if r.P(0.03) {
		n = r.Between(60, 150)
	}
	for i := 0; i < n; i++ {
		e := simkit.Ev{Node: r.Intn(8), A: num(0, 100), B: num(0, 100), T: num(100, 100, 50)}
		switch k := r.Intn(20); {
		case k < 3 || i == 0:
			e.Op = "generate"
		case k < 11:
			e.Op = "next"
		case k < 14:
			e.Op = "view"
		case k < 16:
			e.Op = "save"
		case k < 17:
			e.Op = "drop"
		default:
			e = simkit.Ev{Op: "clock", A: []int64{0, 1, -int64(r.Intn(5_000_000_000)), int64(r.Intn(1000)) * 86_400_000_000_000, int64(r.Intn(50_000_000))}[r.Intn(5)]}
		}
		tr.Ev = append(tr.Ev, e)
	}
	return tr
}
