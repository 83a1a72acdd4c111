package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

type (
	Ctx  = simkit.Ctx
	Ev   = simkit.Ev
	ops  = []tsonpatch.Operation
	node = ref.Node
)

// doc pairs a real Logument document with its reference model.
type doc struct {
	name    string
	real    *logument.Logument
	base    uint64
	latest  uint64
	init    *node
	states  []*node // states[i] is the state of version base+i
	patches map[uint64]ops
	pool    ops
	cur     *node
	origin  string // "root", "slice", "tslice"
	lo, hi  int64  // window of a temporal slice
	src     *node  // unused for roots
	noTS    bool   // compacted: timestamps may be older than the model's
	all     ops    // every operation since the base, in arrival order
}

// kept is a result handed to a client earlier; it must never change.
type kept struct {
	what string
	t    tson.Tson
	want *node
	ps   map[uint64]tsonpatch.Patch
	psW  map[uint64]ops
}

type world struct {
	c       *Ctx
	tr      *simkit.Trace
	docs    []*doc
	strict  bool
	keeps   []kept
	msgs    map[int]tsonpatch.Patch // what in-process senders hold on to
	bufs    map[int][]byte
	batches map[int][]tsonpatch.Patch
	times   map[int]int // deliveries per message
	last    map[int]int // last message delivered to a document
}

func parseInit(s string) *node {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic(err)
	}
	return ref.Parse(v)
}

func newWorld(c *Ctx, tr *simkit.Trace) *world {
	w := &world{c: c, tr: tr, msgs: map[int]tsonpatch.Patch{}, bufs: map[int][]byte{}, batches: map[int][]tsonpatch.Patch{}, times: map[int]int{}, last: map[int]int{}}
	return w
}

// newDoc creates a document from the initial state, in one of the ways a program can.
func (w *world) newDoc(name string, init *node, how int) *doc {
	d := &doc{name: name, init: init, states: []*node{init}, patches: map[uint64]ops{}, cur: init, origin: "root"}
	w.c.Must("NewLogument", func() {
		switch how % 3 {
		case 0:
			d.real = logument.NewLogument(init.Text(), nil)
		case 1:
			d.real = logument.NewLogument([]byte(init.Text()), nil)
		default:
			d.real = logument.NewLogument(init.Tson(), nil)
		}
	})
	w.docs = append(w.docs, d)
	return d
}

func cloneOps(p ops) ops { return append(ops(nil), p...) }

func sameOp(a, b *tsonpatch.Operation) bool {
	if a.Op == b.Op && a.Path == b.Path && a.Timestamp == b.Timestamp {
		switch x := a.Value.(type) {
		case float64:
			if y, ok := b.Value.(float64); ok && x == y {
				return true
			}
		case string:
			if y, ok := b.Value.(string); ok {
				return x == y
			}
		case bool:
			if y, ok := b.Value.(bool); ok {
				return x == y
			}
		}
	}
	return reflect.DeepEqual(*a, *b)
}

func sameOps(got, want ops) string {
	for i := range min(len(got), len(want)) {
		if !sameOp(&got[i], &want[i]) {
			return fmt.Sprintf("operation %d is %v, want %v", i, got[i], want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d operations, want %d", len(got), len(want))
	}
	return ""
}

// verify compares everything observable of a document with its model.
func (w *world) verify(d *doc) {
	c := w.c
	l := d.real
	c.Checks++
	if n := uint64(len(l.Version)); n != d.latest-d.base+1 {
		c.Fail("versions", "%s has versions %v, want %d to %d", d.name, l.Version, d.base, d.latest)
	}
	for i, v := range l.Version {
		if v != d.base+uint64(i) {
			c.Fail("versions", "%s has versions %v, want %d to %d", d.name, l.Version, d.base, d.latest)
		}
	}
	for v := d.base; v <= d.latest; v++ {
		if diff := sameOps(l.Patches[v], d.patches[v]); diff != "" {
			c.Fail("patches", "%s version %d: %s", d.name, v, diff)
		}
	}
	if len(l.Patches) > len(d.patches) {
		for v := range l.Patches {
			if _, ok := d.patches[v]; !ok && (v < d.base || v > d.latest || len(l.Patches[v]) > 0) {
				c.Fail("patches", "%s has patches of version %d, which it should not have", d.name, v)
			}
		}
	}
	if diff := sameOps(l.PatchPool, d.pool); diff != "" {
		c.Fail("pending", "%s: pending patches: %s", d.name, diff)
	}
	if diff := ref.Diff(ref.From(l.CurrentState), d.cur, true); diff != "" {
		c.Fail("current", "%s: current state %s", d.name, diff)
	}
	for v, s := range l.Snapshots {
		if v < d.base || v > d.latest {
			c.Fail("snapshot", "%s keeps a snapshot of version %d, which it does not have", d.name, v)
		}
		if diff := ref.Diff(ref.From(s), d.states[v-d.base], !d.noTS); diff != "" {
			c.Fail("snapshot", "%s: kept snapshot of version %d %s", d.name, v, diff)
		}
	}
	c.State(simkit.Mix(d.cur.Hash(), d.latest, uint64(len(d.pool))))
}

func (w *world) keepState(what string, t tson.Tson, want *node) {
	w.keeps = append(w.keeps, kept{what: what, t: t, want: want})
}

func (w *world) keepPatches(what string, ps map[uint64]tsonpatch.Patch) {
	cp := map[uint64]ops{}
	for v, p := range ps {
		cp[v] = cloneOps(p)
	}
	w.keeps = append(w.keeps, kept{what: what, ps: ps, psW: cp})
}

// verifyKept checks that results handed out earlier are as they were.
func (w *world) verifyKept(all bool) {
	n := len(w.keeps)
	for i := range w.keeps {
		if !all && n > 6 && (i+w.c.Step)%(n/4) != 0 {
			continue
		}
		k := &w.keeps[i]
		w.c.Checks++
		if k.want != nil {
			if diff := ref.Diff(ref.From(k.t), k.want, true); diff != "" {
				w.c.Fail("result-changed", "%s changed after it was returned: %s", k.what, diff)
			}
			continue
		}
		if len(k.ps) != len(k.psW) {
			w.c.Fail("result-changed", "%s changed after it was returned: versions", k.what)
		}
		for v, p := range k.psW {
			if diff := sameOps(k.ps[v], p); diff != "" {
				w.c.Fail("result-changed", "%s changed after it was returned: version %d: %s", k.what, v, diff)
			}
		}
	}
}

// --- model transitions ---

func (d *doc) store(p ops) {
	for _, op := range p {
		if s, err := ref.Apply(d.cur, op); err == nil {
			d.cur = s
		}
	}
	d.pool = append(d.pool[:len(d.pool):len(d.pool)], p...)
}

func (d *doc) append() {
	if len(d.pool) == 0 {
		return
	}
	d.latest++
	d.patches[d.latest] = d.pool
	s, err := ref.ApplyAll(d.states[len(d.states)-1], d.pool)
	if err != nil {
		panic("model: stored operation cannot be applied: " + err.Error())
	}
	d.states = append(d.states, s)
	d.all = append(d.all, d.pool...)
	d.pool = nil
}

// at is the state at a timestamp: the base with every operation up to it in timestamp order.
func (d *doc) at(ts int64) *node {
	var in ops
	for _, op := range d.all {
		if op.Timestamp <= ts {
			in = append(in, op)
		}
	}
	sort.SliceStable(in, func(i, j int) bool { return in[i].Timestamp < in[j].Timestamp })
	s, err := ref.ApplyAll(d.init, in)
	if err != nil {
		return nil
	}
	return s
}

func monotone(p ops) bool {
	for i := 1; i < len(p); i++ {
		if p[i].Timestamp < p[i-1].Timestamp {
			return false
		}
	}
	return true
}

func (w *world) pick(e Ev) *doc {
	if len(w.docs) == 0 {
		return nil
	}
	return w.docs[e.Node%len(w.docs)]
}

func (d *doc) ver(a int64) uint64 {
	n := int64(d.latest - d.base + 1)
	return d.base + uint64(((a%n)+n)%n)
}

// exec runs the events that all core properties share; it reports whether it knew the event.
func (w *world) exec(e Ev) bool {
	c := w.c
	d := w.pick(e)
	if d == nil {
		return true
	}
	switch e.Op {
	case "lost":
		c.Fault("message_loss")
	case "clockjump":
		c.Fault("clock_jump")
	case "partition":
		c.Fault("partition")
	case "msg":
		w.deliver(d, e)
	case "create":
		w.create(d, e)
	case "append":
		had := len(d.pool) > 0
		var err error
		c.Must("Append", func() { err = d.real.Append() })
		c.Check(err == nil, "append-error", "Append failed on %s: %v", d.name, err)
		d.append()
		if !had {
			c.Probe("append_nothing_pending")
		}
		w.verify(d)
	case "burst":
		w.burst(d, e)
	case "reuse":
		// the sender reuses its buffer
		if p := w.msgs[e.Msg]; p != nil {
			for i := range p {
				p[i] = tsonpatch.Operation{Op: "reused", Path: "/reused", Timestamp: -99}
			}
			for _, buf := range w.batches[e.Msg] {
				for i := range buf {
					buf[i] = tsonpatch.Operation{Op: "reused", Path: "/reused", Timestamp: -99}
				}
			}
			delete(w.msgs, e.Msg)
			delete(w.batches, e.Msg)
			c.Fault("buffer_reuse")
		}
		if b := w.bufs[e.Msg]; b != nil {
			for i := range b {
				b[i] = '#'
			}
			delete(w.bufs, e.Msg)
			c.Fault("buffer_reuse")
		}
		for _, d := range w.docs {
			w.verify(d)
		}
	case "snap":
		w.snapshot(d, d.ver(e.A))
	case "tsnap":
		w.temporalSnapshot(d, e.T)
	case "track":
		vi, vj := d.ver(e.A), d.ver(e.B)
		if vi > vj {
			vi, vj = vj, vi
		}
		w.track(d, vi, vj)
	case "ttrack":
		w.temporalTrack(d, min(e.A, e.B), max(e.A, e.B))
	case "slice":
		vi, vj := d.ver(e.A), d.ver(e.B)
		if vi > vj {
			vi, vj = vj, vi
		}
		w.slice(d, vi, vj)
	case "tslice":
		lo, hi := min(e.A, e.B), max(e.A, e.B)
		if lo == math.MinInt64 {
			lo++
		}
		w.temporalSlice(d, lo, hi)
	case "compact":
		w.compact(d, e.Path)
	case "history":
		w.history(d, e.Path)
	case "set":
		w.set(d, e, false)
	case "testset":
		w.set(d, e, true)
	case "misuse":
		w.misuse(d, e)
	default:
		return false
	}
	return true
}

// deliver hands a message to a document.
func (w *world) deliver(d *doc, e Ev) {
	c := w.c
	p := w.msgs[e.Msg]
	shared := p != nil
	if !shared {
		p = goOps(e.Strs)
	}
	// Operations that could never be applied are not part of these histories
	s := d.cur
	for _, op := range p {
		var err error
		if s, err = ref.Apply(s, op); err != nil {
			c.Probe("skipped_inapplicable_message")
			return
		}
	}
	if len(p) == 0 {
		return
	}
	w.times[e.Msg]++
	if e.B > 0 {
		c.Fault("message_duplicated")
	}
	if e.Msg < w.last[e.Node] {
		c.Fault("message_reordered")
	} else {
		w.last[e.Node] = e.Msg
	}
	want := w.handOver(e, p, shared, "Store", d.real.Store)
	d.store(want)
	for _, o := range w.docs {
		w.verify(o)
	}
}

// burst is a long stretch of a document's life: A versions of B operations each, from T on.
// It is judged as a whole.
func (w *world) burst(d *doc, e Ev) {
	leaves, _, _ := places(d.cur)
	kinds := make([]ref.Kind, 0, len(leaves))
	paths := make([]string, 0, len(leaves))
	for _, at := range leaves {
		p := ref.Join(at)
		if n, _ := d.cur.Get(p); n != nil && n.Leaf() {
			kinds, paths = append(kinds, n.K), append(paths, p)
		}
	}
	if len(paths) == 0 {
		return
	}
	r := simkit.NewRng(uint64(e.Msg) + 5)
	pace := int64(1 + e.Msg%40)
	few := max(1, min(len(paths), 1+r.Intn(12)))
	for v := int64(0); v < e.A; v++ {
		p := make(ops, 0, e.B)
		for j := int64(0); j < e.B; j++ {
			at := r.Intn(few)
			if r.P(0.1) {
				at = r.Intn(len(paths))
			}
			ts := e.T + v*pace + j
			if r.P(0.02) {
				ts -= 10 * pace
			}
			op := tsonpatch.Operation{Op: tsonpatch.OpReplace, Path: paths[at], Timestamp: ts, Value: float64(r.Intn(9))}
			switch kinds[at] {
			case ref.Str:
				op.Value = r.Pick("D", "R", "N")
			case ref.Bool:
				op.Value = r.P(0.5)
			}
			p = append(p, op)
		}
		d.store(p)
		for rest := p; len(rest) > 0; { // in one message or several
			n := len(rest)
			if r.P(0.5) {
				n = 1 + r.Intn(n)
			}
			w.c.Must("Store", func() { d.real.Store(tsonpatch.Patch(cloneOps(rest[:n]))) })
			rest = rest[n:]
		}
		if v == e.A-1 && r.P(0.5) {
			break // the last ones stay pending
		}
		var err error
		w.c.Must("Append", func() { err = d.real.Append() })
		w.c.Check(err == nil, "append-error", "Append failed on %s: %v", d.name, err)
		d.append()
	}
	w.c.Probe("long_stretch")
	if d.latest-d.base >= 256 {
		w.c.Probe("over_256_versions")
	}
	for _, o := range w.docs {
		w.verify(o)
	}
}

// handOver gives patches to the code under test in one of the forms it takes.
func (w *world) handOver(e Ev, p ops, shared bool, what string, store func(any)) (want ops) {
	c := w.c
	want = cloneOps(p)
	c.Must(what, func() {
		switch e.Mode {
		case "string":
			store(wire(want))
		case "bytes":
			b := []byte(wire(want))
			w.bufs[e.Msg] = b
			store(b)
		case "ops":
			w.msgs[e.Msg] = p
			store(ops(p))
		case "patches":
			// the batches lie in one buffer of the sender, not in the order in which they are sent
			i, j := len(p)/3, 2*len(p)/3
			buf := append(append(append(tsonpatch.Patch{}, p[:i]...), p[j:]...), p[i:j]...)
			mid := i + len(p) - j
			w.msgs[e.Msg], w.batches[e.Msg] = p, append(w.batches[e.Msg], buf)
			kept := cloneOps(buf)
			store([]tsonpatch.Patch{buf[:i], buf[mid:], buf[i:mid]})
			c.Check(reflect.DeepEqual(kept, cloneOps(buf)), "sender", "handing over batches of a buffer changed the buffer to %v", buf)
		case "op":
			want = want[:1]
			store(p[0])
		default:
			// give the slice spare room, as a growing receive buffer has
			if !shared {
				p = append(make(tsonpatch.Patch, 0, len(p)+4), p...)
			}
			w.msgs[e.Msg] = p
			store(p)
		}
	})
	return want
}

// create makes a new document of the current state of another one and patches that follow it.
func (w *world) create(d *doc, e Ev) {
	if len(w.docs) >= 6 {
		return
	}
	p := goOps(e.Strs)
	s := d.cur
	for _, op := range p {
		var err error
		if s, err = ref.Apply(s, op); err != nil {
			w.c.Probe("skipped_inapplicable_message")
			return
		}
	}
	n := &doc{name: fmt.Sprintf("document %d", len(w.docs)), init: d.cur, states: []*node{d.cur}, patches: map[uint64]ops{}, cur: d.cur, origin: "root"}
	var initial any = d.cur.Text()
	exact := true // the text writes all negative timestamps alike
	d.cur.EachLeaf(func(_ string, leaf *node) { exact = exact && leaf.TS >= -1 })
	switch {
	case e.A%3 == 2 || !exact:
		initial = d.cur.Tson()
	case e.A%3 == 1:
		initial = []byte(d.cur.Text())
	}
	var want ops
	if len(p) == 0 {
		w.c.Must("NewLogument", func() { n.real = logument.NewLogument(initial, nil) })
	} else {
		want = w.handOver(e, p, false, "NewLogument", func(v any) { n.real = logument.NewLogument(initial, v) })
	}
	n.store(want)
	w.docs = append(w.docs, n)
	w.c.Probe("created_with_patches")
	for _, o := range w.docs {
		w.verify(o)
	}
}

// snapshots asks for all versions, or for a part of them if there are many.
func (w *world) snapshots(d *doc) {
	step := max(1, (d.latest-d.base)/40)
	for v := d.base; v <= d.latest; v += step {
		if step > 1 && v+step <= d.latest {
			w.snapshot(d, v+(v*7+1)%step)
		} else {
			w.snapshot(d, v)
		}
	}
	w.snapshot(d, d.latest)
	if step == 1 || d.origin != "root" {
		return
	}
	for v := d.base; v <= d.latest; v++ { // and all others, judged as a whole
		w.c.Must("Snapshot", func() {
			if diff := ref.Diff(ref.From(d.real.Snapshot(v)), d.states[v-d.base], !d.noTS); diff != "" {
				w.c.Fail("snapshot", "Snapshot(%d) of %s %s", v, d.name, diff)
			}
		})
	}
	w.verify(d)
	w.snapshot(d, d.base+(d.latest-d.base)/3)
}

func (w *world) snapshot(d *doc, v uint64) {
	c := w.c
	var got tson.Tson
	c.Must("Snapshot", func() { got = d.real.Snapshot(v) })
	want := d.states[v-d.base]
	c.Log("snap %s %d %x", d.name, v, want.Hash())
	diff := ref.Diff(ref.From(got), want, !d.noTS)
	c.Check(diff == "", "snapshot", "Snapshot(%d) of %s %s", v, d.name, diff)
	w.keepState(fmt.Sprintf("Snapshot(%d) of %s", v, d.name), got, ref.From(got))
	w.verify(d)
}

func (w *world) temporalSnapshot(d *doc, ts int64) {
	c := w.c
	if d.origin == "slice" && !(monotone(d.allWithBase()) && d.afterBase(ts)) {
		return
	}
	if d.noTS {
		return
	}
	pending := len(d.pool)
	// Pending patches count; whether they become a version now or later is observed, not prescribed
	m := *d
	m.all = append(append(ops(nil), d.all...), d.pool...)
	want := m.at(ts)
	if want == nil {
		return
	}
	var got tson.Tson
	c.Must("TemporalSnapshot", func() { got = d.real.TemporalSnapshot(ts) })
	if pending > 0 && len(d.real.PatchPool) == 0 {
		d.append()
		c.Probe("temporal_snapshot_with_pending")
	}
	if !monotone(m.all) {
		c.Fault("late_arrival")
	}
	c.Log("tsnap %s %d %x", d.name, ts, want.Hash())
	diff := ref.Diff(ref.From(got), want, true)
	c.Check(diff == "", "temporal-snapshot", "TemporalSnapshot(%d) of %s %s", ts, d.name, diff)
	w.keepState(fmt.Sprintf("TemporalSnapshot(%d) of %s", ts, d.name), got, want)
	w.verify(d)
}

func (d *doc) allWithBase() ops {
	return append(append(ops(nil), d.patches[d.base]...), d.all...)
}

func (d *doc) afterBase(ts int64) bool {
	for _, op := range d.patches[d.base] {
		if op.Timestamp > ts {
			return false
		}
	}
	return ts >= d.lo
}

// span flattens the patches of versions vi to vj.
type entry struct {
	v  uint64
	op tsonpatch.Operation
}

func (d *doc) span(vi, vj uint64, in func(op tsonpatch.Operation) bool) []entry {
	var es []entry
	for v := vi; v <= vj; v++ {
		for _, op := range d.patches[v] {
			if in == nil || in(op) {
				es = append(es, entry{v, op})
			}
		}
	}
	return es
}

func isSet(op tsonpatch.Operation) bool {
	return op.Op == tsonpatch.OpAdd || op.Op == tsonpatch.OpReplace
}

func sameValue(a, b any) bool {
	x, ok1 := ref.LeafOf(a, 0)
	y, ok2 := ref.LeafOf(b, 0)
	return ok1 && ok2 && ref.Diff(x, y, false) == ""
}

type duty byte

const (
	free     duty = iota
	mustKeep      // changes the value, or may change it
	mustDrop      // only repeats the value set before
)

// duties says which operations a list of changes has to contain.
func duties(es []entry) []duty {
	out := make([]duty, len(es))
	type last struct {
		op      tsonpatch.Operation
		removes int
	}
	seen := map[string]last{}
	removes := 0
	for i, e := range es {
		key := ref.Canon(e.op.Path)
		if !isSet(e.op) {
			out[i] = mustKeep
			removes++
			for k := range seen { // what was set there is gone
				if ref.Below(k, key) {
					delete(seen, k)
				}
			}
			continue
		}
		prev, ok := seen[key]
		switch {
		case !ok || !sameValue(prev.op.Value, e.op.Value):
			out[i] = mustKeep
		case prev.removes == removes && prev.op.Path == e.op.Path && reflect.DeepEqual(prev.op.Value, e.op.Value):
			out[i] = mustDrop
		}
		seen[key] = last{e.op, removes}
	}
	return out
}

// account checks that list holds the operations that must be kept and none that must be dropped,
// in the order of es.
func (w *world) account(what, class string, es []entry, du []duty, list ops) {
	c := w.c
	k := 0
	for _, e := range es {
		if k < len(list) && reflect.DeepEqual(list[k], e.op) {
			k++
		}
	}
	if k < len(list) {
		c.Fail(class+"-foreign", "%s contains %v, which does not belong there or comes too early", what, list[k])
	}
	type count struct {
		op              tsonpatch.Operation
		keep, free, got int
	}
	var counts []*count
	index := map[string]*count{}
	at := func(op tsonpatch.Operation) *count {
		key := fmt.Sprintf("%s\x00%s\x00%d\x00%T\x00%v", op.Op, op.Path, op.Timestamp, op.Value, op.Value)
		if index[key] == nil {
			index[key] = &count{op: op}
			counts = append(counts, index[key])
		}
		return index[key]
	}
	for i, e := range es {
		switch du[i] {
		case mustKeep:
			at(e.op).keep++
		case free:
			at(e.op).free++
		}
	}
	for _, op := range list {
		at(op).got++
	}
	for _, n := range counts {
		if n.got < n.keep {
			c.Fail(class+"-lost", "%s does not contain %v, which changes the value", what, n.op)
		}
		if n.got > n.keep+n.free {
			c.Fail(class+"-redundant", "%s contains %v, which only repeats the value", what, n.op)
		}
	}
	c.Checks++
}

// changes checks that got lists the changes of es: in order, none missing, none that only repeats.
func (w *world) changes(what string, es []entry, got map[uint64]tsonpatch.Patch) {
	du := duties(es)
	versions := map[uint64]bool{}
	for i := 0; i < len(es); {
		j := i
		for j < len(es) && es[j].v == es[i].v {
			j++
		}
		v := es[i].v
		versions[v] = true
		w.account(fmt.Sprintf("%s, version %d,", what, v), "track", es[i:j], du[i:j], got[v])
		i = j
	}
	for v, p := range got {
		w.c.Check(versions[v] || len(p) == 0, "track-foreign", "%s has patches for version %d, which has none in the range", what, v)
	}
}

func (w *world) track(d *doc, vi, vj uint64) {
	c := w.c
	var got map[uint64]tsonpatch.Patch
	c.Must("Track", func() { got = d.real.Track(vi, vj) })
	what := fmt.Sprintf("Track(%d, %d) of %s", vi, vj, d.name)
	w.changes(what, d.span(vi, vj, nil), got)
	// a replica at the version before the range ends up where the document is
	if vi > d.base {
		s := d.states[vi-1-d.base]
		for v := vi; v <= vj; v++ {
			var err error
			if s, err = ref.ApplyAll(s, got[v]); err != nil {
				c.Fail("replay", "%s cannot be applied at version %d: %v", what, v, err)
			}
			diff := ref.Diff(s, d.states[v-d.base], false)
			c.Check(diff == "", "converge", "applying %s up to version %d: %s", what, v, diff)
		}
	}
	w.keepPatches(what, got)
	w.verify(d)
}

func (w *world) temporalTrack(d *doc, lo, hi int64) {
	c := w.c
	var got map[uint64]tsonpatch.Patch
	c.Must("TemporalTrack", func() { got = d.real.TemporalTrack(lo, hi) })
	what := fmt.Sprintf("TemporalTrack(%d, %d) of %s", lo, hi, d.name)
	es := d.span(d.base, d.latest, func(op tsonpatch.Operation) bool { return op.Timestamp >= lo && op.Timestamp <= hi })
	w.changes(what, es, got)
	if !monotone(d.all) {
		c.Fault("late_arrival")
	}
	if n := len(es); n > 0 && n < len(d.all) {
		c.Probe("partial_window")
	}
	w.keepPatches(what, got)
	w.verify(d)
}

const maxDocs = 6

func (w *world) adopt(d *doc) {
	if len(w.docs) < maxDocs {
		w.docs = append(w.docs, d)
	}
}

func (w *world) slice(d *doc, vi, vj uint64) {
	c := w.c
	var got *logument.Logument
	c.Must("Slice", func() { got = d.real.Slice(vi, vj) })
	s := &doc{name: fmt.Sprintf("%s[%d:%d]", d.name, vi, vj), real: got, base: vi, latest: vj,
		init: d.states[vi-d.base], states: append([]*node(nil), d.states[vi-d.base:vj-d.base+1]...),
		patches: map[uint64]ops{}, cur: d.states[vj-d.base], origin: "slice", noTS: d.noTS, lo: d.lo}
	for v := vi; v <= vj; v++ {
		if p, ok := d.patches[v]; ok {
			s.patches[v] = p
			if v > vi {
				s.all = append(s.all, p...)
			}
		}
	}
	if d.noTS {
		// after compaction the slice's own timestamps are what it says
		s.cur = ref.From(got.CurrentState)
		diff := ref.Diff(s.cur, d.states[vj-d.base], false)
		c.Check(diff == "", "slice-current", "current state of %s %s", s.name, diff)
	}
	if _, ok := got.Patches[vi]; !ok {
		delete(s.patches, vi) // the state of the first version already contains them
	}
	w.verify(s)
	w.snapshots(s)
	w.verify(d)
	w.adopt(s)
}

func (w *world) temporalSlice(d *doc, lo, hi int64) {
	c := w.c
	if d.noTS || d.origin == "slice" {
		return
	}
	base, cur := d.at(lo-1), d.at(hi)
	if base == nil || cur == nil {
		return
	}
	s := &doc{name: fmt.Sprintf("%s<%d:%d>", d.name, lo, hi), init: base, states: []*node{base},
		patches: map[uint64]ops{}, cur: cur, origin: "tslice", lo: lo, hi: hi}
	first := uint64(0)
	for v := d.base + 1; v <= d.latest; v++ {
		var in ops
		for _, op := range d.patches[v] {
			if op.Timestamp >= lo && op.Timestamp <= hi {
				in = append(in, op)
			}
		}
		if len(in) > 0 {
			if first == 0 {
				first = v
				s.base, s.latest = v-1, v-1
			}
			for s.latest < v-1 {
				s.latest++
				s.states = append(s.states, s.states[len(s.states)-1])
			}
			n, err := ref.ApplyAll(s.states[len(s.states)-1], in)
			if err != nil {
				return
			}
			s.patches[v] = in
			s.states = append(s.states, n)
			s.all = append(s.all, in...)
			s.latest = v
		}
	}
	var got *logument.Logument
	c.Must("TemporalSlice", func() { got = d.real.TemporalSlice(lo, hi) })
	s.real = got
	if first == 0 {
		c.Probe("empty_window")
		c.Check(len(got.Version) == 1, "versions", "%s has versions %v for an empty window", s.name, got.Version)
		s.base, s.latest = got.Version[0], got.Version[0]
	} else if len(s.all) < len(d.all) {
		c.Probe("partial_window")
	}
	if !monotone(d.all) {
		c.Fault("late_arrival")
	}
	w.verify(s)
	w.snapshots(s)
	some := 1 + len(s.all)/60
	for i, op := range s.all {
		if i%some != some/2 && i != len(s.all)-1 {
			continue
		}
		w.temporalSnapshot(s, op.Timestamp)
		if want := d.at(op.Timestamp); want != nil {
			c.Must("TemporalSnapshot", func() {
				diff := ref.Diff(ref.From(s.real.TemporalSnapshot(op.Timestamp)), want, true)
				c.Check(diff == "", "temporal-slice", "%s at %d %s", s.name, op.Timestamp, diff)
			})
		}
	}
	w.verify(d)
	w.adopt(s)
}

func (w *world) compact(d *doc, target string) {
	c := w.c
	before := map[uint64]ops{}
	for v, p := range d.patches {
		before[v] = p
	}
	c.Must("Compact", func() { d.real.Compact(target) })
	what := fmt.Sprintf("Compact(%q) of %s", target, d.name)
	es := d.span(d.base, d.latest, nil)
	du := duties(es)
	for i, e := range es {
		if !ref.Within(e.op.Path, target) {
			du[i] = mustKeep // patches elsewhere all stay
		} else if du[i] == mustDrop {
			du[i] = free
		}
	}
	dropped := 0
	var left []entry
	for v := d.base; v <= d.latest; v++ {
		var sub []entry
		var subDu []duty
		for i, e := range es {
			if e.v == v {
				sub = append(sub, e)
				subDu = append(subDu, du[i])
			}
		}
		p := d.real.Patches[v]
		w.account(fmt.Sprintf("version %d after %s", v, what), "compact", sub, subDu, p)
		dropped += len(sub) - len(p)
		for _, op := range p {
			left = append(left, entry{v, op})
		}
	}
	// what it left only repeats nothing at the target
	for i, u := range duties(left) {
		if u == mustDrop && ref.Within(left[i].op.Path, target) {
			c.Fail("compact-redundant", "%s left %v of version %d, which only repeats the value", what, left[i].op, left[i].v)
		}
	}
	if dropped > 0 {
		c.Probe("compact_dropped")
		d.noTS = true
	}
	for v := range d.patches {
		d.patches[v] = cloneOps(d.real.Patches[v])
	}
	d.all = nil
	for v := d.base + 1; v <= d.latest; v++ {
		d.all = append(d.all, d.patches[v]...)
	}
	// the values of every version are as before
	s := d.init
	for v := d.base + 1; v <= d.latest; v++ {
		var err error
		if s, err = ref.ApplyAll(s, d.patches[v]); err != nil {
			c.Fail("compact-replay", "after %s version %d cannot be made: %v", what, v, err)
		}
		diff := ref.Diff(s, d.states[v-d.base], false)
		c.Check(diff == "", "compact-values", "after %s version %d %s", what, v, diff)
	}
	c.Log("compact %s %q %d", d.name, target, dropped)
	for _, o := range w.docs {
		w.verify(o)
	}
}

// part is the share of one path in the changes, sortable by time.
type part struct {
	es []entry
	du []duty
}

func (p *part) Len() int           { return len(p.es) }
func (p *part) Less(i, j int) bool { return p.es[i].op.Timestamp < p.es[j].op.Timestamp }
func (p *part) Swap(i, j int) {
	p.es[i], p.es[j] = p.es[j], p.es[i]
	p.du[i], p.du[j] = p.du[j], p.du[i]
}

func (w *world) history(d *doc, target string) {
	c := w.c
	what := fmt.Sprintf("History(%q) of %s", target, d.name)
	es := d.span(d.base, d.latest, nil)
	du := duties(es)
	want := map[string]*part{}
	spelling := map[string]string{}
	for i, e := range es {
		key := ref.Canon(e.op.Path)
		if old, ok := spelling[key]; ok && old != e.op.Path {
			return // a place spelled in several ways has no single history
		}
		spelling[key] = e.op.Path
		if ref.Within(e.op.Path, target) {
			if want[e.op.Path] == nil {
				want[e.op.Path] = &part{}
			}
			want[e.op.Path].es = append(want[e.op.Path].es, e)
			want[e.op.Path].du = append(want[e.op.Path].du, du[i])
		}
	}
	var got map[string]tsonpatch.Patch
	c.Must("History", func() { got = d.real.History(target) })
	if len(want) > 0 {
		c.Probe("history_found")
	}
	for p := range got {
		_, ok := want[p]
		c.Check(ok || len(got[p]) == 0, "history-foreign", "%s lists %s, which has no change there", what, p)
	}
	for p, pt := range want {
		list := got[p]
		if init, ok := d.init.Get(p); ok && init.K != ref.Null && d.origin == "root" {
			c.Check(len(list) > 0, "history-initial", "%s: %s: nothing", what, p)
			val, isTson := list[0].Value.(tson.Value)
			var v *node
			if isTson {
				v = ref.From(val)
			} else {
				v, _ = ref.LeafOf(list[0].Value, 0)
			}
			c.Check(v != nil && ref.Diff(v, init, false) == "", "history-initial",
				"%s: %s starts with %v, not with the initial value %s", what, p, list[0], init.Text())
			list = list[1:]
		} else if len(list) > 0 && d.origin != "root" {
			if _, isTson := list[0].Value.(tson.Value); isTson {
				list = list[1:]
			}
		}
		for i := 1; i < len(list); i++ {
			c.Check(list[i-1].Timestamp <= list[i].Timestamp, "history-order", "%s: %s: %v comes before %v", what, p, list[i-1], list[i])
		}
		sort.Stable(pt)
		w.account(fmt.Sprintf("%s, %s,", what, p), "history", pt.es, pt.du, list)
	}
	w.verify(d)
}

func (w *world) set(d *doc, e Ev, test bool) {
	c := w.c
	op := goOp(e.Strs[0])
	s, err := ref.Apply(d.cur, op)
	name := "Set"
	noop := !isSet(op)
	if test {
		name = "TestSet"
		if cur, ok := d.cur.Get(op.Path); ok && op.Op == tsonpatch.OpReplace && cur.Leaf() && sameValue(leafValue(cur), op.Value) {
			noop = true
			c.Probe("testset_same_value")
		}
	}
	vk := d.latest
	if noop || err != nil {
		// nothing happens, or it is refused: either way nothing changes
		msg, panicked := c.Try(func() {
			if test {
				d.real.TestSet(vk, op)
			} else {
				d.real.Set(vk, op)
			}
		})
		c.Check(!(noop && panicked), "panic", "%s panicked: %s", name, msg)
		w.verify(d)
		return
	}
	c.Must(name, func() {
		if test {
			d.real.TestSet(vk, op)
		} else {
			d.real.Set(vk, op)
		}
	})
	d.cur = s
	if n := len(d.real.PatchPool); n == len(d.pool)+1 {
		if last := d.real.PatchPool[n-1]; isSet(last) && test {
			op.Op = last.Op // setting a missing value may be recorded as an addition
		}
	}
	d.pool = append(d.pool[:len(d.pool):len(d.pool)], op)
	w.verify(d)
}

// misuse asks for what does not exist. Nothing may change, and (C30) it must be refused.
func (w *world) misuse(d *doc, e Ev) {
	c := w.c
	beyond := d.latest + 1 + uint64(e.A)
	if e.A%8 == 7 {
		beyond = math.MaxUint64 - uint64(e.A/8)
	}
	// vi and vj exist
	vi, vj := d.ver(e.A), d.ver(e.A/3)
	lo, hi := d.base, d.latest
	before := hi + 1 // a version that the document no longer has
	if lo > 0 {
		before = uint64(e.A) % lo
	}
	var what string
	var ask func()
	l := d.real
	switch e.B % 16 {
	case 0:
		what, ask = fmt.Sprintf("Snapshot(%d)", beyond), func() { l.Snapshot(beyond) }
	case 1:
		what, ask = fmt.Sprintf("Track(%d, %d)", vi, beyond), func() { l.Track(vi, beyond) }
	case 2:
		what, ask = fmt.Sprintf("Slice(%d, %d)", vi, beyond), func() { l.Slice(vi, beyond) }
	case 3, 4:
		if vi <= vj {
			vi, vj = hi, lo
		}
		if vi > vj {
			what, ask = fmt.Sprintf("Slice(%d, %d)", vi, vj), func() { l.Slice(vi, vj) }
			if e.B%16 == 4 {
				what, ask = fmt.Sprintf("Track(%d, %d)", vi, vj), func() { l.Track(vi, vj) }
			}
		}
	case 5:
		what, ask = fmt.Sprintf("Track(%d, %d)", beyond, beyond), func() { l.Track(beyond, beyond) }
	case 6:
		what, ask = fmt.Sprintf("Slice(%d, %d)", beyond, beyond), func() { l.Slice(beyond, beyond) }
	case 7:
		what, ask = fmt.Sprintf("Track(%d, %d)", beyond, vi), func() { l.Track(beyond, vi) }
	case 8:
		what, ask = fmt.Sprintf("Slice(%d, %d)", beyond, vi), func() { l.Slice(beyond, vi) }
	case 9:
		what, ask = fmt.Sprintf("Snapshot(%d)", before), func() { l.Snapshot(before) }
	case 10:
		what, ask = fmt.Sprintf("Track(%d, %d)", before, max(vi, before)), func() { l.Track(before, max(vi, before)) }
	case 11:
		what, ask = fmt.Sprintf("Slice(%d, %d)", before, max(vi, before)), func() { l.Slice(before, max(vi, before)) }
	case 12, 13:
		t1, t2 := e.A+e.T, e.A+e.T+1+e.B/16
		switch e.A % 4 {
		case 0: // far apart
			t1 = math.MinInt64 + e.A
		case 1:
			t2, t1 = math.MaxInt64, min(t1, -t1)
		}
		if e.T < math.MaxInt64-1000 {
			what, ask = fmt.Sprintf("TemporalSlice(%d, %d)", t2, t1), func() { l.TemporalSlice(t2, t1) }
			if e.B%16 == 13 {
				what, ask = fmt.Sprintf("TemporalTrack(%d, %d)", t2, t1), func() { l.TemporalTrack(t2, t1) }
			}
		}
	case 14:
		bad := []any{42, 1.5, true, map[string]any{"a": 1}, []int{1}, &d.cur, struct{}{}}[int(e.A)%7]
		what, ask = fmt.Sprintf("Store(%T)", bad), func() { l.Store(bad) }
	case 15:
		bad := []any{nil, 42, 1.5, true, []int{1}, &d.cur, struct{}{}}[int(e.A)%7]
		what, ask = fmt.Sprintf("NewLogument(%T)", bad), func() { logument.NewLogument(bad, nil) }
	}
	if ask != nil {
		_, refused := c.Try(ask)
		c.Log("misuse %d %v", e.B%16, refused)
		c.Fault("bad_request")
		if w.strict {
			c.Check(refused, "refused", "%s has versions %d to %d, but %s was answered", d.name, lo, hi, what)
			c.Probe("refused")
		}
	}
	w.verify(d)
}

// run executes a whole trace.
func run(c *Ctx, tr *simkit.Trace, how int) *world {
	w := newWorld(c, tr)
	w.strict = tr.Cfg["strict"] == 1
	init := parseInit(tr.Init[0])
	w.newDoc("doc", init, how)
	if tr.Cfg["standby"] == 1 {
		w.newDoc("standby", init, how+1)
	}
	rs := newReplicas(w, int(tr.Cfg["replicas"]), init)
	for i, e := range tr.Ev {
		c.Step = i
		runtime.VerifSeed(e.RS)
		if !w.exec(e) {
			rs.exec(e)
		}
		w.verifyKept(false)
		if e.At > c.SimMs {
			c.SimMs = e.At
		}
		for _, d := range w.docs {
			c.Log("%s %d %d %x", e.Op, d.latest, len(d.pool), d.cur.Hash())
		}
	}
	c.Step = len(tr.Ev)
	rs.settle()
	w.verifyKept(true)
	for _, d := range w.docs {
		w.verify(d)
		w.snapshots(d)
	}
	w.verifyKept(true)
	return w
}
