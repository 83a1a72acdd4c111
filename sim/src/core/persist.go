package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C13: a keeper writes its document to a simulated disk and loses everything else in crashes.

// simFile holds what survives a crash (durable) and what was written since (pending).
type simFile struct {
	durable []byte
	exists  bool
	pending []byte
	dirty   bool
}

type disk map[string]*simFile

func (d disk) write(name string, b []byte, sync bool) {
	f := d[name]
	if f == nil {
		f = &simFile{}
		d[name] = f
	}
	f.pending, f.dirty = b, true
	if sync {
		f.durable, f.exists, f.dirty = b, true, false
	}
}

// crash decides what is left of unsynced writes.
func (d disk) crash(c *Ctx, seed uint64) {
	r := simkit.NewRng(seed)
	for _, name := range simkit.SortedKeys(d) {
		f := d[name]
		if !f.dirty {
			continue
		}
		switch r.Intn(5) {
		case 0: // nothing of it
			c.Fault("lost_write")
		case 1:
			f.durable, f.exists = f.pending, true
		case 2, 3: // a part of it
			f.durable, f.exists = f.pending[:r.Intn(len(f.pending))], true
			c.Fault("torn_write")
		case 4: // its length, but not all its blocks
			n := r.Intn(len(f.pending))
			f.durable, f.exists = append(append([]byte(nil), f.pending[:n]...), make([]byte, len(f.pending)-n)...), true
			c.Fault("zeroed_tail")
		}
		f.dirty = false
	}
}

type checkpoint struct {
	text  string
	state *node
	ver   uint64
}

type keeper struct {
	w       *world
	d       *doc
	disk    disk
	how     int64
	written uint64
	synced  uint64            // versions up to here must survive
	full    map[string][]byte // complete contents by name
	cps     []checkpoint      // every checkpoint written to the file of that name, complete
	fresh   bool              // the files on disk start a new generation
	gen     int
}

func (k *keeper) name(s string) string { return fmt.Sprintf("%03d-%s", k.gen, s) }

func (k *keeper) writeDoc(name string, t tson.Tson, sync bool) {
	c := k.w.c
	var b []byte
	var err error
	c.Must("Marshal", func() {
		switch k.how % 3 {
		case 0:
			b, err = tson.Marshal(t)
		case 1:
			b, err = tson.MarshalIndent(t, "", "  ")
		default:
			b, err = tson.ToCompatibleTsonBytes(t)
		}
	})
	c.Check(err == nil, "write", "document cannot be written: %v", err)
	k.full[name] = b
	k.disk.write(name, b, sync)
}

func (k *keeper) readDoc(b []byte) (t tson.Tson, err error) {
	k.w.c.Must("Unmarshal", func() {
		if k.how%3 == 2 {
			err = tson.FromCompatibleTsonBytes(b, &t)
		} else {
			err = tson.Unmarshal(b, &t)
		}
	})
	return
}

// norm is the state as the chosen format can hold it.
func (k *keeper) norm(n *node) *node {
	if k.how%3 == 2 {
		return n
	}
	return normTS(n)
}

// persist writes the versions that are not written yet.
func (k *keeper) persist(sync bool, form int64) {
	c := k.w.c
	for k.written < k.d.latest {
		k.written++
		p := k.d.real.Patches[k.written]
		var b []byte
		var err error
		c.Must("writing a patch", func() {
			switch form % 3 {
			case 0:
				b, err = json.Marshal(p)
			case 1:
				b = []byte(p.String())
			default:
				var parts []string
				for i := range p {
					o, e := p[i].Marshal()
					if e != nil {
						err = e
					}
					parts = append(parts, string(o))
				}
				b = []byte("[" + strings.Join(parts, ",\n") + "]")
			}
		})
		c.Check(err == nil, "write", "patch cannot be written: %v", err)
		name := k.name(fmt.Sprintf("v%06d", k.written))
		k.full[name] = b
		k.disk.write(name, b, sync)
	}
	if sync {
		for _, name := range simkit.SortedKeys(k.disk) {
			if f := k.disk[name]; f.dirty {
				k.disk.write(name, f.pending, true)
			}
		}
		k.synced = k.written
	}
}

func sameJSON(got tsonpatch.Patch, want ops) string {
	conv := make(ops, len(want))
	for i, op := range want {
		if n, ok := op.Value.(int); ok {
			op.Value = float64(n)
		}
		conv[i] = op
	}
	return sameOps(got, conv)
}

// recover starts over with what the disk has.
func (k *keeper) recover(useCP bool) {
	c := k.w.c
	old := k.d
	read := func(name string) ([]byte, bool) {
		f := k.disk[name]
		if f == nil || !f.exists {
			return nil, false
		}
		return f.durable, true
	}
	var base tson.Tson
	start := old.base
	cpName := k.name("checkpoint")
	if b, ok := read(cpName); ok && useCP {
		t, err := k.readDoc(b)
		// An unsynced rewrite may be lost, which leaves an older checkpoint
		var cp *checkpoint
		for i := range k.cps {
			if k.cps[i].text == string(b) {
				cp = &k.cps[i]
			}
		}
		if cp != nil {
			c.Check(err == nil, "lost-durable", "the complete checkpoint %q cannot be read: %v", b, err)
			diff := ref.Diff(ref.From(t), k.norm(cp.state), true)
			c.Check(diff == "", "damaged", "checkpoint %s", diff)
			base, start = t, cp.ver
			c.Probe("recovered_from_checkpoint")
		} else {
			c.Check(err != nil, "torn-accepted", "the torn checkpoint %q was read", b)
		}
	}
	if base == nil {
		b, _ := read(k.name("base"))
		t, err := k.readDoc(b)
		c.Check(err == nil, "lost-durable", "the initial document %q cannot be read: %v", b, err)
		diff := ref.Diff(ref.From(t), k.norm(old.init), true)
		c.Check(diff == "", "damaged", "initial document %s", diff)
		base, start = t, old.base
	}
	var l *logument.Logument
	c.Must("NewLogument", func() { l = logument.NewLogument(base, nil) })
	init := ref.From(base)
	d := &doc{name: fmt.Sprintf("doc after crash %d", k.gen+1), real: l, init: init, states: []*node{init},
		patches: map[uint64]ops{}, cur: init, origin: "root"}
	recovered := start
	for v := start + 1; v <= k.written; v++ {
		name := k.name(fmt.Sprintf("v%06d", v))
		b, ok := read(name)
		if !ok {
			break
		}
		var p tsonpatch.Patch
		var err error
		c.Must("Unmarshal", func() { p, err = tsonpatch.Unmarshal(b) })
		if string(b) != string(k.full[name]) {
			c.Check(err != nil, "torn-accepted", "the torn patch file %q was read", b)
			c.Probe("torn_version_detected")
			break
		}
		c.Check(err == nil, "lost-durable", "the complete patch file %q cannot be read: %v", b, err)
		diff := sameJSON(p, old.patches[v])
		c.Check(diff == "", "damaged", "version %d: %s", v, diff)
		c.Must("Store", func() { l.Store(b); err = l.Append() })
		c.Check(err == nil, "append-error", "Append: %v", err)
		d.store(ops(p))
		d.append()
		recovered = v
		got := d.states[len(d.states)-1]
		diff = ref.Diff(got, k.norm2(old.states[v-old.base], start > old.base || k.how%3 != 2), true)
		if k.how%3 != 2 {
			diff = ref.Diff(normTS(got), normTS(old.states[v-old.base]), true)
		}
		c.Check(diff == "", "damaged", "version %d after recovery: %s", v, diff)
	}
	c.Check(recovered >= k.synced, "lost-durable", "only versions up to %d of %d synced ones came back", recovered, k.synced)
	k.w.docs = nil
	k.w.keeps = nil
	k.w.msgs = map[int]tsonpatch.Patch{}
	k.w.docs = append(k.w.docs, d)
	k.w.verify(d)
	k.d = d
	k.w.snapshots(d)
	k.begin()
}

func (k *keeper) norm2(n *node, lossy bool) *node {
	if lossy {
		return k.norm(n)
	}
	return n
}

// begin starts a new generation of files.
func (k *keeper) begin() {
	k.gen++
	k.written, k.synced, k.cps = k.d.base, k.d.base, nil
	k.writeDoc(k.name("base"), k.d.real.Snapshots[k.d.base], true)
}

func execPersist(c *Ctx, tr *simkit.Trace) {
	w := newWorld(c, tr)
	d := w.newDoc("doc", parseInit(tr.Init[0]), tr.Run)
	k := &keeper{w: w, d: d, disk: disk{}, how: tr.Cfg["format"], full: map[string][]byte{}}
	k.begin()
	for i, e := range tr.Ev {
		c.Step = i
		c.SimMs = max(c.SimMs, e.At)
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "persist":
			k.persist(e.B == 1, e.A)
		case "checkpoint":
			v := k.d.ver(e.A)
			if v > k.written {
				break
			}
			var t tson.Tson
			c.Must("Snapshot", func() { t = k.d.real.Snapshot(v) })
			name := k.name("checkpoint")
			k.writeDoc(name, t, e.B == 1)
			k.cps = append(k.cps, checkpoint{string(k.full[name]), k.d.states[v-k.d.base], v})
		case "crash":
			c.Fault("crash")
			k.disk.crash(c, simkit.Mix(uint64(e.A), 77))
			k.recover(e.B == 1)
		default:
			w.exec(e)
		}
		c.Log("%s %d %d %x", e.Op, k.d.latest, k.synced, k.d.cur.Hash())
	}
	c.Step = len(tr.Ev)
	k.persist(true, 0)
	k.recover(false)
}

func genPersist(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		f.tr.Cfg["format"] = int64(r.Intn(3))
		f.getOld()
		f.vehicles(1)
		syncP := []float64{0.2, 0.6}[r.Intn(2)]
		flag := func(pr float64) int64 {
			if r.P(pr) {
				return 1
			}
			return 0
		}
		var act func()
		act = func() {
			switch k := r.Intn(12); {
			case k < 6:
				f.emit(simkit.Ev{Op: "persist", A: int64(r.Intn(3)), B: flag(syncP)})
			case k < 8:
				f.emit(simkit.Ev{Op: "checkpoint", A: int64(r.Intn(f.vers)), B: flag(syncP)})
			case k < 10:
				f.emit(simkit.Ev{Op: "crash", A: int64(r.U64() >> 40), B: flag(0.5)})
			default:
				f.emit(simkit.Ev{Op: "snap", A: int64(r.Intn(f.vers))})
			}
			f.after(int64(r.Between(100, 1200)), act)
		}
		f.after(500, act)
		return f.run()
	}
}
