package main

import (
	"fmt"
	"runtime"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C15: holders of one shared document apply the patches that reach them over a faulty network;
// many do not apply to the state they meet.
func execApply(c *Ctx, tr *simkit.Trace) {
	w := newWorld(c, tr)
	init := parseInit(tr.Init[0])
	shared := init.Tson()
	const holders = 3
	state := make([]tson.Tson, holders)
	model := make([]*node, holders)
	for i := range state {
		state[i], model[i] = shared, init
	}
	w.keepState("the initial document", shared, init)
	for i, e := range tr.Ev {
		c.Step = i
		c.SimMs = max(c.SimMs, e.At)
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "lost":
			c.Fault("message_loss")
			continue
		case "partition":
			c.Fault("partition")
			continue
		case "clockjump":
			c.Fault("clock_jump")
			continue
		case "restore": // a holder goes back to a document it kept
			h := e.Node % holders
			k := &w.keeps[int(e.A)%len(w.keeps)]
			state[h], model[h] = k.t, k.want
			continue
		case "read":
			w.read(state[e.Node%holders], model[e.Node%holders], e.Path)
			continue
		case "msg":
		default:
			continue
		}
		if e.B > 0 {
			c.Fault("message_duplicated")
		}
		h := e.Node % holders
		p := w.msgs[e.Msg]
		if p == nil {
			p = goOps(e.Strs)
			w.msgs[e.Msg] = p
		}
		before := cloneOps(p)
		want, wantErr := ref.ApplyAll(model[h], p)
		var got tson.Tson
		var err error
		if e.Mode == "op" && len(p) > 0 {
			want, wantErr = ref.Apply(model[h], p[0])
			c.Must("ApplyOperation", func() { got, err = tsonpatch.ApplyOperation(state[h], p[0]) })
		} else {
			c.Must("ApplyPatch", func() { got, err = tsonpatch.ApplyPatch(state[h], p) })
		}
		if diff := sameOps(p, before); diff != "" {
			c.Fail("patch-changed", "applying a patch changed it: %s", diff)
		}
		if wantErr != nil {
			c.Fault("inapplicable_patch")
			c.Check(err != nil, "accepted", "%v was applied although %v", p, wantErr)
			c.Check(got == nil, "partial", "a document was returned together with the error %v", err)
		} else {
			c.Check(err == nil, "refused", "%v was refused: %v", p, err)
			diff := ref.Diff(ref.From(got), want, true)
			c.Check(diff == "", "result", "applying %v: %s", p, diff)
			w.keepState(fmt.Sprintf("the document of holder %d after event %d", h, i), got, want)
			state[h], model[h] = got, want
		}
		c.State(model[h].Hash())
		c.Log("apply %d %v %x", h, err != nil, model[h].Hash())
		w.verifyKept(false)
	}
	c.Step = len(tr.Ev)
	w.verifyKept(true)
}

// read looks up a path in a document.
func (w *world) read(t tson.Tson, m *node, path string) {
	c := w.c
	var got tson.Value
	var err error
	c.Must("GetValue", func() { got, err = tson.GetValue(t, path) })
	want, ok := m.Get(path)
	if !ok {
		c.Check(err != nil, "read", "GetValue(%q) found %v where there is nothing", path, got)
		return
	}
	c.Check(err == nil, "read", "GetValue(%q): %v", path, err)
	diff := ref.Diff(ref.From(got), want, true)
	c.Check(diff == "", "read", "GetValue(%q) %s", path, diff)
}

func genApply(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		f.vehicles(3)
		var act func()
		act = func() {
			if r.P(0.5) {
				f.emit(simkit.Ev{Op: "restore", Node: r.Intn(3), A: int64(r.Intn(50))})
			} else {
				path := f.target()
				if leaves, inner, arrays := places(f.state); len(leaves) > 0 && r.P(0.4) { // near misses
					at := leaves[r.Intn(len(leaves))]
					switch {
					case len(arrays) > 0 && r.P(0.7):
						at = arrays[r.Intn(len(arrays))]
						n, _ := f.state.Get(ref.Join(at))
						at = append(at[:len(at):len(at)], r.Pick("-1", "x", "-", "1.5", "-2", strconv.Itoa(len(n.A)), strconv.Itoa(len(n.A)+1), strconv.Itoa(max(0, len(n.A)-1))))
						if r.P(0.2) {
							at = append(at, "more")
						}
					case r.P(0.5) && len(inner) > 0:
						at = inner[r.Intn(len(inner))]
						at = append(at[:len(at):len(at)], r.Pick("nothing", "0", "", "value", "timestamp"))
					default:
						at = append(at[:len(at):len(at)], r.Pick("below", "0", "value", "timestamp", ""))
					}
					path = ref.Join(at)
				}
				if ref.Canon(path) != "/" {
					f.emit(simkit.Ev{Op: "read", Node: r.Intn(3), Path: path})
				}
			}
			f.after(int64(r.Between(100, 900)), act)
		}
		f.after(500, act)
		return f.run()
	}
}
