package main

import (
	"encoding/json"
	"fmt"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// replica follows a document by asking for the changes since its own version.
type replica struct {
	ver   uint64
	state tson.Tson
}

// delta is an answer on the network.
type delta struct {
	from, to uint64
	body     map[uint64]string
}

type replicas struct {
	w      *world
	rs     []*replica
	flight map[int]*delta
	done   map[int]bool
}

func newReplicas(w *world, n int, init *node) *replicas {
	r := &replicas{w: w, flight: map[int]*delta{}, done: map[int]bool{}}
	for i := 0; i < n; i++ {
		r.rs = append(r.rs, &replica{state: init.Tson()})
	}
	return r
}

// pull asks the document for the changes the replica lacks.
func (r *replicas) pull(rep *replica) *delta {
	w, d := r.w, r.w.docs[0]
	if rep.ver >= d.latest {
		return nil
	}
	var got map[uint64]tsonpatch.Patch
	w.c.Must("Track", func() { got = d.real.Track(rep.ver+1, d.latest) })
	what := fmt.Sprintf("Track(%d, %d)", rep.ver+1, d.latest)
	w.changes(what, d.span(rep.ver+1, d.latest, nil), got)
	dl := &delta{from: rep.ver + 1, to: d.latest, body: map[uint64]string{}}
	for v, p := range got {
		b, err := json.Marshal(p)
		w.c.Check(err == nil, "wire", "%s cannot be sent: %v", what, err)
		dl.body[v] = string(b)
	}
	w.verify(d)
	return dl
}

// push is the arrival of an answer.
func (r *replicas) push(rep *replica, dl *delta, i int) {
	w, d := r.w, r.w.docs[0]
	if dl.from != rep.ver+1 {
		w.c.Probe("stale_delta_ignored")
		return
	}
	state := rep.state
	for v := dl.from; v <= dl.to; v++ {
		if body, ok := dl.body[v]; ok {
			p, err := tsonpatch.Unmarshal([]byte(body))
			w.c.Check(err == nil, "wire", "version %d arrives as %q: %v", v, body, err)
			var next tson.Tson
			w.c.Must("ApplyPatch", func() { next, err = tsonpatch.ApplyPatch(state, p) })
			w.c.Check(err == nil, "replay", "replica %d cannot apply version %d: %v", i, v, err)
			state = next
		}
		diff := ref.Diff(ref.From(state), d.states[v], false)
		w.c.Check(diff == "", "converge", "replica %d at version %d: %s", i, v, diff)
	}
	rep.state, rep.ver = state, dl.to
}

// exec handles the replicas' events.
func (r *replicas) exec(e Ev) {
	if len(r.rs) == 0 {
		return
	}
	i := int(e.A) % len(r.rs)
	rep := r.rs[i]
	switch e.Op {
	case "pull":
		if dl := r.pull(rep); dl != nil {
			r.flight[e.Msg] = dl
		}
	case "push":
		dl := r.flight[e.Msg]
		if dl == nil {
			return
		}
		if r.done[e.Msg] {
			r.w.c.Fault("message_duplicated")
		}
		r.done[e.Msg] = true
		r.push(rep, dl, i)
	case "replicacrash":
		// the replica comes back with nothing but what the document can give it
		d := r.w.docs[0]
		v := d.ver(e.B)
		var s tson.Tson
		r.w.c.Must("Snapshot", func() { s = d.real.Snapshot(v) })
		rep.state, rep.ver = s, v
		r.w.c.Fault("replica_crash")
	}
}

// settle: once nothing is lost any more, every replica catches up in one round.
func (r *replicas) settle() {
	for i, rep := range r.rs {
		if dl := r.pull(rep); dl != nil {
			r.push(rep, dl, i)
		}
		d := r.w.docs[0]
		diff := ref.Diff(ref.From(rep.state), d.states[len(d.states)-1], false)
		r.w.c.Check(rep.ver == d.latest && diff == "", "converge", "replica %d is at version %d of %d when all is delivered: %s", i, rep.ver, d.latest, diff)
	}
}

// replicaEvents starts the replicas in the generator.
func (f *fleet) replicaEvents(n int) {
	l := f.links()
	f.tr.Cfg["replicas"] = int64(n)
	for i := 0; i < n; i++ {
		period := f.r.Between(200, 2500)
		var pull func()
		pull = func() {
			f.msgs++
			id := f.msgs
			f.emit(simkit.Ev{Op: "pull", A: int64(i), Msg: id})
			f.send(l, func(int) { f.emit(simkit.Ev{Op: "push", A: int64(i), Msg: id}) },
				func() { f.emit(simkit.Ev{Op: "lost", Msg: id}) })
			if f.r.P(0.03) {
				f.emit(simkit.Ev{Op: "replicacrash", A: int64(i), B: int64(f.r.Intn(20))})
			}
			f.after(int64(f.r.Between(period/2, period*3/2)), pull)
		}
		f.after(int64(f.r.Intn(3000)), pull)
	}
}
