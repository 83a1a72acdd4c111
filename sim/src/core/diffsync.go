package main

import (
	"encoding/json"
	"runtime"
	"strconv"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C12: a vehicle sends the difference between what the cloud has and what it has itself.
type diffSync struct {
	w      *world
	local  *node // the vehicle's document
	acked  *node // what the vehicle believes the cloud has
	ackID  int
	cloud  tson.Tson
	cloudM *node
	id     int // identity of the cloud's state
	flight map[int]*diffMsg
	acks   map[int]int // message -> state id it acknowledges
	ackM   map[int]*node
	nextID int
}

type diffMsg struct {
	base, id int
	body     string
	withTS   bool
	target   *node
	result   *node
	full     string
	done     bool
}

// introduces says whether modified has a container or null where origin has none:
// such a difference cannot be written as a patch of leaf values.
func introduces(origin, modified *node) bool {
	if modified.Leaf() {
		return false
	}
	if origin == nil || origin.K != modified.K {
		return true
	}
	for k, c := range modified.O {
		if introduces(origin.O[k], c) {
			return true
		}
	}
	for i, c := range modified.A {
		var o *node
		if i < len(origin.A) {
			o = origin.A[i]
		}
		if introduces(o, c) {
			return true
		}
	}
	return false
}

func (s *diffSync) diff(e Ev) *diffMsg {
	c := s.w.c
	m := &diffMsg{base: s.ackID, withTS: e.Mode == "ts", target: s.local}
	s.nextID++
	m.id = s.nextID
	origin, modified := s.acked.Tson(), s.local.Tson()
	s.w.keepState("the document before", origin, s.acked)
	s.w.keepState("the document after", modified, s.local)
	var p tsonpatch.Patch
	var err error
	name := "GeneratePatch"
	if m.withTS {
		name = "GeneratePatchWithTimestamp"
		c.Must(name, func() { p, err = tsonpatch.GeneratePatchWithTimestamp(origin, modified) })
	} else {
		c.Must(name, func() { p, err = tsonpatch.GeneratePatch(origin, modified) })
	}
	if err != nil {
		c.Check(introduces(s.acked, s.local), "refused", "%s: %v, although only leaf values differ", name, err)
		c.Probe("full_transfer")
		var b []byte
		c.Must("Marshal", func() { b, err = tson.Marshal(modified) })
		c.Check(err == nil, "wire", "Marshal: %v", err)
		m.full = string(b)
		m.result = s.local
		return m
	}
	res, rerr := ref.ApplyAll(s.acked, p)
	c.Check(rerr == nil, "inapplicable", "%s made %v, which cannot be applied: %v", name, p, rerr)
	d := ref.Diff(res, s.local, m.withTS)
	c.Check(d == "", "not-reproduced", "applying the result of %s, %v: %s", name, p, d)
	for _, op := range p {
		a, okA := s.acked.Get(op.Path)
		b, okB := s.local.Get(op.Path)
		same := okA && okB && ref.Diff(a, b, m.withTS) == ""
		c.Check(!same, "needless", "%s made %v for a place that is the same in both documents", name, op)
	}
	if len(p) > 0 {
		c.Probe("patch_generated")
	}
	m.result = res
	switch e.A % 3 {
	case 0:
		b, err := json.Marshal(p)
		c.Check(err == nil, "wire", "%v cannot be sent: %v", p, err)
		m.body = string(b)
	case 1:
		c.Must("String", func() { m.body = p.String() })
	default:
		m.body = "["
		for i := range p {
			b, err := p[i].Marshal()
			c.Check(err == nil, "wire", "%v cannot be sent: %v", p[i], err)
			if i > 0 {
				m.body += ","
			}
			m.body += string(b)
		}
		m.body += "]"
	}
	return m
}

func (s *diffSync) push(m *diffMsg) bool {
	c := s.w.c
	if m.full != "" {
		var t tson.Tson
		var err error
		c.Must("Unmarshal", func() { err = tson.Unmarshal([]byte(m.full), &t) })
		c.Check(err == nil, "wire", "%s cannot be read: %v", m.full, err)
		d := ref.Diff(ref.From(t), normTS(m.target), true)
		c.Check(d == "", "full", "full transfer: %s", d)
		s.cloud, s.cloudM, s.id = t, normTS(m.target), m.id
		return true
	}
	if m.base != s.id {
		c.Probe("stale_patch_ignored")
		return false
	}
	var p tsonpatch.Patch
	var err error
	c.Must("Unmarshal", func() { p, err = tsonpatch.Unmarshal([]byte(m.body)) })
	c.Check(err == nil, "wire", "%s cannot be read: %v", m.body, err)
	var t tson.Tson
	c.Must("ApplyPatch", func() { t, err = tsonpatch.ApplyPatch(s.cloud, p) })
	c.Check(err == nil, "inapplicable", "%v cannot be applied: %v", p, err)
	d := ref.Diff(ref.From(t), m.target, m.withTS)
	c.Check(d == "", "not-reproduced", "applying %v: %s", p, d)
	s.cloud, s.cloudM, s.id = t, ref.From(t), m.id
	return true
}

// normTS maps every absent timestamp to the default one.
func normTS(n *node) *node {
	switch {
	case n.Leaf() && n.TS < -1:
		m := *n
		m.TS = -1
		return &m
	case n.K == ref.Obj:
		o := map[string]*node{}
		for k, c := range n.O {
			o[k] = normTS(c)
		}
		return &node{K: ref.Obj, O: o}
	case n.K == ref.Arr:
		a := make([]*node, len(n.A))
		for i, c := range n.A {
			a[i] = normTS(c)
		}
		return &node{K: ref.Arr, A: a}
	}
	return n
}

func execDiff(c *Ctx, tr *simkit.Trace) {
	init := parseInit(tr.Init[0])
	s := &diffSync{w: newWorld(c, tr), local: init, acked: init, cloud: init.Tson(), cloudM: init,
		flight: map[int]*diffMsg{}, acks: map[int]int{}, ackM: map[int]*node{}}
	for i, e := range tr.Ev {
		c.Step = i
		c.SimMs = max(c.SimMs, e.At)
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "lost":
			c.Fault("message_loss")
		case "partition":
			c.Fault("partition")
		case "mutate":
			for _, op := range goOps(e.Strs) {
				if n, err := ref.Apply(s.local, op); err == nil {
					s.local = n
				}
			}
		case "graft": // something structural happens to the vehicle's document
			s.local = graft(s.local, e)
		case "diff":
			s.flight[e.Msg] = s.diff(e)
		case "push":
			if m := s.flight[e.Msg]; m != nil {
				if m.done {
					c.Fault("message_duplicated")
				}
				m.done = true
				if s.push(m) {
					s.acks[e.Msg], s.ackM[e.Msg] = s.id, s.cloudM
				}
			}
		case "ack":
			if id, ok := s.acks[e.Msg]; ok && id > s.ackID {
				s.ackID, s.acked = id, s.ackM[e.Msg]
			}
		case "resync": // the vehicle asks what the cloud has
			s.ackID, s.acked = s.id, s.cloudM
		}
		c.State(simkit.Mix(s.local.Hash(), s.cloudM.Hash()))
		c.Log("%s %x %x", e.Op, s.local.Hash(), s.cloudM.Hash())
		s.w.verifyKept(false)
	}
	// once nothing is lost any more, one exchange is enough
	c.Step = len(tr.Ev)
	s.ackID, s.acked = s.id, s.cloudM
	for _, mode := range []string{"", "ts"} {
		m := s.diff(Ev{Mode: mode})
		c.Check(s.push(m), "converge", "the cloud ignores a patch on its own state")
		d := ref.Diff(s.cloudM, normTS(s.local), mode == "ts" && m.full == "")
		if mode == "ts" && m.full == "" {
			d = ref.Diff(s.cloudM, s.local, true)
		}
		c.Check(d == "", "converge", "after the last exchange: %s", d)
		s.ackID, s.acked = s.id, s.cloudM
	}
	// a single clock reading later, nothing but that is told
	leaves, _, _ := places(s.local)
	for i := 0; i < min(3, len(leaves)); i++ {
		at := leaves[(len(tr.Ev)+i*7)%len(leaves)]
		later := retime(s.local, at, int64(1+i*i))
		if later == nil {
			continue
		}
		c.Probe("only_a_timestamp_differs")
		s.local = later
		m := s.diff(Ev{Mode: "ts", A: int64(i)})
		c.Check(s.push(m), "converge", "the cloud ignores a patch on its own state")
		s.ackID, s.acked = s.id, s.cloudM
	}
	m := s.diff(Ev{})
	c.Check(m.full == "" && m.body == "[]" || m.body == "null", "needless", "equal documents have the difference %s", m.body)
	s.w.verifyKept(true)
}

// retime moves the timestamp of a leaf forward, or returns nil if the place has none.
func retime(n *node, at []string, by int64) *node {
	switch {
	case n == nil:
		return nil
	case len(at) == 0:
		if !n.Leaf() || n.K == ref.Null || n.TS < 0 || n.TS+by < 0 {
			return nil
		}
		m := *n
		m.TS += by
		return &m
	case n.K == ref.Obj:
		o := map[string]*node{}
		for k, c := range n.O {
			o[k] = c
		}
		if o[at[0]] = retime(n.O[at[0]], at[1:], by); o[at[0]] == nil {
			return nil
		}
		return &node{K: ref.Obj, O: o}
	default:
		a := append([]*node(nil), n.A...)
		i, _ := strconv.Atoi(at[0])
		if a[i] = retime(n.A[i], at[1:], by); a[i] == nil {
			return nil
		}
		return &node{K: ref.Arr, A: a}
	}
}

// graft changes the shape of a document: moved, emptied, shrunk and grown containers.
func graft(n *node, e Ev) *node {
	_, inner, arrays := places(n)
	pick := func(xs [][]string) []string { return xs[int(e.A)%len(xs)] }
	replace := func(at []string, f func(*node) *node) *node {
		var w func(n *node, at []string) *node
		w = func(n *node, at []string) *node {
			if len(at) == 0 {
				return f(n)
			}
			if n.K == ref.Obj {
				o := map[string]*node{}
				for k, c := range n.O {
					o[k] = c
				}
				o[at[0]] = w(o[at[0]], at[1:])
				return &node{K: ref.Obj, O: o}
			}
			a := append([]*node(nil), n.A...)
			i, _ := strconv.Atoi(at[0])
			a[i] = w(a[i], at[1:])
			return &node{K: ref.Arr, A: a}
		}
		return w(n, at)
	}
	leaf := func(i int) *node { l, _ := ref.LeafOf(float64(i), e.T); return l }
	switch {
	case e.B%6 == 0 && len(arrays) > 0: // drop elements anywhere
		return replace(pick(arrays), func(a *node) *node {
			if len(a.A) == 0 {
				return a
			}
			i := int(e.A/7) % len(a.A)
			return &node{K: ref.Arr, A: append(append([]*node(nil), a.A[:i]...), a.A[i+1:]...)}
		})
	case e.B%6 == 1 && len(arrays) > 0: // grow at the front
		return replace(pick(arrays), func(a *node) *node {
			return &node{K: ref.Arr, A: append([]*node{leaf(int(e.A))}, a.A...)}
		})
	case e.B%6 == 2 && len(arrays) > 0: // empty it
		return replace(pick(arrays), func(a *node) *node { return &node{K: ref.Arr} })
	case e.B%6 == 3 && len(inner) > 0: // a leaf in place of a container
		return replace(pick(inner), func(*node) *node { return leaf(int(e.A)) })
	case e.B%6 == 4 && len(inner) > 0: // a null in place of a container
		return replace(pick(inner), func(*node) *node { return ref.NullNode })
	case e.B%6 == 5 && len(arrays) > 0: // a container as a new element
		return replace(pick(arrays), func(a *node) *node {
			return &node{K: ref.Arr, A: append(append([]*node(nil), a.A...), &node{K: ref.Obj, O: map[string]*node{"k": leaf(1)}})}
		})
	}
	return n
}

func genDiff(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		if r.P(0.1) { // the document is an array
			f.schema = &node{K: ref.Arr, A: []*node{f.schema, genLeaf(r, 3), genLeaf(r, -1)}}
			f.state = f.schema
			f.tr.Init[0] = f.schema.Trace()
		}
		l := f.links()
		epoch := f.tr.Cfg["epoch"]
		tsOnly := r.P(0.3)
		noGraft := r.P(0.3)
		var step func()
		step = func() {
			switch k := r.Intn(10); {
			case k < 4:
				var strs []string
				for i := r.Intn(4); i >= 0; i-- {
					op := genOp(r, p, f.state, f.schema, epoch+f.now)
					if r.P(0.3) { // only the timestamp changes
						if n, ok := f.state.Get(op.Path); ok && n.Leaf() && isSet(op) {
							op.Value = leafValue(n)
						}
					}
					if n, err := ref.Apply(f.state, op); err == nil {
						f.state = n
						strs = append(strs, opText(op))
					}
				}
				f.emit(simkit.Ev{Op: "mutate", Strs: strs})
			case k < 5 && !noGraft:
				e := simkit.Ev{Op: "graft", A: int64(r.Intn(1000)), B: int64(r.Intn(6)), T: epoch + f.now}
				f.state = graft(f.state, e)
				f.emit(e)
			case k < 9:
				f.msgs++
				id := f.msgs
				mode := ""
				if tsOnly || r.P(0.3) {
					mode = "ts"
				}
				f.emit(simkit.Ev{Op: "diff", Msg: id, Mode: mode, A: int64(r.Intn(3))})
				lost := func() { f.emit(simkit.Ev{Op: "lost", Msg: id}) }
				f.send(l, func(int) {
					f.emit(simkit.Ev{Op: "push", Msg: id})
					f.send(l, func(int) { f.emit(simkit.Ev{Op: "ack", Msg: id}) }, lost)
				}, lost)
			default:
				if r.P(0.5) {
					f.emit(simkit.Ev{Op: "resync"})
				} else if r.P(0.2) {
					f.partEnd = f.now + int64(r.Between(100, 4000))
					f.emit(simkit.Ev{Op: "partition", A: f.partEnd - f.now})
				}
			}
			f.after(int64(r.Between(20, 600)), step)
		}
		f.after(0, step)
		return f.run()
	}
}
