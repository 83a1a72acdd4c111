package main

import (
	"container/heap"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

type rng = simkit.Rng

// profile says what kind of fleet a property's runs simulate.
type profile struct {
	wild     bool // structural changes: new subtrees, array growth and shrinking, removed parents
	hot      int  // where most changes happen
	mixed    bool // wild in some of the runs
	skew     bool // vehicle clocks are skewed, drift, jump
	spell    bool // vehicles spell the same path in several ways
	invalid  bool // vehicles also send operations that cannot be applied
	exactTS  bool // timestamps of the initial document survive the TSON syntax (>= -1)
	arrays   bool // the schema has arrays
	goInts   bool // in-process senders may use Go ints
	minEv    int
	maxEv    int
	weights  map[string]int // client and operator actions
	standby  bool           // a second document receives the same messages
	replicas int
	appendMs int  // mean time between versions
	strict   bool // requests that cannot be met must be refused
}

var keyPool = []string{"Speed", "Cabin", "Door", "IsOpen", "Power", "lat", "long", "Temp", "Vehicle",
	"Battery", "SoC", "Seat", "row", "unit", "state"}
var oddKeys = []string{"", "a.b", "x/y", "t~k", "키", "with space", "~1", "q\"uote", "back\\slash", "<ts>", "value", "tab\there", "é", "%s", "-", "$x"}

func genKey(r *rng, used map[string]bool) string {
	for {
		k := keyPool[r.Intn(len(keyPool))]
		if r.P(0.18) {
			k = oddKeys[r.Intn(len(oddKeys))]
		}
		if r.P(0.2) {
			k += strconv.Itoa(r.Intn(20))
		}
		if !used[k] {
			used[k] = true
			return k
		}
	}
}

func genNum(r *rng) float64 {
	switch r.Intn(14) {
	case 0:
		return 0
	case 12:
		return []float64{1e21, 1e-7, math.MaxFloat64, 5e-324, -1e300, 123456789.125, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 62}[r.Intn(10)]
	case 13:
		return float64(r.Between(-1000, 1000)) / 100
	case 1:
		return -float64(r.Intn(1000)) / 8
	case 2:
		return float64(r.Intn(1<<30)) * 1e9
	case 3:
		return float64(r.Intn(1000)) * 1e-9
	case 4:
		return float64(int64(1)<<53) + float64(r.Intn(8)*2)
	case 5:
		return 0.1 + float64(r.Intn(10))/10
	}
	return float64(r.Intn(5))
}

func genStr(r *rng) string {
	if r.P(0.04) { // a long one
		return strings.Repeat(r.Pick("x", "日本", "<\"", "ab "), []int{40, 70, 300, 2000}[r.Weighted([]int{6, 6, 3, 1})])
	}
	return r.Pick("ON", "OFF", "ON", "OFF", "", "drive", "a/b~c", "日本", "line\nbreak", "q\"\\", "<12>", "true", "0", "é€😀", "\u0001", "</>&")
}

// genVal draws a leaf value, mostly from a small set so that values repeat.
func genVal(r *rng, kind ref.Kind) any {
	other := r.P(0.05)
	if other {
		kind = []ref.Kind{ref.Str, ref.Num, ref.Bool}[r.Intn(3)] // type change
	}
	switch kind {
	case ref.Str:
		if other && r.P(0.7) { // looks like a value of another type
			return r.Pick("0", "1", "2", "true", "false", "")
		}
		if r.P(0.6) {
			return r.Pick("ON", "OFF")
		}
		return genStr(r)
	case ref.Bool:
		return r.P(0.5)
	}
	if r.P(0.6) {
		return float64(r.Intn(3))
	}
	return genNum(r)
}

func genLeaf(r *rng, ts int64) *ref.Node {
	k := []ref.Kind{ref.Num, ref.Num, ref.Str, ref.Bool}[r.Intn(4)]
	n, _ := ref.LeafOf(genVal(r, k), ts)
	return n
}

// genDoc draws an initial document.
func genDoc(r *rng, p *profile, ts func() int64) *ref.Node {
	// most documents are small; some are wide, deep, or have long arrays
	long, wide, deep := r.P(0.1), r.P(0.04), r.P(0.04)
	var obj func(depth, size int) *ref.Node
	obj = func(depth, size int) *ref.Node {
		o := map[string]*ref.Node{}
		used := map[string]bool{"timestamp": true}
		for i := 0; i < size; i++ {
			k := genKey(r, used)
			switch c := r.Intn(10); {
			case depth > 0 && c < 3:
				o[k] = obj(depth-1, r.Between(1, 3))
			case p.arrays && c < 5:
				var a []*ref.Node
				j := r.Intn(4)
				if long && r.P(0.5) {
					j = r.Between(10, 13)
				}
				for ; j >= 0; j-- {
					if depth > 0 && r.P(0.25) {
						a = append(a, obj(depth-1, r.Between(1, 2)))
					} else if r.P(0.08) {
						row := &ref.Node{K: ref.Arr}
						for k := r.Intn(4); k > 0; k-- {
							row.A = append(row.A, genLeaf(r, ts()))
						}
						if len(row.A) > 0 && r.P(0.2) {
							row = &ref.Node{K: ref.Arr, A: []*ref.Node{row}}
						}
						a = append(a, row)
					} else if p.wild && r.P(0.1) {
						a = append(a, ref.NullNode)
					} else {
						a = append(a, genLeaf(r, ts()))
					}
				}
				o[k] = &ref.Node{K: ref.Arr, A: a}
			case p.wild && c == 5 && r.P(0.3):
				o[k] = &ref.Node{K: ref.Obj, O: map[string]*ref.Node{}}
			case p.wild && c == 5 && r.P(0.3):
				o[k] = ref.NullNode
			default:
				o[k] = genLeaf(r, ts())
			}
		}
		if r.P(0.15) { // "x/y" beside y below x
			for _, k := range simkit.SortedKeys(o) {
				for _, k2 := range simkit.SortedKeys(o[k].O) {
					if r.P(0.5) {
						o[k+r.Pick("/", ".", "/", "~1")+k2] = genLeaf(r, ts())
					}
				}
			}
		}
		return &ref.Node{K: ref.Obj, O: o}
	}
	if r.P(0.004) { // a few are huge
		o := obj(1, 2)
		some := func() *ref.Node { return genLeaf(r, ts()) }
		switch k := r.Intn(5); {
		case k == 0 && p.arrays:
			a := &ref.Node{K: ref.Arr}
			for i := r.Between(64, 300); i > 0; i-- {
				a.A = append(a.A, some())
			}
			o.O["Samples"] = a
		case k <= 1:
			m := map[string]*ref.Node{}
			for i := r.Between(64, 300); i > 0; i-- {
				m[fmt.Sprintf("k%03d", i)] = some()
			}
			o.O["Signals"] = &ref.Node{K: ref.Obj, O: m}
		case k == 2:
			n := some()
			for i := r.Between(20, 70); i > 0; i-- {
				if p.arrays && r.P(0.2) {
					n = &ref.Node{K: ref.Arr, A: []*ref.Node{n}}
				} else {
					n = &ref.Node{K: ref.Obj, O: map[string]*ref.Node{r.Pick("x", "y", "in"): n}}
				}
			}
			o.O["Deep"] = n
		case k == 3:
			o.O[strings.Repeat(r.Pick("long", "é"), []int{65, 300, 1100}[r.Intn(3)])] = some()
		default:
			n, _ := ref.LeafOf(strings.Repeat(r.Pick("x", "日本", "<\"", "ab "), []int{2100, 4200, 8200, 33000}[r.Intn(4)]), ts())
			o.O["Log"] = n
		}
		return o
	}
	switch {
	case wide:
		return obj(1, r.Between(9, 20))
	case deep:
		o := obj(1, 2)
		for i := r.Between(4, 8); i > 0; i-- {
			used := map[string]bool{"timestamp": true}
			up := map[string]*ref.Node{genKey(r, used): o}
			if p.arrays && r.P(0.2) {
				up = map[string]*ref.Node{genKey(r, used): {K: ref.Arr, A: []*ref.Node{genLeaf(r, ts()), o}}}
			}
			if r.P(0.5) {
				up[genKey(r, used)] = genLeaf(r, ts())
			}
			o = &ref.Node{K: ref.Obj, O: up}
		}
		return o
	}
	return obj(r.Between(1, 3), r.Between(2, 5))
}

// spellings returns the ways to write a path that mean the same place.
func spellings(parts []string) []string {
	out := []string{ref.Join(parts)}
	enc := make([]string, len(parts))
	for i, q := range parts {
		if strings.ContainsAny(q, ".") || q == "" {
			return out
		}
		enc[i] = strings.ReplaceAll(strings.ReplaceAll(q, "~", "~0"), "/", "~1")
	}
	if strings.HasPrefix(enc[0], "/") {
		return out
	}
	return append(out, strings.Join(enc, "."), strings.Join(enc, "/"))
}

func path(r *rng, p *profile, parts []string) string {
	s := spellings(parts)
	if p.spell && r.P(0.3) {
		return s[r.Intn(len(s))]
	}
	return s[0]
}

// places lists every place of a document as parts.
func places(n *ref.Node) (leaves, inner, arrays [][]string) {
	var w func(n *ref.Node, at []string)
	w = func(n *ref.Node, at []string) {
		at = at[:len(at):len(at)]
		switch n.K {
		case ref.Obj:
			if len(at) > 0 {
				inner = append(inner, at)
			}
			for _, k := range n.Keys() {
				w(n.O[k], append(at, k))
			}
		case ref.Arr:
			if len(at) > 0 {
				inner = append(inner, at)
				arrays = append(arrays, at)
			}
			for i, c := range n.A {
				w(c, append(at, strconv.Itoa(i)))
			}
		default:
			leaves = append(leaves, at)
		}
	}
	w(n, nil)
	return
}

func isIndex(s string) bool { _, err := strconv.Atoi(s); return err == nil }

// genOp draws one operation on a document.
func genOp(r *rng, p *profile, state, schema *ref.Node, ts int64) tsonpatch.Operation {
	src := schema
	if p.wild {
		src = state
	}
	leaves, inner, arrays := places(src)
	if len(leaves) == 0 {
		leaves = [][]string{{"fresh"}}
	}
	at := leaves[r.Intn(len(leaves))]
	if n := len(leaves); n > 8 && r.P(0.5) { // some places change more often than others
		u := r.F()
		at = leaves[(p.hot%n+int(u*u*u*float64(n)))%n]
	}
	op := tsonpatch.Operation{Op: tsonpatch.OpReplace, Timestamp: ts}
	if r.P(0.3) {
		op.Op = tsonpatch.OpAdd
	}
	kind := ref.Num
	if n, ok := src.Get(ref.Join(at)); ok && n.Leaf() {
		kind = n.K
	}
	inArray := isIndex(at[len(at)-1])
	switch {
	case p.invalid && r.P(0.15):
		switch r.Intn(6) {
		case 0:
			op.Op = tsonpatch.OpType(r.Pick("move", "copy", "test", "bogus", ""))
		case 1:
			at = append(at[:len(at):len(at)], "below", "leaf")
		case 2:
			op.Value = nil
			op.Path = path(r, p, at)
			return op
		case 3:
			if len(arrays) > 0 {
				at = arrays[r.Intn(len(arrays))]
				at = append(at[:len(at):len(at)], r.Pick("-1", "x", "99", "-", "1.5", "007x"))
				op.Op = tsonpatch.OpRemove
			}
		case 4:
			op.Op = tsonpatch.OpRemove
			at = append([]string{"nothing"}, at...)
		case 5:
			op.Path = path(r, p, at)
			op.Value = map[string]any{"k": 1.0}
			return op
		}
	case r.P(0.12) && !inArray:
		op.Op = tsonpatch.OpRemove
	case p.wild && r.P(0.3):
		switch r.Intn(6) {
		case 0: // a new key next to it
			at = append(at[:len(at)-1:len(at)-1], r.Pick("new", "extra", "n1", "n2"))
		case 1: // new parents
			at = append(at[:len(at)-1:len(at)-1], r.Pick("sub", "sub2"), r.Pick("deep", "0", "2"), r.Pick("x", "y"))
			if isIndex(at[len(at)-2]) {
				at = at[:len(at)-1]
			}
		case 2, 3: // change the length of an array
			if len(arrays) > 0 {
				a := arrays[r.Intn(len(arrays))]
				if r.P(0.6) {
					a = arrays[p.hot%len(arrays)]
				}
				n, _ := src.Get(ref.Join(a))
				i := r.Intn(len(n.A) + 3)
				if r.P(0.45) && len(n.A) > 0 {
					op.Op = tsonpatch.OpRemove
					i = r.Intn(len(n.A))
				}
				at = append(a[:len(a):len(a)], strconv.Itoa(i))
			}
		case 4: // remove a parent
			if len(inner) > 0 {
				at = inner[r.Intn(len(inner))]
				op.Op = tsonpatch.OpRemove
			}
		case 5: // a leaf in place of a parent
			if len(inner) > 0 && r.P(0.4) {
				at = inner[r.Intn(len(inner))]
			}
		}
	}
	op.Path = path(r, p, at)
	if op.Op != tsonpatch.OpRemove {
		op.Value = genVal(r, kind)
		for _, o := range leaves { // another place whose name looks the same when it is joined
			if len(o) != len(at) && r.P(0.7) && strings.Join(o, "/") == strings.Join(at, "/") {
				if n, ok := src.Get(ref.Join(o)); ok && n.Leaf() {
					op.Value = leafValue(n)
				}
			}
		}
		if f, ok := op.Value.(float64); p.goInts && ok && f == float64(int(f)) && r.P(0.3) {
			op.Value = int(f)
		}
	}
	return op
}

// opText is how a trace carries an operation; goOp reads it back.  A Go int is marked.
func opText(op tsonpatch.Operation) string {
	m := map[string]any{"op": op.Op, "path": op.Path, "timestamp": strconv.FormatInt(op.Timestamp, 10)}
	if i, ok := op.Value.(int); ok {
		m["int"] = i
	} else if op.Value != nil {
		m["value"] = op.Value
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func goOp(s string) tsonpatch.Operation {
	var m struct {
		Op, Path, Timestamp string
		Value               any
		Int                 *int
	}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		panic(err)
	}
	op := tsonpatch.Operation{Op: tsonpatch.OpType(m.Op), Path: m.Path, Value: m.Value}
	op.Timestamp, _ = strconv.ParseInt(m.Timestamp, 10, 64)
	if m.Int != nil {
		op.Value = *m.Int
	}
	return op
}

func goOps(ss []string) tsonpatch.Patch {
	p := make(tsonpatch.Patch, len(ss))
	for i, s := range ss {
		p[i] = goOp(s)
	}
	return p
}

// wire is the JSON document a sender puts on the network, written without the code under test.
func wire(ops []tsonpatch.Operation) string {
	var parts []string
	for _, op := range ops {
		s := fmt.Sprintf(`{"op":%s,"path":%s`, ref.Quote(string(op.Op)), ref.Quote(op.Path))
		if op.Value != nil {
			v, _ := json.Marshal(op.Value)
			s += `,"value":` + string(v)
		}
		parts = append(parts, s+fmt.Sprintf(`,"timestamp":%d}`, op.Timestamp))
	}
	return "[" + strings.Join(parts, ",") + "]"
}

// --- discrete-event simulation of the fleet ---

type item struct {
	at, seq int64
	f       func()
}
type queue []item

func (q queue) Len() int { return len(q) }
func (q queue) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q queue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *queue) Push(x any)   { *q = append(*q, x.(item)) }
func (q *queue) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

// clock is a vehicle's own idea of time.
type clock struct {
	offset, grain int64
	drift         float64
}

func (c *clock) read(now int64) int64 {
	t := now + c.offset + int64(float64(now)*c.drift)
	if c.grain > 1 {
		t -= ((t % c.grain) + c.grain) % c.grain
	}
	return t
}

// fleet simulates vehicles, network, operators and clients, and writes down what they do.
type fleet struct {
	r        *rng
	p        *profile
	tr       *simkit.Trace
	q        queue
	seq, now int64
	msgs     int
	schema   *ref.Node
	state    *ref.Node // of the primary document, for drawing operations that make sense
	stamps   []int64
	partEnd  int64
	limit    int
	lossy    bool
	vers     int // versions that queries ask for
	hot      [][]string
}

func (f *fleet) after(ms int64, fn func()) {
	f.seq++
	heap.Push(&f.q, item{f.now + max(0, ms), f.seq, fn})
}

func (f *fleet) emit(e simkit.Ev) {
	e.At = f.now
	e.RS = f.r.U64() >> 12
	f.tr.Ev = append(f.tr.Ev, e)
}

func (f *fleet) stamp() int64 {
	if len(f.stamps) == 0 || f.r.P(0.05) {
		return []int64{0, -1, 1 << 62, -5000, f.tr.Cfg["epoch"]}[f.r.Intn(5)]
	}
	return f.stamps[f.r.Intn(len(f.stamps))] + int64(f.r.Between(-1, 1))
}

func newFleet(r *rng, p *profile) *fleet {
	own := *p
	p = &own
	p.hot = r.Intn(1000)
	if p.mixed && r.P(0.4) {
		p.wild = true
	}
	f := &fleet{r: r, p: p, tr: &simkit.Trace{Cfg: map[string]int64{}}}
	f.limit = r.Between(p.minEv, p.maxEv)
	if r.P(0.02) { // a long history
		f.limit *= 4
	}
	base := int64(1700000000000)
	if r.P(0.3) {
		base = 0
	}
	switch r.Intn(10) {
	case 0:
		base = 1 << 55
	case 1:
		base = 1763578400123456789 // nanoseconds
	}
	f.now = 0
	f.tr.Cfg["epoch"] = base
	f.schema = genDoc(r, p, func() int64 {
		switch r.Intn(4) {
		case 0:
			return -1
		case 1:
			return 0
		}
		if base == 0 {
			return 0
		}
		return base - int64(r.Intn(100000))
	})
	f.vers = 40
	f.state = f.schema
	f.tr.Init = []string{f.schema.Trace()}
	return f
}

// getOld makes some documents live long: many versions, or versions of many operations.
func (f *fleet) getOld() {
	r := f.r
	if !r.P(0.012) {
		return
	}
	a, b := r.Between(60, 140), r.Between(1, 2)
	switch r.Intn(16) {
	case 0, 1, 2, 3:
		a, b = r.Between(250, 300), 1
	case 4, 5:
		a, b = r.Between(1, 2), r.Between(100, 1100)
	case 6:
		a, b = r.Between(1024, 1100), 1
	}
	f.after(int64(r.Between(300, 6000)), func() {
		f.vers = a + 20
		e := simkit.Ev{Op: "burst", A: int64(a), B: int64(b), T: f.tr.Cfg["epoch"] + f.now, Msg: r.Intn(1000)}
		end := e.A * int64(1+e.Msg%40)
		f.stamps = append(f.stamps, e.T, e.T+end/2, e.T+end*9/10, e.T+end)
		f.emit(e)
	})
}

// network decides what happens to one copy-less message.
type link struct {
	loss, dup, slow float64
	maxDelay        int
}

func (f *fleet) links() link {
	l := link{maxDelay: []int{5, 200, 3000}[f.r.Intn(3)]}
	if f.r.P(0.7) {
		l.loss = []float64{0, 0.05, 0.25}[f.r.Intn(3)]
		l.dup = []float64{0, 0.1, 0.3}[f.r.Intn(3)]
		l.slow = []float64{0, 0.1}[f.r.Intn(2)]
	}
	return l
}

// send delivers over the network, subject to its faults.
func (f *fleet) send(l link, deliver func(copy int), dropped func()) {
	copies := 1
	if f.r.P(l.dup) {
		copies = 2
	}
	for c := 0; c < copies; c++ {
		if f.r.P(l.loss) {
			dropped()
			continue
		}
		d := int64(f.r.Intn(l.maxDelay + 1))
		if f.r.P(l.slow) {
			d *= 20
		}
		if f.now < f.partEnd {
			d += f.partEnd - f.now // held back until the partition heals
		}
		f.after(d, func() { deliver(c) })
	}
}

// run simulates until enough events are written.
func (f *fleet) run() *simkit.Trace {
	for len(f.tr.Ev) < f.limit && len(f.q) > 0 {
		it := heap.Pop(&f.q).(item)
		f.now = it.at
		it.f()
	}
	return f.tr
}

// vehicles start the senders.
func (f *fleet) vehicles(docs int) {
	r, p := f.r, f.p
	l := f.links()
	epoch := f.tr.Cfg["epoch"]
	n := r.Between(1, 4)
	modes := []string{"string", "bytes", "patch", "patches", "ops", "op"}
	for v := 0; v < n; v++ {
		ck := &clock{offset: epoch, grain: []int64{1, 1, 100, 1000}[r.Intn(4)]}
		if p.skew {
			switch r.Intn(4) {
			case 0:
				ck.offset += int64(r.Between(-20000, 20000))
			case 1:
				ck.drift = float64(r.Between(-500, 500)) / 1000
			}
		}
		period := int64(r.Between(50, 1500))
		var sample func()
		sample = func() {
			if p.skew && r.P(0.04) {
				jump := int64(r.Between(-60000, 60000))
				if r.P(0.2) {
					jump = -(epoch + 5000) // falls back to before the epoch
				}
				ck.offset += jump
				f.emit(simkit.Ev{Op: "clockjump", Node: v, A: jump})
			}
			k := 1
			if r.P(0.5) {
				k = r.Between(1, 5)
			}
			if r.P(0.01) { // what was collected while there was no connection
				k = r.Between(10, 40)
			}
			var ops []tsonpatch.Operation
			for i := 0; i < k; i++ {
				ts := ck.read(f.now)
				if !p.skew {
					ts = epoch + f.now
				}
				f.stamps = append(f.stamps, ts)
				op := genOp(r, p, f.state, f.schema, ts)
				ops = append(ops, op)
				if r.P(0.15) { // the same reading again
					op.Timestamp += int64(r.Intn(3))
					ops = append(ops, op)
				}
			}
			f.msgs++
			id := f.msgs
			mode := modes[r.Intn(len(modes))]
			if mode == "op" {
				ops = ops[:1]
			}
			strs := make([]string, len(ops))
			for i, op := range ops {
				if mode == "string" || mode == "bytes" {
					if n, ok := op.Value.(int); ok {
						op.Value = float64(n)
					}
				}
				strs[i] = opText(op)
			}
			for d := 0; d < docs; d++ {
				f.send(l, func(c int) {
					if c > 0 {
						f.emit(simkit.Ev{Op: "msg", Node: d, Msg: id, Strs: strs, Mode: mode, B: 1})
					} else {
						f.emit(simkit.Ev{Op: "msg", Node: d, Msg: id, Strs: strs, Mode: mode})
					}
					if d == 0 {
						for _, op := range ops {
							if s, err := ref.Apply(f.state, op); err == nil {
								f.state = s
							}
						}
					}
				}, func() { f.emit(simkit.Ev{Op: "lost", Node: d, Msg: id}) })
			}
			f.after(period*int64(r.Between(50, 150))/100, sample)
		}
		f.after(int64(r.Intn(1000)), sample)
	}
	if r.P(0.4) {
		var part func()
		part = func() {
			f.partEnd = f.now + int64(r.Between(500, 6000))
			f.emit(simkit.Ev{Op: "partition", A: f.partEnd - f.now})
			f.after(int64(r.Between(8000, 30000)), part)
		}
		f.after(int64(r.Between(500, 8000)), part)
	}
	// the operator turns what was received into versions
	for d := 0; d < docs; d++ {
		mean := p.appendMs
		if mean == 0 {
			mean = 600
		}
		var app func()
		app = func() {
			f.emit(simkit.Ev{Op: "append", Node: d})
			f.after(int64(r.Between(mean/3, mean*5/3)), app)
		}
		f.after(int64(r.Between(100, mean*2)), app)
	}
}

// target draws a path for Compact and History.
func (f *fleet) target() string {
	r := f.r
	leaves, inner, arrays := places(f.state)
	switch {
	case r.P(0.1):
		return r.Pick("", "/")
	case r.P(0.1):
		return r.Pick("/none", "/Spee", "/a")
	case r.P(0.25) && len(arrays) > 0:
		at := arrays[r.Intn(len(arrays))]
		return path(r, f.p, append(at[:len(at):len(at)], r.Pick("0", "1", "1", "01")))
	case r.P(0.4) && len(inner) > 0:
		return path(r, f.p, inner[r.Intn(len(inner))])
	case len(leaves) > 0:
		return path(r, f.p, leaves[r.Intn(len(leaves))])
	}
	return "/"
}

// clients start the queries.
func (f *fleet) clients() {
	r, p := f.r, f.p
	var names []string
	var w []int
	for _, k := range simkit.SortedKeys(p.weights) {
		names = append(names, k)
		w = append(w, p.weights[k])
	}
	if len(names) == 0 {
		return
	}
	var act func()
	act = func() {
		node := 0
		if r.P(0.4) {
			node = r.Intn(6)
		}
		e := simkit.Ev{Op: names[r.Weighted(w)], Node: node, A: int64(r.Intn(f.vers)), B: int64(r.Intn(f.vers))}
		switch e.Op {
		case "misuse":
			e.B = int64(r.Intn(64))
			e.T = f.stamp()
		case "tsnap":
			e.T = f.stamp()
		case "ttrack", "tslice":
			e.A, e.B = f.stamp(), f.stamp()
			if e.A > e.B {
				e.A, e.B = e.B, e.A
			}
		case "compact", "history":
			e.Path = f.target()
		case "set", "testset":
			op := genOp(r, p, f.state, f.schema, f.tr.Cfg["epoch"]+f.now)
			if r.P(0.4) { // what is there already
				if leaves, _, _ := places(f.state); len(leaves) > 0 {
					at := ref.Join(leaves[r.Intn(len(leaves))])
					if n, _ := f.state.Get(at); n.Leaf() {
						op = tsonpatch.Operation{Op: tsonpatch.OpReplace, Path: at, Timestamp: op.Timestamp, Value: leafValue(n)}
						if r.P(0.3) { // or almost
							op.Value = near(r, n, p.goInts)
						}
					}
				}
			}
			e.Strs = []string{opText(op)}
			if node == 0 && (op.Op == tsonpatch.OpAdd || op.Op == tsonpatch.OpReplace) {
				if s, err := ref.Apply(f.state, op); err == nil {
					f.state = s
				}
			}
		case "reuse":
			e.Msg = r.Intn(f.msgs + 1)
		case "create": // with patches that are handed over at once
			f.msgs++
			e.Msg = f.msgs
			e.Mode = r.Pick("string", "bytes", "patch", "patches", "ops", "op")
			state := f.state
			for range r.Intn(5) {
				op := genOp(r, p, state, f.schema, f.stamp())
				if s, err := ref.Apply(state, op); err == nil {
					state = s
					if n, ok := op.Value.(int); ok && (e.Mode == "string" || e.Mode == "bytes") {
						op.Value = float64(n)
					}
					e.Strs = append(e.Strs, opText(op))
				}
			}
		}
		f.emit(e)
		f.after(int64(r.Between(20, 900)), act)
	}
	f.after(int64(r.Between(200, 2000)), act)
}

func leafValue(n *ref.Node) any {
	switch n.K {
	case ref.Str:
		return n.S
	case ref.Bool:
		return n.B
	}
	return n.F
}

// near gives a value that is almost that of a leaf.
func near(r *rng, n *ref.Node, goInts bool) any {
	switch n.K {
	case ref.Str:
		return r.Pick(n.S+" ", strings.ToLower(n.S), strings.ToUpper(n.S), strings.TrimRight(n.S, "N"), n.S+"\x00")
	case ref.Bool:
		return !n.B
	}
	if f := math.Trunc(n.F); goInts && math.Abs(f) < 1e15 && r.P(0.6) {
		return int(f)
	}
	if math.Abs(n.F) > 1e300 {
		return n.F / 2
	}
	return []float64{n.F + 0.5, n.F * (1 + 1e-15), n.F + 1e-9, -n.F, math.Floor(n.F)}[r.Intn(5)]
}

func genFleet(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		docs := 1
		if p.standby {
			docs = 2
			f.tr.Cfg["standby"] = 1
		}
		if p.strict {
			f.tr.Cfg["strict"] = 1
		}
		f.getOld()
		f.vehicles(docs)
		if p.replicas > 0 {
			f.replicaEvents(r.Between(1, p.replicas))
		}
		f.clients()
		return f.run()
	}
}
