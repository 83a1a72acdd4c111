package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C14: the link damages what it carries.

// damage applies the fault of an event to a text.
func damage(c *Ctx, s string, e Ev) (out string, cut bool) {
	r := simkit.NewRng(uint64(e.A))
	b := []byte(s)
	if len(b) == 0 {
		return s, false
	}
	at := r.Intn(len(b))
	kind := ""
	switch e.B % 9 {
	case 0, 1:
		kind, b, cut = "truncated", b[:at], true
	case 2:
		kind = "bit_flip"
		b[at] ^= 1 << r.Intn(8)
	case 3:
		kind, cut = "zeroed_tail", true
		for i := at; i < len(b); i++ {
			b[i] = 0
		}
	case 4:
		kind = "lost_byte"
		b = append(b[:at], b[at+1:]...)
	case 5:
		kind = "repeated_chunk"
		end := at + r.Intn(len(b)-at+1)
		b = append(b[:end:end], append(append([]byte(nil), b[at:end]...), b[end:]...)...)
	case 6:
		kind = "garbage"
		junk := r.Pick("{", "}", "[", "]", "<", ">", "<>", "\"", "\\", ",", ":", "-", "1e999", "null", "\\u", "\\ud83d", "<99999999999999999999>", "\x00", "\xff", "true", " ", "tru", "0x1", "<-1>", "<1.5>", "nul", "fals", "e", "--1", "\"\\", "\\u12")
		b = append(b[:at:at], append([]byte(junk), b[at:]...)...)
		if r.P(0.3) {
			b = b[:at+len(junk)]
		}
	case 7:
		kind = "swapped_bytes"
		j := r.Intn(len(b))
		b[at], b[j] = b[j], b[at]
	case 8:
		kind = "several"
		for k := r.Between(2, 6); k > 0; k-- {
			b[r.Intn(len(b))] = "{}[]<>\",:\\0-e. tnf"[r.Intn(18)]
		}
	}
	c.Fault(kind)
	return string(b), cut
}

// variant writes a document in another way that means the same.
func variant(n *node, r *rng) string {
	var b strings.Builder
	ws := func() {
		if r.P(0.3) {
			b.WriteString(r.Pick(" ", "\n", "\t", "  ", "\r\n"))
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		for _, c := range s {
			switch {
			case r.P(0.1) && c < 0x10000:
				fmt.Fprintf(&b, `\u%04x`, c)
			case r.P(0.5) && c >= 0x10000:
				c -= 0x10000
				fmt.Fprintf(&b, `\u%04X\u%04x`, 0xd800+c>>10, 0xdc00+c&0x3ff)
			case c == '/' && r.P(0.3):
				b.WriteString(`\/`)
			default:
				q := ref.Quote(string(c))
				b.WriteString(q[1 : len(q)-1])
			}
		}
		b.WriteByte('"')
	}
	prim := func(n *node) {
		if n.K == ref.Str {
			str(n.S)
		} else {
			t := n.Text()
			b.WriteString(strings.TrimSpace(t[:strings.IndexByte(t+"<", '<')]))
		}
	}
	stamp := func(n *node) {
		if n.TS < 0 {
			b.WriteString(r.Pick("", "<>"))
		} else {
			fmt.Fprintf(&b, "<%d>", n.TS)
		}
	}
	var w func(n *node)
	w = func(n *node) {
		ws()
		switch n.K {
		case ref.Obj:
			b.WriteByte('{')
			for i, k := range n.Keys() {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				str(k)
				ws()
				if n.O[k].Leaf() {
					stamp(n.O[k])
					ws()
				}
				b.WriteByte(':')
				w(n.O[k])
			}
			ws()
			b.WriteByte('}')
		case ref.Arr:
			b.WriteByte('[')
			for i, c := range n.A {
				if i > 0 {
					b.WriteByte(',')
				}
				ws()
				if c.Leaf() {
					stamp(c)
				}
				w(c)
			}
			ws()
			b.WriteByte(']')
		default:
			prim(n)
		}
		ws()
	}
	w(n)
	return b.String()
}

func execHostile(c *Ctx, tr *simkit.Trace) {
	w := newWorld(c, tr)
	d := w.newDoc("doc", parseInit(tr.Init[0]), tr.Run)
	for i, e := range tr.Ev {
		c.Step = i
		c.SimMs = max(c.SimMs, e.At)
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "badpatch":
			w.badPatch(d, e)
		case "baddoc":
			w.badDoc(d, e)
		case "variant":
			text := variant(normTS(d.cur), simkit.NewRng(uint64(e.A)))
			var t tson.Tson
			var err error
			c.Must("Unmarshal", func() { err = tson.Unmarshal([]byte(text), &t) })
			c.Check(err == nil, "well-formed", "%q was refused: %v", text, err)
			diff := ref.Diff(ref.From(t), normTS(d.cur), true)
			c.Check(diff == "", "well-formed", "%q: %s", text, diff)
			c.Probe("well_formed_variant")
		default:
			w.exec(e)
		}
		c.Log("%s %d %x", e.Op, d.latest, d.cur.Hash())
	}
	c.Step = len(tr.Ev)
	w.snapshots(d)
}

func (w *world) noCrash(what, text string, f func()) bool {
	msg, panicked := w.c.Try(f)
	w.c.Check(!strings.HasPrefix(msg, "runtime error"), "crash", "%s of %q: %s", what, text, msg)
	return panicked
}

// badPatch delivers a damaged patch.
func (w *world) badPatch(d *doc, e Ev) {
	c := w.c
	text, cut := damage(c, wire(goOps(e.Strs)), e)
	var p tsonpatch.Patch
	var err error
	w.noCrash("tsonpatch.Unmarshal", text, func() { p, err = tsonpatch.Unmarshal([]byte(text)) })
	// what the text says, if it still is a patch
	var raw []struct {
		Op        tsonpatch.OpType
		Path      string
		Value     any
		Timestamp int64
	}
	jsonErr := json.Unmarshal([]byte(text), &raw)
	if cut {
		c.Check(err != nil, "torn-accepted", "the damaged patch %q was read as %v", text, p)
	}
	c.Check((err != nil) == (jsonErr != nil), "patch-read", "%q: read error %v, but as JSON %v", text, err, jsonErr)
	if err == nil {
		c.Check(len(p) == len(raw), "patch-read", "%q was read as %v", text, p)
		for i := range p {
			r := raw[i]
			c.Check(reflect.DeepEqual(p[i], tsonpatch.Operation{Op: r.Op, Path: r.Path, Value: r.Value, Timestamp: r.Timestamp}), "patch-read", "%q was read as %v", text, p)
		}
		c.Probe("damage_undetected_by_syntax")
	}
	// on a document that is thrown away
	var tmp *logument.Logument
	c.Must("NewLogument", func() { tmp = logument.NewLogument(d.cur.Tson(), nil) })
	store := func(l *logument.Logument) bool {
		return w.noCrash("Store", text, func() {
			if e.Node%2 == 0 {
				l.Store(text)
			} else {
				l.Store([]byte(text))
			}
		})
	}
	refused := store(tmp)
	c.Check(refused == (err != nil), "patch-store", "%q: stored %v, read error %v", text, !refused, err)
	if refused {
		c.Probe("damage_refused")
		c.Check(store(d.real), "patch-store", "%q was refused once and then stored", text)
		w.verify(d)
		return
	}
	cur := d.cur
	for _, op := range p {
		if hugeIndex(op.Path) {
			return
		}
		if n, err := ref.Apply(cur, op); err == nil {
			cur = n
		}
	}
	diff := ref.Diff(ref.From(tmp.CurrentState), cur, true)
	c.Check(diff == "", "patch-store", "after storing %q: %s", text, diff)
	diff = sameOps(tmp.PatchPool, ops(p))
	c.Check(diff == "", "patch-store", "after storing %q: pending %s", text, diff)
	w.verify(d)
}

func hugeIndex(path string) bool {
	for _, s := range ref.Split(path) {
		if len(s) > 3 && isIndex(s) || strings.HasPrefix(s, "+") {
			return true
		}
	}
	return false
}

// badDoc delivers a damaged document.
func (w *world) badDoc(d *doc, e Ev) {
	c := w.c
	forms := []struct {
		name, text string
		read       func(b []byte, t *tson.Tson) error
		write      func(t tson.Tson) ([]byte, error)
		norm       func(n *node) *node
	}{
		{"tson.Unmarshal", normTS(d.cur).Text(), tson.Unmarshal, tson.Marshal, normTS},
		{"FromCompatibleTsonBytes", compat(d.cur), tson.FromCompatibleTsonBytes, tson.ToCompatibleTsonBytes, func(n *node) *node { return n }},
		{"FromJsonBytes", d.cur.JSON(), tson.FromJsonBytes, nil, nil},
		{"tson.Unmarshal", normTS(d.cur).Text(), tson.Unmarshal, func(t tson.Tson) ([]byte, error) { return tson.MarshalIndent(t, "", "\t") }, normTS},
	}
	f := forms[e.Node%len(forms)]
	text, cut := damage(c, f.text, e)
	marker := tson.Tson(tson.Leaf[string]{Value: "untouched", Timestamp: 42})
	t := marker
	var err error
	panicked := w.noCrash(f.name, text, func() { err = f.read([]byte(text), &t) })
	c.Check(!panicked, "crash", "%s of %q panicked", f.name, text)
	if cut {
		c.Check(err != nil, "torn-accepted", "%s accepted the damaged document %q", f.name, text)
	}
	if err != nil {
		c.Probe("damage_refused")
		c.Check(reflect.DeepEqual(t, marker), "touched", "%s refused %q, but stored %v", f.name, text, t)
	} else if f.write != nil && utf8.ValidString(text) && !strings.Contains(text, `\ud`) && !leafLike(ref.From(t)) {
		c.Probe("damage_undetected_by_syntax")
		want := ref.From(t)
		b, werr := f.write(t)
		c.Check(werr == nil, "reread", "%s read %q, which cannot be written: %v", f.name, text, werr)
		var again tson.Tson
		w.noCrash(f.name, string(b), func() { werr = f.read(b, &again) })
		c.Check(werr == nil, "reread", "%s read %q, written as %q, which is refused: %v", f.name, text, b, werr)
		diff := ref.Diff(ref.From(again), f.norm(want), true)
		c.Check(diff == "", "reread", "%s read %q, written as %q: %s", f.name, text, b, diff)
	}
	if strings.HasPrefix(f.name, "tson.") {
		refused := w.noCrash("NewLogument", text, func() { logument.NewLogument(text, nil) })
		c.Check(refused == (err != nil), "doc-new", "%q: document made %v, read error %v", text, !refused, err)
		refused = w.noCrash("NewLogument", text, func() { logument.NewLogument([]byte(text), nil) })
		c.Check(refused == (err != nil), "doc-new", "the bytes %q: document made %v, read error %v", text, !refused, err)
	}
	w.verify(d)
}

// leafLike finds objects that the compatible form cannot tell from leaves.
func leafLike(n *node) bool {
	if n.K == ref.Obj && n.O["value"] != nil && n.O["timestamp"] != nil {
		return true
	}
	for _, c := range n.O {
		if leafLike(c) {
			return true
		}
	}
	for _, c := range n.A {
		if leafLike(c) {
			return true
		}
	}
	return false
}

// compat writes the compatible form.
func compat(n *node) string {
	switch n.K {
	case ref.Obj:
		var s []string
		for _, k := range n.Keys() {
			s = append(s, ref.Quote(k)+":"+compat(n.O[k]))
		}
		return "{" + strings.Join(s, ",") + "}"
	case ref.Arr:
		var s []string
		for _, c := range n.A {
			s = append(s, compat(c))
		}
		return "[" + strings.Join(s, ",") + "]"
	case ref.Null:
		return "null"
	}
	return fmt.Sprintf(`{"timestamp":%d,"value":%s}`, n.TS, n.JSON())
}

func genHostile(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		f.getOld()
		f.vehicles(1)
		var act func()
		act = func() {
			a, b, n := int64(r.U64()>>40), int64(r.Intn(9)), r.Intn(4)
			switch k := r.Intn(10); {
			case k < 4:
				var strs []string
				for i := r.Intn(3); i >= 0; i-- {
					op := genOp(r, p, f.state, f.schema, f.now)
					if v, ok := op.Value.(int); ok {
						op.Value = float64(v)
					}
					strs = append(strs, opText(op))
				}
				f.emit(simkit.Ev{Op: "badpatch", Node: n, A: a, B: b, Strs: strs})
			case k < 9:
				f.emit(simkit.Ev{Op: "baddoc", Node: n, A: a, B: b})
			default:
				f.emit(simkit.Ev{Op: "variant", A: a})
			}
			f.after(int64(r.Between(10, 100)), act)
		}
		f.after(0, act)
		return f.run()
	}
}
