package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/verifsim/ref"
	"github.com/CAU-CPSS/logument/internal/verifsim/simkit"
)

// C25: documents travel through gateways, each of which converts them into another form.

// form is one of the ways a document can be held.
type form byte

const (
	fStruct form = 'S' // tson.Tson
	fText   form = 'T' // TSON syntax
	fBytes  form = 'C' // compatible bytes
	fAny    form = 'A' // compatible value
	fJson   form = 'J' // JSON bytes
	fJsonV  form = 'K' // JSON value
	fPlain  form = 'P' // TSON syntax without timestamps
)

// cargo is what a message carries, and what it has to mean.
type cargo struct {
	form   form
	val    any
	means  *node
	shared bool // somebody else holds it, too
}

type gateways struct {
	w     *world
	local *node
	sent  map[int]*cargo
	orig  map[int]*cargo // as published
	names map[int]string // the conversions on the way
	cons  []struct {
		id    int
		has   tson.Tson
		means *node
	}
}

// plain drops the timestamps.
func plain(n *node) *node {
	switch {
	case n.Leaf():
		m := *n
		m.TS = tson.DefaultTimestamp
		return &m
	case n.K == ref.Obj:
		o := map[string]*node{}
		for k, c := range n.O {
			o[k] = plain(c)
		}
		return &node{K: ref.Obj, O: o}
	case n.K == ref.Arr:
		a := make([]*node, len(n.A))
		for i, c := range n.A {
			a[i] = plain(c)
		}
		return &node{K: ref.Arr, A: a}
	}
	return n
}

// ambiguous says whether a JSON value looks like one of the compatible form.
func ambiguous(n *node) bool {
	ts := n.O["timestamp"]
	found := len(n.O) == 2 && n.O["value"] != nil && ts != nil && ts.K == ref.Num
	for _, c := range n.O {
		found = found || ambiguous(c)
	}
	for _, c := range n.A {
		found = found || ambiguous(c)
	}
	return found
}

// exact says whether a float64 holds all timestamps.
func exact(n *node) bool {
	ok := true
	n.EachLeaf(func(_ string, l *node) { ok = ok && l.TS <= 1<<53 && l.TS >= -1<<53 })
	return ok
}

// stampOf is the timestamp a JSON value says, if it is one.
func stampOf(v any) *int64 {
	switch v := v.(type) {
	case float64:
		t := int64(v)
		return &t
	case json.Number:
		if t, err := v.Int64(); err == nil {
			return &t
		}
	}
	return nil
}

// fromJSON reads what encoding/json made of a document; with stamps, leaves are value and timestamp.
func fromJSON(v any, stamps bool) (*node, error) {
	switch v := v.(type) {
	case nil:
		return ref.NullNode, nil
	case map[string]any:
		ts, x := stampOf(v["timestamp"]), v["value"]
		if stamps && len(v) == 2 && ts != nil && x != nil {
			if num, ok := x.(json.Number); ok {
				x, _ = num.Float64()
			}
			n, ok := ref.LeafOf(x, *ts)
			if !ok {
				return nil, fmt.Errorf("not a leaf: %v", v)
			}
			return n, nil
		}
		o := map[string]*node{}
		for k, c := range v {
			n, err := fromJSON(c, stamps)
			if err != nil {
				return nil, err
			}
			o[k] = n
		}
		return &node{K: ref.Obj, O: o}, nil
	case []any:
		a := make([]*node, len(v))
		for i, c := range v {
			n, err := fromJSON(c, stamps)
			if err != nil {
				return nil, err
			}
			a[i] = n
		}
		return &node{K: ref.Arr, A: a}, nil
	}
	if num, ok := v.(json.Number); ok {
		v, _ = num.Float64()
	}
	n, ok := ref.LeafOf(v, tson.DefaultTimestamp)
	if stamps || !ok {
		return nil, fmt.Errorf("not a leaf: %v", v)
	}
	return n, nil
}

func readJSON(b []byte, stamps bool) (*node, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	return fromJSON(v, stamps)
}

// readTSON reads the TSON syntax, with or without timestamps.
func readTSON(b []byte, stamps bool) (n *node, err error) {
	s := string(b)
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(runtime.Error); ok {
				panic(e)
			}
			err = fmt.Errorf("%v", e)
		}
	}()
	ws := func() { s = strings.TrimLeft(s, " \t\r\n") }
	eat := func(x string) bool {
		ws()
		if strings.HasPrefix(s, x) {
			s = s[len(x):]
			return true
		}
		return false
	}
	need := func(x string) {
		if !eat(x) {
			panic(fmt.Sprintf("%q expected before %.20q", x, s))
		}
	}
	str := func() string {
		d := json.NewDecoder(strings.NewReader(s))
		var x string
		if err := d.Decode(&x); err != nil {
			panic(err)
		}
		s = s[d.InputOffset():]
		return x
	}
	stamp := func() (int64, bool) {
		if !eat("<") {
			return -1, false
		}
		if eat(">") {
			return -1, true
		}
		i := strings.IndexByte(s+">", '>')
		ts, err := strconv.ParseUint(s[:i], 10, 63)
		if err != nil {
			panic(err)
		}
		s = s[i:]
		need(">")
		return int64(ts), true
	}
	var val func(depth int) *node
	leaf := func(v any) *node { l, _ := ref.LeafOf(v, -1); return l }
	val = func(depth int) *node {
		ws()
		switch {
		case eat("{"):
			o := map[string]*node{}
			for first := true; !eat("}"); first = false {
				if !first {
					need(",")
				}
				ws()
				k := str()
				if _, twice := o[k]; twice {
					panic("the key " + k + " comes twice")
				}
				ts, stamped := stamp()
				need(":")
				c := val(depth + 1)
				if (stamps && c.Leaf()) != stamped {
					panic("a timestamp is missing or superfluous at " + k)
				}
				if stamped {
					c.TS = ts
				}
				o[k] = c
			}
			return &node{K: ref.Obj, O: o}
		case eat("["):
			a := []*node{}
			for first := true; !eat("]"); first = false {
				if !first {
					need(",")
				}
				ts, stamped := stamp()
				c := val(depth + 1)
				if (stamps && c.Leaf()) != stamped {
					panic("a timestamp is missing or superfluous in an array")
				}
				if stamped {
					c.TS = ts
				}
				a = append(a, c)
			}
			return &node{K: ref.Arr, A: a}
		case eat("null"):
			return ref.NullNode
		}
		var n *node
		switch {
		case eat("true"):
			n = leaf(true)
		case eat("false"):
			n = leaf(false)
		case s != "" && s[0] == '"':
			n = leaf(str())
		default:
			i := 0
			for i < len(s) && strings.IndexByte("+-.0123456789eE", s[i]) >= 0 {
				i++
			}
			f, err := strconv.ParseFloat(s[:i], 64)
			if err != nil {
				panic(err)
			}
			s = s[i:]
			n = leaf(f)
		}
		if depth == 0 {
			ts, stamped := stamp()
			if stamps != stamped {
				panic("a timestamp is missing or superfluous")
			}
			n.TS = ts
		}
		return n
	}
	n = val(0)
	if ws(); s != "" {
		return nil, fmt.Errorf("%.20q after the document", s)
	}
	return n, nil
}

// sortedKeys says whether the keys of all objects of a JSON text come in order.
func sortedKeys(b []byte) bool {
	d := json.NewDecoder(bytes.NewReader(b))
	var val func() bool
	val = func() bool {
		t, err := d.Token()
		if err != nil {
			return false
		}
		switch t {
		case json.Delim('{'):
			var keys []string
			for d.More() {
				k, _ := d.Token()
				s, _ := k.(string)
				keys = append(keys, s)
				if !val() {
					return false
				}
			}
			d.Token()
			return sort.StringsAreSorted(keys)
		case json.Delim('['):
			for d.More() {
				if !val() {
					return false
				}
			}
			d.Token()
		}
		return true
	}
	return val()
}

// hop is one conversion.
type hop struct {
	name string
	to   form
	f    func(in any) (any, error)
}

func fromStruct(f func(t tson.Tson) (any, error)) func(any) (any, error) {
	return func(in any) (any, error) { t, _ := in.(tson.Tson); return f(t) }
}

func toStruct(f func(in any, t *tson.Tson) error) func(any) (any, error) {
	return func(in any) (any, error) { var t tson.Tson; err := f(in, &t); return t, err }
}

// hops are the conversions a gateway can make of a document.
func hops(from form, a int64, means *node) []hop {
	keepA := exact(means)
	prefix, indent := []string{"", "", "\t"}[a%3], []string{"  ", "\t", "", "    "}[a/3%4]
	switch from {
	case fStruct:
		hs := []hop{
			{"Marshal", fText, fromStruct(func(t tson.Tson) (any, error) { return tson.Marshal(t) })},
			{"MarshalIndent", fText, fromStruct(func(t tson.Tson) (any, error) { return tson.MarshalIndent(t, prefix, indent) })},
			{"ToCompatibleTsonBytes", fBytes, fromStruct(func(t tson.Tson) (any, error) { return tson.ToCompatibleTsonBytes(t) })},
			{"ToCompatibleTsonBytesSorted", fBytes, fromStruct(func(t tson.Tson) (any, error) { return tson.ToCompatibleTsonBytesSorted(t) })},
			{"ToCompatibleTsonString", fBytes, fromStruct(func(t tson.Tson) (any, error) { return []byte(tson.ToCompatibleTsonString(t)), nil })},
			{"ToAny", fStruct, fromStruct(func(t tson.Tson) (any, error) { return tson.ToAny(t), nil })},
			{"ToJsonBytes", fJson, fromStruct(func(t tson.Tson) (any, error) { return tson.ToJsonBytes(t) })},
			{"ToJson", fJsonV, fromStruct(func(t tson.Tson) (v any, err error) { err = tson.ToJson(t, &v); return })},
		}
		if keepA {
			hs = append(hs, hop{"ToCompatibleTson", fAny, fromStruct(func(t tson.Tson) (v any, err error) { err = tson.ToCompatibleTson(t, &v); return })})
		}
		return hs
	case fText, fPlain:
		return []hop{{"Unmarshal", fStruct, toStruct(func(in any, t *tson.Tson) error { return tson.Unmarshal(in.([]byte), t) })}}
	case fBytes:
		hs := []hop{{"FromCompatibleTsonBytes", fStruct, toStruct(func(in any, t *tson.Tson) error { return tson.FromCompatibleTsonBytes(in.([]byte), t) })}}
		if keepA {
			hs = append(hs, hop{"json.Unmarshal", fAny, func(in any) (v any, err error) { err = json.Unmarshal(in.([]byte), &v); return }})
		}
		return hs
	case fAny:
		return []hop{
			{"json.Marshal", fBytes, func(in any) (any, error) { return json.Marshal(in) }},
			{"MarshalIndent of the compatible value", fText, func(in any) (any, error) { return tson.MarshalIndent(in, prefix, indent) }},
		}
	case fJson:
		return []hop{
			{"FromJsonBytes", fStruct, toStruct(func(in any, t *tson.Tson) error { return tson.FromJsonBytes(in.([]byte), t) })},
			{"json.Unmarshal", fJsonV, func(in any) (v any, err error) { err = json.Unmarshal(in.([]byte), &v); return }},
		}
	}
	hs := []hop{
		{"FromJson", fStruct, toStruct(tson.FromJson)},
		{"json.Marshal", fJson, func(in any) (any, error) { return json.Marshal(in) }},
	}
	if !ambiguous(means) {
		hs = append(hs, hop{"MarshalIndent of the JSON value", fPlain, func(in any) (any, error) { return tson.MarshalIndent(in, prefix, indent) }})
	}
	return hs
}

// meaning reads what a form says, without the code under test.
func meaning(f form, v any) (*node, error) {
	switch f {
	case fText:
		return readTSON(v.([]byte), true)
	case fPlain:
		return readTSON(v.([]byte), false)
	case fBytes:
		return readJSON(v.([]byte), true)
	case fAny:
		return fromJSON(v, true)
	case fJson:
		return readJSON(v.([]byte), false)
	case fJsonV:
		return fromJSON(v, false)
	}
	if v == nil {
		return ref.NullNode, nil
	}
	t, ok := v.(tson.Tson)
	if !ok {
		return nil, fmt.Errorf("not a TSON document: %T", v)
	}
	return ref.From(t), nil
}

// scribble overwrites a value in place, as its owner may.
func scribble(v any) {
	switch v := v.(type) {
	case []byte:
		for i := range v {
			v[i] = 'x'
		}
	case map[string]any:
		for _, c := range v {
			scribble(c)
		}
		for _, k := range simkit.SortedKeys(v) {
			v[k] = "scribbled"
		}
		v["scribbled"] = true
	case []any:
		for i, c := range v {
			scribble(c)
			v[i] = "scribbled"
		}
	case tson.Object:
		for _, k := range simkit.SortedKeys(v) {
			scribble(v[k])
			v[k] = tson.Leaf[string]{Value: "scribbled"}
		}
		v["scribbled"] = nil
	case tson.Array:
		for i, c := range v {
			scribble(c)
			v[i] = nil
		}
	}
}

func (g *gateways) check(when string, k *cargo, path string) {
	n, err := meaning(k.form, k.val)
	c := g.w.c
	c.Check(err == nil, "unreadable", "%s (%s): %v: %.300s", when, path, err, show(k.val))
	d := ref.Diff(n, k.means, true)
	c.Check(d == "", "meaning", "%s (%s): %s: %.300s", when, path, d, show(k.val))
}

func show(v any) string {
	if b, ok := v.([]byte); ok {
		return string(b)
	}
	return fmt.Sprintf("%#v", v)
}

func (g *gateways) publish(e Ev) {
	n := g.local
	if leaves, inner, _ := places(g.local); e.B > 0 { // only a part of it, in whatever form it has
		at := append(leaves, inner...)
		if len(at) > 0 {
			n = below(n, at[int(e.B)%len(at)])
		}
	}
	if n.K != ref.Obj {
		g.w.c.Probe("root_is_not_an_object")
	}
	g.orig[e.Msg] = &cargo{fStruct, n.Tson(), n, true}
	if n.K == ref.Null {
		g.orig[e.Msg].val = tson.Tson(nil)
	}
	g.sent[e.Msg] = g.orig[e.Msg]
	g.names[e.Msg] = "published"
}

func (g *gateways) hop(e Ev) {
	c, k := g.w.c, g.sent[e.Msg]
	if k == nil {
		return
	}
	hs := hops(k.form, e.A, k.means)
	h := hs[int(e.B)%len(hs)]
	out := g.convert(k, h, g.names[e.Msg])
	g.names[e.Msg] += ", " + h.name
	c.Probe("hop_" + h.name)
	// nobody's copy depends on anybody else's
	if h.to == fStruct && k.form == fStruct {
		out.shared = k.shared
		g.sent[e.Msg] = out
		return
	}
	again := g.convert(k, h, g.names[e.Msg]+" again")
	scribble(again.val)
	g.check("after another copy was overwritten", out, g.names[e.Msg])
	g.check("the source, after a copy was overwritten", k, g.names[e.Msg])
	if e.A%5 == 0 && !k.shared { // this gateway was the only owner
		scribble(k.val)
		g.check("after its source was overwritten", out, g.names[e.Msg])
	}
	g.sent[e.Msg] = out
}

func (g *gateways) convert(k *cargo, h hop, path string) *cargo {
	c := g.w.c
	out := &cargo{form: h.to, means: k.means}
	switch {
	case h.to == fText:
		out.means = normTS(k.means)
	case h.to == fJson || h.to == fJsonV || h.to == fPlain || k.form == fPlain || k.form == fJson || k.form == fJsonV:
		out.means = plain(k.means)
	}
	var err error
	c.Must(h.name, func() { out.val, err = h.f(k.val) })
	c.Check(err == nil, "refused", "%s of %.300s (%s): %v", h.name, show(k.val), path, err)
	g.check("what "+h.name+" gives", out, path)
	g.check("the source of "+h.name, k, path)
	if strings.HasSuffix(h.name, "Sorted") {
		c.Check(sortedKeys(out.val.([]byte)), "unsorted", "%s gives %s", h.name, out.val)
	}
	return out
}

// settle brings a cargo back into the form of a document.
func (g *gateways) settle(k *cargo, path string) (tson.Tson, *node) {
	for i := int64(0); k.form != fStruct; i++ {
		h := hops(k.form, i, k.means)[0]
		k = g.convert(k, h, path)
		path += ", " + h.name
	}
	t, _ := k.val.(tson.Tson)
	return t, k.means
}

func (g *gateways) consume(e Ev) {
	k := g.sent[e.Msg]
	cons := &g.cons[e.Node%len(g.cons)]
	if k == nil {
		return
	}
	if e.Msg <= cons.id {
		if e.Msg < cons.id {
			g.w.c.Fault("message_reordered")
		}
		return
	}
	cons.has, cons.means = g.settle(k, g.names[e.Msg])
	cons.id = e.Msg
	k.shared = true
	g.judge(cons.has, cons.means)
}

// judge asks about a document what can be asked.
func (g *gateways) judge(t tson.Tson, n *node) {
	c := g.w.c
	latest, stamped := int64(-1), false
	n.EachLeaf(func(_ string, l *node) {
		if l.Leaf() && l.TS >= 0 {
			latest, stamped = max(latest, l.TS), true
		}
	})
	var got int64
	c.Must("GetLatestTimestamp", func() { got = tson.GetLatestTimestamp(t) })
	c.Check(stamped && got == latest || !stamped && got < 0, "latest", "the latest timestamp of %s is given as %d", n.Text(), got)
	if n.K == ref.Arr {
		leaves := true
		want := []any{}
		for _, x := range n.A {
			leaves = leaves && x.Leaf()
			want = append(want, leafValue(x))
		}
		var arr []any
		var err error
		c.Must("ToArray", func() { arr, err = tson.ToArray(t.(tson.Array)) })
		if leaves {
			c.Check(err == nil && len(arr) == len(want), "array", "%s as a slice is %v, %v", n.Text(), arr, err)
			for i := range arr {
				c.Check(arr[i] == want[i], "array", "%s as a slice is %v", n.Text(), arr)
			}
		}
	}
}

// alter makes a near copy of a document.
func alter(n *node, e Ev) *node {
	leaves, inner, arrays := places(n)
	all := append(append([][]string{}, leaves...), inner...)
	set := func(at []string, f func(*node) *node) *node { return rewrite(n, at, f) }
	pick := func(xs [][]string) []string { return xs[int(e.A)%len(xs)] }
	var leaf []string
	if len(leaves) > 0 {
		leaf = pick(leaves)
	}
	switch e.B % 9 {
	case 0:
		return normTS(n)
	case 1:
		return plain(n)
	case 2, 3: // a single clock tick later
		if leaf != nil {
			if m := retime(n, leaf, int64(1)); m != nil {
				return m
			}
		}
	case 4: // the same text, of another type
		if leaf != nil {
			return set(leaf, func(l *node) *node {
				if l.K == ref.Str {
					return &node{K: ref.Num, TS: l.TS}
				}
				if !l.Leaf() {
					return &node{K: ref.Str, TS: -1, S: "null"}
				}
				return &node{K: ref.Str, S: strings.TrimSpace(fmt.Sprint(leafValue(l))), TS: l.TS}
			})
		}
	case 5: // something empty
		if len(all) > 0 {
			return set(pick(all), func(*node) *node {
				return []*node{ref.NullNode, {K: ref.Obj, O: map[string]*node{}}, {K: ref.Arr}, {K: ref.Str, TS: e.T}, {K: ref.Num, TS: e.T}}[e.A%5]
			})
		}
	case 6: // a null more
		return set(nil, func(r *node) *node {
			if r.K == ref.Obj {
				return withKey(r, "more", ref.NullNode)
			}
			return r
		})
	case 7: // another order
		if len(arrays) > 0 {
			return set(pick(arrays), func(a *node) *node {
				b := append([]*node(nil), a.A...)
				for i := range b {
					b[i] = a.A[len(b)-1-i]
				}
				return &node{K: ref.Arr, A: b}
			})
		}
	case 8: // a slightly different number
		if leaf != nil {
			return set(leaf, func(l *node) *node {
				if l.K == ref.Num {
					m := *l
					d := max(1, -m.F, m.F) / (1 << 52) * 2
					if m.F > 1e300 {
						d = -d // there must be a next number
					}
					m.F += d
					return &m
				}
				if l.K == ref.Str {
					m := *l
					m.S += " "
					return &m
				}
				return l
			})
		}
	}
	return n
}

// below is the node at a place.
func below(n *node, at []string) *node {
	for _, k := range at {
		if n.K == ref.Arr {
			i, _ := strconv.Atoi(k)
			n = n.A[i]
		} else {
			n = n.O[k]
		}
	}
	return n
}

func withKey(n *node, key string, child *node) *node {
	o := map[string]*node{}
	for k, c := range n.O {
		o[k] = c
	}
	o[key] = child
	return &node{K: ref.Obj, O: o}
}

// rewrite replaces the node at a place.
func rewrite(n *node, at []string, f func(*node) *node) *node {
	if len(at) == 0 {
		return f(n)
	}
	if n.K == ref.Obj {
		return withKey(n, at[0], rewrite(n.O[at[0]], at[1:], f))
	}
	a := append([]*node(nil), n.A...)
	i, _ := strconv.Atoi(at[0])
	a[i] = rewrite(a[i], at[1:], f)
	return &node{K: ref.Arr, A: a}
}

// compare asks whether two documents are equal.
func (g *gateways) compare(e Ev) {
	c := g.w.c
	n := g.local
	if leaves, inner, _ := places(n); e.Msg > 0 {
		if at := append(leaves, inner...); len(at) > 0 {
			n = below(n, at[e.Msg%len(at)])
		}
	}
	m := alter(n, e)
	a, b := n.Tson(), m.Tson()
	for i := 0; i < 2; i++ {
		same, sameNorm := ref.Diff(n, m, true) == "", ref.Diff(normTS(n), normTS(m), true) == ""
		var eq bool
		var err error
		c.Must("Equal", func() { eq, err = tson.Equal(a, b) })
		if same == sameNorm { // else they differ in how an absent timestamp is written
			c.Check(err == nil && eq == same, "equal", "Equal(%s, %s) is %v, %v", n.Text(), m.Text(), eq, err)
		}
		c.Must("EqualWithoutTimestamp", func() { eq, err = tson.EqualWithoutTimestamp(a, b) })
		c.Check(err == nil && eq == (ref.Diff(n, m, false) == ""), "equal", "EqualWithoutTimestamp(%s, %s) is %v, %v", n.Text(), m.Text(), eq, err)
		if !same {
			c.Probe("unequal")
		} else {
			c.Probe("equal")
		}
		g.check("the first of the compared", &cargo{fStruct, a, n, true}, "")
		g.check("the second of the compared", &cargo{fStruct, b, m, true}, "")
		a, b, n, m = b, a, m, n
	}
}

// patch hands over a patch in the form of a JSON value.
func (g *gateways) patch(e Ev) {
	c := g.w.c
	want := goOps(e.Strs)
	var v any
	d := json.NewDecoder(strings.NewReader(wire(want)))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	if e.A%2 == 0 {
		var maps []map[string]any
		for _, op := range want {
			m := map[string]any{"op": string(op.Op), "path": op.Path, "timestamp": op.Timestamp}
			if op.Value != nil {
				m["value"] = op.Value
			}
			maps = append(maps, m)
		}
		v = maps
	}
	before := fmt.Sprintf("%#v", v)
	var p tsonpatch.Patch
	var err error
	c.Must("tsonpatch.FromJson", func() { p, err = tsonpatch.FromJson(v) })
	c.Check(err == nil, "patch", "%s was refused: %v", wire(want), err)
	for i := range want {
		if x, ok := want[i].Value.(int); ok {
			want[i].Value = float64(x)
		}
	}
	c.Check(reflect.DeepEqual(p, want), "patch", "%s was read as %v", wire(want), p)
	c.Check(before == fmt.Sprintf("%#v", v), "patch", "reading a patch changed its source to %#v", v)
	c.Probe("patch_from_json")
}

func execGateway(c *Ctx, tr *simkit.Trace) {
	g := &gateways{w: newWorld(c, tr), local: parseInit(tr.Init[0]), sent: map[int]*cargo{}, orig: map[int]*cargo{}, names: map[int]string{}}
	g.cons = make([]struct {
		id    int
		has   tson.Tson
		means *node
	}, 3)
	for i, e := range tr.Ev {
		c.Step = i
		c.SimMs = max(c.SimMs, e.At)
		runtime.VerifSeed(e.RS)
		switch e.Op {
		case "lost":
			c.Fault("message_loss")
		case "twice":
			c.Fault("message_duplicated")
		case "partition":
			c.Fault("partition")
		case "mutate":
			for _, op := range goOps(e.Strs) {
				if n, err := ref.Apply(g.local, op); err == nil {
					g.local = n
				}
			}
		case "graft":
			g.local = graft(g.local, e)
		case "confuse": // keys that other forms use for leaves
			l, _ := ref.LeafOf(float64(e.A), e.T)
			ts := []*node{l, ref.NullNode, {K: ref.Arr, A: []*node{l}}, {K: ref.Obj, O: map[string]*node{}}}[e.A%4]
			if g.local.K == ref.Obj {
				o := &node{K: ref.Obj, O: map[string]*node{"value": l, "timestamp": ts}}
				if e.B == 0 {
					g.local = o
				} else {
					g.local = withKey(g.local, "leaf", o)
				}
			}
		case "publish":
			g.publish(e)
		case "hop":
			g.hop(e)
		case "consume":
			g.consume(e)
		case "compare":
			g.compare(e)
		case "patch":
			g.patch(e)
		}
		for _, id := range sortedIDs(g.orig) { // what was published stays as it was
			if (id+i)%4 == 0 {
				g.check("what was published", g.orig[id], g.names[id])
			}
		}
		for j := range g.cons {
			if k := &g.cons[j]; k.means != nil {
				d := ref.Diff(ref.From(k.has), k.means, true)
				c.Check(d == "", "later", "the document of a consumer changed: %s", d)
			}
		}
		c.State(g.local.Hash())
		c.Log("%s %x", e.Op, g.local.Hash())
	}
	// once nothing is lost any more, everyone has the last document, whatever the way it took
	c.Step = len(tr.Ev)
	g.publish(Ev{Msg: 1 << 30})
	for j := range g.cons {
		g.sent[1<<30] = g.orig[1<<30]
		for i := 0; i < 3+j*2; i++ {
			g.hop(Ev{Msg: 1 << 30, A: int64(len(tr.Ev) + i*5 + j), B: int64(len(tr.Ev)*3 + i*7 + j*11)})
		}
		g.consume(Ev{Msg: 1 << 30, Node: j})
		d := ref.Diff(ref.From(g.cons[j].has), g.local, false)
		c.Check(d == "", "converge", "after the last message (%s): %s", g.names[1<<30], d)
	}
	for _, id := range sortedIDs(g.orig) {
		g.check("what was published", g.orig[id], g.names[id])
	}
}

func sortedIDs(m map[int]*cargo) []int {
	ids := make([]int, 0, len(m))
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return ids
}

func genGateway(p *profile) func(r *rng, run int) *simkit.Trace {
	return func(r *rng, run int) *simkit.Trace {
		f := newFleet(r, p)
		switch r.Intn(20) {
		case 0:
			f.schema = &node{K: ref.Arr, A: []*node{f.schema, genLeaf(r, 3), genLeaf(r, -1), ref.NullNode}}
		case 1:
			f.schema = genLeaf(r, int64(r.Intn(5)-1))
		case 2:
			f.schema = &node{K: ref.Arr, A: []*node{genLeaf(r, 3), genLeaf(r, -1), genLeaf(r, 1<<60)}}
		}
		f.state = f.schema
		f.tr.Init[0] = f.schema.Trace()
		l := f.links()
		epoch := f.tr.Cfg["epoch"]
		var step func()
		num := func(n int) int64 { return int64(r.Intn(n)) }
		step = func() {
			k := r.Intn(20)
			if f.state.K != ref.Obj && f.state.K != ref.Arr {
				k = 8 + r.Intn(12) // no place to change anything at
			}
			switch {
			case k < 5:
				var strs []string
				for i := r.Intn(4); i >= 0; i-- {
					op := genOp(r, p, f.state, f.schema, epoch+f.now)
					if r.P(0.1) {
						op.Timestamp = []int64{-1, 0, 1<<53 - 1, 1<<53 + 1, 1<<63 - 1, -7}[r.Intn(6)]
					}
					if n, err := ref.Apply(f.state, op); err == nil {
						f.state = n
						strs = append(strs, opText(op))
					}
				}
				f.emit(simkit.Ev{Op: "mutate", Strs: strs})
			case k < 6:
				e := simkit.Ev{Op: "graft", A: num(1000), B: num(6), T: epoch + f.now}
				f.state = graft(f.state, e)
				f.emit(e)
			case k < 7 && r.P(0.3):
				f.emit(simkit.Ev{Op: "confuse", A: num(8), B: num(4), T: epoch + f.now})
			case k < 8:
				var strs []string
				for i := r.Intn(4); i >= 0; i-- {
					strs = append(strs, opText(genOp(r, p, f.state, f.schema, epoch+f.now)))
				}
				f.emit(simkit.Ev{Op: "patch", A: num(2), Strs: strs})
			case k < 12:
				msg := 0
				if r.P(0.3) {
					msg = 1 + r.Intn(50)
				}
				f.emit(simkit.Ev{Op: "compare", Msg: msg, A: num(1000), B: num(9), T: epoch + f.now})
			case k < 19:
				f.msgs++
				id := f.msgs
				part := int64(0)
				if r.P(0.25) {
					part = 1 + num(50)
				}
				f.emit(simkit.Ev{Op: "publish", Msg: id, B: part})
				lost := func() { f.emit(simkit.Ev{Op: "lost", Msg: id}) }
				left := r.Between(1, 7)
				var forward func(int)
				forward = func(copy int) {
					if copy > 0 {
						f.emit(simkit.Ev{Op: "twice", Msg: id})
					}
					if left--; left < 0 {
						f.emit(simkit.Ev{Op: "consume", Msg: id, Node: r.Intn(3)})
						return
					}
					f.emit(simkit.Ev{Op: "hop", Msg: id, A: num(60), B: num(60)})
					if r.P(0.2) {
						f.emit(simkit.Ev{Op: "consume", Msg: id, Node: r.Intn(3)})
					}
					f.send(l, forward, lost)
				}
				f.send(l, forward, lost)
			default:
				if r.P(0.2) {
					f.partEnd = f.now + int64(r.Between(100, 4000))
					f.emit(simkit.Ev{Op: "partition", A: f.partEnd - f.now})
				}
			}
			f.after(int64(r.Between(20, 600)), step)
		}
		f.after(0, step)
		return f.run()
	}
}
