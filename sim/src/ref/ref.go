// Package ref is the executable reference model: an independent, immutable document tree
// with the specified meaning of every patch operation.  It shares no code with the code
// under test beyond its data types.
package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// Kind of a node.
type Kind byte

const (
	Null Kind = iota
	Str
	Num
	Bool
	Obj
	Arr
)

// Node is an immutable document.  Nil pointers are not used: null is a Node.
type Node struct {
	K  Kind
	S  string
	F  float64
	B  bool
	TS int64
	O  map[string]*Node
	A  []*Node
}

var NullNode = &Node{K: Null}

func (n *Node) Leaf() bool { return n.K == Str || n.K == Num || n.K == Bool }

// From reads a document of the code under test.
func From(t tson.Value) *Node {
	switch v := t.(type) {
	case nil:
		return NullNode
	case tson.Leaf[string]:
		return &Node{K: Str, S: v.Value, TS: v.Timestamp}
	case tson.Leaf[float64]:
		return &Node{K: Num, F: v.Value, TS: v.Timestamp}
	case tson.Leaf[bool]:
		return &Node{K: Bool, B: v.Value, TS: v.Timestamp}
	case tson.Object:
		o := make(map[string]*Node, len(v))
		for k, c := range v {
			o[k] = From(c)
		}
		return &Node{K: Obj, O: o}
	case tson.Array:
		a := make([]*Node, len(v))
		for i, c := range v {
			a[i] = From(c)
		}
		return &Node{K: Arr, A: a}
	}
	panic(fmt.Sprintf("ref.From: %T", t))
}

// Tson builds a fresh document for the code under test.
func (n *Node) Tson() tson.Value {
	switch n.K {
	case Str:
		return tson.Leaf[string]{Value: n.S, Timestamp: n.TS}
	case Num:
		return tson.Leaf[float64]{Value: n.F, Timestamp: n.TS}
	case Bool:
		return tson.Leaf[bool]{Value: n.B, Timestamp: n.TS}
	case Obj:
		o := tson.Object{}
		for k, c := range n.O {
			o[k] = c.Tson()
		}
		return o
	case Arr:
		a := make(tson.Array, len(n.A))
		for i, c := range n.A {
			a[i] = c.Tson()
		}
		return a
	}
	return nil
}

// Keys returns the keys of an object in order.
func (n *Node) Keys() []string {
	ks := make([]string, 0, len(n.O))
	for k := range n.O {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Quote writes a JSON string.
func Quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func num(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// Text writes the document in TSON syntax.
func (n *Node) Text() string { var b strings.Builder; n.text(&b, true); return b.String() }

func (n *Node) stamp() string {
	if n.TS < 0 {
		return "<>"
	}
	return "<" + strconv.FormatInt(n.TS, 10) + ">"
}

func (n *Node) prim() string {
	switch n.K {
	case Str:
		return Quote(n.S)
	case Num:
		return num(n.F)
	case Bool:
		return strconv.FormatBool(n.B)
	}
	return "null"
}

func (n *Node) text(b *strings.Builder, top bool) {
	switch n.K {
	case Obj:
		b.WriteByte('{')
		for i, k := range n.Keys() {
			if i > 0 {
				b.WriteString(", ")
			}
			c := n.O[k]
			b.WriteString(Quote(k))
			if c.Leaf() {
				b.WriteString(" " + c.stamp())
			}
			b.WriteString(": ")
			c.text(b, false)
		}
		b.WriteByte('}')
	case Arr:
		b.WriteByte('[')
		for i, c := range n.A {
			if i > 0 {
				b.WriteString(", ")
			}
			if c.Leaf() {
				b.WriteString(c.stamp() + " ")
			}
			c.text(b, false)
		}
		b.WriteByte(']')
	default:
		b.WriteString(n.prim())
		if top && n.Leaf() {
			b.WriteString(" " + n.stamp())
		}
	}
}

// JSON writes the document as JSON without timestamps.
func (n *Node) JSON() string {
	var b strings.Builder
	var w func(n *Node)
	w = func(n *Node) {
		switch n.K {
		case Obj:
			b.WriteByte('{')
			for i, k := range n.Keys() {
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(Quote(k) + ":")
				w(n.O[k])
			}
			b.WriteByte('}')
		case Arr:
			b.WriteByte('[')
			for i, c := range n.A {
				if i > 0 {
					b.WriteByte(',')
				}
				w(c)
			}
			b.WriteByte(']')
		default:
			b.WriteString(n.prim())
		}
	}
	w(n)
	return b.String()
}

// Diff describes the first difference of two documents ("" if there is none).
func Diff(got, want *Node, withTS bool) string { return diff(got, want, withTS, "") }

func diff(a, b *Node, ts bool, at string) string {
	if a == b {
		return ""
	}
	where := at
	if where == "" {
		where = "/"
	}
	if a.K != b.K {
		return fmt.Sprintf("at %s: got %s, want %s", where, a.brief(), b.brief())
	}
	switch a.K {
	case Obj:
		for _, k := range b.Keys() {
			c, ok := a.O[k]
			if !ok {
				return fmt.Sprintf("at %s/%s: missing, want %s", at, k, b.O[k].brief())
			}
			if d := diff(c, b.O[k], ts, at+"/"+k); d != "" {
				return d
			}
		}
		for _, k := range a.Keys() {
			if _, ok := b.O[k]; !ok {
				return fmt.Sprintf("at %s/%s: got %s, want nothing", at, k, a.O[k].brief())
			}
		}
	case Arr:
		for i := range min(len(a.A), len(b.A)) {
			if d := diff(a.A[i], b.A[i], ts, at+"/"+strconv.Itoa(i)); d != "" {
				return d
			}
		}
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("at %s: got %d elements, want %d", where, len(a.A), len(b.A))
		}
	default:
		if a.S != b.S || a.F != b.F || a.B != b.B || ts && a.Leaf() && a.TS != b.TS {
			return fmt.Sprintf("at %s: got %s, want %s", where, a.brief(), b.brief())
		}
	}
	return ""
}

func (n *Node) brief() string {
	s := n.Text()
	if len(s) > 80 {
		s = s[:77] + "..."
	}
	return s
}

// Hash identifies a document with its timestamps.
func (n *Node) Hash() uint64 {
	h := uint64(14695981039346656037)
	mix := func(x uint64) { h = (h ^ x) * 1099511628211; h ^= h >> 29 }
	str := func(s string) {
		for i := 0; i < len(s); i++ {
			mix(uint64(s[i]))
		}
		mix(0x100)
	}
	var w func(n *Node)
	w = func(n *Node) {
		mix(uint64(n.K))
		switch n.K {
		case Str:
			str(n.S)
			mix(uint64(n.TS))
		case Num:
			mix(math.Float64bits(n.F))
			mix(uint64(n.TS))
		case Bool:
			if n.B {
				mix(1)
			}
			mix(uint64(n.TS))
		case Obj:
			for _, k := range n.Keys() {
				str(k)
				w(n.O[k])
			}
		case Arr:
			for _, c := range n.A {
				w(c)
			}
		}
		mix(0x200)
	}
	w(n)
	return h
}

// Split resolves a path: with a leading slash it is a JSON pointer, otherwise
// dots and slashes both separate; ~1 and ~0 stand for / and ~.
func Split(path string) []string {
	var parts []string
	pointer := strings.HasPrefix(path, "/")
	if pointer {
		path = path[1:]
	}
	cur := []byte{}
	for i := 0; i < len(path); i++ {
		switch c := path[i]; {
		case c == '/' || c == '.' && !pointer:
			parts = append(parts, string(cur))
			cur = cur[:0]
		case c == '~' && i+1 < len(path) && path[i+1] == '0':
			cur = append(cur, '~')
			i++
		case c == '~' && i+1 < len(path) && path[i+1] == '1':
			cur = append(cur, '/')
			i++
		default:
			cur = append(cur, c)
		}
	}
	return append(parts, string(cur))
}

// Join spells parts as a JSON pointer.
func Join(parts []string) string {
	var b strings.Builder
	for _, p := range parts {
		b.WriteByte('/')
		b.WriteString(strings.ReplaceAll(strings.ReplaceAll(p, "~", "~0"), "/", "~1"))
	}
	return b.String()
}

// Canon is the canonical spelling of a path.
func Canon(path string) string { return Join(Split(path)) }

// Within says whether path is at or below target.
func Within(path, target string) bool {
	if target == "" || target == "/" {
		return true
	}
	return Below(path, target)
}

// Below says whether path leads to what target leads to or into it (the path "/" leads to the key "").
func Below(path, target string) bool {
	p, t := Split(path), Split(target)
	if len(p) < len(t) {
		return false
	}
	for i := range t {
		if p[i] != t[i] {
			return false
		}
	}
	return true
}

// Get finds the node at a path.
func (n *Node) Get(path string) (*Node, bool) { return n.get(Split(path)) }

func (n *Node) get(parts []string) (*Node, bool) {
	for _, p := range parts {
		switch n.K {
		case Obj:
			c, ok := n.O[p]
			if !ok {
				return nil, false
			}
			n = c
		case Arr:
			i, ok := index(p)
			if !ok || i >= len(n.A) {
				return nil, false
			}
			n = n.A[i]
		default:
			return nil, false
		}
	}
	return n, true
}

func index(p string) (int, bool) {
	i, err := strconv.Atoi(p)
	return i, err == nil && i >= 0
}

// LeafOf turns a patch value into a leaf.
func LeafOf(v any, ts int64) (*Node, bool) {
	switch v := v.(type) {
	case string:
		return &Node{K: Str, S: v, TS: ts}, true
	case float64:
		return &Node{K: Num, F: v, TS: ts}, true
	case int:
		return &Node{K: Num, F: float64(v), TS: ts}, true
	case bool:
		return &Node{K: Bool, B: v, TS: ts}, true
	}
	return nil, false
}

// Apply returns the document after one operation; the given document stays as it is.
func Apply(n *Node, op tsonpatch.Operation) (*Node, error) {
	return apply(n, Split(op.Path), op)
}

// ApplyAll applies the operations in order, all or nothing.
func ApplyAll(n *Node, ops []tsonpatch.Operation) (*Node, error) {
	var err error
	for _, op := range ops {
		if n, err = Apply(n, op); err != nil {
			return nil, err
		}
	}
	return n, nil
}

func apply(n *Node, parts []string, op tsonpatch.Operation) (*Node, error) {
	set := op.Op == tsonpatch.OpAdd || op.Op == tsonpatch.OpReplace
	remove := op.Op == tsonpatch.OpRemove
	if !set && !remove {
		return nil, fmt.Errorf("operation %q is not supported", op.Op)
	}
	part, last := parts[0], len(parts) == 1
	var leaf *Node
	if set && last {
		var ok bool
		if leaf, ok = LeafOf(op.Value, op.Timestamp); !ok {
			return nil, fmt.Errorf("value %v is not supported", op.Value)
		}
	}
	switch n.K {
	case Obj:
		child, present := n.O[part]
		switch {
		case last && set:
			return n.with(part, leaf), nil
		case last:
			return n.with(part, nil), nil
		case !present || child.K == Null:
			if remove {
				return nil, fmt.Errorf("nothing at %s to remove from", part)
			}
			child = &Node{K: Obj, O: map[string]*Node{}}
			if _, ok := index(parts[1]); ok {
				child = &Node{K: Arr}
			}
		}
		c, err := apply(child, parts[1:], op)
		if err != nil {
			return nil, err
		}
		return n.with(part, c), nil
	case Arr:
		i, ok := index(part)
		if !ok {
			return nil, fmt.Errorf("%q is not an index", part)
		}
		if i >= len(n.A) && remove {
			return nil, fmt.Errorf("index %d is out of range", i)
		}
		a := make([]*Node, max(len(n.A), i+1))
		copy(a, n.A)
		for j := len(n.A); j < len(a); j++ {
			a[j] = NullNode
		}
		switch {
		case last && set:
			a[i] = leaf
		case last:
			a = append(a[:i], a[i+1:]...)
		default:
			c, err := apply(a[i], parts[1:], op)
			if err != nil {
				return nil, err
			}
			a[i] = c
		}
		return &Node{K: Arr, A: a}, nil
	case Null:
		return nil, fmt.Errorf("nothing below null")
	}
	return nil, fmt.Errorf("nothing below a leaf")
}

func (n *Node) with(key string, child *Node) *Node {
	o := make(map[string]*Node, len(n.O)+1)
	for k, c := range n.O {
		if k != key {
			o[k] = c
		}
	}
	if child != nil {
		o[key] = child
	}
	return &Node{K: Obj, O: o}
}

// EachLeaf visits leaves and nulls with their paths, in order.
func (n *Node) EachLeaf(f func(path string, leaf *Node)) {
	var w func(n *Node, parts []string)
	w = func(n *Node, parts []string) {
		switch n.K {
		case Obj:
			for _, k := range n.Keys() {
				w(n.O[k], append(parts[:len(parts):len(parts)], k))
			}
		case Arr:
			for i, c := range n.A {
				w(c, append(parts[:len(parts):len(parts)], strconv.Itoa(i)))
			}
		default:
			f(Join(parts), n)
		}
	}
	w(n, nil)
}

// Parse reads the JSON form a trace carries: a leaf is {"$": value, "t": timestamp}.
func Parse(v any) *Node {
	switch v := v.(type) {
	case nil:
		return NullNode
	case map[string]any:
		if x, ok := v["$"]; ok {
			ts, _ := strconv.ParseInt(fmt.Sprint(v["t"]), 10, 64)
			n, ok := LeafOf(x, ts)
			if !ok {
				panic(fmt.Sprintf("ref.Parse: leaf %v", x))
			}
			return n
		}
		o := map[string]*Node{}
		for k, c := range v {
			o[k] = Parse(c)
		}
		return &Node{K: Obj, O: o}
	case []any:
		a := make([]*Node, len(v))
		for i, c := range v {
			a[i] = Parse(c)
		}
		return &Node{K: Arr, A: a}
	}
	panic(fmt.Sprintf("ref.Parse: %T", v))
}

// Trace writes the form Parse reads (the timestamp is a string, to keep all its digits).
func (n *Node) Trace() string {
	switch n.K {
	case Null:
		return "null"
	case Obj:
		var s []string
		for _, k := range n.Keys() {
			s = append(s, Quote(k)+":"+n.O[k].Trace())
		}
		return "{" + strings.Join(s, ",") + "}"
	case Arr:
		var s []string
		for _, c := range n.A {
			s = append(s, c.Trace())
		}
		return "[" + strings.Join(s, ",") + "]"
	}
	return fmt.Sprintf(`{"$":%s,"t":"%d"}`, n.prim(), n.TS)
}
