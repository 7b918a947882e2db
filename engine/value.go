package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Str, Ptr, SymPtr, Slice, MapRef, Iface, Closure,
// Agg (flattened struct/array), Tuple, IterRef, Opaque, nil (unset register).
type Value any

// Str is a string with concrete length; b is non-nil when some byte is symbolic.
type Str struct {
	s string
	b []*Term
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) at(c *TCtx, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return c.K(8, uint64(s.s[i]))
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.isConst() {
			return Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return Str{s: string(bs)}
}

func (s Str) sub(lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (s Str) terms(c *TCtx) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = c.K(8, uint64(s.s[i]))
	}
	return out
}

type Ptr struct {
	obj int32
	off int32
}

// SymPtr is the address of a scalar element at a symbolic index (in bounds
// under the path condition).
type SymPtr struct {
	obj int32
	off int32
	n   int32
	idx *Term
}

type Slice struct {
	obj      int32
	off      int32 // in slots
	len, cap int32
}

type MapRef struct{ obj int32 }
type IterRef struct{ obj int32 }

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn    *ssa.Function
	blt   *ssa.Builtin
	binds []Value
	// model hooks
	native func(e *Engine, st *State, args []Value) []Alt
}

type Agg []Value
type Tuple []Value
type Opaque struct{ why string }

type objKind uint8

const (
	kSlots objKind = iota
	kMap
	kIter
)

type mapEnt struct {
	k, v Value
}

// mapIdx finds the entries of large maps: those of constant keys by key, and the others.
type mapIdx struct {
	n    int // entries covered
	at   map[string]int
	rest []int
}

// constKey is a text that identifies a constant key within a map.
func constKey(v Value) (string, bool) {
	switch x := v.(type) {
	case Str:
		if x.b == nil {
			return "s" + x.s, true
		}
		b := make([]byte, len(x.b)+1)
		b[0] = 's'
		for i, t := range x.b {
			if !t.isConst() {
				return "", false
			}
			b[i+1] = byte(t.val)
		}
		return string(b), true
	case *Term:
		if x.isConst() && x.sort.K == SBV {
			return "i" + strconv.FormatUint(x.val, 10), true
		}
	}
	return "", false
}

func (o *Obj) index() *mapIdx {
	if o.idx == nil || o.idx.n > len(o.ents) {
		o.idx = &mapIdx{at: map[string]int{}}
	}
	for x := o.idx; x.n < len(o.ents); x.n++ {
		if k, ok := constKey(o.ents[x.n].k); ok {
			x.at[k] = x.n
		} else {
			x.rest = append(x.rest, x.n)
		}
	}
	return o.idx
}

type Obj struct {
	owner *htok
	kind  objKind
	slots []Value
	ents  []mapEnt // kMap
	idx   *mapIdx  // kMap: cache
	// kIter
	iterMap  int32
	iterStr  Str
	iterPos  int
	iterKeys []Value
}

type htok struct{ _ byte }

// ---------------------------------------------------------------- heap

type hnode struct {
	owner *htok
	kids  [32]*hnode
	objs  *[32]*Obj
}

const hDepth = 5 // 32^5 objects

type Heap struct {
	root *hnode
	tok  *htok
}

func newHeap() Heap { return Heap{root: nil, tok: &htok{}} }

func (h *Heap) get(id int32) *Obj {
	n := h.root
	for d := hDepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kids[(id>>(5*d))&31]
	}
	if n == nil || n.objs == nil {
		return nil
	}
	return n.objs[id&31]
}

func (h *Heap) own(n *hnode) *hnode {
	if n == nil {
		return &hnode{owner: h.tok}
	}
	if n.owner == h.tok {
		return n
	}
	c := &hnode{owner: h.tok, kids: n.kids}
	if n.objs != nil {
		o := *n.objs
		c.objs = &o
	}
	return c
}

func (h *Heap) set(id int32, o *Obj) {
	h.root = h.own(h.root)
	n := h.root
	for d := hDepth - 1; d > 0; d-- {
		i := (id >> (5 * d)) & 31
		k := h.own(n.kids[i])
		n.kids[i] = k
		n = k
	}
	if n.objs == nil {
		n.objs = new([32]*Obj)
	}
	n.objs[id&31] = o
}

func (h *Heap) mut(id int32) *Obj {
	o := h.get(id)
	if o == nil {
		panic(unsupported("write to missing object %d", id))
	}
	if o.owner == h.tok {
		return o
	}
	c := *o
	c.owner = h.tok
	c.slots = append([]Value(nil), o.slots...)
	c.ents = append([]mapEnt(nil), o.ents...)
	c.idx = nil
	h.set(id, &c)
	return &c
}

// diff calls f for every object id whose object differs between a and b.
func heapDiff(a, b Heap, f func(id int32, x, y *Obj) bool) bool {
	var rec func(x, y *hnode, d int, base int32) bool
	rec = func(x, y *hnode, d int, base int32) bool {
		if x == y {
			return true
		}
		if d == 0 {
			for i := int32(0); i < 32; i++ {
				var p, q *Obj
				if x != nil && x.objs != nil {
					p = x.objs[i]
				}
				if y != nil && y.objs != nil {
					q = y.objs[i]
				}
				if p != q {
					if !f(base|i, p, q) {
						return false
					}
				}
			}
			return true
		}
		for i := int32(0); i < 32; i++ {
			var p, q *hnode
			if x != nil {
				p = x.kids[i]
			}
			if y != nil {
				q = y.kids[i]
			}
			if p != q && !rec(p, q, d-1, base|i<<(5*d)) {
				return false
			}
		}
		return true
	}
	return rec(a.root, b.root, hDepth-1, 0)
}

// ---------------------------------------------------------------- state

type choiceRec struct {
	name string
	val  int
}

type obsRec struct {
	name string
	v    Value
}

type panicRec struct {
	val       Value
	msg       string
	recovered bool
}

type State struct {
	heap    Heap
	pc      []*Term
	model   *Model
	counts  map[string]int
	countsO bool
	choices []choiceRec
	obs     []obsRec
	reach   []string
	panics  []panicRec
	steps   int
	depth   int
	trunc   bool
	snap    Heap
}

func (st *State) fork() *State {
	n := *st
	st.heap.tok = &htok{}
	n.heap.tok = &htok{}
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	st.pc = n.pc
	n.choices = st.choices[:len(st.choices):len(st.choices)]
	st.choices = n.choices
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	st.obs = n.obs
	n.reach = st.reach[:len(st.reach):len(st.reach)]
	st.reach = n.reach
	n.panics = append([]panicRec(nil), st.panics...)
	st.countsO, n.countsO = false, false
	return &n
}

func (st *State) addCount(name string) int {
	if !st.countsO {
		m := make(map[string]int, len(st.counts)+1)
		for k, v := range st.counts {
			m[k] = v
		}
		st.counts = m
		st.countsO = true
	}
	k := st.counts[name]
	st.counts[name] = k + 1
	return k
}

func sameCounts(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// assume adds t to the path condition.
func (st *State) assume(c *TCtx, t *Term) {
	if t == c.tru {
		return
	}
	if t.op == OAnd {
		for _, a := range t.args {
			st.assume(c, a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc, t)
}

// ---------------------------------------------------------------- debugging

func valStr(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<unset>"
	case *Term:
		return x.String()
	case Str:
		if x.b != nil {
			var p []string
			for _, t := range x.b {
				p = append(p, t.str(2))
			}
			return "str[" + strings.Join(p, " ") + "]"
		}
		return fmt.Sprintf("%q", x.s)
	case Ptr:
		return fmt.Sprintf("ptr(%d+%d)", x.obj, x.off)
	case Slice:
		return fmt.Sprintf("slice(%d+%d len %d cap %d)", x.obj, x.off, x.len, x.cap)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return "iface(" + x.t.String() + " " + valStr(x.v) + ")"
	case Agg:
		var p []string
		for _, t := range x {
			p = append(p, valStr(t))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case Opaque:
		return "opaque(" + x.why + ")"
	}
	return fmt.Sprintf("%T", v)
}
