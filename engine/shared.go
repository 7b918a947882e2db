package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared state: what several goroutines can reach. An operation that writes none of it commutes with every other operation
// that does not either, so any interleaving of them gives what they give one after the other.

// moduleGlobals are the package-level variables of the code under test.
func (e *Engine) moduleGlobals() []*ssa.Global {
	var out []*ssa.Global
	for _, p := range e.prog.AllPackages() {
		path := p.Pkg.Path()
		if !strings.HasPrefix(path, modPath) || strings.Contains(path, "internal/vsym") {
			continue
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				out = append(out, g)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *Engine) snapshot(st *State) {
	for _, g := range e.moduleGlobals() {
		e.globalPtr(st, g)
	}
	st.snap = Heap{root: st.heap.root}
	st.heap.tok = &htok{}
}

// wroteShared tells whether an object that can be reached from the package-level variables or from the given values was
// written since the snapshot.
func (e *Engine) wroteShared(st *State, given Value) bool {
	seen := map[int32]bool{}
	var walk func(v Value)
	visit := func(id int32) {
		if id == 0 || seen[id] {
			return
		}
		o := st.snap.get(id)
		if o == nil {
			return
		}
		seen[id] = true
		for _, v := range o.slots {
			walk(v)
		}
		for _, m := range o.ents {
			walk(m.k)
			walk(m.v)
		}
	}
	walk = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			visit(x.obj)
		case SymPtr:
			visit(x.obj)
		case Slice:
			visit(x.obj)
		case MapRef:
			visit(x.obj)
		case Iface:
			walk(x.v)
		case Closure:
			for _, b := range x.binds {
				walk(b)
			}
		case Agg:
			for _, y := range x {
				walk(y)
			}
		case Tuple:
			for _, y := range x {
				walk(y)
			}
		}
	}
	for _, g := range e.moduleGlobals() {
		walk(e.globalPtr(st, g))
	}
	if s, ok := given.(Slice); ok && s.len > 0 { // the list itself is the caller's
		for _, v := range e.obj(st, s.obj).slots[s.off : s.off+s.len] {
			walk(v)
		}
	}
	wrote := false
	heapDiff(st.snap, st.heap, func(id int32, x, y *Obj) bool {
		if x != nil && x != y && seen[id] {
			wrote = true
		}
		return !wrote
	})
	return wrote
}
