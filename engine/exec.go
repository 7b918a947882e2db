package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Frame struct {
	fn     *ssa.Function
	fi     *FnInfo
	regs   []Value
	defers []deferRec
}

type deferRec struct {
	fn   Value
	recv Value // invoke mode: bound already into fn/args
	args []Value
	call *ssa.CallCommon
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	f.defers = n.defers
	return &n
}

type resKind uint8

const (
	rStop resKind = iota
	rRet
	rPanic
)

type Res struct {
	kind resKind
	st   *State
	fr   *Frame
	val  Value // return value (Tuple for multi) or panic value
	msg  string
}

// Alt is one outcome of an instruction or call.
type Alt struct {
	st      *State
	v       Value
	pan     bool
	msg     string // panic description
	useBody bool   // an intrinsic declines: run the body
}

type Violation struct {
	Harness string
	Label   string
	Case    int
	Vals    map[string]uint64
	Ranges  map[string][2]float64 // of the real-mode inputs
	Choices map[string]int
	Order   bool
	Real    bool
	Detail  string
}

type Engine struct {
	curInstr ssa.Instruction
	goCalls  []*ssa.CallCommon
	prog     *ssa.Program
	c        *TCtx
	s        *Solver
	finfo    map[*ssa.Function]*FnInfo
	pure     map[*ssa.Function]bool
	globals  map[*ssa.Global]int32
	nextObj  int32
	slotsC   map[types.Type]int
	tids     typeutil.Map
	ntid     int
	tidC     map[types.Type]int
	sizes    types.Sizes
	models   map[string]*ssa.Function // redirect targets
	implC    map[[2]types.Type]bool
	initing  bool

	// current job
	harness    string
	caseN      int
	mapOrder   bool
	violations []Violation
	maxViol    int
	violSeen   map[string]int
	unsup      map[string]int
	unsupCases []Violation // models to try natively where encoding stopped
	reached    map[string]int
	paths      int
	pathsDone  []pathSample
	asserts    int
	cuts       map[int32]bool // terms that assertions are first tried without (vsym.Cut)
	branches   int
	steps      int
	merges     int
	trunc      map[string]int
	deadline   time.Time
	fnsSeen    map[*ssa.Function]bool
	maxSamples int
	stepLimit  int
	permLimit  int
	cfg        map[string]int
	abort      bool
	trace      bool
}

type pathSample struct {
	V    Violation
	Obs  []obsJSON
	skip bool
}

type obsJSON struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type abortErr struct{ why string }

// ---------------------------------------------------------------- types

func (e *Engine) slots(t types.Type) int {
	if n, ok := e.slotsC[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += e.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * e.slots(u.Elem())
	case *types.Tuple:
		n = 1
	case *types.TypeParam:
		panic(unsupported("type parameter"))
	}
	e.slotsC[t] = n
	return n
}

func (e *Engine) fieldOff(s *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += e.slots(s.Field(k).Type())
	}
	return n
}

func (e *Engine) isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func bvWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	}
	return 0
}

func signed(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (e *Engine) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.fls
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.Float32:
			return e.c.KF32(0)
		case u.Info()&types.IsFloat != 0:
			return e.c.KF64(0)
		case u.Info()&types.IsInteger != 0:
			return e.c.K(bvWidth(u), 0)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return Ptr{}
		}
		return Opaque{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Closure{}
	case *types.Chan:
		return Ptr{}
	}
	panic(unsupported("zero of %s", t))
}

func (e *Engine) zeroSlots(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		if u.Len() == 0 {
			return out
		}
		st := len(out)
		out = e.zeroSlots(u.Elem(), out)
		one := out[st:len(out):len(out)]
		for i := int64(1); i < u.Len(); i++ {
			out = append(out, one...)
		}
		return out
	}
	return append(out, e.zeroScalar(t))
}

func (e *Engine) zero(t types.Type) Value {
	if tu, ok := t.(*types.Tuple); ok {
		out := Tuple{}
		for i := 0; i < tu.Len(); i++ {
			out = append(out, e.zero(tu.At(i).Type()))
		}
		return out
	}
	if e.isAgg(t) {
		return Agg(e.zeroSlots(t, nil))
	}
	return e.zeroScalar(t)
}

func (e *Engine) tid(t types.Type) int {
	if n, ok := e.tidC[t]; ok {
		return n
	}
	v := e.tids.At(t)
	if v == nil {
		e.ntid++
		e.tids.Set(t, e.ntid)
		v = e.ntid
	}
	e.tidC[t] = v.(int)
	return v.(int)
}

func (e *Engine) sameType(a, b types.Type) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a == b || e.tid(a) == e.tid(b)
}

// ---------------------------------------------------------------- heap access

func (e *Engine) alloc(st *State, slots []Value) int32 {
	e.nextObj++
	id := e.nextObj
	st.heap.set(id, &Obj{owner: st.heap.tok, slots: slots})
	return id
}

func (e *Engine) allocType(st *State, t types.Type) Ptr {
	return Ptr{obj: e.alloc(st, e.zeroSlots(t, make([]Value, 0, e.slots(t))))}
}

func (e *Engine) obj(st *State, id int32) *Obj {
	o := st.heap.get(id)
	if o == nil {
		panic(unsupported("missing object %d", id))
	}
	return o
}

func (e *Engine) load(st *State, p Value, t types.Type) Value {
	switch q := p.(type) {
	case Ptr:
		o := e.obj(st, q.obj)
		if e.isAgg(t) {
			n := e.slots(t)
			return Agg(append([]Value(nil), o.slots[q.off:int(q.off)+n]...))
		}
		v := o.slots[q.off]
		return v
	case SymPtr:
		o := e.obj(st, q.obj)
		v, ok := o.slots[int(q.off)+int(q.n)-1].(*Term)
		if !ok {
			panic(unsupported("symbolic index of non-scalar"))
		}
		w := int(q.idx.sort.W)
		for i := int(q.n) - 2; i >= 0; i-- {
			x, ok := o.slots[int(q.off)+i].(*Term)
			if !ok {
				panic(unsupported("symbolic index of non-scalar"))
			}
			v = e.c.Ite(e.c.Eq(q.idx, e.c.K(w, uint64(i))), x, v)
		}
		return v
	}
	panic(unsupported("load through %T", p))
}

func (e *Engine) store(st *State, p Value, t types.Type, v Value) {
	switch q := p.(type) {
	case Ptr:
		o := st.heap.mut(q.obj)
		if e.isAgg(t) {
			if op, ok := v.(Opaque); ok {
				for i := 0; i < e.slots(t); i++ {
					o.slots[int(q.off)+i] = op
				}
				return
			}
			copy(o.slots[q.off:], v.(Agg))
			return
		}
		o.slots[q.off] = v
		return
	case SymPtr:
		o := st.heap.mut(q.obj)
		w := int(q.idx.sort.W)
		x := v.(*Term)
		for i := 0; i < int(q.n); i++ {
			old, ok := o.slots[int(q.off)+i].(*Term)
			if !ok {
				panic(unsupported("symbolic store over non-scalar"))
			}
			o.slots[int(q.off)+i] = e.c.Ite(e.c.Eq(q.idx, e.c.K(w, uint64(i))), x, old)
		}
		return
	}
	panic(unsupported("store through %T", p))
}

func (e *Engine) newSlice(st *State, elems []Value) Slice {
	id := e.alloc(st, elems)
	return Slice{obj: id, len: int32(len(elems)), cap: int32(len(elems))}
}

func (e *Engine) bytesOf(st *State, s Slice) []*Term {
	out := make([]*Term, s.len)
	if s.len == 0 {
		return out
	}
	o := e.obj(st, s.obj)
	for i := range out {
		t, ok := o.slots[int(s.off)+i].(*Term)
		if !ok {
			panic(unsupported("opaque byte"))
		}
		out[i] = t
	}
	return out
}

func termVals(ts []*Term) []Value {
	out := make([]Value, len(ts))
	for i, t := range ts {
		out[i] = t
	}
	return out
}

// ---------------------------------------------------------------- branch decisions

// slice returns the conjuncts of the path condition that share variables
// (transitively) with t.
func (e *Engine) slicePC(st *State, t *Term) []*Term {
	need := map[int32]bool{}
	for _, v := range t.varset() {
		need[v] = true
	}
	used := make([]bool, len(st.pc))
	out := []*Term{}
	for changed := true; changed; {
		changed = false
		for i, p := range st.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.varset() {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range p.varset() {
					need[v] = true
				}
			}
		}
	}
	return out
}

// feasible asks whether pc && t is satisfiable; on Sat returns an extended model.
func (e *Engine) feasible(st *State, t *Term) (SatRes, *Model) {
	if t == e.c.fls {
		return Unsat, nil
	}
	if t == e.c.tru {
		if st.model != nil {
			return Sat, st.model
		}
	}
	e.checkDeadline()
	if debugForks != nil {
		debugForks[e.where()]++
	}
	sl := e.slicePC(st, t)
	res, vals := e.s.Check(append(sl, t))
	if res == Sat {
		m := st.model.extend(vals)
		if e.c.real {
			// rounding in real mode: keep the model only if it truly satisfies pc
			if m.eval(t) != 1 {
				return Sat, nil
			}
			for _, p := range st.pc {
				if m.eval(p) != 1 {
					return Sat, nil
				}
			}
		}
		if st.model == nil {
			// the slice only fixes part of the inputs; complete on demand
			ok := true
			for _, p := range st.pc {
				if m.eval(p) != 1 {
					ok = false
					break
				}
			}
			if !ok {
				m = nil
			}
		}
		return Sat, m
	}
	return res, nil
}

// where names the function and line being executed (debugging aid).
var debugForks map[string]int

func (e *Engine) where() string {
	if e.curInstr == nil {
		return "?"
	}
	p := e.curInstr.Parent().Prog.Fset.Position(e.curInstr.Pos())
	return fmt.Sprintf("%s:%d %s", e.curInstr.Parent(), p.Line, e.curInstr)
}

// fullModel returns a model of the whole path condition (and t).
func (e *Engine) fullModel(st *State, t *Term) (SatRes, *Model) {
	conj := append([]*Term{}, st.pc...)
	if t != nil {
		conj = append(conj, t)
	}
	res, vals := e.s.Check(conj)
	if res != Sat {
		return res, nil
	}
	return Sat, (*Model)(nil).extend(vals)
}

var memoryTight atomic.Bool

// watchMemory makes explorations stop (and be reported as incomplete) before the machine runs out.
func watchMemory(limit uint64) {
	for {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		memoryTight.Store(m.HeapAlloc > limit)
		time.Sleep(500 * time.Millisecond)
	}
}

func (e *Engine) checkDeadline() {
	if memoryTight.Load() {
		panic(abortErr{"memory limit"})
	}
	if !e.deadline.IsZero() && time.Now().After(e.deadline) {
		panic(abortErr{"time limit"})
	}
}

// decide reports which sides of cond are possible, with models.
func (e *Engine) decide(st *State, cond *Term) (t, f bool, mt, mf *Model) {
	if cond == e.c.tru {
		return true, false, st.model, nil
	}
	if cond == e.c.fls {
		return false, true, nil, st.model
	}
	nc := e.c.Not(cond)
	for _, p := range st.pc {
		if p == cond {
			return true, false, st.model, nil
		}
		if p == nc {
			return false, true, nil, st.model
		}
	}
	e.branches++
	if st.model != nil {
		if st.model.eval(cond) == 1 {
			r, m := e.feasible(st, nc)
			return true, r != Unsat, st.model, m
		}
		r, m := e.feasible(st, cond)
		return r != Unsat, true, m, st.model
	}
	r1, m1 := e.feasible(st, cond)
	if r1 == Unsat {
		return false, true, nil, nil
	}
	r2, m2 := e.feasible(st, nc)
	return true, r2 != Unsat, m1, m2
}

// split forks st on cond; nil for an infeasible side.
func (e *Engine) split(st *State, cond *Term) (ts, fs *State) {
	t, f, mt, mf := e.decide(st, cond)
	switch {
	case t && f:
		if debugForks != nil {
			debugForks["SPLIT "+e.where()]++
		}
		fs = st.fork()
		ts = st
		ts.assume(e.c, cond)
		ts.model = mt
		fs.assume(e.c, e.c.Not(cond))
		fs.model = mf
	case t:
		ts = st
		if cond != e.c.tru {
			ts.assume(e.c, cond)
		}
	case f:
		fs = st
		if cond != e.c.fls {
			fs.assume(e.c, e.c.Not(cond))
		}
	}
	return
}

type concAlt struct {
	st *State
	v  uint64
}

// concretise forks over the feasible values of t.
func (e *Engine) concretise(st *State, t *Term, limit int, what string) []concAlt {
	if t.isConst() {
		return []concAlt{{st, t.val}}
	}
	var out []concAlt
	cur := st
	w := int(t.sort.W)
	for {
		if len(out) >= limit {
			e.trunc[what]++
			break
		}
		m := cur.model
		if m == nil {
			r, mm := e.fullModel(cur, nil)
			if r == Unsat {
				break
			}
			if r == Unknown {
				e.trunc[what+" (solver unknown)"]++
				break
			}
			m = mm
		}
		v := m.eval(t)
		cond := e.c.Eq(t, e.c.K(w, v))
		ts, fs := e.split2(cur, cond, m)
		if ts != nil {
			out = append(out, concAlt{ts, v})
		}
		if fs == nil {
			break
		}
		cur = fs
	}
	return out
}

func (e *Engine) split2(st *State, cond *Term, m *Model) (ts, fs *State) {
	if cond == e.c.tru {
		return st, nil
	}
	nc := e.c.Not(cond)
	r, mf := e.feasible(st, nc)
	if r == Unsat {
		st.assume(e.c, cond)
		st.model = m
		return st, nil
	}
	fs = st.fork()
	ts = st
	ts.assume(e.c, cond)
	ts.model = m
	fs.assume(e.c, nc)
	fs.model = mf
	return
}

// ---------------------------------------------------------------- registers

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type %s", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	case b.Kind() == types.Float32:
		f, _ := constant.Float32Val(c.Value)
		return e.c.KF32(f)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return e.c.KF64(f)
	case b.Info()&types.IsInteger != 0:
		if b.Info()&types.IsUnsigned != 0 {
			return e.c.K(bvWidth(b), c.Uint64())
		}
		return e.c.K(bvWidth(b), uint64(c.Int64()))
	}
	panic(unsupported("constant %s", c))
}

func (e *Engine) globalPtr(st *State, g *ssa.Global) Ptr {
	id, ok := e.globals[g]
	if !ok {
		e.nextObj++
		id = e.nextObj
		e.globals[g] = id
	}
	if st.heap.get(id) == nil {
		t := g.Type().(*types.Pointer).Elem()
		var sl []Value
		if e.initing || initAllowed(g.Pkg.Pkg.Path()) || g.Name() == "init$guard" {
			sl = e.zeroSlots(t, nil)
		} else {
			sl = make([]Value, e.slots(t))
			for i := range sl {
				sl[i] = Opaque{"uninitialised global " + g.String()}
			}
		}
		st.heap.set(id, &Obj{owner: st.heap.tok, slots: sl})
	}
	return Ptr{obj: id}
}

func (e *Engine) get(fr *Frame, st *State, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(st, x)
	case *ssa.Function:
		return Closure{fn: x}
	case *ssa.Builtin:
		return Closure{blt: x}
	}
	r := fr.regs[fr.fi.reg[v]]
	if r == nil {
		panic(unsupported("read of unset register %s in %s", v.Name(), fr.fn))
	}
	return r
}

func (e *Engine) term(v Value) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Opaque:
		panic(unsupported("opaque value: %s", x.why))
	}
	panic(unsupported("scalar expected, got %T", v))
}

// ---------------------------------------------------------------- main loop

const maxDepth = 400

func (e *Engine) noteUnsup(st *State, msg string) {
	e.unsup[msg]++
	if len(e.unsupCases) < 40 && st != nil && !e.initing {
		m := st.model
		if m == nil {
			func() {
				defer func() { recover() }()
				_, m = e.fullModel(st, nil)
			}()
		}
		if m != nil {
			e.unsupCases = append(e.unsupCases, e.mkViolation(st, m, "unsupported: "+msg))
		}
	}
}

func (e *Engine) run(fr *Frame, st *State, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock) (out []Res) {
	cur := st
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				e.noteUnsup(cur, x.msg+" (in "+fr.fn.String()+")")
				out = nil
			case abortErr:
				panic(r)
			default:
				if e.trace {
					fmt.Fprintf(os.Stderr, "engine panic in %s: %v\n%s\n", fr.fn, r, debug.Stack())
				}
				e.noteUnsup(cur, fmt.Sprintf("engine: %v (in %s)", r, fr.fn))
				out = nil
			}
		}
	}()
	regs := fr.regs
	for {
		instrs := b.Instrs
		for ; i < len(instrs); i++ {
			in := instrs[i]
			e.curInstr = in
			st.steps++
			e.steps++
			if e.steps&0x3ff == 0 {
				e.checkDeadline()
			}
			if st.steps > e.stepLimit {
				panic(unsupported("step limit reached (loop bound)"))
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				v, alts := e.binop(st, x, e.get(fr, st, x.X), e.get(fr, st, x.Y))
				if alts != nil {
					return e.forkJoin(fr, alts, b, i, stop, x)
				}
				regs[fr.fi.reg[x]] = v
			case *ssa.MakeChan, *ssa.Go, *ssa.Send, *ssa.Select:
				alts := e.chanInstr(fr, st, in)
				if len(alts) == 1 && !alts[0].pan {
					st = alts[0].st
					cur = st
					if v, ok := in.(ssa.Value); ok {
						regs[fr.fi.reg[v]] = alts[0].v
					}
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, in)
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					alts := e.chanInstr(fr, st, in)
					if len(alts) == 1 && !alts[0].pan {
						st = alts[0].st
						cur = st
						regs[fr.fi.reg[x]] = alts[0].v
						break
					}
					return e.forkJoin(fr, alts, b, i, stop, in)
				}
				v, alts := e.unop(fr, st, x)
				if alts != nil {
					return e.forkJoin(fr, alts, b, i, stop, x)
				}
				regs[fr.fi.reg[x]] = v
			case *ssa.Phi:
				// evaluated on block entry
			case *ssa.Alloc:
				regs[fr.fi.reg[x]] = e.allocType(st, x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.Store:
				p := e.get(fr, st, x.Addr)
				if q, ok := p.(Ptr); ok && q.obj == 0 {
					return e.unwind(fr, st, "nil pointer dereference", Iface{})
				}
				e.store(st, p, x.Val.Type(), e.get(fr, st, x.Val))
			case *ssa.FieldAddr:
				p := e.get(fr, st, x.X)
				q, ok := p.(Ptr)
				if !ok {
					panic(unsupported("field address of %T", p))
				}
				if q.obj == 0 {
					return e.unwind(fr, st, "nil pointer dereference", Iface{})
				}
				s := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				regs[fr.fi.reg[x]] = Ptr{q.obj, q.off + int32(e.fieldOff(s, x.Field))}
			case *ssa.Field:
				a := e.get(fr, st, x.X)
				s := x.X.Type().Underlying().(*types.Struct)
				off := e.fieldOff(s, x.Field)
				ag, ok := a.(Agg)
				if !ok {
					if op, isop := a.(Opaque); isop {
						regs[fr.fi.reg[x]] = op
						break
					}
					panic(unsupported("field of %T", a))
				}
				if e.isAgg(x.Type()) {
					regs[fr.fi.reg[x]] = Agg(ag[off : off+e.slots(x.Type())])
				} else {
					regs[fr.fi.reg[x]] = ag[off]
				}
			case *ssa.IndexAddr:
				alts := e.indexAddr(fr, st, x)
				if len(alts) == 1 && !alts[0].pan && alts[0].st == st {
					regs[fr.fi.reg[x]] = alts[0].v
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, x)
			case *ssa.Index:
				alts := e.index(fr, st, x)
				if len(alts) == 1 && !alts[0].pan && alts[0].st == st {
					regs[fr.fi.reg[x]] = alts[0].v
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, x)
			case *ssa.ChangeType:
				regs[fr.fi.reg[x]] = e.get(fr, st, x.X)
			case *ssa.ChangeInterface:
				regs[fr.fi.reg[x]] = e.get(fr, st, x.X)
			case *ssa.MakeInterface:
				v := e.get(fr, st, x.X)
				regs[fr.fi.reg[x]] = Iface{x.X.Type(), v}
			case *ssa.MakeClosure:
				cl := Closure{fn: x.Fn.(*ssa.Function)}
				for _, bd := range x.Bindings {
					cl.binds = append(cl.binds, e.get(fr, st, bd))
				}
				regs[fr.fi.reg[x]] = cl
			case *ssa.MakeMap:
				e.nextObj++
				st.heap.set(e.nextObj, &Obj{owner: st.heap.tok, kind: kMap})
				regs[fr.fi.reg[x]] = MapRef{e.nextObj}
			case *ssa.Extract:
				t := e.get(fr, st, x.Tuple)
				tu, ok := t.(Tuple)
				if !ok {
					if op, isop := t.(Opaque); isop {
						regs[fr.fi.reg[x]] = op
						break
					}
					panic(unsupported("extract of %T", t))
				}
				regs[fr.fi.reg[x]] = tu[x.Index]
			case *ssa.MakeSlice, *ssa.Slice, *ssa.Convert, *ssa.MultiConvert, *ssa.TypeAssert, *ssa.Lookup, *ssa.MapUpdate, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer:
				alts := e.misc(fr, st, in)
				if len(alts) == 1 && !alts[0].pan && alts[0].st == st {
					if v, ok := in.(ssa.Value); ok {
						regs[fr.fi.reg[v]] = alts[0].v
					}
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, in)
			case *ssa.Call:
				alts := e.callInstr(fr, st, &x.Call)
				if len(alts) == 1 && !alts[0].pan {
					st = alts[0].st
					cur = st
					regs[fr.fi.reg[x]] = alts[0].v
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, x)
			case *ssa.Defer:
				fv, args := e.callArgs(fr, st, &x.Call)
				fr.defers = append(fr.defers, deferRec{fn: fv, args: args, call: &x.Call})
			case *ssa.RunDefers:
				if len(fr.defers) == 0 {
					break
				}
				ds := fr.defers
				fr.defers = nil
				alts := e.runDefers(st, ds)
				if len(alts) == 1 && !alts[0].pan {
					st = alts[0].st
					cur = st
					break
				}
				return e.forkJoin(fr, alts, b, i, stop, in)
			case *ssa.Return:
				var v Value
				switch len(x.Results) {
				case 0:
					v = Tuple{}
				case 1:
					v = e.get(fr, st, x.Results[0])
				default:
					t := make(Tuple, len(x.Results))
					for k, r := range x.Results {
						t[k] = e.get(fr, st, r)
					}
					v = t
				}
				return []Res{{kind: rRet, st: st, fr: fr, val: v}}
			case *ssa.Panic:
				v := e.get(fr, st, x.X)
				return e.unwind(fr, st, "panic: "+e.panicText(st, v), v)
			case *ssa.Jump:
				nb := b.Succs[0]
				e.enter(fr, st, b, nb, 0)
				if nb == stop {
					return []Res{{kind: rStop, st: st, fr: fr}}
				}
				b = nb
				i = -1
				goto next
			case *ssa.If:
				cond := e.term(e.get(fr, st, x.Cond))
				if cond.isConst() {
					k := 1
					if cond.val == 1 {
						k = 0
					}
					nb := b.Succs[k]
					e.enter(fr, st, b, nb, k)
					if nb == stop {
						return []Res{{kind: rStop, st: st, fr: fr}}
					}
					b = nb
					i = -1
					goto next
				}
				res, cont := e.branch(fr, st, b, cond, stop)
				if cont == nil {
					return res
				}
				// single state continues at block cont.b
				fr, st, b = cont.fr, cont.st, cont.b
				cur = st
				regs = fr.regs
				if cont.atStop {
					return append(res, Res{kind: rStop, st: st, fr: fr})
				}
				if len(res) > 0 {
					return append(res, e.run(fr, st, b, 0, stop)...)
				}
				i = -1
				goto next
			default:
				panic(unsupported("instruction %T", in))
			}
		}
		panic(unsupported("fell off block"))
	next:
		i = 0
	}
}

// enter evaluates the phis of nb for the edge from b (succ index k).
func (e *Engine) enter(fr *Frame, st *State, b, nb *ssa.BasicBlock, k int) {
	first, ok := nb.Instrs[0].(*ssa.Phi)
	if !ok {
		return
	}
	_ = first
	// locate predecessor index; duplicate edges are resolved by order
	pi, seen := -1, 0
	dup := 0
	for j := 0; j < k; j++ {
		if b.Succs[j] == nb {
			dup++
		}
	}
	for j, p := range nb.Preds {
		if p == b {
			if seen == dup {
				pi = j
				break
			}
			seen++
		}
	}
	if pi < 0 {
		panic(unsupported("phi edge"))
	}
	var vals []Value
	for _, in := range nb.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.getOpt(fr, st, ph.Edges[pi]))
	}
	for j, in := range nb.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		fr.regs[fr.fi.reg[ph]] = vals[j]
	}
}

func (e *Engine) getOpt(fr *Frame, st *State, v ssa.Value) Value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return e.get(fr, st, v)
	}
	return fr.regs[fr.fi.reg[v]]
}

type contState struct {
	fr     *Frame
	st     *State
	b      *ssa.BasicBlock
	atStop bool
}

// branch handles a symbolic If. It returns finished results, and possibly a
// single state that continues.
func (e *Engine) branch(fr *Frame, st *State, b *ssa.BasicBlock, cond *Term, stop *ssa.BasicBlock) ([]Res, *contState) {
	p := fr.fi.ipdom[b.Index]
	lazy := e.isSimple(fr.fi, b)
	nc := e.c.Not(cond)
	for _, x := range st.pc {
		if x == cond || x == nc {
			lazy = false
			break
		}
	}
	var ts, fs *State
	base := st.model
	if lazy {
		fs = st.fork()
		ts = st
		ts.pc = append(ts.pc, cond)
		fs.pc = append(fs.pc, nc)
		if base != nil {
			if base.eval(cond) == 1 {
				fs.model = nil
			} else {
				ts.model = nil
			}
		}
	} else {
		ts, fs = e.split(st, cond)
		if ts == nil || fs == nil {
			k := 0
			s2 := ts
			if ts == nil {
				k = 1
				s2 = fs
			}
			if s2 == nil {
				return nil, nil
			}
			nb := b.Succs[k]
			e.enter(fr, s2, b, nb, k)
			return nil, &contState{fr, s2, nb, nb == stop}
		}
	}
	fr2 := fr.clone()
	var results []Res
	side := func(f *Frame, s *State, k int) {
		nb := b.Succs[k]
		e.enter(f, s, b, nb, k)
		if nb == p || nb == stop {
			results = append(results, Res{kind: rStop, st: s, fr: f})
			return
		}
		pp := p
		if pp == nil {
			pp = stop
		}
		results = append(results, e.run(f, s, nb, 0, pp)...)
	}
	side(fr2, fs, 1)
	side(fr, ts, 0)
	return e.join(fr.fi, results, p, stop, lazy)
}

// join merges the states that reached p and arranges continuation.
func (e *Engine) join(fi *FnInfo, results []Res, p, stop *ssa.BasicBlock, lazy bool) ([]Res, *contState) {
	var done []Res
	var at []Res
	for _, r := range results {
		if r.kind == rStop {
			at = append(at, r)
		} else {
			done = append(done, r)
		}
	}
	if len(at) == 0 {
		return done, nil
	}
	if p == nil {
		// stop was used as the join point
		return append(done, at...), nil
	}
	at = e.mergeStops(fi, at, p, lazy)
	if lazy && len(at) > 1 {
		// unmerged lazily-explored sides: drop infeasible ones now
		var keep []Res
		for _, r := range at {
			if r.st.model == nil {
				res, m := e.fullModel(r.st, nil)
				if res == Unsat {
					continue
				}
				r.st.model = m
			}
			keep = append(keep, r)
		}
		at = keep
	}
	if p == stop {
		return append(done, at...), nil
	}
	if len(at) == 1 {
		return done, &contState{at[0].fr, at[0].st, p, false}
	}
	for _, r := range at {
		done = append(done, e.run(r.fr, r.st, p, 0, stop)...)
	}
	return done, nil
}

// forkJoin continues several alternatives of instruction i of block b.
func (e *Engine) forkJoin(fr *Frame, alts []Alt, b *ssa.BasicBlock, i int, stop *ssa.BasicBlock, in ssa.Instruction) []Res {
	p := fr.fi.ipdom[b.Index]
	pp := p
	if pp == nil {
		pp = stop
	}
	var results []Res
	reg := -1
	if v, ok := in.(ssa.Value); ok {
		reg = fr.fi.reg[v]
	}
	live := 0
	for _, a := range alts {
		if !a.pan {
			live++
		}
	}
	for k, a := range alts {
		f := fr
		if k < len(alts)-1 {
			f = fr.clone()
		}
		if a.pan {
			results = append(results, e.unwind(f, a.st, a.msg, a.v)...)
			continue
		}
		if reg >= 0 {
			f.regs[reg] = a.v
		}
		if live == 1 {
			// no join needed: continue with the outer stop
			results = append(results, e.run(f, a.st, b, i+1, stop)...)
			continue
		}
		results = append(results, e.run(f, a.st, b, i+1, pp)...)
	}
	if live <= 1 {
		return results
	}
	done, cont := e.join(fr.fi, results, p, stop, false)
	if cont != nil {
		if cont.atStop {
			return append(done, Res{kind: rStop, st: cont.st, fr: cont.fr})
		}
		return append(done, e.run(cont.fr, cont.st, cont.b, 0, stop)...)
	}
	return done
}

// unwind runs deferred calls after a panic in fr.
func (e *Engine) unwind(fr *Frame, st *State, msg string, v Value) []Res {
	if len(fr.defers) == 0 {
		return []Res{{kind: rPanic, st: st, fr: fr, val: v, msg: msg}}
	}
	st.panics = append(st.panics, panicRec{val: v, msg: msg})
	d := fr.defers[len(fr.defers)-1]
	rest := fr.defers[: len(fr.defers)-1 : len(fr.defers)-1]
	var out []Res
	for _, a := range e.callDeferred(st, d) {
		f := fr.clone()
		f.defers = rest
		n := len(a.st.panics)
		top := a.st.panics[n-1]
		a.st.panics = append([]panicRec(nil), a.st.panics[:n-1]...)
		if a.pan {
			out = append(out, e.unwind(f, a.st, a.msg, a.v)...)
			continue
		}
		if !top.recovered {
			out = append(out, e.unwind(f, a.st, msg, v)...)
			continue
		}
		// recovered: run remaining defers, then return through Recover block
		for _, a2 := range e.runDefers(a.st, rest) {
			g := f.clone()
			g.defers = nil
			if a2.pan {
				out = append(out, Res{kind: rPanic, st: a2.st, fr: g, val: a2.v, msg: a2.msg})
				continue
			}
			if fr.fn.Recover == nil {
				res := fr.fn.Signature.Results()
				var rv Value
				switch res.Len() {
				case 0:
					rv = Tuple{}
				case 1:
					rv = e.zero(res.At(0).Type())
				default:
					rv = e.zero(res)
				}
				out = append(out, Res{kind: rRet, st: a2.st, fr: g, val: rv})
				continue
			}
			out = append(out, e.run(g, a2.st, fr.fn.Recover, 0, nil)...)
		}
	}
	return out
}

func (e *Engine) callDeferred(st *State, d deferRec) []Alt {
	return e.callValue(st, d.fn, d.args, d.call)
}

func (e *Engine) runDefers(st *State, ds []deferRec) []Alt {
	if len(ds) == 0 {
		return []Alt{{st: st, v: Tuple{}}}
	}
	d := ds[len(ds)-1]
	var out []Alt
	for _, a := range e.callDeferred(st, d) {
		if a.pan {
			out = append(out, a)
			continue
		}
		out = append(out, e.runDefers(a.st, ds[:len(ds)-1])...)
	}
	return out
}

// ---------------------------------------------------------------- calls

func (e *Engine) callArgs(fr *Frame, st *State, cc *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(cc.Args)+1)
	var fv Value
	if cc.IsInvoke() {
		recv := e.get(fr, st, cc.Value)
		fv = recv
	} else {
		fv = e.get(fr, st, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.get(fr, st, a))
	}
	return fv, args
}

func (e *Engine) callInstr(fr *Frame, st *State, cc *ssa.CallCommon) []Alt {
	fv, args := e.callArgs(fr, st, cc)
	return e.callValue(st, fv, args, cc)
}

func (e *Engine) callValue(st *State, fv Value, args []Value, cc *ssa.CallCommon) []Alt {
	if cc != nil && cc.IsInvoke() {
		ifc, ok := fv.(Iface)
		if !ok {
			if op, isop := fv.(Opaque); isop {
				if e.initing {
					return []Alt{{st: st, v: e.opaqueResult(cc.Signature(), op.why)}}
				}
				panic(unsupported("method call on opaque value: %s", op.why))
			}
			panic(unsupported("invoke on %T", fv))
		}
		if ifc.t == nil {
			return []Alt{{st: st, pan: true, msg: "nil pointer dereference (nil interface)", v: Iface{}}}
		}
		fn := e.prog.LookupMethod(ifc.t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			panic(unsupported("no method %s on %s", cc.Method.Name(), ifc.t))
		}
		return e.call(st, fn, append([]Value{ifc.v}, args...), nil)
	}
	cl, ok := fv.(Closure)
	if !ok {
		if op, isop := fv.(Opaque); isop {
			panic(unsupported("call of opaque function: %s", op.why))
		}
		panic(unsupported("call of %T", fv))
	}
	if cl.blt != nil {
		return e.builtin(st, cl.blt, args, cc)
	}
	if cl.native != nil {
		return cl.native(e, st, args)
	}
	if cl.fn == nil {
		return []Alt{{st: st, pan: true, msg: "nil pointer dereference (nil func)", v: Iface{}}}
	}
	return e.call(st, cl.fn, args, cl.binds)
}

func (e *Engine) opaqueResult(sig *types.Signature, why string) Value {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return Opaque{why}
	}
	t := make(Tuple, sig.Results().Len())
	for i := range t {
		t[i] = Opaque{why}
	}
	return t
}

func (e *Engine) redirect(fn *ssa.Function) *ssa.Function {
	if len(e.models) == 0 {
		return fn
	}
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	if m, ok := e.models[f.String()]; ok {
		return m
	}
	return fn
}

func (e *Engine) call(st *State, fn *ssa.Function, args []Value, binds []Value) []Alt {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if h, ok := intrinsics[name]; ok {
		if alts := h(e, st, fn, args); len(alts) != 1 || !alts[0].useBody {
			return alts
		}
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == "time" {
		for i, a := range args {
			if us := symTimeOf(a); us != nil { // asked for more than its count: build the real value
				var out []Alt
				for _, r := range e.body(st, "time.UnixMicro", fn.Pkg.Func("UnixMicro"), []Value{us}, nil) {
					if r.pan {
						out = append(out, r)
						continue
					}
					as := append([]Value(nil), args...)
					as[i] = r.v
					out = append(out, e.call(r.st, fn, as, binds)...)
				}
				return e.mergeAlts(out)
			}
		}
	}
	return e.body(st, name, fn, args, binds)
}

func symTimeOf(v Value) *Term {
	if a, ok := v.(Agg); ok && len(a) == 3 {
		if w, ok := a[0].(*Term); ok && w.isConst() && w.sort.W == 64 && w.val == symTime {
			return a[1].(*Term)
		}
	}
	return nil
}

func (e *Engine) body(st *State, name string, fn *ssa.Function, args []Value, binds []Value) []Alt {
	fn = e.redirect(fn)
	if e.initing && fn.Pkg != nil && !initAllowed(fn.Pkg.Pkg.Path()) {
		return []Alt{{st: st, v: e.opaqueResult(fn.Signature, "init result of "+name)}}
	}
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic != "" && !e.initing {
		panic(unsupported("package init"))
	}
	if len(fn.Blocks) == 0 {
		if e.initing {
			return []Alt{{st: st, v: e.opaqueResult(fn.Signature, "external "+name)}}
		}
		panic(unsupported("external function %s", name))
	}
	if !e.fnsSeen[fn] {
		e.fnsSeen[fn] = true
	}
	st.depth++
	if st.depth > maxDepth {
		panic(unsupported("call depth limit in %s", name))
	}
	fi := e.info(fn)
	fr := &Frame{fn: fn, fi: fi, regs: make([]Value, fi.nregs)}
	for i, p := range fn.Params {
		fr.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[fi.reg[p]] = binds[i]
	}
	res := e.run(fr, st, fn.Blocks[0], 0, nil)
	alts := make([]Alt, 0, len(res))
	for _, r := range res {
		r.st.depth--
		switch r.kind {
		case rRet:
			alts = append(alts, Alt{st: r.st, v: r.val})
		case rPanic:
			alts = append(alts, Alt{st: r.st, pan: true, msg: r.msg, v: r.val})
		default:
			panic(unsupported("function stopped mid-way"))
		}
	}
	if len(alts) > 1 {
		alts = e.mergeAlts(alts)
	}
	return alts
}

func (e *Engine) panicText(st *State, v Value) string {
	if i, ok := v.(Iface); ok && i.t != nil {
		if s, ok := i.v.(Str); ok && s.b == nil {
			return s.s
		}
		return i.t.String()
	}
	return valStr(v)
}

// ---------------------------------------------------------------- merging

// mergeVal merges two values under guard g (true -> a). strict forbids turning
// distinct 64-bit constants into a symbolic value.
func (e *Engine) mergeVal(g *Term, a, b Value, strict bool) (Value, bool) {
	switch x := a.(type) {
	case nil:
		if b == nil {
			return nil, true
		}
		return nil, false
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if strict && x.sort.K == SBV && x.sort.W == 64 && (x.isConst() || y.isConst()) {
			return nil, false
		}
		return e.c.Ite(g, x, y), true
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x.b == nil && y.b == nil && x.s == y.s {
			return x, true
		}
		xb, yb := x.terms(e.c), y.terms(e.c)
		out := make([]*Term, len(xb))
		for i := range out {
			out[i] = e.c.Ite(g, xb[i], yb[i])
		}
		return mkStr(out), true
	case Ptr:
		y, ok := b.(Ptr)
		return x, ok && x == y
	case SymPtr:
		y, ok := b.(SymPtr)
		return x, ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return x, ok && x == y
	case MapRef:
		y, ok := b.(MapRef)
		return x, ok && x == y
	case IterRef:
		y, ok := b.(IterRef)
		return x, ok && x == y
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return x, x.t == nil && y.t == nil
		}
		if !e.sameType(x.t, y.t) {
			return nil, false
		}
		v, ok := e.mergeVal(g, x.v, y.v, strict)
		return Iface{x.t, v}, ok
	case Closure:
		y, ok := b.(Closure)
		if !ok || x.fn != y.fn || x.blt != y.blt || len(x.binds) != len(y.binds) || x.native != nil || y.native != nil {
			return nil, false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return nil, false
			}
		}
		return x, true
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Agg, len(x))
		for i := range x {
			v, ok := e.mergeVal(g, x[i], y[i], strict)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		out := make(Tuple, len(x))
		for i := range x {
			v, ok := e.mergeVal(g, x[i], y[i], strict)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case Opaque:
		_, ok := b.(Opaque)
		return x, ok
	}
	return nil, false
}

// sameVal: identical values.
func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case Str:
		y, ok := b.(Str)
		if !ok || x.Len() != y.Len() {
			return false
		}
		if x.b == nil && y.b == nil {
			return x.s == y.s
		}
		if x.b == nil || y.b == nil {
			return false
		}
		for i := range x.b {
			if x.b[i] != y.b[i] {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		return ok && (x.t == y.t || x.t != nil && y.t != nil && types.Identical(x.t, y.t)) && sameVal(x.v, y.v)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case Closure:
		y, ok := b.(Closure)
		if !ok || x.fn != y.fn || x.blt != y.blt || len(x.binds) != len(y.binds) || x.native != nil || y.native != nil {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case Opaque:
		_, ok := b.(Opaque)
		return ok
	}
	switch b.(type) {
	case Closure, Agg, Tuple, Iface, Str, Opaque, nil:
		return false
	}
	return a == b
}

// mergeStates tries to merge b into a (guard chosen from the pc suffixes).
func (e *Engine) mergeStates(a, b *State, strict bool) (*State, *Term, bool) {
	if a.trunc != b.trunc || len(a.obs) != len(b.obs) || len(a.choices) != len(b.choices) || len(a.panics) != len(b.panics) || a.depth != b.depth {
		return nil, nil, false
	}
	if !sameCounts(a.counts, b.counts) {
		return nil, nil, false
	}
	for i := range a.choices {
		if a.choices[i] != b.choices[i] {
			return nil, nil, false
		}
	}
	for i := range a.obs {
		if a.obs[i].name != b.obs[i].name || !sameVal(a.obs[i].v, b.obs[i].v) {
			return nil, nil, false
		}
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ga, gb := e.c.And(a.pc[k:]...), e.c.And(b.pc[k:]...)
	g := ga
	// heap
	type upd struct {
		id int32
		o  *Obj
	}
	var upds []upd
	cost := 0
	ok := heapDiff(a.heap, b.heap, func(id int32, x, y *Obj) bool {
		if x == nil {
			upds = append(upds, upd{id, y})
			return true
		}
		if y == nil {
			return true
		}
		if x.kind != y.kind || len(x.slots) != len(y.slots) || len(x.ents) != len(y.ents) || x.iterPos != y.iterPos {
			return false
		}
		n := *x
		changed := false
		for i := range x.slots {
			if sameVal(x.slots[i], y.slots[i]) {
				continue
			}
			v, ok := e.mergeVal(g, x.slots[i], y.slots[i], strict)
			if !ok {
				return false
			}
			cost++
			if cost > 4000 {
				return false
			}
			if !changed {
				changed = true
				n.slots = append([]Value(nil), x.slots...)
			}
			n.slots[i] = v
		}
		for i := range x.ents {
			if !sameVal(x.ents[i].k, y.ents[i].k) {
				return false
			}
			if sameVal(x.ents[i].v, y.ents[i].v) {
				continue
			}
			v, ok := e.mergeVal(g, x.ents[i].v, y.ents[i].v, strict)
			if !ok {
				return false
			}
			if &n.ents[0] == &x.ents[0] {
				n.ents = append([]mapEnt(nil), x.ents...)
				changed = true
			}
			n.ents[i].v = v
		}
		if changed {
			upds = append(upds, upd{id, &n})
		}
		return true
	})
	if !ok {
		return nil, nil, false
	}
	n := a.fork()
	for _, u := range upds {
		o := *u.o
		o.owner = nil
		n.heap.set(u.id, &o)
	}
	n.pc = append([]*Term(nil), a.pc[:k]...)
	n.assume(e.c, e.c.Or(ga, gb))
	if n.model == nil {
		n.model = b.model
	}
	if b.steps > n.steps {
		n.steps = b.steps
	}
	for _, r := range b.reach {
		n.addReach(r)
	}
	return n, g, true
}

func (st *State) addReach(l string) {
	for _, r := range st.reach {
		if r == l {
			return
		}
	}
	st.reach = append(st.reach, l)
}

func (e *Engine) mergeStops(fi *FnInfo, at []Res, p *ssa.BasicBlock, lazy bool) []Res {
	if len(at) < 2 {
		return at
	}
	live := fi.live[p.Index]
	var groups []Res
	for _, r := range at {
		merged := false
		for gi := len(groups) - 1; gi >= 0 && !merged; gi-- {
			q := groups[gi]
			if len(q.fr.defers) != len(r.fr.defers) {
				continue
			}
			st, g, ok := e.mergeStatesRegs(q, r, live, !lazy)
			if !ok {
				continue
			}
			fr := &Frame{fn: q.fr.fn, fi: fi, regs: make([]Value, fi.nregs), defers: q.fr.defers}
			for _, l := range live {
				v, _ := e.mergeVal(g, q.fr.regs[l], r.fr.regs[l], !lazy)
				fr.regs[l] = v
			}
			// phis of p are live as well
			for _, in := range p.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				l := fi.reg[ph]
				v, _ := e.mergeVal(g, q.fr.regs[l], r.fr.regs[l], !lazy)
				fr.regs[l] = v
			}
			groups[gi] = Res{kind: rStop, st: st, fr: fr}
			e.merges++
			merged = true
		}
		if !merged {
			groups = append(groups, r)
		}
	}
	return groups
}

func (e *Engine) mergeStatesRegs(a, b Res, live []int, strict bool) (*State, *Term, bool) {
	// cheap register test first with a placeholder guard
	for _, l := range live {
		if !e.canMerge(a.fr.regs[l], b.fr.regs[l], strict) {
			return nil, nil, false
		}
	}
	return e.mergeStates(a.st, b.st, strict)
}

// canMerge is mergeVal without building terms.
func (e *Engine) canMerge(a, b Value, strict bool) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return false
		}
		return x == y || !(strict && x.sort.K == SBV && x.sort.W == 64 && (x.isConst() || y.isConst()))
	case Str:
		y, ok := b.(Str)
		return ok && x.Len() == y.Len()
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return e.sameType(x.t, y.t) && e.canMerge(x.v, y.v, strict)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.canMerge(x[i], y[i], strict) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !e.canMerge(x[i], y[i], strict) {
				return false
			}
		}
		return true
	}
	return sameVal(a, b)
}

func (e *Engine) mergeAlts(alts []Alt) []Alt {
	var out []Alt
	for _, r := range alts {
		merged := false
		if !r.pan {
			for gi := len(out) - 1; gi >= 0 && !merged; gi-- {
				q := out[gi]
				if q.pan || !e.canMerge(q.v, r.v, true) {
					continue
				}
				st, g, ok := e.mergeStates(q.st, r.st, true)
				if !ok {
					continue
				}
				v, ok := e.mergeVal(g, q.v, r.v, true)
				if !ok {
					continue
				}
				out[gi] = Alt{st: st, v: v}
				e.merges++
				merged = true
			}
		}
		if !merged {
			out = append(out, r)
		}
	}
	return out
}

// ---------------------------------------------------------------- violations

var debugAsserts = os.Getenv("VDEBUG") != ""

func (e *Engine) mkViolation(st *State, m *Model, label string) Violation {
	v := Violation{Harness: e.harness, Label: label, Case: e.caseN, Vals: map[string]uint64{}, Ranges: map[string][2]float64{}, Choices: map[string]int{}, Order: e.mapOrder, Real: e.c.real}
	for name, i := range e.c.varIdx {
		t := e.c.vars[i]
		v.Vals[name] = m.eval(t)
		if t.real {
			v.Ranges[name] = [2]float64{t.rlo, t.rhi}
		}
	}
	for _, c := range st.choices {
		v.Choices[c.name] = c.val
	}
	return v
}

func (e *Engine) report(st *State, m *Model, label string) {
	e.violSeen[label]++
	if e.violSeen[label] > e.maxViol {
		return
	}
	if m == nil {
		return
	}
	e.violations = append(e.violations, e.mkViolation(st, m, label))
}

// assertTerm checks cond on st; continues assuming it.
func (e *Engine) assertTerm(st *State, cond *Term, label string) *State {
	e.asserts++
	if debugAsserts {
		fmt.Println("ASSERT", label, cond.str(14))
		for _, p := range st.pc {
			fmt.Println("   PC", p.str(14))
		}
	}
	if cond == e.c.tru {
		return st
	}
	nc := e.c.Not(cond)
	for _, p := range st.pc {
		if p == cond {
			return st
		}
	}
	// conjunctions are checked in one query, falling back to conjuncts only
	// through the solver itself
	var m *Model
	if st.model != nil && st.model.eval(nc) == 1 {
		m = st.model
		if mm := e.byMargin(st, cond, label); mm != nil {
			e.report(st, mm, label)
		}
		e.report(st, m, label)
	} else {
		e.checkDeadline()
		sl := e.slicePC(st, nc)
		if len(e.cuts) > 0 && e.s.CheckCut(append(sl, nc), e.cuts) {
			return e.continueWith(st, cond)
		}
		res, vals := e.s.Check(append(sl, nc))
		switch res {
		case Sat:
			m = e.completeModel(st, vals)
			if m == nil || e.c.real {
				var r2 SatRes
				r2, m = e.fullModel(st, nc)
				if r2 == Unsat {
					return e.continueWith(st, cond)
				}
			}
			if m == nil {
				e.unsup["assertion violated in the abstraction but no complete model: "+label]++
			} else {
				if mm := e.byMargin(st, cond, label); mm != nil {
					e.report(st, mm, label)
				}
				e.report(st, m, label)
			}
		case Unknown:
			e.unsup["solver gave no answer on assertion "+label]++
			if st.model != nil && len(e.unsupCases) < 40 {
				e.unsupCases = append(e.unsupCases, e.mkViolation(st, st.model, "unknown: "+label))
			}
		}
	}
	return e.continueWith(st, cond)
}

// byMargin looks for a counterexample that misses a bound by far: where roundings are relaxed to intervals, one that just
// misses it need not exist in the real code.
func (e *Engine) byMargin(st *State, cond *Term, label string) *Model {
	if !e.c.real || cond.op != OFLe || e.violSeen[label] >= e.maxViol {
		return nil
	}
	defer func(d time.Duration) { e.s.slowTimeout = d }(e.s.slowTimeout)
	if e.s.slowTimeout > 5*time.Second {
		e.s.slowTimeout = 5 * time.Second
	}
	for _, f := range []float64{256, 16, 3, 1.5} {
		far := e.c.FBin(OFMul, e.c.KF64(f), cond.args[1])
		if r, m := e.fullModel(st, e.c.FCmp(OFLt, far, cond.args[0])); r == Sat {
			return m
		}
	}
	return nil
}

func (e *Engine) continueWith(st *State, cond *Term) *State {
	if cond == e.c.fls {
		return nil
	}
	r, mm := e.feasible(st, cond)
	if r == Unsat {
		return nil
	}
	st.assume(e.c, cond)
	if st.model != nil && st.model.eval(cond) == 1 {
		return st
	}
	st.model = mm
	return st
}

// completeModel extends a slice model to the whole state.
func (e *Engine) completeModel(st *State, vals map[int32]uint64) *Model {
	base := st.model
	if base == nil {
		r, m := e.fullModel(st, nil)
		if r != Sat {
			return nil
		}
		base = m
	}
	return base.extend(vals)
}

// ---------------------------------------------------------------- helpers

func (e *Engine) fnList() []string {
	var out []string
	for f := range e.fnsSeen {
		p := ""
		if f.Pkg != nil {
			p = f.Pkg.Pkg.Path()
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			p = f.Origin().Pkg.Pkg.Path()
		}
		if strings.HasPrefix(p, "github.com/recolude/rap") && !strings.Contains(p, "vsym") {
			out = append(out, f.String())
		}
	}
	sort.Strings(out)
	return out
}

var _ = math.Inf
var _ = token.ADD
