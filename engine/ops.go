package main

import (
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- scalars

func isFloatSort(s Sort) bool { return s.K == SF32 || s.K == SF64 }

// fit brings a shift amount to width w, saturating.
func (e *Engine) fit(s *Term, w int) *Term {
	ws := int(s.sort.W)
	switch {
	case ws == w:
		return s
	case ws < w:
		return e.c.ZExt(s, w)
	}
	if s.isConst() {
		v := s.val
		if v > uint64(w) {
			v = uint64(w)
		}
		return e.c.K(w, v)
	}
	return e.c.Ite(e.c.Ult(s, e.c.K(ws, uint64(w))), e.c.Extract(s, w-1, 0), e.c.K(w, uint64(w)))
}

func one(st *State, v Value) []Alt { return []Alt{{st: st, v: v}} }

func rtPanic(st *State, msg string) Alt { return Alt{st: st, pan: true, msg: msg, v: Iface{}} }

func (e *Engine) binop(st *State, x *ssa.BinOp, a, b Value) (Value, []Alt) {
	c := e.c
	switch x.Op {
	case token.EQL, token.NEQ:
		t := e.eqVal(a, b)
		if x.Op == token.NEQ {
			t = c.Not(t)
		}
		return t, nil
	}
	if sa, ok := a.(Str); ok {
		sb, ok := b.(Str)
		if !ok {
			panic(unsupported("string op with %T", b))
		}
		switch x.Op {
		case token.ADD:
			if sa.b == nil && sb.b == nil {
				return Str{s: sa.s + sb.s}, nil
			}
			return mkStr(append(append([]*Term{}, sa.terms(c)...), sb.terms(c)...)), nil
		case token.LSS:
			return e.strLess(sa, sb, false), nil
		case token.GTR:
			return e.strLess(sb, sa, false), nil
		case token.LEQ:
			return c.Not(e.strLess(sb, sa, false)), nil
		case token.GEQ:
			return c.Not(e.strLess(sa, sb, false)), nil
		}
	}
	p, q := e.term(a), e.term(b)
	if isFloatSort(p.sort) {
		switch x.Op {
		case token.ADD:
			return c.FBin(OFAdd, p, q), nil
		case token.SUB:
			return c.FBin(OFSub, p, q), nil
		case token.MUL:
			return c.FBin(OFMul, p, q), nil
		case token.QUO:
			return c.FBin(OFDiv, p, q), nil
		case token.LSS:
			return c.FCmp(OFLt, p, q), nil
		case token.LEQ:
			return c.FCmp(OFLe, p, q), nil
		case token.GTR:
			return c.FCmp(OFLt, q, p), nil
		case token.GEQ:
			return c.FCmp(OFLe, q, p), nil
		}
		panic(unsupported("float op %s", x.Op))
	}
	if p.sort.K == SBool {
		switch x.Op {
		case token.AND, token.LAND:
			return c.And(p, q), nil
		case token.OR, token.LOR:
			return c.Or(p, q), nil
		case token.XOR:
			return c.Not(c.Eq(p, q)), nil
		}
	}
	w := int(p.sort.W)
	sg := signed(x.X.Type())
	switch x.Op {
	case token.ADD:
		return c.Add(p, q), nil
	case token.SUB:
		return c.Sub(p, q), nil
	case token.MUL:
		return c.Mul(p, q), nil
	case token.AND:
		return c.bitop(OBAnd, p, q), nil
	case token.OR:
		return c.bitop(OBOr, p, q), nil
	case token.XOR:
		return c.bitop(OBXor, p, q), nil
	case token.AND_NOT:
		return c.bitop(OBAnd, p, c.BNot(q)), nil
	case token.SHL:
		return c.Shl(p, e.fit(q, w)), nil
	case token.SHR:
		if sg {
			return c.AShr(p, e.fit(q, w)), nil
		}
		return c.LShr(p, e.fit(q, w)), nil
	case token.LSS:
		if sg {
			return c.Slt(p, q), nil
		}
		return c.Ult(p, q), nil
	case token.LEQ:
		if sg {
			return c.Sle(p, q), nil
		}
		return c.Ule(p, q), nil
	case token.GTR:
		if sg {
			return c.Slt(q, p), nil
		}
		return c.Ult(q, p), nil
	case token.GEQ:
		if sg {
			return c.Sle(q, p), nil
		}
		return c.Ule(q, p), nil
	case token.QUO, token.REM:
		op := OUDiv
		switch {
		case x.Op == token.QUO && sg:
			op = OSDiv
		case x.Op == token.REM && sg:
			op = OSRem
		case x.Op == token.REM:
			op = OURem
		}
		if q.isConst() {
			if q.val == 0 {
				return nil, []Alt{rtPanic(st, "integer divide by zero")}
			}
			return c.Div(op, p, q), nil
		}
		z, nz := e.split(st, c.Eq(q, c.K(w, 0)))
		var out []Alt
		if z != nil {
			out = append(out, rtPanic(z, "integer divide by zero"))
		}
		if nz != nil {
			out = append(out, Alt{st: nz, v: c.Div(op, p, q)})
		}
		return nil, out
	}
	panic(unsupported("binary op %s", x.Op))
}

func (e *Engine) strLess(a, b Str, eq bool) *Term {
	c := e.c
	if a.b == nil && b.b == nil {
		return c.Bool(a.s < b.s)
	}
	n := a.Len()
	if b.Len() < n {
		n = b.Len()
	}
	r := c.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := a.at(c, i), b.at(c, i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

func (e *Engine) eqStr(a, b Str) *Term {
	if a.Len() != b.Len() {
		return e.c.fls
	}
	if a.b == nil && b.b == nil {
		return e.c.Bool(a.s == b.s)
	}
	var cs []*Term
	for i := 0; i < a.Len(); i++ {
		t := e.c.Eq(a.at(e.c, i), b.at(e.c, i))
		if t == e.c.fls {
			return t
		}
		cs = append(cs, t)
	}
	return e.c.And(cs...)
}

func (e *Engine) eqVal(a, b Value) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		y := e.term(b)
		if isFloatSort(x.sort) {
			return c.FCmp(OFEq, x, y)
		}
		return c.Eq(x, y)
	case Str:
		if y, ok := b.(Str); ok {
			return e.eqStr(x, y)
		}
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return c.Bool(x == y)
		case SymPtr:
			if x.obj != y.obj {
				return c.fls
			}
		}
	case SymPtr:
		if y, ok := b.(Ptr); ok && y.obj != x.obj {
			return c.fls
		}
	case Slice:
		if y, ok := b.(Slice); ok && (x.obj == 0 || y.obj == 0) {
			return c.Bool(x.obj == 0 && y.obj == 0)
		}
	case MapRef:
		if y, ok := b.(MapRef); ok {
			return c.Bool(x == y)
		}
	case Closure:
		if y, ok := b.(Closure); ok {
			xn := x.fn == nil && x.blt == nil && x.native == nil
			yn := y.fn == nil && y.blt == nil && y.native == nil
			if xn || yn {
				return c.Bool(xn && yn)
			}
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !e.sameType(x.t, y.t) {
			return c.fls
		}
		if !types.Comparable(x.t) {
			panic(unsupported("comparison of uncomparable dynamic type %s", x.t))
		}
		return e.eqVal(x.v, y.v)
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			break
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, e.eqVal(x[i], y[i]))
		}
		return c.And(cs...)
	}
	if op, ok := a.(Opaque); ok {
		panic(unsupported("comparison of opaque value: %s", op.why))
	}
	if op, ok := b.(Opaque); ok {
		panic(unsupported("comparison of opaque value: %s", op.why))
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func (e *Engine) unop(fr *Frame, st *State, x *ssa.UnOp) (Value, []Alt) {
	v := e.get(fr, st, x.X)
	switch x.Op {
	case token.MUL:
		if q, ok := v.(Ptr); ok && q.obj == 0 {
			return nil, []Alt{rtPanic(st, "nil pointer dereference")}
		}
		if op, ok := v.(Opaque); ok {
			if e.initing {
				return op, nil
			}
			panic(unsupported("load through opaque: %s", op.why))
		}
		return e.load(st, v, x.Type()), nil
	case token.NOT:
		return e.c.Not(e.term(v)), nil
	case token.SUB:
		t := e.term(v)
		if isFloatSort(t.sort) {
			return e.c.FUn(OFNeg, t), nil
		}
		return e.c.Neg(t), nil
	case token.XOR:
		return e.c.BNot(e.term(v)), nil
	}
	panic(unsupported("unary op %s", x.Op))
}

// ---------------------------------------------------------------- indexing

// boundsIdx converts an index value to a 64-bit term.
func (e *Engine) idx64(v Value, t types.Type) *Term {
	x := e.term(v)
	if x.sort.W == 64 {
		return x
	}
	if signed(t) {
		return e.c.SExt(x, 64)
	}
	return e.c.ZExt(x, 64)
}

// inBounds splits on 0 <= idx < n.
func (e *Engine) inBounds(st *State, idx *Term, n int) (*State, []Alt) {
	if idx.isConst() {
		if idx.val < uint64(n) {
			return st, nil
		}
		return nil, []Alt{rtPanic(st, "index out of range")}
	}
	ok, bad := e.split(st, e.c.Ult(idx, e.c.K(64, uint64(n))))
	var out []Alt
	if bad != nil {
		out = append(out, rtPanic(bad, "index out of range"))
	}
	return ok, out
}

func (e *Engine) indexAddr(fr *Frame, st *State, x *ssa.IndexAddr) []Alt {
	base := e.get(fr, st, x.X)
	idx := e.idx64(e.get(fr, st, x.Index), x.Index.Type())
	var obj, off int32
	var n int
	var elem types.Type
	switch b := base.(type) {
	case Slice:
		obj, off, n = b.obj, b.off, int(b.len)
		elem = x.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		if b.obj == 0 {
			return []Alt{rtPanic(st, "nil pointer dereference")}
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		obj, off, n = b.obj, b.off, int(at.Len())
		elem = at.Elem()
	case Opaque:
		if e.initing {
			return one(st, b)
		}
		panic(unsupported("index of opaque: %s", b.why))
	default:
		panic(unsupported("index of %T", base))
	}
	ok, out := e.inBounds(st, idx, n)
	if ok == nil {
		return out
	}
	k := int32(e.slots(elem))
	if idx.isConst() {
		return append(out, Alt{st: ok, v: Ptr{obj, off + int32(idx.val)*k}})
	}
	if k == 1 && n <= 1024 && scalarType(elem) {
		return append(out, Alt{st: ok, v: SymPtr{obj, off, int32(n), idx}})
	}
	for _, a := range e.concretise(ok, idx, 300, "index enumeration") {
		out = append(out, Alt{st: a.st, v: Ptr{obj, off + int32(a.v)*k}})
	}
	return out
}

func (e *Engine) index(fr *Frame, st *State, x *ssa.Index) []Alt {
	base := e.get(fr, st, x.X)
	idx := e.idx64(e.get(fr, st, x.Index), x.Index.Type())
	return e.indexVal(st, base, idx, x.Type())
}

func (e *Engine) indexVal(st *State, base Value, idx *Term, t types.Type) []Alt {
	switch b := base.(type) {
	case Str:
		n := b.Len()
		ok, out := e.inBounds(st, idx, n)
		if ok == nil {
			return out
		}
		if idx.isConst() {
			return append(out, Alt{st: ok, v: b.at(e.c, int(idx.val))})
		}
		v := b.at(e.c, n-1)
		for i := n - 2; i >= 0; i-- {
			v = e.c.Ite(e.c.Eq(idx, e.c.K(64, uint64(i))), b.at(e.c, i), v)
		}
		return append(out, Alt{st: ok, v: v})
	case Agg:
		k := e.slots(t)
		n := 0
		if k > 0 {
			n = len(b) / k
		}
		ok, out := e.inBounds(st, idx, n)
		if ok == nil {
			return out
		}
		for _, a := range e.concretise(ok, idx, 300, "index enumeration") {
			if e.isAgg(t) {
				out = append(out, Alt{st: a.st, v: Agg(b[int(a.v)*k : int(a.v)*k+k])})
			} else {
				out = append(out, Alt{st: a.st, v: b[a.v]})
			}
		}
		return out
	}
	panic(unsupported("index of %T", base))
}

// ---------------------------------------------------------------- misc instructions

const hugeBytes = 1 << 33

func (e *Engine) misc(fr *Frame, st *State, in ssa.Instruction) []Alt {
	switch x := in.(type) {
	case *ssa.MakeSlice:
		elem := x.Type().Underlying().(*types.Slice).Elem()
		ln := e.idx64(e.get(fr, st, x.Len), x.Len.Type())
		cp := ln
		if x.Cap != x.Len {
			cp = e.idx64(e.get(fr, st, x.Cap), x.Cap.Type())
		}
		return e.makeSlice(st, elem, ln, cp)
	case *ssa.Slice:
		return e.sliceOp(fr, st, x)
	case *ssa.Convert:
		return e.convert(st, e.get(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return e.convert(st, e.get(fr, st, x.X), x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.get(fr, st, x.X), x.AssertedType, x.CommaOk)
	case *ssa.Lookup:
		base := e.get(fr, st, x.X)
		switch m := base.(type) {
		case Str:
			return e.indexVal(st, m, e.idx64(e.get(fr, st, x.Index), x.Index.Type()), x.Type())
		case MapRef:
			mt := x.X.Type().Underlying().(*types.Map)
			return e.mapLookup(st, m, e.get(fr, st, x.Index), mt.Elem(), x.CommaOk)
		case Opaque:
			panic(unsupported("lookup in opaque: %s", m.why))
		}
		panic(unsupported("lookup in %T", base))
	case *ssa.MapUpdate:
		m, ok := e.get(fr, st, x.Map).(MapRef)
		if !ok {
			panic(unsupported("map update of opaque map"))
		}
		if m.obj == 0 {
			return []Alt{rtPanic(st, "assignment to entry in nil map")}
		}
		return e.mapUpdate(st, m, e.get(fr, st, x.Key), e.get(fr, st, x.Value))
	case *ssa.Range:
		return e.rangeOp(st, e.get(fr, st, x.X))
	case *ssa.Next:
		return e.next(st, e.get(fr, st, x.Iter).(IterRef), x)
	case *ssa.SliceToArrayPointer:
		s := e.get(fr, st, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(s.len) < n {
			return []Alt{rtPanic(st, "slice to array conversion: length")}
		}
		return one(st, Ptr{s.obj, s.off})
	}
	panic(unsupported("instruction %T", in))
}

func (e *Engine) makeSlice(st *State, elem types.Type, ln, cp *Term) []Alt {
	sz := e.sizes.Sizeof(elem)
	if sz == 0 {
		sz = 1
	}
	var out []Alt
	lim := uint64(hugeBytes) / uint64(sz)
	check := func(s *State, t *Term) *State {
		if s == nil {
			return nil
		}
		if t.isConst() {
			if t.val > lim {
				out = append(out, rtPanic(s, "makeslice: length out of range or impossible allocation"))
				return nil
			}
			return s
		}
		ok, bad := e.split(s, e.c.Ule(t, e.c.K(64, lim)))
		if bad != nil {
			out = append(out, rtPanic(bad, "makeslice: length out of range or impossible allocation"))
		}
		return ok
	}
	st = check(st, ln)
	if cp != ln {
		st = check(st, cp)
	}
	if st == nil {
		return out
	}
	for _, a := range e.concretise(st, ln, e.concLimit(), "make length") {
		if a.v > 1<<22 {
			e.trunc["make of a very large length"]++
			continue
		}
		for _, b := range e.concretise(a.st, cp, e.concLimit(), "make capacity") {
			if b.v < a.v {
				out = append(out, rtPanic(b.st, "makeslice: cap out of range"))
				continue
			}
			if b.v > 1<<22 {
				e.trunc["make of a very large capacity"]++
				continue
			}
			k := e.slots(elem)
			sl := make([]Value, 0, int(b.v)*k)
			if b.v > 0 {
				z := e.zeroSlots(elem, nil)
				for i := uint64(0); i < b.v; i++ {
					sl = append(sl, z...)
				}
			}
			out = append(out, Alt{st: b.st, v: Slice{obj: e.alloc(b.st, sl), len: int32(a.v), cap: int32(b.v)}})
		}
	}
	return out
}

func (e *Engine) concLimit() int {
	if n, ok := e.cfg["conc"]; ok {
		return n
	}
	return 24
}

func (e *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice) []Alt {
	base := e.get(fr, st, x.X)
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.idx64(e.get(fr, st, v), v.Type())
	}
	lo, hi, mx := bound(x.Low), bound(x.High), bound(x.Max)
	var ln, cp int
	k := 1
	isStr := false
	switch b := base.(type) {
	case Str:
		ln, cp, isStr = b.Len(), b.Len(), true
	case Slice:
		ln, cp = int(b.len), int(b.cap)
		k = e.slots(x.X.Type().Underlying().(*types.Slice).Elem())
	case Ptr:
		if b.obj == 0 {
			return []Alt{rtPanic(st, "nil pointer dereference")}
		}
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		ln, cp = int(at.Len()), int(at.Len())
		k = e.slots(at.Elem())
	case Opaque:
		if e.initing {
			return one(st, b)
		}
		panic(unsupported("slice of opaque: %s", b.why))
	default:
		panic(unsupported("slice of %T", base))
	}
	K := func(n int) *Term { return e.c.K(64, uint64(n)) }
	if lo == nil {
		lo = K(0)
	}
	if hi == nil {
		hi = K(ln)
	}
	top := K(cp)
	if mx == nil {
		mx = top
	}
	// 0 <= lo <= hi <= max <= cap
	cond := e.c.And(e.c.Ule(mx, top), e.c.Ule(hi, mx), e.c.Ule(lo, hi))
	ok, bad := e.split(st, cond)
	var out []Alt
	if bad != nil {
		out = append(out, rtPanic(bad, "slice bounds out of range"))
	}
	if ok == nil {
		return out
	}
	for _, a := range e.concretise(ok, lo, 300, "slice low bound") {
		for _, b := range e.concretise(a.st, hi, 300, "slice high bound") {
			for _, m := range e.concretise(b.st, mx, 300, "slice max bound") {
				l, h, mm := int(a.v), int(b.v), int(m.v)
				if isStr {
					out = append(out, Alt{st: m.st, v: base.(Str).sub(l, h)})
					continue
				}
				switch q := base.(type) {
				case Slice:
					r := Slice{obj: q.obj, off: q.off + int32(l*k), len: int32(h - l), cap: int32(mm - l)}
					if r.cap == 0 && q.obj != 0 {
						r.off = q.off
					}
					out = append(out, Alt{st: m.st, v: r})
				case Ptr:
					out = append(out, Alt{st: m.st, v: Slice{obj: q.obj, off: q.off + int32(l*k), len: int32(h - l), cap: int32(mm - l)}})
				}
			}
		}
	}
	return out
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) []Alt {
	c := e.c
	if op, ok := v.(Opaque); ok {
		if e.initing {
			return one(st, op)
		}
		panic(unsupported("conversion of opaque value: %s", op.why))
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		switch {
		case tb.Info()&types.IsString != 0:
			if s, ok := v.(Str); ok {
				return one(st, s)
			}
			// integer to string
			var out []Alt
			for _, a := range e.concretise(st, e.term(v), 300, "rune to string") {
				t := e.term(v)
				r := sext(a.v, t.sort.W)
				if fb.Info()&types.IsUnsigned != 0 {
					r = int64(a.v)
				}
				s := string(utf8.RuneError)
				if r >= 0 && r <= utf8.MaxRune {
					s = string(rune(r))
				}
				out = append(out, Alt{st: a.st, v: Str{s: s}})
			}
			return out
		case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
			if _, ok := v.(*Term); ok {
				panic(unsupported("uintptr conversion"))
			}
			if tb.Kind() == types.Uintptr {
				panic(unsupported("pointer to uintptr"))
			}
			return one(st, v)
		}
		t := e.term(v)
		ff := fb.Info()&types.IsFloat != 0
		tf := tb.Info()&types.IsFloat != 0
		switch {
		case ff && tf:
			s := F64S
			if tb.Kind() == types.Float32 {
				s = F32S
			}
			return one(st, c.FCvt(t, s))
		case ff:
			w := bvWidth(tb)
			return one(st, c.FToInt(t, tb.Info()&types.IsUnsigned == 0, w))
		case tf:
			s := F64S
			if tb.Kind() == types.Float32 {
				s = F32S
			}
			return one(st, c.FFromInt(t, fb.Info()&types.IsUnsigned == 0, s))
		default:
			fw, tw := int(t.sort.W), bvWidth(tb)
			switch {
			case tw == fw:
				return one(st, t)
			case tw < fw:
				return one(st, c.Extract(t, tw-1, 0))
			case fb.Info()&types.IsUnsigned == 0:
				return one(st, c.SExt(t, tw))
			default:
				return one(st, c.ZExt(t, tw))
			}
		}
	}
	// string <-> []byte / []rune
	if fok && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok {
			s := v.(Str)
			eb := sl.Elem().Underlying().(*types.Basic)
			if bvWidth(eb) == 8 {
				return one(st, e.newSlice(st, termVals(s.terms(c))))
			}
			if s.b != nil {
				for _, t := range s.b {
					if !t.isConst() && !e.provablyLess(st, t, 0x80) {
						panic(unsupported("[]rune of symbolic string"))
					}
				}
				var rs []Value
				for _, t := range s.b {
					rs = append(rs, c.ZExt(t, 32))
				}
				return one(st, e.newSlice(st, rs))
			}
			var rs []Value
			for _, r := range s.s {
				rs = append(rs, c.K(32, uint64(uint32(r))))
			}
			return one(st, e.newSlice(st, rs))
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok {
			eb := sl.Elem().Underlying().(*types.Basic)
			s := v.(Slice)
			bs := e.bytesOf(st, s)
			if bvWidth(eb) == 8 {
				return one(st, mkStr(bs))
			}
			out := []rune{}
			sym := []*Term{}
			anySym := false
			for _, t := range bs {
				if !t.isConst() {
					if !e.provablyLess(st, t, 0x80) {
						panic(unsupported("string of symbolic runes"))
					}
					anySym = true
					sym = append(sym, c.Extract(t, 7, 0))
					continue
				}
				out = append(out, rune(int32(t.val)))
				for _, x := range []byte(string(rune(int32(t.val)))) {
					sym = append(sym, c.K(8, uint64(x)))
				}
			}
			if anySym {
				return one(st, mkStr(sym))
			}
			return one(st, Str{s: string(out)})
		}
	}
	switch v.(type) {
	case Ptr, SymPtr, Slice, MapRef, Closure, Iface, Agg:
		return one(st, v)
	}
	panic(unsupported("conversion %s to %s", from, to))
}

// provablyLess: t < n on every value allowed by the path condition.
func (e *Engine) provablyLess(st *State, t *Term, n uint64) bool {
	cond := e.c.Ult(t, e.c.K(int(t.sort.W), n))
	if cond == e.c.tru {
		return true
	}
	r, _ := e.feasible(st, e.c.Not(cond))
	return r == Unsat
}

func (e *Engine) typeAssert(st *State, v Value, at types.Type, commaOk bool) []Alt {
	i, ok := v.(Iface)
	if !ok {
		if op, isop := v.(Opaque); isop {
			if e.initing {
				return one(st, op)
			}
			panic(unsupported("type assertion on opaque value: %s", op.why))
		}
		panic(unsupported("type assertion on %T", v))
	}
	match := false
	var res Value
	if it, isI := at.Underlying().(*types.Interface); isI {
		match = i.t != nil && e.implements(i.t, it)
		res = i
	} else {
		match = i.t != nil && e.sameType(i.t, at)
		res = i.v
	}
	if commaOk {
		if !match {
			res = e.zero(at)
		}
		return one(st, Tuple{res, e.c.Bool(match)})
	}
	if !match {
		d := "nil"
		if i.t != nil {
			d = i.t.String()
		}
		return []Alt{rtPanic(st, "interface conversion: "+d+" is not "+at.String())}
	}
	return one(st, res)
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := [2]types.Type{t, it}
	if r, ok := e.implC[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.implC[k] = r
	return r
}

// ---------------------------------------------------------------- maps

// mapFind forks over which entry (if any) has key k. Index -1: absent.
type findAlt struct {
	st *State
	i  int
}

func (e *Engine) mapFind(st *State, m MapRef, k Value) []findAlt {
	if m.obj == 0 {
		return []findAlt{{st, -1}}
	}
	o := e.obj(st, m.obj)
	var out []findAlt
	cur := st
	n, rest := len(o.ents), []int(nil)
	if n > 8 {
		if ck, ok := constKey(k); ok {
			x := o.index()
			if i, ok := x.at[ck]; ok {
				return []findAlt{{st, i}} // keys differ from each other
			}
			n, rest = len(x.rest), x.rest
		}
	}
	for i := 0; i < n; i++ {
		i := i
		if rest != nil {
			i = rest[i]
		}
		t := e.eqVal(o.ents[i].k, k)
		if t == e.c.fls {
			continue
		}
		if t == e.c.tru {
			return append(out, findAlt{cur, i})
		}
		ts, fs := e.split(cur, t)
		if ts != nil {
			out = append(out, findAlt{ts, i})
		}
		if fs == nil {
			return out
		}
		cur = fs
	}
	return append(out, findAlt{cur, -1})
}

func (e *Engine) mapLookup(st *State, m MapRef, k Value, elem types.Type, commaOk bool) []Alt {
	var out []Alt
	for _, f := range e.mapFind(st, m, k) {
		var v Value
		if f.i >= 0 {
			v = e.obj(f.st, m.obj).ents[f.i].v
		} else {
			v = e.zero(elem)
		}
		if commaOk {
			v = Tuple{v, e.c.Bool(f.i >= 0)}
		}
		out = append(out, Alt{st: f.st, v: v})
	}
	return out
}

func (e *Engine) mapUpdate(st *State, m MapRef, k, v Value) []Alt {
	var out []Alt
	for _, f := range e.mapFind(st, m, k) {
		o := f.st.heap.mut(m.obj)
		if f.i >= 0 {
			o.ents[f.i].v = v
		} else {
			o.ents = append(o.ents, mapEnt{k, v})
		}
		out = append(out, Alt{st: f.st, v: Tuple{}})
	}
	return out
}

func (e *Engine) mapDelete(st *State, m MapRef, k Value) []Alt {
	var out []Alt
	for _, f := range e.mapFind(st, m, k) {
		if f.i >= 0 {
			o := f.st.heap.mut(m.obj)
			o.ents, o.idx = append(append([]mapEnt{}, o.ents[:f.i]...), o.ents[f.i+1:]...), nil
		}
		out = append(out, Alt{st: f.st, v: Tuple{}})
	}
	return out
}

func permutations(n int) [][]int {
	var out [][]int
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return out
}

func (e *Engine) rangeOp(st *State, base Value) []Alt {
	mk := func(s *State, o *Obj) Value {
		e.nextObj++
		o.owner = s.heap.tok
		o.kind = kIter
		s.heap.set(e.nextObj, o)
		return IterRef{e.nextObj}
	}
	switch b := base.(type) {
	case Str:
		return one(st, mk(st, &Obj{iterStr: b}))
	case MapRef:
		var keys []Value
		if b.obj != 0 {
			for _, en := range e.obj(st, b.obj).ents {
				keys = append(keys, en.k)
			}
		}
		if !e.mapOrder || len(keys) < 2 {
			return one(st, mk(st, &Obj{iterMap: b.obj, iterKeys: keys}))
		}
		var orders [][]int
		if len(keys) <= e.permLimit {
			orders = permutations(len(keys))
		} else {
			n := len(keys)
			id := make([]int, n)
			rev := make([]int, n)
			rot := make([]int, n)
			for i := range id {
				id[i], rev[i], rot[i] = i, n-1-i, (i+1)%n
			}
			orders = [][]int{id, rev, rot}
			e.trunc["map iteration orders"]++
		}
		var out []Alt
		name := "maporder#" + itoa(st.addCount("maporder"))
		for j, ord := range orders {
			s := st
			if j < len(orders)-1 {
				s = st.fork()
			}
			ks := make([]Value, len(keys))
			for i, x := range ord {
				ks[i] = keys[x]
			}
			s.choices = append(s.choices, choiceRec{name, j})
			out = append(out, Alt{st: s, v: mk(s, &Obj{iterMap: b.obj, iterKeys: ks})})
		}
		return out
	}
	panic(unsupported("range over %T", base))
}

func (e *Engine) next(st *State, it IterRef, x *ssa.Next) []Alt {
	o := st.heap.mut(it.obj)
	c := e.c
	if x.IsString {
		s := o.iterStr
		if o.iterPos >= s.Len() {
			return one(st, Tuple{c.fls, c.K(64, 0), c.K(32, 0)})
		}
		pos := o.iterPos
		if s.b == nil {
			r, n := utf8.DecodeRuneInString(s.s[pos:])
			o.iterPos += n
			return one(st, Tuple{c.tru, c.K(64, uint64(pos)), c.K(32, uint64(uint32(r)))})
		}
		fn := e.lookupFunc("unicode/utf8", "DecodeRuneInString")
		var out []Alt
		for _, a := range e.call(st, fn, []Value{s.sub(pos, s.Len())}, nil) {
			if a.pan {
				out = append(out, a)
				continue
			}
			t := a.v.(Tuple)
			for _, n := range e.concretise(a.st, e.term(t[1]), 8, "rune width") {
				n.st.heap.mut(it.obj).iterPos = pos + int(n.v)
				out = append(out, Alt{st: n.st, v: Tuple{c.tru, c.K(64, uint64(pos)), t[0]}})
			}
		}
		return out
	}
	tt := x.Type().(*types.Tuple)
	for o.iterPos < len(o.iterKeys) {
		k := o.iterKeys[o.iterPos]
		o.iterPos++
		m := e.obj(st, o.iterMap)
		if i := o.iterPos - 1; i < len(m.ents) && sameVal(m.ents[i].k, k) {
			return one(st, Tuple{c.tru, k, m.ents[i].v})
		}
		for i := range m.ents {
			if sameVal(m.ents[i].k, k) {
				return one(st, Tuple{c.tru, k, m.ents[i].v})
			}
		}
	}
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return c.fls
		}
		return e.zero(t)
	}
	return one(st, Tuple{c.fls, z(tt.At(1).Type()), z(tt.At(2).Type())})
}

// ---------------------------------------------------------------- builtins

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(oldCap, need int, esz int64) int {
	nc := oldCap
	if need > 2*oldCap {
		nc = need
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz == 0 {
		return need
	}
	return int(roundSize(int64(nc)*esz) / esz)
}

func (e *Engine) builtin(st *State, blt *ssa.Builtin, args []Value, cc *ssa.CallCommon) []Alt {
	c := e.c
	I := func(n int) *Term { return c.K(64, uint64(n)) }
	for _, a := range args {
		if op, ok := a.(Opaque); ok {
			if e.initing {
				return one(st, op)
			}
			panic(unsupported("%s of opaque value: %s", blt.Name(), op.why))
		}
	}
	switch blt.Name() {
	case "close":
		ch := e.chanOf(args[0])
		if e.obj(st, ch.obj).slots[0] == Value(c.tru) {
			return []Alt{rtPanic(st, "close of closed channel")}
		}
		st.heap.mut(ch.obj).slots[0] = c.tru
		return one(st, Tuple{})
	case "len":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
			return one(st, I(len(e.obj(st, e.chanOf(args[0]).obj).slots)-2))
		}
		switch x := args[0].(type) {
		case Str:
			return one(st, I(x.Len()))
		case Slice:
			return one(st, I(int(x.len)))
		case MapRef:
			if x.obj == 0 {
				return one(st, I(0))
			}
			return one(st, I(len(e.obj(st, x.obj).ents)))
		case Agg, Ptr:
			t := cc.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return one(st, I(int(t.(*types.Array).Len())))
		}
	case "cap":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Chan); ok {
			return one(st, e.obj(st, e.chanOf(args[0]).obj).slots[1])
		}
		switch x := args[0].(type) {
		case Slice:
			return one(st, I(int(x.cap)))
		case Agg, Ptr:
			t := cc.Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return one(st, I(int(t.(*types.Array).Len())))
		}
	case "append":
		s := args[0].(Slice)
		sig := blt.Type().(*types.Signature)
		st0, ok := sig.Params().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			panic(unsupported("append to %s", sig.Params().At(0).Type()))
		}
		elem := st0.Elem()
		k := e.slots(elem)
		var add []Value
		n := 0
		switch y := args[1].(type) {
		case Str:
			add = termVals(y.terms(c))
			n = len(add)
		case Slice:
			n = int(y.len)
			if n > 0 {
				o := e.obj(st, y.obj)
				add = append(add, o.slots[y.off:int(y.off)+n*k]...)
			}
		}
		if n == 0 {
			return one(st, s)
		}
		need := int(s.len) + n
		if need <= int(s.cap) {
			o := st.heap.mut(s.obj)
			copy(o.slots[int(s.off)+int(s.len)*k:], add)
			return one(st, Slice{s.obj, s.off, int32(need), s.cap})
		}
		if need > 1<<23 {
			panic(unsupported("append beyond engine size limit"))
		}
		nc := growCap(int(s.cap), need, e.sizes.Sizeof(elem))
		sl := make([]Value, 0, nc*k)
		if s.len > 0 {
			o := e.obj(st, s.obj)
			sl = append(sl, o.slots[s.off:int(s.off)+int(s.len)*k]...)
		}
		sl = append(sl, add...)
		z := e.zeroSlots(elem, nil)
		for i := need; i < nc; i++ {
			sl = append(sl, z...)
		}
		return one(st, Slice{obj: e.alloc(st, sl), len: int32(need), cap: int32(nc)})
	case "copy":
		d := args[0].(Slice)
		k := e.slots(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
		var src []Value
		n := 0
		switch y := args[1].(type) {
		case Str:
			n = min(y.Len(), int(d.len))
			src = termVals(y.sub(0, n).terms(c))
		case Slice:
			n = min(int(y.len), int(d.len))
			if n > 0 {
				src = append(src, e.obj(st, y.obj).slots[y.off:int(y.off)+n*k]...)
			}
		}
		if n > 0 {
			copy(st.heap.mut(d.obj).slots[d.off:], src)
		}
		return one(st, I(n))
	case "delete":
		m := args[0].(MapRef)
		if m.obj == 0 {
			return one(st, Tuple{})
		}
		return e.mapDelete(st, m, args[1])
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				o := st.heap.mut(x.obj)
				o.ents, o.idx = nil, nil
			}
		case Slice:
			elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			k := e.slots(elem)
			z := e.zeroSlots(elem, nil)
			if x.len > 0 {
				o := st.heap.mut(x.obj)
				for i := 0; i < int(x.len); i++ {
					copy(o.slots[int(x.off)+i*k:], z)
				}
			}
		}
		return one(st, Tuple{})
	case "panic":
		return []Alt{{st: st, pan: true, msg: "panic: " + e.panicText(st, args[0]), v: args[0]}}
	case "recover":
		n := len(st.panics)
		if n == 0 || st.panics[n-1].recovered {
			return one(st, Iface{})
		}
		st.panics[n-1].recovered = true
		p := st.panics[n-1]
		if i, ok := p.val.(Iface); ok && i.t != nil {
			return one(st, i)
		}
		return one(st, Iface{types.Typ[types.String], Str{s: p.msg}})
	case "print", "println":
		return one(st, Tuple{})
	case "min", "max":
		v := e.term(args[0])
		sg := signed(cc.Args[0].Type())
		for _, a := range args[1:] {
			b := e.term(a)
			if isFloatSort(v.sort) {
				panic(unsupported("float min/max builtin"))
			}
			var lt *Term
			if sg {
				lt = c.Slt(b, v)
			} else {
				lt = c.Ult(b, v)
			}
			if blt.Name() == "max" {
				lt = c.Not(lt)
			}
			v = c.Ite(lt, b, v)
		}
		return one(st, v)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			return []Alt{rtPanic(st, "nil pointer dereference")}
		}
		return one(st, args[0])
	case "SliceData":
		s := args[0].(Slice)
		return one(st, Ptr{s.obj, s.off})
	case "StringData":
		s := args[0].(Str)
		return one(st, Ptr{e.alloc(st, termVals(s.terms(c))), 0})
	case "String", "Slice":
		ln := e.idx64(args[1], types.Typ[types.Int])
		var out []Alt
		for _, a := range e.concretise(st, ln, e.concLimit(), "unsafe length") {
			p := args[0].(Ptr)
			if blt.Name() == "Slice" {
				out = append(out, Alt{st: a.st, v: Slice{p.obj, p.off, int32(a.v), int32(a.v)}})
				continue
			}
			if a.v == 0 {
				out = append(out, Alt{st: a.st, v: Str{}})
				continue
			}
			bs := e.bytesOf(a.st, Slice{p.obj, p.off, int32(a.v), int32(a.v)})
			out = append(out, Alt{st: a.st, v: mkStr(bs)})
		}
		return out
	}
	panic(unsupported("builtin %s", blt.Name()))
}

func (e *Engine) lookupFunc(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("function %s.%s not found", pkg, name))
	}
	return f
}
