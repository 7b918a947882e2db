package main

import (
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the Go-coded models need of reflection: taking a dynamic value apart and
// storing through a pointer of a dynamic type.

func basicKind(t types.Type) (kind int, wide types.Type) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, nil
	}
	switch i := b.Info(); {
	case i&types.IsBoolean != 0:
		return 1, types.Typ[types.Bool]
	case i&types.IsString != 0:
		return 6, types.Typ[types.String]
	case i&types.IsInteger != 0 && i&types.IsUnsigned != 0:
		return 3, types.Typ[types.Uint64]
	case i&types.IsInteger != 0:
		return 2, types.Typ[types.Int64]
	case b.Kind() == types.Float32:
		return 5, types.Typ[types.Float64]
	case b.Kind() == types.Float64:
		return 4, types.Typ[types.Float64]
	}
	return 0, nil
}

type jsonField struct {
	name string
	i    int
}

func jsonFields(s *types.Struct) []jsonField {
	var out []jsonField
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			panic(unsupported("json of an embedded field"))
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(s.Tag(i)).Get("json")
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		name := parts[0]
		if name == "" {
			name = f.Name()
		}
		for _, o := range parts[1:] {
			if o == "omitempty" {
				name = "?" + name
			} else {
				panic(unsupported("json option %s", o))
			}
		}
		out = append(out, jsonField{name, i})
	}
	return out
}

func (e *Engine) asIface(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{t, v}
}

func (e *Engine) partsResult(st *State, kind int, names []string, vals []Value) []Alt {
	var ns []Value
	for _, n := range names {
		ns = append(ns, Str{s: n})
	}
	return one(st, Tuple{e.c.K(64, uint64(kind)), e.newSlice(st, ns), e.newSlice(st, vals)})
}

func init() {
	impure(mpkg+"Parts", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i := args[0].(Iface)
		c := e.c
		if i.t == nil {
			return e.partsResult(st, 11, nil, nil)
		}
		if op, ok := i.v.(Opaque); ok {
			panic(unsupported("parts of opaque value: %s", op.why))
		}
		if k, wide := basicKind(i.t); k != 0 {
			v := i.v
			switch k {
			case 2:
				v = c.SExt(e.term(v), 64)
			case 3:
				v = c.ZExt(e.term(v), 64)
			case 5:
				v = c.FCvt(e.term(v), F64S)
			}
			return e.partsResult(st, k, nil, []Value{Iface{wide, v}})
		}
		switch t := i.t.Underlying().(type) {
		case *types.Slice:
			s := i.v.(Slice)
			if s.obj == 0 {
				return e.partsResult(st, 11, nil, nil)
			}
			var vals []Value
			n := e.slots(t.Elem())
			for k := 0; k < int(s.len); k++ {
				vals = append(vals, e.asIface(t.Elem(), e.load(st, Ptr{s.obj, s.off + int32(k*n)}, t.Elem())))
			}
			return e.partsResult(st, 7, nil, vals)
		case *types.Array:
			a := i.v.(Agg)
			var vals []Value
			n := e.slots(t.Elem())
			for k := 0; k < int(t.Len()); k++ {
				var v Value = a[k*n]
				if e.isAgg(t.Elem()) {
					v = append(Agg(nil), a[k*n:(k+1)*n]...)
				}
				vals = append(vals, e.asIface(t.Elem(), v))
			}
			return e.partsResult(st, 7, nil, vals)
		case *types.Map:
			m := i.v.(MapRef)
			if m.obj == 0 {
				return e.partsResult(st, 11, nil, nil)
			}
			if k, _ := basicKind(t.Key()); k != 6 {
				panic(unsupported("parts of a map with keys of type %s", t.Key()))
			}
			var ns, vals []Value
			for _, x := range e.obj(st, m.obj).ents {
				ns = append(ns, x.k)
				vals = append(vals, e.asIface(t.Elem(), x.v))
			}
			return one(st, Tuple{c.K(64, 8), e.newSlice(st, ns), e.newSlice(st, vals)})
		case *types.Struct:
			a := i.v.(Agg)
			var names []string
			var vals []Value
			for _, f := range jsonFields(t) {
				off, ft := e.fieldOff(t, f.i), t.Field(f.i).Type()
				var v Value = a[off]
				if e.isAgg(ft) {
					v = append(Agg(nil), a[off:off+e.slots(ft)]...)
				}
				names = append(names, f.name)
				vals = append(vals, e.asIface(ft, v))
			}
			return e.partsResult(st, 9, names, vals)
		case *types.Pointer:
			p := i.v.(Ptr)
			if p.obj == 0 {
				return e.partsResult(st, 11, nil, nil)
			}
			return e.partsResult(st, 10, nil, []Value{e.asIface(t.Elem(), e.load(st, p, t.Elem()))})
		}
		return e.partsResult(st, 0, nil, nil)
	})
	target := func(v Value) (Ptr, types.Type) {
		i := v.(Iface)
		if i.t == nil {
			return Ptr{}, nil
		}
		t, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			return Ptr{}, nil
		}
		p, ok := i.v.(Ptr)
		if !ok {
			panic(unsupported("pointer of kind %T", i.v))
		}
		return p, t.Elem()
	}
	impure(mpkg+"Target", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		p, t := target(args[0])
		if p.obj == 0 {
			return e.partsResult(st, 11, nil, nil)
		}
		if k, _ := basicKind(t); k != 0 {
			return e.partsResult(st, k, nil, nil)
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return e.partsResult(st, 7, nil, nil)
		case *types.Struct:
			var names []string
			var ptrs []Value
			for _, f := range jsonFields(u) {
				names = append(names, f.name)
				ptrs = append(ptrs, Iface{types.NewPointer(u.Field(f.i).Type()), Ptr{p.obj, p.off + int32(e.fieldOff(u, f.i))}})
			}
			return e.partsResult(st, 9, names, ptrs)
		}
		return e.partsResult(st, 0, nil, nil)
	})
	impure(mpkg+"Assign", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		p, t := target(args[0])
		v := args[1].(Iface).v
		switch k, _ := basicKind(t); k {
		case 2, 3:
			v = e.c.Extract(e.term(v), bvWidth(t.Underlying().(*types.Basic))-1, 0)
		case 5:
			v = e.c.FCvt(e.term(v), F32S)
		}
		e.store(st, p, t, v)
		return one(st, Tuple{})
	})
	impure(mpkg+"Bits", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		_, t := target(args[0])
		n := 64
		switch k, _ := basicKind(t); k {
		case 2, 3:
			n = bvWidth(t.Underlying().(*types.Basic))
		case 5:
			n = 32
		}
		return one(st, e.c.K(64, uint64(n)))
	})
	impure(mpkg+"Grow", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		p, t := target(args[0])
		el := t.Underlying().(*types.Slice).Elem()
		n := e.constInt(args[1])
		var slots, ptrs []Value
		for i := 0; i < n; i++ {
			slots = e.zeroSlots(el, slots)
		}
		s := e.newSlice(st, slots)
		s.len, s.cap = int32(n), int32(n)
		for i := 0; i < n; i++ {
			ptrs = append(ptrs, Iface{types.NewPointer(el), Ptr{s.obj, int32(i * e.slots(el))}})
		}
		e.store(st, p, t, s)
		return one(st, e.newSlice(st, ptrs))
	})
	impure(mpkg+"BSONNames", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		var out []Value
		t := args[0].(Iface).t.Underlying().(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			tag := reflect.StructTag(t.Tag(i)).Get("bson")
			if f := t.Field(i); !f.Exported() || f.Embedded() || strings.Contains(tag, ",") || tag == "-" {
				panic(unsupported("bson of field %s", f.Name()))
			}
			if tag == "" {
				tag = strings.ToLower(t.Field(i).Name())
			}
			out = append(out, Str{s: tag})
		}
		return one(st, e.newSlice(st, out))
	})
	var intOf func(e *Engine, st *State, f *Term) []Alt
	intOf = func(e *Engine, st *State, f *Term) (out []Alt) {
		no := one(st, Tuple{e.c.K(64, 0), e.c.fls})
		if e.c.real {
			return no
		}
		both := func(cond *Term, yes, no func(*State) []Alt) (out []Alt) {
			t, f := e.split(st, cond)
			if t != nil {
				out = append(out, yes(t)...)
			}
			if f != nil {
				out = append(out, no(f)...)
			}
			return out
		}
		n := e.c.intVal(f)
		switch {
		case n != nil && f.op == OFNeg: // minus zero is no integer
			return both(e.c.Eq(n, e.c.K(64, 0)),
				func(st *State) []Alt { return one(st, Tuple{n, e.c.fls}) },
				func(st *State) []Alt { return one(st, Tuple{n, e.c.tru}) })
		case n != nil:
			return one(st, Tuple{n, e.c.tru})
		case f.op == OIte:
			return both(f.args[0],
				func(st *State) []Alt { return intOf(e, st, f.args[1]) },
				func(st *State) []Alt { return intOf(e, st, f.args[2]) })
		case f.op == OConst && f.sort.K == SF64:
			if k := fval(f); k == math.Trunc(k) && math.Abs(k) <= 1<<53 && (k != 0 || !math.Signbit(k)) {
				return one(st, Tuple{e.c.K(64, uint64(int64(k))), e.c.tru})
			}
		}
		return no
	}
	impure(mpkg+"IntOf", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		f := e.term(args[0])
		if f.op == OConst {
			return one(st, Tuple{e.c.K(64, 0), e.c.fls})
		}
		return intOf(e, st, f)
	})
}

// flat lists the scalars of a type of fixed size, in order, with their slot.
func (e *Engine) flat(t types.Type, slot int, f func(t types.Type, slot, size int)) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		size := 0
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			size = 1
		case types.Int16, types.Uint16:
			size = 2
		case types.Int32, types.Uint32, types.Float32:
			size = 4
		case types.Int64, types.Uint64, types.Float64:
			size = 8
		default:
			return false
		}
		f(t, slot, size)
		return true
	case *types.Array:
		n := e.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			if !e.flat(u.Elem(), slot+i*n, f) {
				return false
			}
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				panic(unsupported("encoding/binary of a blank field"))
			}
			if !e.flat(u.Field(i).Type(), slot+e.fieldOff(u, i), f) {
				return false
			}
		}
		return true
	}
	return false
}

func init() {
	impure(mpkg+"Count", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		s, ok := args[0].(Iface).v.(Slice)
		if !ok {
			panic(unsupported("length of %T", args[0].(Iface).v))
		}
		return one(st, e.c.K(64, uint64(s.len)))
	})
	impure(mpkg+"Swap", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i := args[0].(Iface)
		s := i.v.(Slice)
		el := i.t.Underlying().(*types.Slice).Elem()
		n := int32(e.slots(el))
		a, b := Ptr{s.obj, s.off + n*int32(e.constInt(args[1]))}, Ptr{s.obj, s.off + n*int32(e.constInt(args[2]))}
		x, y := e.load(st, a, el), e.load(st, b, el)
		e.store(st, a, el, y)
		e.store(st, b, el, x)
		return one(st, Tuple{})
	})
	impure(mpkg+"AssignAs", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i, err := args[0].(Iface), args[1].(Iface)
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok || !types.AssignableTo(err.t, pt.Elem()) {
			return one(st, e.c.fls)
		}
		e.store(st, i.v.(Ptr), pt.Elem(), map[bool]Value{true: err, false: err.v}[types.IsInterface(pt.Elem())])
		return one(st, e.c.tru)
	})
	impure(mpkg+"Flat", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		none := one(st, Tuple{Slice{}, Slice{}, Slice{}, e.c.fls})
		i := args[0].(Iface)
		if i.t == nil {
			return none
		}
		var at Ptr
		var t types.Type
		v := i.v
		n := 1
		switch u := i.t.Underlying().(type) {
		case *types.Pointer:
			at, t = v.(Ptr), u.Elem()
			if s, ok := t.Underlying().(*types.Slice); ok {
				x := e.load(st, at, t).(Slice)
				at, t, n = Ptr{x.obj, x.off}, s.Elem(), int(x.len)
			}
		case *types.Slice:
			x := v.(Slice)
			at, t, n = Ptr{x.obj, x.off}, u.Elem(), int(x.len)
		default:
			t = i.t
		}
		var sizes, bits, ptrs []Value
		for k := 0; k < n; k++ {
			ok := e.flat(t, k*e.slots(t), func(t types.Type, slot, size int) {
				var x Value
				if at.obj != 0 {
					p := Ptr{at.obj, at.off + int32(slot)}
					x = e.load(st, p, t)
					ptrs = append(ptrs, Iface{types.NewPointer(t), p})
				} else if a, ok := v.(Agg); ok {
					x = a[slot]
				} else {
					x = v
				}
				if op, ok := x.(Opaque); ok {
					panic(unsupported("opaque value: %s", op.why))
				}
				b := e.term(x)
				switch kind, _ := basicKind(t); kind {
				case 1:
					b = e.c.Ite(b, e.c.K(64, 1), e.c.K(64, 0))
				case 4, 5:
					b = e.c.ZExt(e.c.FToBits(b), 64)
				default:
					b = e.c.ZExt(b, 64)
				}
				sizes = append(sizes, e.c.K(64, uint64(size)))
				bits = append(bits, b)
			})
			if !ok {
				return none
			}
		}
		return one(st, Tuple{e.newSlice(st, sizes), e.newSlice(st, bits), e.newSlice(st, ptrs), e.c.tru})
	})
}
