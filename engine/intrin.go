package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type handler func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt

var intrinsics = map[string]handler{}
var pureIntrinsics = map[string]bool{}

const symTime = 0x7ffffffffffffff1

const vpkg = "github.com/recolude/rap/internal/vsym."
const mpkg = "github.com/recolude/rap/internal/vsymmodels."

func itoa(n int) string { return strconv.Itoa(n) }

func pure(name string, f func(e *Engine, args []Value) Value) {
	intrinsics[name] = func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		for _, a := range args {
			if op, ok := a.(Opaque); ok {
				panic(unsupported("%s of opaque value: %s", name, op.why))
			}
		}
		return one(st, f(e, args))
	}
	pureIntrinsics[name] = true
}

func impure(name string, f handler) { intrinsics[name] = f }

// initAllowed: packages whose initialisers are executed.
var initPkgs = map[string]bool{
	"io": true, "errors": true, "bytes": true, "strings": true, "strconv": true, "bufio": true,
	"unicode/utf8": true, "encoding/binary": true, "encoding/hex": true, "encoding/csv": true,
	"encoding/base64": true, "math": true, "math/bits": true, "sort": true, "slices": true,
	"internal/bytealg": true, "internal/byteorder": true, "internal/stringslite": true,
	"compress/flate": true, "time": true, "unicode": true, "io/fs": false,
	"internal/strconv": true, "internal/itoa": true, "internal/oserror": true,
	"container/list": true, "cmp": true, "iter": false, "maps": true,
	"github.com/EliCDavis/vector": true, "github.com/EliCDavis/vector/vector2": true,
	"github.com/EliCDavis/vector/vector3": true, "github.com/EliCDavis/vector/vector4": true,
	"github.com/Jeffail/gabs": true,
}

func init() {
	// The local time zone is taken to be UTC.
	impure("time.initLocal", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt { return one(st, nil) })
}

func initAllowed(path string) bool {
	if len(path) >= 22 && path[:22] == "github.com/recolude/ra" {
		return true
	}
	return initPkgs[path]
}

func constStr(v Value) string {
	s, ok := v.(Str)
	if !ok || s.b != nil {
		panic(unsupported("constant string expected"))
	}
	return s.s
}

func (e *Engine) constInt(v Value) int {
	t := e.term(v)
	if !t.isConst() {
		panic(unsupported("constant integer expected"))
	}
	return int(t.sint())
}

func (e *Engine) inputName(st *State, v Value) string {
	n := constStr(v)
	k := st.addCount(n)
	return n + "#" + itoa(k)
}

func init() {
	// ------------------------------------------------------------ vsym
	bv := func(name string, w int) {
		impure(vpkg+name, func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
			return one(st, e.c.Var(e.inputName(st, args[0]), BV(w)))
		})
	}
	bv("U8", 8)
	bv("U16", 16)
	bv("U32", 32)
	bv("U64", 64)
	bv("I64", 64)
	bv("I32", 32)
	bv("Int", 64)
	impure(vpkg+"Bool", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.Var(e.inputName(st, args[0]), BoolS))
	})
	impure(vpkg+"F64", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		if e.c.real {
			panic(unsupported("F64 input in real mode"))
		}
		return one(st, e.c.FFromBits(e.c.Var(e.inputName(st, args[0]), BV(64))))
	})
	impure(vpkg+"F32", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		if e.c.real {
			panic(unsupported("F32 input in real mode"))
		}
		return one(st, e.c.FFromBits(e.c.Var(e.inputName(st, args[0]), BV(32))))
	})
	impure(vpkg+"Real", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		lo, hi := e.term(args[1]), e.term(args[2])
		if !lo.isConst() || !hi.isConst() {
			panic(unsupported("Real with symbolic bounds"))
		}
		n := e.inputName(st, args[0])
		if e.c.real {
			return one(st, e.c.RealVar(n, F64S, lo.f64(), hi.f64()))
		}
		x := e.c.FFromBits(e.c.Var(n, BV(64)))
		s := e.assumeTerm(st, e.c.And(e.c.FCmp(OFLe, lo, x), e.c.FCmp(OFLe, x, hi)))
		if s == nil {
			return nil
		}
		return one(s, x)
	})
	impure(vpkg+"Grid", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		lo, hi, g := e.term(args[1]), e.term(args[2]), e.constInt(args[3])
		if !lo.isConst() || !hi.isConst() || !e.c.real {
			panic(unsupported("Grid with symbolic bounds or outside real mode"))
		}
		return one(st, e.c.GridVar(e.inputName(st, args[0]), lo.f64(), hi.f64(), -g))
	})
	impure(vpkg+"Cut", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		if t := e.term(args[0]); !t.isConst() && t.op != OVar && e.c.real {
			if e.cuts == nil {
				e.cuts = map[int32]bool{}
			}
			e.cuts[t.id] = true
		}
		return one(st, Tuple{})
	})
	impure(vpkg+"Range", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		lo, hi := e.term(args[1]), e.term(args[2])
		x := e.c.Var(e.inputName(st, args[0]), BV(64))
		s := e.assumeTerm(st, e.c.And(e.c.Sle(lo, x), e.c.Sle(x, hi)))
		if s == nil {
			return nil
		}
		return one(s, x)
	})
	impure(vpkg+"Choose", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		n := e.constInt(args[1])
		name := e.inputName(st, args[0])
		var out []Alt
		for i := 0; i < n; i++ {
			s := st
			if i < n-1 {
				s = st.fork()
			}
			s.choices = append(s.choices, choiceRec{name, i})
			out = append(out, Alt{st: s, v: e.c.K(64, uint64(i))})
		}
		return out
	})
	impure(vpkg+"Case", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.K(64, uint64(e.caseN)))
	})
	impure(vpkg+"Thorough", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.Bool(e.cfg["thorough"] == 1))
	})
	impure(vpkg+"Active", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.fls)
	})
	impure(vpkg+"Native", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.fls)
	})
	impure(vpkg+"Bytes", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		n := e.constInt(args[1])
		name := e.inputName(st, args[0])
		out := make([]Value, n)
		for i := range out {
			out[i] = e.c.Var(name+"."+itoa(i), BV(8))
		}
		return one(st, e.newSlice(st, out))
	})
	impure(vpkg+"Str", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		n := e.constInt(args[1])
		name := e.inputName(st, args[0])
		out := make([]*Term, n)
		for i := range out {
			out[i] = e.c.Var(name+"."+itoa(i), BV(8))
		}
		return one(st, mkStr(out))
	})
	impure(vpkg+"Assume", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		s := e.assumeTerm(st, e.term(args[0]))
		if s == nil {
			return nil
		}
		return one(s, Tuple{})
	})
	impure(vpkg+"Assert", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		s := e.assertTerm(st, e.term(args[0]), constStr(args[1]))
		if s == nil {
			return nil
		}
		return one(s, Tuple{})
	})
	impure(vpkg+"Snapshot", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		e.snapshot(st)
		return one(st, Tuple{})
	})
	impure(vpkg+"Unwritten", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		c := e.c.tru
		if e.wroteShared(st, args[1]) {
			c = e.c.fls
		}
		s := e.assertTerm(st, c, constStr(args[0]))
		if s == nil {
			return nil
		}
		return one(s, Tuple{})
	})
	impure(vpkg+"Reach", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		st.addReach(constStr(args[0]))
		return one(st, Tuple{})
	})
	impure(vpkg+"Observe", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		v := args[1]
		if i, ok := v.(Iface); ok {
			if s, ok := i.v.(Slice); ok {
				v = Iface{i.t, mkStr(e.bytesOf(st, s))}
			}
		}
		st.obs = append(st.obs, obsRec{constStr(args[0]), v})
		return one(st, Tuple{})
	})
	impure(vpkg+"Conc", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		t := e.term(args[0])
		var out []Alt
		for _, a := range e.concretise(st, t, 300, "harness enumeration") {
			out = append(out, Alt{st: a.st, v: e.c.K(64, a.v)})
		}
		return out
	})
	pure(vpkg+"EqBytes", func(e *Engine, args []Value) Value { panic(unsupported("EqBytes")) })
	impure(vpkg+"EqBytes", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		a, b := args[0].(Slice), args[1].(Slice)
		if a.len != b.len {
			return one(st, e.c.fls)
		}
		return one(st, e.eqStr(mkStr(e.bytesOf(st, a)), mkStr(e.bytesOf(st, b))))
	})
	pure(vpkg+"And", func(e *Engine, args []Value) Value { return e.c.And(e.term(args[0]), e.term(args[1])) })
	pure(vpkg+"Or", func(e *Engine, args []Value) Value { return e.c.Or(e.term(args[0]), e.term(args[1])) })
	pure(vpkg+"Implies", func(e *Engine, args []Value) Value { return e.c.Implies(e.term(args[0]), e.term(args[1])) })
	pure(vpkg+"IteF", func(e *Engine, args []Value) Value {
		return e.c.Ite(e.term(args[0]), e.term(args[1]), e.term(args[2]))
	})
	pure(vpkg+"IteI", func(e *Engine, args []Value) Value {
		return e.c.Ite(e.term(args[0]), e.term(args[1]), e.term(args[2]))
	})
	// bit equality of floats: identical, NaN payload included
	pure(vpkg+"SameF64", func(e *Engine, args []Value) Value {
		a, b := e.term(args[0]), e.term(args[1])
		if e.c.real {
			return e.c.FCmp(OFEq, a, b)
		}
		return e.c.Eq(e.c.FToBits(a), e.c.FToBits(b))
	})
	impure(vpkg+"RealMode", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return one(st, e.c.Bool(e.c.real))
	})
	impure(vpkg+"MapOrder", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		e.mapOrder = e.term(args[0]) == e.c.tru
		return one(st, Tuple{})
	})

	// models' escape hatches
	impure(mpkg+"Unsupported", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		panic(unsupported("%s", constStr(args[0])))
	})
	impure(mpkg+"Symbolic", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i, ok := args[0].(Iface)
		if !ok {
			panic(unsupported("Symbolic of %T", args[0]))
		}
		switch x := i.v.(type) {
		case *Term:
			return one(st, e.c.Bool(!x.isConst()))
		case Str:
			return one(st, e.c.Bool(x.b != nil))
		}
		return one(st, e.c.fls)
	})
	impure(mpkg+"TypeName", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i := args[0].(Iface)
		if i.t == nil {
			return one(st, Str{s: "<nil>"})
		}
		return one(st, Str{s: types.TypeString(i.t, func(p *types.Package) string { return p.Name() })})
	})
	// Scalar unwraps any basic-kinded dynamic value: kind 0 none, 1 bool, 2 signed, 3 unsigned, 4 float, 5 string
	impure(mpkg+"Scalar", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		i := args[0].(Iface)
		c := e.c
		res := Tuple{c.K(64, 0), c.fls, c.K(64, 0), c.KF64(0), Str{}}
		if i.t != nil {
			if b, ok := i.t.Underlying().(*types.Basic); ok {
				switch {
				case b.Info()&types.IsBoolean != 0:
					res[0], res[1] = c.K(64, 1), i.v
				case b.Info()&types.IsString != 0:
					res[0], res[4] = c.K(64, 5), i.v
				case b.Info()&types.IsInteger != 0:
					t := e.term(i.v)
					if b.Info()&types.IsUnsigned != 0 {
						res[0], res[2] = c.K(64, 3), c.ZExt(t, 64)
					} else {
						res[0], res[2] = c.K(64, 2), c.SExt(t, 64)
					}
				case b.Info()&types.IsFloat != 0:
					res[0], res[3] = c.K(64, 4), c.FCvt(e.term(i.v), F64S)
				}
			}
		}
		return one(st, res)
	})

	// ------------------------------------------------------------ time
	// A time made from a symbolic count of microseconds is kept as that count; only
	// UnixMicro can be asked of it (the library's conversions are exact inverses).
	pure("time.runtimeNano", func(e *Engine, args []Value) Value { return e.c.K(64, 1000) })
	impure("time.UnixMicro", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		if t := e.term(args[0]); !t.isConst() {
			return one(st, Agg{e.c.K(64, symTime), t, Ptr{}})
		}
		return []Alt{{useBody: true}}
	})
	impure("(time.Time).UnixMicro", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		if a, ok := args[0].(Agg); ok {
			if w, ok := a[0].(*Term); ok && w.isConst() && w.val == symTime {
				return one(st, a[1])
			}
		}
		return []Alt{{useBody: true}}
	})

	// ------------------------------------------------------------ math
	pure("internal/strconv.float64bits", func(e *Engine, a []Value) Value { return e.c.FToBits(e.term(a[0])) })
	pure("internal/strconv.float32bits", func(e *Engine, a []Value) Value { return e.c.FToBits(e.term(a[0])) })
	pure("internal/strconv.float64frombits", func(e *Engine, a []Value) Value { return e.c.FFromBits(e.term(a[0])) })
	pure("internal/strconv.float32frombits", func(e *Engine, a []Value) Value { return e.c.FFromBits(e.term(a[0])) })
	pure("strconv.FormatFloat", func(e *Engine, a []Value) Value {
		f := e.term(a[0])
		if !f.isConst() {
			panic(unsupported("formatting of a symbolic float"))
		}
		return Str{s: strconv.FormatFloat(f.f64(), byte(e.constInt(a[1])), e.constInt(a[2]), e.constInt(a[3]))}
	})
	impure("internal/strconv.FormatInt", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return e.decimal(st, e.term(args[0]), e.term(args[1]), true)
	})
	impure("internal/strconv.FormatUint", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return e.decimal(st, e.term(args[0]), e.term(args[1]), false)
	})
	impure("internal/strconv.Itoa", func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
		return e.decimal(st, e.term(args[0]), e.c.K(64, 10), true)
	})
	pure("math.Float64bits", func(e *Engine, a []Value) Value { return e.c.FToBits(e.term(a[0])) })
	pure("math.Float32bits", func(e *Engine, a []Value) Value { return e.c.FToBits(e.term(a[0])) })
	pure("math.Float64frombits", func(e *Engine, a []Value) Value { return e.c.FFromBits(e.term(a[0])) })
	pure("math.Float32frombits", func(e *Engine, a []Value) Value { return e.c.FFromBits(e.term(a[0])) })
	f1 := func(name string, op Op) {
		pure("math."+name, func(e *Engine, a []Value) Value { return e.c.FUn(op, e.term(a[0])) })
	}
	f1("Abs", OFAbs)
	f1("Floor", OFFloor)
	f1("Ceil", OFCeil)
	f1("Trunc", OFTrunc)
	f1("Sqrt", OFSqrt)
	f1("RoundToEven", OFRoundEven)
	pure("math.IsNaN", func(e *Engine, a []Value) Value {
		x := e.term(a[0])
		return e.c.Not(e.c.FCmp(OFEq, x, x))
	})
	pure("math.IsInf", func(e *Engine, a []Value) Value {
		x, s := e.term(a[0]), e.term(a[1])
		c := e.c
		z := c.K(64, 0)
		pos := c.FCmp(OFEq, x, c.KF64(math.Inf(1)))
		neg := c.FCmp(OFEq, x, c.KF64(math.Inf(-1)))
		return c.Or(c.And(c.Sle(z, s), pos), c.And(c.Sle(s, z), neg))
	})
	pure("math.Inf", func(e *Engine, a []Value) Value {
		s := e.term(a[0])
		return e.c.Ite(e.c.Sle(e.c.K(64, 0), s), e.c.KF64(math.Inf(1)), e.c.KF64(math.Inf(-1)))
	})
	pure("math.NaN", func(e *Engine, a []Value) Value { return e.c.KF64(math.NaN()) })
	pure("math.Signbit", func(e *Engine, a []Value) Value {
		return e.c.Eq(e.c.Extract(e.c.FToBits(e.term(a[0])), 63, 63), e.c.K(1, 1))
	})
	mm := func(name string, isMax bool) {
		pure("math."+name, func(e *Engine, a []Value) Value {
			c := e.c
			x, y := e.term(a[0]), e.term(a[1])
			if x.isConst() && y.isConst() {
				if isMax {
					return c.KF64(math.Max(x.f64(), y.f64()))
				}
				return c.KF64(math.Min(x.f64(), y.f64()))
			}
			var lt *Term
			if isMax {
				lt = c.FCmp(OFLt, y, x)
			} else {
				lt = c.FCmp(OFLt, x, y)
			}
			r := c.Ite(lt, x, y)
			if c.real {
				return r
			}
			nan := c.Or(c.Not(c.FCmp(OFEq, x, x)), c.Not(c.FCmp(OFEq, y, y)))
			z := c.And(c.FCmp(OFEq, x, c.KF64(0)), c.FCmp(OFEq, y, c.KF64(0)))
			sx := c.Eq(c.Extract(c.FToBits(x), 63, 63), c.K(1, 1))
			zr := c.Ite(sx, y, x)
			if !isMax {
				zr = c.Ite(sx, x, y)
			}
			inf := math.Inf(1)
			if !isMax {
				inf = math.Inf(-1)
			}
			isInf := c.Or(c.FCmp(OFEq, x, c.KF64(inf)), c.FCmp(OFEq, y, c.KF64(inf)))
			return c.Ite(isInf, c.KF64(inf), c.Ite(nan, c.KF64(math.NaN()), c.Ite(z, zr, r)))
		})
	}
	mm("Max", true)
	mm("Min", false)
	conc1 := func(name string, f func(float64) float64) {
		pure("math."+name, func(e *Engine, a []Value) Value {
			x := e.term(a[0])
			if !x.isConst() {
				panic(unsupported("math.%s of a symbolic value", name))
			}
			return e.c.KF64(f(x.f64()))
		})
	}
	conc1("Sin", math.Sin)
	conc1("Cos", math.Cos)
	conc1("Log", math.Log)
	conc1("Exp", math.Exp)
	conc2 := func(name string, f func(a, b float64) float64) {
		pure("math."+name, func(e *Engine, a []Value) Value {
			x, y := e.term(a[0]), e.term(a[1])
			if !x.isConst() || !y.isConst() {
				panic(unsupported("math.%s of a symbolic value", name))
			}
			return e.c.KF64(f(x.f64(), y.f64()))
		})
	}
	conc2("Pow", math.Pow)
	conc2("Mod", math.Mod)
	pure("math.FMA", func(e *Engine, a []Value) Value { panic(unsupported("math.FMA")) })
	bits2 := func(name string, w int, f func(x uint64) int) {
		old := intrinsics["math/bits."+name]
		_ = old
		impure("math/bits."+name, func(e *Engine, st *State, fn *ssa.Function, args []Value) []Alt {
			x := e.term(args[0])
			if x.isConst() {
				return one(st, e.c.K(64, uint64(f(x.val))))
			}
			var out []Alt
			switch name {
			case "Len64", "Len32", "Len", "Len8", "Len16":
				r := e.c.K(64, 0)
				for i := 1; i <= int(x.sort.W); i++ {
					r = e.c.Ite(e.c.Eq(e.c.Extract(x, i-1, i-1), e.c.K(1, 1)), e.c.K(64, uint64(i)), r)
				}
				return one(st, r)
			case "TrailingZeros64", "TrailingZeros32", "TrailingZeros":
				r := e.c.K(64, uint64(x.sort.W))
				for i := int(x.sort.W) - 1; i >= 0; i-- {
					r = e.c.Ite(e.c.Eq(e.c.Extract(x, i, i), e.c.K(1, 1)), e.c.K(64, uint64(i)), r)
				}
				return one(st, r)
			}
			_ = out
			panic(unsupported("bits.%s of a symbolic value", name))
		})
	}
	bits2("Len64", 64, func(x uint64) int { return bits.Len64(x) })
	bits2("Len32", 32, func(x uint64) int { return bits.Len32(uint32(x)) })
	bits2("Len", 64, func(x uint64) int { return bits.Len64(x) })
	bits2("TrailingZeros64", 64, func(x uint64) int { return bits.TrailingZeros64(x) })
	bits2("TrailingZeros32", 32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	bits2("LeadingZeros64", 64, func(x uint64) int { return bits.LeadingZeros64(x) })
	bits2("OnesCount64", 64, func(x uint64) int { return bits.OnesCount64(x) })

	// ------------------------------------------------------------ bytealg and friends
	idxByte := func(e *Engine, st *State, bs []*Term, b *Term) []Alt {
		var out []Alt
		cur := st
		for i, x := range bs {
			t := e.c.Eq(x, b)
			if t == e.c.fls {
				continue
			}
			ts, fs := e.split(cur, t)
			if ts != nil {
				out = append(out, Alt{st: ts, v: e.c.K(64, uint64(i))})
			}
			if fs == nil {
				return out
			}
			cur = fs
		}
		return append(out, Alt{st: cur, v: e.c.K(64, ^uint64(0))})
	}
	impure("internal/bytealg.IndexByte", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return idxByte(e, st, e.bytesOf(st, a[0].(Slice)), e.term(a[1]))
	})
	impure("internal/bytealg.IndexByteString", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return idxByte(e, st, a[0].(Str).terms(e.c), e.term(a[1]))
	})
	impure("bytes.Equal", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.len != y.len {
			return one(st, e.c.fls)
		}
		return one(st, e.eqStr(mkStr(e.bytesOf(st, x)), mkStr(e.bytesOf(st, y))))
	})
	intrinsics["internal/bytealg.Equal"] = intrinsics["bytes.Equal"]
	count := func(e *Engine, bs []*Term, b *Term) Value {
		r := e.c.K(64, 0)
		for _, x := range bs {
			r = e.c.Add(r, e.c.Ite(e.c.Eq(x, b), e.c.K(64, 1), e.c.K(64, 0)))
		}
		return r
	}
	impure("internal/bytealg.Count", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return one(st, count(e, e.bytesOf(st, a[0].(Slice)), e.term(a[1])))
	})
	pure("internal/bytealg.CountString", func(e *Engine, a []Value) Value {
		return count(e, a[0].(Str).terms(e.c), e.term(a[1]))
	})
	impure("internal/bytealg.MakeNoZero", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		n := e.term(a[0])
		return e.makeSlice(st, types.Typ[types.Uint8], n, n)
	})
	index := func(e *Engine, st *State, hay, needle Str) []Alt {
		if hay.b == nil && needle.b == nil {
			for i := 0; i+needle.Len() <= hay.Len(); i++ {
				if hay.s[i:i+needle.Len()] == needle.s {
					return one(st, e.c.K(64, uint64(i)))
				}
			}
			return one(st, e.c.K(64, ^uint64(0)))
		}
		var out []Alt
		cur := st
		for i := 0; i+needle.Len() <= hay.Len(); i++ {
			t := e.eqStr(hay.sub(i, i+needle.Len()), needle)
			if t == e.c.fls {
				continue
			}
			ts, fs := e.split(cur, t)
			if ts != nil {
				out = append(out, Alt{st: ts, v: e.c.K(64, uint64(i))})
			}
			if fs == nil {
				return out
			}
			cur = fs
		}
		return append(out, Alt{st: cur, v: e.c.K(64, ^uint64(0))})
	}
	impure("strings.Index", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return index(e, st, a[0].(Str), a[1].(Str))
	})
	intrinsics["internal/stringslite.Index"] = intrinsics["strings.Index"]
	impure("bytes.Index", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return index(e, st, mkStr(e.bytesOf(st, a[0].(Slice))), mkStr(e.bytesOf(st, a[1].(Slice))))
	})
	cmp := func(e *Engine, a, b Str) Value {
		c := e.c
		return c.Ite(e.strLess(a, b, false), c.K(64, ^uint64(0)), c.Ite(e.strLess(b, a, false), c.K(64, 1), c.K(64, 0)))
	}
	impure("bytes.Compare", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return one(st, cmp(e, mkStr(e.bytesOf(st, a[0].(Slice))), mkStr(e.bytesOf(st, a[1].(Slice)))))
	})
	pure("internal/bytealg.CompareString", func(e *Engine, a []Value) Value { return cmp(e, a[0].(Str), a[1].(Str)) })
	pure("strings.Compare", func(e *Engine, a []Value) Value { return cmp(e, a[0].(Str), a[1].(Str)) })
	intrinsics["internal/bytealg.Compare"] = intrinsics["bytes.Compare"]

	// ------------------------------------------------------------ runtime-ish
	nop := func(name string) {
		impure(name, func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
			return one(st, e.zeroResult(fn.Signature))
		})
	}
	for _, n := range []string{
		"(*strings.Builder).copyCheck", "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock",
		"(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put",
		"runtime.KeepAlive", "runtime.GC", "internal/race.Acquire", "internal/race.Release", "runtime.SetFinalizer",
		"internal/abi.Escape", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done",
	} {
		nop(n)
	}
	pure("internal/abi.NoEscape", func(e *Engine, a []Value) Value { return a[0] })
	pure("internal/abi.Escape", func(e *Engine, a []Value) Value { return a[0] })
	pure("internal/stringslite.Clone", func(e *Engine, a []Value) Value { return a[0] })
	impure("(*sync.Pool).Get", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		p := a[0].(Ptr)
		pt := fn.Signature.Recv().Type().(*types.Pointer).Elem()
		s := pt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "New" {
				f := e.load(st, Ptr{p.obj, p.off + int32(e.fieldOff(s, i))}, s.Field(i).Type())
				if cl, ok := f.(Closure); ok && cl.fn != nil {
					return e.callValue(st, cl, nil, nil)
				}
			}
		}
		return one(st, Iface{})
	})
	impure("(*sync.Once).Do", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		p := a[0].(Ptr)
		o := e.obj(st, p.obj)
		// mark through the first scalar slot
		n := e.slots(fn.Signature.Recv().Type().(*types.Pointer).Elem())
		for i := 0; i < n; i++ {
			if t, ok := o.slots[int(p.off)+i].(*Term); ok && t.sort.K == SBV {
				if t.isConst() && t.val == 1 {
					return one(st, Tuple{})
				}
				st.heap.mut(p.obj).slots[int(p.off)+i] = e.c.K(int(t.sort.W), 1)
				return e.callValue(st, a[1], nil, nil)
			}
		}
		panic(unsupported("sync.Once layout"))
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		impure("sync/atomic.Load"+ty, func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
			p := a[0].(Ptr)
			return one(st, e.obj(st, p.obj).slots[p.off])
		})
		impure("sync/atomic.Store"+ty, func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
			p := a[0].(Ptr)
			st.heap.mut(p.obj).slots[p.off] = a[1]
			return one(st, Tuple{})
		})
		impure("sync/atomic.Add"+ty, func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
			p := a[0].(Ptr)
			o := st.heap.mut(p.obj)
			v := e.c.Add(e.term(o.slots[p.off]), e.term(a[1]))
			o.slots[p.off] = v
			return one(st, v)
		})
		impure("sync/atomic.CompareAndSwap"+ty, func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
			p := a[0].(Ptr)
			t := e.eqVal(e.obj(st, p.obj).slots[p.off], a[1])
			y, n := e.split(st, t)
			var out []Alt
			if y != nil {
				y.heap.mut(p.obj).slots[p.off] = a[2]
				out = append(out, Alt{st: y, v: e.c.tru})
			}
			if n != nil {
				out = append(out, Alt{st: n, v: e.c.fls})
			}
			return out
		})
	}
	impure("errors.Is", nil)
	delete(intrinsics, "errors.Is")
}

func (e *Engine) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return Tuple{}
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

// assumeTerm keeps only the executions where t holds.
func (e *Engine) assumeTerm(st *State, t *Term) *State {
	ts, _ := e.split(st, t)
	return ts
}

func (e *Engine) obsString(m *Model, v Value) (string, bool) {
	i, ok := v.(Iface)
	if !ok {
		return "", false
	}
	switch x := i.v.(type) {
	case *Term:
		n := m.eval(x)
		switch x.sort.K {
		case SBool:
			return fmt.Sprint(n == 1), true
		case SBV:
			if signed(i.t) {
				return fmt.Sprint(sext(n, x.sort.W)), true
			}
			return fmt.Sprint(n), true
		case SF64:
			return fmt.Sprintf("%016x", n), true
		case SF32:
			return fmt.Sprintf("%08x", n), true
		}
	case Str:
		bs := make([]byte, x.Len())
		for k := range bs {
			bs[k] = byte(m.eval(x.at(e.c, k)))
		}
		return fmt.Sprintf("%q", string(bs)), true
	case nil:
	}
	if i.t == nil {
		return "nil", true
	}
	return "", false
}

// decimal writes a symbolic integer in base 10 over fresh digit variables, which the
// value determines; one path per sign and number of digits.
func (e *Engine) decimal(st *State, x, base *Term, signed bool) []Alt {
	if x.isConst() || !base.isConst() || base.val != 10 {
		return []Alt{{useBody: true}}
	}
	c := e.c
	var out []Alt
	emit := func(st *State, x *Term, neg bool) {
		lo, hi := x.urange()
		min, rest := uint64(1), st
		for n := 1; n <= 20 && rest != nil; n++ {
			max := min * 10 // one more than the largest with n digits
			if n < 20 && max <= lo {
				min = max
				continue
			}
			cur := rest
			if n == 20 {
				rest = nil
			} else {
				var s *State
				s, rest = e.split(cur, c.Ult(x, c.K(64, max)))
				cur = s
			}
			if cur != nil {
				var b []*Term
				if neg {
					b = append(b, c.K(8, '-'))
				}
				cur.addCount("~digits" + itoa(n)) // keeps numbers of different length from being joined
				if neg {
					cur.addCount("~minus")
				}
				f := c.decimalOf(x, n)
				for _, d := range f.digits {
					b = append(b, c.Concat(c.K(4, 3), d))
				}
				// Every x has digits, so the state stays feasible: its model is extended instead of solved for.
				if cur.model == nil {
					if _, m := e.fullModel(cur, nil); m != nil {
						cur.model = m
					}
				}
				if cur.model != nil {
					vals := map[int32]uint64{}
					rem := cur.model.eval(x)
					for i := n - 1; i >= 0; i-- {
						vals[int32(f.digits[i].val)] = rem % 10
						rem /= 10
					}
					cur.model = cur.model.extend(vals)
				}
				cur.assume(c, f.meaning)
				out = append(out, Alt{st: cur, v: mkStr(b)})
			}
			if n < 20 && hi < max {
				break
			}
			min = max
		}
	}
	neg, pos := (*State)(nil), st
	if signed {
		neg, pos = e.split(st, c.Slt(x, c.K(64, 0)))
	}
	if neg != nil {
		emit(neg, c.Neg(x), true)
	}
	if pos != nil {
		emit(pos, x, false)
	}
	return out
}

// decimalOf introduces n digits for x. Their value, put together again, is x itself.
func (c *TCtx) decimalOf(x *Term, n int) *decimalForm {
	k := decimalKey{x.id, n}
	if f := c.decimals[k]; f != nil {
		return f
	}
	f := &decimalForm{}
	v := c.K(64, 0)
	bound := c.tru
	for i := 0; i < n; i++ {
		d := c.Var("~digit"+itoa(int(x.id))+"_"+itoa(n)+"_"+itoa(i), BV(4))
		bound = c.And(bound, c.Not(c.mk(OUlt, BoolS, 0, "", []*Term{c.K(4, 9), d})))
		v = c.Add(c.Mul(v, c.K(64, 10)), c.ZExt(d, 64))
		f.digits = append(f.digits, d)
	}
	f.meaning = c.And(bound, c.mk(OEq, BoolS, 0, "", []*Term{x, v}))
	v.alias = x
	x.forms = append(x.forms, v)
	if c.decimals == nil {
		c.decimals = map[decimalKey]*decimalForm{}
	}
	c.decimals[k] = f
	return f
}
