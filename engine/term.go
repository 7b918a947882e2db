package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type SK uint8

const (
	SBool SK = iota
	SBV
	SF64
	SF32
)

type Sort struct {
	K SK
	W uint16 // bit width for SBV (1..64)
}

var (
	BoolS = Sort{SBool, 0}
	F64S  = Sort{SF64, 64}
	F32S  = Sort{SF32, 32}
)

func BV(w int) Sort { return Sort{SBV, uint16(w)} }

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFLt
	OFLe
	OFEq
	OFFloor
	OFCeil
	OFTrunc
	OFSqrt
	OFCvt      // between F32 and F64
	OFFromBits // BV -> F
	OFToBits   // F -> BV
	OFFromS    // signed BV -> F
	OFFromU
	OFToS // F -> signed BV of width (truncation)
	OFToU
	OFRoundEven
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "ite", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "band", "bor", "bxor", "bnot", "neg", "shl", "lshr", "ashr", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "flt", "fle", "feq", "ffloor", "fceil", "ftrunc", "fsqrt", "fcvt", "ffrombits", "ftobits", "ffroms", "ffromu", "ftos", "ftou", "froundeven"}

type Term struct {
	op   Op
	sort Sort
	args []*Term
	val  uint64 // const bits / extract lo
	name string // var
	id   int32
	vars []int32 // sorted var ids (lazily)
	vset bool
	// cached unsigned range for BV
	rng    bool
	lo, hi uint64
	pinned bool    // not rewritten by narrowing
	alias  *Term   // equal to this wherever its variables mean anything (decimal digits)
	forms  []*Term // decimal forms of this
	// for real-mode input variables
	real bool
	rlo  float64
	rhi  float64
	grid int8 // real mode: 0 unknown, 1 multiple of 2^gexp, 2 not on a grid
	gexp int16
	frk  bool // float range cached
	flo  float64
	fhi  float64
}

func (t *Term) isConst() bool { return t.op == OConst }

type tkey struct {
	op      Op
	sort    Sort
	val     uint64
	a, b, c int32
	name    string
}

// TCtx is a hash-consing term context. Not safe for concurrent use.
type TCtx struct {
	decimals map[decimalKey]*decimalForm
	tab      map[tkey]*Term
	ntab     map[string]*Term // n-ary
	nextID   int32
	tru      *Term
	fls      *Term
	vars     []*Term          // by var index
	varIdx   map[string]int32 // name -> index
	small    [4][257]*Term
	real     bool // floats are reals with bounded rounding error
}

func NewTCtx() *TCtx {
	c := &TCtx{tab: map[tkey]*Term{}, ntab: map[string]*Term{}, varIdx: map[string]int32{}}
	c.tru = c.mk(OConst, BoolS, 1, "", nil)
	c.fls = c.mk(OConst, BoolS, 0, "", nil)
	return c
}

func (c *TCtx) mk(op Op, s Sort, val uint64, name string, args []*Term) *Term {
	if len(args) <= 3 {
		k := tkey{op: op, sort: s, val: val, name: name, a: -1, b: -1, c: -1}
		switch len(args) {
		case 3:
			k.c = args[2].id
			fallthrough
		case 2:
			k.b = args[1].id
			fallthrough
		case 1:
			k.a = args[0].id
		}
		if t, ok := c.tab[k]; ok {
			if t.alias != nil {
				return t.alias
			}
			return t
		}
		t := &Term{op: op, sort: s, val: val, name: name, args: args, id: c.nextID}
		c.nextID++
		c.tab[k] = t
		return t
	}
	b := make([]byte, 0, 8+len(args)*4)
	b = append(b, byte(op), byte(s.K), byte(s.W), byte(s.W>>8))
	for _, a := range args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	k := string(b)
	if t, ok := c.ntab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, args: args, id: c.nextID}
	c.nextID++
	c.ntab[k] = t
	return t
}

type decimalKey struct {
	x int32
	n int
}

// decimalForm is the value of n decimal digits that stand for x, with the bounds of the digits.
type decimalForm struct {
	digits  []*Term
	meaning *Term
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *TCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func wslot(w int) int {
	switch w {
	case 8:
		return 0
	case 16:
		return 1
	case 32:
		return 2
	case 64:
		return 3
	}
	return -1
}

func (c *TCtx) K(w int, v uint64) *Term {
	v &= mask(uint16(w))
	if s := wslot(w); s >= 0 && v <= 256 {
		if t := c.small[s][v]; t != nil {
			return t
		}
		t := c.mk(OConst, BV(w), v, "", nil)
		c.small[s][v] = t
		return t
	}
	return c.mk(OConst, BV(w), v, "", nil)
}
func (c *TCtx) KF64(f float64) *Term { return c.mk(OConst, F64S, math.Float64bits(f), "", nil) }
func (c *TCtx) KF32(f float32) *Term {
	return c.mk(OConst, F32S, uint64(math.Float32bits(f)), "", nil)
}
func (t *Term) f64() float64 { return math.Float64frombits(t.val) }
func (t *Term) f32() float32 { return math.Float32frombits(uint32(t.val)) }
func (t *Term) sint() int64  { return sext(t.val, t.sort.W) }

func sext(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (c *TCtx) Var(name string, s Sort) *Term {
	if i, ok := c.varIdx[name]; ok {
		t := c.vars[i]
		if t.sort != s {
			panic(unsupported("variable %s used at two sorts", name))
		}
		return t
	}
	t := c.mk(OVar, s, uint64(len(c.vars)), name, nil)
	c.varIdx[name] = int32(len(c.vars))
	c.vars = append(c.vars, t)
	t.vars = []int32{int32(t.val)}
	t.vset = true
	return t
}

func (t *Term) varset() []int32 {
	if t.vset {
		return t.vars
	}
	t.vset = true
	if len(t.args) == 0 {
		return nil
	}
	if len(t.args) == 1 {
		t.vars = t.args[0].varset()
		return t.vars
	}
	res := t.args[0].varset()
	if len(t.args) > 8 {
		m := map[int32]struct{}{}
		for _, a := range t.args {
			for _, v := range a.varset() {
				m[v] = struct{}{}
			}
		}
		out := make([]int32, 0, len(m))
		for v := range m {
			out = append(out, v)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
		t.vars = out
		return out
	}
	for _, a := range t.args[1:] {
		res = unionVars(res, a.varset())
	}
	t.vars = res
	return res
}

func unionVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	// subset quick paths
	if subset(b, a) {
		return a
	}
	if subset(a, b) {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func subset(a, b []int32) bool {
	if len(a) > len(b) {
		return false
	}
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
		j++
	}
	return true
}

// ---------------------------------------------------------------- booleans

func (c *TCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, BoolS, 0, "", []*Term{a})
}

func (c *TCtx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *TCtx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *TCtx) nary(op Op, xs []*Term) *Term {
	unit, zero := c.tru, c.fls
	if op == OOr {
		unit, zero = c.fls, c.tru
	}
	if len(xs) == 2 {
		a, b := xs[0], xs[1]
		if a == unit {
			return b
		}
		if b == unit {
			return a
		}
		if a == zero || b == zero {
			return zero
		}
		if a == b {
			return a
		}
	}
	out := make([]*Term, 0, len(xs))
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if t.op == ONot && seen[t.args[0]] {
			return false
		}
		if t.op != ONot {
			// complement present?
			k := tkey{op: ONot, sort: BoolS, a: t.id, b: -1, c: -1}
			if n, ok := c.tab[k]; ok && seen[n] {
				return false
			}
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range xs {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if op == OAnd && len(out) == 2 || op == OOr && len(out) == 2 {
		// absorption: a && (a || b) -> a ; a || (a && b) -> a
		dual := OOr
		if op == OOr {
			dual = OAnd
		}
		for i := 0; i < 2; i++ {
			o := out[1-i]
			if o.op == dual {
				for _, x := range o.args {
					if x == out[i] {
						return out[i]
					}
				}
				// a && (!a || b) -> a && b
				na := c.Not(out[i])
				for k, x := range o.args {
					if x == na {
						rest := make([]*Term, 0, len(o.args)-1)
						rest = append(rest, o.args[:k]...)
						rest = append(rest, o.args[k+1:]...)
						return c.nary(op, []*Term{out[i], c.nary(dual, rest)})
					}
				}
			}
		}
		// (a&&x)||(!a&&x) -> x  (common for merges)
		a, b := out[0], out[1]
		if a.op == dual && b.op == dual && len(a.args) == len(b.args) {
			diffA, diffB := -1, -1
			ok := true
			inB := map[*Term]bool{}
			for _, x := range b.args {
				inB[x] = true
			}
			for i, x := range a.args {
				if !inB[x] {
					if diffA >= 0 {
						ok = false
						break
					}
					diffA = i
				}
			}
			if ok && diffA >= 0 {
				inA := map[*Term]bool{}
				for _, x := range a.args {
					inA[x] = true
				}
				for i, x := range b.args {
					if !inA[x] {
						diffB = i
					}
				}
				if diffB >= 0 && a.args[diffA] == c.Not(b.args[diffB]) {
					rest := make([]*Term, 0, len(a.args)-1)
					rest = append(rest, a.args[:diffA]...)
					rest = append(rest, a.args[diffA+1:]...)
					return c.nary(dual, rest)
				}
			}
		}
	}
	return c.mk(op, BoolS, 0, "", out)
}

func (c *TCtx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *TCtx) Eq(a, b *Term) *Term {
	if a == b {
		if a.sort.K == SF64 || a.sort.K == SF32 {
			panic("Eq on floats")
		}
		return c.tru
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v (%s, %s)", a.sort, b.sort, a, b))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort.K == SBool {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.fls
		}
	}
	if b.op == OConst && a.sort.K == SBV {
		lo, hi := a.urange()
		if b.val < lo || b.val > hi {
			return c.fls
		}
		switch a.op {
		case OIte:
			x, y := a.args[1], a.args[2]
			if x.op == OConst || y.op == OConst {
				ex, ey := c.Eq(x, b), c.Eq(y, b)
				return c.Ite(a.args[0], ex, ey)
			}
		case OZExt:
			in := a.args[0]
			if b.val > mask(in.sort.W) {
				return c.fls
			}
			return c.Eq(in, c.K(int(in.sort.W), b.val))
		case OAdd:
			if a.args[1].op == OConst {
				return c.Eq(a.args[0], c.K(int(a.sort.W), b.val-a.args[1].val))
			}
		case OBNot:
			return c.Eq(a.args[0], c.K(int(a.sort.W), ^b.val))
		case OConcat:
			parts := []*Term{}
			pos := int(a.sort.W)
			for _, p := range a.args {
				pos -= int(p.sort.W)
				e := c.Eq(p, c.K(int(p.sort.W), b.val>>uint(pos)))
				if e == c.fls {
					return c.fls
				}
				parts = append(parts, e)
			}
			return c.And(parts...)
		}
	}
	if a.sort.K == SBV && b.op != OConst {
		if a.op == OZExt && b.op == OZExt && a.args[0].sort == b.args[0].sort {
			return c.Eq(a.args[0], b.args[0])
		}
		if a.op == OConcat && b.op == OConcat && len(a.args) == len(b.args) {
			same := true
			for i := range a.args {
				if a.args[i].sort != b.args[i].sort {
					same = false
				}
			}
			if same {
				parts := []*Term{}
				for i := range a.args {
					parts = append(parts, c.Eq(a.args[i], b.args[i]))
				}
				return c.And(parts...)
			}
		}
		alo, ahi := a.urange()
		blo, bhi := b.urange()
		if ahi < blo || bhi < alo {
			return c.fls
		}
		if a.op == OIte && (a.args[1] == b || a.args[2] == b) {
			// ite(c,b,y)=b -> c || y=b
			if a.args[1] == b {
				return c.Or(a.args[0], c.Eq(a.args[2], b))
			}
			return c.Or(c.Not(a.args[0]), c.Eq(a.args[1], b))
		}
		if b.op == OIte && (b.args[1] == a || b.args[2] == a) {
			return c.Eq(b, a)
		}
		if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
			return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, BoolS, 0, "", []*Term{a, b})
}

func (c *TCtx) Ite(g, a, b *Term) *Term {
	if g == c.tru {
		return a
	}
	if g == c.fls {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %v %v", a.sort, b.sort))
	}
	if g.op == ONot {
		return c.Ite(g.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == g {
		return c.Ite(g, a.args[1], b)
	}
	if b.op == OIte && b.args[0] == g {
		return c.Ite(g, a, b.args[2])
	}
	if a.sort.K == SBool {
		if a == c.tru {
			return c.Or(g, b)
		}
		if a == c.fls {
			return c.And(c.Not(g), b)
		}
		if b == c.tru {
			return c.Or(c.Not(g), a)
		}
		if b == c.fls {
			return c.And(g, a)
		}
	}
	if a.sort.K == SBV && a.sort.W > 1 {
		// factor common bit segments
		sa, sb := c.segs(a), c.segs(b)
		if len(sa) > 1 || len(sb) > 1 || (a.op == OConst && b.op == OConst) {
			pa, pb := c.align(sa, sb, a, b)
			if pa != nil {
				common := false
				for i := range pa {
					if pa[i] == pb[i] {
						common = true
					}
				}
				if common && len(pa) > 1 {
					// regroup adjacent differing pieces
					out := []*Term{}
					i := 0
					for i < len(pa) {
						if pa[i] == pb[i] {
							out = append(out, pa[i])
							i++
							continue
						}
						j := i
						for j < len(pa) && pa[j] != pb[j] {
							j++
						}
						x := c.Concat(pa[i:j]...)
						y := c.Concat(pb[i:j]...)
						out = append(out, c.iteRaw(g, x, y))
						i = j
					}
					return c.Concat(out...)
				}
			}
		}
	}
	return c.iteRaw(g, a, b)
}

func (c *TCtx) iteRaw(g, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.sort.K == SBV && a.sort.W == 1 && a.op == OConst && b.op == OConst && a.val == 0 {
		return c.iteRaw(c.Not(g), b, a)
	}
	return c.mk(OIte, a.sort, 0, "", []*Term{g, a, b})
}

// ---------------------------------------------------------------- BV segments

// segs returns the high-to-low pieces of t.
func (c *TCtx) segs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.op == OZExt {
		return append([]*Term{c.K(int(t.sort.W-t.args[0].sort.W), 0)}, c.segs(t.args[0])...)
	}
	return []*Term{t}
}

// align splits two segment lists at common boundaries; only splits constants
// and existing boundaries (and Extracts of opaque pieces).
func (c *TCtx) align(sa, sb []*Term, a, b *Term) ([]*Term, []*Term) {
	cut := map[int]bool{}
	w := int(a.sort.W)
	pos := w
	for _, s := range sa {
		pos -= int(s.sort.W)
		cut[pos] = true
	}
	pos = w
	for _, s := range sb {
		pos -= int(s.sort.W)
		cut[pos] = true
	}
	// constants against constants: split bitwise where they agree/differ
	if a.op == OConst && b.op == OConst {
		x := a.val ^ b.val
		if bits.OnesCount64(x) > 8 {
			return nil, nil
		}
		for i := 1; i < w; i++ {
			if (x>>uint(i))&1 != (x>>uint(i-1))&1 {
				cut[i] = true
			}
		}
	} else {
		// refine: where one side is constant and the other constant in the overlap
		pa := c.bitConst(sa, w)
		pb := c.bitConst(sb, w)
		for i := 1; i < w; i++ {
			d1 := pa[i] != 2 && pa[i] == pb[i]
			d0 := pa[i-1] != 2 && pa[i-1] == pb[i-1]
			if d1 != d0 {
				cut[i] = true
			}
		}
	}
	cuts := make([]int, 0, len(cut))
	for k := range cut {
		if k > 0 {
			cuts = append(cuts, k)
		}
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
	var pa, pb []*Term
	hi := w
	for _, k := range append(cuts, 0) {
		pa = append(pa, c.Extract(a, hi-1, k))
		pb = append(pb, c.Extract(b, hi-1, k))
		hi = k
	}
	return pa, pb
}

func (c *TCtx) bitConst(s []*Term, w int) []int8 {
	out := make([]int8, w)
	pos := w
	for _, t := range s {
		pos -= int(t.sort.W)
		for i := 0; i < int(t.sort.W); i++ {
			if t.op == OConst {
				out[pos+i] = int8((t.val >> uint(i)) & 1)
			} else {
				out[pos+i] = 2
			}
		}
	}
	return out
}

func (c *TCtx) Concat(xs ...*Term) *Term {
	if len(xs) == 1 {
		return xs[0]
	}
	out := make([]*Term, 0, len(xs))
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == OConcat {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if t.op == OZExt {
			push(c.K(int(t.sort.W-t.args[0].sort.W), 0))
			push(t.args[0])
			return
		}
		if n := len(out); n > 0 {
			p := out[n-1]
			if p.op == OConst && t.op == OConst && p.sort.W+t.sort.W <= 64 {
				out[n-1] = c.K(int(p.sort.W+t.sort.W), p.val<<t.sort.W|t.val)
				return
			}
			if p.op == OExtract && t.op == OExtract && p.args[0] == t.args[0] && p.val == t.val+uint64(t.sort.W) {
				out = out[:n-1]
				push(c.Extract(p.args[0], int(p.val)+int(p.sort.W)-1, int(t.val)))
				return
			}
			if p.op == OExtract && t != nil && p.args[0] == t && false {
				return
			}
			// Extract whole-prefix joined with the low part
			if p.op == OExtract && t.op != OExtract && p.args[0] == t {
				// not adjacent (t is the whole)
			}
		}
		out = append(out, t)
	}
	for _, x := range xs {
		push(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, t := range out {
		w += int(t.sort.W)
	}
	if w > 64 {
		panic("concat wider than 64")
	}
	if len(out) == 2 && out[0].op == OConst && out[0].val == 0 {
		return c.mk(OZExt, BV(w), 0, "", []*Term{out[1]})
	}
	return c.mk(OConcat, BV(w), 0, "", append([]*Term(nil), out...))
}

func (c *TCtx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == int(t.sort.W) {
		return t
	}
	if w <= 0 {
		panic("extract width")
	}
	switch t.op {
	case OConst:
		return c.K(w, t.val>>uint(lo))
	case OExtract:
		return c.Extract(t.args[0], hi+int(t.val), lo+int(t.val))
	case OConcat:
		pos := int(t.sort.W)
		parts := []*Term{}
		for _, p := range t.args {
			pl := pos - int(p.sort.W)
			ph := pos - 1
			pos = pl
			l, h := lo, hi
			if l < pl {
				l = pl
			}
			if h > ph {
				h = ph
			}
			if l > h {
				continue
			}
			parts = append(parts, c.Extract(p, h-pl, l-pl))
		}
		return c.Concat(parts...)
	case OZExt:
		iw := int(t.args[0].sort.W)
		if lo >= iw {
			return c.K(w, 0)
		}
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		return c.Concat(c.K(hi-iw+1, 0), c.Extract(t.args[0], iw-1, lo))
	case OSExt:
		iw := int(t.args[0].sort.W)
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		if lo < iw {
			return c.SExt(c.Extract(t.args[0], iw-1, lo), w)
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		if a.op == OConst || b.op == OConst || a.op == OConcat || b.op == OConcat || a.op == OZExt || b.op == OZExt {
			return c.Ite(t.args[0], c.Extract(a, hi, lo), c.Extract(b, hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		return c.bitop(t.op, c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case OBNot:
		return c.BNot(c.Extract(t.args[0], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && !t.pinned {
			return c.arith(t.op, c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	case ONeg:
		if lo == 0 {
			return c.Neg(c.Extract(t.args[0], hi, 0))
		}
	}
	return c.mk(OExtract, BV(w), uint64(lo), "", []*Term{t})
}

func (c *TCtx) ZExt(t *Term, w int) *Term {
	if int(t.sort.W) == w {
		return t
	}
	if int(t.sort.W) > w {
		panic("zext narrower")
	}
	if t.op == OConst {
		return c.K(w, t.val)
	}
	return c.Concat(c.K(w-int(t.sort.W), 0), t)
}

func (c *TCtx) SExt(t *Term, w int) *Term {
	if int(t.sort.W) == w {
		return t
	}
	if t.op == OConst {
		return c.K(w, uint64(t.sint()))
	}
	if t.op == OZExt || (t.op == OConcat && t.args[0].op == OConst && t.args[0].val>>(t.args[0].sort.W-1) == 0) {
		return c.ZExt(t, w)
	}
	if t.op == OSExt {
		return c.SExt(t.args[0], w)
	}
	if t.op == OIte && t.args[1].op == OConst && t.args[2].op == OConst {
		return c.Ite(t.args[0], c.SExt(t.args[1], w), c.SExt(t.args[2], w))
	}
	return c.mk(OSExt, BV(w), 0, "", []*Term{t})
}

func (c *TCtx) BNot(t *Term) *Term {
	if t.op == OConst {
		return c.K(int(t.sort.W), ^t.val)
	}
	if t.op == OBNot {
		return t.args[0]
	}
	return c.mk(OBNot, t.sort, 0, "", []*Term{t})
}

func (c *TCtx) Neg(t *Term) *Term {
	if t.op == OConst {
		return c.K(int(t.sort.W), -t.val)
	}
	return c.mk(ONeg, t.sort, 0, "", []*Term{t})
}

func (c *TCtx) bitop(op Op, a, b *Term) *Term {
	w := int(a.sort.W)
	if a.sort != b.sort {
		panic("bitop sorts")
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OBAnd:
			return c.K(w, a.val&b.val)
		case OBOr:
			return c.K(w, a.val|b.val)
		default:
			return c.K(w, a.val^b.val)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	m := mask(uint16(w))
	if b.op == OConst {
		switch op {
		case OBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
		case OBOr:
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		case OBXor:
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return c.BNot(a)
			}
		}
	}
	if a == b {
		if op == OBXor {
			return c.K(w, 0)
		}
		return a
	}
	// piecewise
	if w > 1 {
		sa, sb := c.segs(a), c.segs(b)
		usable := b.op == OConst || len(sa) > 1 || len(sb) > 1
		if usable {
			// align on boundaries; for constants split into runs of 0/1
			cut := map[int]bool{}
			addCuts := func(s []*Term) {
				pos := w
				for _, t := range s {
					pos -= int(t.sort.W)
					cut[pos] = true
					if t.op == OConst {
						for i := 1; i < int(t.sort.W); i++ {
							if (t.val>>uint(i))&1 != (t.val>>uint(i-1))&1 {
								cut[pos+i] = true
							}
						}
					}
				}
			}
			addCuts(sa)
			addCuts(sb)
			ba, bb := c.bitConst(sa, w), c.bitConst(sb, w)
			// only worthwhile if some bit is resolved by a constant
			resolved := 0
			for i := 0; i < w; i++ {
				if ba[i] != 2 || bb[i] != 2 {
					resolved++
				}
			}
			if resolved > 0 {
				cuts := make([]int, 0, len(cut))
				for k := range cut {
					if k > 0 {
						cuts = append(cuts, k)
					}
				}
				sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
				if len(cuts) > 0 {
					parts := []*Term{}
					hi := w
					for _, k := range append(cuts, 0) {
						parts = append(parts, c.bitop(op, c.Extract(a, hi-1, k), c.Extract(b, hi-1, k)))
						hi = k
					}
					return c.Concat(parts...)
				}
			}
		}
	} else {
		// 1-bit with ite(bool): keep as ite over booleans
		ab, bb := c.asBool(a), c.asBool(b)
		if ab != nil && bb != nil {
			switch op {
			case OBAnd:
				return c.b2bv(c.And(ab, bb))
			case OBOr:
				return c.b2bv(c.Or(ab, bb))
			default:
				return c.b2bv(c.Not(c.Eq(ab, bb)))
			}
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(op, a.sort, 0, "", []*Term{a, b})
}

func (c *TCtx) asBool(t *Term) *Term {
	if t.sort.W != 1 {
		return nil
	}
	if t.op == OConst {
		return c.Bool(t.val == 1)
	}
	if t.op == OIte && t.args[1].op == OConst && t.args[2].op == OConst {
		return c.Ite(t.args[0], c.Bool(t.args[1].val == 1), c.Bool(t.args[2].val == 1))
	}
	return nil
}

func (c *TCtx) b2bv(b *Term) *Term { return c.Ite(b, c.K(1, 1), c.K(1, 0)) }

// Shifts: amount is a term of the same width; Go semantics (>= width gives 0 / sign).
func (c *TCtx) Shl(a, s *Term) *Term {
	w := int(a.sort.W)
	if s.op == OConst {
		if s.val >= uint64(w) {
			return c.K(w, 0)
		}
		if s.val == 0 {
			return a
		}
		if a.op == OConst {
			return c.K(w, a.val<<s.val)
		}
		k := int(s.val)
		return c.Concat(c.Extract(a, w-1-k, 0), c.K(k, 0))
	}
	if a.op == OConst && a.val == 0 {
		return a
	}
	return c.mk(OShl, a.sort, 0, "", []*Term{a, s})
}

func (c *TCtx) LShr(a, s *Term) *Term {
	w := int(a.sort.W)
	if s.op == OConst {
		if s.val >= uint64(w) {
			return c.K(w, 0)
		}
		if s.val == 0 {
			return a
		}
		k := int(s.val)
		return c.Concat(c.K(k, 0), c.Extract(a, w-1, k))
	}
	return c.mk(OLShr, a.sort, 0, "", []*Term{a, s})
}

func (c *TCtx) AShr(a, s *Term) *Term {
	w := int(a.sort.W)
	if s.op == OConst {
		k := s.val
		if k == 0 {
			return a
		}
		if k >= uint64(w) {
			k = uint64(w - 1)
		}
		if a.op == OConst {
			return c.K(w, uint64(a.sint()>>k))
		}
		return c.SExt(c.Extract(a, w-1, int(k)), w)
	}
	return c.mk(OAShr, a.sort, 0, "", []*Term{a, s})
}

// disjoint reports whether every bit is known to be zero in a or in b.
func (c *TCtx) disjoint(a, b *Term) bool {
	sa, sb := c.segs(a), c.segs(b)
	if a.op != OConst && len(sa) == 1 || b.op != OConst && len(sb) == 1 {
		return false
	}
	w := int(a.sort.W)
	ba, bb := c.bitConst(sa, w), c.bitConst(sb, w)
	for i := range ba {
		if ba[i] != 0 && bb[i] != 0 {
			return false
		}
	}
	return true
}

func (c *TCtx) arith(op Op, a, b *Term) *Term {
	w := int(a.sort.W)
	if a.op == OConst && b.op == OConst {
		switch op {
		case OAdd:
			return c.K(w, a.val+b.val)
		case OSub:
			return c.K(w, a.val-b.val)
		case OMul:
			return c.K(w, a.val*b.val)
		}
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].op == OConst {
				return c.arith(OAdd, a.args[0], c.K(w, a.args[1].val+b.val))
			}
			if a.op == OConcat || a.op == OZExt { // no carry out of zero low bits
				if g := c.segs(a); len(g) == 2 && g[0].op == OConst {
					lo := int(g[1].sort.W)
					if b.val&(1<<uint(lo)-1) == 0 {
						return c.Concat(c.K(w-lo, g[0].val+b.val>>uint(lo)), g[1])
					}
				}
			}
			if a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
				return c.Ite(a.args[0], c.K(w, a.args[1].val+b.val), c.K(w, a.args[2].val+b.val))
			}
		}
		if c.disjoint(a, b) { // no carries
			return c.bitop(OBOr, a, b)
		}
	case OSub:
		if a == b {
			return c.K(w, 0)
		}
		if b.op == OConst {
			return c.arith(OAdd, a, c.K(w, -b.val))
		}
		if a.op == OAdd && a.args[0] == b {
			return a.args[1]
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return c.Shl(a, c.K(w, uint64(bits.TrailingZeros64(b.val))))
			}
		}
	}
	return c.mk(op, a.sort, 0, "", []*Term{a, b})
}

func (c *TCtx) Add(a, b *Term) *Term { return c.arith(OAdd, a, b) }
func (c *TCtx) Sub(a, b *Term) *Term { return c.arith(OSub, a, b) }
func (c *TCtx) Mul(a, b *Term) *Term { return c.arith(OMul, a, b) }

func (c *TCtx) Div(op Op, a, b *Term) *Term {
	w := int(a.sort.W)
	if a.op == OConst && b.op == OConst && b.val != 0 {
		switch op {
		case OUDiv:
			return c.K(w, a.val/b.val)
		case OURem:
			return c.K(w, a.val%b.val)
		case OSDiv:
			if b.sint() == -1 {
				return c.K(w, -a.val)
			}
			return c.K(w, uint64(a.sint()/b.sint()))
		case OSRem:
			if b.sint() == -1 {
				return c.K(w, 0)
			}
			return c.K(w, uint64(a.sint()%b.sint()))
		}
	}
	if b.op == OConst {
		_, hi := a.urange()
		nonneg := hi < uint64(1)<<(uint(w)-1)
		if b.val == 1 {
			if op == OUDiv || op == OSDiv {
				return a
			}
			return c.K(w, 0)
		}
		if nonneg && b.sint() > 0 {
			if op == OSDiv {
				op = OUDiv
			}
			if op == OSRem {
				op = OURem
			}
		}
		if bits.OnesCount64(b.val) == 1 && (op == OUDiv || op == OURem) {
			k := bits.TrailingZeros64(b.val)
			if op == OUDiv {
				return c.LShr(a, c.K(w, uint64(k)))
			}
			return c.bitop(OBAnd, a, c.K(w, b.val-1))
		}
		if op == OUDiv && hi < b.val {
			return c.K(w, 0)
		}
		if op == OURem && hi < b.val {
			return a
		}
	}
	return c.mk(op, a.sort, 0, "", []*Term{a, b})
}

// notLess: a is a sum without overflow of which b is a part.
func notLess(a, b *Term) bool {
	if a.op != OAdd || (a.args[0] != b && a.args[1] != b) {
		return false
	}
	_, ah := a.args[0].urange()
	_, bh := a.args[1].urange()
	h, carry := bits.Add64(ah, bh, 0)
	return carry == 0 && h <= mask(a.sort.W)
}

func (c *TCtx) Ult(a, b *Term) *Term {
	if notLess(a, b) {
		return c.fls
	}
	for _, v := range a.forms {
		if notLess(v, b) {
			return c.fls
		}
	}
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val < b.val)
	}
	alo, ahi := a.urange()
	blo, bhi := b.urange()
	if ahi < blo {
		return c.tru
	}
	if alo >= bhi {
		return c.fls
	}
	if r := c.cmpIte(OUlt, a, b); r != nil {
		return r
	}
	return c.mk(OUlt, BoolS, 0, "", []*Term{a, b})
}

func (c *TCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TCtx) cmpIte(op Op, a, b *Term) *Term {
	f := func(x, y *Term) *Term {
		if op == OUlt {
			return c.Ult(x, y)
		}
		return c.Slt(x, y)
	}
	if b.op == OConst && a.op == OIte && a.args[1].op == OConst && a.args[2].op == OConst {
		return c.Ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
	}
	if a.op == OConst && b.op == OIte && b.args[1].op == OConst && b.args[2].op == OConst {
		return c.Ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
	}
	return nil
}

func (c *TCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.sint() < b.sint())
	}
	w := a.sort.W
	half := uint64(1) << (w - 1)
	_, ahi := a.urange()
	_, bhi := b.urange()
	if ahi < half && bhi < half {
		return c.Ult(a, b)
	}
	if ahi < half && b.op == OConst && b.val >= half {
		return c.fls // nonneg < negative
	}
	if bhi < half && a.op == OConst && a.val >= half {
		return c.tru
	}
	if a.op == OConst && a.val == half-1 { // maxint < b
		return c.fls
	}
	if b.op == OConst && b.val == half { // a < minint
		return c.fls
	}
	if r := c.cmpIte(OSlt, a, b); r != nil {
		return r
	}
	return c.mk(OSlt, BoolS, 0, "", []*Term{a, b})
}

func (c *TCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// urange is a cheap unsigned interval.
func (t *Term) urange() (uint64, uint64) {
	if t.op == OConst {
		return t.val, t.val
	}
	if t.rng {
		return t.lo, t.hi
	}
	m := mask(t.sort.W)
	lo, hi := uint64(0), m
	switch t.op {
	case OVar:
		if strings.HasPrefix(t.name, "~digit") { // always assumed with the variable
			hi = 9
		}
	case OIte:
		a, b := t.args[1], t.args[2]
		al, ah := a.urange()
		bl, bh := b.urange()
		lo, hi = min(al, bl), max(ah, bh)
	case OConcat:
		lo, hi = 0, 0
		for _, p := range t.args {
			pl, ph := p.urange()
			lo = lo<<p.sort.W | pl
			hi = hi<<p.sort.W | ph
		}
	case OZExt:
		lo, hi = t.args[0].urange()
	case OAdd:
		al, ah := t.args[0].urange()
		bl, bh := t.args[1].urange()
		h, carry := bits.Add64(ah, bh, 0)
		if carry == 0 && h <= m {
			lo, hi = al+bl, h
		}
	case OMul:
		al, ah := t.args[0].urange()
		bl, bh := t.args[1].urange()
		o, h := bits.Mul64(ah, bh)
		if o == 0 && h <= m {
			lo, hi = al*bl, h
		}
	case OSub:
		al, ah := t.args[0].urange()
		bl, bh := t.args[1].urange()
		if al >= bh {
			lo, hi = al-bh, ah-bl
		}
	case OBAnd:
		_, ah := t.args[0].urange()
		_, bh := t.args[1].urange()
		hi = min(ah, bh)
	case OBOr:
		al, ah := t.args[0].urange()
		bl, bh := t.args[1].urange()
		lo = max(al, bl)
		n := max(bits.Len64(ah), bits.Len64(bh))
		hi = mask(uint16(n))
		if n == 0 {
			hi = 0
		}
	case OUDiv:
		al, ah := t.args[0].urange()
		if t.args[1].op == OConst && t.args[1].val != 0 {
			lo, hi = al/t.args[1].val, ah/t.args[1].val
		}
	case OURem:
		if t.args[1].op == OConst && t.args[1].val != 0 {
			hi = t.args[1].val - 1
		}
	}
	t.rng, t.lo, t.hi = true, lo, hi
	return lo, hi
}

// ---------------------------------------------------------------- floats

func (c *TCtx) KF(s Sort, f float64) *Term {
	if s.K == SF32 {
		return c.KF32(float32(f))
	}
	return c.KF64(f)
}

func (c *TCtx) FBin(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("FBin sorts")
	}
	if a.op == OConst && b.op == OConst {
		if a.sort.K == SF64 {
			x, y := a.f64(), b.f64()
			switch op {
			case OFAdd:
				return c.KF64(x + y)
			case OFSub:
				return c.KF64(x - y)
			case OFMul:
				return c.KF64(x * y)
			case OFDiv:
				return c.KF64(x / y)
			}
		} else {
			x, y := a.f32(), b.f32()
			switch op {
			case OFAdd:
				return c.KF32(x + y)
			case OFSub:
				return c.KF32(x - y)
			case OFMul:
				return c.KF32(x * y)
			case OFDiv:
				return c.KF32(x / y)
			}
		}
	}
	if c.real {
		az := a.op == OConst && fval(a) == 0
		bz := b.op == OConst && fval(b) == 0
		b1 := b.op == OConst && fval(b) == 1
		switch op {
		case OFAdd:
			if az {
				return b
			}
			if bz {
				return a
			}
		case OFSub:
			if bz {
				return a
			}
			if a == b {
				return c.KF(a.sort, 0)
			}
		case OFMul:
			if b1 {
				return a
			}
		case OFDiv:
			if b1 {
				return a
			}
		}
	}
	if c.real && a.sort.K == SF32 && a.wide() && b.wide() {
		// exact in 32 bits: the same operation in 64 bits
		if t := c.mk(op, a.sort, 0, "", []*Term{a, b}); t.exact() {
			return c.FCvt(c.FBin(op, c.FCvt(a, F64S), c.FCvt(b, F64S)), F32S)
		}
	}
	return c.mk(op, a.sort, 0, "", []*Term{a, b})
}

// wide: the 32-bit float is exactly some 64-bit term.
func (t *Term) wide() bool { return t.op == OConst || t.op == OFCvt && t.exact() }

// onGrid: in real mode, the value is an integer multiple of 2^g.
func (t *Term) onGrid() (int, bool) {
	if t.grid == 0 {
		g, ok := t.onGrid1()
		t.grid = 2
		if ok && g > -30000 && g < 30000 {
			t.grid, t.gexp = 1, int16(g)
		}
	}
	return int(t.gexp), t.grid == 1
}

func (t *Term) onGrid1() (int, bool) {
	switch t.op {
	case OConst:
		v := fval(t)
		if v == 0 {
			return 2000, true
		}
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return 0, false
		}
		m, e := math.Frexp(v)
		n := int64(m * (1 << 53))
		return e - 53 + bits.TrailingZeros64(uint64(n)), true
	case OVar:
		return 0, false // inputs on a grid are marked when declared
	case OIte:
		a, ok := t.args[1].onGrid()
		b, ok2 := t.args[2].onGrid()
		return min(a, b), ok && ok2
	case OFNeg, OFAbs:
		return t.args[0].onGrid()
	case OFFloor, OFCeil, OFTrunc:
		g, ok := t.args[0].onGrid()
		if !ok {
			return 0, true
		}
		return max(g, 0), true
	case OFAdd, OFSub, OFMul, OFDiv, OFCvt:
		if !t.exact() {
			return 0, false
		}
		return t.grid1()
	}
	return 0, false
}

// grid1 is the grid of the exact result.
func (t *Term) grid1() (int, bool) {
	a, ok := t.args[0].onGrid()
	if !ok {
		return 0, false
	}
	if t.op == OFCvt {
		return a, true
	}
	b, ok := t.args[1].onGrid()
	if !ok {
		return 0, false
	}
	switch t.op {
	case OFAdd, OFSub:
		return min(a, b), true
	case OFMul:
		return a + b, true
	case OFDiv:
		if t.args[1].op == OConst && pow2(fval(t.args[1])) {
			return a - b, true
		}
	}
	return 0, false
}

// exact: in real mode, the operation does not round.
func (t *Term) exact() bool {
	switch t.op {
	case OFCvt:
		if t.sort.K == SF64 {
			return true
		}
	case OFAdd, OFSub, OFMul, OFDiv:
	default:
		return true
	}
	g, ok := t.grid1()
	if !ok {
		return false
	}
	lo, hi := t.frange()
	m := math.Max(math.Abs(lo), math.Abs(hi))
	p, emin, emax := 53, -1022, 1e300
	if t.sort.K == SF32 {
		p, emin, emax = 24, -126, 1e38
	}
	return m < emax && g > emin && m <= math.Ldexp(1, p+g)
}

func fval(t *Term) float64 {
	if t.sort.K == SF64 {
		return t.f64()
	}
	return float64(t.f32())
}

func (c *TCtx) FCmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("FCmp sorts")
	}
	if a.op == OConst && b.op == OConst {
		x, y := fval(a), fval(b)
		switch op {
		case OFLt:
			return c.Bool(x < y)
		case OFLe:
			return c.Bool(x <= y)
		default:
			return c.Bool(x == y)
		}
	}
	if a == b && op == OFLt {
		return c.fls
	}
	if !c.real {
		if r := c.cmpInts(op, a, b); r != nil {
			return r
		}
	}
	if c.real {
		if a == b {
			return c.tru
		}
		al, ah := a.frange()
		bl, bh := b.frange()
		switch op {
		case OFLt:
			if ah < bl {
				return c.tru
			}
			if al >= bh {
				return c.fls
			}
		case OFLe:
			if ah <= bl {
				return c.tru
			}
			if al > bh {
				return c.fls
			}
		default:
			if ah < bl || bh < al {
				return c.fls
			}
		}
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, BoolS, 0, "", []*Term{a, b})
}

// intVal is the 64-bit integer a double was converted from, when that conversion is
// exact for every value; nil otherwise.
func (c *TCtx) intVal(f *Term) *Term {
	if f.sort.K != SF64 {
		return nil
	}
	switch f.op {
	case OFFromS:
		x := f.args[0]
		if x.op == OSExt {
			x = x.args[0]
		}
		if _, hi := x.urange(); x.sort.W <= 53 || x.sort.W == f.args[0].sort.W && hi <= 1<<53 {
			return c.SExt(f.args[0], 64)
		}
	case OFFromU:
		if _, hi := f.args[0].urange(); hi <= 1<<53 {
			return c.ZExt(f.args[0], 64)
		}
	case OFNeg:
		if x := c.intVal(f.args[0]); x != nil {
			return c.Neg(x)
		}
	case OIte:
		var v [2]*Term
		for i := range v {
			switch a := f.args[i+1]; {
			case a.op == OConst:
				if k := fval(a); k == math.Trunc(k) && math.Abs(k) <= 1<<53 && (k != 0 || !math.Signbit(k)) {
					v[i] = c.K(64, uint64(int64(k)))
				}
			case a.op == OIte || a.op == OFFromS || a.op == OFFromU:
				v[i] = c.intVal(a)
			}
			if v[i] == nil {
				return nil
			}
		}
		return c.Ite(f.args[0], v[0], v[1])
	}
	return nil
}

// cmpInts compares a converted integer with another or with a constant.
func (c *TCtx) cmpInts(op Op, a, b *Term) *Term {
	x, y := c.intVal(a), c.intVal(b)
	if x != nil && y != nil {
		switch op {
		case OFLt:
			return c.Slt(x, y)
		case OFLe:
			return c.Sle(x, y)
		}
		return c.Eq(x, y)
	}
	bound := func(f float64) *Term { // clamped: the integers are within 2^53
		return c.K(64, uint64(int64(math.Max(-(1<<60), math.Min(1<<60, f)))))
	}
	switch {
	case x != nil && b.op == OConst:
		k := fval(b)
		switch {
		case k != k:
			return c.fls
		case op == OFLt:
			return c.Slt(x, bound(math.Ceil(k)))
		case op == OFLe:
			return c.Sle(x, bound(math.Floor(k)))
		case k != math.Trunc(k) || math.IsInf(k, 0):
			return c.fls
		}
		return c.Eq(x, bound(k))
	case y != nil && a.op == OConst:
		k := fval(a)
		switch {
		case k != k:
			return c.fls
		case op == OFLt:
			return c.Slt(bound(math.Floor(k)), y)
		case op == OFLe:
			return c.Sle(bound(math.Ceil(k)), y)
		case k != math.Trunc(k) || math.IsInf(k, 0):
			return c.fls
		}
		return c.Eq(y, bound(k))
	}
	return nil
}

func (c *TCtx) FCvt(a *Term, to Sort) *Term {
	if a.sort == to {
		return a
	}
	if a.op == OConst {
		if to.K == SF32 {
			return c.KF32(float32(a.f64()))
		}
		return c.KF64(float64(a.f32()))
	}
	if to.K == SF32 && a.op == OFCvt {
		return a.args[0]
	}
	if c.real && to.K == SF64 && a.op == OFCvt && a.exact() {
		return a.args[0]
	}
	return c.mk(OFCvt, to, 0, "", []*Term{a})
}

func (c *TCtx) FFromBits(b *Term) *Term {
	s := F64S
	if b.sort.W == 32 {
		s = F32S
	}
	if b.op == OConst {
		return c.mk(OConst, s, b.val, "", nil)
	}
	if b.op == OFToBits {
		return b.args[0]
	}
	return c.mk(OFFromBits, s, 0, "", []*Term{b})
}

func (c *TCtx) FToBits(f *Term) *Term {
	w := 64
	if f.sort.K == SF32 {
		w = 32
	}
	if f.op == OConst {
		return c.K(w, f.val)
	}
	if f.op == OFFromBits {
		return f.args[0]
	}
	if f.op == OIte {
		return c.Ite(f.args[0], c.FToBits(f.args[1]), c.FToBits(f.args[2]))
	}
	return c.mk(OFToBits, BV(w), 0, "", []*Term{f})
}

func (c *TCtx) FFromInt(b *Term, signed bool, s Sort) *Term {
	op := OFFromU
	if signed {
		op = OFFromS
	}
	if b.op == OConst {
		if s.K == SF64 {
			if signed {
				return c.KF64(float64(b.sint()))
			}
			return c.KF64(float64(b.val))
		}
		if signed {
			return c.KF32(float32(b.sint()))
		}
		return c.KF32(float32(b.val))
	}
	return c.mk(op, s, 0, "", []*Term{b})
}

func goFToS(x float64, w int) uint64 {
	// amd64 semantics
	switch {
	case w == 64:
		return uint64(int64(x))
	default:
		return uint64(int64(x))
	}
}

func (c *TCtx) FToInt(f *Term, signed bool, w int) *Term {
	op := OFToU
	if signed {
		op = OFToS
	}
	if f.op == OConst {
		x := fval(f)
		if signed {
			return c.K(w, goFToS(x, w))
		}
		return c.K(w, uint64(x))
	}
	if signed && w == 64 && !c.real {
		if x := c.intVal(f); x != nil {
			return x
		}
	}
	return c.mk(op, BV(w), 0, "", []*Term{f})
}

// ---------------------------------------------------------------- printing (debug)

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SF64, SF32:
			return fmt.Sprintf("%v", fval(t))
		}
		return fmt.Sprintf("%d:%d", t.val, t.sort.W)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", int(t.val)+int(t.sort.W)-1, t.val)
	}
	for i, a := range t.args {
		if i > 12 {
			s += " …"
			break
		}
		s += " " + a.str(d-1)
	}
	return s + ")"
}

// RealVar declares a real-mode float input within [lo,hi].
func (c *TCtx) RealVar(name string, s Sort, lo, hi float64) *Term {
	t := c.Var(name, s)
	t.real, t.rlo, t.rhi = true, lo, hi
	return t
}

// GridVar declares a real-mode input that is a multiple of 2^g within [lo,hi].
func (c *TCtx) GridVar(name string, lo, hi float64, g int) *Term {
	t := c.RealVar(name, F64S, lo, hi)
	t.grid, t.gexp = 1, int16(g)
	return t
}

// frange is the interval of a float term in real mode.
func (t *Term) frange() (float64, float64) {
	if t.op == OConst {
		v := fval(t)
		return v, v
	}
	if t.frk {
		return t.flo, t.fhi
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	widen := func(a, b float64) (float64, float64) {
		m := math.Max(math.Abs(a), math.Abs(b))
		u := 1e-15 * m
		if t.sort.K == SF32 {
			u = 1.2e-7 * m
		}
		return a - u, b + u
	}
	bad := func(xs ...float64) bool {
		for _, x := range xs {
			if math.IsInf(x, 0) || math.IsNaN(x) {
				return true
			}
		}
		return false
	}
	switch t.op {
	case OVar:
		if t.real {
			lo, hi = t.rlo, t.rhi
		}
	case OIte:
		al, ah := t.args[1].frange()
		bl, bh := t.args[2].frange()
		lo, hi = math.Min(al, bl), math.Max(ah, bh)
	case OFAdd, OFSub, OFMul, OFDiv:
		al, ah := t.args[0].frange()
		bl, bh := t.args[1].frange()
		if bad(al, ah, bl, bh) {
			break
		}
		switch t.op {
		case OFAdd:
			lo, hi = widen(al+bl, ah+bh)
		case OFSub:
			lo, hi = widen(al-bh, ah-bl)
		case OFMul:
			p := []float64{al * bl, al * bh, ah * bl, ah * bh}
			lo, hi = widen(min(p[0], p[1], p[2], p[3]), max(p[0], p[1], p[2], p[3]))
		case OFDiv:
			if bl > 0 || bh < 0 {
				p := []float64{al / bl, al / bh, ah / bl, ah / bh}
				lo, hi = widen(min(p[0], p[1], p[2], p[3]), max(p[0], p[1], p[2], p[3]))
			}
		}
	case OFNeg:
		al, ah := t.args[0].frange()
		lo, hi = -ah, -al
	case OFAbs:
		al, ah := t.args[0].frange()
		switch {
		case al >= 0:
			lo, hi = al, ah
		case ah <= 0:
			lo, hi = -ah, -al
		default:
			lo, hi = 0, math.Max(-al, ah)
		}
	case OFFloor, OFCeil, OFTrunc, OFRoundEven:
		al, ah := t.args[0].frange()
		lo, hi = math.Floor(al), math.Ceil(ah)
	case OFCvt:
		al, ah := t.args[0].frange()
		if !bad(al, ah) {
			lo, hi = widen(al, ah)
		}
	case OFFromU:
		al, ah := t.args[0].urange()
		lo, hi = widen(float64(al), float64(ah))
	case OFFromS:
		al, ah := t.args[0].urange()
		if ah < uint64(1)<<(t.args[0].sort.W-1) {
			lo, hi = widen(float64(al), float64(ah))
		} else {
			m := float64(uint64(1) << (t.args[0].sort.W - 1))
			lo, hi = -m, m
		}
	}
	t.frk, t.flo, t.fhi = true, lo, hi
	return lo, hi
}

// unsupportedErr aborts the current path: the construct cannot be encoded.
type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(format string, args ...any) unsupportedErr {
	if len(args) == 0 {
		return unsupportedErr{format}
	}
	return unsupportedErr{fmt.Sprintf(format, args...)}
}

// FUn builds a unary float operation.
func (c *TCtx) FUn(op Op, a *Term) *Term {
	if a.op == OConst {
		x := fval(a)
		switch op {
		case OFNeg:
			if a.sort.K == SF32 {
				return c.KF32(-a.f32())
			}
			return c.KF64(-a.f64())
		case OFAbs:
			x = math.Abs(x)
		case OFFloor:
			x = math.Floor(x)
		case OFCeil:
			x = math.Ceil(x)
		case OFTrunc:
			x = math.Trunc(x)
		case OFSqrt:
			x = math.Sqrt(x)
		case OFRoundEven:
			x = math.RoundToEven(x)
		}
		return c.KF(a.sort, x)
	}
	if op == OFNeg && a.op == OFNeg {
		return a.args[0]
	}
	if op == OFAbs && (a.op == OFNeg || a.op == OFAbs) {
		return c.FUn(OFAbs, a.args[0])
	}
	if c.real && op == OFAbs {
		lo, hi := a.frange()
		if lo >= 0 {
			return a
		}
		if hi <= 0 {
			return c.FUn(OFNeg, a)
		}
	}
	return c.mk(op, a.sort, 0, "", []*Term{a})
}
