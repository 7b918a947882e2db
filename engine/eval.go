package main

import (
	"math"
)

// Model is an assignment to input variables (by variable index).
type Model struct {
	vals map[int32]uint64
	memo map[int32]uint64
}

func newModel() *Model { return &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}} }

func (m *Model) extend(vals map[int32]uint64) *Model {
	n := newModel()
	if m != nil {
		for k, v := range m.vals {
			n.vals[k] = v
		}
	}
	for k, v := range vals {
		n.vals[k] = v
	}
	return n
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fbits(s Sort, v float64) uint64 {
	if s.K == SF32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(v)
}

func ffrom(s Sort, b uint64) float64 {
	if s.K == SF32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}

// eval computes the concrete value of t with Go semantics.
func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		v, ok := m.vals[int32(t.val)]
		if !ok && t.real && (t.rlo > 0 || t.rhi < 0) {
			return fbits(t.sort, t.rlo)
		}
		return v
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	v := m.eval1(t)
	m.memo[t.id] = v
	return v
}

func (m *Model) eval1(t *Term) uint64 {
	a := t.args
	w := t.sort.W
	mk := mask(w)
	switch t.op {
	case ONot:
		return 1 - m.eval(a[0])
	case OAnd:
		for _, x := range a {
			if m.eval(x) == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range a {
			if m.eval(x) == 1 {
				return 1
			}
		}
		return 0
	case OEq:
		return b2u(m.eval(a[0]) == m.eval(a[1]))
	case OIte:
		if m.eval(a[0]) == 1 {
			return m.eval(a[1])
		}
		return m.eval(a[2])
	case OAdd:
		return (m.eval(a[0]) + m.eval(a[1])) & mk
	case OSub:
		return (m.eval(a[0]) - m.eval(a[1])) & mk
	case OMul:
		return (m.eval(a[0]) * m.eval(a[1])) & mk
	case OUDiv:
		y := m.eval(a[1])
		if y == 0 {
			return mk
		}
		return m.eval(a[0]) / y
	case OURem:
		y := m.eval(a[1])
		if y == 0 {
			return m.eval(a[0])
		}
		return m.eval(a[0]) % y
	case OSDiv:
		x, y := sext(m.eval(a[0]), w), sext(m.eval(a[1]), w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mk
		}
		if y == -1 {
			return uint64(-x) & mk
		}
		return uint64(x/y) & mk
	case OSRem:
		x, y := sext(m.eval(a[0]), w), sext(m.eval(a[1]), w)
		if y == 0 {
			return uint64(x) & mk
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mk
	case OBAnd:
		return m.eval(a[0]) & m.eval(a[1])
	case OBOr:
		return m.eval(a[0]) | m.eval(a[1])
	case OBXor:
		return m.eval(a[0]) ^ m.eval(a[1])
	case OBNot:
		return ^m.eval(a[0]) & mk
	case ONeg:
		return -m.eval(a[0]) & mk
	case OShl:
		s := m.eval(a[1])
		if s >= uint64(w) {
			return 0
		}
		return (m.eval(a[0]) << s) & mk
	case OLShr:
		s := m.eval(a[1])
		if s >= uint64(w) {
			return 0
		}
		return m.eval(a[0]) >> s
	case OAShr:
		s := m.eval(a[1])
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(m.eval(a[0]), w)>>s) & mk
	case OUlt:
		return b2u(m.eval(a[0]) < m.eval(a[1]))
	case OUle:
		return b2u(m.eval(a[0]) <= m.eval(a[1]))
	case OSlt:
		return b2u(sext(m.eval(a[0]), a[0].sort.W) < sext(m.eval(a[1]), a[0].sort.W))
	case OSle:
		return b2u(sext(m.eval(a[0]), a[0].sort.W) <= sext(m.eval(a[1]), a[0].sort.W))
	case OConcat:
		var v uint64
		for _, p := range a {
			if p.sort.W == 64 {
				v = m.eval(p)
			} else {
				v = v<<p.sort.W | m.eval(p)
			}
		}
		return v
	case OExtract:
		return (m.eval(a[0]) >> t.val) & mk
	case OZExt:
		return m.eval(a[0])
	case OSExt:
		return uint64(sext(m.eval(a[0]), a[0].sort.W)) & mk
	case OFAdd, OFSub, OFMul, OFDiv:
		if t.sort.K == SF32 {
			x, y := math.Float32frombits(uint32(m.eval(a[0]))), math.Float32frombits(uint32(m.eval(a[1])))
			var r float32
			switch t.op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			case OFDiv:
				r = x / y
			}
			return uint64(math.Float32bits(r))
		}
		x, y := math.Float64frombits(m.eval(a[0])), math.Float64frombits(m.eval(a[1]))
		var r float64
		switch t.op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		return math.Float64bits(r)
	case OFNeg:
		return fbits(t.sort, -ffrom(t.sort, m.eval(a[0])))
	case OFAbs:
		return fbits(t.sort, math.Abs(ffrom(t.sort, m.eval(a[0]))))
	case OFFloor:
		return fbits(t.sort, math.Floor(ffrom(t.sort, m.eval(a[0]))))
	case OFCeil:
		return fbits(t.sort, math.Ceil(ffrom(t.sort, m.eval(a[0]))))
	case OFTrunc:
		return fbits(t.sort, math.Trunc(ffrom(t.sort, m.eval(a[0]))))
	case OFSqrt:
		return fbits(t.sort, math.Sqrt(ffrom(t.sort, m.eval(a[0]))))
	case OFRoundEven:
		return fbits(t.sort, math.RoundToEven(ffrom(t.sort, m.eval(a[0]))))
	case OFLt:
		return b2u(ffrom(a[0].sort, m.eval(a[0])) < ffrom(a[0].sort, m.eval(a[1])))
	case OFLe:
		return b2u(ffrom(a[0].sort, m.eval(a[0])) <= ffrom(a[0].sort, m.eval(a[1])))
	case OFEq:
		return b2u(ffrom(a[0].sort, m.eval(a[0])) == ffrom(a[0].sort, m.eval(a[1])))
	case OFCvt:
		return fbits(t.sort, ffrom(a[0].sort, m.eval(a[0])))
	case OFFromBits, OFToBits:
		return m.eval(a[0])
	case OFFromS:
		x := sext(m.eval(a[0]), a[0].sort.W)
		if t.sort.K == SF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFFromU:
		x := m.eval(a[0])
		if t.sort.K == SF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		return goFToS(ffrom(a[0].sort, m.eval(a[0])), int(w)) & mk
	case OFToU:
		return uint64(ffrom(a[0].sort, m.eval(a[0]))) & mk
	}
	panic("eval: op " + opNames[t.op])
}
