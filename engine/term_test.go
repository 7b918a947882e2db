package main

import (
	"math/rand"
	"testing"
)

// Random expressions: build through the simplifying constructors while
// computing the expected value directly; the evaluator must agree.
func TestSimplifierAgainstDirectEvaluation(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for iter := 0; iter < 60000; iter++ {
		c := NewTCtx()
		m := newModel()
		ws := []int{1, 8, 16, 32, 64, 5}
		type pv struct {
			t *Term
			v uint64
		}
		pool := map[int][]pv{}
		bools := []pv{}
		for _, w := range ws {
			for k := 0; k < 2; k++ {
				x := c.Var(string(rune('a'+k))+string(rune('0'+w%10)), BV(w))
				v := r.Uint64() & mask(uint16(w))
				if r.Intn(3) == 0 {
					v = uint64(r.Intn(4)) & mask(uint16(w))
				}
				m.vals[int32(x.val)] = v
				pool[w] = append(pool[w], pv{x, v})
			}
			kv := r.Uint64() & mask(uint16(w))
			if r.Intn(2) == 0 {
				kv = uint64(r.Intn(3)) & mask(uint16(w))
			}
			pool[w] = append(pool[w], pv{c.K(w, kv), kv})
		}
		pb := c.Var("pb", BoolS)
		m.vals[int32(pb.val)] = uint64(r.Intn(2))
		bools = append(bools, pv{pb, m.vals[int32(pb.val)]})
		pick := func(w int) pv { return pool[w][r.Intn(len(pool[w]))] }
		for step := 0; step < 25; step++ {
			w := ws[r.Intn(len(ws))]
			a, b := pick(w), pick(w)
			mk := mask(uint16(w))
			sa, sb := sext(a.v, uint16(w)), sext(b.v, uint16(w))
			var res pv
			isBool := false
			switch r.Intn(24) {
			case 0:
				res = pv{c.Add(a.t, b.t), (a.v + b.v) & mk}
			case 1:
				res = pv{c.Sub(a.t, b.t), (a.v - b.v) & mk}
			case 2:
				res = pv{c.Mul(a.t, b.t), (a.v * b.v) & mk}
			case 3:
				res = pv{c.bitop(OBAnd, a.t, b.t), a.v & b.v}
			case 4:
				res = pv{c.bitop(OBOr, a.t, b.t), a.v | b.v}
			case 5:
				res = pv{c.bitop(OBXor, a.t, b.t), a.v ^ b.v}
			case 6:
				k := uint64(r.Intn(w + 2))
				v := uint64(0)
				if k < uint64(w) {
					v = a.v << k & mk
				}
				if w < 3 {
					continue
				}
				res = pv{c.Shl(a.t, c.K(w, k)), v}
			case 7:
				if w < 3 {
					continue
				}
				k := uint64(r.Intn(w))
				res = pv{c.LShr(a.t, c.K(w, k)), a.v >> k}
			case 8:
				if w < 3 {
					continue
				}
				k := uint64(r.Intn(w))
				res = pv{c.AShr(a.t, c.K(w, k)), uint64(sa>>k) & mk}
			case 9:
				lo := r.Intn(w)
				hi := lo + r.Intn(w-lo)
				nw := hi - lo + 1
				res = pv{c.Extract(a.t, hi, lo), a.v >> uint(lo) & mask(uint16(nw))}
				w = nw
			case 10:
				nw := w + r.Intn(64-w+1)
				res = pv{c.ZExt(a.t, nw), a.v}
				w = nw
			case 11:
				nw := w + r.Intn(64-w+1)
				res = pv{c.SExt(a.t, nw), uint64(sa) & mask(uint16(nw))}
				w = nw
			case 12:
				w2 := ws[r.Intn(len(ws))]
				if w+w2 > 64 {
					continue
				}
				d := pick(w2)
				res = pv{c.Concat(a.t, d.t), a.v<<uint(w2) | d.v}
				w = w + w2
			case 13:
				g := bools[r.Intn(len(bools))]
				v := b.v
				if g.v == 1 {
					v = a.v
				}
				res = pv{c.Ite(g.t, a.t, b.t), v}
			case 14:
				res, isBool = pv{c.Eq(a.t, b.t), b2u(a.v == b.v)}, true
			case 15:
				res, isBool = pv{c.Ult(a.t, b.t), b2u(a.v < b.v)}, true
			case 16:
				res, isBool = pv{c.Slt(a.t, b.t), b2u(sa < sb)}, true
			case 17:
				res, isBool = pv{c.Sle(a.t, b.t), b2u(sa <= sb)}, true
			case 18:
				g, h := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
				res, isBool = pv{c.And(g.t, h.t), g.v & h.v}, true
			case 19:
				g, h := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
				res, isBool = pv{c.Or(g.t, h.t), g.v | h.v}, true
			case 20:
				g := bools[r.Intn(len(bools))]
				res, isBool = pv{c.Not(g.t), 1 - g.v}, true
			case 21:
				if b.v == 0 {
					continue
				}
				switch r.Intn(4) {
				case 0:
					res = pv{c.Div(OUDiv, a.t, b.t), a.v / b.v}
				case 1:
					res = pv{c.Div(OURem, a.t, b.t), a.v % b.v}
				case 2:
					if sb == -1 {
						continue
					}
					res = pv{c.Div(OSDiv, a.t, b.t), uint64(sa/sb) & mk}
				case 3:
					if sb == -1 {
						continue
					}
					res = pv{c.Div(OSRem, a.t, b.t), uint64(sa%sb) & mk}
				}
			case 22:
				g, h, i := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
				v := i.v
				if g.v == 1 {
					v = h.v
				}
				res, isBool = pv{c.Ite(g.t, h.t, i.t), v}, true
			case 23:
				res = pv{c.BNot(a.t), ^a.v & mk}
			}
			if got := m.eval(res.t); got != res.v {
				t.Fatalf("iter %d: %s: got %x want %x", iter, res.t.str(6), got, res.v)
			}
			if res.t.sort.K == SBV {
				lo, hi := res.t.urange()
				if res.v < lo || res.v > hi {
					t.Fatalf("range %s: %x not in [%x,%x]", res.t.str(6), res.v, lo, hi)
				}
			}
			if isBool {
				bools = append(bools, res)
			} else {
				pool[w] = append(pool[w], res)
			}
		}
	}
}
