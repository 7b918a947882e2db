package main

import (
	"bytes"
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	floatenc "github.com/recolude/rap/format/encoding/float"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// Harnesses of the lossy storage techniques (C10 to C13). Two kinds: bit-precise ones for the techniques that keep or
// round each number, and ones over real numbers (mode=real: every float operation yields its exact result plus any error
// up to its rounding unit) for the quantising ones. In the latter all magnitudes are at most lossyMax, which makes slack
// the room for 32-bit rounding.

const lossyMax = 1000.0

// slack: n roundings of numbers below 2*lossyMax to 32 bits (half a unit in the last place each), and all 64-bit ones.
func slack(n int) float64 { return float64(n)*2048/(1<<24) + 1e-9 }

func lossy(name string) float64 { return vsym.Grid(name, -lossyMax, lossyMax, 10) }

// anyReal is any number at all, off the grid.
func anyReal(name string) float64 { return vsym.Real(name, -lossyMax, lossyMax) }

func abs(x float64) float64 { return math.Abs(x) }

func maxOf(xs []float64) float64 {
	m := xs[0]
	for _, x := range xs[1:] {
		m = vsym.IteF(x > m, x, m)
	}
	return m
}

func minOf(xs []float64) float64 {
	m := xs[0]
	for _, x := range xs[1:] {
		m = vsym.IteF(x < m, x, m)
	}
	return m
}

func steps(xs []float64) []float64 {
	var out []float64
	for i := 1; i < len(xs); i++ {
		out = append(out, xs[i]-xs[i-1])
	}
	return out
}

// timesAfter writes captures at the given times and reads them back.
func timesAfter(ts []float64, tech rapio.TimeStorageTechnique) []float64 {
	c := collSpec{kind: cEnum, name: "c", members: []string{"m"}}
	for _, t := range ts {
		c.caps = append(c.caps, capSpec{t: t})
	}
	rec := mkRec(recSpec{id: "i", name: "n", colls: []collSpec{c, {kind: cEnum, name: "d", caps: []capSpec{{t: 7}}}}})
	var out bytes.Buffer
	_, err := rapio.NewWriter(fullEncoders(), false, &out, tech).Write(rec)
	vsym.Assert(err == nil, "writing succeeds")
	back, err := readFull(out.Bytes())
	vsym.Assert(err == nil, "reading back succeeds")
	vsym.Assert(len(back.CaptureCollections()) == 2 && back.CaptureCollections()[0].Length() == len(ts), "number of captures kept")
	vsym.Assert(back.CaptureCollections()[1].Captures()[0].Time() == 7, "the next collection's times are its own")
	var got []float64
	for _, k := range back.CaptureCollections()[0].Captures() {
		got = append(got, k.Time())
	}
	return got
}

// 0 to 5 captures at arbitrary times (any 64 bits), 64-bit storage.
//v: reach=compared
func C10_time64() {
	var ts []float64
	for n := vsym.Choose("captures", 6); n > 0; n-- {
		ts = append(ts, vsym.F64("t"))
	}
	for i, t := range timesAfter(ts, rapio.Raw64) {
		vsym.Assert(vsym.SameF64(t, ts[i]), "64-bit storage returns every time unchanged")
		vsym.Reach("compared")
	}
}

// 0 to 5 captures at arbitrary times (not NaN), 32-bit storage.
//v: reach=compared
func C10_time32() {
	var ts []float64
	for n := vsym.Choose("captures", 6); n > 0; n-- {
		t := vsym.F64("t")
		vsym.Assume(!math.IsNaN(t))
		ts = append(ts, t)
	}
	for i, t := range timesAfter(ts, rapio.Raw32) {
		vsym.Assert(vsym.SameF64(t, float64(float32(ts[i]))), "32-bit storage returns the nearest 32-bit float")
		vsym.Reach("compared")
	}
}

// outside is how far x lies outside [lo, hi].
func outside(x, lo, hi float64) float64 {
	return vsym.IteF(x > hi, x-hi, vsym.IteF(x < lo, lo-x, 0))
}

// checkTimes16: sl is the room for rounding of one stored number.
func checkTimes16(ts []float64, sl float64) {
	got := timesAfter(ts, rapio.BST16)
	vsym.Assert(abs(got[0]-ts[0]) <= sl, "the first time is exact up to 32-bit rounding")
	if len(ts) == 1 {
		return
	}
	gap := maxOf(steps(ts))
	for i := 1; i < len(ts); i++ {
		vsym.Cut(got[i-1])
		vsym.Assert(abs(got[i]-ts[i]) <= gap/(1<<17)+outside(ts[i]-got[i-1], 0, gap)+2*sl, "16-bit times make up for the error so far, to within half a step")
		vsym.Assert(abs(got[i]-ts[i]) <= gap*float64(i)/(1<<17)+sl*float64(2*i+1), "16-bit times stay within half a step per preceding capture")
		vsym.Assert(got[i] >= got[i-1], "16-bit times stay chronological")
	}
	vsym.Reach("compared")
}

// 1 to 6 (thorough: 12) chronological captures at times that are multiples of 1/1024 within 1000, 16-bit storage.
//v: mode=real reach=compared cases=6 tcases=12
func C10_time16() {
	n := vsym.Case(12) + 1
	ts := []float64{lossy("t")}
	for i := 1; i < n; i++ {
		t := lossy("t")
		vsym.Assume(t >= ts[i-1])
		ts = append(ts, t)
	}
	checkTimes16(ts, 1e-9)
}

// 3 or 4 (thorough: up to 6) captures a few multiples of 1/1024 apart, up to 8000 away from zero, 16-bit storage.
//v: mode=real reach=compared cases=2 tcases=4
func C10_time16_fine() {
	n := vsym.Case(4) + 3
	ts := []float64{vsym.Grid("start", -8000, 8000, 10)}
	for i := 1; i < n; i++ {
		ts = append(ts, ts[i-1]+vsym.Grid("gap", 0, 0.0625, 10))
	}
	checkTimes16(ts, 1e-9)
}

// 1 or 2 chronological captures at any times within 1000 whose gap is 0 or at least 1/64, 16-bit storage.
//v: mode=real reach=compared cases=2
func C10_time16_offgrid() {
	ts := []float64{anyReal("t")}
	if vsym.Case(2) == 1 {
		t := anyReal("t")
		vsym.Assume(t-ts[0] >= 1.0/64)
		ts = append(ts, t)
	}
	checkTimes16(ts, slack(1))
}

// 2 to 40 captures all at the same time, and regular or irregular sequences of 100 fixed times, 16-bit storage.
//v: mode=real reach=compared
func C10_time16_long() {
	var ts []float64
	switch vsym.Choose("shape", 4) {
	case 0:
		t := lossy("t")
		for n := [3]int{2, 3, 40}[vsym.Choose("captures", 3)]; n > 0; n-- {
			ts = append(ts, t)
		}
		for _, g := range timesAfter(ts, rapio.BST16) {
			vsym.Assert(abs(g-t) <= slack(2), "equal times stay equal")
		}
		vsym.Reach("compared")
		return
	case 1:
		for i := 0; i < 100; i++ {
			ts = append(ts, float64(i)*0.3-7)
		}
	case 2:
		for i := 0; i < 100; i++ {
			ts = append(ts, float64(i*i%7)/50+float64(i)*1.5)
		}
	case 3:
		ts = []float64{4096}
		for i := 1; i < 100; i++ {
			ts = append(ts, ts[i-1]+float64(i*i%7)/170+0.01)
		}
		checkTimes16(ts, 1e-7)
		return
	}
	checkTimes16(ts, slack(1))
}

// encodeAll encodes collections together and decodes them one by one.
func encodeAll(e encoding.Encoder, cs []collSpec) []format.CaptureCollection {
	var colls []format.CaptureCollection
	for _, c := range cs {
		colls = append(colls, mkColl(c))
	}
	header, data, err := e.Encode(colls)
	vsym.Assert(err == nil && len(data) == len(cs), "encoding succeeds")
	var out []format.CaptureCollection
	for i, c := range cs {
		ts := []float64{}
		for _, k := range c.caps {
			ts = append(ts, k.t)
		}
		back, err := e.Decode(c.name, header, data[i], ts)
		vsym.Assert(err == nil && back != nil, "decoding succeeds")
		vsym.Assert(sameCollHead(back, c), "name, kind and number of captures kept")
		out = append(out, back)
	}
	return out
}

func nums(c format.CaptureCollection, axis int) (ts, vs []float64) {
	for _, k := range capsOf(c) {
		ts = append(ts, k.t)
		vs = append(vs, *k.axis(axis))
	}
	return
}

func given(c collSpec, axis int) (ts, vs []float64) {
	for _, k := range c.caps {
		k := k
		ts = append(ts, k.t)
		vs = append(vs, *k.axis(axis))
	}
	return
}

func axesOf(kind int) int {
	if kind == cFloat {
		return 1
	}
	return 3
}

// exactly compares bit-exact or 32-bit techniques on two collections encoded together.
func exactly(e encoding.Encoder, kind int, round bool) {
	n := vsym.Choose("captures", 5)
	cs := []collSpec{{kind: kind, name: "a"}, {kind: kind, name: "b"}}
	for i := 0; i < n+1; i++ {
		k := symCap(kind)
		if round {
			finite(k.x)
			finite(k.y)
			finite(k.z)
		}
		cs[i%2].caps = append(cs[i%2].caps, k)
	}
	for i, back := range encodeAll(e, cs) {
		for axis := 0; axis < axesOf(kind); axis++ {
			ts, vs := given(cs[i], axis)
			gt, gv := nums(back, axis)
			for j := range ts {
				want := vs[j]
				if round {
					want = float64(float32(want))
				}
				vsym.Assert(vsym.SameF64(gt[j], ts[j]), "times are kept by the encoder")
				vsym.Assert(vsym.SameF64(gv[j], want), "values are kept to the technique's precision")
			}
		}
	}
	vsym.Reach("compared")
}

// Up to 5 positions of arbitrary bits in two collections, Raw64.
//v: reach=compared
func C11_raw64() { exactly(posenc.NewEncoder(posenc.Raw64), cPos, false) }

// Up to 5 positions of arbitrary finite coordinates in two collections, Raw32.
//v: reach=compared
func C11_raw32() { exactly(posenc.NewEncoder(posenc.Raw32), cPos, true) }

// Up to 5 rotations of arbitrary bits in two collections, Raw64.
//v: reach=compared
func C12_raw64() { exactly(eulerenc.NewEncoder(eulerenc.Raw64), cEuler, false) }

// Up to 5 rotations of arbitrary finite angles in two collections, Raw32.
//v: reach=compared
func C12_raw32() { exactly(eulerenc.NewEncoder(eulerenc.Raw32), cEuler, true) }

// Up to 5 floats of arbitrary bits in two collections, Raw64.
//v: reach=compared
func C13_raw64() { exactly(floatenc.NewEncoder(floatenc.Raw64), cFloat, false) }

// Up to 5 arbitrary finite floats in two collections, Raw32.
//v: reach=compared
func C13_raw32() { exactly(floatenc.NewEncoder(floatenc.Raw32), cFloat, true) }

func lossyColl(kind int, name string, n int, lossy func(string) float64) collSpec {
	c := collSpec{kind: kind, name: name}
	for i := 0; i < n; i++ {
		k := capSpec{t: vsym.Grid("t", -lossyMax, lossyMax, 10), x: lossy("x")}
		if kind != cFloat {
			k.y, k.z = lossy("y"), lossy("z")
		}
		c.caps = append(c.caps, k)
	}
	return c
}

func sameTimes(gt, ts []float64) bool {
	ok := true
	for i := range ts {
		ok = vsym.And(ok, gt[i] == ts[i])
	}
	return ok
}

// checkFloats16: sl is the room for rounding.
func checkFloats16(cs []collSpec, sl float64) {
	for i, back := range encodeAll(floatenc.NewEncoder(floatenc.BST16), cs) {
		if len(cs[i].caps) == 0 {
			continue
		}
		ts, vs := given(cs[i], 0)
		gt, gv := nums(back, 0)
		vsym.Assert(sameTimes(gt, ts), "times are kept by the encoder")
		spread := maxOf(vs) - minOf(vs)
		for j := range vs {
			vsym.Assert(abs(gv[j]-vs[j]) <= spread/(1<<17)+sl, "16-bit floats stay within half a step of the range")
		}
	}
	vsym.Reach("compared")
}

// Two collections of 0 to 4 floats within 1000 (thorough: 5), BST16.
//v: mode=real reach=compared cases=5 tcases=6
func C13_bst16() {
	n := vsym.Case(6)
	checkFloats16([]collSpec{lossyColl(cFloat, "a", n, lossy), lossyColl(cFloat, "b", 2, lossy)}, 1e-9)
}

// 10 floats (thorough: 40) of which one lies anywhere within 1000, BST16.
//v: mode=real reach=compared
func C13_bst16_long() {
	c := collSpec{kind: cFloat, name: "a"}
	at := vsym.Choose("at", 3)
	n := 10
	if vsym.Thorough() {
		n = 40
	}
	for i := 0; i < n; i++ {
		c.caps = append(c.caps, capSpec{t: float64(i), x: float64(i%11) * 5})
	}
	c.caps[[3]int{0, n / 2, n - 1}[at]].x = lossy("x")
	checkFloats16([]collSpec{{kind: cFloat, name: "e"}, c}, 1e-9)
}

// Collections of 1 to 3 rotations (thorough: 4), alone and beside another, Raw16. Each angle is a multiple of 1/1024 in
// one turn (thorough also: any number), plus one of -1000001, -2, -1, 0, 1, 5 and 2^30+1 turns (any number: -1 to 5).
//v: mode=real reach=compared cases=3 tcases=8
func C12_raw16() {
	k := vsym.Case(8)
	n := k%4 + 1
	turns := []float64{0, -1, 1, 5, -2, -1000001, 1<<30 + 1}
	var bases []float64
	angle := func(name string) float64 {
		b := vsym.Grid(name, 0, 360, 10)
		if k >= 4 {
			b = vsym.Real(name, 0, 360)
			turns = turns[:4]
		}
		vsym.Assume(b <= 360-1.0/1024)
		bases = append(bases, b)
		return b + 360*turns[len(bases)%len(turns)]
	}
	cs := []collSpec{lossyColl(cEuler, "a", n, angle)}
	if n == 2 {
		cs = append(cs, lossyColl(cEuler, "b", 1, angle))
	}
	at := 0
	for i, back := range encodeAll(eulerenc.NewEncoder(eulerenc.Raw16), cs) {
		ts, _ := given(cs[i], 0)
		tol, sl := 360.0/(1<<17)+1e-9, 1e-9
		if len(ts) == 1 {
			tol, sl = slack(1), slack(1)
		}
		for j := range ts {
			for axis := 0; axis < 3; axis++ {
				gt, gv := nums(back, axis)
				vsym.Assert(sameTimes(gt, ts), "times are kept by the encoder")
				vsym.Assert(vsym.And(gv[j] >= -sl, gv[j] <= 360+sl), "16-bit angles lie within one turn")
				d := abs(gv[j] - bases[at])
				vsym.Assert(vsym.Or(d <= tol, 360-d <= tol), "16-bit angles are equivalent within half a step")
				at++
			}
		}
	}
	vsym.Reach("compared")
}

func checkOct(tech posenc.StorageTechnique, bits int, cs []collSpec, sl float64) {
	half := 1 / float64(int(2)<<bits)
	for i, back := range encodeAll(posenc.NewEncoder(tech), cs) {
		for axis := 0; axis < 3; axis++ {
			ts, vs := given(cs[i], axis)
			if len(vs) == 0 {
				continue
			}
			gt, gv := nums(back, axis)
			vsym.Assert(sameTimes(gt, ts), "times are kept by the encoder")
			vsym.Assert(abs(gv[0]-vs[0]) <= sl, "the first position is exact up to 32-bit rounding")
			if len(vs) == 1 {
				continue
			}
			st := steps(vs)
			lo, hi := minOf(st), maxOf(st)
			for j := 1; j < len(vs); j++ {
				vsym.Cut(gv[j-1])
				vsym.Assert(abs(gv[j]-vs[j]) <= (hi-lo)*half+outside(vs[j]-gv[j-1], lo, hi)+3*sl, "positions make up for the error so far, to within half a step")
				vsym.Assert(abs(gv[j]-vs[j]) <= (hi-lo)*half*float64(j)+sl*float64(1+2*j), "positions stay within half a step per preceding capture")
			}
		}
	}
	vsym.Reach("compared")
}

func octTech(k int) (posenc.StorageTechnique, int) {
	if k%2 == 0 {
		return posenc.Oct48, 16
	}
	return posenc.Oct24, 8
}

// Collections of 0 to 5 (thorough: 8) positions that are multiples of 1/1024 within 1000, alone and beside another,
// Oct48 and Oct24.
//v: mode=real reach=compared cases=12 tcases=18
func C11_oct() {
	k := vsym.Case(18)
	n := k / 2
	cs := []collSpec{lossyColl(cPos, "a", n, lossy)}
	if n == 2 {
		cs = append(cs, lossyColl(cPos, "b", 3, lossy))
	}
	tech, bits := octTech(k)
	checkOct(tech, bits, cs, 1e-9)
}

// 3 positions (thorough: up to 4) a few multiples of 1/1024 apart, up to 8000 away from zero, Oct48 and Oct24.
//v: mode=real reach=compared cases=2 tcases=4
func C11_oct_fine() {
	k := vsym.Case(4)
	c := collSpec{kind: cPos, name: "a"}
	for i := 0; i < 3+k/2; i++ {
		p := capSpec{t: float64(i), x: vsym.Grid("x", -8000, 8000, 10), y: vsym.Grid("y", -8000, 8000, 10), z: vsym.Grid("z", -8000, 8000, 10)}
		if i > 0 {
			last := c.caps[i-1]
			p = capSpec{t: float64(i), x: last.x + vsym.Grid("x", -0.0625, 0.0625, 10), y: last.y + vsym.Grid("y", -0.0625, 0.0625, 10), z: last.z + vsym.Grid("z", -0.0625, 0.0625, 10)}
		}
		c.caps = append(c.caps, p)
	}
	tech, bits := octTech(k)
	checkOct(tech, bits, []collSpec{c}, 1e-9)
}

// 2 positions of any coordinates within 1000, Oct48 and Oct24.
//v: mode=real reach=compared cases=2
func C11_oct_offgrid() {
	tech, bits := octTech(vsym.Case(2))
	checkOct(tech, bits, []collSpec{lossyColl(cPos, "a", 2, anyReal)}, slack(1))
}

