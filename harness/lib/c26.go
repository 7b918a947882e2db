package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	floatenc "github.com/recolude/rap/format/encoding/float"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

type technique struct {
	kind int
	enc  encoding.Encoder
	bits int
	wide bool // numbers of any bits; otherwise numbers within the grid of the quantisers
}

func techniques() []technique {
	return []technique{
		{cPos, posenc.NewEncoder(posenc.Raw64), 192, true},
		{cPos, posenc.NewEncoder(posenc.Raw32), 96, true},
		{cEuler, eulerenc.NewEncoder(eulerenc.Raw64), 192, true},
		{cEuler, eulerenc.NewEncoder(eulerenc.Raw32), 96, true},
		{cFloat, floatenc.NewEncoder(floatenc.Raw64), 64, true},
		{cFloat, floatenc.NewEncoder(floatenc.Raw32), 32, true},
		{cPos, posenc.NewEncoder(posenc.Oct48), 48, false},
		{cPos, posenc.NewEncoder(posenc.Oct24), 24, false},
		{cEuler, eulerenc.NewEncoder(eulerenc.Raw16), 48, false},
		{cFloat, floatenc.NewEncoder(floatenc.BST16), 16, false},
	}
}

// sizes encodes collections of 2 up to 5 captures (beside an unrelated one) and compares their sizes.
func sizes(t technique, num func(string) float64) {
	last, wide := 0, false
	for n := 2; n < 6; n++ {
		a := collSpec{kind: t.kind, name: "a"}
		for j := 0; j < n; j++ {
			a.caps = append(a.caps, capSpec{t: float64(j), x: num("x"), y: num("y"), z: num("z")})
		}
		colls := []format.CaptureCollection{mkColl(collSpec{kind: t.kind, name: "b", caps: a.caps[:1]}), mkColl(a)}
		header, data, err := t.enc.Encode(colls)
		vsym.Assert(err == nil && len(data) == 2, "encoding succeeds")
		vsym.Assert(len(header) == 0, "no shared header to pay for")
		if n > 2 {
			cost := (len(data[1]) - last) * 8
			if t.kind == cEuler && t.bits == 192 { // stores 10-byte cells: a known finding
				vsym.Assert(cost == 192 || cost == 240, "a further rotation in Raw64 costs the same as any other")
				wide = vsym.Or(wide, cost != 192)
			} else {
				vsym.Assert(cost == t.bits, "a further capture costs the documented number of bits")
			}
		}
		last = len(data[1])
	}
	vsym.Assert(!wide, "a further rotation in Raw64 costs 192 bits, not 240")
	vsym.Reach("compared")
}

// Techniques that keep each number on its own; 2 to 5 captures of any bits.
//v: reach=compared cases=6
func C26_raw() { sizes(techniques()[vsym.Case(6)], vsym.F64) }

// Quantising techniques; 2 to 5 captures of any numbers that are multiples of 1/1024 within 1000.
//v: mode=real reach=compared cases=4
func C26_quantised() { sizes(techniques()[6+vsym.Case(4)], lossy) }

// timesSize is the size of a file with n captures in its only collection.
func timesSize(tech rapio.TimeStorageTechnique, ts []float64) int {
	c := collSpec{kind: cEnum, name: "c"}
	for _, t := range ts {
		c.caps = append(c.caps, capSpec{t: t})
	}
	var out bytes.Buffer
	_, err := rapio.NewWriter(fullEncoders(), false, &out, tech).Write(mkRec(recSpec{id: "i", colls: []collSpec{c}}))
	vsym.Assert(err == nil, "writing succeeds")
	return out.Len() - len(ts) // an enum value of 0 costs a byte
}

// Times of 2 to 6 captures in 64- and 32-bit storage: any bits.
//v: reach=compared
func C26_times() { compareTimes(rapio.Raw64, 64, vsym.F64); compareTimes(rapio.Raw32, 32, vsym.F64) }

// Times of 2 to 6 captures in 16-bit storage: chronological multiples of 1/1024.
//v: mode=real reach=compared
func C26_times16() { compareTimes(rapio.BST16, 16, lossy) }

func compareTimes(tech rapio.TimeStorageTechnique, bits int, num func(string) float64) {
	last := 0
	for n := 2; n < 7; n++ {
		var ts []float64
		for i := 0; i < n; i++ {
			t := num("t")
			if i > 0 && tech == rapio.BST16 {
				vsym.Assume(t >= ts[i-1])
			}
			ts = append(ts, t)
		}
		size := timesSize(tech, ts)
		if n > 2 {
			vsym.Assert((size-last)*8 == bits, "a further time costs the documented number of bits")
		}
		last = size
	}
	vsym.Reach("compared")
}
