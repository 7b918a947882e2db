package main

import (
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	"github.com/recolude/rap/internal/vsym"
)

// longCaptures has 129, 300, 1100 or 5000 captures on a path with steps of up to 8, whose last is any multiple of 1/1024 within a step
// of the one before; the widest steps in both directions come at the start or shortly before the end.
func longCaptures(kind int) collSpec {
	n := [4]int{129, 300, 1100, 5000}[vsym.Case(4)]
	c := collSpec{kind: kind, name: "a"}
	at := vsym.Choose("widest", 2) * (n - 6)
	var x, y, z float64
	for i := 0; i < n; i++ {
		c.caps = append(c.caps, capSpec{t: float64(i), x: x, y: y, z: z})
		switch i {
		case at:
			x, y, z = x+8, y+8, z+8
		case at + 1:
			x, y, z = x-8, y-8, z-8
		case at + 2:
			y -= 8
		default:
			// triangle waves of different lengths
			x += float64(3-6*(i/40%2)) / 4
			y += float64(1-2*(i/60%2)) * 2 / 16
			z += float64(5-10*(i/16%2)) / 8
		}
	}
	last := &c.caps[n-1]
	last.x += vsym.Grid("x", -1, 1, 10)
	last.y += vsym.Grid("y", -1, 1, 10)
	last.z += vsym.Grid("z", -1, 1, 10)
	return c
}

// Collections of 129, 300, 1100 and 5000 positions, the last of them symbolic, Oct48.
//v: mode=real reach=compared cases=4 steps=600000000
func C11_oct48_long() {
	c := longCaptures(cPos)
	tech, bits := octTech(0)
	checkOct(tech, bits, []collSpec{c}, 1e-7)
}

// The same with Oct24.
//v: mode=real reach=compared cases=4 steps=600000000
func C11_oct24_long() {
	c := longCaptures(cPos)
	tech, bits := octTech(1)
	checkOct(tech, bits, []collSpec{c}, 1e-7)
}

// Collections of 129, 300, 1100 and 5000 rotations, the last of them symbolic, Raw16.
//v: mode=real reach=compared cases=4 steps=600000000
func C12_long() {
	c := longCaptures(cEuler)
	ts, _ := given(c, 0)
	back := encodeAll(eulerenc.NewEncoder(eulerenc.Raw16), []collSpec{c})[0]
	for axis := 0; axis < 3; axis++ {
		_, vs := given(c, axis)
		gt, gv := nums(back, axis)
		vsym.Assert(sameTimes(gt, ts), "times are kept by the encoder")
		for j := range vs {
			d := abs(gv[j] - vs[j])
			tol := 360.0/(1<<17) + 1e-9
			vsym.Assert(vsym.Or(d <= tol, vsym.Or(abs(360-d) <= tol, abs(720-d) <= tol)), "16-bit angles are equivalent within half a step")
		}
	}
	vsym.Reach("compared")
}

// Collections of 129, 300, 1100 and 5000 floats, the last of them symbolic, BST16.
//v: mode=real reach=compared cases=4 steps=600000000
func C13_long() {
	checkFloats16([]collSpec{{kind: cFloat, name: "e"}, longCaptures(cFloat)}, 1e-9)
}

// Collections of 129, 300, 1100 and 5000 chronological times, the last of them symbolic, 16-bit storage.
//v: mode=real reach=compared cases=4 steps=600000000
func C10_time16_many() {
	n := [4]int{129, 300, 1100, 5000}[vsym.Case(4)]
	at := 1 + vsym.Choose("widest", 2)*(n-6)
	ts := []float64{-3}
	for i := 1; i < n-1; i++ {
		t := ts[i-1] + float64(i*i%7)/16
		if i == at {
			t += 8
		}
		ts = append(ts, t)
	}
	checkTimes16(append(ts, ts[n-2]+vsym.Grid("gap", 0, 1, 10)), 1e-7)
}
