package main

import (
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/internal/vsym"
)

// Recordings nested 70 deep and collections of 1100 and 5000 captures.

// nest puts leaf into n recordings, each with a collection, a key of its own and a sibling of leaf's.
func nest(n int, leaf recSpec) recSpec {
	for i := 0; i < n; i++ {
		id := string([]byte{byte('a' + i%26), byte('a' + i/26)})
		leaf = recSpec{id: id, name: "n", meta: []fieldSpec{{id, propSpec{kind: pString, s: "v" + id}}},
			colls: []collSpec{longColl(i%4, 1, -1)}, kids: []recSpec{leaf, {id: "after", name: id}}}
	}
	return leaf
}

// Recordings nested 20, 40 and 70 deep, the innermost with two collections of symbolic contents.
//v: reach=compared cases=6 steps=600000000
func C01_deep() {
	k := vsym.Case(6)
	leaf := recSpec{id: "leaf", name: vsym.Str("name", 1), colls: []collSpec{symColl(k%5, 1), symColl((k+1)%5, 2)}}
	encs := fullEncoders()
	roundTrip(nest([3]int{20, 40, 70}[k/2], leaf), encs, encs, k%2 == 1)
}

// endOf is the time of the last capture before those given to longOrDeep.
func endOf(k int) float64 { return [4]float64{274.75, 1249.75, 0, 0}[k] }

// longOrDeep is a collection of 1100 or 5000 captures, or recordings nested 40 or 70 deep around a collection of 3 captures.
func longOrDeep(k int, c collSpec) recSpec {
	if k < 2 {
		long := longColl(c.kind, [2]int{1100, 5000}[k], -1)
		long.caps = append(long.caps, c.caps...)
		return recSpec{id: "r", colls: []collSpec{long}}
	}
	return nest([2]int{40, 70}[k-2], recSpec{id: "leaf", colls: []collSpec{c}})
}

// The last captures of a collection of 1100 or 5000, or the innermost of recordings nested 40 or 70 deep, sliced to any window around them.
//v: mode=real reach=sliced cases=20 steps=600000000
func C15_deep() {
	k := vsym.Case(20)
	m := endOf(k % 4)
	c := longColl(k/4, 3, -1)
	c.caps[0].t, c.caps[1].t, c.caps[2].t = m, vsym.Real("t", m+0.125, m+0.375), m+0.5
	want := longOrDeep(k%4, c)
	beg, end := vsym.Real("beginning", m, m+0.5), vsym.Real("end", m, m+0.75)
	src := mkRec(want)
	checkRec(format.Slice(src, format.BeginningOfSlice(beg), format.EndOfSlice(end)), sliced(want, beg, end, true), true)
	vsym.Reach("sliced")
}

// Two captures of any times after a collection of 1100 or 5000, or innermost of recordings nested 40 or 70 deep.
//v: mode=real reach=valid,invalid cases=20 steps=600000000
func C16_deep() {
	a, b := vsym.Real("a", -1e6, 1e6), vsym.Real("b", -1e6, 1e6)
	k := vsym.Case(20)
	ok := a <= b
	if k%4 < 2 {
		ok = vsym.And(ok, a >= endOf(k%4))
	}
	if format.Validate(mkRec(longOrDeep(k%4, collSpec{kind: k / 4, name: "c", members: []string{"a", "b"}, caps: []capSpec{{t: a}, {t: b}}}))) == nil {
		vsym.Assert(ok, "an accepted recording is chronological")
		vsym.Reach("valid")
	} else {
		vsym.Assert(!ok, "a chronological recording is accepted")
		vsym.Reach("invalid")
	}
}

// The same, chronological.
//v: mode=real reach=bounds cases=20 steps=600000000
func C17_deep() {
	k := vsym.Case(20)
	lo := -1e6
	if k%4 < 2 {
		lo = endOf(k % 4)
	}
	a, b := vsym.Real("a", lo, 1e6), vsym.Real("b", lo, 1e6)
	vsym.Assume(a <= b)
	want := longOrDeep(k%4, collSpec{kind: k / 4, name: "c", members: []string{"a", "b"}, caps: []capSpec{{t: a}, {t: b}}})
	first, last := math.Inf(1), math.Inf(-1)
	for _, t := range timesOf(want) {
		first, last = minOf([]float64{first, t}), maxOf([]float64{last, t})
	}
	rec := mkRec(want)
	vsym.Assert(format.RecordingStart(rec) == first, "the start is the earliest capture")
	vsym.Assert(format.RecordingEnd(rec) == last, "the end is the latest capture")
	vsym.Assert(format.RecordingDuration(rec) == format.RecordingEnd(rec)-format.RecordingStart(rec), "duration is end minus start")
	vsym.Reach("bounds")
}
