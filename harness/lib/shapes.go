package main

import (
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/internal/vsym"
)

// anyShape picks one of four trees of four recordings (chain, siblings, two with a grandchild) with arbitrary one-byte ids
// and names, which may coincide, and gives those picked by a mask content.
func anyShape(all, some func(i int, r *recSpec)) recSpec {
	kind, mask := vsym.Choose("shape", 4), vsym.Choose("mask", 16)
	r := [4]recSpec{}
	for i := range r {
		r[i].id = vsym.Str("id", 1)
		r[i].name = vsym.Str("name", 1)
		all(i, &r[i])
		if mask>>i&1 == 1 {
			some(i, &r[i])
		}
	}
	switch kind {
	case 0:
		r[2].kids = []recSpec{r[3]}
		r[1].kids = []recSpec{r[2]}
		r[0].kids = []recSpec{r[1]}
	case 1:
		r[0].kids = []recSpec{r[1], r[2], r[3]}
	case 2:
		r[1].kids = []recSpec{r[2]}
		r[0].kids = []recSpec{r[1], r[3]}
	case 3:
		r[1].kids = []recSpec{r[2], r[3]}
		r[0].kids = []recSpec{r[1]}
	}
	return r[0]
}

func nothing(int, *recSpec) {}

func withData(i int, r *recSpec) {
	r.bins = []binSpec{{name: vsym.Str("binary", 1), data: []byte{byte(i), 2}, meta: []fieldSpec{{string([]byte{byte('a' + i)}), symProp(pByte)}}}, {name: "empty"}}
	r.refs = []refSpec{{name: vsym.Str("reference", 1), uri: vsym.Str("uri", 1), size: uint64(vsym.Range("size", 0, 127))}}
}

// Every tree of four recordings in four shapes, each with or without collections (or binaries and references, or metadata).
//v: reach=compared cases=3
func C01_shapes() {
	some := func(i int, r *recSpec) { r.colls = []collSpec{symColl(i, 1), symColl(4-i, i%2)} }
	all := nothing
	switch vsym.Case(3) {
	case 1:
		all, some = some, withData
	case 2:
		all, some = withData, func(i int, r *recSpec) { r.meta = []fieldSpec{{"m", symProp(pInt)}} }
	}
	roundTrip(anyShape(all, some), fullEncoders(), fullEncoders(), false)
}

// Every tree of four recordings in four shapes, each with or without binaries and references.
//v: reach=compared
func C03_shapes() { roundTrip(anyShape(nothing, withData), fullEncoders(), fullEncoders(), false) }

// Every tree of four recordings in four shapes, each with or without metadata, beside binaries with metadata; keys shared with
// binaries of other recordings.
//v: reach=compared
func C02_shapes() {
	roundTrip(anyShape(withData, func(i int, r *recSpec) {
		r.meta = []fieldSpec{{string([]byte{byte('b' + i)}), symProp(allKinds[i])}, {"m", propSpec{kind: pBlock}}}
	}), fullEncoders(), fullEncoders(), false)
}

// Every tree of four recordings in four shapes, each with or without two enum or two event collections with dictionaries that
// may coincide or not.
//v: reach=compared cases=2
func C14_shapes() {
	kind := [2]int{cEnum, cEvent}[vsym.Case(2)]
	roundTrip(anyShape(nothing, func(i int, r *recSpec) {
		for k := 0; k < 2; k++ {
			c := symColl(kind, 1)
			if kind == cEnum {
				c.members = []string{string([]byte{byte('a' + i)}), string([]byte{byte('b' + i - k)})}
			} else {
				c.caps[0].name = string([]byte{byte('a' + i%2 + k)})
			}
			r.colls = append(r.colls, c)
		}
	}), fullEncoders(), fullEncoders(), false)
}

// Every tree of four recordings in four shapes, all with binaries, references and metadata, each with or without a capture at
// any finite time; any window.
//v: reach=sliced
func C15_shapes() {
	want := anyShape(func(i int, r *recSpec) {
		withData(i, r)
		r.meta = []fieldSpec{{"m", symProp(pInt)}}
	}, func(i int, r *recSpec) {
		c := finiteTimes(symColl(i, 1))
		r.colls = []collSpec{{kind: 4 - i, name: "none"}, c}
	})
	beg, end := window("beginning"), window("end")
	src := mkRec(want)
	checkRec(format.Slice(src, format.BeginningOfSlice(beg), format.KeepBinariesInSlice(false), format.EndOfSlice(end)), sliced(want, beg, end, false), true)
	checkRec(src, want, true)
	vsym.Reach("sliced")
}

// Every tree of four recordings in four shapes, each with or without a collection of two captures at arbitrary times within
// 1e300: chronology, and with chronological collections start and end.
//v: reach=valid,invalid mode=real
func C16_shapes() {
	ok := true
	want := anyShape(withData, func(i int, r *recSpec) {
		a, b := vsym.Real("t", -1e300, 1e300), vsym.Real("t", -1e300, 1e300)
		r.colls = []collSpec{{kind: i, name: "none"}, {kind: i, name: "c", caps: []capSpec{{t: a}, {t: b}}}}
		ok = vsym.And(ok, a <= b)
	})
	if format.Validate(mkRec(want)) == nil {
		vsym.Assert(ok, "an accepted recording is chronological everywhere")
		vsym.Reach("valid")
	} else {
		vsym.Assert(!ok, "a chronological recording is accepted")
		vsym.Reach("invalid")
	}
}

// Every tree of four recordings in four shapes, each with or without a capture at any time within 1e300 (or 0).
//v: reach=bounds mode=real
func C17_shapes() {
	want := anyShape(withData, func(i int, r *recSpec) {
		r.colls = []collSpec{{kind: i, name: "none"}, {kind: 4 - i, name: "c", caps: []capSpec{{t: vsym.Real("t", -1e300, 1e300)}}}}
	})
	ts := timesOf(want)
	if len(ts) == 0 {
		return
	}
	rec := mkRec(want)
	start, end := format.RecordingStart(rec), format.RecordingEnd(rec)
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, t := range ts {
		lo, hi = vsym.IteF(t < lo, t, lo), vsym.IteF(t > hi, t, hi)
	}
	vsym.Assert(start == lo, "the start is the earliest capture")
	vsym.Assert(end == hi, "the end is the latest capture")
	vsym.Reach("bounds")
}
