package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// Recordings of 10 shapes (all parts, all collection kinds); written exactly or compactly, compressed or not, sliced,
// validated and measured in any of 6 orders; afterwards it is unchanged, and writing it again gives it back.
//v: reach=compared cases=10
func C27_operations() {
	k := vsym.Case(10)
	want := steadyTimes(plainNames(layoutTree(k, 2)))
	rec := mkRec(want)
	write := func() {
		var out bytes.Buffer
		_, err := rapio.NewWriter(fullEncoders(), vsym.Choose("compress", 2) == 1, &out, rapio.Raw64).Write(rec)
		vsym.Assert(err == nil, "writing succeeds")
	}
	cut := func() {
		a := float64(vsym.Range("from", -4, 4))
		s := format.Slice(rec, format.BeginningOfSlice(a), format.EndOfSlice(2), format.KeepBinariesInSlice(k%2 == 0))
		for _, c := range s.CaptureCollections() {
			caps := c.Captures()
			for i := range caps {
				caps[i] = nil
			}
		}
	}
	inspect := func() {
		format.Validate(rec, format.RequireChronologicalCapture(true))
		format.RecordingDuration(rec)
	}
	for i, o := range [6][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[vsym.Choose("order", 6)] {
		_ = i
		[]func(){write, cut, inspect}[o]()
	}
	checkRec(rec, want, true)
	back, err := readFull(writeFull(rec, false))
	vsym.Assert(err == nil, "the second file is read")
	checkRec(back, want, true)
	vsym.Reach("compared")
}

// steadyTimes replaces symbolic times, whose comparisons multiply the paths without mattering here.
func steadyTimes(r recSpec) recSpec {
	for i := range r.colls {
		for j := range r.colls[i].caps {
			r.colls[i].caps[j].t = float64(i + j)
		}
	}
	for i := range r.kids {
		steadyTimes(r.kids[i])
	}
	return r
}

// Collections of every kind with 3 captures at any times: changing the lists of captures they hand out, or those of their
// slices, changes nothing in them.
//v: reach=compared cases=5
func C27_lists() {
	c := symColl(vsym.Case(5), 3)
	coll := mkColl(c)
	caps := coll.Captures()
	caps[0], caps[2] = caps[1], nil
	cut := coll.Slice(vsym.F64("beginning"), vsym.F64("end"))
	for i := range cut.Captures() {
		cut.Captures()[i] = nil
	}
	_ = append(caps[:1], caps[1])
	vsym.Assert(sameColl(coll, c), "the collection is unchanged")
	vsym.Assert(coll.Length() == 3, "length")
	for i := range c.caps {
		vsym.Assert(sameCapture(c.kind, coll.CaptureAt(i), c.caps[i]), "captures are unchanged")
	}
	vsym.Reach("compared")
}

// Two recordings of 10 shapes read from one stream (uncompressed) or from two (compressed) with one set of encoders: the first does not change
// when the second is read, nor when the buffers they came from are overwritten.
//v: reach=compared cases=10
func C27_reading() {
	k := vsym.Case(10)
	a, b := plainNames(layoutTree(k, 2)), plainNames(layoutTree((k+3)%10, 1))
	encs := fullEncoders()
	var recs []format.Recording
	if vsym.Choose("compress", 2) == 0 {
		stream := append(writeFull(mkRec(a), false), writeFull(mkRec(b), false)...)
		in := bytes.NewReader(stream)
		for i := 0; i < 2; i++ {
			rec, _, err := rapio.NewReader(encs, in).Read()
			vsym.Assert(err == nil, "reading succeeds")
			recs = append(recs, rec)
		}
		for i := range stream {
			stream[i] = 0xff
		}
	} else {
		for _, want := range []recSpec{a, b} {
			stream := writeFull(mkRec(want), true)
			rec, _, err := rapio.NewReader(encs, bytes.NewReader(stream)).Read()
			vsym.Assert(err == nil, "reading succeeds")
			recs = append(recs, rec)
			for i := range stream {
				stream[i] = 0xff
			}
		}
	}
	checkRec(recs[0], a, true)
	checkRec(recs[1], b, true)
	vsym.Reach("compared")
}

// The same recordings, each read and then written twice: both files are the same length
// and mean the same recording.
//v: reach=compared cases=10
func C27_twice() {
	k := vsym.Case(10)
	want := plainNames(layoutTree(k, 1))
	rec, err := readFull(writeFull(mkRec(want), false))
	vsym.Assert(err == nil, "reading succeeds")
	var lens [2]int
	for i := range lens {
		b := writeFull(rec, false)
		lens[i] = len(b)
		again, err := readFull(b)
		vsym.Assert(err == nil, "reading succeeds")
		checkRec(again, want, true)
	}
	vsym.Assert(lens[0] == lens[1], "the same size both times")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}

// Three captures of any numbers that are multiples of 1/1024 within 1000, in every kind of quantised collection, written
// with the compact techniques and 16- or 32-bit times, compressed or not: the numbers are unchanged.
//v: mode=real reach=compared cases=3
func C27_compact() {
	k := vsym.Case(3)
	cs := []collSpec{lossyColl(cPos, "p", 3, lossy), lossyColl(cEuler, "r", 3, lossy), lossyColl(cFloat, "f", 3, lossy)}
	var colls []format.CaptureCollection
	for i := range cs {
		for j := range cs[i].caps {
			cs[i].caps[j].t = float64(j)
		}
		colls = append(colls, mkColl(cs[i]))
	}
	rec := format.NewRecording("i", "n", colls, nil, mkBlock(nil), nil, nil)
	for i := 0; i < 2; i++ {
		var out bytes.Buffer
		tech := [2]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32}[i]
		_, err := rapio.NewWriter(compactEncoders(k), vsym.Choose("compress", 2) == 1, &out, tech).Write(rec)
		vsym.Assert(err == nil, "writing succeeds")
		for i, c := range cs {
			for axis := 0; axis < axesOf(c.kind); axis++ {
				ts, vs := given(c, axis)
				gt, gv := nums(colls[i], axis)
				vsym.Assert(len(gt) == len(ts) && sameTimes(gt, ts) && sameTimes(gv, vs), "numbers are unchanged")
			}
		}
	}
	vsym.Reach("compared")
}
