package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	enumenc "github.com/recolude/rap/format/encoding/enum"
	eventenc "github.com/recolude/rap/format/encoding/event"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// Long lists and deep trees: size, independence, repeated and concurrent use, BSON.

// Collections of 129, 300, 1100 and 5000 captures in each technique: one more costs the documented bits; and so do their times.
//v: reach=compared cases=10 steps=600000000
func C26_long() {
	t := techniques()[vsym.Case(10)]
	long := func(n int) collSpec {
		c := collSpec{kind: t.kind, name: "a"}
		for i := 0; i < n; i++ {
			c.caps = append(c.caps, capSpec{t: float64(i), x: float64(i % 50), y: float64(i % 70), z: 3})
		}
		if t.wide {
			c.caps[n-1].x = vsym.F64("x")
		}
		return c
	}
	for _, n := range []int{129, 300, 1100, 5000} {
		var size [2]int
		for i := range size {
			_, data, err := t.enc.Encode([]format.CaptureCollection{mkColl(long(n + i))})
			vsym.Assert(err == nil && len(data) == 1, "encoding succeeds")
			size[i] = len(data[0])
		}
		cost := (size[1] - size[0]) * 8
		vsym.Assert(cost == t.bits || (t.kind == cEuler && t.bits == 192 && cost == 240), "a further capture of a long collection costs the documented number of bits")
	}
	vsym.Reach("compared")
}

// Times of 200, 1100 and 5000 captures in each storage technique: one more costs the documented bits.
//v: reach=compared cases=3 steps=600000000
func C26_times_long() {
	k := vsym.Case(3)
	tech := [3]rapio.TimeStorageTechnique{rapio.Raw64, rapio.Raw32, rapio.BST16}[k]
	for _, n := range []int{200, 1100, 5000} {
		var ts []float64
		for i := 0; i <= n; i++ {
			ts = append(ts, float64(i)+float64(i%3)/4)
		}
		cost := (timesSize(tech, ts) - timesSize(tech, ts[:n])) * 8
		vsym.Assert(cost == [3]int{64, 32, 16}[k], "a further time of a long collection costs the documented number of bits")
	}
	vsym.Reach("compared")
}

// A collection of 4 captures at any numbers beside one of 129, 300, 1100 or 5000 captures, or among 300 others, with the compact techniques.
//v: mode=real reach=compared cases=15 steps=600000000
func C31_large() {
	k := vsym.Case(15)
	kind := [3]int{cPos, cEuler, cFloat}[k%3]
	a := sorted(lossyColl(kind, "the one", 4, lossy))
	var others []collSpec
	if k < 12 {
		c := collSpec{kind: kind, name: "b"}
		for i := [4]int{129, 300, 1100, 5000}[k/3]; i > 0; i-- {
			c.caps = append(c.caps, capSpec{t: float64(-i), x: float64(i%50) * 30, y: float64(i%70) - 1000, z: 3})
		}
		others = []collSpec{c}
	} else {
		for i := 0; i < 300; i++ {
			others = append(others, longColl(i%5, i%3, -1))
		}
	}
	encs := compactEncoders(k % 2)
	alone := byName(readWith(written(recSpec{id: "x", colls: []collSpec{a}}, encs, rapio.BST16, false), encs), "the one")
	among := byName(readWith(written(beside(a, others, vsym.Choose("place", 3)*2), encs, rapio.BST16, false), encs), "the one")
	vsym.Assert(sameNumbers(kind, alone, among), "read back the same beside others as alone")
	vsym.Reach("compared")
}

// 300 captures, 300 collections, 300 recordings or a chain of 12, written, sliced, validated and measured, with the exact
// and the compact techniques: unchanged, and written again the same.
//v: reach=compared cases=4 steps=600000000
func C27_large() {
	k := vsym.Case(4)
	want := steadyTimes(many(k, 280, collSpec{kind: cEnum, name: "c", members: []string{"m"}, caps: []capSpec{symCap(cEnum)}}))
	rec := mkRec(want)
	var out bytes.Buffer
	_, err := rapio.NewWriter(compactEncoders(k), true, &out, rapio.BST16).Write(rec)
	vsym.Assert(err == nil, "writing succeeds")
	format.Slice(rec, format.BeginningOfSlice(1), format.EndOfSlice(30))
	format.Validate(rec, format.RequireChronologicalCapture(true))
	format.RecordingDuration(rec)
	checkRec(rec, want, true)
	back, err := readFull(writeFull(rec, false))
	vsym.Assert(err == nil, "the second file is read")
	checkRec(back, want, true)
	vsym.Reach("compared")
}

// The same shapes, and texts and binaries of 127 to 70000 bytes, written with one set of encoders after a small recording and
// before one, and read in either order with another such set.
//v: reach=compared cases=6 steps=600000000
func C32_large() {
	k := vsym.Case(6)
	big := bigTree(k)
	small := settled(layoutTree(k, 1))
	encs, decs := fullEncoders(), fullEncoders()
	compress := k%2 == 1
	s1 := written(small, encs, rapio.Raw64, compress)
	b := written(big, encs, rapio.Raw64, compress)
	s2 := written(small, encs, rapio.Raw64, compress)
	r1 := readWith(s1, decs)
	rb := readWith(b, decs)
	checkRec(readWith(s2, decs), small, true)
	checkRec(r1, small, true)
	checkRec(rb, big, true)
	vsym.Reach("compared")
}

func bigTree(k int) recSpec {
	if k < 4 {
		return many(k, 280, collSpec{kind: cEnum, name: "c", members: []string{"m"}, caps: []capSpec{{t: 1, v: vsym.Range("v", 0, 127)}}})
	}
	want := recSpec{id: "r"}
	for i, n := range []int{127, 128, 300, 5000, 70000} {
		b := make([]byte, n)
		b[n-1] = vsym.U8("byte")
		if k == 4 {
			want.bins = append(want.bins, binSpec{name: "b", data: b})
		} else {
			b[n-1] &= 127
			want.meta = append(want.meta, fieldSpec{string([]byte{byte('a' + i)}), propSpec{kind: pString, s: string(b)}})
		}
	}
	return want
}

// The same shapes and texts written by several goroutines with one set of encoders, and read with another.
//v: race=1 reach=compared cases=6 steps=600000000
func C33_large() {
	k := vsym.Case(6)
	want := bigTree(k)
	rec := mkRec(want)
	encs, decs := fullEncoders(), fullEncoders()
	tech := rapio.Raw64
	compact := k < 4 && vsym.Choose("compact", 2) == 1
	if compact {
		encs, decs, tech = compactEncoders(k), compactEncoders(k), rapio.BST16
	}
	atOnce(func() {
		var out bytes.Buffer
		_, err := rapio.NewWriter(encs, k%2 == 1, &out, tech).Write(rec)
		vsym.Assert(err == nil, "written")
		back, _, err := rapio.NewReader(decs, bytes.NewReader(out.Bytes())).Read()
		vsym.Assert(err == nil && back != nil, "read back")
		if !compact {
			checkRec(back, want, true)
		}
	}, rec, encs, decs)
}

// Documents with a text of 127 to 20000 bytes, arrays of 300, 300 keys, and blocks nested 12 deep.
//v: reach=read cases=4 steps=600000000
func C29_large() {
	switch vsym.Case(4) {
	case 0:
		n := [5]int{127, 128, 300, 5000, 20000}[vsym.Choose("n", 5)]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%20)
		}
		l := vsym.U8("last")
		vsym.Assume(l < 128)
		b[n-1] = l
		bsonTrip([]fieldSpec{{"k", propSpec{kind: pString, s: string(b)}}, {"s", propSpec{kind: pBool, b: true}}})
	case 1:
		p := symArray(allKinds[9+vsym.Choose("kind", 8)], 1)
		for i := 1; i < 300; i++ {
			p.elems = append(p.elems, propSpec{kind: p.elems[0].kind, s: "t", by: byte(i), i: int32(i), us: int64(i) * 1000, b: i%3 == 0, f: float32(i), x: float64(i)})
		}
		p.elems[0].us = 5
		bsonTrip([]fieldSpec{{"k", p}})
	case 2:
		var fs []fieldSpec
		for i := 0; i < 300; i++ {
			fs = append(fs, fieldSpec{string([]byte{byte('a' + i%20), byte('a' + i/20)}), propSpec{kind: pInt, i: int32(i)}})
		}
		fs[280].p = symProp(pFloat)
		bsonTrip(fs)
	case 3:
		fs := []fieldSpec{{"k", symProp(pByte)}}
		for i := 0; i < 12; i++ {
			fs = []fieldSpec{{"n", propSpec{kind: pBlock, sub: fs}}, {string([]byte{byte('a' + i)}), propSpec{kind: pInt, i: int32(i)}}}
		}
		bsonTrip(fs)
	}
}


// Enum and event collections of 1100 and 5000 captures in runs of equal times, with 3, 129 or 300 different entries, one of symbolic contents.
//v: reach=compared cases=12 steps=600000000
func C14_runs() {
	k := vsym.Case(12)
	n, entries := [2]int{1100, 5000}[k%2], [3]int{3, 129, 300}[k/2%3]
	c := collSpec{kind: cEnum, name: "a"}
	if k >= 6 {
		c.kind = cEvent
	}
	names := make([]string, entries)
	for i := range names {
		names[i] = "entry " + string([]byte{byte('0' + i%10), byte('0' + i/10%10), byte('0' + i/100)})
	}
	c.members = names
	for i := 0; i < n; i++ {
		at := i * 7 % entries
		e := capSpec{t: float64(i / 7), v: at}
		if c.kind == cEvent {
			e.name = names[at]
		}
		c.caps = append(c.caps, e)
	}
	if c.kind == cEnum {
		c.caps[n-1].v = vsym.Range("v", -1000000, 1000000)
		together(enumenc.NewEncoder(), []collSpec{c})
		return
	}
	c.members = nil
	c.caps[n-1].name = "odd" + vsym.Str("name", 1)
	together(eventenc.NewEncoder(), []collSpec{c})
}
