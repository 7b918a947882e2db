package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	enumenc "github.com/recolude/rap/format/encoding/enum"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	eventenc "github.com/recolude/rap/format/encoding/event"
	floatenc "github.com/recolude/rap/format/encoding/float"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// Cuts runs f for every length from 0 to n-1: one path each during analysis, all of them in a replay (where the
// positions in compressed data are not those of the analysis).
func cuts(n int, f func(int)) {
	if vsym.Native() {
		for i := 0; i < n; i++ {
			f(i)
		}
		return
	}
	f(vsym.Choose("cut", n))
}

// cutTree: k selects the collection kinds; every part of a recording occurs.
func cutTree(k int) recSpec {
	want := recSpec{id: vsym.Str("id", 1), name: vsym.Str("name", 1)}
	want.meta = []fieldSpec{{"m", symProp(allKinds[k%9])}}
	c := symColl(k%5, 2)
	if k%5 == cEvent {
		c.caps[0].meta = []fieldSpec{{"e", symProp(pByte)}}
	}
	want.colls = []collSpec{c}
	if k < 5 {
		want.refs = []refSpec{{name: vsym.Str("rn", 1), uri: "u", size: uint64(vsym.Range("size", 0, 1<<13)), meta: []fieldSpec{{"m", symProp(pBool)}}}}
		want.bins = []binSpec{{name: "b", data: vsym.Bytes("d", 3), meta: []fieldSpec{{"k", symProp(pByte)}}}}
	} else {
		want.meta = append(want.meta, fieldSpec{"a", symArray(allKinds[9+k%8], 2)}, fieldSpec{"n", propSpec{kind: pBlock, sub: []fieldSpec{{"in", symProp(pString)}}}})
	}
	want.kids = []recSpec{{id: "k", name: vsym.Str("name", 1), colls: []collSpec{symColl((k+2)%5, 1)}, kids: []recSpec{{id: "g"}}}, {id: "l"}}
	return want
}

// checkCut: what is left of a cut file must be an error, or (compressed data may end in padding) the recording itself.
func checkCut(rec format.Recording, err error, want recSpec, mustFail bool) {
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(!mustFail, "a cut uncompressed file is an error")
	vsym.Assert(equalRec(rec, want), "a cut file is never read as another recording")
}

// Uncompressed full-precision files of 10 shapes, cut at every position.
//v: reach=refused cases=10
func C04_plain() {
	want := cutTree(vsym.Case(10))
	b := writeFull(mkRec(want), false)
	cuts(len(b), func(n int) {
		rec, err := readFull(b[:n])
		checkCut(rec, err, want, true)
	})
}

// Compressed full-precision files of 10 shapes, cut at every position of the compression stand-in's stream.
//v: reach=refused cases=10
func C04_compressed() {
	want := cutTree(vsym.Case(10))
	b := writeFull(mkRec(want), true)
	cuts(len(b), func(n int) {
		rec, err := readFull(b[:n])
		checkCut(rec, err, want, false)
	})
}

func compactEncoders(k int) []encoding.Encoder {
	return []encoding.Encoder{
		posenc.NewEncoder([3]posenc.StorageTechnique{posenc.Oct48, posenc.Oct24, posenc.Raw32}[k%3]),
		eulerenc.NewEncoder([3]eulerenc.StorageTechnique{eulerenc.Raw16, eulerenc.Raw32, eulerenc.Raw16}[k%3]),
		enumenc.NewEncoder(), eventenc.NewEncoder(),
		floatenc.NewEncoder([3]floatenc.StorageTechnique{floatenc.BST16, floatenc.Raw32, floatenc.BST16}[k%3]),
	}
}

// Files of all compact techniques (positions, rotations, floats, times) with 0 to 3 captures per collection, cut at every position.
//v: reach=refused cases=9
func C04_compact() {
	k := vsym.Case(9)
	want := recSpec{id: "i", name: "n"}
	for i, kind := range []int{cPos, cEuler, cFloat} {
		c := collSpec{kind: kind, name: vsym.Str("coll", 1)}
		for j := 0; j < (k+i)%4; j++ {
			c.caps = append(c.caps, capSpec{t: float64(j), x: float64(j * 3), y: float64(i - j), z: 7})
		}
		want.colls = append(want.colls, c)
	}
	want.bins = []binSpec{{name: "b", data: []byte{1}}}
	var out bytes.Buffer
	tech := [3]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32, rapio.Raw64}[k/3]
	_, err := rapio.NewWriter(compactEncoders(k), false, &out, tech).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	b := out.Bytes()
	cuts(len(b), func(n int) {
		_, _, err := rapio.NewReader(compactEncoders(k), bytes.NewReader(b[:n])).Read()
		vsym.Assert(err != nil, "a cut uncompressed file is an error")
		vsym.Reach("refused")
	})
}

// Files holding counts and lengths of more than one byte (130 captures, 200-byte texts and binaries), cut at every position.
//v: reach=refused cases=6
func C04_long() {
	k := vsym.Case(6)
	want := recSpec{id: "i", name: "n"}
	switch k {
	case 0:
		want.id = longStr(200)
	case 1:
		want.bins = []binSpec{{name: "b", data: []byte(longStr(200))}}
		want.kids = []recSpec{{id: "k"}}
	case 2:
		want.meta = []fieldSpec{{longStr(130), symProp(pByte)}}
	case 3:
		want.colls = []collSpec{{kind: cEnum, name: "e", members: []string{longStr(140), "b"}, caps: []capSpec{{t: 1, v: 300}}}, {kind: cEnum, name: "f", members: []string{"b"}}}
	case 4:
		for i := 0; i < 130; i++ {
			want.kids = append(want.kids, recSpec{})
		}
	case 5:
		c := collSpec{kind: cEnum, name: "e", members: []string{"a"}}
		for i := 0; i < 130; i++ {
			c.caps = append(c.caps, capSpec{t: float64(i), v: i})
		}
		want.colls = []collSpec{c}
		if !vsym.Thorough() {
			c.caps = c.caps[:20]
			want.colls[0].caps = c.caps
		}
	}
	b := writeFull(mkRec(want), false)
	cuts(len(b), func(n int) {
		rec, err := readFull(b[:n])
		checkCut(rec, err, want, true)
	})
}

// v1Small: version-1 recordings of 4 shapes.
func v1Small(k int) v1Rec {
	e := []v1Event{{t: 1.5, name: "e", contents: word("contents")}}
	v := []v1Vec{{vsym.F32("t"), vsym.F32("x"), 2, 3}}
	switch k {
	case 0:
		return v1Rec{name: word("name"), meta: []v1Pair{{"k", word("text")}}}
	case 1:
		return v1Rec{name: "r", subjects: []v1Subject{{id: 5, name: word("name"), pos: v, rot: v}}}
	case 2:
		return v1Rec{name: "r", events: e, subjects: []v1Subject{{id: 1, life: []v1Life{{2, 1}}}, {id: 2, events: e}}}
	}
	return v1Rec{name: "r", events: []v1Event{{t: 1, name: "n", data: []v1Pair{{"a", word("text")}}}}, subjects: []v1Subject{{id: 1, meta: []v1Pair{{"b", "1.5"}}}}}
}

// Version-1 files of 4 shapes, cut at every position.
//v: reach=refused cases=4
func C04_v1() {
	b := v1File(v1Small(vsym.Case(4)).message())
	cuts(len(b), func(n int) {
		_, _, err := rapio.Load(bytes.NewReader(b[:n]))
		vsym.Assert(err != nil, "a cut version-1 file is an error")
		vsym.Reach("refused")
	})
}
