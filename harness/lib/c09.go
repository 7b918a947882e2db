package main

import (
	"bytes"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// layoutTree: a tree using all parts; k selects the kinds of the collections.
func layoutTree(k, captures int) recSpec {
	want := recSpec{id: vsym.Str("id", 1), name: vsym.Str("name", 2)}
	want.meta = []fieldSpec{{"shared", symProp(allKinds[k%9])}, {"own", symProp(pInt)}}
	want.colls = []collSpec{symColl(k%5, captures), symColl((k+1)%5, 1)}
	grand := recSpec{id: "g", name: "", colls: []collSpec{symColl((k+3)%5, 1)}, bins: []binSpec{{name: "b", data: vsym.Bytes("d", 2), meta: []fieldSpec{{"shared", symProp(pByte)}}}}}
	kid := recSpec{id: "k", name: vsym.Str("name", 1), colls: []collSpec{symColl((k+2)%5, 1)}, kids: []recSpec{grand, {id: "h"}}}
	kid.meta = []fieldSpec{{"arr", symArray(allKinds[9+k%8], 2)}, {"nested", propSpec{kind: pBlock, sub: []fieldSpec{{"in", symProp(pString)}}}}}
	want.kids = []recSpec{kid, {id: "l", name: "n"}}
	want.refs = []refSpec{{name: vsym.Str("rn", 1), uri: vsym.Str("uri", 1), size: uint64(vsym.Range("size", 0, 1<<20)), meta: []fieldSpec{{"refkey", symProp(pBool)}}}}
	want.bins = []binSpec{{name: vsym.Str("bn", 1), data: vsym.Bytes("d", 3)}}
	return want
}

// What the writer produces, read by an independent reader of the layout: the same recording, nothing left over.
//v: reach=parsed cases=10
func C09_writer() {
	k := vsym.Case(10)
	want := layoutTree(k, 2)
	var out bytes.Buffer
	_, err := rapio.NewWriter(rotated(fullEncoders(), k%5), false, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	got, ok := refRead(out.Bytes())
	vsym.Assert(ok, "the file follows the layout")
	vsym.Assert(sameSpecRec(got, want), "the file means the recording")
	vsym.Reach("parsed")
}

// A file produced by an independent writer of the layout, with the encoders and tables in other orders and with unused
// entries, is read by the repository as the same recording.
//v: reach=compared cases=10
func C09_reader() {
	k := vsym.Case(10)
	want := layoutTree(k, 2)
	o := layoutOpts{order: []int{4, 2, 0, 3, 1}, reverse: k%2 == 0, extra: k%3 == 0}
	if k >= 5 {
		o.order = usedKinds(want)
	}
	rec, _, err := rapio.NewReader(rotated(fullEncoders(), k%4), bytes.NewReader(refFile(want, o))).Read()
	vsym.Assert(err == nil, "a well-formed file is read")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}

// The metadata type codes and data layouts, both directions.
//v: reach=parsed,compared
func C09_metadata() {
	kind := allKinds[vsym.Choose("kind", 17)]
	p := symProp(kind)
	if kind >= 13 {
		p = symArray(kind, 2)
	}
	want := recSpec{id: "i", name: "n", meta: []fieldSpec{{vsym.Str("key", 1), p}}}
	got, ok := refRead(writeFull(mkRec(want), false))
	vsym.Assert(ok, "the file follows the layout")
	vsym.Assert(sameSpecRec(got, want), "the file means the recording")
	vsym.Reach("parsed")
	rec, err := readFull(refFile(want, layoutOpts{}))
	vsym.Assert(err == nil, "a well-formed file is read")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}

// 32-bit times, read and written.
//v: reach=parsed,compared
func C09_time32() {
	t := vsym.F32("t")
	want := recSpec{id: "i", name: "n", colls: []collSpec{{kind: cFloat, name: "c", caps: []capSpec{{t: float64(t), x: vsym.F64("x")}, {t: 2, x: 1}}}}}
	vsym.Assume(t == t) // a NaN may be quietened by the conversions
	var out bytes.Buffer
	_, err := rapio.NewWriter(fullEncoders(), false, &out, rapio.Raw32).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	got, ok := refRead(out.Bytes())
	vsym.Assert(ok, "the file follows the layout")
	vsym.Assert(sameSpecRec(got, want), "the file means the recording")
	vsym.Reach("parsed")
	rec, err := readFull(refFile(want, layoutOpts{order: []int{cFloat}, time: 1}))
	vsym.Assert(err == nil, "a well-formed file is read")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}

// Collections stored with the compact techniques (positions Oct48, Oct24, Raw32; rotations Raw16, Raw32; floats BST16, Raw32; times
// BST16, Raw32), 0 to 3 captures each with any values on a grid within 1000: an independent reader of the layout gets
// what the repository's reader gets, and that is within the technique's error of what was written.
//v: mode=real reach=parsed cases=12
func C09_compact() {
	k := vsym.Case(12)
	n := k / 3
	want := recSpec{id: "i", name: "n"}
	for i, kind := range []int{cPos, cEuler, cFloat} {
		c := lossyColl(kind, [3]string{"p", "r", "f"}[i], n, lossy)
		for j := range c.caps {
			c.caps[j].t = vsym.Grid("t", float64(2*j), float64(2*j+1), 10)
		}
		want.colls = append(want.colls, c)
	}
	tech := [2]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32}[k%2]
	var out bytes.Buffer
	_, err := rapio.NewWriter(compactEncoders(k%3), false, &out, tech).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	got, ok := refRead(out.Bytes())
	vsym.Assert(ok && len(got.colls) == 3, "the file follows the layout")
	rec, _, err := rapio.NewReader(compactEncoders((k+1)%3), bytes.NewReader(out.Bytes())).Read()
	vsym.Assert(err == nil, "the file is read")
	for i, c := range rec.CaptureCollections() {
		vsym.Assert(len(got.colls[i].caps) == n && c.Length() == n, "number of captures")
		for j, h := range capsOf(c) {
			g := got.colls[i].caps[j]
			vsym.Assert(abs(h.t-g.t) <= 1e-9, "the file means the times")
			for a := 0; a < 3; a++ {
				vsym.Assert(abs(*h.axis(a)-*g.axis(a)) <= 1e-9, "the file means the values")
			}
		}
	}
	vsym.Reach("parsed")
}
