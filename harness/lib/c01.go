package main

import (
	"bytes"

	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

func roundTrip(want recSpec, encs, decs []encoding.Encoder, compress bool) {
	var out bytes.Buffer
	_, err := rapio.NewWriter(encs, compress, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	rec, _, err := rapio.NewReader(decs, bytes.NewReader(out.Bytes())).Read()
	vsym.Assert(err == nil, "reading back succeeds")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}

func rotated(encs []encoding.Encoder, k int) []encoding.Encoder {
	return append(append([]encoding.Encoder{}, encs[k:]...), encs[:k]...)
}

// One collection of each kind with 0 to 3 captures of arbitrary bits, alone in a recording.
//v: reach=compared
func C01_single() {
	kind := vsym.Choose("kind", 5)
	n := vsym.Choose("captures", 4)
	want := recSpec{id: vsym.Str("id", 2), name: vsym.Str("name", 2), colls: []collSpec{symColl(kind, n)}}
	roundTrip(want, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// Two collections of any kinds in the root, one in a child, one in its child, one in a second child;
// all five orders of rotation of the encoder list on the writer, another on the reader.
//v: reach=compared cases=10
func C01_tree() {
	k := vsym.Case(10)
	rot, compress := k%5, k >= 5
	want := recSpec{id: "r", name: vsym.Str("name", 1), colls: []collSpec{symColl(vsym.Choose("k0", 5), 1), symColl(vsym.Choose("k1", 5), 1)}}
	grand := recSpec{id: "g", name: vsym.Str("name", 1), colls: []collSpec{symColl((k+2)%5, 2)}}
	a := recSpec{id: "a", name: vsym.Str("name", 1), colls: []collSpec{symColl(vsym.Choose("k2", 5), 1)}, kids: []recSpec{grand}}
	b := recSpec{id: "b", name: vsym.Str("name", 1), colls: []collSpec{symColl((k+3)%5, 1), symColl((k+2)%5, 1)}}
	want.kids = []recSpec{a, b}
	roundTrip(want, rotated(fullEncoders(), rot), rotated(fullEncoders(), (rot+2)%5), compress)
}

var edgeLens = [8]int{0, 127, 128, 129, 255, 256, 16383, 16384}

// Ids, names and collection names of 0 to 16384 bytes, around every varint length boundary.
//v: reach=compared
func C01_longnames() {
	n := edgeLens[vsym.Choose("length", 8)]
	c := symColl(cFloat, 1)
	want := recSpec{id: "i", name: "n", colls: []collSpec{c}, kids: []recSpec{{id: "k", name: vsym.Str("after", 1)}}}
	switch vsym.Choose("where", 3) {
	case 0:
		want.id = longStr(n)
	case 1:
		want.name = longStr(n)
	case 2:
		want.colls[0].name = longStr(n)
	}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// 127, 128 or 300 captures in one collection of each kind, two of them arbitrary, followed by another collection.
//v: reach=compared
func C01_many_captures() {
	kind := vsym.Choose("kind", 5)
	n := [3]int{127, 128, 300}[vsym.Choose("captures", 3)]
	c := collSpec{kind: kind, name: "many", members: nil}
	if kind == cEnum {
		c.members = []string{"m"}
	}
	for i := 0; i < n; i++ {
		k := capSpec{t: float64(i), x: float64(i) / 7, y: -float64(i), z: float64(i * i), v: i * 3}
		if kind == cEvent {
			k.name = string([]byte{'e', byte('0' + i%40)})
		}
		if i == n-1 || i == 126 {
			k = symCap(kind)
		}
		c.caps = append(c.caps, k)
	}
	roundTrip(recSpec{id: "i", colls: []collSpec{c, symColl(cFloat, 1)}}, fullEncoders(), fullEncoders(), false)
}

// 260 collections, or 260 sub-recordings, or a chain of 6 nested recordings, with collections of alternating kinds.
//v: reach=compared
func C01_many_parts() {
	want := recSpec{id: "root"}
	switch vsym.Choose("what", 3) {
	case 0:
		for i := 0; i < 260; i++ {
			c := collSpec{kind: i * 3 % 5, name: string([]byte{byte('a' + i%26)})}
			if i == 0 || i == 128 || i == 129 {
				c = symColl(i%5, 1)
			}
			want.colls = append(want.colls, c)
		}
	case 1:
		for i := 0; i < 260; i++ {
			k := recSpec{id: string([]byte{byte('a' + i%26)})}
			if i%40 == 8 || i == 128 {
				k.colls = []collSpec{symColl((i+1)%5, 1)}
			}
			want.kids = append(want.kids, k)
		}
	case 2:
		cur := recSpec{id: "leaf", colls: []collSpec{symColl(cEuler, 1)}}
		for i := 0; i < 5; i++ {
			cur = recSpec{id: vsym.Str("id", 1), colls: []collSpec{symColl(i, 1)}, kids: []recSpec{cur, {id: "sib", colls: []collSpec{symColl(4-i, 0)}}}}
		}
		want = cur
	}
	roundTrip(want, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// Enum values of any 64-bit pattern.
//v: reach=compared
func C01_enum_values() {
	c := collSpec{kind: cEnum, name: "e", members: []string{"a", "b"}, caps: []capSpec{{t: vsym.F64("t"), v: vsym.Int("v")}, {t: vsym.F64("t"), v: vsym.Range("w", -200, 200)}}}
	roundTrip(recSpec{id: "i", colls: []collSpec{c}}, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// Three collections of one kind side by side with any one-byte names, which may coincide, and 0 to 2 captures each, the third
// perhaps in a sub-recording of any one-byte id and name beside another such.
//v: reach=compared cases=5
func C01_alike() {
	kind := vsym.Case(5)
	var cs []collSpec
	for i := 0; i < 3; i++ {
		c := collSpec{kind: kind, name: vsym.Str("coll", 1)}
		if kind == cEnum {
			c.members = []string{"AA"}
		}
		for j := vsym.Choose("captures", 3); j > 0; j-- {
			e := capSpec{t: 1, x: 2, name: "e"}
			if j == 1 {
				e.t, e.x = vsym.F64("t"), vsym.F64("x")
			}
			c.caps = append(c.caps, e)
		}
		cs = append(cs, c)
	}
	want := recSpec{id: "r", colls: cs}
	if vsym.Choose("apart", 2) == 1 {
		want.colls = cs[:2]
		want.kids = []recSpec{{id: vsym.Str("id", 1), name: vsym.Str("name", 1), colls: cs[2:]}, {id: vsym.Str("id", 1), name: vsym.Str("name", 1)}}
	}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}
