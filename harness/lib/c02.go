package main

import (
	"bytes"

	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

// propTrip writes one property followed by a guard and reads it back.
func propTrip(want propSpec) {
	var buf bytes.Buffer
	n, err := metadata.WriteProprty(&buf, mkProp(want))
	vsym.Assert(err == nil, "writing a property succeeds")
	vsym.Assert(n == buf.Len(), "writing a property reports its size")
	r := &countReader{b: append(append([]byte{}, buf.Bytes()...), 0xAA, vsym.U8("guard"))}
	got, err := metadata.ReadProperty(r)
	vsym.Assert(err == nil, "reading a property back succeeds")
	vsym.Assert(r.pos == n, "reading a property consumes exactly what was written")
	vsym.Assert(sameProp(got, want), "property type and content kept")
	vsym.Reach("property")
}

// Every scalar property type, any content (texts of 0, 1, 2 and 130 bytes).
//v: reach=property
func C02_scalar() {
	k := vsym.Choose("kind", 9)
	want := symProp(allKinds[k])
	if allKinds[k] == pString {
		n := [4]int{0, 1, 2, 130}[vsym.Choose("length", 4)]
		if n == 130 {
			want.s = longStr(n)
		} else {
			want.s = vsym.Str("text", n)
		}
	}
	propTrip(want)
}

// Arrays of every element type with 0, 1, 2 and 129 elements.
//v: reach=property
func C02_array() {
	kind := allKinds[9+vsym.Choose("kind", 8)]
	n := [4]int{0, 1, 2, 129}[vsym.Choose("count", 4)]
	if n < 129 {
		propTrip(symArray(kind, n))
		return
	}
	want := symArray(kind, 1)
	for i := 1; i < n; i++ {
		e := propSpec{kind: kind - 13, s: "text", i: int32(i), f: float32(i), by: byte(i), b: i%3 == 0, x: float64(i), us: int64(i)}
		if kind == pBools {
			e.kind = pBool
		}
		want.elems = append(want.elems, e)
	}
	last := symArray(kind, 1)
	want.elems = append(want.elems, last.elems[0])
	propTrip(want)
}

// Blocks inside blocks (up to two levels) and arrays of blocks, in every map iteration order; keys any single bytes, one of
// them may be empty.
//v: reach=property order=1
func C02_nested() {
	k1, k2 := vsym.Str("key", 1), vsym.Str("key", vsym.Choose("length", 2))
	vsym.Assume(!sameStr(k1, k2))
	first := symProp(allKinds[vsym.Choose("kind", 9)])
	second := propSpec{kind: pInt, i: vsym.I32("second")}
	inner := []fieldSpec{{k1, first}, {k2, second}}
	var want propSpec
	switch vsym.Choose("shape", 5) {
	case 0:
		want = propSpec{kind: pBlock, sub: inner}
	case 1:
		want = propSpec{kind: pBlock, sub: []fieldSpec{{"in", propSpec{kind: pBlock, sub: inner}}, {vsym.Str("outer", 1), propSpec{kind: pString, s: vsym.Str("s", 1)}}}}
	case 2:
		want = propSpec{kind: pBlocks, elems: []propSpec{{kind: pBlock, sub: inner}, {kind: pBlock, sub: []fieldSpec{{k2, second}}}}}
	case 3:
		want = propSpec{kind: pBlocks}
	case 4:
		want = propSpec{kind: pBlock, sub: []fieldSpec{{k1, symArray(pStrings, 2)}, {k2, symArray(pInts, 2)}, {"empty", propSpec{kind: pBlock}}}}
	}
	propTrip(want)
}

// Blocks on the root, a child, a binary, a reference and an event, sharing keys (which may be empty) or not, in every map
// iteration order.
//v: reach=compared order=1
func C02_recording() {
	ka, kb := vsym.Str("key", vsym.Choose("length", 2)), vsym.Str("key", 1)
	i := vsym.Choose("kind", 9)
	f := func(k string, kind int) fieldSpec { return fieldSpec{k, symProp(kind)} }
	two := []fieldSpec{f("a", allKinds[i]), f("b", allKinds[(i+4)%9])}
	want := recSpec{id: "r"}
	kid := recSpec{id: "k"}
	switch vsym.Choose("where", 5) {
	case 0:
		want.meta = two
		kid.meta = []fieldSpec{f(ka, pInt)}
	case 1:
		want.meta = []fieldSpec{f(ka, pString)}
		kid.meta = two
	case 2:
		want.bins = []binSpec{{name: "b", data: []byte{1, 2}, meta: two}}
		kid.meta = []fieldSpec{f(ka, pByte)}
	case 3:
		want.refs = []refSpec{{name: "b", uri: "u", size: 3, meta: two}, {name: "c", meta: []fieldSpec{f(ka, pBool)}}}
	case 4:
		want.meta = []fieldSpec{f(kb, pInt)}
		want.colls = []collSpec{{kind: cEvent, name: "e", caps: []capSpec{{t: 1, name: "x", meta: two}, {t: 2, name: "y", meta: []fieldSpec{f(ka, pString)}}}}}
	}
	want.kids = []recSpec{kid}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// Three keys on the root and one, shared or not, on a child, in every map iteration order.
//v: reach=compared order=1
func C02_orders() {
	k := vsym.Str("key", 1)
	want := recSpec{id: "r", meta: []fieldSpec{{"p", symProp(pInt)}, {"q", symProp(pString)}, {"r", symProp(pBool)}}}
	kid := recSpec{id: "k", meta: []fieldSpec{{k, symProp(pByte)}}}
	want.kids = []recSpec{kid}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// More than 127 keys spread over the tree, so that key indices need two bytes.
//v: reach=compared
func C02_many_keys() {
	want := recSpec{id: "r"}
	kid := recSpec{id: "k"}
	for i := 0; i < 140; i++ {
		f := fieldSpec{string([]byte{byte('a' + i%16), byte('a' + i/16)}), propSpec{kind: pInt, i: int32(i)}}
		if i%50 == 27 {
			f.p = symProp(pInt)
		}
		if i%2 == 0 {
			want.meta = append(want.meta, f)
		} else {
			kid.meta = append(kid.meta, f)
		}
	}
	want.bins = []binSpec{{name: "b", data: []byte{vsym.U8("d")}, meta: []fieldSpec{{"ab", symProp(pByte)}, {"zz", symProp(pVec2)}}}}
	want.kids = []recSpec{kid}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// Every holder of metadata in a tree (3 recordings, 6 binaries, 3 references, 6 events) with a key of its own and one in common; one of the 18 parts is otherwise empty, and one entry's value is symbolic.
//v: reach=compared cases=18
func C02_holders() {
	odd := vsym.Case(18)
	at := 0
	if vsym.Thorough() {
		at = vsym.Choose("symbolic", 18)
	} else {
		at = (odd + 1 + vsym.Choose("symbolic", 3)) % 18
	}
	n := 0
	key := func() []fieldSpec {
		p := propSpec{kind: pInt, i: int32(n)}
		if n == at {
			p = symProp(pInt)
		}
		n++
		return []fieldSpec{{string([]byte{'k', byte('a' + n)}), p}, {"common", propSpec{kind: pBool, b: n%2 == 0}}}
	}
	text := func() string {
		if n == odd {
			return ""
		}
		return "text"
	}
	var rec func(depth int) recSpec
	rec = func(depth int) recSpec {
		r := recSpec{id: text(), name: text()}
		r.meta = key()
		for i := 0; i < 2; i++ {
			b := binSpec{name: text(), data: []byte(text())}
			b.meta = key()
			r.bins = append(r.bins, b)
		}
		for i := depth; i < 2; i++ {
			f := refSpec{name: text(), uri: text(), size: uint64(len(text()))}
			f.meta = key()
			r.refs = append(r.refs, f)
		}
		r.colls = []collSpec{{kind: cPos, name: text()}, {kind: cEvent, name: text()}, {kind: cEvent, name: "second"}}
		for i := 0; i < 2; i++ {
			k := capSpec{t: float64(i), name: text()}
			k.meta = key()
			r.colls[1+depth%2].caps = append(r.colls[1+depth%2].caps, k)
		}
		if depth < 2 {
			r.kids = []recSpec{rec(depth + 1)}
		}
		return r
	}
	want := rec(0)
	vsym.Assert(n == 18, "as many parts as documented")
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}
