package main

import (
	"github.com/recolude/rap/format/encoding"
	enumenc "github.com/recolude/rap/format/encoding/enum"
	eventenc "github.com/recolude/rap/format/encoding/event"
	"github.com/recolude/rap/internal/vsym"
)

// shortStr is any text of up to n bytes.
func shortStr(name string, n int) string { return vsym.Str(name, vsym.Choose(name+" length", n+1)) }

// together encodes collections with one encoder, decodes each, and compares them exactly.
func together(e encoding.Encoder, cs []collSpec) {
	for i, back := range encodeAll(e, cs) {
		vsym.Assert(sameColl(back, cs[i]), "every collection keeps its own entries")
	}
	vsym.Reach("compared")
}

func enumColl(name string, members []string, n int) collSpec {
	c := collSpec{kind: cEnum, name: name, members: members}
	for ; n > 0; n-- {
		c.caps = append(c.caps, capSpec{t: 1, v: vsym.Range("v", -1, 2)})
	}
	return c
}

// Three enum collections of 2, 1 and 2 members of any one byte each (so any of them may coincide, within a collection and
// across), one capture of value -1 to 2 each, in every map iteration order.
//v: reach=compared order=1
func C14_enum_sharing() {
	m := func() string { return vsym.Str("m", 1) }
	together(enumenc.NewEncoder(), []collSpec{
		enumColl("a", []string{m(), m()}, 1),
		enumColl("b", []string{m()}, 1),
		enumColl("c", []string{m(), m()}, 0),
	})
}

// Two enum collections with 0 to 3 members each (thorough: 4) of 0 to 2 bytes.
//v: reach=compared cases=4 tcases=5
func C14_enum_members() {
	var a, b []string
	for n := vsym.Case(5); n > 0; n-- {
		a = append(a, shortStr("m", 2))
	}
	for n := vsym.Choose("members", 3); n > 0; n-- {
		b = append(b, shortStr("m", 1))
	}
	together(enumenc.NewEncoder(), []collSpec{enumColl("a", a, 1), enumColl("b", b, 1)})
}

// One enum collection with one capture of any value (64 bits), after one with another capture.
//v: reach=compared
func C14_enum_values() {
	a := enumColl("a", []string{"x", "y"}, 1)
	b := enumColl("b", []string{"y", "z", "y"}, 0)
	b.caps = []capSpec{{t: 2, v: vsym.Int("value")}}
	together(enumenc.NewEncoder(), []collSpec{a, b})
}

// 150 distinct members over two collections, so that indices need two bytes, and one of any two bytes; 300 fixed ones.
//v: reach=compared cases=2
func C14_enum_many() {
	n, m := 150, "pj"
	if vsym.Case(2) == 1 {
		n = 300
	} else {
		m = vsym.Str("m", 2)
	}
	var a, b []string
	for i := 0; i < n; i++ {
		s := string([]byte{byte('a' + i%16), byte('a' + i/16)})
		if i%2 == 0 {
			a = append(a, s)
		} else {
			b = append(b, s)
		}
	}
	b = append(b, m, "aa")
	together(enumenc.NewEncoder(), []collSpec{enumColl("a", a, 1), enumColl("b", b, 1)})
}

func eventCap(name string, fs ...fieldSpec) capSpec { return capSpec{t: 3, name: name, meta: fs} }

func intField(key string) fieldSpec { return fieldSpec{key, propSpec{kind: pInt, i: vsym.I32("i")}} }

// Three events in two collections with any one-byte names (any of them may coincide) and metadata under any one-byte
// keys, in every map iteration order.
//v: reach=compared order=1
func C14_event_sharing() {
	n := func() string { return vsym.Str("n", 1) }
	k, l := n(), n()
	vsym.Assume(!sameStr(k, l))
	together(eventenc.NewEncoder(), []collSpec{
		{kind: cEvent, name: "a", caps: []capSpec{eventCap(n(), intField(k)), eventCap(n(), intField(k), intField(l))}},
		{kind: cEvent, name: "b"},
		{kind: cEvent, name: "c", caps: []capSpec{eventCap(n(), intField(n()))}},
	})
}

// Two events with names and keys of 0 to 2 bytes and properties of every kind.
//v: reach=compared cases=9
func C14_event_texts() {
	kind := allKinds[vsym.Case(9)]
	k := shortStr("k", 2)
	together(eventenc.NewEncoder(), []collSpec{
		{kind: cEvent, name: "a", caps: []capSpec{eventCap(shortStr("n", 2), fieldSpec{k, symProp(kind)})}},
		{kind: cEvent, name: "c", caps: []capSpec{eventCap(shortStr("n", 2), fieldSpec{shortStr("k", 1), symProp(pByte)})}},
	})
}

// Three keys in one event, two of them in the next, in every map iteration order.
//v: reach=compared order=1
func C14_event_orders() {
	l := vsym.Str("k", 1)
	together(eventenc.NewEncoder(), []collSpec{
		{kind: cEvent, name: "a", caps: []capSpec{eventCap("n", fieldSpec{"p", symProp(pInt)}, fieldSpec{"q", symProp(pBool)}, fieldSpec{"r", symProp(pByte)})}},
		{kind: cEvent, name: "b", caps: []capSpec{eventCap("n", fieldSpec{"r", symProp(pInt)}), eventCap("m", fieldSpec{l, symProp(pByte)})}},
	})
}

// 150 distinct event names and keys, so that indices need two bytes, and two of any two bytes; 300 fixed ones.
//v: reach=compared cases=2
func C14_event_many() {
	n, m, k := 150, "pj", "bkk"
	if vsym.Case(2) == 1 {
		n = 300
	} else {
		m, k = vsym.Str("n", 2), vsym.Str("k", 2)
	}
	c := collSpec{kind: cEvent, name: "a"}
	for i := 0; i < n; i++ {
		s := string([]byte{byte('a' + i%16), byte('a' + i/16)})
		c.caps = append(c.caps, eventCap(s, fieldSpec{s + "k", propSpec{kind: pInt, i: int32(i)}}))
	}
	c.caps = append(c.caps, eventCap(m, intField("aak"), intField(k)))
	together(eventenc.NewEncoder(), []collSpec{c})
}
