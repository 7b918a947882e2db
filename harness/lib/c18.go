package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/recolude/rap/format/collection/event"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// What a version-1 message must load as (dictionaries of events aside).
func v1Want(r v1Rec) recSpec {
	want := recSpec{id: r.name, name: r.name, meta: v1Meta(r.meta), colls: []collSpec{v1Events(r.events)}}
	for _, s := range r.subjects {
		vec := func(kind int, name string, vs []v1Vec) collSpec {
			c := collSpec{kind: kind, name: name}
			for _, v := range vs {
				c.caps = append(c.caps, capSpec{t: float64(v.t), x: float64(v.x), y: float64(v.y), z: float64(v.z)})
			}
			return c
		}
		life := collSpec{kind: cEnum, name: "Life Cycle", members: []string{"START", "ENABLE", "DISABLE", "DESTROY"}}
		for _, l := range s.life {
			life.caps = append(life.caps, capSpec{t: float64(l.t), v: l.kind})
		}
		want.kids = append(want.kids, recSpec{id: fmt.Sprint(s.id), name: s.name, meta: v1Meta(s.meta),
			colls: []collSpec{vec(cPos, "Position", s.pos), vec(cEuler, "Rotation", s.rot), v1Events(s.events), life}})
	}
	return want
}

// numericTexts are metadata texts and the 32-bit numbers they stand for (NaN: text).
var numericTexts = []string{"12", "-0.5", "1e3", "+3", ".25", "1e-46", "1e39", "12a", "", " 1", "--1", "1.2.3", "0x1p-2", "16777217", "3.14159265358979323846", "-100000000000000000000"}
var numericValues = []float64{12, -0.5, 1000, 3, 0.25, 0, math.NaN(), math.NaN(), math.NaN(), math.NaN(), math.NaN(), math.NaN(), 0.25, 16777216, float64(float32(math.Pi)), float64(float32(-1e20))}

func v1Meta(ps []v1Pair) (out []fieldSpec) {
	for _, p := range ps {
		f := propSpec{kind: pString, s: p.val}
		for i, t := range numericTexts {
			if len(t) == len(p.val) && len(t) != 1 && sameStr(t, p.val) && !math.IsNaN(numericValues[i]) {
				f = propSpec{kind: pFloat, f: float32(numericValues[i])}
			}
		}
		out = append(out, fieldSpec{p.key, f})
	}
	return
}

func v1Events(es []v1Event) collSpec {
	c := collSpec{kind: cEvent, name: "Custom Event"}
	for _, e := range es {
		k := capSpec{t: float64(e.t), name: e.name, meta: v1Meta(e.data)}
		if len(e.data) == 0 {
			k.meta = []fieldSpec{{"value", propSpec{kind: pString, s: e.contents}}}
		}
		c.caps = append(c.caps, k)
	}
	return c
}

func num32(name string) float32 {
	f := vsym.F32(name)
	vsym.Assume(f == f)
	return f
}

func v1Trip(r v1Rec) {
	got, _, err := rapio.Load(bytes.NewReader(v1File(r.message())))
	vsym.Assert(err == nil && got != nil, "a complete version-1 file loads")
	checkRec(got, v1Want(r), true)
	vsym.Reach("compared")
}

// a word is any one byte that no number starts with.
func word(name string) string {
	s := asciiStr(name, 1)
	vsym.Assume(s[0] > '@')
	return s
}

// 0 to 2 subjects with 0 to 2 positions and rotations each of any 32-bit coordinates (no NaN) and times.
//v: reach=compared cases=3
func C18_vectors() {
	r := v1Rec{name: asciiStr("name", 2)}
	ids := []int32{0, 7, -1, 1<<31 - 1, -1 << 31, 128}
	vecs := func(n int) (out []v1Vec) {
		for ; n > 0; n-- {
			out = append(out, v1Vec{num32("t"), num32("x"), num32("y"), num32("z")})
		}
		return
	}
	for n := vsym.Case(3); n > 0; n-- {
		k := vsym.Choose("captures", 4)
		r.subjects = append(r.subjects, v1Subject{id: ids[vsym.Choose("id", 6)], name: word("subject"), pos: vecs(k % 3), rot: vecs([4]int{1, 0, 2, 2}[k])})
	}
	v1Trip(r)
}

// Subjects with 0 to 3 life-cycle captures of every known type (and unknown ones) and 0 to 2 events beside 0 to 2 events of
// the recording; events with a text and without a dictionary.
//v: reach=compared
func C18_life_events() {
	r := v1Rec{name: "r"}
	s := v1Subject{id: 3, name: "s"}
	for n := vsym.Choose("life", 4); n > 0; n-- {
		s.life = append(s.life, v1Life{num32("t"), vsym.Range("kind", 0, 9)})
	}
	event := func() v1Event { return v1Event{t: num32("t"), name: word("event"), contents: word("contents")} }
	switch vsym.Choose("events", 5) {
	case 0:
		s.events = []v1Event{event()}
	case 1:
		r.events = []v1Event{event()}
	case 2:
		s.events = []v1Event{event(), event()}
		r.events = []v1Event{event(), event()}
	case 3:
		r.events = []v1Event{{t: num32("t")}}
	}
	r.subjects = []v1Subject{s, {id: 4, name: "t", events: r.events}}
	v1Trip(r)
}

// Metadata of the recording and of subjects: texts that are or are not numbers, and any one-letter texts and keys, in every
// map iteration order.
//v: reach=compared order=1
func C18_metadata() {
	i := vsym.Choose("text", len(numericTexts))
	k := word("key")
	vsym.Assume(!sameStr(k, "a"))
	two := []v1Pair{{k, numericTexts[i]}, {"a", word("text")}}
	r := v1Rec{name: "r"}
	if vsym.Choose("where", 2) == 0 {
		r.meta = two
		r.subjects = []v1Subject{{id: 1, name: "s", meta: []v1Pair{{word("other"), word("text")}}}}
	} else {
		r.meta = []v1Pair{{word("other"), word("text")}}
		r.subjects = []v1Subject{{id: 1, name: "s", meta: two}, {id: 1, name: "s"}}
	}
	v1Trip(r)
}

// Events with dictionaries of 1 or 2 entries (keys of one letter or five): every entry keeps its text, or its number if it
// is one, in every map iteration order.
//v: reach=compared order=1
func C18_dictionaries() {
	i := vsym.Choose("text", len(numericTexts))
	k := word("key")
	if vsym.Choose("length", 2) == 1 {
		k = asciiStr("key", 5)
	}
	vsym.Assume(!sameStr(k, "a"))
	e := v1Event{t: num32("t"), name: "e", contents: "unused", data: []v1Pair{{k, numericTexts[i]}, {"a", word("text")}}}
	if vsym.Choose("entries", 2) == 0 {
		e.data = e.data[:1]
	}
	got, _, err := rapio.Load(bytes.NewReader(v1File(v1Rec{name: "r", events: []v1Event{{t: 1, name: "f", contents: "c"}, e}}.message())))
	vsym.Assert(err == nil && got != nil, "a complete version-1 file loads")
	vsym.Assert(len(got.CaptureCollections()) == 1 && got.CaptureCollections()[0].Length() == 2, "number of events kept")
	g, ok := got.CaptureCollections()[0].Captures()[1].(event.Capture)
	vsym.Assert(ok && vsym.And(sameStr(g.Name(), "e"), vsym.SameF64(g.Time(), float64(e.t))), "event kept")
	vsym.Assert(len(g.Metadata().Mapping()) == len(e.data), "number of entries kept")
	for i, f := range v1Meta(e.data) {
		p, found := g.Metadata().Mapping()[f.key]
		vsym.Assert(found, "entry kept")
		vsym.Assert(sameProp(p, f.p) || sameProp(p, propSpec{kind: pString, s: e.data[i].val}), "entry keeps its text or number")
	}
	vsym.Reach("compared")
}

// A file announcing any number of recordings but one.
//v: reach=refused
func C18_count() {
	b := v1File(v1Rec{name: "r", subjects: []v1Subject{{id: 1, name: "s"}}}.message())
	n := vsym.U32("recordings")
	vsym.Assume(n != 1)
	copy(b[1:], refU32(n))
	got, _, err := rapio.Load(bytes.NewReader(b))
	vsym.Assert(err != nil && got == nil, "a file of other than one recording is refused")
	vsym.Reach("refused")
}
