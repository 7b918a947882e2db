package main

import (
	"bytes"
	"math"

	"github.com/recolude/rap/format"
	enumenc "github.com/recolude/rap/format/encoding/enum"
	eventenc "github.com/recolude/rap/format/encoding/event"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/internal/vsym"
)

// Long lists and deep trees, mostly of fixed values: counts above 127, 255 and 256, and chains of 12 recordings.

// longColl has n captures, the one at `at` (if any) of a symbolic time and value.
func longColl(kind, n, at int) collSpec {
	c := collSpec{kind: kind, name: "long"}
	if kind == cEnum {
		c.members = []string{"a", "b"}
	}
	for i := 0; i < n; i++ {
		k := capSpec{t: float64(i) / 4, x: float64(i), y: float64(-i), z: 0.5, v: i % 2, name: string([]byte{byte('a' + i%7)})}
		if i == at {
			if !vsym.RealMode() {
				k = symCap(kind)
			}
			k.t = vsym.Real("t", float64(i)/4-0.125, float64(i)/4+0.125)
		}
		c.caps = append(c.caps, k)
	}
	return c
}

// chain nests n recordings, each with a sibling, and puts leaf into the innermost.
func chain(n int, leaf recSpec) recSpec {
	for i := 0; i < n; i++ {
		leaf = recSpec{id: string([]byte{byte('a' + i)}), name: "n", meta: []fieldSpec{{string([]byte{byte('a' + i)}), propSpec{kind: pInt, i: int32(i)}}},
			colls: []collSpec{longColl(i%5, 2, -1)}, kids: []recSpec{{id: "before"}, leaf, {id: "after", name: "x"}}}
	}
	return leaf
}

// Blocks of 300 keys (one symbolic) and arrays of 300 elements of every type, blocks nested 12 deep, one block in each of 12 nested recordings, and 300 keys in a recording, a sub-recording, a binary, a reference or an event, some shared with another recording.
//v: reach=compared,property cases=5
func C02_large() {
	switch vsym.Case(5) {
	case 0:
		b := propSpec{kind: pBlock}
		for i := 0; i < 300; i++ {
			b.sub = append(b.sub, fieldSpec{string([]byte{byte('a' + i%20), byte('a' + i/20)}), propSpec{kind: pInt, i: int32(i)}})
		}
		b.sub[vsym.Choose("at", 3)*140].p = symProp(pString)
		propTrip(b)
	case 1:
		kind := allKinds[9+vsym.Choose("kind", 8)]
		want := symArray(kind, 1)
		for i := 1; i < 300; i++ {
			e := propSpec{kind: kind - 13, s: "text", i: int32(i), f: float32(i), by: byte(i), b: i%3 == 0, x: float64(i), us: int64(i)}
			want.elems = append(want.elems, e)
		}
		for i := range want.elems {
			want.elems[i].kind = want.elems[0].kind
		}
		propTrip(want)
	case 2:
		p := symProp(pVec2)
		for i := 0; i < 12; i++ {
			if i%3 == 2 {
				p = propSpec{kind: pBlocks, elems: []propSpec{{kind: pBlock}, {kind: pBlock, sub: []fieldSpec{{"x", p}}}}}
			} else {
				p = propSpec{kind: pBlock, sub: []fieldSpec{{"k", p}}}
			}
		}
		propTrip(p)
	case 3:
		roundTrip(chain(12, recSpec{id: "leaf", meta: []fieldSpec{{"leaf", symProp(pString)}}}), fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
	case 4:
		var fs []fieldSpec
		for i := 0; i < 300; i++ {
			fs = append(fs, fieldSpec{string([]byte{byte('a' + i%20), byte('a' + i/20)}), propSpec{kind: pInt, i: int32(i)}})
		}
		fs[vsym.Choose("at", 3)*140].p = symProp(pString)
		want := recSpec{id: "r", kids: []recSpec{{id: "k", meta: fs[250:270]}}}
		switch vsym.Choose("where", 5) {
		case 0:
			want.meta = fs
		case 1:
			want.kids[0].meta = fs
		case 2:
			want.bins = []binSpec{{name: "b", data: []byte{1, 2}, meta: fs}}
		case 3:
			want.refs = []refSpec{{name: "r", uri: "u", size: 5, meta: fs}}
		case 4:
			want.colls = []collSpec{{kind: cEvent, name: "e", caps: []capSpec{{t: 1, name: "e", meta: fs}, {t: 2, name: "f"}}}}
		}
		roundTrip(want, fullEncoders(), fullEncoders(), false)
	}
}

// Binaries and a reference in the innermost of 12 nested recordings.
//v: reach=compared
func C03_deep() {
	leaf := recSpec{id: "leaf", bins: []binSpec{{name: "b", data: vsym.Bytes("d", 2)}, {name: "c", data: vsym.Bytes("d", 1)}}, refs: []refSpec{{name: "r", uri: vsym.Str("u", 1), size: vsym.U64("size")}}}
	roundTrip(chain(12, leaf), fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// Collections of 127 to 300 captures (one at either end symbolic), and 300 collections sharing one encoder.
//v: reach=compared cases=4
func C14_long() {
	at := vsym.Choose("at", 2)
	k := vsym.Case(4)
	n := 257
	if k < 2 {
		n = [3]int{127, 257, 300}[vsym.Choose("n", 3)]
	}
	switch k {
	case 0:
		together(enumenc.NewEncoder(), []collSpec{longColl(cEnum, n, at*(n-1)), enumColl("z", []string{"b", "c"}, 1)})
	case 1:
		together(eventenc.NewEncoder(), []collSpec{longColl(cEvent, n, at*(n-1)), longColl(cEvent, 2, -1)})
	case 2:
		var cs []collSpec
		for i := 0; i < n; i++ {
			cs = append(cs, collSpec{kind: cEnum, name: "e", members: []string{"m", string([]byte{byte('a' + i%26)})}[i%2:], caps: []capSpec{{t: 1, v: i}}})
		}
		cs[at*(n-1)].caps[0].v = vsym.Int("v")
		together(enumenc.NewEncoder(), cs)
	case 3:
		var cs []collSpec
		for i := 0; i < n; i++ {
			cs = append(cs, collSpec{kind: cEvent, name: "e", caps: []capSpec{eventCap(string([]byte{byte('a' + i%26)}), intField(string([]byte{byte('a' + i%9)})))}})
		}
		together(eventenc.NewEncoder(), cs)
	}
}

// Collections of 300 captures, 300 collections, 300 recordings, and chains of 12 recordings, sliced to any window around one of three captures.
//v: mode=real reach=sliced cases=4
func C15_large() {
	want := recSpec{id: "r"}
	at := [3]int{0, 150, 299}[vsym.Choose("at", 3)]
	switch vsym.Case(4) {
	case 0:
		want.colls = []collSpec{longColl(at%5, 300, at)}
	case 1:
		for i := 0; i < 300; i++ {
			want.colls = append(want.colls, longColl(i%5, i%3, -1))
		}
		want.colls[at] = longColl(cFloat, 3, 0)
	case 2:
		for i := 0; i < 300; i++ {
			want.kids = append(want.kids, recSpec{id: "k", colls: []collSpec{longColl(i%5, i%3, -1)}})
		}
		want.kids[at].colls[0] = longColl(cFloat, 3, 0)
	case 3:
		want = chain(12, recSpec{id: "leaf", bins: []binSpec{{name: "b", data: []byte{1}}}, colls: []collSpec{longColl(cFloat, 3, 0)}})
	}
	m := float64(at) / 4
	if len(want.colls) == 0 || len(want.colls) > 1 {
		m = 0
	}
	beg, end := vsym.Real("beginning", m-0.25, m+0.25), vsym.Real("end", m-0.25, m+0.25)
	keep := vsym.Choose("binaries", 2) == 1
	src := mkRec(want)
	checkRec(format.Slice(src, format.BeginningOfSlice(beg), format.EndOfSlice(end), format.KeepBinariesInSlice(keep)), sliced(want, beg, end, keep), true)
	checkRec(src, want, true)
	vsym.Reach("sliced")
}

// many is one of: a collection of 300 captures, 300 collections, 300 recordings, a chain of 12 recordings; c is in it.
func many(k, at int, c collSpec) recSpec {
	want := recSpec{id: "r"}
	switch k {
	case 0:
		want.colls = []collSpec{longColl(cPos, 300, -1)}
		caps := append([]capSpec{}, want.colls[0].caps[:at]...)
		for _, e := range c.caps {
			caps = append(caps, capSpec{t: e.t})
		}
		want.colls[0].caps = append(caps, want.colls[0].caps[at:]...)
	case 1:
		for i := 0; i < 300; i++ {
			want.colls = append(want.colls, longColl(i%5, 1+i%2, -1))
		}
		want.colls[at] = c
	case 2:
		for i := 0; i < 300; i++ {
			want.kids = append(want.kids, recSpec{id: "k", colls: []collSpec{longColl(i%5, 1+i%2, -1)}})
		}
		want.kids[at].colls[0] = c
	case 3:
		want = chain(12, recSpec{id: "leaf", colls: []collSpec{c}})
	}
	return want
}

// The same shapes; two captures of any times within 1e6 stand in the collection, or are the only ones of theirs.
//v: mode=real reach=valid,invalid cases=4
func C16_large() {
	at := [3]int{0, 150, 299}[vsym.Choose("at", 3)]
	a, b := vsym.Real("a", -1e6, 1e6), vsym.Real("b", -1e6, 1e6)
	k := vsym.Case(4)
	want := many(k, at, collSpec{kind: cEnum, name: "c", caps: []capSpec{{t: a}, {t: b}}})
	ok := a <= b
	if k == 0 {
		ok = vsym.And(ok, b <= float64(at)/4)
		if at > 0 {
			ok = vsym.And(ok, a >= float64(at-1)/4)
		}
	}
	if format.Validate(mkRec(want)) == nil {
		vsym.Assert(ok, "an accepted recording is chronological")
		vsym.Reach("valid")
	} else {
		vsym.Assert(!ok, "a chronological recording is accepted")
		vsym.Reach("invalid")
	}
}

// The same shapes; one collection has two captures of any chronological times within 1e6.
//v: mode=real reach=bounds cases=4
func C17_large() {
	at := [3]int{0, 150, 299}[vsym.Choose("at", 3)]
	a, b := vsym.Real("a", -1e6, 1e6), vsym.Real("b", -1e6, 1e6)
	vsym.Assume(a <= b)
	k := vsym.Case(4)
	if k == 0 {
		vsym.Assume(b <= float64(at)/4)
		if at > 0 {
			vsym.Assume(a >= float64(at-1)/4)
		}
	}
	want := many(k, at, collSpec{kind: cEnum, name: "c", caps: []capSpec{{t: a}, {t: b}}})
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, t := range timesOf(want) {
		lo, hi = minOf([]float64{lo, t}), maxOf([]float64{hi, t})
	}
	rec := mkRec(want)
	vsym.Assert(format.RecordingStart(rec) == lo, "the start is the earliest capture")
	vsym.Assert(format.RecordingEnd(rec) == hi, "the end is the latest capture")
	vsym.Assert(format.RecordingDuration(rec) == format.RecordingEnd(rec)-format.RecordingStart(rec), "duration is end minus start")
	vsym.Reach("bounds")
}

// 300 subjects, or 300 captures of each kind in one, or 300 entries of metadata; one symbolic text.
//v: reach=compared cases=3
func C18_large() {
	r := v1Rec{name: word("name")}
	letters := func(i int) string { return string([]byte{byte('k' + i%10), byte('k' + i/10%10), byte('k' + i/100)}) }
	s := v1Subject{id: 7, name: "one"}
	switch vsym.Case(3) {
	case 0:
		for i := 0; i < 300; i++ {
			k := v1Subject{id: int32(i), name: letters(i)}
			if i%100 == 99 {
				k.name = word("subject")
				k.pos = []v1Vec{{1, 2, 3, 4}}
			}
			r.subjects = append(r.subjects, k)
		}
	case 1:
		for i := 0; i < 300; i++ {
			f := float32(i)
			s.pos = append(s.pos, v1Vec{f, f + 1, f + 2, -f})
			s.rot = append(s.rot, v1Vec{f, f / 2, f + 2, -f})
			s.life = append(s.life, v1Life{f, i % 4})
			s.events = append(s.events, v1Event{t: f, name: letters(i), contents: "c"})
			r.events = append(r.events, v1Event{t: f, name: "e", contents: letters(i)})
		}
		s.events[280].contents = word("text")
		r.subjects = []v1Subject{s}
	case 2:
		for i := 0; i < 300; i++ {
			s.meta = append(s.meta, v1Pair{letters(i), "v"})
			r.meta = append(r.meta, v1Pair{letters(i), "w"})
		}
		s.meta[270].val = word("text")
		r.subjects = []v1Subject{s}
	}
	v1Trip(r)
}

// Documents with 300 captures in a collection of each kind (300 enum entries), 300 collections, 300 recordings and references, and 12 nested recordings.
//v: reach=imported cases=7
func C19_large() {
	letters := func(i int) string { return string([]byte{byte('k' + i%10), byte('k' + i/10%10), byte('k' + i/100)}) }
	coll := func(c collSpec) jv {
		var caps []jv
		for _, k := range c.caps {
			var data jv
			switch c.kind {
			case cEnum:
				data = jtext(c.members[k.v])
			case cEvent:
				data = jobj(jfield("name", jtext(k.name)))
			default:
				data = jobj(jfield("x", jnum(int(k.x))), jfield("y", jnum(int(k.y))), jfield("z", jnum(int(k.z))))
			}
			caps = append(caps, jobj(jfield("time", jnum(int(k.t))), jfield("data", data)))
		}
		return jobj(jfield("name", jtext(c.name)), jfield("type", jtext(collSigs[c.kind])), jfield("captures", jarr(caps...)))
	}
	name := ascii("name", 1)
	w := recSpec{id: "i", name: name}
	var more []jf
	k := vsym.Case(7)
	switch k {
	case 0, 1, 2, 3:
		c := collSpec{kind: [4]int{cPos, cEuler, cEnum, cEvent}[k], name: "c"}
		for i := 0; i < 300; i++ {
			e := capSpec{t: float64(i), x: float64(i), y: float64(-i), z: 3}
			switch c.kind {
			case cEnum:
				e = capSpec{t: float64(i), v: i}
				c.members = append(c.members, letters(i))
			case cEvent:
				e = capSpec{t: float64(i), name: letters(i)}
			}
			c.caps = append(c.caps, e)
		}
		w.colls = []collSpec{c}
		if c.kind == cEnum {
			c.caps = append(c.caps, capSpec{t: 300, v: 260}, capSpec{t: 301, v: 1})
			w.colls[0] = c
		}
		more = append(more, jfield("collections", jarr(coll(c))))
	case 4:
		var cs []jv
		for i := 0; i < 300; i++ {
			c := collSpec{kind: cPos, name: letters(i), caps: []capSpec{{t: float64(i)}}[:i%2]}
			w.colls = append(w.colls, c)
			cs = append(cs, coll(c))
		}
		more = append(more, jfield("collections", jarr(cs...)))
	case 5:
		var ks, rs []jv
		for i := 0; i < 300; i++ {
			w.kids = append(w.kids, recSpec{id: letters(i), name: "k"})
			ks = append(ks, jhead(letters(i), "k"))
			w.refs = append(w.refs, refSpec{name: letters(i), uri: "u", size: uint64(i)})
			rs = append(rs, jobj(jfield("name", jtext(letters(i))), jfield("uri", jtext("u")), jfield("size", jnum(i))))
		}
		more = append(more, jfield("recordings", jarr(ks...)), jfield("references", jarr(rs...)))
	case 6:
		leaf, l := jhead("leaf", name), recSpec{id: "leaf", name: name}
		for i := 0; i < 12; i++ {
			id := letters(i)
			leaf, l = jhead(id, "x", jfield("recordings", jarr(jhead("s", "t"), leaf))), recSpec{id: id, name: "x", kids: []recSpec{{id: "s", name: "t"}, l}}
		}
		w.kids = []recSpec{l}
		more = append(more, jfield("recordings", jarr(leaf)))
	}
	checkLarge(jhead("i", name, more...), w)
}

// checkLarge is checkImport, with the order of enum members left open.
func checkLarge(doc jv, want recSpec) {
	got, err := parsing.FromJSON([]byte(doc.dump()))
	vsym.Assert(err == nil && got != nil, "imported")
	if err != nil {
		return
	}
	for i := range want.colls {
		if want.colls[i].kind != cEnum {
			continue
		}
		g := specOf(got).colls[i]
		vsym.Assert(len(g.caps) == len(want.colls[i].caps), "every capture imported")
		for j, k := range want.colls[i].caps {
			v := g.caps[j].v
			vsym.Assert(v >= 0 && v < len(g.members) && g.members[v] == want.colls[i].members[k.v], "the member is the text of the capture")
			vsym.Assert(g.caps[j].t == k.t, "times kept")
		}
		want.colls = append(want.colls[:i:i], g)
	}
	checkRec(got, want, true)
	vsym.Reach("imported")
}

// Arrays of 300 elements of each kind, byte arrays of 255 to 257 bytes, texts of 300 bytes, blocks of 300 keys, and blocks nested 12 deep.
//v: reach=read cases=5
func C20_large() {
	switch vsym.Case(5) {
	case 0:
		kind := [6]int{pStrings, pInts, pFloats, pVec2s, pVec3s, pTimes}[vsym.Choose("kind", 6)]
		want := propSpec{kind: kind}
		for i := 0; i < 300; i++ {
			want.elems = append(want.elems, propSpec{kind: kind - 13, s: "text", i: int32(i), f: float32(i) + 0.5, x: float64(i), us: int64(i) * 1000003})
		}
		jsonTrip(want)
	case 1:
		want := propSpec{kind: pBytes}
		n := 255 + vsym.Choose("n", 3)
		for i := 0; i < n; i++ {
			want.elems = append(want.elems, propSpec{kind: pByte, by: byte(i)})
		}
		jsonTrip(want)
	case 2:
		b := make([]byte, 300)
		for i := range b {
			b[i] = byte('a' + i%26)
		}
		b[255] = vsym.U8("c")
		vsym.Assume(b[255] < 128)
		jsonTrip(propSpec{kind: pString, s: string(b)})
	case 3:
		want := propSpec{kind: pBlock}
		for i := 0; i < 300; i++ {
			want.sub = append(want.sub, fieldSpec{string([]byte{byte('k' + i%10), byte('k' + i/10%10), byte('k' + i/100)}), propSpec{kind: pInt, i: int32(i)}})
		}
		jsonTrip(want)
	case 4:
		p := propSpec{kind: pString, s: inside(ascii("s", 1))}
		for i := 0; i < 12; i++ {
			p = propSpec{kind: pBlock, sub: []fieldSpec{{"k", p}}}
			if i%4 == 3 {
				p = propSpec{kind: pBlock, sub: []fieldSpec{{"a", propSpec{kind: pBlocks, elems: []propSpec{p, p}}}}}
			}
		}
		jsonTrip(p)
	}
}

// 300 captures, 300 collections, 300 recordings, 300 binaries and references, or a chain of 12 recordings, one capture symbolic: the counts of writing and reading are true.
//v: reach=counted cases=5
func C25_large() {
	k := vsym.Case(5)
	var want recSpec
	if k < 4 {
		want = many(k, 280, collSpec{kind: cEnum, name: "c", members: []string{"m"}, caps: []capSpec{symCap(cEnum)}})
	} else {
		for i := 0; i < 300; i++ {
			want.bins = append(want.bins, binSpec{name: "b", data: make([]byte, i)})
			want.refs = append(want.refs, refSpec{name: "r", uri: "u", size: uint64(i)})
		}
	}
	compress := vsym.Choose("compress", 2) == 1
	var out bytes.Buffer
	n, err := rapio.NewWriter(fullEncoders(), compress, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil && (compress || n == out.Len()), "writing reports the bytes delivered")
	size := out.Len()
	out.WriteString("tail")
	r := bytes.NewReader(out.Bytes())
	rec, m, err := rapio.NewReader(fullEncoders(), r).Read()
	vsym.Assert(err == nil && rec != nil && m == n, "reading reports what writing reported")
	vsym.Assert(compress || r.Len() == out.Len()-size, "reading stops at the end of the recording")
	vsym.Reach("counted")
}

// The same shapes through the default writer and loader.
//v: mode=real reach=compared cases=4
func C28_large() {
	k := vsym.Case(4)
	want := many(k, 280, collSpec{kind: cEnum, name: "c", members: []string{"m"}, caps: []capSpec{{t: 69.875, v: vsym.Range("v", 0, 1<<20)}}})
	defaultTrip(plainKinds(want), 1e-4)
}

// plainKinds replaces floats, which the default writer refuses.
func plainKinds(r recSpec) recSpec {
	for i := range r.colls {
		if r.colls[i].kind == cFloat {
			r.colls[i].kind = cPos
		}
	}
	for i := range r.kids {
		r.kids[i] = plainKinds(r.kids[i])
	}
	return r
}

// Counts and lengths above 65536.

// Collections of 66000 captures, one of them symbolic, of every kind (thorough: events too).
//v: reach=compared cases=4 tcases=5 steps=600000000
func C01_wide() {
	kind := [5]int{cPos, cEuler, cEnum, cFloat, cEvent}[vsym.Case(5)]
	roundTrip(recSpec{id: "r", colls: []collSpec{longColl(kind, 66000, 65800)}}, fullEncoders(), fullEncoders(), false)
}

// longText has n bytes, some of them symbolic.
func longText(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	for _, i := range [4]int{0, n / 2, n - 300, n - 1} {
		if i >= 0 && i < n {
			b[i] = vsym.U8("c")
		}
	}
	return b
}

// Texts and byte arrays of 16383 to 70000 bytes, an array of 66000 integers, and a block of 66000 keys.
//v: reach=property cases=4 steps=600000000
func C02_wide() {
	n := 66000
	k := vsym.Case(4)
	if k < 2 {
		n = [4]int{16383, 16384, 65536, 70000}[vsym.Choose("n", 4)]
	}
	switch k {
	case 0:
		propTrip(propSpec{kind: pString, s: string(longText(n))})
	case 1:
		want := propSpec{kind: pBytes}
		for _, b := range longText(n) {
			want.elems = append(want.elems, propSpec{kind: pByte, by: b})
		}
		propTrip(want)
	case 2:
		want := propSpec{kind: pInts}
		for i := 0; i < n; i++ {
			want.elems = append(want.elems, propSpec{kind: pInt, i: int32(i)})
		}
		want.elems[n-1].i = vsym.I32("i")
		propTrip(want)
	case 3:
		b := propSpec{kind: pBlock}
		for i := 0; i < n; i++ {
			b.sub = append(b.sub, fieldSpec{string([]byte{byte('a' + i%41), byte('a' + i/41%41), byte('a' + i/1681)}), propSpec{kind: pByte, by: byte(i)}})
		}
		b.sub[65900].p = symProp(pByte)
		propTrip(b)
	}
}

// Two binaries of 16383 to 70000 bytes, and a reference and an id as long.
//v: reach=compared cases=4 steps=600000000
func C03_wide() {
	n := [4]int{16383, 16384, 65536, 70000}[vsym.Case(4)]
	want := recSpec{id: string(longText(n)), bins: []binSpec{{name: "b", data: longText(n)}, {name: "c", data: longText(n - 1)}}, refs: []refSpec{{name: "r", uri: string(longText(n)), size: uint64(n)}}}
	roundTrip(want, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// An enum collection of 66000 members and a value from 65900, and an event collection of 66000 names.
//v: reach=compared cases=2 steps=600000000
func C14_wide() {
	letters := func(i int) string { return string([]byte{byte('a' + i%41), byte('a' + i/41%41), byte('a' + i/1681)}) }
	c := collSpec{kind: cEnum, name: "e", caps: []capSpec{{t: 1, v: 65900}, {t: 2, v: vsym.Range("v", 65900, 131000)}}}
	if vsym.Case(2) == 0 {
		for i := 0; i < 66000; i++ {
			c.members = append(c.members, letters(i))
		}
		together(enumenc.NewEncoder(), []collSpec{c, {kind: cEnum, name: "f", members: []string{letters(7), letters(65536)}}})
		return
	}
	c = collSpec{kind: cEvent, name: "e"}
	for i := 0; i < 66000; i++ {
		c.caps = append(c.caps, capSpec{t: float64(i), name: letters(i)})
	}
	together(eventenc.NewEncoder(), []collSpec{c, {kind: cEvent, name: "f", caps: []capSpec{{name: letters(65537)}}}})
}

// wideTree: a recording of more than 65536 bytes, mostly in one part.
func wideTree(k int) recSpec {
	text := string(longText(70000))
	want := recSpec{id: "i", name: "n"}
	switch k {
	case 0:
		want.name = text
	case 1:
		want.bins = []binSpec{{name: "b", data: []byte(text)}}
	case 2:
		want.colls = []collSpec{longColl(cPos, 1500, 1499)}
	case 3:
		want.meta = []fieldSpec{{"k", propSpec{kind: pString, s: text}}}
	case 4:
		want.refs = []refSpec{{name: "r", uri: text}}
	case 5:
		want.colls = []collSpec{{kind: cEnum, name: "e", members: []string{"a", text}, caps: []capSpec{{t: 1, v: 1}}}}
	}
	want.kids = []recSpec{{id: "k", bins: []binSpec{{name: "c", data: []byte(text[:5000])}}}}
	return want
}

// spots are positions within n bytes: around powers of two, near the start and near the end.
func spots(n int, f func(int)) {
	at := []int{0, 1, 5, 100, n / 3, n / 2, n - 4990, n - 30, n - 4, n - 2, n - 1}
	for p := 512; p < n-1; p *= 2 {
		at = append(at, p, p+20)
	}
	for i := range at {
		if !vsym.Native() {
			i = vsym.Choose("at", len(at))
		}
		if at[i] >= 0 && at[i] < n {
			f(at[i])
		}
		if !vsym.Native() {
			return
		}
	}
}

// Files of more than 65536 bytes (in a text, a binary, a collection, metadata, a reference or an enum), compressed or not, cut at some 25
// positions: around powers of two, near the start, in the middle and near the end.
//v: reach=refused cases=12 steps=600000000
func C04_wide() {
	k := vsym.Case(12)
	want := wideTree(k % 6)
	file := writeFull(mkRec(want), k >= 6)
	spots(len(file), func(n int) {
		rec, err := readFull(file[:n])
		checkCut(rec, err, want, k < 6)
	})
}

// The same files, written to an output that fails at these positions.
//v: reach=failed cases=12 steps=600000000
func C05_wide() {
	k := vsym.Case(12)
	rec := mkRec(wideTree(k % 6))
	size := len(writeFull(rec, k >= 6))
	spots(size, func(n int) {
		modes := 3
		for m := 0; m < modes; m++ {
			if !vsym.Native() {
				m = vsym.Choose("mode", modes)
				modes = 0
			}
			w := &failWriter{left: n, once: m == 1, whole: m == 2}
			_, err := rapio.NewWriter(fullEncoders(), k >= 6, w, rapio.Raw64).Write(rec)
			if w.failed {
				vsym.Assert(err != nil, "a failed write is reported")
				vsym.Reach("failed")
			}
		}
	})
}

// The same files, read from streams that deliver up to 1000, 4096 or 65535 bytes at once.
//v: reach=same cases=12 steps=600000000
func C06_wide() {
	k := vsym.Case(12)
	want := wideTree(k % 6)
	file := writeFull(mkRec(want), k >= 6)
	_, wantN, err := readerOf(bytes.NewReader(file))
	vsym.Assert(err == nil, "reading succeeds")
	rec, n, err := readerOf(&pieces{b: file, every: [3]int{1000, 4096, 65535}[vsym.Choose("every", 3)], withEOF: vsym.Choose("eof", 2) == 1})
	vsym.Assert(err == nil && equalRec(rec, want) && n == wantN, "the recording and the count do not depend on the delivery")
	vsym.Reach("same")
}

// 300 captures, 300 collections, 300 recordings, a chain of 12 recordings, 300 binaries, references and keys, arrays of 300, enums of 300
// members and 300 event names and keys; texts and binaries of 127 to 20000 bytes: what the writer produces is read by the independent reader, and what the independent
// writer produces by the repository's.
//v: reach=compared cases=7
func C09_large() {
	k := vsym.Case(7)
	want := recSpec{id: "r", name: "n"}
	text := func(i int) string { return string([]byte{byte('a' + i%20), byte('a' + i/20)}) }
	switch k {
	case 4:
		for i := 0; i < 300; i++ {
			want.bins = append(want.bins, binSpec{name: "b", data: make([]byte, i), meta: []fieldSpec{{text(i), propSpec{kind: pInt, i: int32(i)}}}})
			want.refs = append(want.refs, refSpec{name: "r", uri: "u", size: uint64(i), meta: []fieldSpec{{text(299 - i), propSpec{kind: pByte, by: 1}}}})
		}
		want.bins[299].data[7] = vsym.U8("byte")
	case 5:
		for i := 0; i < 8; i++ {
			e := symArray(allKinds[9+i], 1)
			for len(e.elems) < 300 {
				e.elems = append(e.elems, propSpec{kind: e.elems[0].kind, s: "t", by: 2, i: 4, us: 1000})
			}
			want.meta = append(want.meta, fieldSpec{text(i), e})
		}
	case 6:
		en, ev := longColl(cEnum, 300, -1), longColl(cEvent, 300, -1)
		en.members = nil
		for i := range en.caps {
			en.members = append(en.members, text(i))
			en.caps[i].v = i
			ev.caps[i].name = text(i)
			ev.caps[i].meta = []fieldSpec{{text(299 - i), propSpec{kind: pInt, i: int32(i)}}}
		}
		ev.caps[299].meta[0].p = symProp(pString)
		en.caps[299].v = vsym.Range("v", 0, 1<<20)
		want.colls = []collSpec{en, ev}
		for _, n := range []int{127, 128, 300, 16383, 16384, 20000} {
			b := make([]byte, n)
			b[n-1] = vsym.U8("byte")
			want.refs = append(want.refs, refSpec{name: string(b), uri: "u", size: uint64(n)})
			want.bins = append(want.bins, binSpec{name: "b", data: b})
		}
	default:
		want = many(k, 280, collSpec{kind: cEnum, name: "c", members: []string{"m"}, caps: []capSpec{symCap(cEnum)}})
	}
	got, ok := refRead(writeFull(mkRec(want), false))
	vsym.Assert(ok, "the file follows the layout")
	vsym.Assert(sameSpecRec(got, want), "the file means the recording")
	rec, err := readFull(refFile(want, layoutOpts{order: usedKinds(want), reverse: k%2 == 0}))
	vsym.Assert(err == nil, "a well-formed file is read")
	checkRec(rec, want, true)
	vsym.Reach("compared")
}
