package main

import (
	"strconv"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/internal/vsym"
)

// jv is a JSON value: an object, an array, a text, or other JSON written out.
type jv struct {
	obj  []jf
	arr  []jv
	kind int // 0 raw, 1 text, 2 array, 3 object
	s    string
}

type jf struct {
	key string
	v   jv
}

func jraw(s string) jv      { return jv{s: s} }
func jtext(s string) jv     { return jv{kind: 1, s: s} }
func jarr(a ...jv) jv       { return jv{kind: 2, arr: a} }
func jobj(f ...jf) jv       { return jv{kind: 3, obj: f} }
func jnum(n int) jv         { return jraw(strconv.Itoa(n)) }
func jfield(k string, v jv) jf { return jf{k, v} }

// quoted is a JSON text.
func quoted(s string) string {
	out := []byte{'"'}
	for _, c := range []byte(s) {
		if c < 32 {
			out = append(out, []byte("\\u00")...)
			out = append(out, '0'+c>>4, "0123456789abcdef"[c&15])
			continue
		}
		if c == '"' || c == '\\' {
			out = append(out, '\\')
		}
		out = append(out, c)
	}
	return string(append(out, '"'))
}

func (v jv) dump() string {
	switch v.kind {
	case 1:
		return quoted(v.s)
	case 2:
		out := "["
		for i, e := range v.arr {
			if i > 0 {
				out += ", "
			}
			out += e.dump()
		}
		return out + "]"
	case 3:
		out := "{"
		for i, f := range v.obj {
			if i > 0 {
				out += ",\n\t"
			}
			out += quoted(f.key) + ": " + f.v.dump()
		}
		return out + "}"
	}
	return v.s
}

func checkImport(doc jv, want recSpec) format.Recording {
	got, err := parsing.FromJSON([]byte(doc.dump()))
	vsym.Assert(err == nil, "imported")
	if err != nil {
		return nil
	}
	checkRec(got, want, true)
	vsym.Reach("imported")
	return got
}

func jhead(id, name string, more ...jf) jv {
	return jobj(append([]jf{{"id", jtext(id)}, {"name", jtext(name)}}, more...)...)
}

// jnumber is a number and its JSON: any whole 17-bit number with its sign, or one of 8.
func jnumber(name string) (jv, float64) {
	k := vsym.Choose(name, 10)
	if k < 8 {
		return jraw([8]string{"0", "-0.25", "1.1", "1e21", "0.1E-6", "-1.0e+2", "123456789.125", "1.7976931348623157e308"}[k]),
			[8]float64{0, -0.25, 1.1, 1e21, 1e-7, -100, 123456789.125, 1.7976931348623157e308}[k]
	}
	n := vsym.U16(name)
	if k == 8 {
		return jraw(strconv.Itoa(int(n))), float64(n)
	}
	return jraw("-" + strconv.Itoa(int(n))), -float64(n)
}

// Up to 2 (thorough: 4) captures in a position or rotation collection with a name of one symbolic character; one of the numbers is any whole 17-bit number or one of 8, the others are constants.
//v: reach=imported
func C19_vectors() {
	kind := [2]int{cPos, cEuler}[vsym.Choose("kind", 2)]
	max := 3
	if vsym.Thorough() {
		max = 5
	}
	n := vsym.Choose("n", max)
	c := collSpec{kind: kind, name: "coll"}
	at := -1
	if n == 0 {
		c.name = ascii("coll", 1)
	} else {
		at = vsym.Choose("at", 4*n)
	}
	var caps []jv
	for i := 0; i < n; i++ {
		var w [4]float64
		var t [4]jv
		for k := range w {
			if 4*i+k == at {
				t[k], w[k] = jnumber("number")
			} else {
				v := 10*(i+1) + k
				t[k], w[k] = jnum(v), float64(v)
			}
		}
		caps = append(caps, jobj(jfield("time", t[0]), jfield("data", jobj(jfield("x", t[1]), jfield("y", t[2]), jfield("z", t[3])))))
		c.caps = append(c.caps, capSpec{t: w[0], x: w[1], y: w[2], z: w[3]})
	}
	coll := jobj(jfield("type", jtext(collSigs[kind])), jfield("captures", jarr(caps...)), jfield("name", jtext(c.name)))
	checkImport(jhead("i", "n", jfield("collections", jarr(coll))), recSpec{id: "i", name: "n", colls: []collSpec{c}})
}

// A capture in a position or rotation collection whose coordinates and time are each 0 or one or two others.
//v: reach=imported
func C19_coordinates() {
	kind := [2]int{cPos, cEuler}[vsym.Choose("kind", 2)]
	var w [4]float64
	var t [4]jv
	for k := range w {
		i := vsym.Choose("number", [4]int{2, 3, 3, 3}[k])
		t[k], w[k] = jraw([3]string{"0", "7", "-2.5"}[i]), [3]float64{0, 7, -2.5}[i]
	}
	caps := jarr(jobj(jfield("data", jobj(jfield("x", t[1]), jfield("y", t[2]), jfield("z", t[3]))), jfield("time", t[0])))
	coll := jobj(jfield("name", jtext("c")), jfield("type", jtext(collSigs[kind])), jfield("captures", caps))
	checkImport(jhead("i", "n", jfield("collections", jarr(coll))), recSpec{id: "i", name: "n", colls: []collSpec{{kind: kind, name: "c", caps: []capSpec{{t: w[0], x: w[1], y: w[2], z: w[3]}}}}})
}

// Enum collections of 0 to 4 captures whose entries are two symbolic one-character texts, each used anywhere, and a constant.
//v: reach=imported
func C19_enum() {
	a, b := ascii("entry", 1), ascii("entry", 1)
	n := vsym.Choose("n", 5)
	var caps []jv
	var want []string
	for i := 0; i < n; i++ {
		e := [3]string{a, b, "third entry"}[vsym.Choose("which", 3)]
		caps = append(caps, jobj(jfield("data", jtext(e)), jfield("time", jnum(i*10))))
		want = append(want, e)
	}
	coll := jobj(jfield("name", jtext("e")), jfield("type", jtext("recolude.enum")), jfield("captures", jarr(caps...)))
	got, err := parsing.FromJSON([]byte(jhead("i", "n", jfield("collections", jarr(coll))).dump()))
	vsym.Assert(err == nil, "imported")
	if err != nil {
		return
	}
	vsym.Assert(len(got.CaptureCollections()) == 1, "one collection")
	c, ok := got.CaptureCollections()[0].(enum.Collection)
	vsym.Assert(ok, "an enum collection")
	members := c.EnumMembers()
	vsym.Assert(c.Length() == n && len(c.Captures()) == n, "number of captures")
	for i, k := range c.Captures() {
		v := k.(enum.Capture).Value()
		vsym.Assert(k.Time() == float64(i*10), "time")
		vsym.Assert(v >= 0 && v < len(members), "an existing member")
		vsym.Assert(sameStr(members[v], want[i]), "the entry's text")
	}
	for i, m := range members {
		for _, o := range members[:i] {
			vsym.Assert(m != o, "every member once")
		}
	}
	vsym.Reach("imported")
}

var wide = [3]string{"é\u2028", "\"\\", "<&>"}

// text1 is a symbolic ASCII character or a constant text.
func text1(name string) string {
	if k := vsym.Choose(name, 4); k < 3 {
		return wide[k]
	}
	return ascii(name, 1)
}

// jmeta is metadata with one entry of any of 9 shapes.
func jmeta() (jv, []fieldSpec) {
	key := "key"
	var v jv
	var p propSpec
	switch vsym.Choose("meta", 9) {
	case 0:
		s := inside(ascii("meta", 1))
		v, p = jtext(s), propSpec{kind: pString, s: s}
	case 1:
		n := int(vsym.U16("meta"))
		v, p = jnum(n), propSpec{kind: pInt, i: int32(n)}
	case 2:
		v, p = jraw("false"), propSpec{kind: pBool}
	case 3:
		v, p = jraw("0.1"), propSpec{kind: pFloat, f: 0.1}
	case 4:
		v, p = jobj(jfield("a.b", jtext("\"")), jfield("x", jraw("1"))), propSpec{kind: pBlock, sub: []fieldSpec{{"a.b", propSpec{kind: pString, s: "\""}}, {"x", propSpec{kind: pInt, i: 1}}}}
	case 5:
		v, p = jobj(jfield("x", jraw("1")), jfield("y", jraw("-2.5"))), propSpec{kind: pVec2, x: 1, y: -2.5}
	case 6:
		v, p = jtext("0x0aff"), propSpec{kind: pBytes, elems: []propSpec{{by: 10}, {by: 255}}}
	case 7:
		v, p = jarr(jtext("u"), jtext("v\\")), propSpec{kind: pStrings, elems: []propSpec{{kind: pString, s: "u"}, {kind: pString, s: "v\\"}}}
	case 8:
		return jobj(jfield("x", jraw("1")), jfield("y", jraw("2"))), []fieldSpec{{"x", propSpec{kind: pInt, i: 1}}, {"y", propSpec{kind: pInt, i: 2}}}
	}
	return jobj(jfield(key, v)), []fieldSpec{{key, p}}
}

// Event collections of 1 to 3 captures (the last may repeat the first's name, without metadata), the first with a name of one symbolic character or one of 3 others, with metadata of any of 9 shapes, or at any of the times of C19_vectors.
//v: reach=imported
func C19_events() {
	c := collSpec{kind: cEvent, name: "events"}
	m, want := jobj(), []fieldSpec(nil)
	name, time, t := "event", jraw("0.5"), 0.5
	switch vsym.Choose("vary", 3) {
	case 0:
		m, want = jmeta()
	case 1:
		name = text1("event")
	case 2:
		time, t = jnumber("time")
	}
	caps := []jv{jobj(jfield("data", jobj(jfield("name", jtext(name)), jfield("metadata", m))), jfield("time", time))}
	c.caps = append(c.caps, capSpec{t: t, name: name, meta: want})
	if vsym.Choose("two", 2) == 1 {
		caps = append(caps, jobj(jfield("time", jnum(100)), jfield("data", jobj(jfield("name", jtext("other"))))))
		c.caps = append(c.caps, capSpec{t: 100, name: "other"})
	}
	if vsym.Choose("again", 2) == 1 {
		caps = append(caps, jobj(jfield("time", jnum(101)), jfield("data", jobj(jfield("name", jtext(name)), jfield("metadata", jobj())))))
		c.caps = append(c.caps, capSpec{t: 101, name: name})
	}
	coll := jobj(jfield("name", jtext("events")), jfield("type", jtext("recolude.event")), jfield("captures", jarr(caps...)))
	checkImport(jhead("i", "n", jfield("collections", jarr(coll))), recSpec{id: "i", name: "n", colls: []collSpec{c}})
}

// Recordings with up to two children and a grandchild, metadata at any level and up to two references, where an id, a name or uri (one symbolic character or one of 3 others), the metadata (9 shapes) or a reference's size (32 bits) varies.
//v: reach=imported
func C19_tree() {
	id, name, size := "id \"", "name \\", uint32(7)
	m, want := jobj(jfield("k", jraw("true"))), []fieldSpec{{"k", propSpec{kind: pBool, b: true}}}
	switch vsym.Choose("vary", 4) {
	case 0:
		id = text1("id")
	case 1:
		name = text1("name")
	case 2:
		m, want = jmeta()
	case 3:
		size = vsym.U32("size")
	}
	mf := jfield("metadata", m)
	w := recSpec{id: id, name: name}
	var doc jv
	switch vsym.Choose("shape", 4) {
	case 0:
		w.meta = want
		doc = jhead(id, name, mf)
	case 1:
		w.kids = []recSpec{{id: "a", name: name, meta: want}, {id: "b", name: "second"}}
		doc = jhead(id, name, jfield("recordings", jarr(jhead("a", name, mf), jhead("b", "second", jfield("metadata", jobj())))))
	case 2:
		w.kids = []recSpec{{id: "a", name: "first", kids: []recSpec{{id: id, name: "inner", meta: want}}}, {id: "b", name: "second", colls: []collSpec{{kind: cPos, name: name}}}}
		coll := jobj(jfield("name", jtext(name)), jfield("type", jtext("recolude.position")), jfield("captures", jarr()))
		doc = jhead(id, name, jfield("recordings", jarr(jhead("a", "first", jfield("recordings", jarr(jhead(id, "inner", mf)))), jhead("b", "second", jfield("collections", jarr(coll)), jfield("recordings", jarr())))))
	case 3:
		w.refs = []refSpec{{name: name, uri: id, size: uint64(size), meta: want}, {name: "other", uri: "http://x/\"y\"", size: 9007199254740991}}
		r1 := jobj(jfield("name", jtext(name)), jfield("uri", jtext(id)), jfield("size", jnum(int(size))), mf)
		r2 := jobj(jfield("size", jraw("9007199254740991")), jfield("uri", jtext("http://x/\"y\"")), jfield("name", jtext("other")))
		doc = jhead(id, name, jfield("references", jarr(r1, r2)))
	}
	checkImport(doc, w)
}

// The sites of the full document: what is required there, and where it sits.
const (
	wText = 1 << iota
	wNumber
	wSize
	wArray
	wObject
)

type site struct {
	takes    int
	optional bool
}

var sites = [30]site{
	{wText, false},   // recording id
	{wText, false},   // recording name
	{wObject, true},  // recording metadata
	{wArray, true},   // recordings
	{wObject, false}, // a recording
	{wText, false},   // its id
	{wText, false},   // its name
	{wArray, true},   // references
	{wObject, false}, // a reference
	{wText, false},   // its name
	{wText, false},   // its uri
	{wSize, false},   // its size
	{wObject, true},  // its metadata
	{wArray, true},   // collections
	{wObject, false}, // a collection
	{wText, false},   // its name
	{wText, false},   // its type
	{wArray, false},  // its captures
	{wObject, false}, // a capture
	{wNumber, false}, // its time
	{wObject, false}, // its data (position, rotation, event)
	{wNumber, false}, // x
	{wNumber, false}, // y
	{wNumber, false}, // z
	{wText, false},   // an enum capture's data
	{wText, false},   // an event's name
	{wObject, true},  // an event's metadata
	{wObject, false}, // the document
	{wObject, false}, // an event's data
	{wNumber, false}, // an enum capture's time
}

// damage: at site `at` the value `bad` stands, or nothing.
type damage struct {
	at   int
	gone bool
	bad  jv
}

func (d damage) v(at int, v jv) jv {
	if at == d.at {
		return d.bad
	}
	return v
}

func (d damage) f(fs []jf, at int, key string, v jv) []jf {
	if at == d.at && d.gone {
		return fs
	}
	return append(fs, jf{key, d.v(at, v)})
}

func (d damage) rec(collKind int) jv {
	var kid, ref, coll, top, k, data []jf
	kid = d.f(kid, 5, "id", jtext("kid"))
	kid = d.f(kid, 6, "name", jtext("kid name"))
	ref = d.f(ref, 9, "name", jtext("ref"))
	ref = d.f(ref, 10, "uri", jtext("uri"))
	ref = d.f(ref, 11, "size", jnum(5))
	ref = d.f(ref, 12, "metadata", jobj())
	switch collKind {
	case cPos, cEuler:
		data = d.f(data, 21, "x", jnum(1))
		data = d.f(data, 22, "y", jnum(2))
		data = d.f(data, 23, "z", jnum(3))
		k = d.f(k, 19, "time", jnum(4))
		k = d.f(k, 20, "data", jobj(data...))
	case cEnum:
		k = d.f(k, 29, "time", jnum(4))
		k = d.f(k, 24, "data", jtext("entry"))
	case cEvent:
		data = d.f(data, 25, "name", jtext("event"))
		data = d.f(data, 26, "metadata", jobj(jfield("k", jtext("v"))))
		k = d.f(k, 19, "time", jnum(4))
		k = d.f(k, 28, "data", jobj(data...))
	}
	coll = d.f(coll, 15, "name", jtext("coll"))
	coll = d.f(coll, 16, "type", jtext(collSigs[collKind]))
	coll = d.f(coll, 17, "captures", jarr(jraw(jobj(k...).dump()), d.v(18, jobj(k...))))
	top = d.f(top, 0, "id", jtext("id"))
	top = d.f(top, 1, "name", jtext("name"))
	top = d.f(top, 2, "metadata", jobj())
	top = d.f(top, 3, "recordings", jarr(d.v(4, jobj(kid...))))
	top = d.f(top, 7, "references", jarr(d.v(8, jobj(ref...))))
	top = d.f(top, 13, "collections", jarr(d.v(14, jobj(coll...))))
	return d.v(27, jobj(top...))
}

// fits says whether the damaged value is one the site takes after all.
func (s site) fits(k int) bool {
	switch k {
	case 2, 3:
		return s.takes&wText != 0
	case 4, 5:
		return s.takes&(wNumber|wSize) != 0
	case 6, 7:
		return s.takes&wNumber != 0
	case 8:
		return s.takes&wArray != 0
	}
	return false
}

// A full document with a collection of each of 4 kinds in which one of 30 parts is missing, or replaced by one of 13 values of another type, among them any ASCII text of two characters and any 8-bit number.
//v: reach=refused cases=4
func C19_damaged() {
	kind := vsym.Case(4)
	at := vsym.Choose("site", 30)
	s := sites[at]
	d := damage{at: at}
	k := vsym.Choose("value", 14)
	bad := [14]string{"null", "true", "\"\"", "\"5\"", "0", "7", "1.5", "-1", "[]", "[\"a\"]", "[[{}]]", "[1]", "{\"u\":[null]}", ""}
	if k == 13 {
		vsym.Assume(!s.optional && at != 4 && at != 8 && at != 14 && at != 18 && at != 27)
		d.gone = true
	} else {
		vsym.Assume(!s.fits(k))
		d.bad = jraw(bad[k])
		if k == 3 {
			d.bad = jtext(ascii("bad", 2))
		} else if k == 5 {
			d.bad = jnum(int(vsym.U8("bad")))
		}
		if (at == 2 || at == 12 || at == 26) && k != 3 && k != 5 {
			d.bad = jraw([14]string{"null", "true", "\"\"", "\"5\"", "0", "7", "1.5", "{\"n\":null}", "[]", "[\"a\"]", "[[{}]]", "{\"n\":[{}, 1]}", "{\"u\":[null]}"}[k])
		}
	}
	used := false
	switch {
	case at == 24 || at == 29:
		used = kind == cEnum
	case at == 25 || at == 26 || at == 28:
		used = kind == cEvent
	case at >= 20 && at <= 23:
		used = kind == cPos || kind == cEuler
	case at == 19:
		used = kind != cEnum
	default:
		used = true
	}
	vsym.Assume(used)
	_, err := parsing.FromJSON([]byte(d.rec(kind).dump()))
	vsym.Assert(err != nil, "refused")
	vsym.Reach("refused")
}

// Any text of up to 2 (thorough: 3) bytes in place of a required value.
//v: reach=refused
func C19_bytes() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	b := vsym.Bytes("data", vsym.Choose("n", n+1))
	where := vsym.Choose("where", 4)
	doc := [4]string{"", "{\"id\":\"i\",\"name\":", "{\"id\":\"i\",\"name\":\"n\",\"references\":[{\"name\":\"n\",\"uri\":\"u\",\"size\":", "{\"id\":\"i\",\"name\":\"n\",\"collections\":[{\"name\":\"n\",\"type\":\"recolude.enum\",\"captures\":[{\"time\":1,\"data\":"}[where]
	end := [4]string{"", "}", "}]}", "}]}]}"}[where]
	rec, err := parsing.FromJSON([]byte(doc + string(b) + end))
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(where > 0 && rec != nil, "only whole documents")
	vsym.Assert(rec.ID() == "i", "id")
}
