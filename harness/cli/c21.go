package main

import (
	"encoding/json"
	"strings"

	"github.com/recolude/rap/internal/vsym"
)

func obj(v any) map[string]any {
	m, ok := v.(map[string]any)
	vsym.Assert(ok, "an object")
	return m
}

func list(v any) []any {
	a, ok := v.([]any)
	vsym.Assert(ok, "an array")
	return a
}

func isText(v any, want string) bool {
	s, ok := v.(string)
	return ok && sameStr(s, want)
}

func isNumber(v any, want float64) bool {
	f, ok := v.(float64)
	return ok && f == want
}

// describes compares a parsed JSON document with a recording.
func describes(v any, want recSpec) {
	doc := obj(v)
	vsym.Assert(isText(doc["id"], want.id), "id")
	vsym.Assert(isText(doc["name"], want.name), "name")
	meta := obj(doc["metadata"])
	vsym.Assert(len(meta) == len(want.meta), "number of metadata entries")
	for _, f := range want.meta {
		if f.p.kind == pInt {
			vsym.Assert(isNumber(meta[f.key], float64(f.p.i)), "metadata")
			continue
		}
		vsym.Assert(isText(meta[f.key], f.p.s), "metadata")
	}
	colls := list(doc["collections"])
	vsym.Assert(len(colls) == len(want.colls), "number of collections")
	for i, w := range want.colls {
		c := obj(colls[i])
		vsym.Assert(isText(c["name"], w.name), "collection name")
		vsym.Assert(isText(c["signature"], collSigs[w.kind]), "kind of collection")
		vsym.Assert(isNumber(c["count"], float64(len(w.caps))), "number of captures")
		if w.kind != cEvent {
			continue
		}
		caps := list(c["captures"])
		vsym.Assert(len(caps) == len(w.caps), "number of events")
		for j, e := range w.caps {
			k := obj(caps[j])
			vsym.Assert(isText(k["name"], e.name), "event name")
			vsym.Assert(isNumber(k["time"], e.t), "event time")
			data := obj(k["data"])
			vsym.Assert(len(data) == len(e.meta), "number of event properties")
			for _, f := range e.meta {
				vsym.Assert(isText(data[f.key], f.p.s), "event properties")
			}
		}
	}
	kids := list(doc["recordings"])
	vsym.Assert(len(kids) == len(want.kids), "number of recordings")
	for i, k := range want.kids {
		describes(kids[i], k)
	}
}

func shown(want recSpec) {
	out, err := tool("to-json", writeFull(mkRec(want), false))
	vsym.Assert(err == nil, "written")
	if err != nil {
		return
	}
	var doc any
	vsym.Assert(json.Unmarshal(out, &doc) == nil, "well-formed")
	describes(doc, want)
	vsym.Reach("shown")
}

var odd = [6]string{"\"", "\\", "a\"b\\c\n\t\x01", "é\u2028<&>", "😀", ""}

// oddText is one of 6 texts or a symbolic ASCII character.
func oddText(name string) string {
	if k := vsym.Choose(name, 7); k < 6 {
		return odd[k]
	}
	b := vsym.U8(name)
	vsym.Assume(b < 128)
	return string([]byte{b})
}

func strField(k, v string) []fieldSpec { return []fieldSpec{{k, propSpec{kind: pString, s: v}}} }

// A tree of three levels in which one of 10 texts (ids, names, collection and event names, metadata keys and values) is one of 6 odd ones or a symbolic ASCII character.
//v: reach=shown cases=10
func C21_texts() { textsShown("") }

func textsShown(pad string) {
	at := vsym.Case(10)
	var t [10]string
	for i := range t {
		t[i] = "text " + string([]byte{byte('0' + i)})
	}
	t[at] = pad + oddText("odd") + pad
	shown(recSpec{id: t[0], name: t[1], meta: strField("k"+t[2], t[3]),
		colls: []collSpec{{kind: cPos, name: t[4], caps: []capSpec{{t: 1}}}, {kind: cEvent, name: "e", caps: []capSpec{{t: 0, name: t[5], meta: strField("key"+t[6], t[7])}, {t: 1.5, name: "second"}}}},
		kids: []recSpec{{id: t[8], name: "kid", kids: []recSpec{{id: "inner", name: t[9]}}}, {id: "last", name: "last"}}})
}

// The same, the odd text amid 200 other characters.
//v: reach=shown cases=10
func C21_long_texts() { textsShown(strings.Repeat("long", 25)) }

// Trees of four recordings in 4 shapes, two of which hold collections of two of the four kinds that files are read with, with 0 to 2 captures each; one collection's name is a symbolic ASCII character.
//v: reach=shown cases=16
func C21_shapes() {
	k := vsym.Case(16)
	var cs [4][]collSpec
	a := timed(k/4, vsym.Choose("n", 3))
	b := timed(vsym.Choose("kind", 4), vsym.Choose("n", 3))
	at := vsym.Choose("at", 4)
	c := vsym.U8("name")
	vsym.Assume(c < 128)
	b.name = string([]byte{c})
	cs[at] = []collSpec{a, b}
	cs[(at+1)%4] = []collSpec{b}
	for i := range a.caps {
		a.caps[i].t = -0.5 * float64(i)
	}
	r, _ := shape(k%4, cs)
	shown(r)
}

var extremes = [5]float64{1e300, -5e-324, nan(), inf(), -inf()}

func inf() float64 {
	x := 1e300
	return x * x
}

func nan() float64 { return inf() - inf() }

// Metadata of each of 17 kinds, its numbers finite or not, and event times finite or not, in the recording or in a child: a well-formed document, or an error.
//v: reach=refused,shown cases=17
func C21_metadata() {
	kind := allKinds[vsym.Case(17)]
	num := extremes[vsym.Choose("number", 5)]
	e := propSpec{kind: kind, s: "\"\\", i: -5, f: float32(num), b: true, by: 200, x: 1, y: num, z: 2, us: 1600000000123456}
	if kind >= pStrings {
		e.kind -= 13
		e = propSpec{kind: kind, elems: []propSpec{e, e}}
	}
	if kind == pBlock {
		e.sub = strField("\"\\", "\x00")
	}
	r := recSpec{id: "i", name: "n"}
	k := capSpec{t: 1, name: "e"}
	switch vsym.Choose("where", 3) {
	case 0:
		r.meta = []fieldSpec{{"k", e}}
	case 1:
		k.meta = []fieldSpec{{"k", e}}
	case 2:
		k.t = num
	}
	r.colls = []collSpec{{kind: cEvent, name: "c", caps: []capSpec{k}}}
	if vsym.Choose("child", 2) == 1 {
		r = recSpec{id: "p", name: "q", kids: []recSpec{r}}
	}
	out, err := tool("to-json", writeFull(mkRec(r), false))
	if err != nil {
		vsym.Reach("refused")
		return
	}
	var doc any
	vsym.Assert(json.Unmarshal(out, &doc) == nil, "well-formed")
	vsym.Reach("shown")
}
