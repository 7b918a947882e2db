package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	floatenc "github.com/recolude/rap/format/encoding/float"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

func wholeBlock(b metadata.Block) bool {
	for _, p := range b.Mapping() {
		if p == nil {
			return false
		}
		if m, ok := p.(metadata.MetadataProperty); ok && !wholeBlock(m.Block()) {
			return false
		}
	}
	return true
}

func wholeColl(c format.CaptureCollection) bool {
	if c == nil || c.Signature() == "" {
		return false
	}
	_ = c.Name()
	for _, k := range c.Captures() {
		if k == nil {
			return false
		}
		if c.Signature() == "recolude.event" && !wholeBlock(k.(interface{ Metadata() metadata.Block }).Metadata()) {
			return false
		}
	}
	return true
}

func wholeRec(r format.Recording) bool {
	if r == nil || !wholeBlock(r.Metadata()) {
		return false
	}
	for _, c := range r.CaptureCollections() {
		if !wholeColl(c) {
			return false
		}
	}
	for _, b := range r.Binaries() {
		if b == nil || b.Data() == nil || !wholeBlock(b.Metadata()) {
			return false
		}
	}
	for _, b := range r.BinaryReferences() {
		if b == nil || !wholeBlock(b.Metadata()) {
			return false
		}
	}
	for _, k := range r.Recordings() {
		if !wholeRec(k) {
			return false
		}
	}
	return true
}

// fixedTree is layoutTree with values of no interest.
func fixedTree(k int) recSpec {
	r := recSpec{id: "i", name: "nm", meta: []fieldSpec{{"k", propSpec{kind: pInt, i: 3}}}}
	caps := func(kind, n int) collSpec {
		c := collSpec{kind: kind, name: "c"}
		for i := 0; i < n; i++ {
			s := capSpec{t: float64(i), x: 1, y: 2, z: float64(3 * i), v: i}
			if kind == cEvent {
				s = capSpec{t: float64(i), name: "ev", meta: []fieldSpec{{"w", propSpec{kind: pByte, by: 7}}}}
			}
			c.caps = append(c.caps, s)
		}
		if kind == cEnum {
			c.members = []string{"A", "B"}
		}
		return c
	}
	switch k {
	case 0:
		r.meta = []fieldSpec{{"s", propSpec{kind: pString, s: "xy"}},
			{"b", propSpec{kind: pBlock, sub: []fieldSpec{{"q", propSpec{kind: pByte, by: 1}}}}}}
	case 1:
		r.meta = []fieldSpec{{"a", propSpec{kind: pBools, elems: []propSpec{{kind: pBool, b: true}}}},
			{"n", propSpec{kind: pStrings, elems: []propSpec{{kind: pString, s: "z"}}}}, {"v", propSpec{kind: pBytes, elems: []propSpec{{kind: pByte, by: 9}}}}}
	case 2:
		r.meta = []fieldSpec{{"m", propSpec{kind: pBlocks, elems: []propSpec{{kind: pBlock, sub: []fieldSpec{{"q", propSpec{kind: pByte, by: 1}}}}}}}}
		r.refs = []refSpec{{name: "r", uri: "u", size: 5, meta: []fieldSpec{{"m2", propSpec{kind: pByte, by: 3}}}}}
	case 3:
		r.bins = []binSpec{{name: "b", data: []byte{1, 2}, meta: []fieldSpec{{"k", propSpec{kind: pByte, by: 3}}}}}
		r.kids = []recSpec{{id: "c", name: "d", kids: []recSpec{{id: "g"}}}, {id: "e"}}
	case 4:
		r.colls = []collSpec{caps(cEnum, 2)}
	case 5:
		r.colls = []collSpec{caps(cEvent, 2)}
	case 6:
		r.colls = []collSpec{caps(cPos, 1), caps(cFloat, 1)}
	case 7:
		r.colls = []collSpec{caps(cEuler, 1), caps(cEnum, 1)}
	case 8: // written with the compact techniques
		r.colls = []collSpec{caps(cPos, 2), caps(cFloat, 2)}
	case 9:
		r.colls = []collSpec{caps(cEuler, 2), caps(cPos, 2)}
	}
	return r
}

func fixedFile(k int) []byte {
	r := fixedTree(k)
	if k < 8 {
		return refFile(r, layoutOpts{order: usedKinds(r)})
	}
	var out bytes.Buffer
	rapio.NewWriter(compactEncoders(k-8), false, &out, rapio.BST16).Write(mkRec(r))
	return out.Bytes()
}

func survives(b []byte) {
	rec, err := readFull(b)
	if err == nil {
		vsym.Assert(wholeRec(rec), "a recording that was read has no missing parts")
		vsym.Reach("read")
	} else {
		vsym.Reach("refused")
	}
}

// Files of 10 shapes using all parts, all collection kinds and all techniques; any one byte replaced by any byte.
//v: reach=read,refused cases=10 conc=300
func C24_byte() {
	b := append([]byte{}, fixedFile(vsym.Case(10))...)
	at := vsym.Choose("at", len(b))
	b[at] = vsym.U8("byte")
	survives(b)
}

// The same files; any one byte replaced by a uvarint of any 64-bit value up to 20 or above
// 65536 (in its ten-byte form).
//v: reach=refused cases=10 conc=64
func C24_number() {
	b := fixedFile(vsym.Case(10))
	at := vsym.Choose("at", len(b))
	v := vsym.U64("number")
	vsym.Assume(vsym.Or(v <= 20, v > 1<<16))
	out := append([]byte{}, b[:at]...)
	for i := 0; i < 9; i++ {
		out = append(out, byte(v>>uint(7*i))|0x80)
	}
	out = append(append(out, byte(v>>63)), b[at+1:]...)
	survives(out)
}

// A body cut off at any place inside a complete file: nothing is invented.
//v: cases=10 reach=refused
func C24_body() {
	k := vsym.Case(10)
	encs := []encoding.Encoder{posenc.NewEncoder(posenc.Raw64), posenc.NewEncoder(posenc.Raw32), posenc.NewEncoder(posenc.Oct48), posenc.NewEncoder(posenc.Oct24),
		eulerenc.NewEncoder(eulerenc.Raw64), eulerenc.NewEncoder(eulerenc.Raw32), eulerenc.NewEncoder(eulerenc.Raw16),
		floatenc.NewEncoder(floatenc.Raw64), floatenc.NewEncoder(floatenc.Raw32), floatenc.NewEncoder(floatenc.BST16)}
	kind := cPos
	if k > 3 {
		kind = cEuler
	}
	if k > 6 {
		kind = cFloat
	}
	c := collSpec{kind: kind, name: "c"}
	ts := []float64{}
	for i := 1 + vsym.Choose("captures", 3); i > 0; i-- {
		c.caps = append(c.caps, capSpec{t: float64(i), x: float64(i), y: 2, z: -1})
		ts = append(ts, float64(i))
	}
	header, data, err := encs[k].Encode([]format.CaptureCollection{mkColl(c)})
	vsym.Assert(err == nil, "encoding succeeds")
	cut := vsym.Choose("cut", len(data[0]))
	_, err = encs[k].Decode("c", header, data[0][:cut], ts)
	vsym.Assert(err != nil, "a body with less data than its captures need is refused")
	vsym.Reach("refused")
}

// Up to 8 arbitrary bytes after the key table of a file with one encoder of each kind.
//v: reach=refused,read tier=thorough
func C24_start() {
	b := append([]byte{2}, refStrs([]string{"recolude.enum"})...)
	b = append(b, 0, 0, 1, 0, 0) // version, uncompressed, header with no members, no keys
	survives(append(b, vsym.Bytes("rest", 1+vsym.Choose("length", 8))...))
}

func dataMax() int {
	if vsym.Thorough() {
		return 7
	}
	return 5
}

// A property of any type code with up to 5 (thorough 7) arbitrary bytes of data.
//v: reach=refused cases=27
func C24_property() {
	b := append([]byte{byte(vsym.Case(27))}, vsym.Bytes("data", vsym.Choose("length", dataMax()+1))...)
	p, err := metadata.ReadProperty(bytes.NewReader(b))
	vsym.Assert((p == nil) == (err != nil), "a property or an error")
	if err == nil {
		_ = p.Code()
		_ = p.Data()
	}
	vsym.Reach("refused")
}

// Enum and event collections of one capture with arbitrary bytes in header (3 and 4) and body (3).
//v: reach=refused,read cases=2
func C24_tables() {
	enc := [2]encoding.Encoder{fullEncoders()[cEnum], fullEncoders()[cEvent]}[vsym.Case(2)]
	header := vsym.Bytes("header", 3+vsym.Case(2))
	c, err := enc.Decode("c", header, vsym.Bytes("body", 3), []float64{1})
	if err == nil {
		vsym.Assert(wholeColl(c) && len(c.Captures()) == 1, "a collection that was read has no missing parts")
		vsym.Reach("read")
	} else {
		vsym.Reach("refused")
	}
}

// Version-1 files of 3 shapes; the header (version, number of recordings, size) has any one byte replaced by any byte, or
// announces any 64-bit size up to 20 or above 65536.
//v: reach=read,refused cases=3
func C24_v1() {
	b := append([]byte{}, v1File(v1Small(vsym.Case(3)).message())...)
	if at := vsym.Choose("at", 14); at < 13 {
		b[at] = vsym.U8("byte")
	} else {
		size := vsym.U64("size")
		vsym.Assume(vsym.Or(size <= 20, size > 1<<16))
		b = append(append(b[:5:5], refU64(size)...), b[13:]...)
	}
	survives(b)
}

// Enum and event collections of two captures; any one byte of the header or the body replaced by a uvarint of any 64-bit
// value up to 20 or above 65536 (in its ten-byte form).
//v: reach=refused,read cases=2 conc=64
func C24_indices() {
	k := vsym.Case(2)
	enc := [2]encoding.Encoder{fullEncoders()[cEnum], fullEncoders()[cEvent]}[k]
	c := collSpec{kind: [2]int{cEnum, cEvent}[k], name: "c", members: []string{"a", "b"}, caps: []capSpec{
		{t: 1, v: 1, name: "e", meta: []fieldSpec{{key: "k", p: propSpec{kind: pInt}}, {key: "l", p: propSpec{kind: pBool}}}},
		{t: 2, v: 0, name: "f", meta: []fieldSpec{{key: "l", p: propSpec{kind: pByte}}}}}}
	header, data, err := enc.Encode([]format.CaptureCollection{mkColl(c)})
	vsym.Assert(err == nil, "encoding succeeds")
	parts := [2][]byte{header, data[0]}
	in := vsym.Choose("part", 2)
	b := parts[in]
	at := vsym.Choose("at", len(b))
	v := vsym.U64("number")
	vsym.Assume(vsym.Or(v <= 20, v > 1<<16))
	out := append([]byte{}, b[:at]...)
	for i := 0; i < 9; i++ {
		out = append(out, byte(v>>uint(7*i))|0x80)
	}
	parts[in] = append(append(out, byte(v>>63)), b[at+1:]...)
	got, err := enc.Decode("c", parts[0], parts[1], []float64{1, 2})
	if err == nil {
		vsym.Assert(wholeColl(got) && len(got.Captures()) == 2, "a collection that was read has no missing parts")
		vsym.Reach("read")
	} else {
		vsym.Reach("refused")
	}
}
