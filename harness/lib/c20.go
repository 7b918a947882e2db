package main

import (
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

type jsonRead interface{ UnmarshalJSON([]byte) error }
type jsonWrite interface{ MarshalJSON() ([]byte, error) }

// readAs reads JSON into a fresh property of the given kind.
func readAs(kind int, b []byte) (metadata.Property, error) {
	switch kind {
	case pString:
		var p metadata.StringProperty
		err := p.UnmarshalJSON(b)
		return p, err
	case pInt:
		return metadata.UnmarshalNewInt32Property(b)
	case pFloat:
		return metadata.UnmarshalNewFloat32Property(b)
	case pBool:
		return metadata.UnmarshalNewBoolProperty(b)
	case pByte:
		return metadata.UnmarshalNewByteProperty(b)
	case pVec2:
		return metadata.UnmarshalNewVector2Property(b)
	case pVec3:
		return metadata.UnmarshalNewVector3Property(b)
	case pBlock:
		return metadata.UnmarshalNewMetadataProperty(b)
	case pTime:
		return metadata.UnmarshalNewTimeProperty(b)
	case pBools, pBytes:
		var p metadata.ArrayPropertyRaw
		err := p.UnmarshalJSON(b)
		return p, err
	}
	var p metadata.ArrayProperty
	err := p.UnmarshalJSON(b)
	return p, err
}

func jsonTrip(want propSpec) {
	w, ok := mkProp(want).(jsonWrite)
	vsym.Assert(ok, "can be written")
	b, err := w.MarshalJSON()
	vsym.Assert(err == nil, "written")
	if err != nil {
		return
	}
	got, err := readAs(want.kind, b)
	vsym.Assert(err == nil, "read back")
	if err != nil {
		return
	}
	vsym.Assert(sameProp(got, want), "unchanged")
	vsym.Reach("read")
}

// ascii is a text of n symbolic bytes below 128.
func ascii(name string, n int) string {
	b := vsym.Bytes(name, n)
	for _, c := range b {
		vsym.Assume(c < 128)
	}
	return string(b)
}

// inside keeps a text from looking like hexadecimal data.
func inside(s string) string {
	if len(s) > 0 {
		vsym.Assume(s[0] != '0')
	}
	return s
}

var wideTexts = [10]string{"é", "日本", "😀", "a\u2028b", "\u2029", "x\ufffdy", "ÿ\"\\", "한/글", "\u007f\u0080", "𝄞&<>"}

// Texts of 0 to 2 (thorough: 3) symbolic ASCII characters, or one of 10 others.
//v: reach=read
func C20_text() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	k := vsym.Choose("length", n)
	p := propSpec{kind: pString}
	if k == n-1 {
		p.s = wideTexts[vsym.Choose("text", 10)]
	} else {
		p.s = ascii("text", k)
	}
	jsonTrip(p)
}

// Every 32-bit integer, bool and byte.
//v: reach=read
func C20_scalars() {
	jsonTrip([3]propSpec{{kind: pInt, i: vsym.I32("int")}, {kind: pBool, b: vsym.Bool("bool")}, {kind: pByte, by: vsym.U8("byte")}}[vsym.Choose("kind", 3)])
}

var numbers = [14]float64{0, 1, -1, 0.1, -2.5, 1e6, 1e21, 1.5e-7, 123456789.125, -9007199254740993, 1.7976931348623157e308, 5e-324, 4294967296, 3.0000000000000004}

// coord is one of 14 numbers, or any whole 16-bit number.
func coord(name string) float64 {
	k := vsym.Choose(name, 15)
	if k == 14 {
		return float64(int16(vsym.U16(name)))
	}
	return numbers[k]
}

// Vectors of 2 and 3 numbers, each one of 14 or any whole 16-bit number; two of them differ in every coordinate position.
//v: reach=read
func C20_vectors() {
	a, b := coord("a"), coord("b")
	switch vsym.Choose("shape", 5) {
	case 0:
		jsonTrip(propSpec{kind: pVec2, x: a, y: b})
	case 1:
		jsonTrip(propSpec{kind: pVec3, x: a, y: b, z: 7})
	case 2:
		jsonTrip(propSpec{kind: pVec3, x: 7, y: a, z: b})
	case 3:
		jsonTrip(propSpec{kind: pVec2s, elems: []propSpec{{kind: pVec2, x: a, y: 1}, {kind: pVec2, x: 2.5, y: b}}})
	case 4:
		jsonTrip(propSpec{kind: pVec3s, elems: []propSpec{{kind: pVec3, x: 1, y: a, z: 2}, {kind: pVec3, x: b, y: 2.5, z: -1}}})
	}
}

// Byte arrays of 0 to 3 and bool arrays of 1 to 4 elements, all symbolic.
//v: reach=read
func C20_raw() {
	n := vsym.Choose("n", 4)
	kind := [2]int{pBools, pBytes}[vsym.Choose("kind", 2)]
	if kind == pBools {
		n++
	}
	p := propSpec{kind: kind}
	for i := 0; i < n; i++ {
		p.elems = append(p.elems, propSpec{b: vsym.Bool("b"), by: vsym.U8("by")})
	}
	jsonTrip(p)
}

// Arrays of 1 or 2 texts (one symbolic ASCII character each), of one symbolic 32-bit integer, alone or beside a constant, and of 1 or 2 floats out of 8.
//v: reach=read cases=6
func C20_arrays() {
	k := vsym.Case(6)
	var p propSpec
	add := func(e propSpec) { p.elems = append(p.elems, e) }
	switch {
	case k < 2:
		p.kind = pStrings
		for i := 0; i <= k; i++ {
			add(propSpec{kind: pString, s: inside(ascii("text", 1))})
		}
	case k < 5:
		p.kind = pInts
		if k == 4 {
			add(propSpec{kind: pInt, i: -1000000})
		}
		add(propSpec{kind: pInt, i: vsym.I32("int")})
		if k == 3 {
			add(propSpec{kind: pInt, i: 2147483647})
		}
	case k == 5:
		p.kind = pFloats
		f := [8]float32{0.1, -1.5, 3.4e38, 1e-45, -2, 16777216, 2147483520, -2147483648}
		add(propSpec{kind: pFloat, f: f[vsym.Choose("float", 8)]})
		if vsym.Choose("n", 2) == 1 {
			add(propSpec{kind: pFloat, f: 0.25})
		} else if whole := p.elems[0].f; whole == float32(int64(whole)) && whole < 1e38 {
			p.elems[0].f = 0.5 // an array of whole numbers only reads back as integers
		}
	}
	jsonTrip(p)
}

// nested is a property of any kind, with symbolic content, as it may occur inside a block.
func nested(k int) propSpec {
	switch k {
	case 0:
		return propSpec{kind: pString, s: inside(ascii("text", 1+vsym.Choose("length", 2)))}
	case 1:
		return propSpec{kind: pInt, i: vsym.I32("int")}
	case 2:
		return propSpec{kind: pBool, b: vsym.Bool("bool")}
	case 3:
		return propSpec{kind: pByte, by: vsym.U8("byte")}
	case 4:
		return propSpec{kind: pVec2, x: float64(int16(vsym.U16("x"))), y: 0.5}
	case 5:
		return propSpec{kind: pVec3, x: 1, y: -0.5, z: float64(int16(vsym.U16("z")))}
	case 6:
		return propSpec{kind: pBytes, elems: []propSpec{{by: vsym.U8("by")}, {by: vsym.U8("by")}}}
	case 7:
		return propSpec{kind: pBools, elems: []propSpec{{b: vsym.Bool("b")}, {b: vsym.Bool("b")}}}
	case 8:
		return propSpec{kind: pStrings, elems: []propSpec{{kind: pString, s: "p\"q"}, {kind: pString, s: inside(ascii("text", 1))}}}
	case 9:
		return propSpec{kind: pInts, elems: []propSpec{{kind: pInt, i: int32(int16(vsym.U16("int")))}, {kind: pInt, i: 1000000}}}
	case 10:
		return propSpec{kind: pVec2s, elems: []propSpec{{kind: pVec2, x: 1, y: 2}}}
	case 11:
		return propSpec{kind: pVec3s, elems: []propSpec{{kind: pVec3, x: 1, y: 2, z: 3.25}}}
	case 12:
		return propSpec{kind: pFloat, f: [4]float32{0.1, -1.5, 3.4e38, 1e-45}[vsym.Choose("float", 4)]}
	case 13:
		return propSpec{kind: pString, s: wideTexts[vsym.Choose("wide", 10)]}
	case 14:
		return propSpec{kind: pBlocks, elems: []propSpec{{kind: pBlock, sub: []fieldSpec{{"k", propSpec{kind: pInt, i: int32(int16(vsym.U16("int")))}}}}, {kind: pBlock, sub: []fieldSpec{{"l", propSpec{kind: pString, s: "v\\"}}}}}}
	}
	return propSpec{kind: pBlock}
}

// Blocks of up to two fields with keys of one symbolic ASCII character, each holding any of 16 kinds of value, flat or within a nested block.
//v: reach=read cases=16
func C20_blocks() {
	k := vsym.Case(16)
	p := nested(k)
	key := ascii("key", 1)
	second := fieldSpec{"second \\ \"key\"", nested([4]int{2, 3, 4, 13}[k%4])}
	switch vsym.Choose("shape", 3) {
	case 0:
		jsonTrip(propSpec{kind: pBlock, sub: []fieldSpec{{key, p}}})
	case 1:
		vsym.Assume(key != "x")
		vsym.Assume(key != "z")
		jsonTrip(propSpec{kind: pBlock, sub: []fieldSpec{{key, propSpec{kind: pBlock, sub: []fieldSpec{{"y", p}}}}, {"x", propSpec{kind: pInt, i: 1}}, {"z", propSpec{kind: pBool}}}})
	case 2:
		jsonTrip(propSpec{kind: pBlock, sub: []fieldSpec{{"first", p}, second}})
	}
}

// whole says whether every part of a property is there.
func whole(p metadata.Property) bool {
	if p == nil {
		return false
	}
	if m, ok := p.(metadata.MetadataProperty); ok {
		for _, v := range m.Block().Mapping() {
			if !whole(v) {
				return false
			}
		}
	}
	p.Data()
	p.Code()
	return true
}

var jsonKinds = [11]int{pString, pInt, pFloat, pBool, pByte, pVec2, pVec3, pBlock, pInts, pBytes, pBools}

var atoms = [22]string{"null", "true", "0", "-7", "1.5", "1e6", "3000000000", "1e300", "1e400", "\"\"", "\"s\"", "\"0x\"", "\"0xf\"", "\"0x0f\"", "\"0x0f0f\"", "\"0xzz\"", "\"2020-01-02T03:04:05Z\"",
	"[]", "{}", "[null]", "\"a\\\"b\\\\\\n\"", "{\"x\":null,\"y\":1}"}

// jsonValue is a JSON value of depth up to 2: one of 22, or an array of two, or an object of up to three with keys x, y, z.
func jsonValue() string {
	a := atoms[vsym.Choose("first", 22)]
	shape := vsym.Choose("shape", 7)
	if shape == 0 {
		return a
	}
	if shape == 1 {
		return "[" + a + "]"
	}
	if shape == 2 {
		return "{\"x\":" + a + "}"
	}
	b := atoms[vsym.Choose("second", 22)]
	switch shape {
	case 3:
		return "[" + a + ", " + b + "]"
	case 4:
		return "{\"x\":" + a + ",\"y\":" + b + "}"
	case 5:
		return "{\"x\":" + a + ",\"y\":1,\"z\":" + b + "}"
	}
	return "{\"k\":[{\"x\":" + a + "},[" + b + "]]}"
}

// Any of 2,000 JSON values read as each of 11 kinds, at the top or within a block.
//v: reach=read,refused cases=11
func C20_any() {
	v := jsonValue()
	kind := jsonKinds[vsym.Case(11)]
	if vsym.Choose("wrap", 2) == 1 {
		v = "{\"key\": " + v + "}"
	}
	p, err := readAs(kind, []byte(v))
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(whole(p), "no missing parts")
	vsym.Reach("read")
}

// Any text of up to 2 (thorough: 3) bytes read as each of 11 kinds.
//v: reach=refused cases=11
func C20_bytes() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	p, err := readAs(jsonKinds[vsym.Case(11)], vsym.Bytes("data", vsym.Choose("n", n)))
	if err != nil {
		vsym.Reach("refused")
		return
	}
	vsym.Assert(whole(p), "no missing parts")
}

var micros = [8]int64{0, 1, -1, 1600000000123456, -62135596800000000, 9223372036854776, 32503680000000000, -9223372036854776}

// Eight times from the year 1 to the year 3000, of microsecond precision, at the top and within a block.
//v: reach=read
func C20_times() {
	p := propSpec{kind: pTime, us: micros[vsym.Choose("time", 8)]}
	if vsym.Choose("shape", 2) == 1 {
		p = propSpec{kind: pBlock, sub: []fieldSpec{{"a", p}, {"b", propSpec{kind: pTimes, elems: []propSpec{p}}}}}
	}
	jsonTrip(p)
}

// JSON values of each type, and the reader of each kind: what cannot be read as the kind is refused, what fits is not.
//v: reach=read,refused cases=12
func C20_kinds() {
	const (
		text = 1 << iota
		whole32
		number
		boolean
		object
		octet
		moment
		list
		hexes
		flags
	)
	values := []struct {
		json string
		is   int
	}{
		{"\"s\"", text}, {"\"\"", text}, {"\"12\"", text | octet}, {"\"true\"", text}, {"\"null\"", text}, {"0", whole32 | number}, {"-2147483648", whole32 | number},
		{"2147483647", whole32 | number}, {"2147483648", number}, {"1.5", number}, {"1e300", 0}, {"1e400", 0}, {"true", boolean}, {"false", boolean},
		{"[]", list}, {"[1,2]", list}, {"[1,2.5,3]", list}, {"{\"x\":1,\"y\":2,\"z\":3}", object}, {"{\"x\":\"1\",\"y\":true,\"z\":[]}", 0}, {"", 0}, {"{", 0}, {"1 2", 0},
		{"\"0x0f\"", text | octet | hexes}, {"\"0x\"", text | hexes}, {"\"0xf00d\"", text | hexes}, {"\"0xf\"", text}, {"\"0xzz\"", text}, {"\"2020-02-29T23:59:59.123456Z\"", text | moment},
		{"\"2020-02-29T23:59:59+02:00\"", text | moment}, {"\"2021-02-29T23:59:59Z\"", text}, {"\"2020-01-02\"", text}, {"[true,false]", flags}, {"[false]", flags}, {"[true,1]", 0}, {"[1,true]", 0},
		{"[1,\"a\"]", 0}, {"[\"a\",\"b\"]", list}, {"[[1]]", 0}, {"[{\"a\":1},{}]", list}, {"[{\"x\":1,\"y\":2},{}]", 0}, {"[{\"x\":1,\"y\":2},{\"y\":0,\"x\":-1}]", list}, {"[\"0x01\",\"0x02\"]", list},
		{"[\"0x0102\"]", 0}, {"[\"0xz\"]", 0}, {"[3000000000]", 0}, {"{\"a\":null}", 0}, {"{\"a\":[1,\"s\"]}", 0}, {"{\"a\":{\"b\":\"0xzz\"}}", 0}, {"{\"a\":3000000000}", 0}, {"{\"a\":1e300}", 0},
	}
	k := vsym.Case(12)
	kind := [12]int{pString, pInt, pFloat, pBool, pVec2, pVec3, pBlock, pByte, pTime, pInts, pBytes, pBools}[k]
	v := values[vsym.Choose("value", len(values))]
	if (kind == pVec2 || kind == pVec3) && v.is == 0 && len(v.json) > 4 && v.json[:4] == "{\"a\"" {
		return // objects without x and y
	}
	fits := v.is&[12]int{text, whole32, number, boolean, object, object, object, octet, moment, list, hexes | flags, hexes | flags}[k] != 0
	if v.json == "{\"x\":\"1\",\"y\":true,\"z\":[]}" {
		fits = kind == pBlock
	}
	p, err := readAs(kind, []byte(v.json))
	if !fits {
		vsym.Assert(err != nil, "what is no value of the kind is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil && whole(p), "a value of the kind is read")
	vsym.Reach("read")
}
