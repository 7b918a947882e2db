package main

import (
	"math"
	"strconv"

	"github.com/recolude/rap/internal/vsym"
)

// A reader of BSON documents, from the BSON specification.

type bsonElem struct {
	t    byte
	key  string
	data []byte
}

func bsonInt(b []byte) int {
	return int(int32(uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24))
}

func bsonWide(b []byte) uint64 {
	return uint64(uint32(bsonInt(b))) | uint64(uint32(bsonInt(b[4:])))<<32
}

// bsonSize is the size of a value of type t at the start of b, -1 if there is none.
func bsonSize(t byte, b []byte) int {
	size := -1
	switch t {
	case 1, 9, 0x12:
		size = 8
	case 2, 3, 4, 5:
		if len(b) < 4 {
			return -1
		}
		size = bsonInt(b)
		if t == 2 {
			size += 4
		} else if t == 5 {
			size += 5
		}
	case 8:
		size = 1
	case 0x10:
		size = 4
	case 0x0a:
		size = 0
	}
	if size > len(b) || size < 0 {
		return -1
	}
	return size
}

// bsonDoc takes a document apart; everything must be accounted for.
func bsonDoc(b []byte) (out []bsonElem, ok bool) {
	if len(b) < 5 || bsonInt(b) != len(b) || b[len(b)-1] != 0 {
		return nil, false
	}
	b = b[4 : len(b)-1]
	for len(b) > 0 {
		t := b[0]
		b = b[1:]
		n := 0
		for n < len(b) && b[n] != 0 {
			n++
		}
		if n == len(b) {
			return nil, false
		}
		key := string(b[:n])
		b = b[n+1:]
		size := bsonSize(t, b)
		if size < 0 {
			return nil, false
		}
		out = append(out, bsonElem{t, key, b[:size]})
		b = b[size:]
	}
	return out, true
}

func bsonFloat(e bsonElem, want float64) bool {
	return e.t == 1 && len(e.data) == 8 && vsym.SameF64(math.Float64frombits(bsonWide(e.data)), want)
}

func bsonNumbers(e bsonElem, keys string, want ...float64) bool {
	es, ok := bsonDoc(e.data)
	if e.t != 3 || !ok || len(es) != len(want) {
		return false
	}
	same := true
	for i, x := range es {
		if x.key != keys[i:i+1] {
			return false
		}
		same = vsym.And(same, bsonFloat(x, want[i]))
	}
	return same
}

// bsonIs compares an element's value with a property.
func bsonIs(e bsonElem, want propSpec) bool {
	switch want.kind {
	case pString:
		n := len(want.s)
		return e.t == 2 && len(e.data) == n+5 && bsonInt(e.data) == n+1 && e.data[n+4] == 0 && vsym.EqBytes(e.data[4:n+4], []byte(want.s))
	case pInt:
		return e.t == 0x10 && bsonInt(e.data) == int(want.i)
	case pFloat:
		return bsonFloat(e, float64(want.f))
	case pBool:
		return e.t == 8 && (e.data[0] == 1) == want.b && e.data[0] < 2
	case pByte:
		return e.t == 0x10 && bsonInt(e.data) == int(want.by)
	case pVec2:
		return bsonNumbers(e, "xy", want.x, want.y)
	case pVec3:
		return bsonNumbers(e, "xyz", want.x, want.y, want.z)
	case pTime: // to the millisecond
		ms := int64(bsonWide(e.data))
		return e.t == 9 && vsym.And(ms*1000 <= want.us, want.us-ms*1000 < 1000)
	case pBlock:
		return e.t == 3 && bsonBlock(e.data, want.sub)
	case pBytes:
		n := len(want.elems)
		if e.t != 5 || len(e.data) != n+5 || bsonInt(e.data) != n {
			return false
		}
		same := e.data[4] == 0
		for i, w := range want.elems {
			same = vsym.And(same, e.data[5+i] == w.by)
		}
		return same
	}
	es, ok := bsonDoc(e.data)
	if e.t != 4 || !ok || len(es) != len(want.elems) {
		return false
	}
	same := true
	for i, x := range es {
		w := want.elems[i]
		w.kind = want.kind - 13
		if x.key != strconv.Itoa(i) {
			return false
		}
		same = vsym.And(same, bsonIs(x, w))
	}
	return same
}

func bsonBlock(b []byte, want []fieldSpec) bool {
	es, ok := bsonDoc(b)
	if !ok || len(es) != len(want) {
		return false
	}
	for _, f := range want {
		found := false
		for _, e := range es {
			if sameStr(e.key, f.key) {
				found = true
				if !bsonIs(e, f.p) {
					return false
				}
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func bsonTrip(fs []fieldSpec) {
	w, ok := mkProp(propSpec{kind: pBlock, sub: fs}).(interface{ MarshalBSON() ([]byte, error) })
	vsym.Assert(ok, "can be written")
	b, err := w.MarshalBSON()
	vsym.Assert(err == nil, "written")
	if err != nil {
		return
	}
	_, ok = bsonDoc(b)
	vsym.Assert(ok, "well-formed")
	vsym.Assert(bsonBlock(b, fs), "the same keys and values")
	vsym.Reach("read")
}

// someTime is one of the microseconds from -32768 to 32767, or one of 8 times from the year 1 to 3000.
func someTime() int64 {
	k := vsym.Choose("time", 9)
	if k == 8 {
		return int64(int16(vsym.U16("time")))
	}
	return micros[k]
}

// Every value of each of 18 kinds of property (texts of 2 bytes, arrays of 0 to 2; times around 1970 within 16 bits of microseconds, or one of 8), under a key of one symbolic byte, beside a second entry, at the top or in a nested block.
//v: reach=read cases=18
func C29_values() {
	var p propSpec
	if k := vsym.Case(18); k == 17 {
		p = propSpec{kind: pBlocks, elems: []propSpec{{kind: pBlock, sub: []fieldSpec{{"a", symProp(pInt)}}}, {kind: pBlock}}}
	} else if kind := allKinds[k]; kind == pBlock {
		p = propSpec{kind: pBlock, sub: []fieldSpec{{"a", symProp(pString)}, {"b", symProp(pByte)}}}
	} else if kind >= pStrings {
		p = symArray(kind, vsym.Choose("n", 3))
	} else {
		p = symProp(kind)
	}
	if p.kind == pTime {
		p.us = someTime()
	}
	if p.kind == pTimes {
		for i := range p.elems {
			p.elems[i].us = int64(1000*i) - 1
			if i == 0 {
				p.elems[i].us = someTime()
			}
		}
	}
	key := vsym.Bytes("key", 1)
	vsym.Assume(key[0] != 0)
	vsym.Assume(key[0] != 's')
	fs := []fieldSpec{{string(key), p}, {"s", propSpec{kind: pBool, b: true}}}
	if vsym.Choose("nested", 2) == 1 {
		fs = []fieldSpec{{"outer", propSpec{kind: pBlock, sub: fs}}}
	}
	bsonTrip(fs)
}

// Keys that cannot be stored: any key of two bytes either is kept or refused.
//v: reach=read,refused
func C29_keys() {
	key := vsym.Str("key", 2)
	fs := []fieldSpec{{key, propSpec{kind: pString, s: vsym.Str("text", 1)}}}
	b, err := mkProp(propSpec{kind: pBlock, sub: fs}).(interface{ MarshalBSON() ([]byte, error) }).MarshalBSON()
	if err != nil {
		vsym.Assert(vsym.Or(key[0] == 0, key[1] == 0), "refused for no reason")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(bsonBlock(b, fs), "the same keys and values")
	vsym.Reach("read")
}

// Blocks of 0 to 4 (thorough: 6) entries, each with a symbolic 32-bit value.
//v: reach=read
func C29_sizes() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	var fs []fieldSpec
	for i := vsym.Choose("n", n); i > 0; i-- {
		fs = append(fs, fieldSpec{string([]byte{byte('a' + i)}), symProp([2]int{pInt, pFloat}[i%2])})
	}
	bsonTrip(fs)
}
