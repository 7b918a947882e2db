package main

import (
	"bytes"
	"errors"
	"io"
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

func written(r recSpec, encs []encoding.Encoder, tech rapio.TimeStorageTechnique, compress bool) []byte {
	var out bytes.Buffer
	_, err := rapio.NewWriter(encs, compress, &out, tech).Write(mkRec(r))
	vsym.Assert(err == nil, "writing succeeds")
	return out.Bytes()
}

func readWith(b []byte, encs []encoding.Encoder) format.Recording {
	rec, _, err := rapio.NewReader(encs, bytes.NewReader(b)).Read()
	vsym.Assert(err == nil && rec != nil, "reading succeeds")
	return rec
}

// byName finds a collection anywhere in a tree.
func byName(r format.Recording, name string) format.CaptureCollection {
	for _, c := range r.CaptureCollections() {
		if c.Name() == name {
			return c
		}
	}
	for _, k := range r.Recordings() {
		if c := byName(k, name); c != nil {
			return c
		}
	}
	return nil
}

// sameNumbers compares two collections of numbers.
func sameNumbers(kind int, a, b format.CaptureCollection) bool {
	if a == nil || b == nil || a.Length() != b.Length() || a.Signature() != b.Signature() {
		return false
	}
	ok := true
	if kind == cEnum {
		x, y := a.Captures(), b.Captures()
		for i := range x {
			ok = vsym.And(ok, vsym.SameF64(x[i].Time(), y[i].Time()))
		}
		return ok
	}
	for axis := 0; axis < axesOf(kind); axis++ {
		at, av := nums(a, axis)
		bt, bv := nums(b, axis)
		for i := range at {
			ok = vsym.And(ok, vsym.And(vsym.SameF64(at[i], bt[i]), vsym.SameF64(av[i], bv[i])))
		}
	}
	return ok
}

// beside puts a collection among others: alone, before, after or between them, in the same recording, a sub-recording
// or a sibling of one.
func beside(a collSpec, others []collSpec, how int) recSpec {
	switch how {
	case 0:
		return recSpec{id: "i", name: "n", colls: append([]collSpec{a}, others...)}
	case 1:
		return recSpec{id: "i", name: "n", colls: append(append([]collSpec{}, others...), a)}
	case 2:
		return recSpec{id: "i", name: "n", colls: append(append(append([]collSpec{}, others...), a), others...), meta: []fieldSpec{{"key", propSpec{kind: pInt, i: 7}}}}
	case 3:
		return recSpec{id: "i", name: "n", colls: others, kids: []recSpec{{id: "k", colls: []collSpec{a}}}}
	case 4:
		return recSpec{id: "i", name: "n", colls: []collSpec{a}, kids: []recSpec{{id: "k", colls: others}}}
	}
	return recSpec{id: "i", name: "n", kids: []recSpec{{id: "j", colls: others, bins: []binSpec{{name: "b", data: []byte{1, 2, 3}}}}, {id: "k", kids: []recSpec{{id: "l", colls: []collSpec{a}}}}, {id: "m", colls: others}}}
}

// sorted assumes chronological times.
func sorted(c collSpec) collSpec {
	for i := 1; i < len(c.caps); i++ {
		vsym.Assume(c.caps[i].t >= c.caps[i-1].t)
	}
	return c
}

// A collection of 2 to 4 positions, rotations, floats or enum values at any numbers that are multiples of 1/1024 within 1000,
// alone in a file, and in six places of a file beside one or two other collections of any such numbers, in three sets of techniques.
//v: mode=real reach=compared cases=12
func C31_beside() {
	k := vsym.Case(12)
	kind := [4]int{cPos, cEuler, cFloat, cEnum}[k%4]
	set := k / 4
	tech := [3]rapio.TimeStorageTechnique{rapio.BST16, rapio.BST16, rapio.Raw32}[set]
	a := sorted(lossyColl(kind, "the one", 2+k%3, lossy))
	b := sorted(lossyColl(kind, "b", 2, lossy))
	c := sorted(lossyColl([4]int{cEuler, cFloat, cPos, cEuler}[k%4], "c", 2, lossy))
	others := [3][]collSpec{{b}, {c}, {b, c}}[vsym.Choose("others", 3)]
	encs := compactEncoders(set)
	alone := byName(readWith(written(recSpec{id: "x", colls: []collSpec{a}}, encs, tech, false), encs), "the one")
	among := byName(readWith(written(beside(a, others, vsym.Choose("place", 6)), encs, tech, vsym.Choose("compress", 2) == 1), encs), "the one")
	vsym.Assert(sameNumbers(kind, alone, among), "read back the same beside others as alone")
	vsym.Reach("compared")
}

var oddNumbers = [6]float64{0, 1e300, -1e9, math.Inf(1), math.NaN(), 4e-320}

// Collections of fixed numbers beside ones of huge, infinite, undefined or tiny numbers, of any kind and in any place.
//v: reach=compared cases=16
func C31_extremes() {
	k := vsym.Case(16)
	kind := [4]int{cPos, cEuler, cFloat, cEnum}[k%4]
	other := [4]int{cPos, cEuler, cFloat, cEnum}[k/4]
	a := collSpec{kind: kind, name: "the one"}
	for i := 0; i < 4; i++ {
		a.caps = append(a.caps, capSpec{t: float64(i*i) / 4, x: float64(3*i - 4), y: float64(i*i) * 7.25, z: -float64(i)})
	}
	b := collSpec{kind: other, name: "b"}
	x := oddNumbers[vsym.Choose("number", 6)]
	for i := 0; i < 3; i++ {
		b.caps = append(b.caps, capSpec{t: float64(i), x: x * float64(i-1), y: x, z: float64(i)})
	}
	if vsym.Choose("time", 2) == 1 && x == x {
		b.caps[0].t, b.caps[2].t = -math.Abs(x), math.Abs(x)
	}
	set := vsym.Choose("set", 3)
	tech := [3]rapio.TimeStorageTechnique{rapio.BST16, rapio.BST16, rapio.Raw32}[set]
	encs := compactEncoders(set)
	alone := byName(readWith(written(recSpec{id: "x", colls: []collSpec{a}}, encs, tech, false), encs), "the one")
	among := byName(readWith(written(beside(a, []collSpec{b}, vsym.Choose("place", 6)), encs, tech, false), encs), "the one")
	vsym.Assert(sameNumbers(kind, alone, among), "read back the same beside others as alone")
	vsym.Reach("compared")
}

// idle is a registered encoder the file has no use for.
type idle struct {
	encoding.Encoder
	sig string
}

func (i idle) Signature() string                            { return i.sig }
func (i idle) Version() uint                                { return 0 }
func (i idle) Accepts(stream format.CaptureCollection) bool { return false }
func (i idle) Encode([]format.CaptureCollection) ([]byte, [][]byte, error) {
	return nil, nil, errors.New("not for you")
}
func (i idle) Decode(string, []byte, []byte, []float64) (format.CaptureCollection, error) {
	return nil, errors.New("not for you")
}

// Recordings of 10 shapes written and read with the encoders in any of 5 rotations (each side its own), with and without up
// to three more around them that accept nothing.
//v: reach=compared cases=10
func C31_registered() {
	k := vsym.Case(10)
	want := plainNames(layoutTree(k, 1))
	with := func(r, extra int) []encoding.Encoder {
		encs := rotated(fullEncoders(), r)
		for i, sig := range []string{"", "recolude.positio", "recolude.positionx"}[:extra] {
			at := (2*i + r) % len(encs)
			encs = append(encs[:at:at], append([]encoding.Encoder{idle{sig: sig}}, encs[at:]...)...)
		}
		return encs
	}
	b := written(want, with(k%5, 3*vsym.Choose("idle writing", 2)), rapio.Raw64, false)
	checkRec(readWith(b, with(vsym.Choose("read", 5), k%4)), want, true)
	vsym.Reach("compared")
}

// settled fixes the numbers that are stored in a varying number of bytes and the bools, which would only multiply the paths.
func settled(r recSpec) recSpec {
	r = plainNames(r)
	for i := range r.refs {
		r.refs[i].size = 300
		r.refs[i].meta = []fieldSpec{{"refkey", propSpec{kind: pBool, b: i == 0}}}
	}
	for i, m := range r.meta {
		if m.p.kind == pBool {
			r.meta[i].p.b = true
		}
	}
	return r
}

// trouble does with the encoders what ends in an error: 0 nothing, 1 a write to a stream that fails, 2 reading a file cut short,
// 3 writing a binary that cannot be written, 4 reading damaged data, 5 to 9 writing collections of which the last capture is of
// another kind (perhaps after a good one).
func trouble(how int, encs []encoding.Encoder, tech rapio.TimeStorageTechnique) {
	if how == 0 {
		return
	}
	r := recSpec{id: "t", name: "trouble", meta: []fieldSpec{{"key", propSpec{kind: pString, s: "other"}}}}
	for kind := 0; kind < 5; kind++ {
		c := collSpec{kind: kind, name: "c", members: []string{"m", "n"}}
		for i := 0; i < 3; i++ {
			s := capSpec{t: float64(i), x: float64(i), y: 500, z: -9, v: i % 2}
			if kind == cEvent {
				s = capSpec{t: float64(i), name: "event", meta: []fieldSpec{{"k", propSpec{kind: pInt, i: 1}}}}
			}
			c.caps = append(c.caps, s)
		}
		r.colls = append(r.colls, c)
	}
	switch how {
	case 1:
		_, err := rapio.NewWriter(encs, false, &failWriter{left: 90}, tech).Write(mkRec(r))
		vsym.Assert(err != nil, "refused")
	case 2:
		b := written(r, encs, tech, false)
		_, _, err := rapio.NewReader(encs, bytes.NewReader(b[:len(b)-5])).Read()
		vsym.Assert(err != nil, "refused")
	case 3:
		r.kids = []recSpec{{id: "k", bins: []binSpec{{name: "b", data: []byte{1}}}}}
		bad := format.NewRecording("i", "n", mkRec(r).CaptureCollections(), nil, mkBlock(nil), []format.Binary{brokenBinary{}}, nil)
		_, err := rapio.NewWriter(encs, false, io.Discard, tech).Write(bad)
		vsym.Assert(err != nil, "refused")
	case 4:
		b := written(r, encs, tech, false)
		b[len(b)-1] = 200
		_, _, err := rapio.NewReader(encs, bytes.NewReader(b)).Read()
		vsym.Assert(err != nil, "refused")
	default:
		good := mkRec(r).CaptureCollections()
		kind := how - 5
		bad := format.NewRecording("i", "n", []format.CaptureCollection{good[(kind+1)%5], good[kind], oddOne{good[kind], 2, good[(kind+1)%5].CaptureAt(0)}}, nil, mkBlock(nil), nil, nil)
		_, err := rapio.NewWriter(encs, false, io.Discard, tech).Write(bad)
		vsym.Assert(err != nil, "refused")
	}
}

type brokenBinary struct{ rapio.Binary }

func (brokenBinary) Name() string    { return "b" }
func (brokenBinary) Size() uint64    { return 3 }
func (brokenBinary) Data() io.Reader { return bytes.NewReader([]byte{1}) }

// Two recordings of 10 shapes written with one set of encoders, whole or around an operation that fails (9 kinds), and read
// in either order with another set shared in the same way.
//v: reach=compared cases=10
func C32_encoders() {
	k := vsym.Case(10)
	a, b := settled(layoutTree(k, 1)), settled(layoutTree((k+2)%10, 2))
	encs, decs := fullEncoders(), fullEncoders()
	if k%4 < 2 {
		decs = encs
	}
	compress := k%2 == 1
	first := vsym.Choose("trouble", 10)
	fa := written(a, encs, rapio.Raw64, compress)
	trouble(first, encs, rapio.Raw64)
	fb := written(b, encs, rapio.Raw64, compress)
	trouble((first+k)%10, decs, rapio.Raw64)
	if vsym.Choose("order", 2) == 0 {
		ra := readWith(fa, decs)
		checkRec(readWith(fb, decs), b, true)
		checkRec(ra, a, true)
	} else {
		rb := readWith(fb, decs)
		checkRec(readWith(fa, decs), a, true)
		checkRec(rb, b, true)
	}
	vsym.Reach("compared")
}

// The same with the compact techniques, positions, rotations and floats at any numbers that are multiples of 1/1024 within 1000:
// the numbers read are those a fresh set gives.
//v: mode=real reach=compared cases=9
func C32_compact() {
	k := vsym.Case(9)
	kind := [3]int{cPos, cEuler, cFloat}[k%3]
	tech := [3]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32, rapio.BST16}[k/3]
	a := recSpec{id: "a", colls: []collSpec{sorted(lossyColl(kind, "the one", 2, lossy))}}
	b := recSpec{id: "b", colls: []collSpec{sorted(lossyColl(kind, "the one", 3, lossy)), sorted(lossyColl(cFloat, "other", 1, lossy))}}
	encs := compactEncoders(k / 3)
	alone := byName(readWith(written(b, compactEncoders(k/3), tech, false), compactEncoders(k/3)), "the one")
	written(a, encs, tech, false)
	first := vsym.Choose("trouble", 10)
	trouble(first, encs, tech)
	again := written(b, encs, tech, false)
	trouble((first+k)%10, encs, tech)
	readWith(written(a, encs, tech, false), encs)
	vsym.Assert(sameNumbers(kind, alone, byName(readWith(again, encs), "the one")), "read back as with fresh encoders")
	vsym.Reach("compared")
}

// One writer used for two recordings of 10 shapes (the second perhaps the same again), compressed or not: the stream holds two whole files.
//v: reach=compared cases=10
func C32_writer() {
	k := vsym.Case(10)
	a := settled(layoutTree(k, 1))
	b := a
	if vsym.Choose("second", 2) == 1 {
		b = settled(layoutTree((k+4)%10, 2))
	}
	var out bytes.Buffer
	w := rapio.NewWriter(fullEncoders(), vsym.Choose("compress", 2) == 1, &out, rapio.Raw64)
	_, err := w.Write(mkRec(a))
	vsym.Assert(err == nil, "the first is written")
	n := out.Len()
	_, err = w.Write(mkRec(b))
	vsym.Assert(err == nil, "the second is written")
	file := out.Bytes()
	checkRec(readWith(file[:n], fullEncoders()), a, true)
	checkRec(readWith(file[n:], fullEncoders()), b, true)
	vsym.Reach("compared")
}
