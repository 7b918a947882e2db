package main

import (
	"bytes"
	"io"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

// A stream that delivers its content in pieces.
type pieces struct {
	b       []byte
	pos     int
	one     bool // a byte at a time
	split   int  // never read across this position
	every   int  // at most so many bytes at a time
	withEOF bool // the end is reported together with the last bytes
	idle    bool // every other read delivers nothing
	idled   bool
}

func (p *pieces) Read(out []byte) (int, error) {
	if len(out) == 0 {
		return 0, nil
	}
	if p.idle && !p.idled {
		p.idled = true
		return 0, nil
	}
	p.idled = false
	if p.pos >= len(p.b) {
		return 0, io.EOF
	}
	end := len(p.b)
	if p.pos < p.split {
		end = p.split
	}
	if p.one {
		end = p.pos + 1
	}
	if p.every > 0 && end > p.pos+p.every {
		end = p.pos + p.every
	}
	n := copy(out, p.b[p.pos:end])
	p.pos += n
	if p.withEOF && p.pos == len(p.b) {
		return n, io.EOF
	}
	return n, nil
}

// deliveries calls f with every way of delivering b: byte by byte, split at any position, each with the end alone or
// together with the last bytes, and with reads that deliver nothing in between.
func deliveries(b []byte, f func(io.Reader)) {
	each := func(mode, split int) {
		f(&pieces{b: b, one: mode < 4, split: split, withEOF: mode&1 == 1, idle: mode&2 == 2})
	}
	if vsym.Native() {
		for mode := 0; mode < 8; mode++ {
			for split := 0; split == 0 || mode >= 4 && split < len(b); split++ {
				each(mode, split)
			}
		}
		return
	}
	mode, split := vsym.Choose("delivery", 8), 0
	if mode >= 4 {
		split = vsym.Choose("split", len(b))
	}
	each(mode, split)
}

type readResult struct {
	rec format.Recording
	n   int
	err error
}

func sameOutcome(b []byte, want recSpec, read func(io.Reader) (format.Recording, int, error)) {
	_, wantN, wantErr := read(bytes.NewReader(b))
	deliveries(b, func(r io.Reader) {
		rec, n, err := read(r)
		vsym.Assert((err == nil) == (wantErr == nil), "success does not depend on the delivery")
		if err == nil {
			vsym.Assert(equalRec(rec, want), "the recording does not depend on the delivery")
			vsym.Assert(n == wantN, "the count does not depend on the delivery")
			vsym.Reach("same")
		} else {
			vsym.Reach("failed")
		}
	})
}

func readerOf(r io.Reader) (format.Recording, int, error) {
	return rapio.NewReader(fullEncoders(), r).Read()
}

// Full-precision files of 10 shapes, half of them compressed (thorough: all of them also the other way), in every delivery.
//v: reach=same cases=10 tcases=20
func C06_full() {
	k := vsym.Case(20)
	want := plainNames(cutTree(k % 10))
	sameOutcome(writeFull(mkRec(want), (k%2 == 0) == (k >= 10)), want, readerOf)
}

// The same with 32-bit and 16-bit times and values (compact techniques).
//v: reach=same cases=6
func C06_compact() {
	k := vsym.Case(6)
	want := recSpec{id: "i", name: "n"}
	for i, kind := range []int{cPos, cEuler, cFloat} {
		c := collSpec{kind: kind, name: vsym.Str("coll", 1)}
		for j := 0; j < (k+i)%4; j++ {
			c.caps = append(c.caps, capSpec{t: float64(j), x: float64(j * 3), y: float64(i - j), z: 7})
		}
		want.colls = append(want.colls, c)
	}
	want.bins = []binSpec{{name: "b", data: []byte{1, 2, 3}}}
	var out bytes.Buffer
	_, err := rapio.NewWriter(compactEncoders(k), false, &out, [2]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32}[k/3]).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	read := func(r io.Reader) (format.Recording, int, error) {
		return rapio.NewReader(compactEncoders(k), r).Read()
	}
	first, _, err := read(bytes.NewReader(out.Bytes()))
	vsym.Assert(err == nil, "reading back succeeds")
	for i := range want.colls {
		want.colls[i].caps = capsOf(first.CaptureCollections()[i])
	}
	sameOutcome(out.Bytes(), want, read)
}

// Cut-off files: an error in every delivery.
//v: reach=failed cases=5
func C06_cut() {
	k := vsym.Case(5)
	want := plainNames(cutTree(k + 5))
	b := writeFull(mkRec(want), false)
	sameOutcome(b[:len(b)*[5]int{1, 3, 5, 7, 9}[vsym.Choose("cut", 5)]/10], want, readerOf)
}

// Version-1 files, whole.
//v: reach=same
func C06_v1() {
	r := v1Rec{name: asciiStr("name", 1), subjects: []v1Subject{{id: 3, name: "s", pos: []v1Vec{{t: 1, x: vsym.F32("x")}}}}}
	b := v1File(r.message())
	first, _, err := rapio.Load(bytes.NewReader(b))
	vsym.Assert(err == nil, "a version-1 file is read")
	want := specOf(first)
	sameOutcome(b, want, rapio.Load)
}

// One metadata property of every type, read directly from the stream.
//v: reach=same
func C06_property() {
	kind := allKinds[vsym.Choose("kind", 17)]
	p := symProp(kind)
	if kind >= 13 {
		p = symArray(kind, 2)
	}
	if kind == pBlock {
		p.sub = []fieldSpec{{"k", symProp(pByte)}, {"l", symProp(pString)}}
	}
	b := append([]byte{refCode(p)}, refData(p)...)
	deliveries(b, func(r io.Reader) {
		got, err := metadata.ReadProperty(r)
		vsym.Assert(err == nil, "a property is read from any stream")
		vsym.Assert(sameProp(got, p), "the property does not depend on the delivery")
		vsym.Reach("same")
	})
}
