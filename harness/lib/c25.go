package main

import (
	"errors"
	"bytes"
	"io"

	"github.com/recolude/rap/format/encoding"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// A stream that knows how much of it was taken, and gives at most a few bytes at a time.
type counted struct {
	in    *bytes.Reader
	most  int
	taken int
}

func (c *counted) Read(p []byte) (int, error) {
	if c.most > 0 && len(p) > c.most {
		p = p[:c.most]
	}
	n, err := c.in.Read(p)
	c.taken += n
	return n, err
}

// countTrip writes the recordings one after the other, uncompressed, then some bytes that are no recording, and reads all of
// it back from one stream.
func countTrip(wants []recSpec, encs []encoding.Encoder, tech rapio.TimeStorageTechnique, exact bool) {
	var out bytes.Buffer
	var wrote []int
	for _, w := range wants {
		before := out.Len()
		n, err := rapio.NewWriter(encs, false, &out, tech).Write(mkRec(w))
		vsym.Assert(err == nil, "writing succeeds")
		vsym.Assert(n == out.Len()-before, "the count of writing is the number of bytes delivered")
		wrote = append(wrote, n)
	}
	tail := vsym.Bytes("tail", 3)
	out.Write(tail)
	in := &counted{in: bytes.NewReader(out.Bytes()), most: [3]int{0, 1, 5}[vsym.Choose("pieces", 3)]}
	for i := range wants {
		before := in.taken
		rec, n, err := rapio.NewReader(encs, in).Read()
		vsym.Assert(err == nil && rec != nil, "reading back succeeds")
		vsym.Assert(n == in.taken-before, "the count of reading is the number of bytes consumed")
		vsym.Assert(n == wrote[i], "reading counts what writing counted")
		checkRec(rec, wants[i], exact)
	}
	rest, err := io.ReadAll(in)
	vsym.Assert(err == nil && vsym.EqBytes(rest, tail), "what follows the recordings is untouched")
	vsym.Reach("compared")
}

// Full-precision files with every part of a recording, in 10 shapes, alone or followed by another in the same stream.
//v: reach=compared cases=10
func C25_full() {
	k := vsym.Case(10)
	wants := []recSpec{plainNames(cutTree(k))}
	if vsym.Choose("recordings", 2) == 1 {
		wants = append(wants, plainNames(cutTree((k+3)%10)))
	}
	countTrip(wants, fullEncoders(), rapio.Raw64, true)
}

// Files of the compact techniques with 0 to 3 captures per collection.
//v: reach=compared cases=9
func C25_compact() {
	k := vsym.Case(9)
	want := recSpec{id: "i", name: vsym.Str("name", 1)}
	for i, kind := range []int{cPos, cEuler, cFloat, cEvent} {
		c := collSpec{kind: kind, name: "c"}
		for j := 0; j < (k+i)%4; j++ {
			c.caps = append(c.caps, capSpec{t: float64(j), x: float64(j * 3), y: float64(i - j), z: 7, name: "e"})
		}
		want.colls = append(want.colls, c)
	}
	want.kids = []recSpec{{id: "k", bins: []binSpec{{name: "b", data: vsym.Bytes("d", 2)}}}}
	countTrip([]recSpec{want, want}, compactEncoders(k), [3]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32, rapio.Raw64}[k/3], false)
}

// Texts, binaries and counts around every varint length boundary, and an empty recording.
//v: reach=compared cases=8
func C25_lengths() {
	n := edgeLens[vsym.Case(8)]
	want := recSpec{}
	switch vsym.Choose("where", 5) {
	case 0:
		want.id = longStr(n)
	case 1:
		want.kids = []recSpec{{name: longStr(n)}}
	case 2:
		want.bins = []binSpec{{name: "b", data: []byte(longStr(n))}}
	case 3:
		want.colls = []collSpec{{kind: cEnum, name: longStr(n)}}
	case 4:
		want.refs = []refSpec{{uri: longStr(n), size: vsym.U64("size") | 1<<63}}
	}
	countTrip([]recSpec{want, {}}, fullEncoders(), rapio.Raw64, true)
}

// Uncompressed files of 10 shapes, cut off after any number of bytes: the count of reading is still what was consumed.
//v: reach=cut cases=10
func C25_cut() {
	k := vsym.Case(10)
	file := writeFull(mkRec(plainNames(cutTree(k))), false)
	in := &counted{in: bytes.NewReader(file[:vsym.Choose("length", len(file))]), most: [2]int{0, 3}[k%2]}
	_, n, err := rapio.NewReader(fullEncoders(), in).Read()
	vsym.Assert(err != nil, "a file cut off is refused")
	vsym.Assert(n == in.taken, "the count of reading is the number of bytes consumed")
	vsym.Reach("cut")
}

// fullAfter takes a number of bytes, then fails.
type fullAfter struct {
	room, got int
}

func (f *fullAfter) Write(p []byte) (int, error) {
	if len(p) > f.room {
		n := f.room
		f.got, f.room = f.got+n, 0
		return n, errNoRoom
	}
	f.got, f.room = f.got+len(p), f.room-len(p)
	return len(p), nil
}

var errNoRoom = errors.New("no room")

// Uncompressed files of 10 shapes into an output that fails after any number of bytes: the count of writing is still what
// was delivered.
//v: reach=failed cases=10
func C25_failed() {
	rec := mkRec(plainNames(cutTree(vsym.Case(10))))
	size := len(writeFull(rec, false))
	out := &fullAfter{room: vsym.Choose("room", size)}
	n, err := rapio.NewWriter(fullEncoders(), false, out, rapio.Raw64).Write(rec)
	vsym.Assert(err != nil, "the failure is reported")
	vsym.Assert(n == out.got, "the count of writing is the number of bytes delivered")
	vsym.Reach("failed")
}

// Compressed files of 10 shapes: reading counts what writing counted.
//v: reach=compared cases=10
func C25_compressed() {
	k := vsym.Case(10)
	want := plainNames(cutTree(k))
	var out bytes.Buffer
	wrote, err := rapio.NewWriter(fullEncoders(), true, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	_, n, err := rapio.NewReader(fullEncoders(), &counted{in: bytes.NewReader(out.Bytes()), most: vsym.Choose("pieces", 2)}).Read()
	vsym.Assert(err == nil, "reading back succeeds")
	vsym.Assert(n == wrote, "reading counts what writing counted")
	vsym.Reach("compared")
}

// versioned is an encoder with a version of its own.
type versioned struct {
	encoding.Encoder
	v uint
}

func (v versioned) Version() uint { return v.v }

// Encoders of any version of up to 64 bits.
//v: reach=compared
func C25_versions() {
	encs := fullEncoders()
	for i, e := range encs {
		encs[i] = versioned{e, uint(i)}
	}
	encs[2] = versioned{encs[2], uint(vsym.U64("version"))}
	countTrip([]recSpec{{id: "i", colls: []collSpec{{kind: cPos, name: "p"}, {kind: cEnum, name: "e"}}}}, encs, rapio.Raw64, true)
}

// Version-1 files of 4 shapes followed by other bytes.
//v: reach=compared cases=4
func C25_v1() {
	b := v1File(v1Small(vsym.Case(4)).message())
	tail := vsym.Bytes("tail", 2)
	in := &counted{in: bytes.NewReader(append(append([]byte{}, b...), tail...)), most: vsym.Choose("pieces", 2)}
	_, n, err := rapio.Load(in)
	vsym.Assert(err == nil, "reading succeeds")
	vsym.Assert(n == in.taken && n == len(b), "the count of reading is the number of bytes consumed")
	vsym.Reach("compared")
}
