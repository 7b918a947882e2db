package main

import (
	"bytes"
	"errors"
	"io"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

// Up to two binaries and up to two references on the root, on a child and on its child; contents of 0 to 3 arbitrary
// bytes, any 64-bit reference size, and siblings following them.
//v: reach=compared
func C03_tree() {
	bin := func(n int) binSpec {
		return binSpec{name: vsym.Str("bname", 1), data: vsym.Bytes("data", n), meta: []fieldSpec{{"k", symProp(pByte)}}}
	}
	ref := func(tag string) refSpec {
		return refSpec{name: vsym.Str("rname", 1), uri: vsym.Str("uri", 2), size: vsym.U64("size"), meta: []fieldSpec{{tag, symProp(pInt)}}}
	}
	small := func() refSpec {
		return refSpec{name: vsym.Str("rname", 1), uri: "", size: uint64(vsym.Range("small", 0, 127))}
	}
	want := recSpec{id: "r", name: vsym.Str("n", 1)}
	kid := recSpec{id: "k", name: vsym.Str("n", 1), colls: []collSpec{symColl(cFloat, 1)}}
	grand := recSpec{id: "g", name: vsym.Str("n", 1)}
	na, nb := vsym.Choose("na", 4), vsym.Choose("nb", 4)
	switch vsym.Choose("where", 4) {
	case 0:
		want.bins = []binSpec{bin(na), bin(nb)}
		want.refs = []refSpec{ref("a"), small()}
	case 1:
		want.bins = []binSpec{bin(na)}
		kid.bins = []binSpec{bin(nb)}
		kid.refs = []refSpec{small(), small()}
	case 2:
		kid.bins = []binSpec{bin(na), bin(nb)}
		grand.refs = []refSpec{small()}
	case 3:
		want.refs = []refSpec{small()}
		grand.bins = []binSpec{bin(na), bin(0), bin(nb)}
	}
	kid.kids = []recSpec{grand}
	want.kids = []recSpec{kid, {id: "s", name: vsym.Str("n", 1)}}
	roundTrip(want, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// A reference of any 64-bit size.
//v: reach=compared
func C03_reference_size() {
	want := recSpec{id: "r", refs: []refSpec{{name: "a", uri: vsym.Str("uri", 1), size: vsym.U64("size")}, {name: "b", uri: "v", size: 5}}}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// Binaries of 0 to 40000 bytes (around the varint and copy buffer boundaries), followed by another binary and a child.
//v: reach=compared
func C03_sizes() {
	n := [10]int{0, 127, 128, 129, 511, 512, 513, 16384, 32768, 40000}[vsym.Choose("length", 10)]
	want := recSpec{id: "r", bins: []binSpec{{name: "b", data: []byte(longStr(n))}, {name: "c", data: vsym.Bytes("d", 2)}},
		kids: []recSpec{{id: "k", name: vsym.Str("after", 1)}}}
	roundTrip(want, fullEncoders(), fullEncoders(), vsym.Choose("compress", 2) == 1)
}

// 260 binaries and 260 references.
//v: reach=compared
func C03_many() {
	want := recSpec{id: "r"}
	for i := 0; i < 260; i++ {
		b := binSpec{name: string([]byte{byte('a' + i%26)}), data: []byte{byte(i), byte(i / 2)}[:i%3]}
		r := refSpec{name: string([]byte{byte('a' + i%26)}), uri: "u", size: uint64(i)}
		if i == 0 || i > 126 {
			b.data = vsym.Bytes("d", 2)
			r.uri = vsym.Str("uri", 1)
		}
		want.bins = append(want.bins, b)
		want.refs = append(want.refs, r)
	}
	roundTrip(want, fullEncoders(), fullEncoders(), false)
}

// supplied is a binary as an application may supply one: any stated size, delivered in any pieces.
type supplied struct {
	name string
	size uint64
	in   func() io.Reader
}

func (s supplied) Name() string             { return s.name }
func (s supplied) Size() uint64             { return s.size }
func (s supplied) Metadata() metadata.Block { return mkBlock([]fieldSpec{{"k", propSpec{kind: pByte, by: 3}}}) }
func (s supplied) Data() io.Reader          { return s.in() }

// cutOff fails once its content is delivered.
type cutOff struct{ in pieces }

func (c *cutOff) Read(out []byte) (int, error) {
	n, err := c.in.Read(out)
	if err == io.EOF {
		err = errors.New("device gone")
	}
	return n, err
}

// Binaries supplied by an application, of 0 to 4 bytes delivered in one or several pieces, that state any 64-bit size or whose
// content fails after any of them, on the root or a child, compressed or not.
//v: reach=compared,refused
func C03_supplied() {
	data := vsym.Bytes("data", vsym.Choose("length", 5))
	how := vsym.Choose("delivery", 5)
	b := supplied{name: vsym.Str("bname", 1), size: uint64(len(data))}
	b.in = func() io.Reader {
		p := pieces{b: data, one: how == 1, withEOF: how == 2, idle: how == 3, split: len(data) / 2}
		if how == 4 {
			return &cutOff{in: p}
		}
		return &p
	}
	if vsym.Choose("size", 2) == 1 {
		b.size = vsym.U64("size")
	}
	want := recSpec{id: "r", name: vsym.Str("n", 1), bins: []binSpec{{name: b.name, data: data, meta: []fieldSpec{{"k", propSpec{kind: pByte, by: 3}}}}, {name: "c", data: vsym.Bytes("d", 2)}}}
	after := format.NewRecording("k", "after", nil, nil, mkBlock(nil), nil, nil)
	rec := format.NewRecording("r", want.name, nil, []format.Recording{after}, mkBlock(nil), []format.Binary{b, mkRec(want).Binaries()[1]}, nil)
	want.kids = []recSpec{{id: "k", name: "after"}}
	if vsym.Choose("depth", 2) == 1 {
		rec = format.NewRecording("top", "", nil, []format.Recording{rec, after}, mkBlock(nil), nil, nil)
		want = recSpec{id: "top", kids: []recSpec{want, {id: "k", name: "after"}}}
	}
	var out bytes.Buffer
	_, err := rapio.NewWriter(fullEncoders(), vsym.Choose("compress", 2) == 1, &out, rapio.Raw64).Write(rec)
	if how == 4 || b.size != uint64(len(data)) {
		vsym.Assert(err != nil, "a binary that is not of its stated size is refused")
		vsym.Reach("refused")
		return
	}
	vsym.Assert(err == nil, "written")
	back, err := readFull(out.Bytes())
	vsym.Assert(err == nil, "read")
	checkRec(back, want, true)
	vsym.Reach("compared")
}
