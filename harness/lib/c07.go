package main

import (
	"bytes"
	"io"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	posenc "github.com/recolude/rap/format/encoding/position"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	floatenc "github.com/recolude/rap/format/encoding/float"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

// Every first byte but 1 and 2, followed by a complete file or by nothing.
//v: reach=refused
func C07_version() {
	want := recSpec{id: "i", name: "n", colls: []collSpec{symColl(cFloat, 1)}}
	b := writeFull(mkRec(want), false)
	v := vsym.U8("version")
	vsym.Assume(v != 1)
	vsym.Assume(v != 2)
	b = append([]byte{v}, b[1:vsym.Choose("length", 2)*(len(b)-1)+1]...)
	rec, _, err := readerOf(bytes.NewReader(b))
	vsym.Assert(err != nil && rec == nil, "an unknown version is refused")
	vsym.Reach("refused")
	rec, _, err = rapio.Load(bytes.NewReader(b))
	vsym.Assert(err != nil && rec == nil, "an unknown version is refused by Load")
	c, _, err := rapio.NewReader(nil, bytes.NewReader(b)).Read()
	vsym.Assert(err != nil && c == nil, "an unknown version is refused without encoders")
}

// An encoder as registered by an application: another signature or version around a real one.
type otherEncoder struct {
	encoding.Encoder
	sig     string
	version uint
}

func (o otherEncoder) Signature() string { return o.sig }
func (o otherEncoder) Version() uint     { return o.version }

// Any version in the file, any registered version (64 bits each), for each kind of collection and position in the encoder table.
//v: reach=refused,accepted cases=5
func C07_encoder_version() {
	kind := vsym.Case(5)
	have, need := vsym.U64("have"), vsym.U64("need")
	if vsym.Choose("size", 2) == 0 {
		vsym.Assume(need < 128)
	} else {
		vsym.Assume(need >= 1<<56)
	}
	want := recSpec{id: "i", name: "n", colls: []collSpec{symColl((kind+1)%5, 1), symColl(kind, 1), symColl((kind+2)%5, 0)}}
	encs := fullEncoders()
	encs[kind] = otherEncoder{encs[kind], encs[kind].Signature(), uint(need)}
	var out bytes.Buffer
	_, err := rapio.NewWriter(encs, false, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	decs := rotated(fullEncoders(), vsym.Choose("rotation", 3))
	for i := range decs {
		if decs[i].Signature() == encs[kind].Signature() {
			decs[i] = otherEncoder{decs[i], decs[i].Signature(), uint(have)}
		}
	}
	rec, _, err := rapio.NewReader(decs, bytes.NewReader(out.Bytes())).Read()
	if have < need {
		vsym.Assert(err != nil && rec == nil, "an encoder older than the file is refused")
		vsym.Reach("refused")
	} else {
		vsym.Assert(err == nil, "an encoder as new as the file is accepted")
		checkRec(rec, want, true)
		vsym.Reach("accepted")
	}
}

// Any encoder signature of the same length in the file, one byte changed, or a prefix or extension of it.
//v: reach=refused,accepted
func C07_signature() {
	kind := vsym.Choose("kind", 5)
	want := recSpec{id: "i", name: "n", colls: []collSpec{symColl((kind+1)%5, 1), symColl(kind, 1)}}
	encs := fullEncoders()
	sig := []byte(encs[kind].Signature())
	switch vsym.Choose("how", 4) {
	case 0:
		sig[vsym.Choose("position", len(sig))] = vsym.U8("letter")
	case 1:
		sig = sig[:len(sig)-1]
	case 2:
		sig = append(sig, vsym.U8("letter"))
	case 3:
		sig = nil
	}
	same := string(sig) == encs[kind].Signature()
	encs[kind] = otherEncoder{encs[kind], string(sig), 0}
	var out bytes.Buffer
	_, err := rapio.NewWriter(encs, false, &out, rapio.Raw64).Write(mkRec(want))
	vsym.Assert(err == nil, "writing succeeds")
	got, rerr := readFull(out.Bytes())
	if same {
		vsym.Assert(rerr == nil, "a registered encoder is found")
		checkRec(got, want, true)
		vsym.Reach("accepted")
	} else {
		vsym.Assert(rerr != nil && got == nil, "an encoder that is not registered is refused")
		vsym.Reach("refused")
	}
}

// Every subset of the five encoders, writing and reading, against collections of any two kinds at the root and below.
//v: reach=refused,accepted cases=32
func C07_registered() {
	set := vsym.Case(32)
	var encs []encoding.Encoder
	for i, e := range fullEncoders() {
		if set>>i&1 == 1 {
			encs = append(encs, e)
		}
	}
	a, b := vsym.Choose("root", 5), vsym.Choose("deep", 5)
	want := recSpec{id: "i", name: "n", colls: []collSpec{symColl(a, 1)}, kids: []recSpec{{id: "x"}, {id: "k", kids: []recSpec{{id: "g", colls: []collSpec{symColl(b, 0)}}}}}}
	var out bytes.Buffer
	n, err := rapio.NewWriter(encs, vsym.Choose("compress", 2) == 1, &out, rapio.Raw64).Write(mkRec(want))
	if set>>a&1 == 1 && set>>b&1 == 1 {
		vsym.Assert(err == nil, "a recording with supported collections is written")
		rec, _, err := rapio.NewReader(encs, bytes.NewReader(out.Bytes())).Read()
		vsym.Assert(err == nil, "and read back")
		checkRec(rec, want, true)
		vsym.Reach("accepted")
		return
	}
	vsym.Assert(err != nil, "a collection without an encoder is refused")
	vsym.Assert(n == 0 && out.Len() == 0, "nothing is written when refusing")
	whole := writeFull(mkRec(want), false)
	rec, _, err := rapio.NewReader(encs, bytes.NewReader(whole)).Read()
	vsym.Assert(err != nil && rec == nil, "a file needing an encoder that is not registered is refused")
	vsym.Reach("refused")
}

// A nil collection, binary, reference or sub-recording, first, in the middle or last in its list, at the root, in a child or a grandchild, with any of the other lists of its recording empty.
//v: reach=refused
func C07_nil() {
	what, depth, pos := vsym.Choose("what", 4), vsym.Choose("depth", 3), vsym.Choose("position", 3)
	filled := vsym.Choose("filled", 16) | 1<<what
	var build func(level int) format.Recording
	build = func(level int) format.Recording {
		var colls []format.CaptureCollection
		var kids []format.Recording
		var bins []format.Binary
		var refs []format.BinaryReference
		for i := 0; i < 3; i++ {
			bad := level == depth && i == pos
			if bad && what == 0 {
				colls = append(colls, nil)
			} else {
				colls = append(colls, mkColl(symColl((level+i)%5, 0)))
			}
			if bad && what == 1 {
				kids = append(kids, nil)
			} else if level < depth && i == 1 {
				kids = append(kids, build(level+1))
			} else {
				kids = append(kids, mkRec(recSpec{id: "leaf"}))
			}
			if bad && what == 2 {
				bins = append(bins, nil)
			} else {
				bins = append(bins, rapio.NewBinary("b", []byte{1}, metadata.EmptyBlock()))
			}
			if bad && what == 3 {
				refs = append(refs, nil)
			} else {
				refs = append(refs, rapio.NewBinaryReference("b", "u", 1, metadata.EmptyBlock()))
			}
		}
		if level == depth {
			if filled&1 == 0 {
				colls = nil
			}
			if filled&2 == 0 {
				kids = nil
			}
			if filled&4 == 0 {
				bins = nil
			}
			if filled&8 == 0 {
				refs = nil
			}
		}
		return format.NewRecording("i", "n", colls, kids, metadata.EmptyBlock(), bins, refs)
	}
	var out bytes.Buffer
	n, err := rapio.NewWriter(fullEncoders(), filled%3 == 0, &out, rapio.Raw64).Write(build(0))
	vsym.Assert(err != nil, "a nil part is refused")
	vsym.Assert(n == 0 && out.Len() == 0, "nothing is written when refusing a nil part")
	vsym.Reach("refused")
}

// oddOne is a collection one of whose captures is not its own.
type oddOne struct {
	format.CaptureCollection
	at  int
	odd format.Capture
}

func (o oddOne) Captures() []format.Capture {
	cs := append([]format.Capture{}, o.CaptureCollection.Captures()...)
	cs[o.at] = o.odd
	return cs
}

func (o oddOne) CaptureAt(i int) format.Capture { return o.Captures()[i] }

// Collections of each kind and technique with 1 to 3 captures, any one of which is nil or of another kind, alone or after a good
// one, in the outermost recording or two levels below.
//v: reach=refused cases=8
func C07_kinds() {
	k := vsym.Case(8)
	kind := k % 5
	n := 1 + vsym.Choose("count", 3)
	colls := []collSpec{symColl(kind, n), symColl(0, 1), symColl(1, 1), symColl(2, 1), symColl(3, 1), symColl(4, 1)}
	if k >= 5 {
		for i := range colls {
			for j := range colls[i].caps {
				colls[i].caps[j] = capSpec{t: float64(j), x: float64(j), y: 5, name: "e"}
			}
		}
	}
	good := mkRec(recSpec{id: "i", colls: colls}).CaptureCollections()
	bad := oddOne{CaptureCollection: good[0], at: vsym.Choose("at", n)}
	if other := vsym.Choose("other", 5); other != 4 {
		bad.odd = good[1+(kind+1+other)%5].CaptureAt(0)
	}
	all := []format.CaptureCollection{bad}
	if vsym.Choose("beside", 2) == 1 {
		all = []format.CaptureCollection{good[1+kind], bad, good[1]}
	}
	rec := format.NewRecording("i", "n", all, nil, mkBlock(nil), nil, nil)
	if vsym.Choose("depth", 2) == 1 {
		rec = format.NewRecording("o", "n", nil, []format.Recording{format.NewRecording("m", "n", good[1:2], []format.Recording{rec}, mkBlock(nil), nil, nil)}, mkBlock(nil), nil, nil)
	}
	encs, tech := fullEncoders(), rapio.Raw64
	if k >= 5 {
		encs, tech = compactEncoders(k%3), rapio.BST16
	}
	_, err := rapio.NewWriter(encs, false, io.Discard, tech).Write(rec)
	vsym.Assert(err != nil, "a capture of another kind is refused")
	vsym.Reach("refused")
}

// Collections of 0 to 2 captures, and their times, stored by a technique that does not exist.
//v: reach=refused
func C07_technique() {
	n := vsym.Choose("captures", 3)
	kind := [3]int{cPos, cEuler, cFloat}[vsym.Choose("kind", 3)]
	c := collSpec{kind: kind, name: "c"}
	for i := 0; i < n; i++ {
		c.caps = append(c.caps, capSpec{t: float64(i), x: 1, y: 2, z: 3})
	}
	rec := mkRec(recSpec{id: "i", name: "n", colls: []collSpec{c}})
	encs := fullEncoders()
	file := func(encs []encoding.Encoder, tech rapio.TimeStorageTechnique) []byte {
		var out bytes.Buffer
		_, err := rapio.NewWriter(encs, false, &out, tech).Write(rec)
		vsym.Assert(err == nil, "writing succeeds")
		return out.Bytes()
	}
	// the first byte in which the files of two techniques differ, beyond the sizes, is the technique
	one, two := file(encs, rapio.Raw64), file(encs, rapio.Raw32)
	if vsym.Choose("what", 2) == 0 {
		two = file(compactEncoders(1), rapio.Raw64)
	}
	at := 0
	for one[at] == two[at] || (n > 0 && one[at] > 3) {
		at++
	}
	tech := vsym.U8("technique")
	vsym.Assume(tech > 3)
	one[at] = tech
	back, _, err := rapio.NewReader(encs, bytes.NewReader(one)).Read()
	vsym.Assert(err != nil && back == nil, "an unknown technique is refused")
	vsym.Reach("refused")
}

// Writing with any technique that does not exist (any 32-bit number but the existing ones) for times, positions, rotations
// or floats: 0 to 2 captures, in the recording or a sub-recording, compressed or not.
//v: reach=refused
func C07_unwritable() {
	tech := int(vsym.I32("technique"))
	what := vsym.Choose("what", 4)
	kind, n := cPos, 3
	encs, times := fullEncoders(), rapio.TimeStorageTechnique(rapio.Raw64)
	switch what {
	case 0:
		times = rapio.TimeStorageTechnique(tech)
	case 1:
		encs, n = []encoding.Encoder{posenc.NewEncoder(posenc.StorageTechnique(tech))}, 4
	case 2:
		encs, kind = []encoding.Encoder{eulerenc.NewEncoder(eulerenc.StorageTechnique(tech))}, cEuler
	case 3:
		encs, kind = []encoding.Encoder{floatenc.NewEncoder(floatenc.StorageTechnique(tech))}, cFloat
	}
	vsym.Assume(vsym.Or(tech < 0, tech >= n))
	c := collSpec{kind: kind, name: "c"}
	for i := vsym.Choose("captures", 3); i > 0; i-- {
		c.caps = append(c.caps, capSpec{t: float64(-i), x: 1, y: 2, z: 3})
	}
	r := recSpec{id: "i", colls: []collSpec{c}}
	if vsym.Choose("depth", 2) == 1 {
		r = recSpec{id: "p", kids: []recSpec{r}}
	}
	var out bytes.Buffer
	_, err := rapio.NewWriter(encs, vsym.Choose("compress", 2) == 1, &out, times).Write(mkRec(r))
	vsym.Assert(err != nil, "writing by an unknown technique is refused")
	vsym.Reach("refused")
}
