package main

import (
	"bytes"
	"io"
	"math"
	"time"

	"github.com/EliCDavis/vector/vector2"
	"github.com/EliCDavis/vector/vector3"
	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/enum"
	"github.com/recolude/rap/format/collection/euler"
	"github.com/recolude/rap/format/collection/event"
	"github.com/recolude/rap/format/collection/float"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/format/encoding"
	enumenc "github.com/recolude/rap/format/encoding/enum"
	eulerenc "github.com/recolude/rap/format/encoding/euler"
	eventenc "github.com/recolude/rap/format/encoding/event"
	floatenc "github.com/recolude/rap/format/encoding/float"
	posenc "github.com/recolude/rap/format/encoding/position"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/internal/vsym"
)

// The description of a recording the harnesses work from. It is written from the
// documentation of the format and shares no code with the repository, so that a
// recording can be compared with it (same*) and laid out from it (layout.go).

const (
	pString = 0
	pInt    = 1
	pFloat  = 2
	pBool   = 3
	pByte   = 5
	pVec2   = 6
	pVec3   = 7
	pBlock  = 11
	pTime   = 12

	pStrings = 13
	pInts    = 14
	pFloats  = 15
	pBools   = 16
	pBytes   = 18
	pVec2s   = 19
	pVec3s   = 20
	pBlocks  = 24
	pTimes   = 25
)

type propSpec struct {
	kind    int
	s       string
	i       int32
	f       float32
	b       bool
	by      byte
	x, y, z float64
	us      int64
	sub     []fieldSpec
	elems   []propSpec // arrays
}

type fieldSpec struct {
	key string
	p   propSpec
}

func mkBlock(fs []fieldSpec) metadata.Block {
	m := make(map[string]metadata.Property)
	for _, f := range fs {
		m[f.key] = mkProp(f.p)
	}
	return metadata.NewBlock(m)
}

func mkProp(p propSpec) metadata.Property {
	switch p.kind {
	case pString:
		return metadata.NewStringProperty(p.s)
	case pInt:
		return metadata.NewIntProperty(int(p.i))
	case pFloat:
		return metadata.NewFloat32Property(p.f)
	case pBool:
		return metadata.NewBoolProperty(p.b)
	case pByte:
		return metadata.NewByteProperty(p.by)
	case pVec2:
		return metadata.NewVector2Property(p.x, p.y)
	case pVec3:
		return metadata.NewVector3Property(p.x, p.y, p.z)
	case pBlock:
		return metadata.NewMetadataProperty(mkBlock(p.sub))
	case pTime:
		return metadata.NewTimeProperty(time.UnixMicro(p.us))
	case pStrings:
		v := make([]string, len(p.elems))
		for i, e := range p.elems {
			v[i] = e.s
		}
		return metadata.NewStringArrayProperty(v)
	case pInts:
		v := make([]int, len(p.elems))
		for i, e := range p.elems {
			v[i] = int(e.i)
		}
		return metadata.NewIntArrayProperty(v)
	case pFloats:
		v := make([]float32, len(p.elems))
		for i, e := range p.elems {
			v[i] = e.f
		}
		return metadata.NewFloat32ArrayProperty(v)
	case pBools:
		v := make([]bool, len(p.elems))
		for i, e := range p.elems {
			v[i] = e.b
		}
		return metadata.NewBoolArrayProperty(v)
	case pBytes:
		v := make([]byte, len(p.elems))
		for i, e := range p.elems {
			v[i] = e.by
		}
		return metadata.NewBinaryArrayProperty(v)
	case pVec2s:
		v := make([]vector2.Float64, len(p.elems))
		for i, e := range p.elems {
			v[i] = vector2.New(e.x, e.y)
		}
		return metadata.NewVector2ArrayProperty(v)
	case pVec3s:
		v := make([]vector3.Float64, len(p.elems))
		for i, e := range p.elems {
			v[i] = vector3.New(e.x, e.y, e.z)
		}
		return metadata.NewVector3ArrayProperty(v)
	case pBlocks:
		v := make([]metadata.Block, len(p.elems))
		for i, e := range p.elems {
			v[i] = mkBlock(e.sub)
		}
		return metadata.NewMetadataArrayProperty(v)
	case pTimes:
		v := make([]time.Time, len(p.elems))
		for i, e := range p.elems {
			v[i] = time.UnixMicro(e.us)
		}
		return metadata.NewTimestampArrayProperty(v)
	}
	panic("unknown property kind")
}

// sameBlock says whether a metadata block holds exactly the fields described.
func sameBlock(got metadata.Block, want []fieldSpec) bool {
	if len(got.Mapping()) != len(want) {
		return false
	}
	ok := true
	for _, f := range want {
		p, found := got.Mapping()[f.key]
		if !found {
			return false
		}
		ok = vsym.And(ok, sameProp(p, f.p))
	}
	return ok
}

// sameProp says whether a property has the type and content described. Array
// elements cannot be reached through the API, so for arrays the content is judged by
// the type, the type code and the serialised data.
func sameProp(got metadata.Property, want propSpec) bool {
	if got == nil {
		return false
	}
	switch g := got.(type) {
	case metadata.StringProperty:
		return want.kind == pString && vsym.EqBytes([]byte(g.String()), []byte(want.s))
	case metadata.Int32Property:
		return want.kind == pInt && g == metadata.NewIntProperty(int(want.i))
	case metadata.Float32Property:
		return want.kind == pFloat && vsym.EqBytes(g.Data(), refData(want))
	case metadata.BoolProperty:
		return want.kind == pBool && g.Value() == want.b
	case metadata.ByteProperty:
		return want.kind == pByte && g.Value() == want.by
	case metadata.Vector2Property:
		return want.kind == pVec2 && vsym.EqBytes(g.Data(), refData(want))
	case metadata.Vector3Property:
		return want.kind == pVec3 && vsym.EqBytes(g.Data(), refData(want))
	case metadata.TimeProperty:
		return want.kind == pTime && vsym.EqBytes(g.Data(), refData(want))
	case metadata.MetadataProperty:
		return want.kind == pBlock && sameBlock(g.Block(), want.sub)
	case metadata.ArrayProperty:
		if want.kind < 13 || want.kind == pBools || want.kind == pBytes || int(g.Code()) != want.kind {
			return false
		}
		if want.kind == pBlocks {
			data := g.Data() // the order of keys may differ from call to call
			return vsym.Or(sameBlockElems(data, want, false), sameBlockElems(data, want, true))
		}
		return vsym.EqBytes(g.Data(), refData(want))
	case metadata.ArrayPropertyRaw:
		return (want.kind == pBools || want.kind == pBytes) && int(g.Code()) == want.kind && vsym.EqBytes(g.Data(), refData(want))
	}
	return false
}

// Blocks inside arrays have at most two fields here, written in either order.
func sameBlockElems(data []byte, want propSpec, swap bool) bool {
	w := want
	if swap {
		w.elems = nil
		for _, e := range want.elems {
			r := e
			if len(e.sub) == 2 {
				r.sub = []fieldSpec{e.sub[1], e.sub[0]}
			}
			w.elems = append(w.elems, r)
		}
	}
	return vsym.EqBytes(data, refData(w))
}

// Captures: t is the time, x, y, z the numbers, v the enum value, name and meta the event.
type capSpec struct {
	t, x, y, z float64
	v          int
	name       string
	meta       []fieldSpec
}

const (
	cPos   = 0
	cEuler = 1
	cEnum  = 2
	cEvent = 3
	cFloat = 4
)

type collSpec struct {
	kind    int
	name    string
	members []string
	caps    []capSpec
}

type binSpec struct {
	name string
	data []byte
	meta []fieldSpec
}

type refSpec struct {
	name, uri string
	size      uint64
	meta      []fieldSpec
}

type recSpec struct {
	id, name string
	meta     []fieldSpec
	colls    []collSpec
	bins     []binSpec
	refs     []refSpec
	kids     []recSpec
}

var collSigs = [5]string{"recolude.position", "recolude.euler", "recolude.enum", "recolude.event", "recolude.float"}

func mkColl(c collSpec) format.CaptureCollection {
	switch c.kind {
	case cPos:
		v := make([]position.Capture, len(c.caps))
		for i, k := range c.caps {
			v[i] = position.NewCapture(k.t, k.x, k.y, k.z)
		}
		return position.NewCollection(c.name, v)
	case cEuler:
		v := make([]euler.Capture, len(c.caps))
		for i, k := range c.caps {
			v[i] = euler.NewEulerZXYCapture(k.t, k.x, k.y, k.z)
		}
		return euler.NewCollection(c.name, v)
	case cEnum:
		v := make([]enum.Capture, len(c.caps))
		for i, k := range c.caps {
			v[i] = enum.NewCapture(k.t, k.v)
		}
		return enum.NewCollection(c.name, append([]string{}, c.members...), v)
	case cEvent:
		v := make([]event.Capture, len(c.caps))
		for i, k := range c.caps {
			v[i] = event.NewCapture(k.t, k.name, mkBlock(k.meta))
		}
		return event.NewCollection(c.name, v)
	case cFloat:
		v := make([]float.Capture, len(c.caps))
		for i, k := range c.caps {
			v[i] = float.NewCapture(k.t, k.x)
		}
		return float.NewCollection(c.name, v)
	}
	panic("unknown collection kind")
}

func mkRec(r recSpec) format.Recording {
	colls := make([]format.CaptureCollection, 0)
	for _, c := range r.colls {
		colls = append(colls, mkColl(c))
	}
	kids := make([]format.Recording, 0)
	for _, k := range r.kids {
		kids = append(kids, mkRec(k))
	}
	bins := make([]format.Binary, 0)
	for _, b := range r.bins {
		bins = append(bins, rapio.NewBinary(b.name, append([]byte{}, b.data...), mkBlock(b.meta)))
	}
	refs := make([]format.BinaryReference, 0)
	for _, b := range r.refs {
		refs = append(refs, rapio.NewBinaryReference(b.name, b.uri, b.size, mkBlock(b.meta)))
	}
	return format.NewRecording(r.id, r.name, colls, kids, mkBlock(r.meta), bins, refs)
}

func sameStr(a, b string) bool { return vsym.EqBytes([]byte(a), []byte(b)) }

// Times and values are compared by bits.
func sameCapture(kind int, got format.Capture, want capSpec) bool {
	if got == nil {
		return false
	}
	ok := vsym.SameF64(got.Time(), want.t)
	switch g := got.(type) {
	case position.Capture:
		p := g.Position()
		return vsym.And(vsym.And(ok, kind == cPos), vsym.And(vsym.SameF64(p.X(), want.x), vsym.And(vsym.SameF64(p.Y(), want.y), vsym.SameF64(p.Z(), want.z))))
	case euler.Capture:
		p := g.EulerZXY()
		return vsym.And(vsym.And(ok, kind == cEuler), vsym.And(vsym.SameF64(p.X(), want.x), vsym.And(vsym.SameF64(p.Y(), want.y), vsym.SameF64(p.Z(), want.z))))
	case enum.Capture:
		return vsym.And(ok, vsym.And(kind == cEnum, g.Value() == want.v))
	case event.Capture:
		return vsym.And(vsym.And(ok, kind == cEvent), vsym.And(sameStr(g.Name(), want.name), sameBlock(g.Metadata(), want.meta)))
	case float.Capture:
		return vsym.And(ok, vsym.And(kind == cFloat, vsym.SameF64(g.Value(), want.x)))
	}
	return false
}

// collHead: name, kind, number of captures and enum members.
func sameCollHead(got format.CaptureCollection, want collSpec) bool {
	if got == nil {
		return false
	}
	if got.Signature() != collSigs[want.kind] || got.Length() != len(want.caps) {
		return false
	}
	ok := sameStr(got.Name(), want.name)
	if want.kind == cEnum {
		e, isEnum := got.(enum.Collection)
		if !isEnum || len(e.EnumMembers()) != len(want.members) {
			return false
		}
		for i, m := range e.EnumMembers() {
			ok = vsym.And(ok, sameStr(m, want.members[i]))
		}
	}
	return ok
}

func sameColl(got format.CaptureCollection, want collSpec) bool {
	if !sameCollHead(got, want) {
		return false
	}
	ok := true
	caps := got.Captures()
	if len(caps) != len(want.caps) {
		return false
	}
	for i := range caps {
		ok = vsym.And(ok, sameCapture(want.kind, caps[i], want.caps[i]))
	}
	return ok
}

// checkRec asserts that got is the recording described by want.
// The exact parameter says whether capture contents are compared (bit by bit).
func checkRec(got format.Recording, want recSpec, exact bool) {
	vsym.Assert(got != nil, "recording present")
	vsym.Assert(sameStr(got.ID(), want.id), "recording id kept")
	vsym.Assert(sameStr(got.Name(), want.name), "recording name kept")
	vsym.Assert(sameBlock(got.Metadata(), want.meta), "recording metadata kept")
	colls := got.CaptureCollections()
	vsym.Assert(len(colls) == len(want.colls), "number of collections kept")
	for i := range want.colls {
		vsym.Assert(sameCollHead(colls[i], want.colls[i]), "collection name, kind, length and members kept")
		if exact {
			vsym.Assert(sameColl(colls[i], want.colls[i]), "captures kept")
		}
	}
	vsym.Assert(len(got.BinaryReferences()) == len(want.refs), "number of references kept")
	for i, w := range want.refs {
		g := got.BinaryReferences()[i]
		vsym.Assert(g != nil && sameStr(g.Name(), w.name) && sameStr(g.URI(), w.uri), "reference name and uri kept")
		vsym.Assert(g.Size() == w.size, "reference size kept")
		vsym.Assert(sameBlock(g.Metadata(), w.meta), "reference metadata kept")
	}
	vsym.Assert(len(got.Binaries()) == len(want.bins), "number of binaries kept")
	for i, w := range want.bins {
		g := got.Binaries()[i]
		vsym.Assert(g != nil && sameStr(g.Name(), w.name), "binary name kept")
		vsym.Assert(g.Size() == uint64(len(w.data)), "binary size kept")
		data, err := io.ReadAll(g.Data())
		vsym.Assert(err == nil && vsym.EqBytes(data, w.data), "binary content kept")
		vsym.Assert(sameBlock(g.Metadata(), w.meta), "binary metadata kept")
	}
	vsym.Assert(len(got.Recordings()) == len(want.kids), "number of sub-recordings kept")
	for i := range want.kids {
		checkRec(got.Recordings()[i], want.kids[i], exact)
	}
}

// equalRec is checkRec as a value.
func equalRec(got format.Recording, want recSpec) bool {
	if got == nil {
		return false
	}
	ok := vsym.And(vsym.And(sameStr(got.ID(), want.id), sameStr(got.Name(), want.name)), sameBlock(got.Metadata(), want.meta))
	if len(got.CaptureCollections()) != len(want.colls) || len(got.BinaryReferences()) != len(want.refs) ||
		len(got.Binaries()) != len(want.bins) || len(got.Recordings()) != len(want.kids) {
		return false
	}
	for i, c := range got.CaptureCollections() {
		ok = vsym.And(ok, sameColl(c, want.colls[i]))
	}
	for i, w := range want.refs {
		g := got.BinaryReferences()[i]
		if g == nil {
			return false
		}
		ok = vsym.And(ok, vsym.And(vsym.And(sameStr(g.Name(), w.name), sameStr(g.URI(), w.uri)), vsym.And(g.Size() == w.size, sameBlock(g.Metadata(), w.meta))))
	}
	for i, w := range want.bins {
		g := got.Binaries()[i]
		if g == nil {
			return false
		}
		data, err := io.ReadAll(g.Data())
		ok = vsym.And(ok, vsym.And(vsym.And(sameStr(g.Name(), w.name), err == nil && vsym.EqBytes(data, w.data)), vsym.And(g.Size() == uint64(len(w.data)), sameBlock(g.Metadata(), w.meta))))
	}
	for i := range want.kids {
		ok = vsym.And(ok, equalRec(got.Recordings()[i], want.kids[i]))
	}
	return ok
}

// Symbolic content.

func symCap(kind int) capSpec {
	k := capSpec{t: vsym.F64("t")}
	switch kind {
	case cPos, cEuler:
		k.x, k.y, k.z = vsym.F64("x"), vsym.F64("y"), vsym.F64("z")
	case cEnum:
		k.v = vsym.Range("v", 0, 127)
	case cEvent:
		k.name = vsym.Str("event", 1)
	case cFloat:
		k.x = vsym.F64("x")
	}
	return k
}

func symColl(kind, n int) collSpec {
	c := collSpec{kind: kind, name: vsym.Str("coll", 1)}
	if kind == cEnum {
		c.members = []string{vsym.Str("member", 1), "AA"}
	}
	for i := 0; i < n; i++ {
		c.caps = append(c.caps, symCap(kind))
	}
	return c
}

func fullEncoders() []encoding.Encoder {
	return []encoding.Encoder{
		posenc.NewEncoder(posenc.Raw64), eulerenc.NewEncoder(eulerenc.Raw64), enumenc.NewEncoder(),
		eventenc.NewEncoder(), floatenc.NewEncoder(floatenc.Raw64),
	}
}

func writeFull(r format.Recording, compress bool) []byte {
	var out bytes.Buffer
	_, err := rapio.NewWriter(fullEncoders(), compress, &out, rapio.Raw64).Write(r)
	vsym.Assert(err == nil, "writing succeeds")
	return out.Bytes()
}

func readFull(b []byte) (format.Recording, error) {
	rec, _, err := rapio.NewReader(fullEncoders(), bytes.NewReader(b)).Read()
	return rec, err
}

// The reference encodings, written from the format description.

func refUvarint(v uint64) []byte {
	var out []byte
	for v >= 0x80 {
		out = append(out, byte(v)|0x80)
		v >>= 7
	}
	return append(out, byte(v))
}

func refU16(v uint16) []byte { return []byte{byte(v), byte(v >> 8)} }
func refU32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}
func refU64(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}
func refF64(f float64) []byte { return refU64(math.Float64bits(f)) }
func refF32(f float32) []byte { return refU32(math.Float32bits(f)) }

func refStr(s string) []byte { return append(refUvarint(uint64(len(s))), []byte(s)...) }

func refStrs(ss []string) []byte {
	out := refUvarint(uint64(len(ss)))
	for _, s := range ss {
		out = append(out, refStr(s)...)
	}
	return out
}

func refBytes(b []byte) []byte { return append(refUvarint(uint64(len(b))), b...) }

func refCode(p propSpec) byte {
	if p.kind == pBool && !p.b {
		return 4
	}
	return byte(p.kind)
}

func refData(p propSpec) []byte {
	switch p.kind {
	case pString:
		return refStr(p.s)
	case pInt:
		return refU32(uint32(p.i))
	case pFloat:
		return refF32(p.f)
	case pBool:
		return nil
	case pByte:
		return []byte{p.by}
	case pVec2:
		return append(refF64(p.x), refF64(p.y)...)
	case pVec3:
		return append(append(refF64(p.x), refF64(p.y)...), refF64(p.z)...)
	case pTime:
		return refU64(uint64(p.us))
	case pBlock:
		var keys []string
		for _, f := range p.sub {
			keys = append(keys, f.key)
		}
		out := refStrs(keys)
		for _, f := range p.sub {
			out = append(out, refCode(f.p))
			out = append(out, refData(f.p)...)
		}
		return out
	}
	out := refUvarint(uint64(len(p.elems)))
	for _, e := range p.elems {
		e.kind = p.kind - 13
		if p.kind == pBools {
			if e.b {
				out = append(out, 1)
			} else {
				out = append(out, 0)
			}
			continue
		}
		out = append(out, refData(e)...)
	}
	return out
}

// longStr: n bytes, the first and last symbolic, so that a shift or cut shows.
func longStr(n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	b[0] = vsym.U8("first")
	b[n-1] = vsym.U8("last")
	return string(b)
}

var allKinds = [17]int{pString, pInt, pFloat, pBool, pByte, pVec2, pVec3, pBlock, pTime, pStrings, pInts, pFloats, pBools, pBytes, pVec2s, pVec3s, pTimes}

func symProp(kind int) propSpec {
	p := propSpec{kind: kind}
	switch kind {
	case pString:
		p.s = vsym.Str("ps", 2)
	case pInt:
		p.i = vsym.I32("pi")
	case pFloat:
		p.f = vsym.F32("pf")
	case pBool:
		p.b = vsym.Choose("pb", 2) == 1
	case pByte:
		p.by = vsym.U8("pby")
	case pVec2:
		p.x, p.y = vsym.F64("px"), vsym.F64("py")
	case pVec3:
		p.x, p.y, p.z = vsym.F64("px"), vsym.F64("py"), vsym.F64("pz")
	case pTime:
		p.us = vsym.I64("pus")
	}
	return p
}

// symArray: n elements of the kind's base type.
func symArray(kind, n int) propSpec {
	p := propSpec{kind: kind}
	for i := 0; i < n; i++ {
		e := symProp(kind - 13)
		if kind == pBools {
			e = propSpec{kind: pBool, b: vsym.Bool("pb")}
		}
		p.elems = append(p.elems, e)
	}
	return p
}

// capsOf and specOf describe a recording that was read (metadata is left out: it must be described by the caller).
func capsOf(c format.CaptureCollection) []capSpec {
	var out []capSpec
	for _, k := range c.Captures() {
		s := capSpec{t: k.Time()}
		switch g := k.(type) {
		case position.Capture:
			p := g.Position()
			s.x, s.y, s.z = p.X(), p.Y(), p.Z()
		case euler.Capture:
			p := g.EulerZXY()
			s.x, s.y, s.z = p.X(), p.Y(), p.Z()
		case enum.Capture:
			s.v = g.Value()
		case event.Capture:
			s.name = g.Name()
		case float.Capture:
			s.x = g.Value()
		}
		out = append(out, s)
	}
	return out
}

func specOf(r format.Recording) recSpec {
	out := recSpec{id: r.ID(), name: r.Name()}
	for _, c := range r.CaptureCollections() {
		s := collSpec{name: c.Name(), caps: capsOf(c)}
		for i, sig := range collSigs {
			if c.Signature() == sig {
				s.kind = i
			}
		}
		if e, ok := c.(enum.Collection); ok {
			s.members = e.EnumMembers()
		}
		out.colls = append(out.colls, s)
	}
	for _, k := range r.Recordings() {
		out.kids = append(out.kids, specOf(k))
	}
	return out
}
