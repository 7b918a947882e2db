package main

import (
	"bytes"
	"compress/flate"
	"math"

	"github.com/recolude/rap/internal/vsym"
)

// Version-1 files, laid out from the message definition: version byte, 4-byte count of recordings, 8-byte size, and the
// compressed protobuf message.

type v1Pair struct{ key, val string }

type v1Event struct {
	t              float32
	name, contents string
	data           []v1Pair
}

type v1Vec struct{ t, x, y, z float32 }

type v1Life struct {
	t    float32
	kind int
}

type v1Subject struct {
	id     int32
	name   string
	meta   []v1Pair
	events []v1Event
	life   []v1Life
	pos    []v1Vec
	rot    []v1Vec
}

type v1Rec struct {
	name     string
	meta     []v1Pair
	subjects []v1Subject
	events   []v1Event
}

func pbMsg(num int, b []byte) []byte {
	out := refUvarint(uint64(num<<3 | 2))
	return append(append(out, refUvarint(uint64(len(b)))...), b...)
}

func pbText(num int, s string) []byte { return pbMsg(num, []byte(s)) }

func pbF32(num int, f float32) []byte {
	return append([]byte{byte(num<<3 | 5)}, refU32(math.Float32bits(f))...)
}

func pbInt(num int, v uint64) []byte { return append([]byte{byte(num << 3)}, refUvarint(v)...) }

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

func pbPairs(num int, ps []v1Pair) []byte {
	var out []byte
	for _, p := range ps {
		out = append(out, pbMsg(num, cat(pbText(1, p.key), pbText(2, p.val)))...)
	}
	return out
}

func pbEvents(num int, es []v1Event) []byte {
	var out []byte
	for _, e := range es {
		out = append(out, pbMsg(num, cat(pbF32(1, e.t), pbText(2, e.name), pbText(3, e.contents), pbPairs(4, e.data)))...)
	}
	return out
}

func pbVecs(num int, vs []v1Vec) []byte {
	var out []byte
	for _, v := range vs {
		out = append(out, pbMsg(num, cat(pbF32(1, v.t), pbF32(2, v.x), pbF32(3, v.y), pbF32(4, v.z)))...)
	}
	return out
}

func (r v1Rec) message() []byte {
	out := cat(pbText(1, r.name), pbPairs(2, r.meta))
	for _, s := range r.subjects {
		b := cat(pbInt(1, uint64(int64(s.id))), pbText(2, s.name), pbPairs(3, s.meta), pbEvents(4, s.events))
		for _, l := range s.life {
			b = append(b, pbMsg(5, cat(pbF32(1, l.t), pbInt(2, uint64(l.kind))))...)
		}
		out = append(out, pbMsg(3, cat(b, pbVecs(6, s.pos), pbVecs(7, s.rot)))...)
	}
	return append(out, pbEvents(4, r.events)...)
}

func v1File(msg []byte) []byte {
	var body bytes.Buffer
	w, _ := flate.NewWriter(&body, 9)
	w.Write(msg)
	w.Close()
	return cat([]byte{1}, refU32(1), refU64(uint64(body.Len())), body.Bytes())
}

func asciiStr(name string, n int) string {
	s := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		vsym.Assume(s[i] < 0x80)
	}
	return s
}
