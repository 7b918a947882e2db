package main

import (
	"encoding/binary"
	"io"

	rapbinary "github.com/recolude/rap/internal/io/binary"
	"github.com/recolude/rap/internal/vsym"
)

// A stream that records how far it has been read.
type countReader struct {
	b   []byte
	pos int
}

func (c *countReader) Read(p []byte) (int, error) {
	if c.pos >= len(c.b) {
		return 0, io.EOF
	}
	n := copy(p, c.b[c.pos:])
	c.pos += n
	return n, nil
}

// Any unsigned 64-bit integer, followed by any byte: value, reported and consumed size.
//v: reach=uvar
func C08_uvarint() {
	v := vsym.U64("v")
	tail := vsym.U8("tail")
	buf := make([]byte, 10)
	enc := buf[:binary.PutUvarint(buf, v)]
	r := &countReader{b: append(append([]byte{}, enc...), tail)}
	got, n, err := rapbinary.ReadUvarint(r)
	vsym.Assert(err == nil, "C08 uvarint reads back")
	vsym.Assert(got == v, "C08 uvarint value")
	vsym.Assert(n == len(enc), "C08 uvarint reported size")
	vsym.Assert(r.pos == len(enc), "C08 uvarint consumed size")
	vsym.Reach("uvar")
	vsym.Observe("enc", enc)
}

// refDecode reads an unsigned varint the way the format describes it: at most ten bytes, at most 64 bits.
func refDecode(b []byte) (v uint64, n int, ok bool) {
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			return 0, 0, false
		}
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

// Any 0 to 12 bytes as an integer: an error exactly when malformed, cut off or too long, else the value.
//v: reach=good,bad
func C08_uvarint_any() {
	b := vsym.Bytes("b", [6]int{0, 1, 2, 9, 10, 12}[vsym.Choose("length", 6)])
	r := &countReader{b: b}
	got, n, err := rapbinary.ReadUvarint(r)
	want, size, ok := refDecode(b)
	vsym.Assert(ok == (err == nil), "malformed integers are errors")
	if ok {
		vsym.Assert(got == want && n == size && r.pos == size, "value and size of any integer")
		vsym.Reach("good")
	} else {
		vsym.Reach("bad")
	}
}

var edges = [15]int{0, 1, 2, 3, 127, 128, 129, 255, 256, 300, 16383, 16384, 65535, 65536, 131200}

// checkExact: the encoding must be the reference one, decode without error, report and consume its own size.
func checkExact(enc, ref []byte, pos, n int, err error) {
	vsym.Assert(vsym.EqBytes(enc, ref), "encoding is length prefix plus content")
	vsym.Assert(err == nil, "encoding reads back")
	vsym.Assert(n == len(enc), "reported size is the size of the encoding")
	vsym.Assert(pos == len(enc), "consumed exactly the encoding")
	vsym.Reach("exact")
}

func withTail(enc []byte) *countReader {
	return &countReader{b: append(append([]byte{}, enc...), vsym.U8("tail"), 1)}
}

// Strings of 0 to 131200 bytes.
//v: reach=exact
func C08_string() {
	s := longStr(edges[vsym.Choose("length", 15)])
	enc := rapbinary.StringToBytes(s)
	r := withTail(enc)
	got, n, err := rapbinary.ReadString(r)
	checkExact(enc, refStr(s), r.pos, n, err)
	vsym.Assert(sameStr(got, s), "string value")
}

// Byte arrays of 0 to 131200 bytes.
//v: reach=exact
func C08_bytes() {
	s := []byte(longStr(edges[vsym.Choose("length", 15)]))
	enc := rapbinary.BytesArrayToBytes(s)
	r := withTail(enc)
	got, n, err := rapbinary.ReadBytesArray(r)
	checkExact(enc, refBytes(s), r.pos, n, err)
	vsym.Assert(vsym.EqBytes(got, s), "byte array value")
}

// String arrays of 0, 1, 2, 127, 128 and 300 strings, some of them empty or long.
//v: reach=exact
func C08_strings() {
	n := [6]int{0, 1, 2, 127, 128, 300}[vsym.Choose("count", 6)]
	ss := make([]string, n)
	for i := range ss {
		if i < 2 || i == n-1 {
			ss[i] = vsym.Str("s", i%3)
		} else if i == 5 {
			ss[i] = longStr(200)
		} else if i%3 > 0 {
			ss[i] = "text"
		}
	}
	enc := rapbinary.StringArrayToBytes(ss)
	r := withTail(enc)
	got, size, err := rapbinary.ReadStringArray(r)
	checkExact(enc, refStrs(ss), r.pos, size, err)
	vsym.Assert(len(got) == n, "number of strings")
	ok := true
	for i := range ss {
		ok = vsym.And(ok, sameStr(got[i], ss[i]))
	}
	vsym.Assert(ok, "string array values")
}

// Integer arrays: two integers of any size, or 127, 128 or 300 of them.
//v: reach=exact
func C08_uints() {
	n := [6]int{0, 1, 2, 127, 128, 300}[vsym.Choose("count", 6)]
	vs := make([]uint, n)
	ref := refUvarint(uint64(n))
	for i := range vs {
		vs[i] = uint(i * i * i * i)
		if i == n-1 {
			vs[i] = uint(vsym.U64("v"))
		}
		if i == n-2 {
			vs[i] = uint(vsym.Range("w", 0, 40000))
		}
		ref = append(ref, refUvarint(uint64(vs[i]))...)
	}
	enc := rapbinary.UvarintArrayToBytes(vs)
	r := withTail(enc)
	got, size, err := rapbinary.ReadUvarIntArray(r)
	checkExact(enc, ref, r.pos, size, err)
	vsym.Assert(len(got) == n, "number of integers")
	ok := true
	for i := range vs {
		ok = vsym.And(ok, got[i] == vs[i])
	}
	vsym.Assert(ok, "integer array values")
}

// Arrays of 65535 to 70000 strings or integers.
//v: reach=exact steps=600000000 cases=6
func C08_wide() {
	k := vsym.Case(6)
	n := [3]int{65535, 65537, 70000}[k/2]
	if k%2 == 0 {
		ss := make([]string, n)
		ss[1], ss[n-1] = "one", vsym.Str("s", 2)
		ref := append(refUvarint(uint64(n)), refStr("")...)
		ref = append(append(ref, refStr("one")...), make([]byte, n-3)...)
		enc := rapbinary.StringArrayToBytes(ss)
		r := withTail(enc)
		got, size, err := rapbinary.ReadStringArray(r)
		checkExact(enc, append(ref, refStr(ss[n-1])...), r.pos, size, err)
		vsym.Assert(len(got) == n && got[1] == "one" && sameStr(got[n-1], ss[n-1]), "string array values")
		return
	}
	vs := make([]uint, n)
	vs[1], vs[n-1] = 5, uint(vsym.Range("v", 0, 127))
	ref := append(append(refUvarint(uint64(n)), 0, 5), make([]byte, n-3)...)
	enc := rapbinary.UvarintArrayToBytes(vs)
	r := withTail(enc)
	got, size, err := rapbinary.ReadUvarIntArray(r)
	checkExact(enc, append(ref, byte(vs[n-1])), r.pos, size, err)
	vsym.Assert(len(got) == n && got[1] == 5 && got[n-1] == vs[n-1], "integer array values")
}

// Byte arrays and texts of 200,000, 300,001 and 600,000 bytes of a pattern of period 251, one byte near the end symbolic.
//v: reach=exact steps=600000000 cases=6
func C08_long() {
	k := vsym.Case(6)
	n := [3]int{200000, 300001, 600000}[k/2]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i % 251)
	}
	data[n-2] = vsym.U8("b")
	if k%2 == 0 {
		enc := rapbinary.BytesArrayToBytes(data)
		r := withTail(enc)
		got, size, err := rapbinary.ReadBytesArray(r)
		checkExact(enc, refBytes(data), r.pos, size, err)
		vsym.Assert(vsym.EqBytes(got, data), "byte array")
		return
	}
	enc := rapbinary.StringToBytes(string(data))
	r := withTail(enc)
	got, size, err := rapbinary.ReadString(r)
	checkExact(enc, refBytes(data), r.pos, size, err)
	vsym.Assert(sameStr(got, string(data)), "string")
}

// Every encoding above, cut at every position.
//v: reach=cut
func C08_cut() {
	var enc []byte
	kind := vsym.Choose("what", 5)
	switch kind {
	case 0:
		enc = refStr(vsym.Str("s", 3))
	case 1:
		enc = refBytes([]byte(longStr(130)))
	case 2:
		enc = refStrs([]string{vsym.Str("s", 2), "", vsym.Str("s", 1)})
	case 3:
		enc = append(refUvarint(2), append(refUvarint(uint64(vsym.Range("v", 0, 127))), refUvarint(uint64(vsym.Range("w", 128, 16383)))...)...)
	case 4:
		enc = refUvarint(uint64(vsym.Range("w", 128, 1<<40)))
	}
	cut := vsym.Choose("cut", 132)
	if cut >= len(enc) {
		return
	}
	r := &countReader{b: enc[:cut]}
	var err error
	switch kind {
	case 0:
		_, _, err = rapbinary.ReadString(r)
	case 1:
		_, _, err = rapbinary.ReadBytesArray(r)
	case 2:
		_, _, err = rapbinary.ReadStringArray(r)
	case 3:
		_, _, err = rapbinary.ReadUvarIntArray(r)
	case 4:
		_, _, err = rapbinary.ReadUvarint(r)
	}
	vsym.Assert(err != nil, "a cut-off encoding is an error")
	vsym.Reach("cut")
}

type scripted struct {
	fail  int // the call that fails
	short bool
	calls int
}

type scriptErr struct{}

func (scriptErr) Error() string { return "scripted failure" }

func (s *scripted) Read(p []byte) (int, error) {
	s.calls++
	if s.calls == s.fail {
		n := 0
		if s.short && len(p) > 1 {
			p[0] = 9
			n = 1
		}
		return n, scriptErr{}
	}
	if s.short && len(p) > 1 {
		p[0] = 7
		return 1, nil
	}
	for i := range p {
		p[i] = 5
	}
	return len(p), nil
}

// The error-accumulating reader over a stream that fails at its 1st to 7th call, delivering short counts or not:
// after the failure the stream is left alone and every further read fails with the same error.
//v: reach=failed,fine
func C08_sticky() {
	s := &scripted{fail: 1 + vsym.Choose("fail", 7), short: vsym.Choose("short", 2) == 1}
	e := rapbinary.NewErrReader(s)
	failed := false
	total := 0
	var first error
	for i := 0; i < 4; i++ {
		before := s.calls
		var err error
		if vsym.Choose("op", 2) == 0 {
			buf := make([]byte, 1+vsym.Choose("size", 2))
			var n int
			n, err = e.Read(buf)
			total += n
			vsym.Assert((err == nil) == (n == len(buf)), "a successful read is a full read")
		} else {
			_, err = e.ReadByte()
			if err == nil {
				total++
			}
		}
		if failed {
			vsym.Assert(err != nil && err == first, "once failed, every read fails with the same error")
			vsym.Assert(s.calls == before, "once failed, the stream is not touched")
			vsym.Reach("failed")
		} else if err != nil {
			failed = true
			first = err
		} else {
			vsym.Reach("fine")
		}
		vsym.Assert((e.Error() != nil) == failed, "the error is remembered")
		vsym.Assert(!failed || e.Error() == first, "the first error is the one remembered")
	}
	vsym.Assert(e.TotalRead() == total, "total of bytes read")
}
