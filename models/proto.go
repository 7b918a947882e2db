package vsymmodels

import (
	"errors"
	"math"
	"unicode/utf8"

	"github.com/recolude/rap/internal/io/rapv1"
)

// Wire-format decoder for the version-1 messages, standing in for the
// reflection-driven proto.Unmarshal. Unknown fields and fields of another wire
// type are skipped, repeated fields append, later scalars replace earlier ones,
// texts must be valid UTF-8; anything malformed is an error.

var errProto = errors.New("proto: cannot parse invalid wire-format data")

type protoField struct {
	num  int
	wire int
	val  uint64 // varint, fixed32, fixed64
	data []byte // length-delimited
}

func protoVarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		if i == 9 && b[i] > 1 {
			return 0, -1
		}
		v |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, -1
}

func protoFields(b []byte, each func(f protoField) bool) error {
	depth := 0
	for len(b) > 0 {
		tag, n := protoVarint(b)
		if n < 0 || tag>>3 == 0 || tag>>3 > 1<<29-1 {
			return errProto
		}
		b = b[n:]
		f := protoField{num: int(tag >> 3), wire: int(tag & 7)}
		switch f.wire {
		case 0:
			f.val, n = protoVarint(b)
			if n < 0 {
				return errProto
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return errProto
			}
			b = b[8:]
		case 2:
			size, n := protoVarint(b)
			if n < 0 || size > uint64(len(b)-n) {
				return errProto
			}
			f.data = b[n : n+int(size)]
			b = b[n+int(size):]
		case 3:
			depth++
			continue
		case 4:
			depth--
			if depth < 0 {
				return errProto
			}
			continue
		case 5:
			if len(b) < 4 {
				return errProto
			}
			f.val = uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
			b = b[4:]
		default:
			return errProto
		}
		if depth == 0 && !each(f) {
			return errProto
		}
	}
	if depth != 0 {
		return errProto
	}
	return nil
}

func protoText(f protoField, to *string) bool {
	if !utf8.Valid(f.data) {
		return false
	}
	*to = string(f.data)
	return true
}

func protoFloat(f protoField) float32 { return math.Float32frombits(uint32(f.val)) }

func protoEntry(b []byte, m *map[string]string) bool {
	var k, v string
	if protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 2:
			return protoText(f, &k)
		case f.num == 2 && f.wire == 2:
			return protoText(f, &v)
		}
		return true
	}) != nil {
		return false
	}
	if *m == nil {
		*m = make(map[string]string)
	}
	(*m)[k] = v
	return true
}

func protoEvent(b []byte, m *rapv1.CustomEventCapture) bool {
	return protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 5:
			m.Time = protoFloat(f)
		case f.num == 2 && f.wire == 2:
			return protoText(f, &m.Name)
		case f.num == 3 && f.wire == 2:
			return protoText(f, &m.Contents)
		case f.num == 4 && f.wire == 2:
			return protoEntry(f.data, &m.Data)
		}
		return true
	}) == nil
}

func protoVector(b []byte, m *rapv1.VectorCapture) bool {
	return protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 5:
			m.Time = protoFloat(f)
		case f.num == 2 && f.wire == 5:
			m.X = protoFloat(f)
		case f.num == 3 && f.wire == 5:
			m.Y = protoFloat(f)
		case f.num == 4 && f.wire == 5:
			m.Z = protoFloat(f)
		}
		return true
	}) == nil
}

func protoLife(b []byte, m *rapv1.LifeCycleEventCapture) bool {
	return protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 5:
			m.Time = protoFloat(f)
		case f.num == 2 && f.wire == 0:
			m.Type = rapv1.EnumLifeType(int32(f.val))
		}
		return true
	}) == nil
}

func protoSubject(b []byte, m *rapv1.SubjectRecording) bool {
	return protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 0:
			m.Id = int32(f.val)
		case f.num == 2 && f.wire == 2:
			return protoText(f, &m.Name)
		case f.num == 3 && f.wire == 2:
			return protoEntry(f.data, &m.Metadata)
		case f.num == 4 && f.wire == 2:
			e := new(rapv1.CustomEventCapture)
			m.CustomEvents = append(m.CustomEvents, e)
			return protoEvent(f.data, e)
		case f.num == 5 && f.wire == 2:
			e := new(rapv1.LifeCycleEventCapture)
			m.LifecycleEvents = append(m.LifecycleEvents, e)
			return protoLife(f.data, e)
		case f.num == 6 && f.wire == 2:
			e := new(rapv1.VectorCapture)
			m.CapturedPositions = append(m.CapturedPositions, e)
			return protoVector(f.data, e)
		case f.num == 7 && f.wire == 2:
			e := new(rapv1.VectorCapture)
			m.CapturedRotations = append(m.CapturedRotations, e)
			return protoVector(f.data, e)
		}
		return true
	}) == nil
}

//model: github.com/golang/protobuf/proto.Unmarshal
func ProtoUnmarshal(b []byte, msg interface {
	Reset()
	String() string
	ProtoMessage()
}) error {
	m, ok := msg.(*rapv1.Recording)
	if !ok {
		Unsupported("proto.Unmarshal into another message")
	}
	*m = rapv1.Recording{}
	return protoFields(b, func(f protoField) bool {
		switch {
		case f.num == 1 && f.wire == 2:
			return protoText(f, &m.Name)
		case f.num == 2 && f.wire == 2:
			return protoEntry(f.data, &m.Metadata)
		case f.num == 3 && f.wire == 2:
			e := new(rapv1.SubjectRecording)
			m.Subjects = append(m.Subjects, e)
			return protoSubject(f.data, e)
		case f.num == 4 && f.wire == 2:
			e := new(rapv1.CustomEventCapture)
			m.CustomEvents = append(m.CustomEvents, e)
			return protoEvent(f.data, e)
		}
		return true
	})
}
