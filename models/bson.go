package vsymmodels

import (
	"math"
	"strconv"
	"time"

	"go.mongodb.org/mongo-driver/bson/bsontype"
)

// go.mongodb.org/mongo-driver/bson: the encoder, by the kind of the value.

//model: go.mongodb.org/mongo-driver/bson.MarshalValue
func BSONMarshalValue(v any) (bsontype.Type, []byte, error) {
	t, b, err := bencode(v)
	if err != nil {
		return 0, nil, err
	}
	return t, b, nil
}

//model: go.mongodb.org/mongo-driver/bson.Marshal
func BSONMarshal(v any) ([]byte, error) {
	if m, ok := v.(interface{ MarshalBSON() ([]byte, error) }); ok {
		return m.MarshalBSON()
	}
	kind, _, _ := Parts(v)
	switch kind {
	case 8, 9:
		_, b, err := bencode(v)
		if err != nil {
			return nil, err
		}
		return b, nil
	case 11:
		if TypeName(v) == "" {
			return nil, &jsonError{"nil document"}
		}
		return []byte{5, 0, 0, 0, 0}, nil // a nil map
	}
	return nil, &jsonError{"not a document"}
}

func b32(n int) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }

func b64(n uint64) []byte { return append(b32(int(uint32(n))), b32(int(uint32(n>>32)))...) }

func bdoc(elems []byte) []byte {
	return append(append(b32(len(elems)+5), elems...), 0)
}

func belem(out []byte, key string, v any, array bool) ([]byte, error) {
	t, b, err := bencode(v)
	if err != nil {
		return nil, err
	}
	for i := 0; i < len(key) && !array; i++ {
		if key[i] == 0 {
			return nil, &jsonError{"BSON element key cannot contain null bytes"}
		}
	}
	out = append(append(append(out, byte(t)), key...), 0)
	return append(out, b...), nil
}

func bencode(v any) (bsontype.Type, []byte, error) {
	if v == nil {
		return 0x0a, nil, nil
	}
	if m, ok := v.(interface {
		MarshalBSONValue() (bsontype.Type, []byte, error)
	}); ok {
		return m.MarshalBSONValue()
	}
	if m, ok := v.(interface{ MarshalBSON() ([]byte, error) }); ok {
		b, err := m.MarshalBSON()
		return 3, b, err
	}
	switch x := v.(type) {
	case time.Time:
		return 9, b64(uint64(x.Unix()*1000 + int64(x.Nanosecond())/1000000)), nil
	case []byte:
		if x == nil {
			return 0x0a, nil, nil
		}
		return 5, append(append(b32(len(x)), 0), x...), nil
	}
	kind, names, vals := Parts(v)
	switch kind {
	case 1:
		if vals[0].(bool) {
			return 8, []byte{1}, nil
		}
		return 8, []byte{0}, nil
	case 2:
		n := vals[0].(int64)
		switch v.(type) {
		case int8, int16, int32:
			return 0x10, b32(int(n)), nil
		case int64:
			return 0x12, b64(uint64(n)), nil
		case int:
			if n >= math.MinInt32 && n <= math.MaxInt32 {
				return 0x10, b32(int(n)), nil
			}
			return 0x12, b64(uint64(n)), nil
		}
	case 3:
		switch v.(type) {
		case uint8, uint16:
			return 0x10, b32(int(vals[0].(uint64))), nil
		}
	case 4, 5:
		return 1, b64(math.Float64bits(vals[0].(float64))), nil
	case 6:
		s := vals[0].(string)
		return 2, append(append(b32(len(s)+1), s...), 0), nil
	case 7:
		var out []byte
		var err error
		for i, x := range vals {
			if out, err = belem(out, strconv.Itoa(i), x, true); err != nil {
				return 0, nil, err
			}
		}
		return 4, bdoc(out), nil
	case 8, 9:
		if kind == 9 {
			names = BSONNames(v)
		}
		var out []byte
		var err error
		for i, x := range vals {
			if out, err = belem(out, names[i], x, false); err != nil {
				return 0, nil, err
			}
		}
		return 3, bdoc(out), nil
	case 10:
		return bencode(vals[0])
	case 11:
		return 0x0a, nil, nil
	}
	Unsupported("bson of " + TypeName(v))
	return 0, nil, nil
}
