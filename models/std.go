package vsymmodels

import (
	"encoding/binary"
	"encoding/json"
	"io"
	"math"
	"sort"
)

type bySwap struct {
	x    any
	n    int
	less func(i, j int) bool
}

func (b bySwap) Len() int           { return b.n }
func (b bySwap) Less(i, j int) bool { return b.less(i, j) }
func (b bySwap) Swap(i, j int)      { Swap(b.x, i, j) }

// The library's two versions of each algorithm come from one template.

//model: sort.Slice
func SortSlice(x any, less func(i, j int) bool) { sort.Sort(bySwap{x, Count(x), less}) }

//model: sort.SliceStable
func SortSliceStable(x any, less func(i, j int) bool) { sort.Stable(bySwap{x, Count(x), less}) }

//model: sort.SliceIsSorted
func SortSliceIsSorted(x any, less func(i, j int) bool) bool {
	return sort.IsSorted(bySwap{x, Count(x), less})
}

//model: errors.As
func ErrorsAs(err error, target any) bool {
	for err != nil {
		if AssignAs(target, err) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, y := range x.Unwrap() {
				if ErrorsAs(y, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

type sizeError struct{}

func (sizeError) Error() string { return "binary: some values are not fixed-sized" }

func putFlat(order binary.ByteOrder, out []byte, sizes []int, bits []uint64) []byte {
	for i, n := range sizes {
		var b [8]byte
		switch n {
		case 1:
			b[0] = byte(bits[i])
		case 2:
			order.PutUint16(b[:], uint16(bits[i]))
		case 4:
			order.PutUint32(b[:], uint32(bits[i]))
		case 8:
			order.PutUint64(b[:], bits[i])
		}
		out = append(out, b[:n]...)
	}
	return out
}

//model: encoding/binary.Write
func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	sizes, bits, _, ok := Flat(data)
	if !ok {
		return sizeError{}
	}
	_, err := w.Write(putFlat(order, nil, sizes, bits))
	return err
}

//model: encoding/binary.Append
func BinaryAppend(buf []byte, order binary.AppendByteOrder, data any) ([]byte, error) {
	sizes, bits, _, ok := Flat(data)
	if !ok {
		return nil, sizeError{}
	}
	for i, n := range sizes {
		switch n {
		case 1:
			buf = append(buf, byte(bits[i]))
		case 2:
			buf = order.AppendUint16(buf, uint16(bits[i]))
		case 4:
			buf = order.AppendUint32(buf, uint32(bits[i]))
		case 8:
			buf = order.AppendUint64(buf, bits[i])
		}
	}
	return buf, nil
}

//model: encoding/binary.Size
func BinarySize(v any) int {
	sizes, _, _, ok := Flat(v)
	if !ok {
		return -1
	}
	n := 0
	for _, s := range sizes {
		n += s
	}
	return n
}

//model: encoding/binary.Read
func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	sizes, _, ptrs, ok := Flat(data)
	if !ok || len(ptrs) != len(sizes) {
		return sizeError{}
	}
	n := 0
	for _, s := range sizes {
		n += s
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	for i, n := range sizes {
		var x uint64
		switch n {
		case 1:
			x = uint64(b[0])
		case 2:
			x = uint64(order.Uint16(b))
		case 4:
			x = uint64(order.Uint32(b))
		case 8:
			x = order.Uint64(b)
		}
		b = b[n:]
		switch k, _, _ := Target(ptrs[i]); k {
		case 1:
			Assign(ptrs[i], x != 0)
		case 2:
			Assign(ptrs[i], int64(x))
		case 3:
			Assign(ptrs[i], x)
		case 4:
			Assign(ptrs[i], math.Float64frombits(x))
		case 5:
			*ptrs[i].(*float32) = math.Float32frombits(uint32(x))
		}
	}
	return nil
}

type jsonDecoding struct {
	r    io.Reader
	buf  []byte
	read bool
	err  error
}

var jsonDecoders map[*json.Decoder]*jsonDecoding

//model: encoding/json.NewDecoder
func JSONNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	if jsonDecoders == nil {
		jsonDecoders = map[*json.Decoder]*jsonDecoding{}
	}
	jsonDecoders[d] = &jsonDecoding{r: r}
	return d
}

//model: (*encoding/json.Decoder).Decode
func JSONDecode(d *json.Decoder, v any) error {
	x := jsonDecoders[d]
	if x.err != nil {
		return x.err
	}
	if !x.read {
		x.read = true
		x.buf, x.err = io.ReadAll(x.r)
		if x.err != nil {
			return x.err
		}
	}
	p := &jparser{b: x.buf}
	p.space()
	if p.i == len(p.b) {
		x.err = io.EOF
		return x.err
	}
	n := p.value()
	if n == nil {
		x.err = &jsonError{"syntax error"}
		return x.err
	}
	b := x.buf
	x.buf = x.buf[p.i:]
	return jassign(b, n, v)
}

//model: (*encoding/json.Decoder).More
func JSONMore(d *json.Decoder) bool {
	Unsupported("json.Decoder.More")
	return false
}

//model: (*encoding/json.Decoder).UseNumber
func JSONUseNumber(d *json.Decoder) { Unsupported("json.Decoder.UseNumber") }

//model: (*encoding/json.Decoder).DisallowUnknownFields
func JSONDisallow(d *json.Decoder) { Unsupported("json.Decoder.DisallowUnknownFields") }

type jsonEncoding struct {
	w              io.Writer
	prefix, indent string
}

var jsonEncoders map[*json.Encoder]*jsonEncoding

//model: encoding/json.NewEncoder
func JSONNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	if jsonEncoders == nil {
		jsonEncoders = map[*json.Encoder]*jsonEncoding{}
	}
	jsonEncoders[e] = &jsonEncoding{w: w}
	return e
}

//model: (*encoding/json.Encoder).SetIndent
func JSONSetIndent(e *json.Encoder, prefix, indent string) {
	jsonEncoders[e].prefix, jsonEncoders[e].indent = prefix, indent
}

//model: (*encoding/json.Encoder).SetEscapeHTML
func JSONSetEscapeHTML(e *json.Encoder, on bool) {
	if !on {
		Unsupported("json.Encoder.SetEscapeHTML")
	}
}

//model: (*encoding/json.Encoder).Encode
func JSONEncode(e *json.Encoder, v any) error {
	x := jsonEncoders[e]
	b, err := jencode(v)
	if err != nil {
		return err
	}
	if x.prefix != "" || x.indent != "" {
		b = jindent(b, x.prefix, x.indent)
	}
	_, err = x.w.Write(append(b, '\n'))
	return err
}

//model: encoding/json.MarshalIndent
func JSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b, err := jencode(v)
	if err != nil {
		return nil, err
	}
	return jindent(b, prefix, indent), nil
}

// jindent lays out compact JSON.
func jindent(b []byte, prefix, indent string) []byte {
	var out []byte
	depth := 0
	line := func() {
		out = append(out, '\n')
		out = append(out, prefix...)
		for i := 0; i < depth; i++ {
			out = append(out, indent...)
		}
	}
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			out = append(out, c)
			if c == '\\' {
				i++
				out = append(out, b[i])
			}
			in = c != '"'
			continue
		}
		switch c {
		case '"':
			in = true
			out = append(out, c)
		case '{', '[':
			out = append(out, c)
			if b[i+1] == '}' || b[i+1] == ']' {
				i++
				out = append(out, b[i])
				break
			}
			depth++
			line()
		case '}', ']':
			depth--
			line()
			out = append(out, c)
		case ',':
			out = append(out, c)
			line()
		case ':':
			out = append(out, c, ' ')
		default:
			out = append(out, c)
		}
	}
	return out
}
