package vsymmodels

import (
	"bufio"
	"errors"
	"io"
)

// Lossless stand-in for compress/flate: every block is a marker byte, a 4-byte
// little-endian length and the bytes; the stream ends with a zero marker. The
// reader consumes exactly the stream from a ByteReader (as the real one does)
// and reports io.ErrUnexpectedEOF for a cut-off stream.

type flateWriter struct {
	w      io.Writer
	buf    []byte
	err    error
	closed bool
}

var errWriteAfterClose = errors.New("flate: write after close")

//model: compress/flate.NewWriter
func FlateNewWriter(w io.Writer, level int) (*flateWriter, error) {
	if level < -2 || level > 9 {
		return nil, errors.New("flate: invalid compression level")
	}
	return &flateWriter{w: w}, nil
}

//model: (*compress/flate.Writer).Write
func FlateWrite(f *flateWriter, p []byte) (int, error) {
	if f.err != nil {
		return 0, f.err
	}
	if f.closed {
		return 0, errWriteAfterClose
	}
	f.buf = append(f.buf, p...)
	return len(p), nil
}

func (f *flateWriter) block() {
	if f.err != nil || len(f.buf) == 0 {
		return
	}
	n := len(f.buf)
	out := []byte{1, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	out = append(out, f.buf...)
	f.buf = nil
	_, f.err = f.w.Write(out)
}

//model: (*compress/flate.Writer).Flush
func FlateFlush(f *flateWriter) error {
	f.block()
	return f.err
}

//model: (*compress/flate.Writer).Close
func FlateClose(f *flateWriter) error {
	if f.closed {
		return nil
	}
	if f.err != nil {
		return f.err
	}
	f.block()
	if f.err == nil {
		_, f.err = f.w.Write([]byte{0})
	}
	f.closed = true
	return f.err
}

//model: (*compress/flate.Writer).Reset
func FlateReset(f *flateWriter, w io.Writer) {
	f.w, f.buf, f.err, f.closed = w, nil, nil, false
}

type flateReader struct {
	r    interface {
		io.Reader
		io.ByteReader
	}
	left int
	done bool
	err  error
}

//model: compress/flate.NewReader
func FlateNewReader(r io.Reader) io.ReadCloser {
	if br, ok := r.(interface {
		io.Reader
		io.ByteReader
	}); ok {
		return &flateReader{r: br}
	}
	return &flateReader{r: bufio.NewReader(r)}
}

func noEOF(err error) error {
	if err == io.EOF {
		return io.ErrUnexpectedEOF
	}
	return err
}

func (f *flateReader) Read(p []byte) (int, error) {
	for {
		if f.err != nil {
			return 0, f.err
		}
		if f.left > 0 {
			n := 0
			for n < len(p) && f.left > 0 {
				b, err := f.r.ReadByte()
				if err != nil {
					f.err = noEOF(err)
					return n, f.err
				}
				p[n] = b
				n++
				f.left--
			}
			return n, nil
		}
		m, err := f.r.ReadByte()
		if err != nil {
			f.err = noEOF(err)
			continue
		}
		if m == 0 {
			f.err = io.EOF
			continue
		}
		if m != 1 {
			f.err = errors.New("flate: corrupt input")
			continue
		}
		var h [4]byte
		for i := 0; i < 4; i++ {
			h[i], err = f.r.ReadByte()
			if err != nil {
				f.err = noEOF(err)
				break
			}
		}
		if f.err == nil {
			f.left = int(h[0]) | int(h[1])<<8 | int(h[2])<<16 | int(h[3])<<24
		}
	}
}

func (f *flateReader) Close() error {
	if f.err == io.EOF {
		return nil
	}
	return f.err
}
