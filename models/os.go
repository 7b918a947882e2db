package vsymmodels

import (
	"io"
	"io/fs"
	"os"
	"time"
)

// Files live in memory, by name; there are no directories. Natively the harness
// runs in a scratch directory of its own.

type osData struct {
	name    string
	b       []byte
	removed bool
}

type osHandle struct {
	f      *os.File
	d      *osData
	pos    int
	flag   int
	closed bool
}

var osDisk []*osData
var osHandles []*osHandle

func osFind(name string) *osData {
	for _, d := range osDisk {
		if d.name == name && !d.removed {
			return d
		}
	}
	return nil
}

func osErr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

//model: os.OpenFile
func OSOpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	d := osFind(name)
	if d == nil {
		if flag&os.O_CREATE == 0 {
			return nil, osErr("open", name, fs.ErrNotExist)
		}
		d = &osData{name: name}
		osDisk = append(osDisk, d)
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, osErr("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		d.b = nil
	}
	h := &osHandle{f: new(os.File), d: d, flag: flag}
	osHandles = append(osHandles, h)
	return h.f, nil
}

//model: os.Open
func OSOpen(name string) (*os.File, error) { return OSOpenFile(name, os.O_RDONLY, 0) }

//model: os.Create
func OSCreate(name string) (*os.File, error) {
	return OSOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//model: os.Remove
func OSRemove(name string) error {
	d := osFind(name)
	if d == nil {
		return osErr("remove", name, fs.ErrNotExist)
	}
	d.removed = true
	return nil
}

//model: os.Rename
func OSRename(from, to string) error {
	d := osFind(from)
	if d == nil {
		return osErr("rename", from, fs.ErrNotExist)
	}
	if from != to {
		OSRemove(to)
		d.name = to
	}
	return nil
}

//model: os.ReadFile
func OSReadFile(name string) ([]byte, error) {
	d := osFind(name)
	if d == nil {
		return nil, osErr("open", name, fs.ErrNotExist)
	}
	return append([]byte{}, d.b...), nil
}

//model: os.WriteFile
func OSWriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OSOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err == nil {
		_, err = FileWrite(f, data)
	}
	return err
}

type osInfo struct {
	name string
	size int64
}

func (i osInfo) Name() string       { return i.name }
func (i osInfo) Size() int64        { return i.size }
func (i osInfo) Mode() fs.FileMode  { return 0644 }
func (i osInfo) ModTime() time.Time { return time.Time{} }
func (i osInfo) IsDir() bool        { return false }
func (i osInfo) Sys() any           { return nil }

//model: os.Stat
func OSStat(name string) (fs.FileInfo, error) {
	d := osFind(name)
	if d == nil {
		return nil, osErr("stat", name, fs.ErrNotExist)
	}
	return osInfo{name, int64(len(d.b))}, nil
}

//model: os.Lstat
func OSLstat(name string) (fs.FileInfo, error) { return OSStat(name) }

func osHandleOf(op string, f *os.File) (*osHandle, error) {
	for _, h := range osHandles {
		if h.f == f {
			if h.closed {
				return nil, osErr(op, h.d.name, fs.ErrClosed)
			}
			return h, nil
		}
	}
	if f != nil {
		Unsupported("a file that was not opened")
	}
	return nil, os.ErrInvalid
}

//model: (*os.File).Stat
func FileStat(f *os.File) (fs.FileInfo, error) {
	h, err := osHandleOf("stat", f)
	if err != nil {
		return nil, err
	}
	return osInfo{h.d.name, int64(len(h.d.b))}, nil
}

//model: (*os.File).Name
func FileName(f *os.File) string {
	for _, h := range osHandles {
		if h.f == f {
			return h.d.name
		}
	}
	return ""
}

//model: (*os.File).Read
func FileRead(f *os.File, p []byte) (int, error) {
	h, err := osHandleOf("read", f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == os.O_WRONLY {
		return 0, osErr("read", h.d.name, fs.ErrPermission)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.d.b) {
		return 0, io.EOF
	}
	n := copy(p, h.d.b[h.pos:])
	h.pos += n
	return n, nil
}

//model: (*os.File).ReadAt
func FileReadAt(f *os.File, p []byte, off int64) (int, error) {
	h, err := osHandleOf("read", f)
	if err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, osErr("readat", h.d.name, os.ErrInvalid)
	}
	n := 0
	if off < int64(len(h.d.b)) {
		n = copy(p, h.d.b[off:])
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

//model: (*os.File).Write
func FileWrite(f *os.File, p []byte) (int, error) {
	h, err := osHandleOf("write", f)
	if err != nil {
		return 0, err
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, osErr("write", h.d.name, fs.ErrPermission)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.d.b)
	}
	b := append([]byte{}, h.d.b...)
	for len(b) < h.pos+len(p) {
		b = append(b, 0)
	}
	copy(b[h.pos:], p)
	h.d.b = b
	h.pos += len(p)
	return len(p), nil
}

//model: (*os.File).WriteString
func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

type osReader struct{ f *os.File }

func (r osReader) Read(p []byte) (int, error) { return FileRead(r.f, p) }

type osWriter struct{ f *os.File }

func (w osWriter) Write(p []byte) (int, error) { return FileWrite(w.f, p) }

//model: (*os.File).ReadFrom
func FileReadFrom(f *os.File, r io.Reader) (int64, error) { return io.Copy(osWriter{f}, r) }

//model: (*os.File).WriteTo
func FileWriteTo(f *os.File, w io.Writer) (int64, error) { return io.Copy(w, osReader{f}) }

//model: (*os.File).Seek
func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h, err := osHandleOf("seek", f)
	if err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(h.pos)
	case io.SeekEnd:
		off += int64(len(h.d.b))
	}
	if off < 0 {
		return 0, osErr("seek", h.d.name, os.ErrInvalid)
	}
	h.pos = int(off)
	return off, nil
}

//model: (*os.File).Truncate
func FileTruncate(f *os.File, size int64) error {
	h, err := osHandleOf("truncate", f)
	if err != nil {
		return err
	}
	if size < 0 || size > int64(len(h.d.b)) {
		Unsupported("growing a file")
	}
	h.d.b = append([]byte{}, h.d.b[:size]...)
	return nil
}

//model: (*os.File).Sync
func FileSync(f *os.File) error {
	_, err := osHandleOf("sync", f)
	return err
}

//model: (*os.File).Close
func FileClose(f *os.File) error {
	h, err := osHandleOf("close", f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}
