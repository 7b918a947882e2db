// Package vsymmodels holds Go-coded stand-ins for library functions whose real
// bodies are outside the encoding (reflection, table-driven compression). The
// engine redirects the named functions here; nothing is compiled natively.
package vsymmodels

func Unsupported(why string)  {}
func Symbolic(v any) bool     { return false }
func TypeName(v any) string   { return "" }

// Scalar unwraps a value of basic kind.
func Scalar(v any) (kind int, b bool, i uint64, f float64, s string) { return }

// Parts takes a value apart: kind 0 other, 1 bool, 2 signed, 3 unsigned, 4 float64, 5 float32,
// 6 string, 7 slice or array, 8 map with string keys, 9 struct, 10 pointer, 11 nil. Basic values are
// converted to their widest type; struct names are the json ones, "?" in front for omitempty.
func Parts(v any) (kind int, names []string, vals []any) { return }

// BSONNames are the bson names of the fields of a struct.
func BSONNames(v any) []string { return nil }

// Target is Parts for what a pointer points at, with pointers to the fields of a struct.
func Target(p any) (kind int, names []string, ptrs []any) { return }

// Assign stores a basic value (bool, int64, uint64, float64, string) through a pointer to its kind.
func Assign(p, v any) {}

// Grow makes *p a slice of n zero elements and gives their addresses.
func Grow(p any, n int) []any { return nil }

// IntOf tells whether a symbolic float is a small integer by construction.
func IntOf(f float64) (int64, bool) { return 0, false }

// Bits is the size of the number a pointer points at.
func Bits(p any) int { return 0 }

// Swap exchanges two elements of a slice.
func Swap(s any, i, j int) {}

// Count is the length of a slice.
func Count(s any) int { return 0 }

// AssignAs stores err through a pointer if the type it points at can hold it.
func AssignAs(target any, err error) bool { return false }

// Flat lists the numbers and truth values of fixed size a value or what it points at is made of: bytes
// each takes, bits, and where it can be stored to, its address.
func Flat(v any) (sizes []int, bits []uint64, ptrs []any, ok bool) { return }
