// Package vsym is the harness interface. During analysis the engine gives these
// functions symbolic meaning; compiled natively they replay one assignment.
package vsym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strings"
)

type replay struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Vals    map[string]uint64 `json:"vals"`
	Choices map[string]int    `json:"choices"`
	Repeat  int               `json:"repeat"`
	Tier    string            `json:"tier"`
}

type obs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

type result struct {
	Fails  []string `json:"fails"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
	Obs    []obs    `json:"obs"`
}

var (
	cur    *replay
	res    *result
	counts map[string]int
)

type assumeFailed struct{}

func key(name string) string {
	k := counts[name]
	counts[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func val(name string) uint64 { return cur.Vals[key(name)] }

func U8(name string) uint8       { return uint8(val(name)) }
func U16(name string) uint16     { return uint16(val(name)) }
func U32(name string) uint32     { return uint32(val(name)) }
func U64(name string) uint64     { return val(name) }
func I32(name string) int32      { return int32(val(name)) }
func I64(name string) int64      { return int64(val(name)) }
func Int(name string) int        { return int(val(name)) }
func Bool(name string) bool      { return val(name) != 0 }
func F64(name string) float64    { return math.Float64frombits(val(name)) }
func F32(name string) float32    { return math.Float32frombits(uint32(val(name))) }
func SameF64(a, b float64) bool  { return math.Float64bits(a) == math.Float64bits(b) }
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func Implies(a, b bool) bool     { return !a || b }
func EqBytes(a, b []byte) bool   { return bytes.Equal(a, b) }
func Case(n int) int             { return cur.Case }
func Native() bool               { return true }
func Thorough() bool             { return cur.Tier == "thorough" }
func RealMode() bool             { return false }
func Reach(label string)         {}
func Conc(x uint64) uint64       { return x }
func MapOrder(on bool)           {}

// Real is a finite float in [lo, hi].
func Real(name string, lo, hi float64) float64 {
	k := key(name)
	b, ok := cur.Vals[k]
	v := math.Float64frombits(b)
	if !ok && (v < lo || v > hi) {
		v = lo
	}
	Assume(lo <= v && v <= hi)
	return v
}

// Grid is a multiple of 2^-frac in [lo, hi] (real mode only).
func Grid(name string, lo, hi float64, frac int) float64 {
	s := math.Ldexp(1, frac)
	v := math.Round(Real(name, lo, hi)*s) / s
	Assume(lo <= v && v <= hi)
	return v
}

// Cut: assertions may first be tried with x free (it only helps the solver).
func Cut(x float64) {}

// Snapshot marks the point after which Unwritten watches.
func Snapshot() {}

// Unwritten asserts that nothing that can be reached from package-level variables or the given values was written since
// Snapshot.
func Unwritten(label string, shared ...interface{}) {}

// Range is an integer in [lo, hi], symbolic.
func Range(name string, lo, hi int) int {
	v := int(val(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Choose is an integer in [0, n), enumerated.
func Choose(name string, n int) int { return cur.Choices[key(name)] }

func Bytes(name string, n int) []byte {
	k := key(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(cur.Vals[fmt.Sprintf("%s.%d", k, i)])
	}
	return b
}

func Str(name string, n int) string { return string(Bytes(name, n)) }

func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Assume(b bool) {
	if !b {
		panic(assumeFailed{})
	}
}

func Assert(b bool, label string) {
	if !b {
		for _, f := range res.Fails {
			if f == label {
				return
			}
		}
		res.Fails = append(res.Fails, label)
	}
}

func Observe(name string, v any) {
	s := "?"
	switch x := v.(type) {
	case nil:
		s = "nil"
	case bool, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		s = fmt.Sprint(x)
	case float64:
		s = fmt.Sprintf("%016x", math.Float64bits(x))
	case float32:
		s = fmt.Sprintf("%08x", math.Float32bits(x))
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%q", string(x))
	}
	res.Obs = append(res.Obs, obs{name, s})
}

// Active tells whether the process was started to replay.
func Active() bool { return os.Getenv("VSYM_IN") != "" }

func runOne(f func(), rep *replay) (out *result) {
	cur, counts = rep, map[string]int{}
	res = &result{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(assumeFailed); ok {
				res.Assume = true
			} else {
				res.Panic = fmt.Sprint(r)
				if os.Getenv("VSYM_TRACE") != "" {
					buf := make([]byte, 1<<16)
					fmt.Fprintf(os.Stderr, "%s\n%s\n", res.Panic, buf[:runtime.Stack(buf, false)])
				}
				if i := strings.IndexByte(res.Panic, '\n'); i >= 0 {
					res.Panic = res.Panic[:i]
				}
			}
		}
		out = res
	}()
	f()
	return
}

// Main replays the assignments listed in the file named by VSYM_IN.
func Main(table map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VSYM_IN"))
	if err != nil {
		panic(err)
	}
	var reps []*replay
	if err := json.Unmarshal(b, &reps); err != nil {
		panic(err)
	}
	w, err := os.Create(os.Getenv("VSYM_OUT"))
	if err != nil {
		panic(err)
	}
	for _, rep := range reps {
		f := table[rep.Harness]
		var out *result
		for i := 0; i < rep.Repeat || i == 0; i++ {
			out = runOne(f, rep)
			if len(out.Fails) > 0 || out.Panic != "" {
				break
			}
		}
		b, _ := json.Marshal(out)
		w.Write(append(b, '\n'))
	}
	w.Close()
}
