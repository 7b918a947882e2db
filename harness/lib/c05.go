package main

import (
	"errors"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

var errDisk = errors.New("no space left")

// A destination that takes left bytes and then fails: for good, or only for the one write that does not fit.
type failWriter struct {
	left   int
	once   bool
	whole  bool // the failing write takes nothing
	late   bool // the failing write takes everything
	failed bool
	got    []byte
}

func (f *failWriter) Write(p []byte) (int, error) {
	if f.failed && !f.once {
		return 0, errDisk
	}
	if f.failed || len(p) <= f.left {
		f.left -= len(p)
		f.got = append(f.got, p...)
		return len(p), nil
	}
	f.failed = true
	n := f.left
	if f.whole {
		n = 0
	}
	if f.late {
		n = len(p)
	}
	f.got = append(f.got, p[:n]...)
	f.left = 0
	return n, errDisk
}

// plainNames replaces symbolic event names, whose comparisons multiply the paths without mattering here.
func plainNames(r recSpec) recSpec {
	for i := range r.colls {
		for j := range r.colls[i].caps {
			if r.colls[i].kind == cEvent {
				r.colls[i].caps[j].name = [2]string{"e", "ef"}[j%2]
			}
		}
	}
	for i := range r.kids {
		plainNames(r.kids[i])
	}
	return r
}

func tryWrite(want recSpec, k int, compress bool, tech rapio.TimeStorageTechnique) {
	encs := fullEncoders()
	if tech != rapio.Raw64 {
		encs = compactEncoders(k)
	}
	rec := mkRec(want)
	whole := &failWriter{left: 1 << 40}
	_, err := rapio.NewWriter(encs, compress, whole, tech).Write(rec)
	vsym.Assert(err == nil && !whole.failed, "writing succeeds")
	cuts(len(whole.got), func(n int) {
		modes := 4
		for m := 0; m < modes; m++ {
			if !vsym.Native() {
				m = vsym.Choose("mode", modes)
				modes = 0
			}
			w := &failWriter{left: n, once: m == 1, whole: m == 2, late: m == 3}
			_, err := rapio.NewWriter(encs, compress, w, tech).Write(rec)
			if w.failed {
				vsym.Assert(err != nil, "a failed write is reported")
				vsym.Reach("failed")
			}
		}
	})
}

// Recordings of 10 shapes (all parts, all collection kinds), uncompressed; the destination fails at every byte, for good,
// for one write only, or taking nothing of the failing write.
//v: reach=failed cases=10
func C05_plain() {
	k := vsym.Case(10)
	want := plainNames(cutTree(k))
	tryWrite(want, k, false, rapio.Raw64)
}

// The same, compressed (stand-in for the compressor).
//v: reach=failed cases=10
func C05_compressed() {
	k := vsym.Case(10)
	want := plainNames(cutTree(k))
	tryWrite(want, k, true, rapio.Raw64)
}

// Compact techniques for positions, rotations, floats and times; 0 to 3 captures.
//v: reach=failed cases=6
func C05_compact() {
	k := vsym.Case(6)
	want := recSpec{id: "i", name: "n"}
	for i, kind := range []int{cPos, cEuler, cFloat} {
		c := collSpec{kind: kind, name: vsym.Str("coll", 1)}
		for j := 0; j < (k+i)%4; j++ {
			c.caps = append(c.caps, capSpec{t: float64(j), x: float64(j * 3), y: float64(i - j), z: 7})
		}
		want.colls = append(want.colls, c)
	}
	want.kids = []recSpec{{id: "k", bins: []binSpec{{name: "b", data: []byte{1, 2}}}}, {id: "l"}}
	tryWrite(want, k, k%2 == 1, [2]rapio.TimeStorageTechnique{rapio.BST16, rapio.Raw32}[k/3])
}
