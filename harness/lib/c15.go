package main

import (
	"math"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/encoding"
	"github.com/recolude/rap/internal/vsym"
)

func finite(f float64) {
	vsym.Assume(!math.IsNaN(f))
	vsym.Assume(!math.IsInf(f, 0))
}

func finiteTimes(c collSpec) collSpec {
	for _, k := range c.caps {
		finite(k.t)
	}
	return c
}

// window is a bound of a window: any number, also infinite.
func window(name string) float64 {
	f := vsym.F64(name)
	vsym.Assume(!math.IsNaN(f))
	return f
}

// sliced is what the documentation says a slice of the recording is.
func sliced(r recSpec, beg, end float64, keep bool) recSpec {
	out := r
	out.colls = nil
	for _, c := range r.colls {
		d := c
		d.caps = nil
		for _, k := range c.caps {
			if k.t >= beg && k.t < end {
				d.caps = append(d.caps, k)
			}
		}
		out.colls = append(out.colls, d)
	}
	out.kids = nil
	for _, k := range r.kids {
		out.kids = append(out.kids, sliced(k, beg, end, keep))
	}
	if !keep {
		out.bins = nil
	}
	return out
}

func dressed(id string, meta string) recSpec {
	return recSpec{id: id, name: vsym.Str("name", 1), meta: []fieldSpec{{meta, symProp(pInt)}},
		bins: []binSpec{{name: "b", data: []byte{7, 8}, meta: []fieldSpec{{"bk", symProp(pByte)}}}},
		refs: []refSpec{{name: "ref", uri: vsym.Str("uri", 1), size: vsym.U64("size")}}}
}

// A three-level tree whose collections hold 0 to 3 captures at arbitrary finite times in any order, any finite or
// infinite window (also inverted), each option given or omitted.
//v: reach=sliced,kept,dropped cases=5
func C15_tree() {
	kind := vsym.Case(5)
	want := dressed("r", "m")
	kid := dressed("k", "n")
	grand := dressed("g", "o")
	want.colls = []collSpec{finiteTimes(symColl(kind, 3)), finiteTimes(symColl((kind+1)%5, 0))}
	kid.colls = []collSpec{finiteTimes(symColl((kind+2)%5, 1))}
	grand.colls = []collSpec{finiteTimes(symColl((kind+3)%5, 1))}
	kid.kids = []recSpec{grand}
	want.kids = []recSpec{kid, {id: "s"}}
	beg, end, keep := math.Inf(-1), math.Inf(1), true
	var opts []format.SliceOption
	switch vsym.Choose("bounds", 4) {
	case 1:
		beg = window("beginning")
		opts = append(opts, format.BeginningOfSlice(beg))
	case 2:
		end = window("end")
		opts = append(opts, format.EndOfSlice(end))
	case 3:
		beg, end = window("beginning"), window("end")
		opts = append(opts, format.EndOfSlice(end), format.BeginningOfSlice(beg))
	}
	switch vsym.Choose("binaries", 3) {
	case 1:
		opts = append(opts, format.KeepBinariesInSlice(true))
	case 2:
		keep = false
		opts = append(opts, format.KeepBinariesInSlice(false))
	}
	src := mkRec(want)
	got := format.Slice(src, opts...)
	exp := sliced(want, beg, end, keep)
	checkRec(got, exp, true)
	checkRec(src, want, true)
	vsym.Reach("sliced")
	if len(exp.colls[0].caps) > 0 {
		vsym.Reach("kept")
	}
	if len(exp.colls[0].caps) < 3 {
		vsym.Reach("dropped")
	}
}

// Slicing one collection directly, four captures of arbitrary (also infinite) times, any window.
//v: reach=sliced
func C15_collection() {
	kind := vsym.Choose("kind", 5)
	c := symColl(kind, 4)
	for _, k := range c.caps {
		vsym.Assume(!math.IsNaN(k.t))
	}
	beg, end := window("beginning"), window("end")
	coll := mkColl(c)
	got := coll.Slice(beg, end)
	vsym.Assert(sameColl(got, sliced(recSpec{colls: []collSpec{c}}, beg, end, true).colls[0]), "slice of a collection")
	vsym.Assert(sameColl(coll, c), "the sliced collection is unchanged")
	vsym.Reach("sliced")
}

func chronological(c collSpec) bool {
	ok := true
	for i := 1; i < len(c.caps); i++ {
		ok = vsym.And(ok, !(c.caps[i].t < c.caps[i-1].t))
	}
	return ok
}

func timesOf(r recSpec) []float64 {
	var out []float64
	for _, c := range r.colls {
		for _, k := range c.caps {
			out = append(out, k.t)
		}
	}
	for _, k := range r.kids {
		out = append(out, timesOf(k)...)
	}
	return out
}

// timedTree: three collections in the root, one in each of a child, its child and a second child; n captures in the one
// picked by where and one in each of the others, none in the one after it.
func timedTree(where, n int) (recSpec, []collSpec) {
	var cs []collSpec
	for i := 0; i < 6; i++ {
		k := 1
		if i == where {
			k = n
		} else if i == (where+1)%6 {
			k = 0
		} else if i == (where+2)%6 {
			k = 2
		}
		c := collSpec{kind: (i + where) % 5, name: "c"}
		for j := 0; j < k; j++ {
			t := vsym.Real("t", -1e300, 1e300)
			c.caps = append(c.caps, capSpec{t: t, name: "e"})
		}
		cs = append(cs, c)
	}
	grand := recSpec{id: "g", colls: []collSpec{cs[3]}}
	kid := recSpec{id: "k", colls: []collSpec{cs[4]}, kids: []recSpec{grand, {id: "empty"}}}
	return recSpec{id: "r", colls: []collSpec{cs[0], cs[1], cs[2]}, kids: []recSpec{kid, {id: "l", colls: []collSpec{cs[5]}}}}, cs
}

// Recordings of three levels and six collections of all kinds, up to four captures each, at arbitrary times within 1e300, in any order.
//v: reach=valid,invalid mode=real
func C16_tree() {
	want, cs := timedTree(vsym.Choose("where", 6), 4)
	ok := true
	for _, c := range cs {
		ok = vsym.And(ok, chronological(c))
	}
	rec := mkRec(want)
	var err error
	switch vsym.Choose("option", 3) {
	case 0:
		err = format.Validate(rec)
	case 1:
		err = format.Validate(rec, format.RequireChronologicalCapture(true))
	case 2:
		vsym.Assert(format.Validate(rec, format.RequireChronologicalCapture(false)) == nil, "without the requirement every recording is valid")
		return
	}
	if err == nil {
		vsym.Assert(ok, "an accepted recording is chronological everywhere")
		vsym.Reach("valid")
	} else {
		vsym.Assert(!ok, "a chronological recording is accepted")
		vsym.Reach("invalid")
	}
}

// One collection of 0 to 6 captures.
//v: reach=valid,invalid
func C16_collection() {
	c := collSpec{kind: vsym.Choose("kind", 5), name: "c"}
	for j := vsym.Choose("captures", 7); j > 0; j-- {
		t := vsym.F64("t")
		vsym.Assume(!math.IsNaN(t))
		c.caps = append(c.caps, capSpec{t: t, name: "e"})
	}
	err := format.Validate(mkRec(recSpec{id: "r", kids: []recSpec{{id: "k", colls: []collSpec{c}}}}))
	ok := chronological(c)
	if err == nil {
		vsym.Assert(ok, "an accepted recording is chronological")
		vsym.Reach("valid")
	} else {
		vsym.Assert(!ok, "a chronological recording is accepted")
		vsym.Reach("invalid")
	}
}

// Recordings of three levels and six chronological collections, up to four captures each, at arbitrary times within 1e300.
//v: reach=bounds mode=real
func C17_tree() {
	want, cs := timedTree(vsym.Choose("where", 6), 4)
	for _, c := range cs {
		vsym.Assume(chronological(c))
	}
	rec := mkRec(want)
	start, end := format.RecordingStart(rec), format.RecordingEnd(rec)
	inStart, inEnd := false, false
	covers := true
	for _, t := range timesOf(want) {
		covers = vsym.And(covers, vsym.And(start <= t, t <= end))
		inStart = vsym.Or(inStart, start == t)
		inEnd = vsym.Or(inEnd, end == t)
	}
	vsym.Assert(covers, "start and end cover every capture")
	vsym.Assert(inStart, "the start is the time of a capture")
	vsym.Assert(inEnd, "the end is the time of a capture")
	vsym.Reach("bounds")
}

// The duration is the difference of end and start (one capture at each end of the tree).
//v: reach=duration
func C17_duration() {
	a, b := vsym.F64("t"), vsym.F64("t")
	finite(a)
	finite(b)
	vsym.Assume(a <= b)
	lo := recSpec{id: "a", colls: []collSpec{{kind: cPos, name: "p", caps: []capSpec{{t: a}}}}}
	hi := recSpec{id: "b", colls: []collSpec{{kind: cEnum, name: "p"}, {kind: cEvent, name: "p", caps: []capSpec{{t: a}, {t: b}}}}}
	var r recSpec
	switch vsym.Choose("shape", 3) {
	case 0:
		r = recSpec{kids: []recSpec{lo, hi, {}}}
	case 1:
		r = hi
		r.kids = []recSpec{lo}
	case 2:
		r = lo
		r.kids = []recSpec{{id: "m", kids: []recSpec{hi}}}
	}
	rec := mkRec(r)
	vsym.Assert(format.RecordingStart(rec) == a, "start of the recording")
	vsym.Assert(format.RecordingEnd(rec) == b, "end of the recording")
	vsym.Assert(format.RecordingDuration(rec) == format.RecordingEnd(rec)-format.RecordingStart(rec), "duration is end minus start")
	vsym.Reach("duration")
}

// One collection of each kind with 1 to 4 captures at arbitrary times.
//v: reach=collection
func C17_collection() {
	c := symColl(vsym.Choose("kind", 5), 1+vsym.Choose("captures", 4))
	coll := mkColl(c)
	n := len(c.caps)
	vsym.Assert(vsym.SameF64(coll.Start(), c.caps[0].t), "start of a collection is its first capture")
	vsym.Assert(vsym.SameF64(coll.End(), c.caps[n-1].t), "end of a collection is its last capture")
	vsym.Assert(coll.Length() == n, "length of a collection is its number of captures")
	for i := range c.caps {
		vsym.Assert(sameCapture(c.kind, coll.CaptureAt(i), c.caps[i]), "captures by index")
	}
	for _, k := range c.caps {
		finite(k.t)
	}
	vsym.Assert(vsym.SameF64(encoding.CollectionDuration(coll), c.caps[n-1].t-c.caps[0].t), "duration of a collection")
	vsym.Reach("collection")
}
