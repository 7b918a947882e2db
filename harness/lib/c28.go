package main

import (
	"bytes"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
)

// settle checks the numbers of the collections in got against the precision of the default techniques (16-bit times,
// 48-bit oct-trees, 32-bit rotations) and returns want with those numbers in place of its own.
func settle(got format.Recording, want recSpec, sl float64) recSpec {
	colls := got.CaptureCollections()
	vsym.Assert(len(colls) == len(want.colls), "number of collections kept")
	out := want
	out.colls = nil
	for i, w := range want.colls {
		vsym.Assert(sameCollHead(colls[i], w), "collection name, kind, length and members kept")
		g := capsOf(colls[i])
		c := w
		c.caps = append([]capSpec{}, w.caps...)
		var ts []float64
		for j := range w.caps {
			ts = append(ts, w.caps[j].t)
			c.caps[j].t = g[j].t
		}
		if len(ts) > 0 {
			vsym.Assert(abs(g[0].t-ts[0]) <= sl, "the first time is exact up to 32-bit rounding")
		}
		for j := 1; j < len(ts); j++ {
			gap := maxOf(steps(ts))
			vsym.Assert(abs(g[j].t-ts[j]) <= gap*float64(j)/(1<<17)+sl*float64(2*j+1), "times within half a step per preceding capture")
			vsym.Assert(g[j].t >= g[j-1].t, "times stay chronological")
		}
		if w.kind == cPos || w.kind == cEuler {
			for axis := 0; axis < 3; axis++ {
				var vs []float64
				for j := range w.caps {
					k := w.caps[j]
					vs = append(vs, *k.axis(axis))
				}
				for j := range g {
					got := *g[j].axis(axis)
					*c.caps[j].axis(axis) = got
					if w.kind == cEuler {
						vsym.Assert(abs(got-vs[j]) <= sl, "rotations exact up to 32-bit rounding")
						continue
					}
					if j == 0 {
						vsym.Assert(abs(got-vs[0]) <= sl, "the first position is exact up to 32-bit rounding")
						continue
					}
					st := steps(vs)
					vsym.Assert(abs(got-vs[j]) <= (maxOf(st)-minOf(st))*float64(j)/(1<<17)+sl*float64(1+2*j), "positions within half a step per preceding capture")
				}
			}
		}
		out.colls = append(out.colls, c)
	}
	out.kids = nil
	vsym.Assert(len(got.Recordings()) == len(want.kids), "number of sub-recordings kept")
	for i, k := range want.kids {
		out.kids = append(out.kids, settle(got.Recordings()[i], k, sl))
	}
	return out
}

func defaultTrip(want recSpec, sl float64) {
	var out bytes.Buffer
	_, err := rapio.NewRecoludeWriter(&out).Write(mkRec(want))
	vsym.Assert(err == nil, "the default writer accepts the recording")
	rec, _, err := rapio.Load(bytes.NewReader(out.Bytes()))
	vsym.Assert(err == nil && rec != nil, "the default loader reads the file")
	checkRec(rec, settle(rec, want, sl), true)
	vsym.Reach("compared")
}

// defaultKinds replaces collections of floats, which the default writer refuses, and the numbers the quantisers would make
// expensive: symbolic event names, enum values and metadata stay.
func defaultKinds(r recSpec) recSpec {
	var colls []collSpec
	for _, c := range r.colls {
		if c.kind == cFloat {
			continue
		}
		for j := range c.caps {
			k := &c.caps[j]
			k.t = float64(j)*1.5 - 2
			if c.kind != cEnum && c.kind != cEvent {
				k.x, k.y, k.z = float64(j)/3, -7*float64(j), 0.1
			}
		}
		colls = append(colls, c)
	}
	r.colls = colls
	for i := range r.kids {
		r.kids[i] = defaultKinds(r.kids[i])
	}
	return r
}

// Trees of 10 shapes (all parts; event, position, rotation and enum collections) with symbolic texts, metadata, binaries,
// references, event names and enum values, and fixed numbers.
//v: reach=compared cases=10
func C28_tree() {
	k := vsym.Case(10)
	want := defaultKinds(layoutTree(k, 2))
	if k == 3 {
		want.kids[0].kids[0].meta = nil
		plainNames(want)
	}
	defaultTrip(want, 1e-6)
}

// A collection of each of the four kinds at any depth, 0 to 3 (thorough: 6) captures at chronological times and coordinates
// that are multiples of 1/1024 within 1000.
//v: mode=real reach=compared cases=12 tcases=21
func C28_numbers() {
	k := vsym.Case(21)
	n := k / 3
	c := lossyColl([3]int{cPos, cEuler, cEnum}[k%3], "c", n, lossy)
	for i := 1; i < n; i++ {
		vsym.Assume(c.caps[i].t >= c.caps[i-1].t)
	}
	want := recSpec{id: "r", name: "n"}
	switch vsym.Choose("depth", 3) {
	case 0:
		want.colls = []collSpec{c}
	case 1:
		want.kids = []recSpec{{id: "k"}, {id: "l", colls: []collSpec{c}}}
	case 2:
		want.kids = []recSpec{{id: "k", kids: []recSpec{{id: "l", colls: []collSpec{c, {kind: cEvent, name: "e"}}}}}}
	}
	defaultTrip(want, 1e-9)
}

// A binary of 70000 or 1200000 bytes, one of them symbolic, and parts after it.
//v: reach=compared steps=600000000
func C28_wide() {
	data := make([]byte, [2]int{70000, 1200000}[vsym.Choose("length", 2)])
	seed := uint32(1)
	for i := range data { // nothing a compressor could shorten
		seed = seed*1664525 + 1013904223
		data[i] = byte(seed >> 24)
	}
	data[len(data)-7] = vsym.U8("byte")
	defaultTrip(recSpec{id: "r", name: "n", bins: []binSpec{{name: "b", data: data}}, kids: []recSpec{{id: "k", name: "after"}}}, 1e-6)
}

// Several collections of the same kind, in several recordings, share the dictionaries of their encoder; symbolic names and
// enum members (1 character).
//v: reach=compared
func C28_shared() {
	a, b := vsym.Str("a", 1), vsym.Str("b", 1)
	ev := func(n string, key string) collSpec {
		return collSpec{kind: cEvent, name: "e", caps: []capSpec{{t: 1, name: n, meta: []fieldSpec{{key, propSpec{kind: pInt, i: vsym.I32("i")}}}}, {t: 2, name: "z"}}}
	}
	en := func(members ...string) collSpec {
		return collSpec{kind: cEnum, name: "m", members: members, caps: []capSpec{{t: 1, v: vsym.Range("v", 0, 127)}}}
	}
	want := recSpec{id: "r", colls: []collSpec{ev(a, "k"), en(a, b)}}
	want.kids = []recSpec{{id: "k", colls: []collSpec{en(b, "z"), ev(b, "l"), ev(a, "k")}}, {id: "l", colls: []collSpec{en()}}}
	defaultTrip(want, 1e-6)
}
