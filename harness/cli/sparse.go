package main

import (
	"bytes"
	"math/bits"

	"github.com/recolude/rap/internal/vsym"
)

// Trees in which recordings may or may not hold anything, and share ids and names.

// plainIDs gives recordings one of two ids and names.
func plainIDs(i int, r *recSpec) { r.id, r.name = [2]string{"a", ""}[i%2], [2]string{"n", "m"}[i/2] }

// Every tree of four recordings in four shapes, each with or without metadata, an event and an empty collection, some sharing ids or names.
//v: reach=shown
func C21_sparse() {
	shown(anyShape(plainIDs, func(i int, r *recSpec) {
		r.meta = strField([2]string{"k", ""}[i%2], [2]string{"", "v"}[i/2])
		r.colls = []collSpec{{kind: i, name: "none"}, {kind: cEvent, name: [2]string{"c", ""}[i%2], caps: []capSpec{{t: float64(-i), name: [2]string{"", "e"}[i/2], meta: strField("k", "v")}, {t: 7, name: "e"}}}}
	}))
}

// Every tree of four recordings in four shapes, each with or without an empty collection and captures of one of the kinds, some sharing ids or names.
//v: reach=counted
func C23_sparse() {
	n, mask := vsym.Choose("captures", 3), 0
	want := anyShape(plainIDs, func(i int, r *recSpec) {
		mask |= 1 << i
		r.colls = []collSpec{{kind: cEvent, name: "none"}, timed(cEnum, n), {kind: cPos, name: "none"}, timed(cPos, 1)}
	})
	var b bytes.Buffer
	rec := mkRec(want)
	printSummary(&b, rec, 0)
	full := bits.OnesCount(uint(mask))
	vsym.Assert(number(line(b.String(), labels[cEnum])) == n*full, "every capture counted once under its kind")
	vsym.Assert(number(line(b.String(), labels[cPos])) == full, "every capture counted once under its kind")
	for _, kind := range []int{cEuler, cEvent, cFloat} {
		vsym.Assert(number(line(b.String(), labels[kind])) == 0, "nothing else counted")
	}
	vsym.Reach("counted")
}
