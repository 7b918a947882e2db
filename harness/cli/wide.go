package main

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/recolude/rap/internal/vsym"
)

// Long lists and deep trees through the command-line tool.

// A collection of 300 captures, 300 collections, 300 recordings, or a chain of 12 recordings, with a symbolic character in one name; as JSON.
//v: reach=shown cases=4
func C21_large() {
	b := vsym.U8("c")
	vsym.Assume(b < 128)
	shown(plainKinds(many(vsym.Case(4), 280, collSpec{kind: cEvent, name: string([]byte{b}), caps: []capSpec{{t: 69.875, name: "e"}}})))
}

// 300 rows of three pairs or of 300 pairs, or of pairs that differ in one letter of long texts, one row of a symbolic id and number; other columns of 200 characters.
//v: reach=imported cases=3
func C22_large() {
	k := vsym.Case(3)
	data := "pad,time,id,name,x,y,z\n"
	pad := strings.Repeat("p", 200)
	var rows []csvRow
	for i := 0; i < 300; i++ {
		r := csvRow{id: [3]string{"a", "b", "c"}[i%3], name: [2]string{"d", "e"}[i%3/2], nums: [4]float64{float64(i), float64(-i), 0.5, 7}}
		switch k {
		case 1:
			r.id, r.name = strconv.Itoa(i), strconv.Itoa(i%17)
		case 2:
			r.id, r.name = pad+r.id, pad+r.name
		}
		x := strconv.Itoa(-i)
		if i == 260 {
			r.id = letter("id", 3)
			x, r.nums[1] = digits("x", 1)
		}
		rows = append(rows, r)
		data += pad + "," + strconv.Itoa(i) + "," + r.id + "," + r.name + "," + x + ",0.5,7\n"
	}
	checkRows(data, rows)
	vsym.Reach("imported")
}

// 3000 rows of two pairs, one number symbolic.
//v: reach=imported steps=600000000
func C22_wide() {
	data := []byte("x,y,z,time,id,name\n")
	var rows []csvRow
	for i := 0; i < 3000; i++ {
		x := strconv.Itoa(i)
		r := csvRow{id: "a", name: "n", nums: [4]float64{7, float64(i), 2, 3}}
		if i%5 == 0 {
			r.id = "b"
		}
		if i == 2900 {
			x, r.nums[1] = digits("x", 1)
		}
		rows = append(rows, r)
		data = append(data, x+",2,3,7,"+r.id+",n\n"...)
	}
	checkRows(string(data), rows)
	vsym.Reach("imported")
}

// Recordings of 300 captures, 300 collections, 300 recordings and chains of 12: every capture is counted once.
//v: reach=counted cases=4
func C23_large() {
	want := many(vsym.Case(4), 280, timed(vsym.Choose("kind", 5), 3))
	var counts [5]int
	var count func(recSpec)
	count = func(r recSpec) {
		for _, c := range r.colls {
			counts[c.kind] += len(c.caps)
		}
		for _, c := range r.kids {
			count(c)
		}
	}
	count(want)
	var b bytes.Buffer
	printSummary(&b, mkRec(want), 0)
	for kind, label := range labels {
		vsym.Assert(number(line(b.String(), label)) == counts[kind], "every capture counted once under its kind")
	}
	vsym.Reach("counted")
}

// Recordings nested 20, 40 and 70 deep, a symbolic character in the innermost name; as JSON.
//v: reach=shown cases=3 steps=600000000
func C21_deep() {
	b := vsym.U8("c")
	vsym.Assume(b < 128)
	shown(nest([3]int{20, 40, 70}[vsym.Case(3)], recSpec{id: "leaf", name: string([]byte{b}), colls: []collSpec{{kind: cEvent, name: "e", caps: []capSpec{{t: 1.5, name: "e"}}}}}))
}

// The summary of a recording nested 20, 40 or 70 deep, or with a collection of 1100 or 5000 captures.
//v: reach=counted cases=25 steps=600000000
func C23_deep() {
	k := vsym.Case(25)
	c := timed(k/5, 3)
	want := nest(20, recSpec{id: "leaf", colls: []collSpec{c}})
	if k%5 < 4 {
		want = longOrDeep(k%5, c)
	}
	counts := countsOf(want)
	var b bytes.Buffer
	printSummary(&b, mkRec(want), 0)
	for kind, label := range labels {
		vsym.Assert(number(line(b.String(), label)) == counts[kind], "every capture counted once under its kind")
	}
	vsym.Reach("counted")
}

func countsOf(r recSpec) [5]int {
	var counts [5]int
	for _, c := range r.colls {
		counts[c.kind] += len(c.caps)
	}
	for _, c := range r.kids {
		for kind, n := range countsOf(c) {
			counts[kind] += n
		}
	}
	return counts
}
