package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/recolude/rap/format"
	"github.com/recolude/rap/format/collection/position"
	"github.com/recolude/rap/internal/vsym"
)

// foreign is a collection of a kind the repository does not know, of any length.
type foreign struct {
	format.CaptureCollection
	sig string
	n   int
}

func (f foreign) Signature() string { return f.sig }
func (f foreign) Length() int       { return f.n }
func (f foreign) Start() float64    { return 1 }
func (f foreign) End() float64      { return 2 }
func (f foreign) CaptureAt(i int) format.Capture {
	return position.NewCapture(1, 0, 0, 0)
}

func timed(kind, n int) collSpec {
	c := collSpec{kind: kind, name: "c"}
	for j := 0; j < n; j++ {
		c.caps = append(c.caps, capSpec{t: float64(j), name: "e"})
	}
	return c
}

var labels = map[int]string{cPos: "Total Position Captures", cEuler: "Total Euler Captures", cEvent: "Total Event Captures",
	cEnum: "Total Enum Captures", cFloat: "Total Other Captures"}

// number reads a decimal number, -1 when it is none.
func number(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	return n
}

// shape builds a tree from parent indices, with cs[i] in recording i.
func shape(k int, cs [4][]collSpec) (recSpec, int) {
	r := [4]recSpec{}
	for i := range r {
		r[i] = recSpec{id: "x", name: "sub", colls: cs[i]}
	}
	switch k {
	case 0: // a chain
		r[2].kids = []recSpec{r[3]}
		r[1].kids = []recSpec{r[2]}
		r[0].kids = []recSpec{r[1]}
	case 1: // siblings
		r[0].kids = []recSpec{r[1], r[2], r[3]}
	case 2:
		r[1].kids = []recSpec{r[2]}
		r[0].kids = []recSpec{r[1], r[3]}
	case 3:
		r[1].kids = []recSpec{r[2], r[3]}
		r[0].kids = []recSpec{r[1]}
	}
	return r[0], len(r[0].kids)
}

// Trees of four recordings in 4 shapes; each holds collections of two of the five kinds with 0 to 3 captures.
//v: reach=counted cases=20
func C23_counts() {
	k := vsym.Case(20)
	var cs [4][]collSpec
	counts := [5]int{}
	for i := range cs {
		for j := 0; j < 2; j++ {
			kind := (i + j*(k/4+1)) % 5
			n := (i*2 + j + k) % 4
			if i == k%4 {
				n = vsym.Choose("n", 4)
			}
			cs[i] = append(cs[i], timed(kind, n))
			counts[kind] += n
		}
	}
	root, _ := shape(k%4, cs)
	var b bytes.Buffer
	printSummary(&b, mkRec(root), 0)
	for kind, label := range labels {
		vsym.Assert(number(line(b.String(), label)) == counts[kind], "every capture counted once under its kind")
	}
	vsym.Reach("counted")
}

// Foreign collections of any length from 1 to 2^40, in two recordings, count as others.
//v: reach=counted
func C23_foreign() {
	a, b, c := vsym.Range("a", 1, 1<<40), vsym.Range("b", 1, 1<<40), vsym.Range("c", 1, 1<<40)
	kid := format.NewRecording("k", "", []format.CaptureCollection{foreign{sig: "x", n: c}, mkColl(timed(cEnum, 2))}, nil, mkBlock(nil), nil, nil)
	rec := format.NewRecording("r", "", []format.CaptureCollection{foreign{sig: "x", n: a}, foreign{sig: "y", n: b}}, []format.Recording{kid, kid}, mkBlock(nil), nil, nil)
	var out bytes.Buffer
	printSummary(&out, rec, 0)
	vsym.Assert(number(line(out.String(), labels[cFloat])) == a+b+2*c, "foreign captures are others")
	for kind, want := range map[int]int{cPos: 0, cEuler: 0, cEvent: 0, cEnum: 4} {
		vsym.Assert(number(line(out.String(), labels[kind])) == want, "nothing else")
	}
	vsym.Reach("counted")
}

// line finds the value printed after a label.
func line(out, label string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, label+":") {
			return strings.TrimSpace(l[len(label)+1:])
		}
	}
	return "missing " + label
}

// The printed text: 5 names, 21 file sizes around the unit boundaries, 4 tree shapes, 0 to 130 captures.
//v: reach=printed
func C23_printed() {
	name := [5]string{"", "n", "Two Words", "x: 1", "%d"}[vsym.Choose("name", 5)]
	sizes := [21]int64{0, 1, 9, 1023, 1024, 1025, 1029, 1030, 1535, 1536, 10240, 102400, 1047552, 1048000, 1048575, 1048576, 1048577, 1572864, 104857600, 1 << 30, 1 << 40}
	size := sizes[vsym.Choose("size", 21)]
	n := [4]int{0, 1, 9, 130}[vsym.Choose("n", 4)]
	var cs [4][]collSpec
	for i := range cs {
		for kind := 0; kind < 5; kind++ {
			m := 0
			if i == kind%4 {
				m = n + kind
			}
			cs[i] = append(cs[i], timed(kind, m))
		}
	}
	root, kids := shape(vsym.Choose("shape", 4), cs)
	root.name = name
	var b bytes.Buffer
	printSummary(&b, mkRec(root), size)
	out := b.String()
	shown := name
	if name == "" {
		shown = "[No Name]"
	}
	vsym.Assert(line(out, "Name") == shown, "name")
	vsym.Assert(line(out, "Sub Recordings") == fmt.Sprint(kids), "number of sub-recordings")
	vsym.Assert(line(out, "Total Position Captures") == fmt.Sprint(n), "positions")
	vsym.Assert(line(out, "Total Euler Captures") == fmt.Sprint(n+1), "rotations")
	vsym.Assert(line(out, "Total Enum Captures") == fmt.Sprint(n+2), "enums")
	vsym.Assert(line(out, "Total Event Captures") == fmt.Sprint(n+3), "events")
	vsym.Assert(line(out, "Total Other Captures") == fmt.Sprint(n+4), "others")
	vsym.Assert(sameSize(line(out, "File Size"), size), "file size")
	vsym.Assert(line(out, "Duration") == fmt.Sprintf("%d.00s", n+3), "time from the first capture to the last")
	vsym.Reach("printed")
}

// sameSize: the text is size in b, kb or mb, exact or to two digits after the point.
func sameSize(text string, size int64) bool {
	unit := int64(1)
	switch {
	case strings.HasSuffix(text, "kb"):
		unit, text = 1024, text[:len(text)-2]
	case strings.HasSuffix(text, "mb"):
		unit, text = 1<<20, text[:len(text)-2]
	case strings.HasSuffix(text, "b"):
		text = text[:len(text)-1]
	}
	hundredths, digits, point := int64(0), 0, false
	for _, c := range text {
		if c == '.' && !point {
			point = true
			continue
		}
		if c < '0' || c > '9' {
			return false
		}
		hundredths = hundredths*10 + int64(c-'0')
		if point {
			digits++
		}
	}
	for ; digits < 2; digits++ {
		hundredths *= 10
	}
	diff := hundredths*unit - size*100
	return digits == 2 && diff <= unit/2 && -diff <= unit/2
}

// Any file size below 1024 bytes is printed exactly.
//v: reach=printed
func C23_bytes() {
	size := vsym.Range("size", 0, 1023)
	var b bytes.Buffer
	printSummary(&b, mkRec(recSpec{}), int64(size))
	shown := line(b.String(), "File Size")
	vsym.Assert(strings.HasSuffix(shown, "b") && number(shown[:len(shown)-1]) == size, "file size")
	vsym.Reach("printed")
}
