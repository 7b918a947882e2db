package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"

	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/internal/vsym"
	"github.com/urfave/cli/v2"
)

// command runs a command of the program with flags (name, value, name, value...).
func command(name string, in io.Reader, out io.Writer, flags ...string) error {
	var errOut bytes.Buffer
	app := BuildApp(in, out, &errOut)
	for _, c := range app.Commands {
		if c.Name != name {
			continue
		}
		set := flag.NewFlagSet(name, flag.ContinueOnError)
		for i := 0; i < len(flags); i += 2 {
			// the long and the short name, as the library sets them
			for _, n := range [2]string{flags[i], flags[i][:1]} {
				set.String(n, "", "")
				if set.Set(n, flags[i+1]) != nil {
					panic("no such flag")
				}
			}
		}
		return c.Action(cli.NewContext(app, set, nil))
	}
	panic("no such command")
}

// close checks the numbers of a recording the tool wrote against what it was made from, within the precision of 24-bit
// positions, 16-bit rotations and 16-bit times, and returns the description with those numbers in place of its own.
func close24(got, want recSpec) recSpec {
	out := want
	out.colls, out.kids = nil, nil
	vsym.Assert(len(got.colls) == len(want.colls) && len(got.kids) == len(want.kids), "collections and sub-recordings kept")
	for i, w := range want.colls {
		g := got.colls[i].caps
		vsym.Assert(len(g) == len(w.caps) && got.colls[i].kind == w.kind, "captures kept")
		c := w
		c.caps = append([]capSpec{}, w.caps...)
		var ts []float64
		for j := range w.caps {
			ts = append(ts, w.caps[j].t)
		}
		for j := range w.caps {
			tol := 1e-5
			if j > 0 {
				tol += maxOf(steps(ts)) * float64(j) / (1 << 16)
			}
			vsym.Assert(abs(g[j].t-ts[j]) <= tol, "times within the precision of 16-bit times")
			c.caps[j].t = g[j].t
			if w.kind != cPos && w.kind != cEuler {
				continue
			}
			for axis := 0; axis < 3; axis++ {
				var vs []float64
				for n := range w.caps {
					k := w.caps[n]
					vs = append(vs, *k.axis(axis))
				}
				have := *g[j].axis(axis)
				d, tol := abs(have-vs[j]), 1e-4
				if w.kind == cEuler {
					for d > 180 {
						d = abs(d - 360)
					}
					tol += 360.0 / (1 << 16)
				} else if j > 0 {
					st := steps(vs)
					tol += (maxOf(st) - minOf(st)) * float64(j) / (1 << 8)
				}
				vsym.Assert(d <= tol, "positions and rotations within the precision of their technique")
				*c.caps[j].axis(axis) = have
			}
		}
		out.colls = append(out.colls, c)
	}
	for i, k := range want.kids {
		out.kids = append(out.kids, close24(got.kids[i], k))
	}
	return out
}

func checkWritten(file []byte, want recSpec) {
	vsym.Assert(len(file) > 0 && file[0] == 2, "a version-2 file")
	rec, n, err := rapio.Load(bytes.NewReader(file))
	vsym.Assert(err == nil && rec != nil, "the loader reads what the tool wrote")
	if err != nil || rec == nil {
		return
	}
	vsym.Assert(n > 0, "bytes read")
	checkRec(rec, close24(specOf(rec), want), true)
}

// put stores an input file; get reads an output file.
func put(name string, b []byte) string {
	if os.WriteFile(name, b, 0644) != nil {
		panic("no scratch space")
	}
	return name
}

func oldFile(k int) (v1Rec, recSpec) {
	r := v1Rec{name: word("name"), meta: []v1Pair{{"k", word("meta")}}}
	for n := k; n > 0; n-- {
		s := v1Subject{id: int32(3 * n), name: word("subject")}
		for j := 0; j < n; j++ {
			s.pos = append(s.pos, v1Vec{float32(j), float32(3 * j), -float32(j) / 4, 100})
			s.rot = append(s.rot, v1Vec{float32(j) / 2, float32(200 * j), -float32(j) / 4, 100})
			s.events = append(s.events, v1Event{t: float32(j), name: word("event"), contents: word("text")})
			s.life = append(s.life, v1Life{float32(j), j})
		}
		r.subjects = append(r.subjects, s)
	}
	r.events = []v1Event{{t: 1, name: "e", data: []v1Pair{{"key", word("value")}}}}
	return r, v1Want(r)
}

// upgrade: version-1 files of 0 to 2 subjects with all kinds of captures and symbolic texts, and version-2 trees of 10 shapes.
//v: reach=compared cases=13
func C30_upgrade() {
	k := vsym.Case(13)
	var file []byte
	var want recSpec
	if k < 10 {
		want = defaultKinds(layoutTree(k, 2))
		if k == 3 {
			want.kids[0].kids[0].meta = nil
			plainNames(want)
		}
		file = writeFull(mkRec(want), k%2 == 0)
	} else {
		var r v1Rec
		r, want = oldFile(k - 10)
		file = v1File(r.message())
	}
	var out bytes.Buffer
	err := command("upgrade", nil, &out, "file", put("in.rap", file))
	vsym.Assert(err == nil, "a readable file is upgraded")
	checkWritten(out.Bytes(), want)
	vsym.Reach("compared")
}

// jsonTree is a document with every part, with symbolic texts in one of its places.
func jsonTree() (jv, recSpec) {
	texts := [6]string{"id", "name \"", "event", "member", "uri", "value"}
	at := vsym.Choose("text", 7)
	size := uint32(1 << 31)
	if at == 6 {
		size = vsym.U32("size")
	} else {
		texts[at] = text1("text")
	}
	coll := func(name, kind string, caps ...jv) jv {
		return jobj(jfield("name", jtext(name)), jfield("type", jtext(kind)), jfield("captures", jarr(caps...)))
	}
	capture := func(t int, more ...jf) jv { return jobj(append([]jf{jfield("time", jnum(t))}, more...)...) }
	vec := func(x, y, z int) jf { return jfield("data", jobj(jfield("x", jnum(x)), jfield("y", jnum(y)), jfield("z", jnum(z)))) }
	meta := jfield("metadata", jobj(jfield("k", jtext(texts[5]))))
	wantMeta := strField("k", texts[5])
	n := at % 3
	pos, rot := collSpec{kind: cPos, name: "p"}, collSpec{kind: cEuler, name: "r"}
	var ps, rs []jv
	for i := 0; i < n; i++ {
		ps = append(ps, capture(i-5, vec(i, -100*i, 7)))
		pos.caps = append(pos.caps, capSpec{t: float64(i - 5), x: float64(i), y: -100 * float64(i), z: 7})
		rs = append(rs, capture(2*i, vec(90*i, 359, 1)))
		rot.caps = append(rot.caps, capSpec{t: float64(2 * i), x: 90 * float64(i), y: 359, z: 1})
	}
	en := collSpec{kind: cEnum, name: "e", members: []string{texts[3]}, caps: []capSpec{{t: 1}, {t: 2}}}
	ev := collSpec{kind: cEvent, name: "v", caps: []capSpec{{t: 3, name: texts[2], meta: wantMeta}}}
	colls := jfield("collections", jarr(coll("p", "recolude.position", ps...), coll("r", "recolude.euler", rs...),
		coll("e", "recolude.enum", capture(1, jfield("data", jtext(texts[3]))), capture(2, jfield("data", jtext(texts[3])))),
		coll("v", "recolude.event", capture(3, jfield("data", jobj(jfield("name", jtext(texts[2])), meta))))))
	ref := jobj(jfield("name", jtext("n")), jfield("uri", jtext(texts[4])), jfield("size", jnum(int(size))))
	kid := recSpec{id: "kid", name: "k", colls: []collSpec{pos, rot, en, ev}, meta: wantMeta}
	doc := jhead(texts[0], texts[1], jfield("references", jarr(ref)), jfield("recordings", jarr(jhead("kid", "k", colls, meta), jhead("k2", "l"))))
	return doc, recSpec{id: texts[0], name: texts[1], refs: []refSpec{{name: "n", uri: texts[4], size: uint64(size)}}, kids: []recSpec{kid, {id: "k2", name: "l"}}}
}

// from-json: documents with every part (one of six texts or the 32-bit size of a reference symbolic, 0 to 2 captures), from a file or standard
// input, to standard output, a new file, or in place of a longer old one.
//v: reach=compared cases=6
func C30_fromJSON() {
	k := vsym.Case(6)
	doc, want := jsonTree()
	text := []byte(doc.dump())
	var out bytes.Buffer
	var in io.Reader
	var flags []string
	if k%2 == 0 {
		in = bytes.NewReader(text)
	} else {
		flags = []string{"in", put("in.json", text)}
	}
	to := k / 2
	if to > 0 {
		flags = append(flags, "out", "out.rap")
		os.Remove("out.rap")
	}
	if to == 2 {
		put("out.rap", bytes.Repeat([]byte{7}, 4000))
	}
	vsym.Assert(command("from-json", in, &out, flags...) == nil, "a complete document is accepted")
	file := out.Bytes()
	if to > 0 {
		vsym.Assert(len(file) == 0, "nothing on standard output")
		var err error
		file, err = os.ReadFile("out.rap")
		vsym.Assert(err == nil, "the output file exists")
		rec, n, err := rapio.Load(bytes.NewReader(file))
		vsym.Assert(err == nil && rec != nil && n > 0, "the output file is a recording")
		vsym.Assert(command("from-json", bytes.NewReader(text), &out) == nil, "accepted again")
		vsym.Assert(vsym.EqBytes(file, out.Bytes()), "the output file holds the recording and nothing else")
	}
	checkWritten(file, want)
	vsym.Reach("compared")
}

// from-csv: tables of 0 to 3 rows with ids and names of one symbolic letter, and fractions.
//v: reach=compared
func C30_fromCSV() {
	data := "x,id,z,name,time,y\n"
	var rows []csvRow
	for n := vsym.Choose("rows", 4); n > 0; n-- {
		r := csvRow{id: letter("id", 1), name: "n"}
		if n == 2 {
			r.name = letter("name", 1)
		}
		r.nums = [4]float64{float64(n) / 10, float64(vsym.Range("x", 0, 7)), -0.1, 1e9}
		data += strconv.Itoa(int(r.nums[1])) + "," + r.id + ",1e9," + r.name + "," + "0." + strconv.Itoa(n) + ",-0.1\n"
		rows = append(rows, r)
	}
	var out bytes.Buffer
	vsym.Assert(command("from-csv", nil, &out, "file", put("in.csv", []byte(data))) == nil, "a valid table is accepted")
	rec, _, err := rapio.Load(bytes.NewReader(out.Bytes()))
	vsym.Assert(err == nil && rec != nil, "the loader reads what the tool wrote")
	if err != nil || rec == nil {
		return
	}
	checkSubs(rec.Recordings(), rows)
	vsym.Reach("compared")
}

// to-json and summarize: version-1 and version-2 files with symbolic texts; the JSON does not depend on where the input
// comes from, and the summary shows the size of the file.
//v: reach=compared
func C30_inspect() {
	var file []byte
	var want recSpec
	if k := vsym.Choose("file", 4); k < 2 {
		var r v1Rec
		r, want = oldFile(k)
		file = v1File(r.message())
	} else {
		want = recSpec{id: "i", name: oddText("name"), colls: []collSpec{timed(cPos, 2), timed(cEuler, 1), timed(cEvent, k)}, kids: []recSpec{{id: "k", name: "l", colls: []collSpec{timed(cPos, 3)}}}}
		file = writeFull(mkRec(want), k == 3)
	}
	name := put("in.rap", file)
	var js, sum bytes.Buffer
	vsym.Assert(command("to-json", nil, &js, "file", name) == nil, "a readable file is written as JSON")
	var doc any
	vsym.Assert(json.Unmarshal(js.Bytes(), &doc) == nil, "well-formed")
	describes(doc, want)
	again, err := tool("to-json", file)
	vsym.Assert(err == nil && vsym.EqBytes(again, js.Bytes()), "standard input and file give the same JSON")
	vsym.Assert(command("summarize", nil, &sum, "file", name) == nil, "a readable file is summarised")
	vsym.Assert(len(file) < 1024 && line(sum.String(), "File Size") == fmt.Sprint(len(file))+"b", "size of the file")
	pos := 0
	for _, k := range append([]recSpec{want}, want.kids...) {
		for _, c := range k.colls {
			if c.kind == cPos {
				pos += len(c.caps)
			}
		}
	}
	vsym.Assert(number(line(sum.String(), "Total Position Captures")) == pos, "captures counted")
	vsym.Reach("compared")
}

var errFull = errors.New("no space left")

// full accepts some bytes and then fails for good.
type full struct {
	left int
	b    []byte
}

func (f *full) Write(p []byte) (int, error) {
	n := len(p)
	if n > f.left {
		n = f.left
	}
	f.left -= n
	f.b = append(f.b, p[:n]...)
	if n < len(p) {
		return n, errFull
	}
	return n, nil
}

// input gives a command something it accepts, with its flags.
func input(cmd int) (name string, in []byte, flags []string) {
	switch cmd {
	case 0:
		return "from-json", []byte("{\"id\":\"a\",\"name\":\"b\",\"recordings\":[{\"id\":\"c\",\"name\":\"d\"}]}"), []string{"in", "input"}
	case 1:
		return "from-csv", []byte("id,name,time,x,y,z\na,b,1,2,3,4\nc,d,1,2,3,4\n"), []string{"file", "input"}
	case 2:
		return "upgrade", writeFull(mkRec(recSpec{id: "a", name: "b", colls: []collSpec{timed(cEvent, 1)}}), false), []string{"file", "input"}
	}
	return "to-json", writeFull(mkRec(recSpec{id: "a", name: "b", colls: []collSpec{timed(cEvent, 1)}}), false), []string{"file", "input"}
}

// Every command whose standard output fails after any number of bytes (4 commands).
//v: reach=failed cases=4
func C30_fullOutput() {
	name, in, flags := input(vsym.Case(4))
	put("input", in)
	var whole bytes.Buffer
	vsym.Assert(command(name, nil, &whole, flags...) == nil, "accepted")
	out := &full{left: vsym.Choose("left", whole.Len())}
	vsym.Assert(command(name, nil, out, flags...) != nil, "a failing output is an error")
	vsym.Reach("failed")
}

// Every command given a file that does not exist, or cut off anywhere: an error with no output, and from-json leaves the
// old output file alone.
//v: reach=refused cases=5
func C30_badInput() {
	k := vsym.Case(5)
	name, in, flags := input(k)
	if k == 4 {
		name = "summarize"
	}
	os.Remove("input")
	cut := vsym.Choose("cut", len(in)+1) - 1
	if k == 1 && cut >= 0 {
		if cut > 29 {
			cut = 29 // within the first row, or the header
		}
		vsym.Assume(cut < 18 || cut > 19)
	}
	if cut >= 0 {
		put("input", in[:cut])
	}
	if k == 0 {
		put("out.rap", []byte("old"))
		flags = append(flags, "out", "out.rap")
	}
	var out bytes.Buffer
	err := command(name, nil, &out, flags...)
	vsym.Assert(err != nil, "a missing or damaged input is an error")
	vsym.Assert(out.Len() == 0, "nothing is written for a damaged input")
	if k == 0 {
		old, err := os.ReadFile("out.rap")
		vsym.Assert(err == nil && string(old) == "old", "the old output is kept")
	}
	vsym.Reach("refused")
}
