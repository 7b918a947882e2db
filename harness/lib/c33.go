package main

import (
	"bytes"
	"sync"

	"github.com/recolude/rap/format"
	rapio "github.com/recolude/rap/format/io"
	"github.com/recolude/rap/format/metadata"
	"github.com/recolude/rap/format/parsing"
	"github.com/recolude/rap/internal/vsym"
)

// Concurrent use. An operation that writes nothing another goroutine can reach (package-level variables, and what the
// goroutines share by the caller's choice) commutes with every other such operation, so every schedule gives each of them
// what it gives alone. The engine decides that over all paths and inputs; a counterexample counts if the race detector (or a
// wrong result) shows it in the real code.

// atOnce runs op in several goroutines that share the given values.
func atOnce(op func(), shared ...interface{}) {
	if vsym.Native() {
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for j := 0; j < 6; j++ {
					op()
				}
			}()
		}
		close(begin)
		wg.Wait()
		return
	}
	vsym.Snapshot()
	op()
	vsym.Unwritten("nothing that other goroutines can reach is written", shared...)
	vsym.Reach("compared")
}

// One recording of 10 shapes written by several goroutines with one set of encoders, full or compact, compressed or not; the
// files are read back.
//v: race=1 reach=compared cases=10
func C33_write() {
	k := vsym.Case(10)
	want := settled(layoutTree(k, 2))
	rec, encs, tech := mkRec(want), fullEncoders(), rapio.Raw64
	compact := vsym.Choose("compact", 2) == 1
	if compact {
		rec, encs, tech = mkRec(defaultKinds(want)), compactEncoders(k%3), rapio.BST16
	}
	compress := vsym.Choose("compress", 2) == 1
	atOnce(func() {
		var out bytes.Buffer
		n, err := rapio.NewWriter(encs, compress, &out, tech).Write(rec)
		vsym.Assert(err == nil && n > 0, "written")
		back, _, err := rapio.NewReader(encs, bytes.NewReader(out.Bytes())).Read()
		vsym.Assert(err == nil && back != nil, "read back")
		if !compact {
			checkRec(back, want, true)
		}
	}, rec, encs)
}

// Files of 10 shapes read by several goroutines with one set of encoders, or loaded; some cut off.
//v: race=1 reach=compared cases=10
func C33_read() {
	k := vsym.Case(10)
	want := settled(layoutTree(k, 1))
	load, cut := vsym.Choose("load", 2) == 1, vsym.Choose("cut", 2) == 1
	if load {
		want = defaultKinds(want)
	}
	file := writeFull(mkRec(want), k%2 == 0)
	if cut {
		file = file[:len(file)*3/4]
	}
	encs := fullEncoders()
	atOnce(func() {
		var rec format.Recording
		var err error
		if load {
			rec, _, err = rapio.Load(bytes.NewReader(file))
		} else {
			rec, _, err = rapio.NewReader(encs, bytes.NewReader(file)).Read()
		}
		if cut {
			vsym.Assert(err != nil, "refused")
			return
		}
		vsym.Assert(err == nil, "read")
		checkRec(rec, want, true)
	}, file, encs)
}

// The default writer and loader, recordings of 10 shapes.
//v: race=1 reach=compared cases=10
func C33_default() {
	k := vsym.Case(10)
	want := settled(defaultKinds(layoutTree(k, 2)))
	if k == 3 {
		want = plainNames(want)
		want.kids[0].kids[0].meta = nil
	}
	rec := mkRec(want)
	atOnce(func() {
		var out bytes.Buffer
		_, err := rapio.NewRecoludeWriter(&out).Write(rec)
		vsym.Assert(err == nil, "written")
		back, _, err := rapio.Load(bytes.NewReader(out.Bytes()))
		vsym.Assert(err == nil && back != nil, "loaded")
	}, rec)
}

// A recording of 10 shapes, made or read from a file, that several goroutines slice, validate, measure and walk through.
//v: race=1 reach=compared cases=10
func C33_inspect() {
	k := vsym.Case(10)
	want := steadyTimes(plainNames(layoutTree(k, 3)))
	rec := mkRec(want)
	if vsym.Choose("from", 2) == 1 {
		var err error
		rec, err = readFull(writeFull(rec, false))
		vsym.Assert(err == nil, "read")
	}
	op := vsym.Choose("operation", 3)
	atOnce(func() {
		switch op {
		case 0:
			checkRec(format.Slice(rec, format.BeginningOfSlice(1), format.EndOfSlice(2)), sliced(want, 1, 2, true), true)
		case 1:
			format.Validate(rec)
			format.Validate(rec, format.RequireChronologicalCapture(true))
			format.RecordingStart(rec)
			format.RecordingEnd(rec)
			format.RecordingDuration(rec)
		case 2:
			checkRec(rec, want, true)
		}
	}, rec)
}

// A property of each of the 17 types that several goroutines write, read, show, and turn into JSON and BSON.
//v: race=1 reach=compared cases=17
func C33_property() {
	want := symProp(allKinds[vsym.Case(17)])
	op := vsym.Choose("operation", 3)
	if op == 1 { // texts of any number are expensive
		want.f, want.x, want.y, want.z, want.us = 0.1, 1, -2.5, 3, 1234567
	}
	p := mkProp(want)
	atOnce(func() {
		switch op {
		case 0:
			var buf bytes.Buffer
			_, err := metadata.WriteProprty(&buf, p)
			vsym.Assert(err == nil, "written")
			got, err := metadata.ReadProperty(bytes.NewReader(buf.Bytes()))
			vsym.Assert(err == nil, "read")
			vsym.Assert(sameProp(got, want), "same")
		case 1:
			if w, ok := p.(jsonWrite); ok {
				w.MarshalJSON()
			}
		case 2:
			if w, ok := p.(interface{ MarshalBSON() ([]byte, error) }); ok {
				w.MarshalBSON()
			}
		}
	}, p)
}

// A JSON document and a version-1 file that several goroutines import.
//v: race=1 reach=compared cases=2
func C33_import() {
	if vsym.Case(2) == 0 {
		coll := jobj(jfield("name", jtext("e")), jfield("type", jtext("recolude.enum")), jfield("captures", jarr(
			jobj(jfield("time", jnum(1)), jfield("data", jtext("m"))), jobj(jfield("time", jnum(2)), jfield("data", jtext("n"))))))
		m, meta := jmeta()
		doc := []byte(jhead("i", "n", jfield("collections", jarr(coll)), jfield("metadata", m)).dump())
		want := recSpec{id: "i", name: "n", meta: meta, colls: []collSpec{{kind: cEnum, name: "e", members: []string{"m", "n"}, caps: []capSpec{{t: 1}, {t: 2, v: 1}}}}}
		atOnce(func() {
			rec, err := parsing.FromJSON(doc)
			vsym.Assert(err == nil, "imported")
			checkRec(rec, want, true)
		}, doc)
		return
	}
	r := v1Rec{name: "r", meta: []v1Pair{{"k", word("text")}}, subjects: []v1Subject{{id: 3, name: word("s"), pos: []v1Vec{{1, 2, 3, 4}}, rot: []v1Vec{{1, 2, 3, 4}}, life: []v1Life{{1, 2}},
		events: []v1Event{{t: 1, name: "e", contents: word("contents")}}}}}
	file := v1File(r.message())
	atOnce(func() {
		rec, _, err := rapio.Load(bytes.NewReader(file))
		vsym.Assert(err == nil && rec != nil, "loaded")
		checkRec(rec, v1Want(r), true)
	}, file)
}
