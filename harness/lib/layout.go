package main

import (
	"math"
	"sort"

	"github.com/recolude/rap/internal/vsym"
)

// An independent reader and writer of the version-2 layout, written from the format description.

type cursor struct {
	b   []byte
	pos int
	bad bool
}

func (c *cursor) take(n int) []byte {
	if n < 0 || c.pos+n > len(c.b) {
		c.bad = true
		return make([]byte, n&0xffff)
	}
	c.pos += n
	return c.b[c.pos-n : c.pos]
}

func (c *cursor) u8() byte { return c.take(1)[0] }

func (c *cursor) uv() uint64 {
	v, n, ok := refDecode(c.b[c.pos:])
	if !ok {
		c.bad = true
		return 0
	}
	c.pos += n
	return v
}

// count is a uvarint used as a number of things; anything above the remaining size is malformed.
func (c *cursor) count() int {
	v := c.uv()
	if v > uint64(len(c.b)) {
		c.bad = true
		return 0
	}
	return int(v)
}

func (c *cursor) u32() uint32 {
	b := c.take(4)
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func (c *cursor) u64() uint64 {
	b := c.take(8)
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
}

func (c *cursor) f64() float64 { return math.Float64frombits(c.u64()) }
func (c *cursor) f32() float32 { return math.Float32frombits(c.u32()) }
func (c *cursor) str() string  { return string(c.take(c.count())) }

func (c *cursor) strs() []string {
	n := c.count()
	var out []string
	for i := 0; i < n && !c.bad; i++ {
		out = append(out, c.str())
	}
	return out
}

func (c *cursor) prop(code byte) propSpec {
	p := propSpec{kind: int(code)}
	switch int(code) {
	case pString:
		p.s = c.str()
	case pInt:
		p.i = int32(c.u32())
	case pFloat:
		p.f = c.f32()
	case pBool:
		p.b = true
	case 4:
		p.kind = pBool
	case pByte:
		p.by = c.u8()
	case pVec2:
		p.x = c.f64()
		p.y = c.f64()
	case pVec3:
		p.x = c.f64()
		p.y = c.f64()
		p.z = c.f64()
	case pTime:
		p.us = int64(c.u64())
	case pBlock:
		for _, k := range c.strs() {
			if c.bad {
				break
			}
			p.sub = append(p.sub, fieldSpec{k, c.prop(c.u8())})
		}
	case pStrings, pInts, pFloats, pBools, pBytes, pVec2s, pVec3s, pBlocks, pTimes:
		n := c.count()
		for i := 0; i < n && !c.bad; i++ {
			if int(code) == pBools {
				p.elems = append(p.elems, propSpec{kind: pBool, b: c.u8() == 1})
			} else {
				p.elems = append(p.elems, c.prop(code-13))
			}
		}
	default:
		c.bad = true
	}
	return p
}

func (c *cursor) keys(table []string) []string {
	n := c.count()
	var out []string
	for i := 0; i < n; i++ {
		k := c.uv()
		if k >= uint64(len(table)) {
			c.bad = true
			return nil
		}
		out = append(out, table[k])
	}
	return out
}

func (c *cursor) block(table []string) []fieldSpec {
	var out []fieldSpec
	for _, k := range c.keys(table) {
		if c.bad {
			break
		}
		out = append(out, fieldSpec{k, c.prop(c.u8())})
	}
	return out
}

// bst reads a little-endian sequence of bisection decisions, one bit per level.
func (c *cursor) bst(start, duration float64, bytes int) float64 {
	v := start + duration/2
	step := duration / 4
	for _, b := range c.take(bytes) {
		for i := 0; i < 8; i++ {
			if b>>uint(i)&1 == 1 {
				v += step
			} else {
				v -= step
			}
			step /= 2
		}
	}
	return v
}

func (c *cursor) times() []float64 {
	tech := c.u8()
	n := c.count()
	out := make([]float64, n)
	switch tech {
	case 0:
		for i := range out {
			out[i] = c.f64()
		}
	case 1:
		for i := range out {
			out[i] = float64(c.f32())
		}
	case 2:
		if n == 0 {
			break
		}
		out[0] = float64(c.f32())
		if n == 1 {
			break
		}
		gap := float64(c.f32())
		for i := 1; i < n; i++ {
			out[i] = out[i-1] + c.bst(0, gap, 2)
		}
	default:
		c.bad = true
	}
	return out
}

// oct reads one step of an oct-tree of the given depth: per group of eight levels, one byte of forward, right and top bits.
func (c *cursor) oct(min, max [3]float64, groups int) [3]float64 {
	var at, step [3]float64
	for a := range at {
		at[a] = (min[a] + max[a]) / 2
		step[a] = (max[a] - min[a]) / 4
	}
	for g := 0; g < groups; g++ {
		b := c.take(3)
		for i := 0; i < 8; i++ {
			for a, which := range [3]int{1, 2, 0} { // x is the second byte, y the third, z the first
				if b[which]>>uint(i)&1 == 0 {
					at[a] += step[a]
				} else {
					at[a] -= step[a]
				}
				step[a] /= 2
			}
		}
	}
	return at
}

func (c *cursor) collBody(kind int, header []byte, times []float64) ([]capSpec, []string) {
	caps := make([]capSpec, len(times))
	for i, t := range times {
		caps[i].t = t
	}
	h := &cursor{b: header}
	var members []string
	switch kind {
	case cPos, cEuler:
		tech := c.u8()
		raw16 := kind == cEuler && tech == 2
		switch {
		case tech == 0:
			for i := range caps {
				for a := 0; a < 3; a++ {
					v := c.f64()
					if kind == cEuler {
						c.take(2) // each angle is stored in a ten byte cell
					}
					*caps[i].axis(a) = v
				}
			}
		case tech == 1:
			for i := range caps {
				for a := 0; a < 3; a++ {
					*caps[i].axis(a) = float64(c.f32())
				}
			}
		case len(caps) == 0:
		case len(caps) == 1:
			for a := 0; a < 3; a++ {
				*caps[0].axis(a) = float64(c.f32())
			}
		case raw16:
			for i := range caps {
				for a := 0; a < 3; a++ {
					*caps[i].axis(a) = c.bst(0, 360, 2)
				}
			}
		case tech == 2 || tech == 3:
			var min, max, at [3]float64
			for a := range min {
				min[a] = float64(c.f32())
			}
			for a := range max {
				max[a] = float64(c.f32())
			}
			for a := range at {
				at[a] = float64(c.f32())
			}
			for i := range caps {
				if i > 0 {
					d := c.oct(min, max, 4-int(tech))
					for a := range at {
						at[a] += d[a]
					}
				}
				caps[i].x, caps[i].y, caps[i].z = at[0], at[1], at[2]
			}
		default:
			c.bad = true
		}
	case cEnum:
		members = c.keys(h.strs())
		for i := range caps {
			caps[i].v = int(c.uv())
		}
	case cEvent:
		names, keys := h.strs(), h.strs()
		for i := range caps {
			n := c.uv()
			if n >= uint64(len(names)) {
				c.bad = true
				return nil, nil
			}
			caps[i].name = names[n]
			caps[i].meta = c.block(keys)
		}
	case cFloat:
		tech := c.u8()
		switch tech {
		case 0:
			for i := range caps {
				caps[i].x = c.f64()
			}
		case 1:
			for i := range caps {
				caps[i].x = float64(c.f32())
			}
		case 2:
			lo, hi := float64(c.f32()), float64(c.f32())
			for i := range caps {
				caps[i].x = c.bst(lo, hi-lo, 2)
			}
		default:
			c.bad = true
		}
	}
	if c.pos != len(c.b) || h.pos != len(h.b) || h.bad {
		c.bad = true
	}
	return caps, members
}

func (k *capSpec) axis(a int) *float64 {
	switch a {
	case 0:
		return &k.x
	case 1:
		return &k.y
	}
	return &k.z
}

func (c *cursor) rec(table []string, kinds []int, headers [][]byte) recSpec {
	var r recSpec
	r.id = c.str()
	r.name = c.str()
	r.meta = c.block(table)
	for n := c.count(); n > 0 && !c.bad; n-- {
		e := c.uv()
		if e >= uint64(len(kinds)) {
			c.bad = true
			return r
		}
		col := collSpec{kind: kinds[e], name: c.str()}
		times := c.times()
		body := &cursor{b: c.take(c.count())}
		col.caps, col.members = body.collBody(col.kind, headers[e], times)
		if body.bad {
			c.bad = true
		}
		r.colls = append(r.colls, col)
	}
	for n := c.count(); n > 0 && !c.bad; n-- {
		f := refSpec{name: c.str(), uri: c.str(), size: c.uv()}
		f.meta = c.block(table)
		r.refs = append(r.refs, f)
	}
	for n := c.count(); n > 0 && !c.bad; n-- {
		name := c.str()
		size := c.count()
		meta := c.block(table)
		r.bins = append(r.bins, binSpec{name, c.take(size), meta})
	}
	for n := c.count(); n > 0 && !c.bad; n-- {
		r.kids = append(r.kids, c.rec(table, kinds, headers))
	}
	return r
}

// refRead interprets an uncompressed version-2 file.
func refRead(b []byte) (recSpec, bool) {
	c := &cursor{b: b}
	if c.u8() != 2 {
		return recSpec{}, false
	}
	var kinds []int
	sigs := c.strs()
	for _, s := range sigs {
		k := -1
		for i := range collSigs {
			if collSigs[i] == s {
				k = i
			}
		}
		if k < 0 {
			return recSpec{}, false
		}
		kinds = append(kinds, k)
	}
	for range sigs {
		if c.uv() != 0 { // the version of every encoder
			return recSpec{}, false
		}
	}
	if c.u8() != 0 {
		return recSpec{}, false
	}
	var headers [][]byte
	for range kinds {
		headers = append(headers, c.take(c.count()))
	}
	r := c.rec(c.strs(), kinds, headers)
	return r, !c.bad && c.pos == len(b)
}

// The writer of the same layout. Choices the format leaves open (the order of the encoders, of the key table and of the
// dictionaries) are made here in ways the repository's writer does not.

type layoutOpts struct {
	order   []int // encoder order, by kind; encoders that are not needed may be listed
	reverse bool  // reverse the key table
	extra   bool  // unused entries in the tables
	version int   // version of the encoders
	time    byte  // 0 or 1
}

func addKey(keys *[]string, k string) {
	for _, x := range *keys {
		if x == k {
			return
		}
	}
	*keys = append(*keys, k)
}

func collectKeys(r recSpec, keys *[]string) {
	for _, f := range r.meta {
		addKey(keys, f.key)
	}
	for _, b := range r.bins {
		for _, f := range b.meta {
			addKey(keys, f.key)
		}
	}
	for _, b := range r.refs {
		for _, f := range b.meta {
			addKey(keys, f.key)
		}
	}
	for _, k := range r.kids {
		collectKeys(k, keys)
	}
}

func collectColls(r recSpec, names, eventKeys, members *[]string) {
	for _, c := range r.colls {
		for _, m := range c.members {
			addKey(members, m)
		}
		for _, k := range c.caps {
			if c.kind == cEvent {
				addKey(names, k.name)
				for _, f := range k.meta {
					addKey(eventKeys, f.key)
				}
			}
		}
	}
	for _, k := range r.kids {
		collectColls(k, names, eventKeys, members)
	}
}

func indexOf(keys []string, k string) uint64 {
	for i, x := range keys {
		if x == k {
			return uint64(i)
		}
	}
	panic("key not in table")
}

func refBlock(fs []fieldSpec, table []string) []byte {
	out := refUvarint(uint64(len(fs)))
	for _, f := range fs {
		out = append(out, refUvarint(indexOf(table, f.key))...)
	}
	for _, f := range fs {
		out = append(out, refCode(f.p))
		out = append(out, refData(f.p)...)
	}
	return out
}

type tables struct{ keys, names, eventKeys, members []string }

func refColl(c collSpec, o layoutOpts, t tables) []byte {
	var body []byte
	if c.kind == cPos || c.kind == cEuler || c.kind == cFloat {
		body = append(body, 0)
	}
	if c.kind == cEnum {
		body = append(body, refUvarint(uint64(len(c.members)))...)
		for _, m := range c.members {
			body = append(body, refUvarint(indexOf(t.members, m))...)
		}
	}
	for _, k := range c.caps {
		switch c.kind {
		case cPos:
			body = append(append(append(body, refF64(k.x)...), refF64(k.y)...), refF64(k.z)...)
		case cEuler:
			body = append(append(body, refF64(k.x)...), 0, 0)
			body = append(append(body, refF64(k.y)...), 0, 0)
			body = append(append(body, refF64(k.z)...), 0, 0)
		case cEnum:
			body = append(body, refUvarint(uint64(k.v))...)
		case cEvent:
			body = append(body, refUvarint(indexOf(t.names, k.name))...)
			body = append(body, refBlock(k.meta, t.eventKeys)...)
		case cFloat:
			body = append(body, refF64(k.x)...)
		}
	}
	return body
}

func refRec(r recSpec, o layoutOpts, t tables) []byte {
	out := append(refStr(r.id), refStr(r.name)...)
	out = append(out, refBlock(r.meta, t.keys)...)
	out = append(out, refUvarint(uint64(len(r.colls)))...)
	for _, c := range r.colls {
		for i, k := range o.order {
			if k == c.kind {
				out = append(out, refUvarint(uint64(i))...)
			}
		}
		out = append(out, refStr(c.name)...)
		out = append(out, o.time)
		out = append(out, refUvarint(uint64(len(c.caps)))...)
		for _, k := range c.caps {
			if o.time == 0 {
				out = append(out, refF64(k.t)...)
			} else {
				out = append(out, refF32(float32(k.t))...)
			}
		}
		out = append(out, refBytes(refColl(c, o, t))...)
	}
	out = append(out, refUvarint(uint64(len(r.refs)))...)
	for _, f := range r.refs {
		out = append(append(out, refStr(f.name)...), refStr(f.uri)...)
		out = append(append(out, refUvarint(f.size)...), refBlock(f.meta, t.keys)...)
	}
	out = append(out, refUvarint(uint64(len(r.bins)))...)
	for _, b := range r.bins {
		out = append(append(out, refStr(b.name)...), refUvarint(uint64(len(b.data)))...)
		out = append(append(out, refBlock(b.meta, t.keys)...), b.data...)
	}
	out = append(out, refUvarint(uint64(len(r.kids)))...)
	for _, k := range r.kids {
		out = append(out, refRec(k, o, t)...)
	}
	return out
}

func refFile(r recSpec, o layoutOpts) []byte {
	var t tables
	if o.extra {
		t = tables{[]string{"unused"}, []string{""}, []string{"unused key"}, []string{"nobody"}}
	}
	collectKeys(r, &t.keys)
	collectColls(r, &t.names, &t.eventKeys, &t.members)
	if o.reverse {
		for i, j := 0, len(t.keys)-1; i < j; i, j = i+1, j-1 {
			t.keys[i], t.keys[j] = t.keys[j], t.keys[i]
		}
	}
	out := []byte{2}
	var sigs []string
	for _, k := range o.order {
		sigs = append(sigs, collSigs[k])
	}
	out = append(out, refStrs(sigs)...)
	for range o.order {
		out = append(out, refUvarint(uint64(o.version))...)
	}
	out = append(out, 0)
	for _, k := range o.order {
		switch k {
		case cEnum:
			out = append(out, refBytes(refStrs(t.members))...)
		case cEvent:
			out = append(out, refBytes(append(refStrs(t.names), refStrs(t.eventKeys)...))...)
		default:
			out = append(out, 0)
		}
	}
	out = append(out, refStrs(t.keys)...)
	return append(out, refRec(r, o, t)...)
}

// usedKinds lists the kinds of collection in a tree, sorted.
func usedKinds(r recSpec) []int {
	seen := map[int]bool{}
	var walk func(recSpec)
	walk = func(r recSpec) {
		for _, c := range r.colls {
			seen[c.kind] = true
		}
		for _, k := range r.kids {
			walk(k)
		}
	}
	walk(r)
	var out []int
	for k := range seen {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// sameSpec compares two descriptions.
func sameSpecProp(a, b propSpec) bool {
	if a.kind != b.kind || len(a.elems) != len(b.elems) {
		return false
	}
	if a.kind == pBlock {
		return sameSpecBlock(a.sub, b.sub)
	}
	if a.kind == pBlocks {
		ok := true
		for i := range a.elems {
			ok = vsym.And(ok, sameSpecBlock(a.elems[i].sub, b.elems[i].sub))
		}
		return ok
	}
	if a.kind == pBool {
		return a.b == b.b
	}
	return vsym.EqBytes(refData(a), refData(b))
}

func sameSpecBlock(a, b []fieldSpec) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for _, f := range a {
		found := false
		for _, g := range b {
			if f.key == g.key {
				ok = vsym.And(ok, sameSpecProp(f.p, g.p))
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return ok
}

func sameSpecColl(a, b collSpec) bool {
	if a.kind != b.kind || len(a.caps) != len(b.caps) || (a.kind == cEnum && len(a.members) != len(b.members)) {
		return false
	}
	ok := sameStr(a.name, b.name)
	if a.kind == cEnum {
		for i := range a.members {
			ok = vsym.And(ok, sameStr(a.members[i], b.members[i]))
		}
	}
	for i := range a.caps {
		x, y := a.caps[i], b.caps[i]
		ok = vsym.And(ok, vsym.SameF64(x.t, y.t))
		switch a.kind {
		case cPos, cEuler:
			ok = vsym.And(ok, vsym.And(vsym.SameF64(x.x, y.x), vsym.And(vsym.SameF64(x.y, y.y), vsym.SameF64(x.z, y.z))))
		case cEnum:
			ok = vsym.And(ok, x.v == y.v)
		case cEvent:
			ok = vsym.And(ok, vsym.And(sameStr(x.name, y.name), sameSpecBlock(x.meta, y.meta)))
		case cFloat:
			ok = vsym.And(ok, vsym.SameF64(x.x, y.x))
		}
	}
	return ok
}

func sameSpecRec(a, b recSpec) bool {
	if len(a.colls) != len(b.colls) || len(a.bins) != len(b.bins) || len(a.refs) != len(b.refs) || len(a.kids) != len(b.kids) {
		return false
	}
	ok := vsym.And(vsym.And(sameStr(a.id, b.id), sameStr(a.name, b.name)), sameSpecBlock(a.meta, b.meta))
	for i := range a.colls {
		ok = vsym.And(ok, sameSpecColl(a.colls[i], b.colls[i]))
	}
	for i := range a.bins {
		ok = vsym.And(ok, vsym.And(sameStr(a.bins[i].name, b.bins[i].name), vsym.And(vsym.EqBytes(a.bins[i].data, b.bins[i].data), sameSpecBlock(a.bins[i].meta, b.bins[i].meta))))
	}
	for i := range a.refs {
		x, y := a.refs[i], b.refs[i]
		ok = vsym.And(ok, vsym.And(vsym.And(sameStr(x.name, y.name), sameStr(x.uri, y.uri)), vsym.And(x.size == y.size, sameSpecBlock(x.meta, y.meta))))
	}
	for i := range a.kids {
		ok = vsym.And(ok, sameSpecRec(a.kids[i], b.kids[i]))
	}
	return ok
}
