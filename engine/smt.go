package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

func (r SatRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// SolverStats is shared by all workers of a run.
type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, Portfolio int64
	Nanos                                                 int64
}

type Solver struct {
	c     *TCtx
	stats *SolverStats
	cache map[string]cacheEnt
	lines map[int32]string // definition text by term id
	aux   map[int32][]string
	procs [len(stages)]*z3proc

	slowTimeout time.Duration
}

type cacheEnt struct {
	res  SatRes
	vals map[int32]uint64
}

func NewSolver(c *TCtx, st *SolverStats) *Solver {
	return &Solver{c: c, stats: st, cache: map[string]cacheEnt{}, lines: map[int32]string{}, aux: map[int32][]string{},
		slowTimeout: 60 * time.Second}
}

func (s *Solver) Close() {
	for k, p := range s.procs {
		if p != nil {
			p.kill()
			s.procs[k] = nil
		}
	}
}

// ---------------------------------------------------------------- emission

func (s *Solver) sortStr(x Sort) string {
	switch x.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", x.W)
	case SF64:
		if s.c.real {
			return "Real"
		}
		return "(_ FloatingPoint 11 53)"
	default:
		if s.c.real {
			return "Real"
		}
		return "(_ FloatingPoint 8 24)"
	}
}

func fpArgs(x Sort) string {
	if x.K == SF64 {
		return "11 53"
	}
	return "8 24"
}

func ratStr(f float64) string {
	if math.IsInf(f, 0) || math.IsNaN(f) {
		panic(unsupported("infinite or NaN constant in real mode"))
	}
	r := new(big.Rat).SetFloat64(f)
	return ratS(r)
}

func ratS(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var t string
	if a.IsInt() {
		t = a.Num().String() + ".0"
	} else {
		t = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + t + ")"
	}
	return t
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case SBool:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case SBV:
			if t.sort.W%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.sort.W/4, t.val)
			}
			return fmt.Sprintf("#b%0*b", t.sort.W, t.val)
		case SF64:
			if s.c.real {
				return ratStr(t.f64())
			}
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
		case SF32:
			if s.c.real {
				return ratStr(float64(t.f32()))
			}
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		}
	case OVar:
		return "v" + strconv.Itoa(int(t.val))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func pow2(f float64) bool {
	if f == 0 || math.IsInf(f, 0) || math.IsNaN(f) {
		return false
	}
	fr, _ := math.Frexp(math.Abs(f))
	return fr == 0.5
}

// line returns the definition of a non-leaf term.
func (s *Solver) line(t *Term) string {
	if l, ok := s.lines[t.id]; ok {
		return l
	}
	r := func(i int) string { return s.ref(t.args[i]) }
	name := s.ref(t)
	def := func(body string) string {
		return "(define-fun " + name + " () " + s.sortStr(t.sort) + " " + body + ")\n"
	}
	nary := func(op string) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			b.WriteString(s.ref(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	var out string
	switch t.op {
	case ONot:
		out = def(nary("not"))
	case OAnd:
		out = def(nary("and"))
	case OOr:
		out = def(nary("or"))
	case OEq:
		out = def(nary("="))
	case OIte:
		out = def(nary("ite"))
	case OAdd:
		out = def(nary("bvadd"))
	case OSub:
		out = def(nary("bvsub"))
	case OMul:
		out = def(nary("bvmul"))
	case OUDiv:
		out = def(nary("bvudiv"))
	case OSDiv:
		out = def(nary("bvsdiv"))
	case OURem:
		out = def(nary("bvurem"))
	case OSRem:
		out = def(nary("bvsrem"))
	case OBAnd:
		out = def(nary("bvand"))
	case OBOr:
		out = def(nary("bvor"))
	case OBXor:
		out = def(nary("bvxor"))
	case OBNot:
		out = def(nary("bvnot"))
	case ONeg:
		out = def(nary("bvneg"))
	case OShl:
		out = def(nary("bvshl"))
	case OLShr:
		out = def(nary("bvlshr"))
	case OAShr:
		out = def(nary("bvashr"))
	case OUlt:
		out = def(nary("bvult"))
	case OUle:
		out = def(nary("bvule"))
	case OSlt:
		out = def(nary("bvslt"))
	case OSle:
		out = def(nary("bvsle"))
	case OConcat:
		// binary fold keeps every solver happy
		e := r(len(t.args) - 1)
		for i := len(t.args) - 2; i >= 0; i-- {
			e = "(concat " + r(i) + " " + e + ")"
		}
		out = def(e)
	case OExtract:
		out = def(fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.sort.W)-1, t.val, r(0)))
	case OZExt:
		out = def(fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.W-t.args[0].sort.W, r(0)))
	case OSExt:
		out = def(fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.W-t.args[0].sort.W, r(0)))
	default:
		if s.c.real {
			out = s.lineReal(t, name, def, r)
		} else {
			out = s.lineFP(t, name, def, r)
		}
	}
	s.lines[t.id] = out
	return out
}

func (s *Solver) lineFP(t *Term, name string, def func(string) string, r func(int) string) string {
	switch t.op {
	case OFAdd:
		return def("(fp.add RNE " + r(0) + " " + r(1) + ")")
	case OFSub:
		return def("(fp.sub RNE " + r(0) + " " + r(1) + ")")
	case OFMul:
		return def("(fp.mul RNE " + r(0) + " " + r(1) + ")")
	case OFDiv:
		return def("(fp.div RNE " + r(0) + " " + r(1) + ")")
	case OFNeg:
		return def("(fp.neg " + r(0) + ")")
	case OFAbs:
		return def("(fp.abs " + r(0) + ")")
	case OFSqrt:
		return def("(fp.sqrt RNE " + r(0) + ")")
	case OFFloor:
		return def("(fp.roundToIntegral RTN " + r(0) + ")")
	case OFCeil:
		return def("(fp.roundToIntegral RTP " + r(0) + ")")
	case OFTrunc:
		return def("(fp.roundToIntegral RTZ " + r(0) + ")")
	case OFRoundEven:
		return def("(fp.roundToIntegral RNE " + r(0) + ")")
	case OFLt:
		return def("(fp.lt " + r(0) + " " + r(1) + ")")
	case OFLe:
		return def("(fp.leq " + r(0) + " " + r(1) + ")")
	case OFEq:
		return def("(fp.eq " + r(0) + " " + r(1) + ")")
	case OFCvt:
		return def("((_ to_fp " + fpArgs(t.sort) + ") RNE " + r(0) + ")")
	case OFFromBits:
		return def("((_ to_fp " + fpArgs(t.sort) + ") " + r(0) + ")")
	case OFToBits:
		return "(declare-const " + name + " " + s.sortStr(t.sort) + ")\n(assert (= ((_ to_fp " + fpArgs(t.args[0].sort) + ") " + name + ") " + r(0) + "))\n"
	case OFFromS:
		return def("((_ to_fp " + fpArgs(t.sort) + ") RNE " + r(0) + ")")
	case OFFromU:
		return def("((_ to_fp_unsigned " + fpArgs(t.sort) + ") RNE " + r(0) + ")")
	case OFToS:
		// out of range: left unconstrained (never relied upon)
		return def(fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort.W, r(0)))
	case OFToU:
		return def(fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.sort.W, r(0)))
	}
	panic(unsupported("emit %s", opNames[t.op]))
}

func (s *Solver) lineReal(t *Term, name string, def func(string) string, r func(int) string) string {
	bounded := func(body string, exact bool) string {
		if exact || t.exact() {
			return def(body)
		}
		lo, hi := t.frange()
		m := math.Max(math.Abs(lo), math.Abs(hi))
		if math.IsInf(m, 0) || math.IsNaN(m) {
			panic(unsupported("unbounded float range in real mode"))
		}
		u := math.Ldexp(1, -53)
		if t.sort.K == SF32 {
			u = math.Ldexp(1, -24)
		}
		e := new(big.Rat).Mul(new(big.Rat).SetFloat64(u), new(big.Rat).SetFloat64(nextPow2(m)))
		es := ratS(e)
		return "(declare-const " + name + " Real)\n(assert (<= (- " + name + " " + body + ") " + es + "))\n(assert (<= (- " + body + " " + name + ") " + es + "))\n"
	}
	a0, a1 := t.args[0], (*Term)(nil)
	if len(t.args) > 1 {
		a1 = t.args[1]
	}
	switch t.op {
	case OFAdd:
		return bounded("(+ "+r(0)+" "+r(1)+")", false)
	case OFSub:
		return bounded("(- "+r(0)+" "+r(1)+")", false)
	case OFMul:
		ex := a0.op == OConst && pow2(fval(a0)) || a1.op == OConst && pow2(fval(a1))
		return bounded("(* "+r(0)+" "+r(1)+")", ex)
	case OFDiv:
		ex := a1.op == OConst && pow2(fval(a1))
		if a1.op == OConst {
			inv := new(big.Rat).Inv(new(big.Rat).SetFloat64(fval(a1)))
			return bounded("(* "+r(0)+" "+ratS(inv)+")", ex)
		}
		return bounded("(/ "+r(0)+" "+r(1)+")", ex)
	case OFNeg:
		return def("(- " + r(0) + ")")
	case OFAbs:
		return def("(ite (< " + r(0) + " 0.0) (- " + r(0) + ") " + r(0) + ")")
	case OFFloor:
		out := def("(to_real (to_int " + r(0) + "))")
		if !a0.exact() && len(a0.args) == 2 {
			// rounding is monotone and keeps integers below 2^53: it cannot cross the integer below the exact result
			lo, hi := a0.frange()
			sub := func(i int) string { return s.ref(a0.args[i]) }
			body := map[Op]string{OFAdd: "+", OFSub: "-", OFMul: "*", OFDiv: "/"}[a0.op]
			if body != "" && a0.sort.K == SF64 && math.Max(math.Abs(lo), math.Abs(hi)) < 1<<52 {
				e := "(" + body + " " + sub(0) + " " + sub(1) + ")"
				if a0.op == OFDiv && a0.args[1].op == OConst {
					e = "(* " + sub(0) + " " + ratS(new(big.Rat).Inv(new(big.Rat).SetFloat64(fval(a0.args[1])))) + ")"
				}
				out += "(assert (>= " + name + " (to_real (to_int " + e + "))))\n"
			}
		}
		return out
	case OFCeil:
		return def("(- (to_real (to_int (- " + r(0) + "))))")
	case OFTrunc:
		return def("(ite (< " + r(0) + " 0.0) (- (to_real (to_int (- " + r(0) + ")))) (to_real (to_int " + r(0) + ")))")
	case OFLt:
		return def("(< " + r(0) + " " + r(1) + ")")
	case OFLe:
		return def("(<= " + r(0) + " " + r(1) + ")")
	case OFEq:
		return def("(= " + r(0) + " " + r(1) + ")")
	case OFCvt:
		return bounded(r(0), t.sort.K == SF64)
	}
	panic(unsupported("emit %s in real mode", opNames[t.op]))
}

func nextPow2(m float64) float64 {
	if m == 0 {
		return 0
	}
	f, e := math.Frexp(m)
	if f == 0.5 {
		return m
	}
	return math.Ldexp(1, e)
}

// script renders the conjunction; vars lists the input variables used.
// Terms in s.cuts are replaced by fresh reals within their interval.
func (s *Solver) script(conj []*Term, cuts map[int32]bool) (string, []int32) {
	var b strings.Builder
	seen := map[int32]bool{}
	varset := map[int32]bool{}
	var body strings.Builder
	// iterative post-order to keep deep chains off the Go stack
	type fr struct {
		t *Term
		i int
	}
	visit := func(root *Term) {
		st := []fr{{root, 0}}
		for len(st) > 0 {
			f := &st[len(st)-1]
			if f.i == 0 {
				if seen[f.t.id] {
					st = st[:len(st)-1]
					continue
				}
				if cuts[f.t.id] {
					seen[f.t.id] = true
					body.WriteString("(declare-const " + s.ref(f.t) + " Real)\n")
					if lo, hi := f.t.frange(); !math.IsInf(lo, 0) && !math.IsInf(hi, 0) {
						body.WriteString("(assert (and (<= " + ratStr(lo) + " " + s.ref(f.t) + ") (<= " + s.ref(f.t) + " " + ratStr(hi) + ")))\n")
					}
					st = st[:len(st)-1]
					continue
				}
			}
			if f.i < len(f.t.args) {
				a := f.t.args[f.i]
				f.i++
				if !seen[a.id] {
					st = append(st, fr{a, 0})
				}
				continue
			}
			seen[f.t.id] = true
			if f.t.op == OVar {
				varset[int32(f.t.val)] = true
			} else if f.t.op != OConst {
				body.WriteString(s.line(f.t))
			}
			st = st[:len(st)-1]
		}
	}
	for _, t := range conj {
		visit(t)
	}
	vars := make([]int32, 0, len(varset))
	for v := range varset {
		vars = append(vars, v)
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i] < vars[j] })
	for _, v := range vars {
		t := s.c.vars[v]
		b.WriteString("(declare-const " + s.ref(t) + " " + s.sortStr(t.sort) + ")\n")
		if t.real {
			b.WriteString("(assert (and (<= " + ratStr(t.rlo) + " " + s.ref(t) + ") (<= " + s.ref(t) + " " + ratStr(t.rhi) + ")))\n")
		}
	}
	b.WriteString(body.String())
	for _, t := range conj {
		b.WriteString("(assert " + s.ref(t) + ")\n")
	}
	return b.String(), vars
}

// CheckCut: the conjunction is unsatisfiable even with the cut terms left free.
func (s *Solver) CheckCut(conj []*Term, cuts map[int32]bool) bool {
	t0 := time.Now()
	text, vars := s.script(conj, cuts)
	res, _ := s.run(text, vars)
	atomic.AddInt64(&s.stats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&s.stats.Queries, 1)
	if res == Unsat {
		atomic.AddInt64(&s.stats.UnsatN, 1)
	}
	return res == Unsat
}

// Check decides the conjunction. Constants are assumed already simplified away.
func (s *Solver) Check(conj []*Term) (SatRes, map[int32]uint64) {
	var cs []*Term
	seen := map[int32]bool{}
	for _, t := range conj {
		if t == s.c.tru || seen[t.id] {
			continue
		}
		if t == s.c.fls {
			return Unsat, nil
		}
		seen[t.id] = true
		cs = append(cs, t)
	}
	if len(cs) == 0 {
		return Sat, map[int32]uint64{}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	kb := make([]byte, 0, len(cs)*4)
	for _, t := range cs {
		kb = append(kb, byte(t.id), byte(t.id>>8), byte(t.id>>16), byte(t.id>>24))
	}
	key := string(kb)
	if e, ok := s.cache[key]; ok {
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return e.res, e.vals
	}
	t0 := time.Now()
	text, vars := s.script(cs, nil)
	res, vals := s.run(text, vars)
	if d := os.Getenv("VSLOW"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(d+"/q"+strconv.FormatInt(time.Since(t0).Milliseconds(), 10)+".smt2", []byte(text+"(check-sat)\n"), 0o644)
	}
	atomic.AddInt64(&s.stats.Nanos, int64(time.Since(t0)))
	atomic.AddInt64(&s.stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	s.cache[key] = cacheEnt{res, vals}
	return res, vals
}

func (s *Solver) getValues(vars []int32) string {
	if len(vars) == 0 {
		return ""
	}
	var b strings.Builder
	b.WriteString("(get-value (")
	for i, v := range vars {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString("v" + strconv.Itoa(int(v)))
	}
	b.WriteString("))\n")
	return b.String()
}

func (s *Solver) run(text string, vars []int32) (SatRes, map[int32]uint64) {
	for k, stage := range stages {
		if s.procs[k] == nil {
			p, err := startZ3(stage.cmd)
			if err != nil {
				continue
			}
			s.procs[k] = p
		}
		p, limit := s.procs[k], stage.limit
		out, err := p.query("(reset)\n(set-option :timeout "+strconv.Itoa(int(limit/time.Millisecond))+")\n"+text+"(check-sat)\n", limit+time.Second)
		if err != nil {
			p.kill()
			s.procs[k] = nil
			continue
		}
		switch firstLine(out) {
		case "sat":
			if len(vars) == 0 {
				return Sat, map[int32]uint64{}
			}
			mo, err := p.query(s.getValues(vars), 10*time.Second)
			if err == nil {
				if vals, ok := s.parseValues(mo); ok {
					return Sat, vals
				}
			}
		case "unsat":
			return Unsat, nil
		}
	}
	// portfolio of one-shot solvers
	atomic.AddInt64(&s.stats.Portfolio, 1)
	type ans struct {
		res  SatRes
		vals map[int32]uint64
	}
	ctx, cancel := context.WithTimeout(context.Background(), s.slowTimeout)
	defer cancel()
	full := "(set-option :produce-models true)\n(set-logic ALL)\n" + text + "(check-sat)\n" + s.getValues(vars)
	cmds := [][]string{{"z3", "-in"}, {"z3-new", "-in"}, {"cvc5", "--lang=smt2", "--produce-models", "-q"}}
	if s.c.real {
		cmds = [][]string{{"z3", "-in"}, {"z3-new", "-in"}, {"cvc5", "--lang=smt2", "--produce-models", "-q"}}
	}
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(full)
			var ob bytes.Buffer
			cmd.Stdout = &ob
			cmd.Run()
			o := ob.String()
			fl := firstLine(o)
			switch {
			case fl == "unsat":
				ch <- ans{Unsat, nil}
			case fl == "sat":
				rest := strings.TrimPrefix(strings.TrimSpace(o), "sat")
				if len(vars) == 0 {
					ch <- ans{Sat, map[int32]uint64{}}
				} else if vals, ok := s.parseValues(rest); ok {
					ch <- ans{Sat, vals}
				} else {
					ch <- ans{Unknown, nil}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		a := <-ch
		if a.res != Unknown {
			return a.res, a.vals
		}
	}
	return Unknown, nil
}

func firstLine(o string) string {
	o = strings.TrimSpace(o)
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		return strings.TrimSpace(o[:i])
	}
	return o
}

// ---------------------------------------------------------------- z3 process

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func startZ3(bin string) (*z3proc, error) {
	cmd := exec.Command(bin, "-in")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &z3proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16)}, nil
}

func (p *z3proc) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	go p.cmd.Wait()
}

const sentinel = "vengine-done"

func (p *z3proc) query(text string, timeout time.Duration) (string, error) {
	type rr struct {
		s   string
		err error
	}
	ch := make(chan rr, 1)
	go func() {
		if _, err := io.WriteString(p.in, text+"(echo \""+sentinel+"\")\n"); err != nil {
			ch <- rr{"", err}
			return
		}
		var b strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				ch <- rr{"", err}
				return
			}
			if strings.HasPrefix(l, sentinel) {
				ch <- rr{b.String(), nil}
				return
			}
			b.WriteString(l)
		}
	}()
	select {
	case r := <-ch:
		return r.s, r.err
	case <-time.After(timeout):
		return "", fmt.Errorf("timeout")
	}
}

// ---------------------------------------------------------------- model parsing

type sx struct {
	atom string
	list []sx
}

func parseSx(s string) ([]sx, bool) {
	pos := 0
	var parse func() ([]sx, bool)
	parse = func() ([]sx, bool) {
		var out []sx
		for pos < len(s) {
			switch ch := s[pos]; {
			case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
				pos++
			case ch == '(':
				pos++
				l, ok := parse()
				if !ok {
					return nil, false
				}
				if pos >= len(s) || s[pos] != ')' {
					return nil, false
				}
				pos++
				out = append(out, sx{list: l})
			case ch == ')':
				return out, true
			default:
				st := pos
				for pos < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[pos])) {
					pos++
				}
				out = append(out, sx{atom: s[st:pos]})
			}
		}
		return out, true
	}
	return parse()
}

func (s *Solver) parseValues(o string) (map[int32]uint64, bool) {
	if strings.Contains(o, "(error") {
		return nil, false
	}
	l, ok := parseSx(o)
	if !ok || len(l) == 0 {
		return nil, false
	}
	vals := map[int32]uint64{}
	for _, p := range l[0].list {
		if len(p.list) != 2 || !strings.HasPrefix(p.list[0].atom, "v") {
			return nil, false
		}
		i, err := strconv.Atoi(p.list[0].atom[1:])
		if err != nil {
			return nil, false
		}
		t := s.c.vars[i]
		v, ok := parseVal(p.list[1], t.sort)
		if !ok {
			return nil, false
		}
		vals[int32(i)] = v
	}
	return vals, true
}

func parseVal(x sx, so Sort) (uint64, bool) {
	switch so.K {
	case SBool:
		return b2u(x.atom == "true"), x.atom == "true" || x.atom == "false"
	case SBV:
		if strings.HasPrefix(x.atom, "#x") {
			v, err := strconv.ParseUint(x.atom[2:], 16, 64)
			return v, err == nil
		}
		if strings.HasPrefix(x.atom, "#b") {
			v, err := strconv.ParseUint(x.atom[2:], 2, 64)
			return v, err == nil
		}
		return 0, false
	}
	r, ok := parseRat(x)
	if !ok {
		return 0, false
	}
	f, _ := r.Float64()
	return fbits(so, f), true
}

func parseRat(x sx) (*big.Rat, bool) {
	if x.atom != "" {
		r, ok := new(big.Rat).SetString(x.atom)
		return r, ok
	}
	if len(x.list) == 2 && x.list[0].atom == "-" {
		r, ok := parseRat(x.list[1])
		if !ok {
			return nil, false
		}
		return r.Neg(r), true
	}
	if len(x.list) == 3 && x.list[0].atom == "/" {
		a, ok1 := parseRat(x.list[1])
		b, ok2 := parseRat(x.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return a.Quo(a, b), true
	}
	return nil, false
}

// stages are the solvers kept running, each asked in turn before the one-shot portfolio.
var stages = [2]struct {
	cmd   string
	limit time.Duration
}{{"z3-new", 1500 * time.Millisecond}, {"z3", 3 * time.Second}}
