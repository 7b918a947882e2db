package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Replay is the exchange format with the native vsym package.
type Replay struct {
	Harness string            `json:"harness"`
	Case    int               `json:"case"`
	Vals    map[string]uint64 `json:"vals"`
	Choices map[string]int    `json:"choices"`
	Repeat  int               `json:"repeat"`
	Tier    string            `json:"tier"`
	Label   string            `json:"label,omitempty"`
	Prop    string            `json:"property,omitempty"`
}

type NatRes struct {
	Fails  []string  `json:"fails"`
	Panic  string    `json:"panic"`
	Assume bool      `json:"assume"`
	Obs    []obsJSON `json:"obs"`
	Crash  string    `json:"-"`
	Ran    bool      `json:"-"`
}

func (n *NatRes) failed() bool { return n.Ran && (len(n.Fails) > 0 || n.Panic != "" || n.Crash != "") }

func (n *NatRes) why() string {
	switch {
	case n.Crash != "":
		return "process crash: " + n.Crash
	case n.Panic != "":
		return "panic: " + n.Panic
	case len(n.Fails) > 0:
		return strings.Join(n.Fails, "; ")
	}
	return "passed"
}

func (r *Run) toReplay(v Violation) Replay {
	rep := Replay{Harness: v.Harness, Case: v.Case, Vals: v.Vals, Choices: v.Choices, Tier: r.tier, Label: v.Label, Prop: r.prop, Repeat: 1}
	if v.Order {
		rep.Repeat = 300
	}
	return rep
}

// neighbours are inputs to try where a real-mode counterexample does not show
// natively: the rounding the solver chose may need other numbers to occur.
func (r *Run) neighbours(v Violation, n int) []Replay {
	names := []string{}
	for k, b := range v.Ranges {
		if !math.IsInf(b[0], 0) && !math.IsInf(b[1], 0) && b[0] < b[1] {
			names = append(names, k)
		}
	}
	if len(names) == 0 {
		return nil
	}
	sort.Strings(names)
	rng := rand.New(rand.NewSource(1))
	out := []Replay{}
	for i := 0; i < n; i++ {
		rep := r.toReplay(v)
		rep.Vals = map[string]uint64{}
		for k, x := range v.Vals {
			rep.Vals[k] = x
		}
		for _, k := range names {
			x, lo, hi := math.Float64frombits(v.Vals[k]), v.Ranges[k][0], v.Ranges[k][1]
			how := i
			if i >= 4 {
				how = rng.Intn(8)
			}
			switch how {
			case 0:
				x = lo
			case 1:
				x = hi
			case 2, 3, 4:
				x = lo + (hi-lo)*rng.Float64()
			case 5:
				x += (rng.Float64() - 0.5) * math.Max(math.Abs(x), (hi-lo)/16) / 8
			case 6:
				x += (rng.Float64() - 0.5) * math.Max(math.Abs(x), (hi-lo)/1024) / 4096
			}
			rep.Vals[k] = math.Float64bits(math.Min(hi, math.Max(lo, x)))
		}
		out = append(out, rep)
	}
	return out
}

// native runs the replays against the real code.
func (r *Run) native(group string, reps []Replay) []NatRes {
	out := make([]NatRes, len(reps))
	i := 0
	bin := r.nativeBin[group]
	limit := "ulimit -v 12582912; "
	if r.race {
		limit = ""
	}
	for i < len(reps) {
		in := filepath.Join(r.tmp, "in.json")
		res := filepath.Join(r.tmp, "out.json")
		b, _ := json.Marshal(reps[i:])
		os.WriteFile(in, b, 0o644)
		os.Remove(res)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second+time.Duration(len(reps)-i)*time.Second)
		cmd := exec.CommandContext(ctx, "bash", "-c", limit+"ulimit -c 0; exec \"$0\"", bin)
		scratch, _ := os.MkdirTemp(r.tmp, "cwd")
		cmd.Dir = scratch
		cmd.Env = append(os.Environ(), "VSYM_IN="+in, "VSYM_OUT="+res, "GOTRACEBACK=none", "GORACE=halt_on_error=1", "TMPDIR="+scratch)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		err := cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		n := 0
		if f, e2 := os.Open(res); e2 == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				if i+n < len(out) && json.Unmarshal(sc.Bytes(), &out[i+n]) == nil {
					out[i+n].Ran = true
					n++
				}
			}
			f.Close()
		}
		os.RemoveAll(scratch)
		if i+n >= len(reps) {
			break
		}
		// the process ended in the middle of replay i+n
		msg := "no output"
		if err != nil {
			msg = err.Error()
		}
		if timedOut {
			msg = "did not finish"
		}
		for _, l := range strings.Split(eb.String(), "\n") {
			if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "runtime:") || strings.Contains(l, "DATA RACE") {
				msg = l
				break
			}
		}
		out[i+n] = NatRes{Ran: true, Crash: msg}
		i += n + 1
	}
	return out
}

func (r *Run) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fatal("%v", err)
	}
	var h *Harness
	for _, x := range r.harnesses {
		if x.Name == rep.Harness {
			h = x
		}
	}
	if h == nil {
		fatal("unknown harness %s", rep.Harness)
	}
	r.race = h.Opts["race"] == "1"
	r.buildNative(h.Group)
	r.nativeWG.Wait()
	if err := r.nativeErr[h.Group]; err != nil {
		fatal("%v", err)
	}
	res := r.native(h.Group, []Replay{rep})[0]
	fmt.Printf("%s: %s\n", rep.Harness, res.why())
	for _, o := range res.Obs {
		fmt.Printf("  %s = %s\n", o.Name, o.Val)
	}
	if res.failed() {
		return 1
	}
	return 0
}

type known struct {
	Property string `json:"property"`
	Label    string `json:"label"`
	What     string `json:"what"`
}

func (r *Run) knownFindings() []known {
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> label="<exact label>" <what>
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property=")
		id, rest, _ := strings.Cut(rest, " ")
		rest = strings.TrimPrefix(rest, "label=\"")
		lab, what, ok := strings.Cut(rest, "\" ")
		if ok {
			out = append(out, known{id, lab, what})
		}
	}
	return out
}

func labelOf(n *NatRes) []string {
	out := append([]string{}, n.Fails...)
	if n.Panic != "" {
		out = append(out, "panic: "+n.Panic)
	}
	if n.Crash != "" {
		out = append(out, "crash: "+n.Crash)
	}
	return out
}

func (r *Run) conclude(sel []*Harness, results []*jobRes, t0 time.Time, tLoad, tExplore time.Duration, noNative bool) int {
	knowns := r.knownFindings()
	group := map[string]string{}
	for _, h := range sel {
		group[h.Name] = h.Group
	}
	type cand struct {
		v    Violation
		kind string
	}
	var sampleV []pathSample
	byGroup := map[string][]cand{}
	sampGroup := map[string][]pathSample{}
	for _, res := range results {
		g := res.h.Group
		for _, v := range res.violations {
			byGroup[g] = append(byGroup[g], cand{v, "violation"})
		}
		for _, v := range res.unsupCases {
			byGroup[g] = append(byGroup[g], cand{v, "unsupported"})
		}
		for _, s := range res.samples {
			sampGroup[g] = append(sampGroup[g], s)
			sampleV = append(sampleV, s)
		}
	}
	var viol []map[string]any
	knownHit := map[int]int{}
	unconfirmed := map[string]int{}
	validated, mismatches := 0, []string{}
	nviol := 0
	printed := map[string]bool{}
	os.MkdirAll(filepath.Join(r.verif, "evidence", "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(r.verif, "evidence", "replay", r.prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	// emit reports one natively confirmed failure.
	emit := func(v Violation, nr *NatRes, rep Replay) {
		fresh := false
		for _, l := range labelOf(nr) {
			isKnown := false
			for ki, k := range knowns {
				if k.Property == r.prop && k.Label == l {
					knownHit[ki]++
					isKnown = true
				}
			}
			if !isKnown {
				fresh = true
			}
		}
		if !fresh {
			return
		}
		nviol++
		key := v.Harness + "|" + strings.Join(labelOf(nr), "|")
		if printed[key] || len(printed) >= 20 {
			return
		}
		printed[key] = true
		p := filepath.Join(r.verif, "evidence", "replay", fmt.Sprintf("%s-%d.json", r.prop, len(printed)))
		rep.Label = nr.why()
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, p)
		fmt.Printf("  harness %s case %d: %s (solver: %s)\n", v.Harness, v.Case, nr.why(), v.Label)
		viol = append(viol, map[string]any{"harness": v.Harness, "label": v.Label, "native": nr.why(), "replay": p})
	}
	if !noNative {
		gs := []string{}
		for g := range r.nativeBin {
			gs = append(gs, g)
		}
		sort.Strings(gs)
		for _, g := range gs {
			var reps []Replay
			for _, c := range byGroup[g] {
				reps = append(reps, r.toReplay(c.v))
			}
			if len(reps) > 0 {
				near, nearV := []Replay{}, []Violation{}
				for i, nr := range r.native(g, reps) {
					c := byGroup[g][i]
					if c.v.Real && c.kind == "violation" && !nr.failed() && len(near) < 1000 {
						for _, rep := range r.neighbours(c.v, 100) {
							near, nearV = append(near, rep), append(nearV, c.v)
						}
					}
					if nr.failed() {
						emit(c.v, &nr, reps[i])
					} else if c.kind == "violation" {
						why := "passed"
						if nr.Assume {
							why = "assumption not met natively"
						}
						unconfirmed[c.v.Harness+": "+c.v.Label+" ("+why+")"]++
						if r.verbose {
							fmt.Printf("unconfirmed %s %v %v\n", c.v.Label, c.v.Vals, c.v.Choices)
						}
					}
				}
				if len(near) > 0 && nviol == 0 {
					for i, nr := range r.native(g, near) {
						if nr.failed() {
							emit(nearV[i], &nr, near[i])
						}
					}
				}
			}
			reps = nil
			for _, s := range sampGroup[g] {
				rep := r.toReplay(s.V)
				rep.Repeat = 1
				reps = append(reps, rep)
			}
			if len(reps) > 0 {
				for i, nr := range r.native(g, reps) {
					s := sampGroup[g][i]
					switch {
					case nr.failed():
						// the real code breaks the property on a path the encoding accepted
						emit(s.V, &nr, reps[i])
						mismatches = append(mismatches, s.V.Harness+": native "+nr.why())
					case nr.Assume && s.V.Real:
						// reals rounded to floats may miss an assumption
					case nr.Assume:
						mismatches = append(mismatches, s.V.Harness+": assumption not met natively")
					default:
						bad := ""
						if len(nr.Obs) != len(s.Obs) {
							bad = fmt.Sprintf("%d observations natively, %d in the encoding", len(nr.Obs), len(s.Obs))
						} else {
							for k := range s.Obs {
								if s.Obs[k].Val != "?" && (s.Obs[k].Name != nr.Obs[k].Name || s.Obs[k].Val != nr.Obs[k].Val) {
									bad = fmt.Sprintf("%s: encoding %.200s native %.200s", s.Obs[k].Name, s.Obs[k].Val, nr.Obs[k].Val)
									break
								}
							}
						}
						if bad != "" {
							if s.V.Order {
								validated++ // another map order natively
							} else {
								mismatches = append(mismatches, s.V.Harness+": "+bad)
							}
						} else {
							validated++
						}
					}
				}
			}
		}
	}
	for i, k := range knowns {
		if k.Property == r.prop && knownHit[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
		}
	}
	// totals
	tot := map[string]int{}
	unsup, reach, trunc := map[string]int{}, map[string]int{}, map[string]int{}
	fns := map[string]bool{}
	per := map[string]map[string]any{}
	var incomplete []string
	for _, res := range results {
		tot["paths"] += res.paths
		tot["asserts"] += res.asserts
		tot["branches"] += res.branches
		tot["steps"] += res.steps
		tot["merges"] += res.merges
		for k, n := range res.unsup {
			unsup[k] += n
		}
		for k, n := range res.reached {
			reach[k] += n
		}
		for k, n := range res.trunc {
			trunc[k] += n
		}
		for _, f := range res.fns {
			fns[f] = true
		}
		if res.incomplete != "" {
			incomplete = append(incomplete, fmt.Sprintf("%s case %d: %s", res.h.Name, res.caseN, res.incomplete))
		}
		p := per[res.h.Name]
		if p == nil {
			p = map[string]any{"paths": 0, "assertions": 0, "bounds": strings.Join(res.h.Doc, " "), "seconds": 0.0, "mode": "bit-precise"}
			if res.h.Opts["mode"] == "real" {
				p["mode"] = "rounding-bounded reals"
			}
			per[res.h.Name] = p
		}
		p["paths"] = p["paths"].(int) + res.paths
		p["assertions"] = p["assertions"].(int) + res.asserts
		p["seconds"] = p["seconds"].(float64) + res.dur.Seconds()
	}
	var vacuous []string
	for _, h := range sel {
		if want, ok := h.Opts["reach"]; ok {
			for _, l := range strings.Split(want, ",") {
				if reach[l] == 0 {
					vacuous = append(vacuous, h.Name+": "+l)
				}
			}
		}
	}
	fl := []string{}
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var samples []any
	for i, s := range sampleV {
		if i >= 3 {
			break
		}
		vals := s.V.Vals
		if len(vals) > 40 {
			vals = map[string]uint64{}
			ks := []string{}
			for k := range s.V.Vals {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks[:40] {
				vals[k] = s.V.Vals[k]
			}
		}
		samples = append(samples, map[string]any{"harness": s.V.Harness, "case": s.V.Case, "choices": s.V.Choices, "inputs": vals, "observed": trimObs(s.Obs)})
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	cov := map[string]any{
		"states": tot["paths"], "transitions": tot["branches"] + tot["merges"] + tot["paths"], "traces_validated_against_impl": validated, "samples": samples,
		"paths": tot["paths"], "assertions_discharged": tot["asserts"], "branch_decisions": tot["branches"], "instructions_executed": tot["steps"], "state_merges": tot["merges"],
		"functions_encoded": fl, "functions_encoded_count": len(fl),
		"solver":    map[string]any{"queries": r.stats.Queries, "sat": r.stats.SatN, "unsat": r.stats.UnsatN, "unknown": r.stats.UnknownN, "cache_hits": r.stats.CacheHits, "portfolio": r.stats.Portfolio, "seconds": float64(r.stats.Nanos) / 1e9},
		"harnesses": per, "reached": reach, "enumerations_truncated": trunc, "unsupported_paths": unsup, "incomplete": incomplete,
		"unconfirmed_counterexamples": unconfirmed, "encoding_mismatches": mismatches, "vacuous": vacuous,
		"load_seconds": tLoad.Seconds(), "explore_seconds": tExplore.Seconds(), "violations_found": viol,
	}
	ev := map[string]any{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"bounds per harness as listed under coverage.harnesses.*.bounds", "library stand-ins as listed in DESIGN.md (compress/flate, fmt, encoding/json)", "amd64 Go semantics"},
		"wall_s":      time.Since(t0).Seconds(), "violations": nviol,
	}
	if r.prop != "" && r.only == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%s %s: %d harnesses, %d paths, %d assertions, %d queries (%.1fs solver), %d functions, %d traces validated, %.1fs\n", r.prop, r.tier, len(sel), tot["paths"], tot["asserts"], r.stats.Queries, float64(r.stats.Nanos)/1e9, len(fl), validated, time.Since(t0).Seconds())
	note := func(k string, m map[string]int) {
		ks := []string{}
		for x := range m {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		for i, x := range ks {
			if i > 12 {
				break
			}
			fmt.Printf("  %s x%d: %.300s\n", k, m[x], x)
		}
	}
	note("unsupported", unsup)
	note("truncated", trunc)
	note("unconfirmed", unconfirmed)
	for _, s := range incomplete {
		fmt.Printf("  incomplete: %s\n", s)
	}
	seenMismatch := map[string]bool{}
	for _, s := range mismatches {
		if seenMismatch[s] {
			continue
		}
		seenMismatch[s] = true
		fmt.Printf("  mismatch: %s\n", s)
	}
	for _, s := range vacuous {
		fmt.Printf("  vacuous: %s\n", s)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func trimObs(o []obsJSON) []obsJSON {
	if len(o) > 20 {
		o = o[:20]
	}
	out := make([]obsJSON, len(o))
	for i := range o {
		out[i] = o[i]
		if len(out[i].Val) > 200 {
			out[i].Val = out[i].Val[:200] + "..."
		}
	}
	return out
}
