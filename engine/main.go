package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/recolude/rap"

type Harness struct {
	Name  string
	Group string // lib or cli
	Opts  map[string]string
	Doc   []string
}

func (h *Harness) num(k string, def int) int {
	if v, ok := h.Opts[k]; ok {
		n, err := strconv.Atoi(v)
		if err != nil {
			fatal("bad directive %s=%s on %s", k, v, h.Name)
		}
		return n
	}
	return def
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vengine: "+f+"\n", a...)
	os.Exit(2)
}

var reFunc = regexp.MustCompile(`^func (C\d\d_\w+)\(\) \{`)
var reHarness = regexp.MustCompile(`^C\d\d_`)

func scanHarnesses(dir, group string) []*Harness {
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	var out []*Harness
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		opts := map[string]string{}
		var doc []string
		for _, l := range strings.Split(string(b), "\n") {
			switch {
			case strings.HasPrefix(l, "//v:"):
				for _, w := range strings.Fields(l[4:]) {
					kv := strings.SplitN(w, "=", 2)
					if len(kv) == 1 {
						kv = append(kv, "1")
					}
					opts[kv[0]] = kv[1]
				}
			case strings.HasPrefix(l, "//"):
				doc = append(doc, strings.TrimSpace(strings.TrimPrefix(l, "//")))
			default:
				if m := reFunc.FindStringSubmatch(l); m != nil {
					out = append(out, &Harness{Name: m[1], Group: group, Opts: opts, Doc: doc})
				}
				opts = map[string]string{}
				doc = nil
			}
		}
	}
	return out
}

type overlayFile struct{ dst, src string }

func table(hs []*Harness, group string) string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"os\"\n\n\t\"" + modPath + "/internal/vsym\"\n)\n\nvar vsymTable = map[string]func(){\n")
	for _, h := range hs {
		if h.Group == group {
			b.WriteString("\t\"" + h.Name + "\": " + h.Name + ",\n")
		}
	}
	b.WriteString("}\n\n")
	if group == "lib" {
		b.WriteString("func main() {\n\tvsym.Main(vsymTable)\n\tos.Exit(0)\n}\n")
	} else {
		b.WriteString("func init() {\n\tif vsym.Active() {\n\t\tvsym.Main(vsymTable)\n\t\tos.Exit(0)\n\t}\n}\n")
	}
	return b.String()
}

type Run struct {
	repo, verif string
	prop        string
	race        bool // native replays under the race detector
	tier        string
	verbose     bool
	only        string
	workers     int
	harnesses   []*Harness
	overlay     []overlayFile
	tmp         string
	prog        *ssa.Program
	models      map[string]*ssa.Function
	stats       SolverStats
	deadline    time.Time
	nativeErr   map[string]error
	nativeBin   map[string]string
	nativeWG    sync.WaitGroup
	nativeMu    sync.Mutex
}

func (r *Run) prepare() {
	add := func(srcDir, dstDir, prefix string) {
		files, _ := filepath.Glob(filepath.Join(srcDir, "*.go"))
		for _, f := range files {
			r.overlay = append(r.overlay, overlayFile{filepath.Join(r.repo, dstDir, prefix+filepath.Base(f)), f})
		}
	}
	add(filepath.Join(r.verif, "vsym"), "internal/vsym", "")
	add(filepath.Join(r.verif, "models"), "internal/vsymmodels", "")
	add(filepath.Join(r.verif, "harness/lib"), "internal/vsymh", "")
	for i, f := range renameTop(filepath.Join(r.verif, "harness/lib"), filepath.Join(r.verif, "harness/cli")) {
		src := filepath.Join(r.tmp, fmt.Sprintf("cli%d.go", i))
		if err := os.WriteFile(src, f, 0o644); err != nil {
			fatal("%v", err)
		}
		r.overlay = append(r.overlay, overlayFile{filepath.Join(r.repo, "cmd/rap-cli", fmt.Sprintf("zz_vsym_%d.go", i)), src})
	}
	r.harnesses = append(scanHarnesses(filepath.Join(r.verif, "harness/lib"), "lib"), scanHarnesses(filepath.Join(r.verif, "harness/cli"), "cli")...)
	for _, g := range []string{"lib", "cli"} {
		f := filepath.Join(r.tmp, "table_"+g+".go")
		if err := os.WriteFile(f, []byte(table(r.harnesses, g)), 0o644); err != nil {
			fatal("%v", err)
		}
		d := "internal/vsymh/zz_table.go"
		if g == "cli" {
			d = "cmd/rap-cli/zz_vsym_table.go"
		}
		r.overlay = append(r.overlay, overlayFile{filepath.Join(r.repo, d), f})
	}
	m := map[string]string{}
	for _, o := range r.overlay {
		m[o.dst] = o.src
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	if err := os.WriteFile(filepath.Join(r.tmp, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func (r *Run) buildNative(group string) {
	r.nativeWG.Add(1)
	go func() {
		defer r.nativeWG.Done()
		bin := filepath.Join(r.tmp, "native_"+group)
		pkg := "./internal/vsymh"
		if group == "cli" {
			pkg = "./cmd/rap-cli"
		}
		args := []string{"build"}
		if r.race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, "-overlay", filepath.Join(r.tmp, "overlay.json"), "-o", bin, pkg)...)
		cmd.Dir = r.repo
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		r.nativeMu.Lock()
		defer r.nativeMu.Unlock()
		if err != nil {
			r.nativeErr[group] = fmt.Errorf("%v: %s", err, out)
			return
		}
		r.nativeBin[group] = bin
	}()
}

var reModel = regexp.MustCompile(`(?m)^//model: (\S+)\s*\nfunc (\w+)`)

func (r *Run) load(groups map[string]bool) {
	ov := map[string][]byte{}
	for _, o := range r.overlay {
		b, err := os.ReadFile(o.src)
		if err != nil {
			fatal("%v", err)
		}
		ov[o.dst] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: r.repo, Env: goEnv(), Overlay: ov}
	pats := []string{"./internal/vsymh", "./internal/vsymmodels"}
	if groups["cli"] {
		pats = append(pats, "./cmd/rap-cli")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		fatal("load: %v", err)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintf(os.Stderr, "vengine: %s: %v\n", p.PkgPath, e)
			bad = true
		}
	})
	if bad {
		os.Exit(2)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r.prog = prog
	r.models = map[string]*ssa.Function{}
	mp := prog.ImportedPackage(modPath + "/internal/vsymmodels")
	for _, o := range r.overlay {
		if !strings.Contains(o.dst, "vsymmodels") {
			continue
		}
		for _, m := range reModel.FindAllStringSubmatch(string(ov[o.dst]), -1) {
			f := mp.Func(m[2])
			if f == nil {
				fatal("model %s missing", m[2])
			}
			r.models[m[1]] = f
		}
	}
}

func (r *Run) newEngine(realMode bool) *Engine {
	c := NewTCtx()
	c.real = realMode
	e := &Engine{
		prog: r.prog, c: c, s: NewSolver(c, &r.stats),
		finfo: map[*ssa.Function]*FnInfo{}, pure: map[*ssa.Function]bool{}, globals: map[*ssa.Global]int32{},
		slotsC: map[types.Type]int{}, tidC: map[types.Type]int{}, implC: map[[2]types.Type]bool{},
		sizes: types.SizesFor("gc", "amd64"), models: r.models,
		violSeen: map[string]int{}, unsup: map[string]int{}, reached: map[string]int{}, trunc: map[string]int{},
		fnsSeen: map[*ssa.Function]bool{}, cfg: map[string]int{},
		maxViol: 3, maxSamples: 6, stepLimit: 20_000_000, permLimit: 4, trace: r.verbose,
	}
	return e
}

// initState runs the package initialisers of the whitelisted packages.
func (e *Engine) initState(main *ssa.Package) (*State, error) {
	st := &State{heap: newHeap(), counts: map[string]int{}, model: newModel()}
	e.initGoroutines(st)
	e.initing = true
	defer func() { e.initing = false; e.steps = 0; e.unsup = map[string]int{} }()
	initFn := main.Func("init")
	alts := e.call(st, initFn, nil, nil)
	if len(alts) != 1 || alts[0].pan {
		msg := ""
		if len(alts) > 0 {
			msg = alts[0].msg
		}
		for k := range e.unsup {
			msg += " " + k
		}
		return nil, fmt.Errorf("package initialisation gave %d outcomes %s", len(alts), msg)
	}
	s := alts[0].st
	s.steps, s.depth = 0, 0
	return s, nil
}

type jobRes struct {
	h          *Harness
	caseN      int
	violations []Violation
	unsupCases []Violation
	unsup      map[string]int
	samples    []pathSample
	reached    map[string]int
	trunc      map[string]int
	paths      int
	asserts    int
	branches   int
	steps      int
	merges     int
	fns        []string
	dur        time.Duration
	incomplete string
}

func (r *Run) runJob(h *Harness, caseN int) (res *jobRes) {
	t0 := time.Now()
	res = &jobRes{h: h, caseN: caseN}
	e := r.newEngine(h.Opts["mode"] == "real")
	defer e.s.Close()
	defer func() {
		if x := recover(); x != nil {
			switch v := x.(type) {
			case abortErr:
				res.incomplete = v.why
			case unsupportedErr:
				res.incomplete = v.msg
			default:
				res.incomplete = fmt.Sprintf("engine failure: %v", x)
				fmt.Fprintf(os.Stderr, "vengine: %s: %v\n%s\n", h.Name, x, debug.Stack())
			}
		}
		res.violations, res.unsupCases, res.unsup = e.violations, e.unsupCases, e.unsup
		res.samples, res.reached, res.trunc = e.pathsDone, e.reached, e.trunc
		res.paths, res.asserts, res.branches, res.steps, res.merges = e.paths, e.asserts, e.branches, e.steps, e.merges
		res.fns = e.fnList()
		res.dur = time.Since(t0)
	}()
	pkgPath := modPath + "/internal/vsymh"
	if h.Group == "cli" {
		pkgPath = modPath + "/cmd/rap-cli"
	}
	var pkg *ssa.Package
	for _, p := range r.prog.AllPackages() {
		if p.Pkg.Path() == pkgPath {
			pkg = p
		}
	}
	if pkg == nil {
		fatal("package %s not loaded", pkgPath)
	}
	st, err := e.initState(pkg)
	if err != nil {
		panic(unsupported("%v", err))
	}
	if r.tier == "thorough" {
		e.cfg["thorough"] = 1
	}
	e.harness, e.caseN = h.Name, caseN
	e.mapOrder = h.Opts["order"] == "1"
	e.cfg["conc"] = h.num("conc", 24)
	e.permLimit = h.num("perm", 4)
	e.maxSamples = h.num("samples", 6)
	if v, ok := h.Opts["solver"]; ok {
		n, _ := strconv.Atoi(v)
		e.s.slowTimeout = time.Duration(n) * time.Second
	}
	e.stepLimit = h.num("steps", 20_000_000)
	lim := h.num("limit", 240)
	if r.tier == "thorough" {
		lim = h.num("tlimit", 1800)
	}
	e.deadline = time.Now().Add(time.Duration(lim) * time.Second)
	if !r.deadline.IsZero() && r.deadline.Before(e.deadline) {
		e.deadline = r.deadline
	}
	e.fnsSeen = map[*ssa.Function]bool{}
	fn := pkg.Func(h.Name)
	if fn == nil {
		panic(unsupported("harness %s not found", h.Name))
	}
	alts := e.call(st, fn, nil, nil)
	for _, a := range alts {
		m := a.st.model
		if m == nil || a.pan {
			var rs SatRes
			rs, m = e.fullModel(a.st, nil)
			if rs == Unsat {
				continue
			}
		}
		e.paths++
		if a.pan {
			if m == nil {
				e.unsup["panic path without model: "+a.msg]++
				continue
			}
			e.report(a.st, m, "uncaught "+a.msg)
			continue
		}
		for _, l := range a.st.reach {
			e.reached[l]++
		}
		if m == nil {
			continue
		}
		// sample paths spread over the run
		keep := len(e.pathsDone) < e.maxSamples
		slot := len(e.pathsDone)
		if !keep {
			x := (e.paths * 2654435761) >> 7 % e.paths
			if x >= 0 && x < e.maxSamples {
				keep, slot = true, x
			}
		}
		if keep {
			ps := pathSample{V: e.mkViolation(a.st, m, "")}
			for _, o := range a.st.obs {
				s, ok := e.obsString(m, o.v)
				if !ok {
					s = "?"
				}
				if e.c.real {
					s = "?"
				}
				ps.Obs = append(ps.Obs, obsJSON{o.name, s})
			}
			if slot == len(e.pathsDone) {
				e.pathsDone = append(e.pathsDone, ps)
			} else {
				e.pathsDone[slot] = ps
			}
		}
	}
	return res
}

func main() {
	r := &Run{nativeErr: map[string]error{}, nativeBin: map[string]string{}}
	flag.StringVar(&r.repo, "repo", "/repo", "repository")
	flag.StringVar(&r.verif, "verif", "/verif", "verification directory")
	flag.StringVar(&r.prop, "prop", "", "property id")
	flag.StringVar(&r.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&r.only, "only", "", "run harnesses whose name contains this")
	flag.BoolVar(&r.verbose, "v", false, "verbose")
	flag.IntVar(&r.workers, "workers", 0, "workers")
	replay := flag.String("replay", "", "replay a recorded violation")
	budget := flag.Int("budget", 0, "overall seconds for exploration")
	noNative := flag.Bool("nonative", false, "skip native validation (debug)")
	forks := flag.Bool("forks", false, "report where paths fork (single worker, debug)")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	report := func() {}
	if *forks {
		debugForks = map[string]int{}
		r.workers = 1
		report = func() {
			var ks []string
			for k := range debugForks {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return debugForks[ks[i]] > debugForks[ks[j]] })
			for i, k := range ks {
				if i < 40 {
					fmt.Fprintf(os.Stderr, "%7d %s\n", debugForks[k], k)
				}
			}
		}
	}
	if *prof != "" {
		stopProf := startProf(*prof)
		defer stopProf()
	}
	debug.SetGCPercent(200)
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vengine")
	if err != nil {
		fatal("%v", err)
	}
	r.tmp = tmp
	code := 2
	defer func() {
		os.RemoveAll(r.tmp)
		report()
		if *prof == "" {
			os.Exit(code)
		}
	}()
	r.prepare()
	if *replay != "" {
		code = r.replayFile(*replay)
		return
	}
	var sel []*Harness
	groups := map[string]bool{}
	for _, h := range r.harnesses {
		if r.prop != "" && !strings.HasPrefix(h.Name, r.prop+"_") {
			continue
		}
		if r.only != "" && !strings.Contains(h.Name, r.only) {
			continue
		}
		if h.Opts["tier"] == "thorough" && r.tier != "thorough" {
			continue
		}
		if h.Opts["tier"] == "quick" && r.tier == "thorough" {
			continue
		}
		sel = append(sel, h)
		r.race = r.race || h.Opts["race"] == "1"
		groups[h.Group] = true
	}
	if len(sel) == 0 {
		fatal("no harness for %s", r.prop)
	}
	if !*noNative {
		for g := range groups {
			r.buildNative(g)
		}
	}
	go watchMemory(18 << 30)
	r.load(groups)
	tLoad := time.Since(t0)
	if r.workers == 0 {
		r.workers = runtime.NumCPU()
	}
	if *budget == 0 {
		*budget = 500
		if r.tier == "thorough" {
			*budget = 3300
		}
	}
	r.deadline = t0.Add(time.Duration(*budget) * time.Second)
	type job struct {
		h *Harness
		c int
	}
	var jobs []job
	for _, h := range sel {
		n := h.num("cases", 1)
		if r.tier == "thorough" {
			n = h.num("tcases", n)
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{h, i})
		}
	}
	// heavier jobs (declared weight) first
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].h.num("weight", 0) > jobs[j].h.num("weight", 0) })
	ch := make(chan job)
	var mu sync.Mutex
	var results []*jobRes
	var wg sync.WaitGroup
	for w := 0; w < min(r.workers, len(jobs)); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				res := r.runJob(j.h, j.c)
				mu.Lock()
				results = append(results, res)
				if r.verbose {
					fmt.Fprintf(os.Stderr, "%-46s case %2d paths %5d asserts %6d branches %6d steps %8d merges %5d %.2fs %s\n", j.h.Name, j.c, res.paths, res.asserts, res.branches, res.steps, res.merges, res.dur.Seconds(), res.incomplete)
					for k, n := range res.unsup {
						fmt.Fprintf(os.Stderr, "    unsupported x%d: %s\n", n, k)
					}
					for k, n := range res.trunc {
						fmt.Fprintf(os.Stderr, "    truncated x%d: %s\n", n, k)
					}
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	tExplore := time.Since(t0) - tLoad
	r.nativeWG.Wait()
	for g, err := range r.nativeErr {
		fatal("native build of %s failed: %v", g, err)
	}
	sort.Slice(results, func(i, j int) bool {
		if results[i].h.Name != results[j].h.Name {
			return results[i].h.Name < results[j].h.Name
		}
		return results[i].caseN < results[j].caseN
	})
	code = r.conclude(sel, results, t0, tLoad, tExplore, *noNative)
}
