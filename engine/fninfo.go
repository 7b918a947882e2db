package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// FnInfo holds per-function static facts.
type FnInfo struct {
	fn     *ssa.Function
	reg    map[ssa.Value]int
	nregs  int
	ipdom  []*ssa.BasicBlock // by block index; nil = exit
	live   [][]int           // live registers after phis, by block index
	simple []int8            // 0 unknown, 1 yes, 2 no
	opidx  map[ssa.Instruction][]int
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.finfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.simple = make([]int8, len(fn.Blocks))
	fi.computePdom()
	fi.computeLive()
	e.finfo[fn] = fi
	return fi
}

func isPanicBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func (fi *FnInfo) computePdom() {
	bs := fi.fn.Blocks
	n := len(bs)
	fi.ipdom = make([]*ssa.BasicBlock, n)
	if n == 0 {
		return
	}
	// post-dominator sets by iteration over bitsets; virtual exit = n
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := 0; i <= n; i++ {
		full[i/64] |= 1 << (i % 64)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, words)
	pd[n][n/64] |= 1 << (n % 64)
	succs := func(b *ssa.BasicBlock) []int {
		if len(b.Succs) == 0 {
			if isPanicBlock(b) {
				return nil // does not count as an exit
			}
			return []int{n}
		}
		out := []int{}
		for _, s := range b.Succs {
			if len(s.Succs) == 0 && isPanicBlock(s) {
				continue
			}
			out = append(out, s.Index)
		}
		if len(out) == 0 {
			return []int{n}
		}
		return out
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			ss := succs(bs[i])
			nw := make([]uint64, words)
			if len(ss) > 0 {
				copy(nw, pd[ss[0]])
				for _, s := range ss[1:] {
					for w := range nw {
						nw[w] &= pd[s][w]
					}
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					pd[i] = nw
					changed = true
					break
				}
			}
		}
	}
	count := func(i int) int {
		k := 0
		for j := 0; j <= n; j++ {
			if pd[i][j/64]&(1<<(j%64)) != 0 {
				k++
			}
		}
		return k
	}
	for i := 0; i < n; i++ {
		// immediate post-dominator: the strict post-dominator with most pdoms
		best, bc := n, -1
		for j := 0; j < n; j++ {
			if j != i && pd[i][j/64]&(1<<(j%64)) != 0 {
				if c := count(j); c > bc {
					best, bc = j, c
				}
			}
		}
		if best < n && bc >= 0 {
			fi.ipdom[i] = bs[best]
		}
	}
}

func (fi *FnInfo) computeLive() {
	n := len(fi.fn.Blocks)
	use := make([]map[int]bool, n)
	def := make([]map[int]bool, n)
	live := make([]map[int]bool, n)
	var ops []*ssa.Value
	for i, b := range fi.fn.Blocks {
		use[i], def[i], live[i] = map[int]bool{}, map[int]bool{}, map[int]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o == nil {
					continue
				}
				if r, ok := fi.reg[*o]; ok && !def[i][r] {
					use[i][r] = true
				}
			}
			if v, ok := in.(ssa.Value); ok {
				def[i][fi.reg[v]] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fi.fn.Blocks[i]
			l := live[i]
			add := func(r int) {
				if !l[r] {
					l[r] = true
					changed = true
				}
			}
			for r := range use[i] {
				add(r)
			}
			for _, s := range b.Succs {
				phid := map[int]bool{}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						break
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					phid[fi.reg[ph]] = true
					if pi >= 0 {
						// all edges from b
						for k, p := range s.Preds {
							if p == b {
								if r, ok := fi.reg[ph.Edges[k]]; ok && !def[i][r] {
									add(r)
								}
							}
						}
					}
				}
				for r := range live[s.Index] {
					if !phid[r] && !def[i][r] {
						add(r)
					}
				}
			}
		}
	}
	fi.live = make([][]int, n)
	for i := range live {
		for r := range live[i] {
			fi.live[i] = append(fi.live[i], r)
		}
	}
}

// isSimple: the region between If-block b and its post-dominator is acyclic,
// small and made only of effect-free scalar work, so both sides can be run
// without asking the solver and merged.
func (e *Engine) isSimple(fi *FnInfo, b *ssa.BasicBlock) bool {
	switch fi.simple[b.Index] {
	case 1:
		return true
	case 2:
		return false
	}
	fi.simple[b.Index] = 2
	p := fi.ipdom[b.Index]
	if p == nil {
		return false
	}
	color := map[*ssa.BasicBlock]int{}
	count := 0
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if x == p {
			return true
		}
		if x == b || color[x] == 1 {
			return false
		}
		if color[x] == 2 {
			return true
		}
		color[x] = 1
		count++
		if count > 24 || len(x.Succs) == 0 {
			return false
		}
		for _, in := range x.Instrs {
			if !e.simpleInstr(in, 0) {
				return false
			}
		}
		for _, s := range x.Succs {
			if !dfs(s) {
				return false
			}
		}
		color[x] = 2
		return true
	}
	for _, s := range b.Succs {
		if !dfs(s) {
			return false
		}
	}
	fi.simple[b.Index] = 1
	return true
}

func scalarType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsNumeric) != 0 && b.Info()&types.IsComplex == 0
}

func (e *Engine) simpleInstr(in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			b, ok := x.X.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsFloat != 0
		}
		return scalarType(x.X.Type())
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Field, *ssa.FieldAddr, *ssa.ChangeType, *ssa.DebugRef, *ssa.IndexAddr, *ssa.Extract:
		return true
	case *ssa.Convert:
		return scalarType(x.X.Type()) && scalarType(x.Type())
	case *ssa.Alloc:
		return true
	case *ssa.Store:
		return true
	case *ssa.Return:
		return depth > 0
	case *ssa.Call:
		if depth >= 4 {
			return false
		}
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false
		}
		return e.pureLeaf(fn, depth+1)
	}
	return false
}

func (e *Engine) pureLeaf(fn *ssa.Function, depth int) bool {
	if v, ok := e.pure[fn]; ok {
		return v
	}
	name := fn.String()
	if _, ok := intrinsics[name]; ok {
		r := pureIntrinsics[name]
		e.pure[fn] = r
		return r
	}
	if e.redirect(fn) != fn || len(fn.Blocks) == 0 || len(fn.Blocks) > 6 || fn.Recover != nil {
		e.pure[fn] = false
		return false
	}
	// acyclic
	color := map[*ssa.BasicBlock]int{}
	var dfs func(x *ssa.BasicBlock) bool
	dfs = func(x *ssa.BasicBlock) bool {
		if color[x] == 1 {
			return false
		}
		if color[x] == 2 {
			return true
		}
		color[x] = 1
		for _, in := range x.Instrs {
			if !e.simpleInstr(in, depth) {
				return false
			}
		}
		for _, s := range x.Succs {
			if !dfs(s) {
				return false
			}
		}
		color[x] = 2
		return true
	}
	r := dfs(fn.Blocks[0])
	e.pure[fn] = r
	return r
}
