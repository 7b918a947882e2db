package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines run one at a time and to completion, when somebody waits for them: at a receive from
// an empty channel, a select with nothing ready, or WaitGroup.Wait. Sends never wait. What needs a
// goroutine to be suspended half-way is outside the encoding. A channel is an object whose first
// two slots are the closed flag and the capacity; the rest are the queued values.

const pendingObj = 1 << 24 // holds the goroutines not yet run

func (e *Engine) initGoroutines(st *State) {
	st.heap.set(pendingObj, &Obj{owner: st.heap.tok})
}

func (e *Engine) spawn(st *State, cc *ssa.CallCommon, fv Value, args []Value) {
	e.goCalls = append(e.goCalls, cc)
	o := st.heap.mut(pendingObj)
	o.slots = append(o.slots[:len(o.slots):len(o.slots)], append(Tuple{e.c.K(64, uint64(len(e.goCalls)-1)), fv}, args...))
}

// runOne runs the oldest goroutine that has not run; nil if there is none.
func (e *Engine) runOne(st *State) []Alt {
	o := st.heap.mut(pendingObj)
	if len(o.slots) == 0 {
		return nil
	}
	g := o.slots[0].(Tuple)
	o.slots = o.slots[1:len(o.slots):len(o.slots)]
	cc := e.goCalls[g[0].(*Term).val]
	args := append([]Value(nil), g[2:]...)
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(st, b, args, cc)
	}
	return e.callValue(st, g[1], args, cc)
}

// waiting runs goroutines until ready gives an outcome.
func (e *Engine) waiting(st *State, ready func(*State) []Alt) []Alt {
	if alts := ready(st); alts != nil {
		return alts
	}
	ran := e.runOne(st)
	if ran == nil {
		panic(unsupported("goroutine left waiting"))
	}
	var out []Alt
	for _, a := range ran {
		if a.pan {
			out = append(out, a)
			continue
		}
		out = append(out, e.waiting(a.st, ready)...)
	}
	return out
}

func (e *Engine) chanOf(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		panic(unsupported("use of a nil channel"))
	}
	return p
}

// take receives from ch if that is possible at once.
func (e *Engine) take(st *State, ch Ptr, t types.Type) (v Value, ok, ready bool) {
	o := e.obj(st, ch.obj)
	if len(o.slots) > 2 {
		m := st.heap.mut(ch.obj)
		v = m.slots[2]
		m.slots = append(m.slots[:2:2], m.slots[3:]...)
		return v, true, true
	}
	if o.slots[0] == Value(e.c.tru) {
		return e.zero(t), false, true
	}
	return nil, false, false
}

func (e *Engine) send(st *State, ch Ptr, v Value) *Alt {
	if e.obj(st, ch.obj).slots[0] == Value(e.c.tru) {
		a := rtPanic(st, "send on closed channel")
		return &a
	}
	m := st.heap.mut(ch.obj)
	m.slots = append(m.slots[:len(m.slots):len(m.slots)], v)
	return nil
}

func (e *Engine) chanInstr(fr *Frame, st *State, in ssa.Instruction) []Alt {
	switch x := in.(type) {
	case *ssa.MakeChan:
		return one(st, Ptr{obj: e.alloc(st, []Value{e.c.fls, e.idx64(e.get(fr, st, x.Size), x.Size.Type())})})
	case *ssa.Go:
		fv, args := e.callArgs(fr, st, &x.Call)
		e.spawn(st, &x.Call, fv, args)
		return one(st, Tuple{})
	case *ssa.Send:
		if a := e.send(st, e.chanOf(e.get(fr, st, x.Chan)), e.get(fr, st, x.X)); a != nil {
			return []Alt{*a}
		}
		return one(st, Tuple{})
	case *ssa.UnOp: // receive
		ch := e.chanOf(e.get(fr, st, x.X))
		t := x.X.Type().Underlying().(*types.Chan).Elem()
		return e.waiting(st, func(st *State) []Alt {
			v, ok, ready := e.take(st, ch, t)
			if !ready {
				return nil
			}
			if x.CommaOk {
				return one(st, Tuple{v, e.c.Bool(ok)})
			}
			return one(st, v)
		})
	case *ssa.Select:
		var chans, vals []Value
		for _, s := range x.States {
			chans = append(chans, e.get(fr, st, s.Chan))
			if s.Dir == types.SendOnly {
				vals = append(vals, e.get(fr, st, s.Send))
			} else {
				vals = append(vals, nil)
			}
		}
		pick := func(st *State) []Alt {
			res := Tuple{e.c.K(64, ^uint64(0)), e.c.fls}
			done := false
			for i, s := range x.States {
				recv := s.Dir != types.SendOnly
				t := s.Chan.Type().Underlying().(*types.Chan).Elem()
				ch, _ := chans[i].(Ptr)
				if done || ch.obj == 0 {
					if recv {
						res = append(res, e.zero(t))
					}
					continue
				}
				if !recv {
					if a := e.send(st, ch, vals[i]); a != nil {
						return []Alt{*a}
					}
					res[0], done = e.c.K(64, uint64(i)), true
					continue
				}
				v, ok, ready := e.take(st, ch, t)
				if !ready {
					res = append(res, e.zero(t))
					continue
				}
				res[0], res[1], done = e.c.K(64, uint64(i)), e.c.Bool(ok), true
				res = append(res, v)
			}
			if !done && x.Blocking {
				return nil
			}
			return one(st, res)
		}
		return e.waiting(st, pick)
	}
	panic(unsupported("instruction %T", in))
}

func init() {
	impure("(*sync.WaitGroup).Wait", func(e *Engine, st *State, fn *ssa.Function, a []Value) []Alt {
		return e.waiting(st, func(st *State) []Alt {
			if len(e.obj(st, pendingObj).slots) > 0 {
				return nil
			}
			return one(st, Tuple{})
		})
	})
}
