package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, caller *frame, fn *ssa.Function, args []Value) Value

type condState struct{ tokens, waiting int }

type flagEnt struct {
	p    Ptr
	kind byte
}

type methKey struct {
	t types.Type
	m *types.Func
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Chan:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return nil
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := in.methC[k]; ok {
		return f
	}
	f := in.prog.lookupMethod(t, m)
	in.methC[k] = f
	return f
}

func (in *Interp) methodByName(t types.Type, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := in.prog.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return in.method(t, s.Obj().(*types.Func))
		}
	}
	return nil
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Pkg == nil && fn.Origin() == nil {
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if i := strings.Index(name, "zzverif/vnd."); i >= 0 {
		return intrinsics["vnd."+name[i+len("zzverif/vnd."):]]
	}
	return intrinsics[name]
}

func argStr(in *Interp, v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	in.unsupported("symbolic string where a constant is needed")
	return ""
}

func nop(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.zeroResults(fn) }

func init() {
	intrinsics = map[string]intrinsic{
		// ---- verification primitives
		"vnd.U8": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.freshVar(argStr(in, a[0]), 8)
		},
		"vnd.U16": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.freshVar(argStr(in, a[0]), 16)
		},
		"vnd.U32": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.freshVar(argStr(in, a[0]), 32)
		},
		"vnd.U64": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.freshVar(argStr(in, a[0]), 64)
		},
		"vnd.Bool": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.freshVar(argStr(in, a[0]), 0)
		},
		"vnd.Bytes": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.concretize(a[1].(*Term), "vnd.Bytes length"))
			return in.bytesToSlice(in.freshBytes(argStr(in, a[0]), n), nil)
		},
		"vnd.Str": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.concretize(a[1].(*Term), "vnd.Str length"))
			return in.mkStr(in.freshBytes(argStr(in, a[0]), n))
		},
		"vnd.Choose": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.concretize(a[1].(*Term), "vnd.Choose arity"))
			return in.ctx.Const(uint64(in.choose(argStr(in, a[0]), n)), 64)
		},
		"vnd.Assume": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.assume(a[0].(*Term))
			return nil
		},
		"vnd.Assert": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.assertCond(a[0].(*Term), in.text(a[1]))
			return nil
		},
		"vnd.Cover": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.covers[argStr(in, a[0])] = true
			return nil
		},
		"vnd.Bound": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.bounds[argStr(in, a[0])] = true
			return nil
		},
		"vnd.Note": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.notes = append(in.notes, in.text(a[0]))
			return nil
		},
		"vnd.Pin": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			return in.ctx.Const(in.concretize(t, "vnd.Pin"), t.w)
		},
		"vnd.Ite": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.ctx.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		},
		"vnd.And": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			r := in.ctx.True
			for i := 0; i < s.ln; i++ {
				r = in.ctx.BAnd(r, s.arr.get(s.off+i).(*Term))
			}
			return r
		},
		"vnd.Or": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			s := a[0].(Slice)
			r := in.ctx.False
			for i := 0; i < s.ln; i++ {
				r = in.ctx.BOr(r, s.arr.get(s.off+i).(*Term))
			}
			return r
		},
		"vnd.Implies": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.ctx.BOr(in.ctx.BNot(a[0].(*Term)), a[1].(*Term))
		},
		"vnd.BytesEq": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Slice), a[1].(Slice)
			return in.sliceEq(x, y)
		},
		"vnd.Symbolic": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ctx.True },
		"vnd.Config": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if v, ok := in.ex.opt.Config[argStr(in, a[0])]; ok {
				return in.ctx.Const(uint64(v), 64)
			}
			return a[1]
		},
		"vnd.SchedAll": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedAll = true
			in.multi = true
			in.delay = -1
			in.raceStart()
			in.preempt = int(int64(in.concretize(a[0].(*Term), "preemption bound")))
			in.sleep = nil
			return nil
		},
		"vnd.SchedDelay": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedAll = true
			in.multi = true
			in.preempt = -1
			in.delay = int(int64(in.concretize(a[0].(*Term), "delay bound")))
			in.sleep = nil
			in.raceStart()
			return nil
		},
		"vnd.SchedDet": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedAll = false
			in.sleep = nil
			return nil
		},
		"vnd.Atomic": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			g := fr.g
			if in.schedAll && g.atomic == 0 {
				sl := a[0].(Slice)
				in.fixLen(&sl)
				g.aobjs = nil
				for i := 0; i < sl.ln; i++ {
					if p, ok := sl.arr.get(sl.off + i).(Iface).v.(Ptr); ok {
						g.aobjs = append(g.aobjs, memKey{p.obj, p.idx})
					}
				}
				if len(g.aobjs) > 0 {
					in.visible(g, &pendOp{kind: opMem, write: true, objs: g.aobjs})
				}
			}
			g.atomic++
			return nil
		},
		"vnd.AtomicEnd": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			fr.g.atomic--
			return nil
		},
		"vnd.Quiesce": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.visible(fr.g, &pendOp{kind: opQuiesce})
			return nil
		},
		"vnd.Idle": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.visible(fr.g, &pendOp{kind: opQuiesce, first: true})
			return nil
		},
		"vnd.Yield": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.yield(fr.g)
			return nil
		},
		"vnd.Shared": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if in.shared == nil {
				in.shared = map[Ptr]bool{}
			}
			i := a[0].(Iface)
			switch x := i.v.(type) {
			case Ptr:
				in.shared[x] = true
			case Slice:
				for k := 0; k < x.ln; k++ {
					in.shared[Ptr{x.arr, x.off + k}] = true
				}
			}
			return nil
		},
		"vnd.Unsupported": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.unsupported("%s", in.text(a[0]))
			return nil
		},
		"vnd.Steps": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.ctx.Const(uint64(in.steps), 64)
		},

		// ---- sync
		"(*sync.Mutex).Lock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.lockOp(fr.g, a[0].(Ptr), true)
			return nil
		},
		"(*sync.Mutex).Unlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.unlockOp(fr.g, a[0].(Ptr), true)
			return nil
		},
		"(*sync.Mutex).TryLock":   tryLock,
		"(*sync.RWMutex).TryLock": tryLock,
		"(*sync.RWMutex).Lock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.lockOp(fr.g, a[0].(Ptr), true)
			return nil
		},
		"(*sync.RWMutex).Unlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.unlockOp(fr.g, a[0].(Ptr), true)
			return nil
		},
		"(*sync.RWMutex).RLock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.lockOp(fr.g, a[0].(Ptr), false)
			return nil
		},
		"(*sync.RWMutex).RUnlock": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.unlockOp(fr.g, a[0].(Ptr), false)
			return nil
		},
		"(*sync.WaitGroup).Add": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.wgAdd(fr, a[0].(Ptr), int64(in.concretize(a[1].(*Term), "WaitGroup delta")))
			return nil
		},
		"(*sync.WaitGroup).Done": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.wgAdd(fr, a[0].(Ptr), -1)
			return nil
		},
		"(*sync.WaitGroup).Wait": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			n := in.wgOf(p)
			in.visible(fr.g, &pendOp{kind: opWait, objs: []interface{}{p}, en: func() bool { return *n == 0 }})
			in.acquire(fr.g, p)
			return nil
		},
		"(*sync.WaitGroup).Go": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			in.wgAdd(fr, p, 1)
			n := in.newGor("wg.Go")
			n.pend = &pendOp{kind: opStart}
			in.forked(fr.g, n)
			in.startGor(n, func() {
				in.cur = n
				n.pend = nil
				f := &frame{g: n}
				in.callValue(f, a[1], nil, false)
				in.wgAdd(f, p, -1)
			})
			return nil
		},
		"(*sync.Once).Do": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			in.lockOp(fr.g, p, true)
			m := in.mutex(p)
			if !in.onces[p] {
				in.onces[p] = true
				func() {
					defer func() { in.release(fr.g, p); m.w = 0 }()
					in.callValue(fr, a[1], nil, false)
				}()
			}
			m.w = 0
			return nil
		},
		"(*sync.Cond).Wait": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			c := in.cond(p)
			l := p.obj.get(p.idx).(*Struct)
			var lk Iface
			for _, f := range l.f {
				if i, ok := f.(Iface); ok {
					lk = i
				}
			}
			c.waiting++
			in.callNamed(fr, lk, "Unlock")
			in.visible(fr.g, &pendOp{kind: opWait, write: true, objs: []interface{}{p}, en: func() bool { return c.tokens > 0 }})
			c.tokens--
			in.acquire(fr.g, p)
			in.callNamed(fr, lk, "Lock")
			return nil
		},
		"(*sync.Cond).Signal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			in.visible(fr.g, &pendOp{kind: opMem, write: true, objs: []interface{}{p}})
			in.release(fr.g, p)
			if c := in.cond(p); c.waiting > 0 {
				c.waiting--
				c.tokens++
			}
			return nil
		},
		"(*sync.Cond).Broadcast": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			in.visible(fr.g, &pendOp{kind: opMem, write: true, objs: []interface{}{p}})
			in.release(fr.g, p)
			c := in.cond(p)
			c.tokens += c.waiting
			c.waiting = 0
			return nil
		},
		"(*sync.Pool).Get": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			if l := in.pools[p]; l != nil && len(*l) > 0 {
				v := (*l)[len(*l)-1]
				*l = (*l)[:len(*l)-1]
				return v
			}
			st := p.obj.get(p.idx).(*Struct)
			for _, f := range st.f {
				if c, ok := f.(*Closure); ok && c != nil {
					return in.callValue(fr, c, nil, false)
				}
			}
			return Iface{}
		},
		"(*sync.Pool).Put": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			if in.pools[p] == nil {
				in.pools[p] = &[]Value{}
			}
			*in.pools[p] = append(*in.pools[p], a[1])
			return nil
		},
		"(*sync.Map).Load": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := in.smap(fr, a[0].(Ptr), false)
			if i := in.mapFind(m, a[1]); i >= 0 {
				return Tuple{m.vals[i], in.ctx.True}
			}
			return Tuple{Iface{}, in.ctx.False}
		},
		"(*sync.Map).Store": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.mapSet(in.smap(fr, a[0].(Ptr), true), a[1], a[2])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := in.smap(fr, a[0].(Ptr), true)
			if i := in.mapFind(m, a[1]); i >= 0 {
				return Tuple{m.vals[i], in.ctx.True}
			}
			in.mapSet(m, a[1], a[2])
			return Tuple{a[2], in.ctx.False}
		},
		"(*sync.Map).LoadAndDelete": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := in.smap(fr, a[0].(Ptr), true)
			if i := in.mapFind(m, a[1]); i >= 0 {
				v := m.vals[i]
				in.mapDelete(m, a[1])
				return Tuple{v, in.ctx.True}
			}
			return Tuple{Iface{}, in.ctx.False}
		},
		"(*sync.Map).Delete": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.mapDelete(in.smap(fr, a[0].(Ptr), true), a[1])
			return nil
		},
		"(*sync.Map).Range": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			m := in.smap(fr, a[0].(Ptr), false)
			n := len(m.keys)
			for i := 0; i < n; i++ {
				if !m.live[i] {
					continue
				}
				r := in.callValue(fr, a[1], []Value{m.keys[i], m.vals[i]}, false)
				if !in.branch(r.(*Term)) {
					break
				}
			}
			return nil
		},

		// ---- runtime and friends
		"runtime.SetFinalizer":       nop,
		"runtime.GC":                 nop,
		"runtime.KeepAlive":          nop,
		"runtime.GOMAXPROCS":         nop,
		"runtime.NumGoroutine":       nop,
		"runtime/debug.SetGCPercent": nop,
		"runtime.Gosched": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.yield(fr.g)
			return nil
		},
		"syscall.runtime_envs":        nop,
		"os.runtime_args":             nop,
		"internal/syscall/unix.fcntl": nop,
		"internal/race.Acquire":       nop,
		"internal/race.Release":       nop,
		"internal/race.ReleaseMerge":  nop,
		"internal/race.Disable":       nop,
		"internal/race.Enable":        nop,
		"internal/race.Read":          nop,
		"internal/race.Write":         nop,
		"internal/race.ReadRange":     nop,
		"internal/race.WriteRange":    nop,
		"internal/abi.NoEscape":       func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/abi.Escape":         func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"strings.noescape":            func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"strings.Clone":               func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":  func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] },
		"time.Sleep": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.yield(fr.g)
			return nil
		},
		"time.runtimeNano": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ctx.Const(1, 64) },
		"time.now": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{in.ctx.Const(1500000000, 64), in.ctx.Const(0, 32), in.ctx.Const(1, 64)}
		},
		"time.runtimeNow": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return Tuple{in.ctx.Const(1500000000, 64), in.ctx.Const(0, 32), in.ctx.Const(1, 64)}
		},

		// ---- log
		"log.Printf":            nop,
		"log.Println":           nop,
		"log.Print":             nop,
		"log.SetFlags":          nop,
		"log.SetPrefix":         nop,
		"log.SetOutput":         nop,
		"(*log.Logger).Printf":  nop,
		"(*log.Logger).Println": nop,
		"(*log.Logger).Print":   nop,
		"log.Fatalf":            fatal,
		"log.Fatal":             fatal,
		"log.Fatalln":           fatal,
		"(*log.Logger).Fatalf":  fatal,
		"(*log.Logger).Fatal":   fatal,
		"os.Exit":               fatal,
		"log.Panicf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.goPanic(Iface{types.Typ[types.String], in.sprintf(fr, a[0], a[1].(Slice))})
			return nil
		},
		"log.Panic": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.goPanic(Iface{types.Typ[types.String], in.sprint(fr, a[0].(Slice), false)})
			return nil
		},

		// ---- flag
		"flag.String": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.flagDef(a, 's') },
		"flag.Int":    func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.flagDef(a, 'i') },
		"flag.Uint":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.flagDef(a, 'i') },
		"flag.Bool":   func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.flagDef(a, 'b') },
		"flag.StringVar": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			assign(a[0].(Ptr), a[2])
			in.flags[argStr(in, a[1])] = flagEnt{a[0].(Ptr), 's'}
			return nil
		},
		"flag.IntVar": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			assign(a[0].(Ptr), a[2])
			in.flags[argStr(in, a[1])] = flagEnt{a[0].(Ptr), 'i'}
			return nil
		},
		"flag.BoolVar": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			assign(a[0].(Ptr), a[2])
			in.flags[argStr(in, a[1])] = flagEnt{a[0].(Ptr), 'b'}
			return nil
		},
		"flag.Parse": nop,
		"flag.Set": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			f, ok := in.flags[argStr(in, a[0])]
			if !ok {
				return in.newError(fr, "no such flag -"+argStr(in, a[0]))
			}
			v := argStr(in, a[1])
			switch f.kind {
			case 's':
				assign(f.p, v)
			case 'i':
				n, _ := strconv.ParseInt(v, 0, 64)
				assign(f.p, in.ctx.Const(uint64(n), 64))
			case 'b':
				assign(f.p, in.ctx.Bool(v == "true" || v == "1"))
			}
			return Iface{}
		},

		// ---- fmt
		"fmt.Sprintf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.sprintf(fr, a[0], a[1].(Slice))
		},
		"fmt.Sprint": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.sprint(fr, a[0].(Slice), false)
		},
		"fmt.Sprintln": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.sprint(fr, a[0].(Slice), true)
		},
		"fmt.Printf":  fmtDiscard,
		"fmt.Println": fmtDiscard,
		"fmt.Print":   fmtDiscard,
		"fmt.Errorf":  doErrorf,
		"fmt.Fprintf": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprintf(fr, a[1], a[2].(Slice)))
		},
		"fmt.Fprint": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, a[1].(Slice), false))
		},
		"fmt.Fprintln": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.fprint(fr, a[0], in.sprint(fr, a[1].(Slice), true))
		},

		// ---- errors
		"errors.Is": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.errorsIs(fr, a[0].(Iface), a[1].(Iface))
		},
		"errors.As": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.errorsAs(fr, a[0].(Iface), a[1].(Iface))
		},

		// ---- sort
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,

		// ---- bytealg
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexByte(in.sliceBytes(a[0].(Slice)), a[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			if s, ok := a[0].(string); ok && a[1].(*Term).isConst() {
				return in.ctx.Const(uint64(int64(strings.IndexByte(s, byte(a[1].(*Term).val)))), 64)
			}
			return in.indexByte(in.strBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.Count": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.countByte(in.sliceBytes(a[0].(Slice)), a[1].(*Term))
		},
		"internal/bytealg.CountString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.countByte(in.strBytes(a[0]), a[1].(*Term))
		},
		"internal/bytealg.Equal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.sliceEq(a[0].(Slice), a[1].(Slice))
		},
		"bytes.Equal": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.sliceEq(a[0].(Slice), a[1].(Slice))
		},
		"internal/bytealg.Compare": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.compareBytes(in.sliceBytes(a[0].(Slice)), in.sliceBytes(a[1].(Slice)))
		},
		"internal/bytealg.CompareString": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.compareBytes(in.strBytes(a[0]), in.strBytes(a[1]))
		},
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := int(in.concretize(a[0].(*Term), "MakeNoZero"))
			return Slice{arr: newArray(n, types.Typ[types.Uint8], in.ctx.small[8][0]), ln: n, cp: n}
		},
		"strings.Index": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.strFind(a[0], a[1]) },
		"strings.Contains": func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.ctx.BNot(in.ctx.Eq(in.strFind(a[0], a[1]), in.ctx.Const(^uint64(0), 64)))
		},
	}
	for _, w := range []struct {
		s string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}, {"Uintptr", 64}, {"Int", 64}, {"Uint", 64}} {
		w := w
		for _, pkg := range []string{"sync/atomic."} {
			intrinsics[pkg+"Add"+w.s] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
				p := in.atomicOp(fr, a[0], true)
				v := in.ctx.Bin(OAdd, p.obj.get(p.idx).(*Term), a[1].(*Term))
				p.obj.set(p.idx, v)
				return v
			}
			intrinsics[pkg+"Load"+w.s] = atomicLoad
			intrinsics[pkg+"Store"+w.s] = atomicStore
			intrinsics[pkg+"Swap"+w.s] = atomicSwap
			intrinsics[pkg+"CompareAndSwap"+w.s] = atomicCAS
			intrinsics[pkg+"Or"+w.s] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
				p := in.atomicOp(fr, a[0], true)
				old := p.obj.get(p.idx).(*Term)
				p.obj.set(p.idx, in.ctx.Bin(OOr, old, a[1].(*Term)))
				return old
			}
			intrinsics[pkg+"And"+w.s] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
				p := in.atomicOp(fr, a[0], true)
				old := p.obj.get(p.idx).(*Term)
				p.obj.set(p.idx, in.ctx.Bin(OAnd, old, a[1].(*Term)))
				return old
			}
		}
	}
	intrinsics["sync/atomic.LoadPointer"] = atomicLoad
	intrinsics["sync/atomic.StorePointer"] = atomicStore
	intrinsics["sync/atomic.SwapPointer"] = atomicSwap
	intrinsics["sync/atomic.CompareAndSwapPointer"] = atomicCAS
	intrinsics["(*sync/atomic.Value).Load"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.atomicOp(fr, a[0], false)
		return p.obj.get(p.idx).(*Struct).f[0]
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := in.atomicOp(fr, a[0], true)
		p.obj.get(p.idx).(*Struct).f[0] = a[1]
		return nil
	}
}

func (in *Interp) yield(g *Gor) {
	if in.schedAll {
		in.visible(g, &pendOp{kind: opYield})
		return
	}
	// deterministic mode: let every other runnable goroutine go first
	en := false
	for _, o := range in.gors {
		if o != g && !o.exited && in.ready(o) {
			en = true
		}
	}
	if en {
		done := false
		_ = done
		g.pend = &pendOp{kind: opYield}
		var n *Gor
		for _, o := range in.gors {
			if o != g && !o.exited && in.ready(o) {
				n = o
				break
			}
		}
		in.cur = n
		n.wake <- struct{}{}
		<-g.wake
		if in.killed {
			panic(pathEnd{kind: endKilled})
		}
		in.cur = g
		g.pend = nil
	}
}

func (in *Interp) freshBytes(name string, n int) []*Term {
	b := make([]*Term, n)
	for i := range b {
		b[i] = in.freshVar(name, 8)
	}
	return b
}

func (in *Interp) sliceEq(x, y Slice) *Term {
	in.fixLen(&x)
	in.fixLen(&y)
	if x.ln != y.ln {
		return in.ctx.False
	}
	r := in.ctx.True
	for i := 0; i < x.ln; {
		cx, cy := x.arr.chunk((x.off+i)/chunkSz), y.arr.chunk((y.off+i)/chunkSz)
		if cx == nil && cy == nil && !x.arr.agg {
			k := chunkSz - (x.off+i)%chunkSz
			if k2 := chunkSz - (y.off+i)%chunkSz; k2 < k {
				k = k2
			}
			i += k
			continue
		}
		e := in.ctx.Eq(x.arr.get(x.off+i).(*Term), y.arr.get(y.off+i).(*Term))
		if e == in.ctx.False {
			return e
		}
		r = in.ctx.BAnd(r, e)
		i++
	}
	return r
}

func tryLock(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	p := a[0].(Ptr)
	m := in.mutex(p)
	in.visible(fr.g, &pendOp{kind: opMem, write: true, objs: []interface{}{p}})
	if m.w == 0 && m.r == 0 {
		m.w = 1
		in.acquire(fr.g, p)
		return in.ctx.True
	}
	return in.ctx.False
}

func fatal(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	in.notes = append(in.notes, "fatal exit at "+safeWhere(fr.g))
	panic(pathEnd{kind: endViolation, vkind: "fatal", msg: "process exits through " + fn.String()})
}

func (in *Interp) wgOf(p Ptr) *int64 {
	n := in.wgs[p]
	if n == nil {
		n = new(int64)
		in.wgs[p] = n
	}
	return n
}

func (in *Interp) wgAdd(fr *frame, p Ptr, d int64) {
	n := in.wgOf(p)
	in.visible(fr.g, &pendOp{kind: opMem, write: true, objs: []interface{}{p}})
	in.release(fr.g, p)
	*n += d
	if *n < 0 {
		in.goPanic(in.plainError("sync: negative WaitGroup counter"))
	}
}

func (in *Interp) cond(p Ptr) *condState {
	c := in.conds[p]
	if c == nil {
		c = &condState{}
		in.conds[p] = c
	}
	return c
}

func (in *Interp) smap(fr *frame, p Ptr, write bool) *MapObj {
	in.visible(fr.g, &pendOp{kind: opMem, write: write, objs: []interface{}{p}})
	in.acquire(fr.g, p)
	in.release(fr.g, p)
	m := in.smaps[p]
	if m == nil {
		m = newMap()
		in.smaps[p] = m
	}
	return m
}

func (in *Interp) callNamed(fr *frame, i Iface, name string, args ...Value) Value {
	f := in.methodByName(i.t, name)
	if f == nil {
		in.unsupported("no method %s on %v", name, i.t)
	}
	return in.call(fr, f, append([]Value{i.v}, args...), nil)
}

func (in *Interp) atomicOp(fr *frame, v Value, write bool) Ptr {
	p := v.(Ptr)
	if p.obj == nil {
		in.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if in.schedAll {
		in.visible(fr.g, &pendOp{kind: opMem, write: write, objs: []interface{}{memKey{p.obj, p.idx}}})
		in.acquire(fr.g, memKey{p.obj, p.idx})
		in.touchAtomic(fr, p, write)
		if write {
			in.release(fr.g, memKey{p.obj, p.idx})
		}
	}
	return p
}

func atomicLoad(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	p := in.atomicOp(fr, a[0], false)
	return p.obj.get(p.idx)
}
func atomicStore(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	p := in.atomicOp(fr, a[0], true)
	p.obj.set(p.idx, a[1])
	return nil
}
func atomicSwap(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	p := in.atomicOp(fr, a[0], true)
	old := p.obj.get(p.idx)
	p.obj.set(p.idx, a[1])
	return old
}
func atomicCAS(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	p := in.atomicOp(fr, a[0], true)
	if in.branch(in.equal(nil, p.obj.get(p.idx), a[1])) {
		p.obj.set(p.idx, a[2])
		return in.ctx.True
	}
	return in.ctx.False
}

func (in *Interp) flagDef(a []Value, kind byte) Value {
	c := &Cell{v: a[1]}
	in.flags[argStr(in, a[0])] = flagEnt{Ptr{c, 0}, kind}
	return Ptr{c, 0}
}

func (in *Interp) newError(fr *frame, msg Value) Value {
	return in.call(fr, in.prog.stdFunc("errors", "New"), []Value{msg}, nil)
}

func (in *Interp) indexByte(b []*Term, c *Term) Value {
	for i, t := range b {
		if in.branch(in.ctx.Eq(t, c)) {
			return in.ctx.Const(uint64(i), 64)
		}
	}
	return in.ctx.Const(^uint64(0), 64)
}

func (in *Interp) countByte(b []*Term, c *Term) Value {
	n := in.ctx.Const(0, 64)
	one := in.ctx.Const(1, 64)
	z := n
	for _, t := range b {
		n = in.ctx.Bin(OAdd, n, in.ctx.Ite(in.ctx.Eq(t, c), one, z))
	}
	return n
}

func (in *Interp) compareBytes(x, y []*Term) Value {
	c := in.ctx
	lt := in.bytesLess(x, y)
	eq := c.False
	if len(x) == len(y) {
		eq = in.bytesEq(x, y)
	}
	return c.Ite(lt, c.Const(^uint64(0), 64), c.Ite(eq, c.Const(0, 64), c.Const(1, 64)))
}

func (in *Interp) strFind(s, sub Value) *Term {
	if x, ok := s.(string); ok {
		if y, ok := sub.(string); ok {
			return in.ctx.Const(uint64(int64(strings.Index(x, y))), 64)
		}
	}
	a, b := in.strBytes(s), in.strBytes(sub)
	for i := 0; i+len(b) <= len(a); i++ {
		if in.branch(in.bytesEq(a[i:i+len(b)], b)) {
			return in.ctx.Const(uint64(i), 64)
		}
	}
	return in.ctx.Const(^uint64(0), 64)
}

func sortSlice(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	s := a[0].(Iface).v.(Slice)
	in.fixLen(&s)
	less := func(i, j int) bool {
		r := in.callValue(fr, a[1], []Value{in.ctx.Const(uint64(i), 64), in.ctx.Const(uint64(j), 64)}, false)
		return in.branch(r.(*Term))
	}
	for i := 1; i < s.ln; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			x, y := copyVal(s.arr.get(s.off+j)), copyVal(s.arr.get(s.off+j-1))
			s.arr.set(s.off+j, y)
			s.arr.set(s.off+j-1, x)
		}
	}
	return nil
}

// ---- errors

func (in *Interp) unwrap(fr *frame, e Iface) []Iface {
	f := in.methodByName(e.t, "Unwrap")
	if f == nil {
		return nil
	}
	switch r := in.call(fr, f, []Value{e.v}, nil).(type) {
	case Iface:
		if r.t == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var out []Iface
		for i := 0; i < r.ln; i++ {
			out = append(out, r.arr.get(r.off+i).(Iface))
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(fr *frame, e, target Iface) *Term {
	if e.t == nil || target.t == nil {
		return in.ctx.Bool(e.t == nil && target.t == nil)
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) {
		if in.branch(in.equal(nil, e, target)) {
			return in.ctx.True
		}
	}
	if f := in.methodByName(e.t, "Is"); f != nil {
		if in.branch(in.call(fr, f, []Value{e.v, target}, nil).(*Term)) {
			return in.ctx.True
		}
	}
	for _, u := range in.unwrap(fr, e) {
		if in.errorsIs(fr, u, target) == in.ctx.True {
			return in.ctx.True
		}
	}
	return in.ctx.False
}

func (in *Interp) errorsAs(fr *frame, e, target Iface) *Term {
	if e.t == nil {
		return in.ctx.False
	}
	tt := target.t.Underlying().(*types.Pointer).Elem()
	p := target.v.(Ptr)
	if it, ok := tt.Underlying().(*types.Interface); ok {
		if types.Implements(e.t, it) {
			assign(p, e)
			return in.ctx.True
		}
	} else if types.Identical(e.t, tt) {
		assign(p, copyVal(e.v))
		return in.ctx.True
	}
	if f := in.methodByName(e.t, "As"); f != nil {
		if in.branch(in.call(fr, f, []Value{e.v, target}, nil).(*Term)) {
			return in.ctx.True
		}
	}
	for _, u := range in.unwrap(fr, e) {
		if in.errorsAs(fr, u, target) == in.ctx.True {
			return in.ctx.True
		}
	}
	return in.ctx.False
}

// ---- fmt

const maxText = 200000

type fmtBuf struct {
	in *Interp
	b  []*Term
}

func (f *fmtBuf) str(s string) {
	for i := 0; i < len(s); i++ {
		f.b = append(f.b, f.in.ctx.small[8][s[i]])
	}
}

func (f *fmtBuf) val(v Value) { f.b = append(f.b, f.in.strBytes(v)...) }

func (in *Interp) text(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		var sb strings.Builder
		for _, t := range s.b {
			if t.isConst() {
				sb.WriteByte(byte(t.val))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return describe(v, 1)
}

func (in *Interp) sprint(fr *frame, args Slice, ln bool) Value {
	f := &fmtBuf{in: in}
	prevStr := true
	for i := 0; i < args.ln; i++ {
		a := args.arr.get(args.off + i).(Iface)
		isStr := a.t != nil && isString(a.t)
		if i > 0 && (ln || (!isStr && !prevStr)) {
			f.str(" ")
		}
		f.val(in.fmtVal(fr, 'v', a, 0))
		prevStr = isStr
	}
	if ln {
		f.str("\n")
	}
	return in.mkStr(f.b)
}

func (in *Interp) sprintf(fr *frame, format Value, args Slice) Value {
	f := &fmtBuf{in: in}
	fs, ok := format.(string)
	if !ok {
		fb := in.strBytes(format)
		is := func(t *Term, c byte) bool { return in.branch(in.ctx.Eq(t, in.ctx.Const(uint64(c), 8))) }
		for i := 0; i < len(fb); i++ {
			if !is(fb[i], '%') {
				f.b = append(f.b, fb[i])
				continue
			}
			if i++; i >= len(fb) {
				f.str("%!(NOVERB)")
				break
			}
			if is(fb[i], '%') {
				f.str("%")
				continue
			}
			if args.ln > 0 {
				in.unsupported("conversion in a symbolic format string")
			}
			for _, c := range []byte("+-# 0123456789.*[") {
				if is(fb[i], c) {
					in.unsupported("flags in a symbolic format string")
				}
			}
			if in.branch(in.ctx.Cmp(OULt, in.ctx.Const(0x7f, 8), fb[i])) {
				in.unsupported("verb outside ASCII in a symbolic format string")
			}
			f.str("%!")
			f.b = append(f.b, fb[i])
			f.str("(MISSING)")
		}
		if args.ln > 0 {
			f.str("%!(EXTRA)")
		}
		return in.mkStr(f.b)
	}
	n := 0
	for i := 0; i < len(fs); i++ {
		c := fs[i]
		if c != '%' {
			f.b = append(f.b, in.ctx.small[8][c])
			continue
		}
		i++
		flags := ""
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			flags += string(fs[i])
			i++
		}
		if i >= len(fs) {
			f.str("%!(NOVERB)")
			break
		}
		verb := fs[i]
		if verb == '%' {
			f.str("%")
			continue
		}
		if n >= args.ln {
			f.str("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args.arr.get(args.off + n).(Iface)
		n++
		if verb == 'T' {
			f.str(fmt.Sprint(a.t))
			continue
		}
		if flags != "" && a.t != nil {
			switch x := a.v.(type) {
			case *Term:
				if x.isConst() {
					_, sg, _ := intInfo(a.t)
					if sg {
						f.str(fmt.Sprintf("%"+flags+string(verb), sext64(x.val, x.w)))
					} else if x.w == 0 {
						f.str(fmt.Sprintf("%"+flags+string(verb), x.val == 1))
					} else {
						f.str(fmt.Sprintf("%"+flags+string(verb), x.val))
					}
					continue
				}
			case string:
				f.str(fmt.Sprintf("%"+flags+string(verb), x))
				continue
			}
		}
		f.val(in.fmtVal(fr, verb, a, 0))
	}
	if n < args.ln {
		f.str("%!(EXTRA)")
	}
	return in.mkStr(f.b)
}

func (in *Interp) fmtOne(fr *frame, verb byte, a Iface, depth int) string {
	return in.text(in.fmtVal(fr, verb, a, depth))
}

// fmtVal renders one operand. Symbolic integers render as a fixed
// placeholder: message texts containing numbers are not part of any property.
func (in *Interp) fmtVal(fr *frame, verb byte, a Iface, depth int) Value {
	if a.t == nil {
		return "<nil>"
	}
	if depth > 4 {
		return "..."
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if fr == nil && in.cur != nil {
			fr = &frame{g: in.cur}
		}
		if p, isP := a.v.(Ptr); !isP || p.obj != nil {
			for _, m := range []string{"Error", "String"} {
				if f := in.methodByName(a.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && isString(f.Signature.Results().At(0).Type()) {
					return in.call(fr, f, []Value{a.v}, nil)
				}
			}
		}
	}
	u := a.t.Underlying()
	switch x := a.v.(type) {
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return fmt.Sprint(x.val == 1)
			}
			_, sg, _ := intInfo(a.t)
			if sg {
				return fmt.Sprintf("%"+string(verb), sext64(x.val, x.w))
			}
			return fmt.Sprintf("%"+string(verb), x.val)
		}
		return "<sym>"
	case float64:
		return fmt.Sprintf("%"+string(verb), x)
	case string:
		switch verb {
		case 'q', 'x', 'X', 'd':
			return fmt.Sprintf("%"+string(verb), x)
		}
		return x
	case *SymStr:
		if verb == 'q' {
			return in.strCat("\"", in.strCat(x, "\""))
		}
		return x
	case Slice:
		et := elemType(a.t)
		if x.sl != nil {
			return "[<sym>]"
		}
		if verb == 's' || verb == 'q' || verb == 'x' {
			if w, _, ok := intInfo(et); ok && w == 8 {
				return in.convert(a.t, types.Typ[types.String], x)
			}
		}
		var r Value = "["
		for i := 0; i < x.ln && i < 64; i++ {
			if i > 0 {
				r = in.strCat(r, " ")
			}
			r = in.strCat(r, in.fmtElem(fr, verb, et, x.arr.get(x.off+i), depth+1))
		}
		return in.strCat(r, "]")
	case *Array:
		var r Value = "["
		for i := 0; i < x.n && i < 64; i++ {
			if i > 0 {
				r = in.strCat(r, " ")
			}
			r = in.strCat(r, in.fmtElem(fr, verb, x.et, x.get(i), depth+1))
		}
		return in.strCat(r, "]")
	case *Struct:
		st := u.(*types.Struct)
		var r Value = "{"
		for i, f := range x.f {
			if i > 0 {
				r = in.strCat(r, " ")
			}
			r = in.strCat(r, in.fmtElem(fr, verb, st.Field(i).Type(), f, depth+1))
		}
		return in.strCat(r, "}")
	case Ptr:
		if x.obj == nil {
			return "<nil>"
		}
		if depth == 0 {
			if pt, ok := u.(*types.Pointer); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					return in.strCat("&", in.fmtElem(fr, verb, pt.Elem(), x.obj.get(x.idx), depth+1))
				}
			}
		}
		return "0xc000010000"
	}
	return "?"
}

func (in *Interp) fmtElem(fr *frame, verb byte, t types.Type, v Value, depth int) Value {
	if i, ok := v.(Iface); ok {
		return in.fmtVal(fr, verb, i, depth)
	}
	return in.fmtVal(fr, verb, Iface{t, v}, depth)
}

func fmtDiscard(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	// evaluate String/Error methods for their effects
	return Tuple{in.ctx.Const(0, 64), Iface{}}
}

func (in *Interp) fprint(fr *frame, w, s Value) Value {
	i := w.(Iface)
	if i.t == nil {
		in.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if strings.HasSuffix(i.t.String(), "os.File") {
		return Tuple{in.ctx.Const(uint64(strLen(s)), 64), Iface{}}
	}
	return in.callNamed(fr, i, "Write", in.bytesToSlice(in.strBytes(s), nil))
}

func doErrorf(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	msg := in.sprintf(fr, a[0], a[1].(Slice))
	if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
		args := a[1].(Slice)
		k := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && k < args.ln {
				e := args.arr.get(args.off + k).(Iface)
				if t := in.prog.stdType("fmt", "wrapError"); t != nil {
					return Iface{types.NewPointer(t), Ptr{&Cell{v: &Struct{f: []Value{msg, e}}}, 0}}
				}
			}
			k++
		}
	}
	return in.newError(fr, msg)
}
