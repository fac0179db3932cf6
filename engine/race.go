package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Scheduling points for plain memory. While all interleavings are explored,
// vector clocks track what happens before what in the sense of the Go memory
// model. Two unordered accesses to the same memory, one of them a write, make
// both instructions scheduling points, and the exploration starts over; two
// such accesses to a map are a violation by themselves (the Go runtime ends
// the process).

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

func (g *Gor) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

type access struct {
	gid int
	clk uint32
	ins ssa.Instruction
}

type shadow struct {
	ep  int
	w   access
	rs  []access
	buf [2]access
}

func (in *Interp) newShadow() *shadow {
	s := &shadow{ep: in.shEpoch, w: access{gid: -1}}
	s.rs = s.buf[:0]
	return s
}

// shadowOf finds the accesses noted for a memory cell.
func (in *Interp) shadowOf(k memKey) *shadow {
	var p **shadow
	switch o := k.obj.(type) {
	case *Cell:
		p = &o.sh
	case *Struct:
		if o.sh == nil {
			o.sh = make([]*shadow, len(o.f))
		}
		p = &o.sh[k.idx]
	case *Array:
		c := o.sh[k.idx/chunkSz]
		if c == nil {
			n := chunkSz
			if o.n < n {
				n = o.n
			}
			c = make([]*shadow, n)
			if o.sh == nil {
				o.sh = map[int][]*shadow{}
			}
			o.sh[k.idx/chunkSz] = c
		}
		p = &c[k.idx%chunkSz]
	default:
		s := in.shadow[k]
		if s == nil {
			s = in.newShadow()
			in.shadow[k] = s
		}
		return s
	}
	if *p == nil || (*p).ep != in.shEpoch {
		*p = in.newShadow()
	}
	return *p
}

// raceStart orders everything done so far before everything that follows.
func (in *Interp) raceStart() {
	in.shEpoch++
	in.shadow = map[memKey]*shadow{}
	in.mshadow = map[*MapObj]*shadow{}
	in.syncs = map[interface{}]*vclock{}
	for _, g := range in.gors {
		g.vc = nil
		g.tick()
	}
}

func (in *Interp) acquire(g *Gor, o interface{}) {
	if !in.schedAll || g.atomic > 0 {
		return
	}
	if v := in.syncs[o]; v != nil {
		g.vc.join(*v)
	}
}

func (in *Interp) release(g *Gor, o interface{}) {
	if !in.schedAll || g.atomic > 0 {
		return
	}
	v := in.syncs[o]
	if v == nil {
		v = &vclock{}
		in.syncs[o] = v
	}
	v.join(g.vc)
	g.tick()
}

type chanEnd struct {
	ch   *ChanObj
	n    int
	recv bool
}

func (in *Interp) sent(g *Gor, ch *ChanObj) {
	if in.schedAll && g.atomic == 0 {
		n := ch.popped + ch.length() // number of the element about to be sent
		in.acquire(g, chanEnd{ch, n - ch.cap, true})
		in.release(g, chanEnd{ch, n, false})
	}
}

func (in *Interp) received(g *Gor, ch *ChanObj) {
	if in.schedAll && g.atomic == 0 {
		in.acquire(g, chanEnd{ch, ch.popped, false})
		in.release(g, chanEnd{ch, ch.popped, true})
	}
}

func (in *Interp) rendezvous(a, b *Gor) {
	if in.schedAll {
		v := a.vc.clone()
		v.join(b.vc)
		a.vc, b.vc = v, v.clone()
		a.tick()
		b.tick()
	}
}

// note records an access.
func (in *Interp) touchMap(fr *frame, k *MapObj, write bool, ins ssa.Instruction) {
	s := in.mshadow[k]
	if s == nil {
		s = in.newShadow()
		in.mshadow[k] = s
	}
	in.note(fr, s, k, write, ins)
}

func (in *Interp) note(fr *frame, s *shadow, m *MapObj, write bool, ins ssa.Instruction) {
	g := fr.g
	me := access{g.id, g.vc.get(g.id), ins}
	if s.w.gid >= 0 && s.w.gid != g.id && s.w.clk > g.vc.get(s.w.gid) {
		in.race(m, s.w.ins, ins)
	}
	if write {
		for _, r := range s.rs {
			if r.gid != g.id && r.clk > g.vc.get(r.gid) {
				in.race(m, r.ins, ins)
			}
		}
		s.w = me
		s.rs = s.rs[:0]
		return
	}
	for i := range s.rs {
		if s.rs[i].gid == g.id {
			s.rs[i] = me
			return
		}
	}
	s.rs = append(s.rs, me)
}

func (in *Interp) race(m *MapObj, a, b ssa.Instruction) {
	if m != nil {
		in.notes = append(in.notes, "accesses at "+in.prog.pos(a)+" and "+in.prog.pos(b))
		panic(pathEnd{kind: endViolation, vkind: "race", msg: "fatal error: concurrent access to a map"})
	}
	e := in.ex
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, i := range []ssa.Instruction{a, b} {
		if i != nil && !e.racy[i] && !e.newRacy[i] {
			e.newRacy[i] = true
			e.stopped = true
			e.cond.Broadcast()
		}
	}
}

func (p *Program) pos(i ssa.Instruction) string {
	if i == nil || i.Parent() == nil {
		return "?"
	}
	return fmt.Sprintf("%s (%s)", i.Parent().Prog.Fset.Position(i.Pos()), i.Parent())
}

// tracked tells whether the function's accesses are the code under test's (or
// those of the library on its behalf).
func (fr *frame) tracked() bool { return fr.cf != nil && !fr.cf.env }

func isEnv(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), zz) && fn.Pkg.Pkg.Name() != "vacc"
	}
	return strings.Contains(fn.String(), zz)
}

// memAccess is called before an access through a pointer.
func (in *Interp) memAccess(fr *frame, p Ptr, write bool, ci *cinstr) {
	if in.shared != nil && in.shared[p] {
		in.visible(fr.g, &pendOp{kind: opMem, objs: []interface{}{memKey{p.obj, p.idx}}, write: write})
	} else if in.schedAll && ci != nil && ci.racy && fr.g.atomic == 0 {
		op := &pendOp{kind: opMem, objs: []interface{}{memKey{p.obj, p.idx}}, write: write}
		if a, ok := p.obj.(*Array); ok {
			op.objs = append(op.objs, a)
		}
		in.visible(fr.g, op)
	}
	if !in.schedAll || !fr.tracked() || ci == nil || fr.g.atomic > 0 {
		return
	}
	in.touchVal(fr, p, write, ci.ins, 0)
}

func (in *Interp) touchVal(fr *frame, p Ptr, write bool, ins ssa.Instruction, depth int) {
	if s, ok := p.obj.get(p.idx).(*Struct); ok && depth < 4 {
		for i := range s.f {
			in.touchVal(fr, Ptr{s, i}, write, ins, depth+1)
		}
		return
	}
	in.note(fr, in.shadowOf(memKey{p.obj, p.idx}), nil, write, ins)
}

// rangeAccess is called before a builtin accesses elements of an array.
func (in *Interp) rangeAccess(fr *frame, a *Array, off, n int, write bool) {
	if !in.schedAll || a == nil || n <= 0 || !fr.tracked() || fr.ci == nil || fr.g.atomic > 0 {
		return
	}
	if fr.ci.racy {
		in.visible(fr.g, &pendOp{kind: opMem, objs: []interface{}{a}, write: write})
	}
	for i := 0; i < n; i++ {
		if i == 32 && n > 64 {
			i = n - 32
		}
		in.note(fr, in.shadowOf(memKey{a, off + i}), nil, write, fr.ci.ins)
	}
}

// mapAccess is called before an access to a map.
func (in *Interp) mapAccess(fr *frame, m *MapObj, write bool, ins ssa.Instruction) {
	if !in.schedAll || m == nil || !fr.tracked() || fr.g.atomic > 0 {
		return
	}
	in.touchMap(fr, m, write, ins)
}

func (in *Interp) callIns(fr *frame) ssa.Instruction {
	if fr.ci == nil {
		return nil
	}
	return fr.ci.ins
}

// sliceAccess notes the accesses of append (without a spare place in the
// destination, only reads) and copy.
func (in *Interp) sliceAccess(fr *frame, args []Value) {
	if !in.schedAll || len(args) < 2 {
		return
	}
	d, ok := args[0].(Slice)
	if !ok || d.sl != nil {
		return
	}
	n := -1
	if s, ok := args[1].(Slice); ok {
		if s.sl != nil {
			return
		}
		n = s.ln
	} else if _, ok := args[1].(string); ok {
		n = strLen(args[1])
	} else if s, ok := args[1].(*SymStr); ok {
		n = strLen(s)
	}
	if n < 0 {
		return
	}
	isCopy := fr.ci != nil && strings.HasPrefix(fr.ci.ins.String(), "copy(")
	if isCopy && d.ln < n {
		n = d.ln
	}
	if s, ok := args[1].(Slice); ok {
		in.rangeAccess(fr, s.arr, s.off, n, false)
	}
	switch {
	case isCopy:
		in.rangeAccess(fr, d.arr, d.off, n, true)
	case d.ln+n <= d.cp:
		in.rangeAccess(fr, d.arr, d.off+d.ln, n, true)
	default:
		in.rangeAccess(fr, d.arr, d.off, d.ln, false)
	}
}

func (in *Interp) forked(g, n *Gor) {
	if in.schedAll {
		n.vc = g.vc.clone()
		n.tick()
		g.tick()
	}
}

// touchAtomic notes an atomic access: it races with plain ones only.
func (in *Interp) touchAtomic(fr *frame, p Ptr, write bool) {
	if fr.g.atomic > 0 {
		return
	}
	s := in.shadowOf(memKey{p.obj, p.idx})
	g := fr.g
	if s.w.gid >= 0 && s.w.gid != g.id && s.w.ins != nil && s.w.clk > g.vc.get(s.w.gid) {
		in.race(nil, s.w.ins, nil)
	}
	if write {
		for _, r := range s.rs {
			if r.gid != g.id && r.clk > g.vc.get(r.gid) {
				in.race(nil, r.ins, nil)
			}
		}
		s.w = access{g.id, g.vc.get(g.id), nil}
		s.rs = s.rs[:0]
	}
}
