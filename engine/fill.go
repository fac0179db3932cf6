package main

import (
	"go/token"
	"go/types"
	"slices"

	"golang.org/x/tools/go/ssa"
)

// A loop that only computes with integers and sends them to a buffered
// channel, such as
//
//	for i := a; i < N; i++ { c.F <- T(i) }
//
// is run on machine words when nothing in it is symbolic and no other
// goroutine can run in between: the pool of tags of a client is made by such
// a loop, of 65533 iterations, on every path.  The first iteration is
// interpreted normally, which leaves what does not change in the registers.
// Any other loop is interpreted as it is.
type fillLoop struct {
	in   map[int]bool // blocks
	code map[int][]fillOp
	phis map[int]map[int][]fillMove // block, predecessor
	send operand
	ew   uint8
	regs []fillReg // computed in the loop
	inv  []operand // taken from outside

	// what the last run did, from the same state
	memo struct {
		prev, room       int
		slot, inv        []uint64
		toPrev, toBlk, n int
		first            uint64
		result           []uint64
		steps            int64
	}
}

type fillReg struct {
	reg int32
	w   uint8
}

type fillArg struct {
	v   bool // a slot of the loop, else one of inv
	idx int
}

type fillMove struct {
	dst int
	src fillArg
}

type fillKind int

const (
	fBin fillKind = iota
	fConv
	fSend
	fIf
	fJump
)

type fillOp struct {
	kind fillKind
	op   token.Token
	w    uint8 // of the operands
	sg   bool
	tw   uint8 // of the result
	dst  int
	a, b fillArg
	to   [2]int
}

func findFill(fn *ssa.Function, cf *cfunc, h int) *fillLoop {
	hb := fn.Blocks[h]
	if len(hb.Preds) < 2 {
		return nil
	}
	in := map[int]bool{h: true}
	var work, latch []*ssa.BasicBlock
	for _, p := range hb.Preds {
		if hb.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	latch = append(latch, work...)
	// in every iteration
	always := func(i int) bool {
		for _, l := range latch {
			if !fn.Blocks[i].Dominates(l) {
				return false
			}
		}
		return true
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b.Index] {
			continue
		}
		in[b.Index] = true
		if len(in) > 6 {
			return nil
		}
		work = append(work, b.Preds...)
	}
	f := &fillLoop{in: in, code: map[int][]fillOp{}, phis: map[int]map[int][]fillMove{}}
	slots := map[ssa.Value]int{}
	sends := 0
	// what varies
	for i := range in {
		for j := range cf.blocks[i].instrs {
			ci := &cf.blocks[i].instrs[j]
			switch x := ci.ins.(type) {
			case *ssa.FieldAddr, *ssa.Jump, *ssa.If:
			case *ssa.UnOp:
				if x.Op != token.MUL || x.CommaOk || !always(i) {
					return nil
				}
			case *ssa.Call:
				b, ok := x.Call.Value.(*ssa.Builtin)
				if !ok || b.Name() != "cap" || !always(i) {
					return nil
				}
				if _, ok := x.Call.Args[0].Type().Underlying().(*types.Chan); !ok {
					return nil
				}
			case *ssa.Send:
				if !always(i) {
					return nil
				}
				sends++
			case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType:
				v := x.(ssa.Value)
				w, _, ok := intInfo(v.Type())
				if !ok {
					return nil
				}
				slots[v] = len(f.regs)
				f.regs = append(f.regs, fillReg{ci.dst, w})
			default:
				return nil
			}
		}
	}
	if sends != 1 {
		return nil
	}
	var regOf func(v ssa.Value, o operand) fillArg
	regOf = func(v ssa.Value, o operand) fillArg {
		if s, ok := slots[v]; ok {
			return fillArg{true, s}
		}
		f.inv = append(f.inv, o)
		return fillArg{false, len(f.inv) - 1}
	}
	for i := range in {
		cb := &cf.blocks[i]
		var code []fillOp
		for j := range cb.instrs {
			ci := &cb.instrs[j]
			switch x := ci.ins.(type) {
			case *ssa.FieldAddr:
				if _, ok := slots[x.X]; ok {
					return nil
				}
			case *ssa.Phi:
				for _, p := range fn.Blocks[i].Preds {
					if !in[p.Index] {
						continue
					}
					k := cb.preds[p.Index]
					m := f.phis[i]
					if m == nil {
						m = map[int][]fillMove{}
						f.phis[i] = m
					}
					m[p.Index] = append(m[p.Index], fillMove{slots[x], regOf(x.Edges[k], cb.phi[j][k])})
				}
			case *ssa.BinOp:
				w, sg, ok := intInfo(x.X.Type())
				if !ok || w == 0 {
					return nil
				}
				if w2, _, ok := intInfo(x.Y.Type()); !ok || w2 != w {
					return nil
				}
				switch x.Op {
				case token.ADD, token.SUB, token.AND, token.OR, token.XOR, token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				default:
					return nil
				}
				tw, _, _ := intInfo(x.Type())
				code = append(code, fillOp{kind: fBin, op: x.Op, w: w, sg: sg, tw: tw, dst: slots[x], a: regOf(x.X, ci.a), b: regOf(x.Y, ci.b)})
			case *ssa.Convert:
				w, sg, ok := intInfo(x.X.Type())
				tw, _, ok2 := intInfo(x.Type())
				if !ok || !ok2 || w == 0 || tw == 0 {
					return nil
				}
				code = append(code, fillOp{kind: fConv, w: w, sg: sg, tw: tw, dst: slots[x], a: regOf(x.X, ci.ops[0])})
			case *ssa.ChangeType:
				w, _, ok := intInfo(x.Type())
				if !ok {
					return nil
				}
				code = append(code, fillOp{kind: fConv, w: w, tw: w, dst: slots[x], a: regOf(x.X, ci.ops[0])})
			case *ssa.Send:
				w, _, ok := intInfo(x.X.Type())
				if !ok || w == 0 {
					return nil
				}
				f.send, f.ew = ci.ops[0], w
				code = append(code, fillOp{kind: fSend, a: regOf(x.X, ci.ops[1])})
			case *ssa.If:
				code = append(code, fillOp{kind: fIf, a: regOf(x.Cond, ci.ops[0]), to: [2]int{cb.succs[0], cb.succs[1]}})
			case *ssa.Jump:
				code = append(code, fillOp{kind: fJump, to: [2]int{cb.succs[0]}})
			}
		}
		f.code[i] = code
	}
	return f
}

func fillSext(v uint64, w uint8) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

func (o *fillOp) eval(a, b uint64) uint64 {
	m := mask(o.w)
	t := func(v bool) uint64 {
		if v {
			return 1
		}
		return 0
	}
	switch o.op {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.EQL:
		return t(a == b)
	case token.NEQ:
		return t(a != b)
	}
	less, eq := a < b, a == b
	if o.sg {
		less = fillSext(a, o.w) < fillSext(b, o.w)
	}
	switch o.op {
	case token.LSS:
		return t(less)
	case token.LEQ:
		return t(less || eq)
	case token.GTR:
		return t(!less && !eq)
	}
	return t(!less)
}

// fill runs iterations of the loop from its header on, as long as it can; it
// returns the edge at which the normal interpretation goes on.
func (in *Interp) fill(fr *frame, f *fillLoop, prev, blk int) (int, int) {
	ch, ok := fr.get(in, &f.send).(*ChanObj)
	if !ok || ch == nil || ch.closed || ch.length() >= ch.cap || len(in.receivers(fr.g, ch)) > 0 {
		return prev, blk
	}
	num := func(v Value) (uint64, bool) {
		t, ok := v.(*Term)
		if !ok {
			return 0, false
		}
		switch t.op {
		case OConst:
			return t.val, true
		}
		if t == in.ctx.True {
			return 1, true
		}
		return 0, t == in.ctx.False
	}
	inv := make([]uint64, len(f.inv))
	for i := range f.inv {
		v, ok := num(fr.get(in, &f.inv[i]))
		if !ok {
			return prev, blk
		}
		inv[i] = v
	}
	slot := make([]uint64, len(f.regs))
	for i, r := range f.regs {
		v, ok := num(fr.regs[r.reg])
		if !ok {
			return prev, blk
		}
		slot[i] = v
	}
	get := func(a fillArg) uint64 {
		if a.v {
			return slot[a.idx]
		}
		return inv[a.idx]
	}
	header := blk
	room := ch.cap - ch.length()
	steps := in.steps
	m := &f.memo
	if m.result != nil && m.prev == prev && m.room == room && slices.Equal(m.slot, slot) && slices.Equal(m.inv, inv) && ch.lzNext == ch.lzEnd && steps+m.steps < in.ex.opt.MaxSteps {
		in.steps += m.steps
		in.filled(fr, f, m.result)
		ch.lz, ch.lzW, ch.lzNext, ch.lzEnd = in.ctx, f.ew, m.first, m.first+uint64(m.n)
		return m.toPrev, m.toBlk
	}
	from, slot0 := prev, slices.Clone(slot)
	var out []uint64 // or, while that is nil, n elements from first on
	var first uint64
	n := 0
	var tmp [8]uint64
	for f.in[blk] && in.steps < in.ex.opt.MaxSteps {
		if blk == header && n >= room {
			break
		}
		mv := f.phis[blk][prev]
		if len(mv) > len(tmp) {
			break
		}
		for i, m := range mv {
			tmp[i] = get(m.src)
		}
		for i, m := range mv {
			slot[m.dst] = tmp[i]
		}
		next := -1
		for i := range f.code[blk] {
			o := &f.code[blk][i]
			in.steps++
			switch o.kind {
			case fBin:
				slot[o.dst] = o.eval(get(o.a), get(o.b))
			case fConv:
				v := get(o.a)
				if o.sg && o.w < o.tw {
					v = uint64(fillSext(v, o.w))
				}
				slot[o.dst] = v & mask(o.tw)
			case fSend:
				v := get(o.a)
				if n == 0 {
					first = v
				}
				if out == nil && v != first+uint64(n) {
					for i := 0; i < n; i++ {
						out = append(out, first+uint64(i))
					}
				}
				if n++; out != nil {
					out = append(out, v)
				}
			case fIf:
				next = o.to[0]
				if get(o.a) == 0 {
					next = o.to[1]
				}
			case fJump:
				next = o.to[0]
			}
		}
		prev, blk = blk, next
	}
	in.filled(fr, f, slot)
	if out == nil && ch.lzNext == ch.lzEnd {
		m.prev, m.room, m.slot, m.inv = from, room, slot0, inv
		m.toPrev, m.toBlk, m.n, m.first, m.result, m.steps = prev, blk, n, first, slot, in.steps-steps
		ch.lz, ch.lzW, ch.lzNext, ch.lzEnd = in.ctx, f.ew, first, first+uint64(n)
		return prev, blk
	}
	for i := 0; i < n; i++ {
		v := first + uint64(i)
		if out != nil {
			v = out[i]
		}
		ch.push(in.ctx.Const(v, f.ew))
	}
	return prev, blk
}

func (in *Interp) filled(fr *frame, f *fillLoop, slot []uint64) {
	for i, r := range f.regs {
		if r.w == 0 {
			fr.regs[r.reg] = in.ctx.Bool(slot[i] != 0)
		} else {
			fr.regs[r.reg] = in.ctx.Const(slot[i], r.w)
		}
	}
}
