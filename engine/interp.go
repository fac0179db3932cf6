package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// operand is a pre-resolved SSA operand.
type operand struct {
	reg  int32 // >=0 register, -1 constant, -2 global
	con  Value
	glob *ssa.Global
}

type cinstr struct {
	ins  ssa.Instruction
	dst  int32
	a, b operand
	ops  []operand
	w    uint8
	sg   bool
	t    types.Type
	racy bool
}

type cblock struct {
	instrs []cinstr
	nphi   int
	succs  []int
	phi    [][]operand // [phi][pred]
	preds  []int
	fill   *fillLoop
}

type cfunc struct {
	fn       *ssa.Function
	blocks   []cblock
	nreg     int
	params   []int32
	free     []int32
	hasDefer bool
	intr     intrinsic
	name     string
	env      bool
}

type targetPanic struct {
	v     Value
	where string
}

type deferred struct {
	fn   Value
	args []Value
	meth *ssa.CallCommon
}

type frame struct {
	g         *Gor
	cf        *cfunc
	regs      []Value
	caller    *frame
	defers    []deferred
	panicking bool
	panicv    targetPanic
	recovered bool
	result    Value
	pos       token.Pos
	ci        *cinstr // the call being made
	depth     int
}

// Interp executes one path at a time over a worker-private term context.
type Interp struct {
	ex     *Explorer
	prog   *Program
	ctx    *Ctx
	solver *Solver
	cross  *Solver

	compiled map[*ssa.Function]*cfunc
	zeroC    map[types.Type]Value

	// per path
	prefix   []Dec
	trace    []Dec
	pc       []*Term
	known    map[*Term]bool
	model    Model
	seq      map[string]int
	nondet   []nondetRec
	asserts  []assertion
	covers   map[string]bool
	bounds   map[string]bool
	globals  map[*ssa.Global]*Cell
	inited   map[*ssa.Package]bool
	steps    int64
	nAsserts int64
	nAssertQ int64
	nTriv    int64
	nCross   int64
	crossBad []string
	notes    []string
	shared   map[Ptr]bool

	// scheduler
	gors     []*Gor
	cur      *Gor
	schedAll bool
	preempt  int
	delay    int
	shadow   map[memKey]*shadow
	mshadow  map[*MapObj]*shadow
	shEpoch  int
	syncs    map[interface{}]*vclock
	schedLog []string
	sleep    []sleepEnt
	finished bool
	endCh    chan pathEnd
	killed   bool
	chanID   int
	mutexes  map[Ptr]*mutexState
	wgs      map[Ptr]*int64
	conds    map[Ptr]*condState
	pools    map[Ptr]*[]Value
	smaps    map[Ptr]*MapObj
	onces    map[Ptr]bool
	multi    bool
	flags    map[string]flagEnt
	methC    map[methKey]*ssa.Function
	wg       sync.WaitGroup
	ended    bool
	endMu    sync.Mutex
}

func NewInterp(e *Explorer) *Interp {
	in := &Interp{ex: e, prog: e.prog, ctx: NewCtx(), compiled: map[*ssa.Function]*cfunc{}, zeroC: map[types.Type]Value{}, methC: map[methKey]*ssa.Function{}}
	s, err := NewSolver(in.ctx, e.opt.SolverBin, e.opt.SolverArgs)
	if err != nil {
		panic(err)
	}
	in.solver = s
	if e.opt.CrossBin != "" {
		c, err := NewSolver(in.ctx, e.opt.CrossBin, e.opt.CrossArgs)
		if err == nil {
			c.alt = true
			in.cross = c
		}
	}
	return in
}

func (in *Interp) reset() {
	in.trace = nil
	in.pc = nil
	in.known = map[*Term]bool{}
	in.seq = map[string]int{}
	in.nondet = nil
	in.asserts = nil
	in.covers = map[string]bool{}
	in.bounds = map[string]bool{}
	in.globals = map[*ssa.Global]*Cell{}
	in.inited = map[*ssa.Package]bool{}
	in.steps = 0
	in.nAsserts, in.nAssertQ, in.nTriv, in.nCross = 0, 0, 0, 0
	in.crossBad = nil
	in.notes = nil
	in.shared = nil
	in.gors = nil
	in.cur = nil
	in.schedAll = false
	in.preempt = -1
	in.delay = -1
	in.shadow = nil
	in.syncs = nil
	in.schedLog = nil
	in.sleep = nil
	in.finished = false
	in.killed = false
	in.ended = false
	in.chanID = 0
	in.mutexes = map[Ptr]*mutexState{}
	in.wgs = map[Ptr]*int64{}
	in.conds = map[Ptr]*condState{}
	in.pools = map[Ptr]*[]Value{}
	in.smaps = map[Ptr]*MapObj{}
	in.onces = map[Ptr]bool{}
	in.multi = false
	in.flags = map[string]flagEnt{}
	in.endCh = make(chan pathEnd, 1)
}

func (in *Interp) unsupported(format string, args ...interface{}) {
	panic(pathEnd{kind: endIncomplete, msg: "unsupported: " + fmt.Sprintf(format, args...)})
}

// ---- compilation

func (in *Interp) compile(fn *ssa.Function) *cfunc {
	if cf, ok := in.compiled[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fn.String(), env: isEnv(fn)}
	in.compiled[fn] = cf
	cf.intr = lookupIntrinsic(fn)
	if cf.intr != nil {
		return cf
	}
	if to := in.prog.standIn(fn); to != nil {
		cf.intr = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.call(fr, to, a, nil) }
		return cf
	}
	in.prog.ensureBuilt(fn)
	regs := map[ssa.Value]int32{}
	newReg := func(v ssa.Value) int32 {
		r := int32(cf.nreg)
		cf.nreg++
		regs[v] = r
		return r
	}
	for _, p := range fn.Params {
		cf.params = append(cf.params, newReg(p))
	}
	for _, f := range fn.FreeVars {
		cf.free = append(cf.free, newReg(f))
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				newReg(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	opnd := func(v ssa.Value) operand {
		switch v := v.(type) {
		case *ssa.Const:
			return operand{reg: -1, con: in.constVal(v)}
		case *ssa.Global:
			return operand{reg: -2, glob: v}
		case *ssa.Function:
			return operand{reg: -1, con: &Closure{fn: v}}
		case *ssa.Builtin:
			return operand{reg: -1, con: v}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, fn))
		}
		return operand{reg: r}
	}
	cf.blocks = make([]cblock, len(fn.Blocks))
	for i, b := range fn.Blocks {
		cb := &cf.blocks[i]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		cb.preds = make([]int, len(fn.Blocks))
		for j, p := range b.Preds {
			cb.preds[p.Index] = j
		}
		for _, ins := range b.Instrs {
			ci := cinstr{ins: ins, dst: -1, racy: in.ex.racy[ins]}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.t = v.Type()
			}
			switch x := ins.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				cb.nphi++
				var es []operand
				for _, e := range x.Edges {
					es = append(es, opnd(e))
				}
				cb.phi = append(cb.phi, es)
			case *ssa.BinOp:
				ci.a, ci.b = opnd(x.X), opnd(x.Y)
				ci.w, ci.sg, _ = intInfo(x.X.Type())
			case *ssa.UnOp:
				ci.a = opnd(x.X)
				ci.w, ci.sg, _ = intInfo(x.X.Type())
			case *ssa.Call:
				ci.ops = in.callOps(&x.Call, opnd)
			case *ssa.Defer:
				ci.ops = in.callOps(&x.Call, opnd)
			case *ssa.Go:
				ci.ops = in.callOps(&x.Call, opnd)
			default:
				var rands []*ssa.Value
				rands = ins.Operands(rands)
				for _, r := range rands {
					if r == nil || *r == nil {
						ci.ops = append(ci.ops, operand{reg: -1})
						continue
					}
					ci.ops = append(ci.ops, opnd(*r))
				}
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	for i := range cf.blocks {
		cf.blocks[i].fill = findFill(fn, cf, i)
	}
	return cf
}

func (in *Interp) callOps(c *ssa.CallCommon, opnd func(ssa.Value) operand) []operand {
	ops := []operand{opnd(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, opnd(a))
	}
	return ops
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		panic(pathEnd{kind: endIncomplete, msg: "unsupported: type parameter constant"})
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(fmt.Sprintf("const of type %v", t))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.ctx.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intInfo(t)
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return in.ctx.Const(u, w)
		}
		i, _ := constant.Int64Val(v)
		return in.ctx.Const(uint64(i), w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(fmt.Sprintf("const %v of type %v", c, t))
}

// ---- globals and package initialisation

func (in *Interp) global(g *ssa.Global) *Cell {
	if c, ok := in.globals[g]; ok {
		return c
	}
	in.ensureInit(g.Pkg)
	if c, ok := in.globals[g]; ok {
		return c
	}
	c := &Cell{v: in.zero(g.Type().(*types.Pointer).Elem())}
	in.globals[g] = c
	return c
}

// ensureInit runs the initialiser of a package once per path, lazily.
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	sa := in.schedAll
	in.schedAll = false
	defer func() { in.schedAll = sa }()
	g := in.cur
	fr := &frame{g: g}
	if in.prog.isUser(p) {
		in.call(fr, f, nil, nil)
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && pe.kind == endIncomplete {
					return // partially initialised library package
				}
				panic(r)
			}
		}()
		in.call(fr, f, nil, nil)
	}()
}

var skipInit = map[string]bool{"runtime": true, "internal/godebug": true}

// ---- execution

func (fr *frame) get(in *Interp, o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -1 {
		return o.con
	}
	return Ptr{in.global(o.glob), 0}
}

// goPanic raises a Go panic in the interpreted program.
func (in *Interp) goPanic(v Value) {
	where := ""
	if in.cur != nil {
		where = in.cur.where()
	}
	panic(targetPanic{v, where})
}

func (in *Interp) goPanicStr(msg string) {
	in.goPanic(in.runtimeError(msg))
}

func (in *Interp) runtimeError(msg string) Value {
	if t := in.prog.rtErrType; t != nil {
		return Iface{t, msg}
	}
	return Iface{types.Typ[types.String], "runtime error: " + msg}
}

func (g *Gor) where() string {
	if g.fr == nil {
		return ""
	}
	s := ""
	n := 0
	for f := g.fr; f != nil && n < 6; f = f.caller {
		if f.cf == nil {
			continue
		}
		if s != "" {
			s += " < "
		}
		p := f.cf.fn.Prog.Fset.Position(f.pos)
		s += fmt.Sprintf("%s (%s:%d)", f.cf.name, shortFile(p.Filename), p.Line)
		n++
	}
	return s
}

func shortFile(s string) string {
	n := 0
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			n++
			if n == 2 {
				return s[i+1:]
			}
		}
	}
	return s
}

// call runs fn to completion and returns its result (Tuple for several).
func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	cf := in.compile(fn)
	if cf.intr != nil {
		return cf.intr(in, caller, fn, args)
	}
	if fn.Blocks == nil {
		in.unsupported("function without body: %s", fn.String())
	}
	if fn.Synthetic == "package initializer" {
		if caller != nil && caller.cf != nil {
			// init of an imported package: user packages eagerly, library
			// packages lazily on first use of a global.
			if in.inited[fn.Pkg] {
				return nil
			}
			if !in.prog.isUser(fn.Pkg) {
				return nil
			}
			in.inited[fn.Pkg] = true
		}
	}
	fr := &frame{g: caller.g, cf: cf, caller: caller, depth: caller.depth + 1}
	if fr.depth > 2000 {
		in.unsupported("recursion deeper than 2000 frames in %s", cf.name)
	}
	fr.regs = make([]Value, cf.nreg)
	for i, r := range cf.params {
		fr.regs[r] = args[i]
	}
	for i, r := range cf.free {
		fr.regs[r] = free[i]
	}
	g := caller.g
	g.fr = fr
	if cf.hasDefer {
		in.runWithDefers(fr)
	} else {
		in.runBlocks(fr, 0)
	}
	g.fr = caller
	return fr.result
}

func (in *Interp) runWithDefers(fr *frame) {
	blk := 0
	for {
		fr.panicking = false
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicv = tp
				}
			}()
			in.runBlocks(fr, blk)
		}()
		if !fr.panicking {
			return
		}
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicv)
		}
		// recovered
		fr.g.fr = fr
		rb := fr.cf.fn.Recover
		if rb == nil {
			fr.result = in.zeroResults(fr.cf.fn)
			return
		}
		blk = rb.Index
	}
}

func (in *Interp) zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.panicv = tp
				}
			}()
			fr.g.fr = fr
			in.callValue(fr, d.fn, d.args, true)
		}()
	}
}

// callValue calls a function value.
func (in *Interp) callValue(fr *frame, f Value, args []Value, isDefer bool) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			in.goPanicStr("invalid memory address or nil pointer dereference")
		}
		return in.call(fr, f.fn, args, f.free)
	case *ssa.Builtin:
		return in.builtin(fr, f, args, nil)
	}
	in.unsupported("call of %T", f)
	return nil
}

func (in *Interp) resolveCall(fr *frame, c *ssa.CallCommon, ops []operand) (Value, []Value) {
	if c.IsInvoke() {
		recv := fr.get(in, &ops[0]).(Iface)
		if recv.t == nil {
			in.goPanicStr("invalid memory address or nil pointer dereference")
		}
		fn := in.method(recv.t, c.Method)
		if fn == nil {
			in.unsupported("no method %v on %v", c.Method, recv.t)
		}
		args := make([]Value, 0, len(ops))
		args = append(args, recv.v)
		for i := range ops[1:] {
			args = append(args, copyVal(fr.get(in, &ops[i+1])))
		}
		return &Closure{fn: fn}, args
	}
	f := fr.get(in, &ops[0])
	args := make([]Value, len(ops)-1)
	for i := range args {
		args[i] = copyVal(fr.get(in, &ops[i+1]))
	}
	return f, args
}

func (in *Interp) runBlocks(fr *frame, blk int) {
	cf := fr.cf
	prev := -1
	var phiBuf [16]Value
	for {
		b := &cf.blocks[blk]
		if b.fill != nil && b.fill.in[prev] && !in.schedAll {
			prev, blk = in.fill(fr, b.fill, prev, blk)
			b = &cf.blocks[blk]
		}
		if b.nphi > 0 {
			pi := b.preds[prev]
			vals := phiBuf[:0]
			for i := 0; i < b.nphi; i++ {
				vals = append(vals, fr.get(in, &b.phi[i][pi]))
			}
			for i := 0; i < b.nphi; i++ {
				fr.regs[b.instrs[i].dst] = vals[i]
			}
		}
		next := -1
		for i := b.nphi; i < len(b.instrs); i++ {
			ci := &b.instrs[i]
			in.steps++
			if in.steps > in.ex.opt.MaxSteps {
				panic(pathEnd{kind: endViolation, vkind: "hang", msg: "the code did not come to an end within the step bound"})
			}
			switch x := ci.ins.(type) {
			case *ssa.BinOp:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = in.binop(x.Op, x.X.Type(), x.Y.Type(), ci, fr.get(in, &ci.a), fr.get(in, &ci.b))
			case *ssa.UnOp:
				fr.pos = x.Pos()
				fr.regs[ci.dst] = in.unop(fr, x, ci)
			case *ssa.Call:
				fr.pos = x.Pos()
				f, args := in.resolveCall(fr, &x.Call, ci.ops)
				fr.ci = ci
				if bi, ok := f.(*ssa.Builtin); ok {
					fr.regs[ci.dst] = in.builtin(fr, bi, args, &x.Call)
				} else {
					fr.regs[ci.dst] = in.callValue(fr, f, args, false)
				}
			case *ssa.If:
				c := fr.get(in, &ci.ops[0]).(*Term)
				if in.branch(c) {
					next = b.succs[0]
				} else {
					next = b.succs[1]
				}
			case *ssa.Jump:
				next = b.succs[0]
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(in, &ci.ops[0])
				default:
					t := make(Tuple, len(ci.ops))
					for j := range ci.ops {
						t[j] = fr.get(in, &ci.ops[j])
					}
					fr.result = t
				}
				return
			case *ssa.Store:
				fr.pos = x.Pos()
				p := fr.get(in, &ci.ops[0]).(Ptr)
				v := fr.get(in, &ci.ops[1])
				if p.obj == nil {
					in.goPanicStr("invalid memory address or nil pointer dereference")
				}
				if in.schedAll || in.shared != nil {
					in.memAccess(fr, p, true, ci)
				}
				assign(p, v)
			case *ssa.FieldAddr:
				p := fr.get(in, &ci.ops[0]).(Ptr)
				if p.obj == nil {
					fr.pos = x.Pos()
					in.goPanicStr("invalid memory address or nil pointer dereference")
				}
				s, ok := p.obj.get(p.idx).(*Struct)
				if !ok {
					in.unsupported("FieldAddr on %T", p.obj.get(p.idx))
				}
				fr.regs[ci.dst] = Ptr{s, x.Field}
			case *ssa.IndexAddr:
				if p := x.Pos(); p.IsValid() {
					fr.pos = p
				}
				in.indexAddr(fr, x, ci)
			default:
				in.exec(fr, ci)
				if _, ok := ci.ins.(*ssa.Panic); ok {
					return
				}
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			in.unsupported("fell off block in %s", cf.name)
		}
		prev, blk = blk, next
	}
}

func (in *Interp) exec(fr *frame, ci *cinstr) {
	get := func(i int) Value { return fr.get(in, &ci.ops[i]) }
	if p := ci.ins.Pos(); p.IsValid() {
		fr.pos = p
	}
	switch x := ci.ins.(type) {
	case *ssa.Alloc:
		fr.regs[ci.dst] = Ptr{&Cell{v: in.zero(x.Type().Underlying().(*types.Pointer).Elem())}, 0}
	case *ssa.Field:
		fr.regs[ci.dst] = get(0).(*Struct).f[x.Field]
	case *ssa.Index:
		in.index(fr, x, ci)
	case *ssa.Lookup:
		in.lookup(fr, x, ci)
	case *ssa.MapUpdate:
		m := get(0).(*MapObj)
		if m == nil {
			in.goPanic(in.plainError("assignment to entry in nil map"))
		}
		in.mapAccess(fr, m, true, x)
		in.mapSet(m, get(1), get(2))
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeSlice:
		in.makeSlice(fr, x, get(0), get(1), ci)
	case *ssa.MakeChan:
		n := in.concretize(get(0).(*Term), "channel capacity")
		in.chanID++
		fr.regs[ci.dst] = &ChanObj{cap: int(n), id: in.chanID, zero: in.zero(x.Type().Underlying().(*types.Chan).Elem())}
	case *ssa.MakeClosure:
		free := make([]Value, len(ci.ops)-1)
		for i := range free {
			free[i] = get(i + 1)
		}
		fr.regs[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), free: free}
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{x.X.Type(), copyVal(get(0))}
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = get(0)
	case *ssa.ChangeType:
		fr.regs[ci.dst] = get(0)
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(x.X.Type(), x.Type(), get(0))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(x.X.Type(), x.Type(), get(0))
	case *ssa.SliceToArrayPointer:
		s := get(0).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		in.fixLen(&s)
		if s.ln < int(at.Len()) {
			in.goPanicStr("cannot convert slice to array pointer: length too short")
		}
		if s.arr != nil && s.off == 0 && s.arr.n == int(at.Len()) {
			fr.regs[ci.dst] = Ptr{&Cell{v: s.arr}, 0}
			return
		}
		in.unsupported("slice to array pointer (interior)")
	case *ssa.Slice:
		in.slice(fr, x, ci)
	case *ssa.Extract:
		fr.regs[ci.dst] = get(0).(Tuple)[x.Index]
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(x, get(0).(Iface))
	case *ssa.Defer:
		f, args := in.resolveCall(fr, &x.Call, ci.ops)
		if c, ok := f.(*Closure); ok && c == nil {
			in.goPanicStr("invalid memory address or nil pointer dereference")
		}
		fr.defers = append(fr.defers, deferred{fn: f, args: args})
	case *ssa.RunDefers:
		in.runDefers(fr)
		fr.g.fr = fr
		if fr.panicking {
			panic(fr.panicv)
		}
	case *ssa.Go:
		f, args := in.resolveCall(fr, &x.Call, ci.ops)
		in.spawn(fr.g, f, args)
	case *ssa.Panic:
		in.goPanic(get(0))
	case *ssa.Send:
		in.chanSend(fr.g, get(0).(*ChanObj), copyVal(get(1)))
	case *ssa.Select:
		in.doSelect(fr, x, ci)
	case *ssa.Range:
		if m, ok := get(0).(*MapObj); ok {
			in.mapAccess(fr, m, false, x)
		}
		fr.regs[ci.dst] = in.newIter(get(0))
	case *ssa.Next:
		fr.regs[ci.dst] = in.iterNext(fr, x, get(0).(*rangeIter))
	default:
		in.unsupported("instruction %T", ci.ins)
	}
}

func (in *Interp) plainError(msg string) Value {
	if t := in.prog.plainErrType; t != nil {
		return Iface{t, msg}
	}
	return Iface{types.Typ[types.String], msg}
}

// fixLen makes a symbolic-length slice concrete.
func (in *Interp) fixLen(s *Slice) {
	if s.sl != nil {
		n := in.concretize(s.sl, "slice length")
		s.ln, s.cp, s.sl = int(n), int(n), nil
	}
}

func (in *Interp) lenTerm(s Slice) *Term {
	if s.sl != nil {
		return s.sl
	}
	return in.ctx.Const(uint64(s.ln), 64)
}

// toIndex extends an index operand to 64 bits.
func (in *Interp) toIndex(t types.Type, v Value) *Term {
	_, sg, _ := intInfo(t)
	return in.ctx.Resize(v.(*Term), sg, 64)
}

// boundsIdx checks 0 <= i < n, panicking on the failing side, and returns i.
func (in *Interp) boundsIdx(i *Term, n *Term) *Term {
	if !in.branch(in.ctx.Cmp(OULt, i, n)) {
		in.goPanicStr(fmt.Sprintf("index out of range [%s] with length %s", describe(i, 0), describe(n, 0)))
	}
	return i
}

func (in *Interp) indexAddr(fr *frame, x *ssa.IndexAddr, ci *cinstr) {
	base := fr.get(in, &ci.ops[0])
	idx := in.toIndex(x.Index.Type(), fr.get(in, &ci.ops[1]))
	switch b := base.(type) {
	case Slice:
		in.boundsIdx(idx, in.lenTerm(b))
		i := in.concretize(idx, "slice index")
		fr.regs[ci.dst] = Ptr{b.arr, b.off + int(i)}
	case Ptr:
		if b.obj == nil {
			in.goPanicStr("invalid memory address or nil pointer dereference")
		}
		a := b.obj.get(b.idx).(*Array)
		in.boundsIdx(idx, in.ctx.Const(uint64(a.n), 64))
		i := in.concretize(idx, "array index")
		fr.regs[ci.dst] = Ptr{a, int(i)}
	default:
		in.unsupported("IndexAddr on %T", base)
	}
}

func (in *Interp) index(fr *frame, x *ssa.Index, ci *cinstr) {
	base := fr.get(in, &ci.ops[0])
	idx := in.toIndex(x.Index.Type(), fr.get(in, &ci.ops[1]))
	switch b := base.(type) {
	case *Array:
		in.boundsIdx(idx, in.ctx.Const(uint64(b.n), 64))
		i := in.concretize(idx, "array index")
		fr.regs[ci.dst] = b.get(int(i))
	case string, *SymStr:
		in.boundsIdx(idx, in.ctx.Const(uint64(strLen(b)), 64))
		i := in.concretize(idx, "string index")
		fr.regs[ci.dst] = in.strIndex(b, int(i))
	default:
		in.unsupported("Index on %T", base)
	}
}

func (in *Interp) lookup(fr *frame, x *ssa.Lookup, ci *cinstr) {
	base := fr.get(in, &ci.ops[0])
	switch b := base.(type) {
	case string, *SymStr:
		idx := in.toIndex(x.Index.Type(), fr.get(in, &ci.ops[1]))
		in.boundsIdx(idx, in.ctx.Const(uint64(strLen(b)), 64))
		i := in.concretize(idx, "string index")
		fr.regs[ci.dst] = in.strIndex(b, int(i))
	case *MapObj:
		in.mapAccess(fr, b, false, x)
		i := in.mapFind(b, fr.get(in, &ci.ops[1]))
		var v Value
		if i >= 0 {
			v = copyVal(b.vals[i])
		} else {
			v = in.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			fr.regs[ci.dst] = Tuple{v, in.ctx.Bool(i >= 0)}
		} else {
			fr.regs[ci.dst] = v
		}
	default:
		in.unsupported("Lookup on %T", base)
	}
}

const maxAlloc = 1 << 40

func (in *Interp) makeSlice(fr *frame, x *ssa.MakeSlice, lv, cv Value, ci *cinstr) {
	et := x.Type().Underlying().(*types.Slice).Elem()
	l := in.toIndex(x.Len.Type(), lv)
	c := in.toIndex(x.Cap.Type(), cv)
	lim := in.ctx.Const(maxAlloc, 64)
	if !in.branch(in.ctx.Cmp(OULe, l, lim)) {
		in.goPanicStr("makeslice: len out of range")
	}
	if l != c {
		if !in.branch(in.ctx.BAnd(in.ctx.Cmp(OULe, c, lim), in.ctx.Cmp(OULe, l, c))) {
			in.goPanicStr("makeslice: cap out of range")
		}
	}
	if !l.isConst() && l == c {
		mx := l.maxVal()
		if mx > maxAlloc {
			mx = maxAlloc
		}
		fr.regs[ci.dst] = Slice{arr: newArray(int(mx), et, in.zero(et)), ln: int(mx), cp: int(mx), sl: l}
		return
	}
	n := int(in.concretize(l, "make length"))
	k := int(in.concretize(c, "make capacity"))
	fr.regs[ci.dst] = Slice{arr: newArray(k, et, in.zero(et)), ln: n, cp: k}
}

func (in *Interp) slice(fr *frame, x *ssa.Slice, ci *cinstr) {
	base := fr.get(in, &ci.ops[0])
	idx := func(k int, v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return in.toIndex(v.Type(), fr.get(in, &ci.ops[k]))
	}
	lo, hi, mx := idx(1, x.Low), idx(2, x.High), idx(3, x.Max)
	c := in.ctx
	if isString(x.X.Type()) {
		n := strLen(base)
		l, h := 0, n
		if hi != nil {
			if !in.branch(c.Cmp(OULe, hi, c.Const(uint64(n), 64))) {
				in.goPanicStr(fmt.Sprintf("slice bounds out of range [:%s] with length %d", describe(hi, 0), n))
			}
			h = int(in.concretize(hi, "slice bound"))
		}
		if lo != nil {
			if !in.branch(c.Cmp(OULe, lo, c.Const(uint64(h), 64))) {
				in.goPanicStr(fmt.Sprintf("slice bounds out of range [%s:%d]", describe(lo, 0), h))
			}
			l = int(in.concretize(lo, "slice bound"))
		}
		fr.regs[ci.dst] = in.strSlice(base, l, h)
		return
	}
	var s Slice
	switch b := base.(type) {
	case Slice:
		s = b
	case Ptr:
		if b.obj == nil {
			in.goPanicStr("invalid memory address or nil pointer dereference")
		}
		a := b.obj.get(b.idx).(*Array)
		s = Slice{arr: a, ln: a.n, cp: a.n}
	default:
		in.unsupported("Slice of %T", base)
	}
	if s.sl != nil {
		// b[:k] of a symbolic-length slice: bounds against the symbolic length
		if lo == nil && mx == nil && hi != nil {
			if !in.branch(c.Cmp(OULe, hi, s.sl)) {
				in.goPanicStr("slice bounds out of range")
			}
			h := int(in.concretize(hi, "slice bound"))
			fr.regs[ci.dst] = Slice{arr: s.arr, off: s.off, ln: h, cp: s.cp}
			return
		}
		if lo == nil && hi == nil && mx == nil {
			fr.regs[ci.dst] = s
			return
		}
		in.fixLen(&s)
	}
	l, h, m := 0, s.ln, s.cp
	if mx != nil {
		if !in.branch(c.Cmp(OULe, mx, c.Const(uint64(s.cp), 64))) {
			in.goPanicStr("slice bounds out of range [::x] with capacity")
		}
		m = int(in.concretize(mx, "slice bound"))
	}
	if hi != nil {
		if !in.branch(c.Cmp(OULe, hi, c.Const(uint64(m), 64))) {
			in.goPanicStr(fmt.Sprintf("slice bounds out of range [:%s] with capacity %d", describe(hi, 0), m))
		}
		h = int(in.concretize(hi, "slice bound"))
	}
	if lo != nil {
		if !in.branch(c.Cmp(OULe, lo, c.Const(uint64(h), 64))) {
			in.goPanicStr(fmt.Sprintf("slice bounds out of range [%s:%d]", describe(lo, 0), h))
		}
		l = int(in.concretize(lo, "slice bound"))
	}
	if s.arr == nil {
		fr.regs[ci.dst] = Slice{}
		return
	}
	fr.regs[ci.dst] = Slice{arr: s.arr, off: s.off + l, ln: h - l, cp: m - l}
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.t, it)
		} else {
			ok = types.Identical(v.t, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if types.IsInterface(x.AssertedType) {
			r = v
		} else {
			r = copyVal(v.v)
		}
	} else {
		if !x.CommaOk {
			in.goPanicStr(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, x.AssertedType))
		}
		r = in.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, in.ctx.Bool(ok)}
	}
	return r
}

func (in *Interp) load(fr *frame, p Ptr, ci *cinstr) Value {
	if p.obj == nil {
		in.goPanicStr("invalid memory address or nil pointer dereference")
	}
	if in.schedAll || in.shared != nil {
		in.memAccess(fr, p, false, ci)
	}
	return copyVal(p.obj.get(p.idx))
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, ci *cinstr) Value {
	v := fr.get(in, &ci.a)
	switch x.Op {
	case token.MUL:
		return in.load(fr, v.(Ptr), ci)
	case token.NOT:
		return in.ctx.BNot(v.(*Term))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return in.ctx.Neg(t)
		case float64:
			return -t
		case complex128:
			return -t
		}
	case token.XOR:
		return in.ctx.Not(v.(*Term))
	case token.ARROW:
		ch := v.(*ChanObj)
		r, ok := in.chanRecv(fr.g, ch, x)
		if x.CommaOk {
			return Tuple{r, in.ctx.Bool(ok)}
		}
		return r
	}
	in.unsupported("unop %v on %T", x.Op, v)
	return nil
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, ci *cinstr, a, b Value) Value {
	c := in.ctx
	switch op {
	case token.EQL:
		return in.eqVals(xt, yt, a, b)
	case token.NEQ:
		return c.BNot(in.eqVals(xt, yt, a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, x, y)
		case token.SUB:
			return c.Bin(OSub, x, y)
		case token.MUL:
			return c.Bin(OMul, x, y)
		case token.QUO, token.REM:
			if !in.branch(c.BNot(c.Eq(y, c.Const(0, y.w)))) {
				in.goPanicStr("integer divide by zero")
			}
			switch {
			case op == token.QUO && ci.sg:
				return c.Bin(OSDiv, x, y)
			case op == token.QUO:
				return c.Bin(OUDiv, x, y)
			case ci.sg:
				return c.Bin(OSRem, x, y)
			}
			return c.Bin(OURem, x, y)
		case token.AND:
			if x.w == 0 {
				return c.BAnd(x, y)
			}
			return c.Bin(OAnd, x, y)
		case token.OR:
			if x.w == 0 {
				return c.BOr(x, y)
			}
			return c.Bin(OOr, x, y)
		case token.XOR:
			return c.Bin(OXor, x, y)
		case token.AND_NOT:
			return c.Bin(OAnd, x, c.Not(y))
		case token.SHL, token.SHR:
			return in.shift(op, x, y, ci.sg, yt)
		case token.LSS:
			if ci.sg {
				return c.Cmp(OSLt, x, y)
			}
			return c.Cmp(OULt, x, y)
		case token.LEQ:
			if ci.sg {
				return c.Cmp(OSLe, x, y)
			}
			return c.Cmp(OULe, x, y)
		case token.GTR:
			if ci.sg {
				return c.Cmp(OSLt, y, x)
			}
			return c.Cmp(OULt, y, x)
		case token.GEQ:
			if ci.sg {
				return c.Cmp(OSLe, y, x)
			}
			return c.Cmp(OULe, y, x)
		}
	case float64:
		y := b.(float64)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return c.Bool(x < y)
		case token.LEQ:
			return c.Bool(x <= y)
		case token.GTR:
			return c.Bool(x > y)
		case token.GEQ:
			return c.Bool(x >= y)
		}
	case string, *SymStr:
		switch op {
		case token.ADD:
			return in.strCat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return c.BNot(in.strLess(b, a))
		case token.GEQ:
			return c.BNot(in.strLess(a, b))
		}
	}
	in.unsupported("binop %v on %T", op, a)
	return nil
}

func (in *Interp) eqVals(xt, yt types.Type, a, b Value) *Term {
	_, ai := a.(Iface)
	_, bi := b.(Iface)
	if ai != bi {
		// comparison of interface with concrete value
		if ai {
			b = Iface{yt, b}
		} else {
			a = Iface{xt, a}
		}
		return in.equal(nil, a, b)
	}
	return in.equal(xt, a, b)
}

func (in *Interp) shift(op token.Token, x, y *Term, signed bool, yt types.Type) Value {
	c := in.ctx
	_, ysg, _ := intInfo(yt)
	if ysg {
		if !in.branch(c.Cmp(OSLe, c.Const(0, y.w), y)) {
			in.goPanicStr("negative shift amount")
		}
	}
	// bring the count to x's width, saturating
	var cnt *Term
	if y.w <= x.w {
		cnt = c.ZExt(y, x.w)
	} else {
		big := c.BNot(c.Cmp(OULt, y, c.Const(uint64(x.w), y.w)))
		cnt = c.Ite(big, c.Const(uint64(x.w), x.w), c.Extract(x.w-1, 0, y))
	}
	switch {
	case op == token.SHL:
		return c.Bin(OShl, x, cnt)
	case signed:
		return c.Bin(OAShr, x, cnt)
	}
	return c.Bin(OLShr, x, cnt)
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if w, _, ok := intInfo(ut); ok {
		switch x := v.(type) {
		case *Term:
			_, sg, _ := intInfo(uf)
			return in.ctx.Resize(x, sg, w)
		case float64:
			_, sg, _ := intInfo(ut)
			if sg {
				return in.ctx.Const(uint64(int64(x)), w)
			}
			return in.ctx.Const(uint64(x), w)
		case Ptr:
			if x.obj == nil {
				return in.ctx.Const(0, w)
			}
			in.unsupported("pointer to integer conversion")
		}
	}
	if isFloat(ut) {
		switch x := v.(type) {
		case float64:
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		case *Term:
			_, sg, _ := intInfo(uf)
			n := in.concretize(x, "float conversion")
			if sg {
				return float64(sext64(n, x.w))
			}
			return float64(n)
		}
	}
	if isString(ut) {
		switch x := v.(type) {
		case string, *SymStr:
			return x
		case *Term:
			n := in.concretize(x, "rune to string conversion")
			_, sg, _ := intInfo(uf)
			r := int64(n)
			if sg {
				r = sext64(n, x.w)
			}
			if r < 0 || r > math.MaxInt32 {
				r = 0xFFFD
			}
			return string(rune(r))
		case Slice:
			in.fixLen(&x)
			st := uf.(*types.Slice)
			if w, _, _ := intInfo(st.Elem()); w == 32 {
				rs := make([]rune, x.ln)
				for i := range rs {
					rs[i] = rune(in.concretize(x.arr.get(x.off+i).(*Term), "rune"))
				}
				return string(rs)
			}
			b := make([]*Term, x.ln)
			for i := range b {
				b[i] = x.arr.get(x.off + i).(*Term)
			}
			return in.mkStr(b)
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		switch v.(type) {
		case string, *SymStr:
			if w, _, _ := intInfo(st.Elem()); w == 32 {
				s, ok := v.(string)
				if !ok {
					in.unsupported("[]rune of symbolic string")
				}
				rs := []rune(s)
				a := newArray(len(rs), st.Elem(), in.ctx.Const(0, 32))
				for i, r := range rs {
					a.set(i, in.ctx.Const(uint64(uint32(r)), 32))
				}
				return Slice{arr: a, ln: len(rs), cp: len(rs)}
			}
			return in.bytesToSlice(in.strBytes(v), st.Elem())
		case Slice:
			return v
		}
	}
	switch ut.(type) {
	case *types.Pointer, *types.Basic, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		if x, ok := v.(*Term); ok && x.isConst() && x.val == 0 {
			return Ptr{}
		}
		return v
	}
	in.unsupported("conversion %v -> %v", from, to)
	return nil
}

func (in *Interp) bytesToSlice(b []*Term, et types.Type) Slice {
	if et == nil {
		et = types.Typ[types.Uint8]
	}
	a := newArray(len(b), et, in.ctx.small[8][0])
	for i, t := range b {
		a.set(i, t)
	}
	return Slice{arr: a, ln: len(b), cp: len(b)}
}

func (in *Interp) sliceBytes(s Slice) []*Term {
	in.fixLen(&s)
	b := make([]*Term, s.ln)
	for i := range b {
		b[i] = s.arr.get(s.off + i).(*Term)
	}
	return b
}

// ---- range

type rangeIter struct {
	m    *MapObj
	s    Value
	pos  int
	keys []int
}

func (in *Interp) newIter(v Value) *rangeIter {
	switch x := v.(type) {
	case *MapObj:
		it := &rangeIter{m: x}
		if x != nil {
			for i := range x.keys {
				if x.live[i] {
					it.keys = append(it.keys, i)
				}
			}
		}
		return it
	case string, *SymStr:
		return &rangeIter{s: x}
	}
	in.unsupported("range over %T", v)
	return nil
}

func (in *Interp) iterNext(fr *frame, x *ssa.Next, it *rangeIter) Value {
	c := in.ctx
	if x.IsString {
		n := strLen(it.s)
		if it.pos >= n {
			return Tuple{c.False, c.Const(0, 64), c.Const(0, 32)}
		}
		p := it.pos
		b := in.strIndex(it.s, p)
		if in.branch(c.Cmp(OULt, b, c.Const(0x80, 8))) {
			it.pos++
			return Tuple{c.True, c.Const(uint64(p), 64), c.ZExt(b, 32)}
		}
		f := in.prog.stdFunc("unicode/utf8", "DecodeRuneInString")
		if f == nil {
			in.unsupported("range over non-ASCII string")
		}
		t := in.call(fr, f, []Value{in.strSlice(it.s, p, n)}, nil).(Tuple)
		it.pos += int(in.concretize(t[1].(*Term), "rune width"))
		return Tuple{c.True, c.Const(uint64(p), 64), t[0]}
	}
	tt := x.Type().(*types.Tuple)
	in.mapAccess(fr, it.m, false, x)
	for it.pos < len(it.keys) {
		i := it.keys[it.pos]
		it.pos++
		if !it.m.live[i] {
			continue
		}
		return Tuple{c.True, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
	}
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return in.zero(t)
	}
	return Tuple{c.False, z(1), z(2)}
}

// ---- builtins

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := in.ctx
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return c.Const(uint64(strLen(x)), 64)
		case Slice:
			return in.lenTerm(x)
		case *MapObj:
			if x == nil {
				return c.Const(0, 64)
			}
			return c.Const(uint64(x.n), 64)
		case *ChanObj:
			if x == nil {
				return c.Const(0, 64)
			}
			return c.Const(uint64(x.length()), 64)
		case *Array:
			return c.Const(uint64(x.n), 64)
		case Ptr:
			return c.Const(uint64(x.obj.get(x.idx).(*Array).n), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			if x.sl != nil {
				return x.sl
			}
			return c.Const(uint64(x.cp), 64)
		case *ChanObj:
			if x == nil {
				return c.Const(0, 64)
			}
			return c.Const(uint64(x.cap), 64)
		case *Array:
			return c.Const(uint64(x.n), 64)
		case Ptr:
			return c.Const(uint64(x.obj.get(x.idx).(*Array).n), 64)
		}
	case "append":
		in.sliceAccess(fr, args)
		return in.doAppend(args, cc)
	case "copy":
		in.sliceAccess(fr, args)
		return c.Const(uint64(in.doCopy(args[0].(Slice), args[1])), 64)
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			in.mapAccess(fr, m, true, in.callIns(fr))
			in.mapDelete(m, args[1])
		}
		return nil
	case "close":
		in.chanClose(fr.g, args[0].(*ChanObj))
		return nil
	case "panic":
		in.goPanic(args[0])
	case "recover":
		return in.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = in.minmax(b.Name() == "min", b, r, a, cc)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				in.mapAccess(fr, x, true, in.callIns(fr))
				*x = *newMap()
			}
		case Slice:
			in.fixLen(&x)
			for i := 0; i < x.ln; i++ {
				x.arr.set(x.off+i, copyVal(x.arr.zero))
			}
		}
		return nil
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p.obj == nil {
			in.goPanicStr("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(in.concretize(args[1].(*Term), "unsafe.String length"))
		if n == 0 {
			return ""
		}
		a, ok := p.obj.(*Array)
		if !ok {
			in.unsupported("unsafe.String on %T", p.obj)
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = a.get(p.idx + i).(*Term)
		}
		return in.mkStr(bs)
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			return Ptr{}
		}
		return Ptr{s.arr, s.off}
	case "StringData":
		s := in.bytesToSlice(in.strBytes(args[0]), nil)
		return Ptr{s.arr, 0}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := int(in.concretize(args[1].(*Term), "unsafe.Slice length"))
		if a, ok := p.obj.(*Array); ok {
			return Slice{arr: a, off: p.idx, ln: n, cp: n}
		}
		if n == 0 {
			return Slice{}
		}
		in.unsupported("unsafe.Slice on %T", p.obj)
	}
	in.unsupported("builtin %s", b.Name())
	return nil
}

func (in *Interp) minmax(isMin bool, b *ssa.Builtin, x, y Value, cc *ssa.CallCommon) Value {
	switch a := x.(type) {
	case *Term:
		var sg bool
		if cc != nil {
			_, sg, _ = intInfo(cc.Args[0].Type())
		}
		op := OULt
		if sg {
			op = OSLt
		}
		lt := in.ctx.Cmp(op, a, y.(*Term))
		if isMin {
			return in.ctx.Ite(lt, a, y.(*Term))
		}
		return in.ctx.Ite(lt, y.(*Term), a)
	case float64:
		if isMin {
			return math.Min(a, y.(float64))
		}
		return math.Max(a, y.(float64))
	}
	in.unsupported("min/max of %T", x)
	return nil
}

func (in *Interp) doRecover(fr *frame) Value {
	// recover is effective when called by a deferred function run directly
	// by a panicking frame.
	if c := fr.caller; c != nil && c.panicking {
		c.panicking = false
		return c.panicv.v
	}
	return Iface{}
}

func (in *Interp) doAppend(args []Value, cc *ssa.CallCommon) Value {
	s := args[0].(Slice)
	in.fixLen(&s)
	var add []Value
	var src Slice
	useSrc := false
	switch y := args[1].(type) {
	case string, *SymStr:
		for _, t := range in.strBytes(y) {
			add = append(add, t)
		}
	case Slice:
		in.fixLen(&y)
		src = y
		useSrc = true
	}
	n := len(add)
	if useSrc {
		n = src.ln
	}
	if n == 0 {
		return s
	}
	if s.ln+n > s.cp {
		et := types.Type(types.Typ[types.Uint8])
		if cc != nil {
			et = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		} else if s.arr != nil {
			et = s.arr.et
		} else if src.arr != nil {
			et = src.arr.et
		}
		nc := s.cp * 2
		if s.cp > 256 {
			nc = s.cp + (s.cp+3*256)/4
		}
		if nc < s.ln+n {
			nc = s.ln + n
		}
		if nc < 8 {
			nc = 8
		}
		na := newArray(nc, et, in.zero(et))
		if s.arr != nil {
			copyCells(na, 0, s.arr, s.off, s.ln)
		}
		s = Slice{arr: na, off: 0, ln: s.ln, cp: nc}
	}
	if useSrc {
		copyCells(s.arr, s.off+s.ln, src.arr, src.off, n)
	} else {
		for i, v := range add {
			s.arr.set(s.off+s.ln+i, v)
		}
	}
	s.ln += n
	return s
}

// copyCells has memmove semantics.
func copyCells(dst *Array, d int, src *Array, s, n int) {
	if n == 0 {
		return
	}
	if !dst.agg && dst != src {
		for i := 0; i < n; {
			// skip regions that are untouched on both sides
			sc := src.chunk((s + i) / chunkSz)
			if sc == nil && dst.chunk((d+i)/chunkSz) == nil {
				k := chunkSz - (s+i)%chunkSz
				if k2 := chunkSz - (d+i)%chunkSz; k2 < k {
					k = k2
				}
				i += k
				continue
			}
			v := src.get(s + i)
			dst.set(d+i, v)
			i++
		}
		return
	}
	if dst == src && d > s {
		for i := n - 1; i >= 0; i-- {
			assign(Ptr{dst, d + i}, copyVal(src.get(s+i)))
		}
		return
	}
	for i := 0; i < n; i++ {
		if dst.agg {
			assign(Ptr{dst, d + i}, copyVal(src.get(s+i)))
		} else {
			dst.set(d+i, src.get(s+i))
		}
	}
}

func (in *Interp) doCopy(dst Slice, srcv Value) int {
	switch src := srcv.(type) {
	case string, *SymStr:
		in.fixLen(&dst)
		b := in.strBytes(src)
		n := dst.ln
		if len(b) < n {
			n = len(b)
		}
		for i := 0; i < n; i++ {
			dst.arr.set(dst.off+i, b[i])
		}
		return n
	case Slice:
		in.fixLen(&src)
		n := src.ln
		if dst.sl != nil {
			// copying into a symbolic-length destination: is it long enough?
			if in.branch(in.ctx.Cmp(OULe, in.ctx.Const(uint64(n), 64), dst.sl)) {
				copyCells(dst.arr, dst.off, src.arr, src.off, n)
				return n
			}
			in.fixLen(&dst)
		}
		if dst.ln < n {
			n = dst.ln
		}
		if n > 0 {
			copyCells(dst.arr, dst.off, src.arr, src.off, n)
		}
		return n
	}
	in.unsupported("copy from %T", srcv)
	return 0
}
