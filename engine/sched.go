package main

import (
	"fmt"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind int

const (
	opStart opKind = iota
	opMem
	opSend
	opRecv
	opClose
	opSelect
	opLock
	opWait
	opQuiesce
	opYield
)

var opNames = []string{"start", "mem", "send", "recv", "close", "select", "lock", "wait", "quiesce", "yield"}

type memKey struct {
	obj Container
	idx int
}

type pendOp struct {
	kind   opKind
	objs   []interface{}
	write  bool
	en     func() bool
	ch     *ChanObj
	val    Value
	cases  []selCase
	hasDef bool
	done   bool // completed by the partner of a rendezvous
	got    Value
	ok     bool
	selIdx int
	first  bool // of those that wait for all others to block
}

type selCase struct {
	ch   *ChanObj
	send bool
	val  Value
}

type sleepEnt struct {
	gid int
	op  *pendOp
}

// Gor is an interpreted goroutine.
type Gor struct {
	id     int
	fr     *frame
	wake   chan struct{}
	pend   *pendOp
	exited bool
	name   string
	atomic int           // depth of atomic sections of the environment
	aobjs  []interface{} // what the section stands for
	vc     vclock
}

type mutexState struct {
	w int // writer holds
	r int // readers
}

func dependent(a, b *pendOp) bool {
	for _, x := range a.objs {
		for _, y := range b.objs {
			if x == y && (a.write || b.write) {
				// a send and a receive on a buffer that is neither empty nor full commute
				if ch, ok := x.(*ChanObj); ok && ch.cap > 0 && !ch.closed && ch.length() > 0 && ch.length() < ch.cap &&
					(a.onlySends(ch) && b.onlyReceives(ch) || b.onlySends(ch) && a.onlyReceives(ch)) {
					continue
				}
				return true
			}
		}
	}
	return false
}

func (p *pendOp) onlySends(ch *ChanObj) bool { return p.kind == opSend && p.ch == ch }

func (p *pendOp) onlyReceives(ch *ChanObj) bool {
	if p.kind == opRecv {
		return p.ch == ch
	}
	if p.kind != opSelect {
		return false
	}
	for _, c := range p.cases {
		if c.ch == ch && c.send {
			return false
		}
	}
	return true
}

func (in *Interp) newGor(name string) *Gor {
	g := &Gor{id: len(in.gors), wake: make(chan struct{}, 1), name: name}
	in.gors = append(in.gors, g)
	return g
}

// execMain runs the harness function as goroutine 0 and returns how the path ended.
func (in *Interp) execMain() pathEnd {
	g := in.newGor("main")
	in.cur = g
	in.startGor(g, func() {
		root := &frame{g: g}
		in.ensureInit(in.ex.fn.Pkg)
		in.call(root, in.ex.fn, nil, nil)
		panic(pathEnd{kind: endOK})
	})
	g.wake <- struct{}{}
	pe := <-in.endCh
	in.wg.Wait()
	return pe
}

// startGor launches the carrier of an interpreted goroutine; it runs once woken.
func (in *Interp) startGor(g *Gor, body func()) {
	in.wg.Add(1)
	go func() {
		defer in.wg.Done()
		<-g.wake
		if in.killed {
			return
		}
		defer func() {
			r := recover()
			var pe pathEnd
			switch x := r.(type) {
			case nil:
				// normal exit: hand over the baton
				g.exited = true
				g.pend = nil
				func() {
					defer func() {
						if r := recover(); r != nil {
							if p, ok := r.(pathEnd); ok {
								in.finish(g, p)
								return
							}
							panic(r)
						}
					}()
					n := in.pick(g)
					in.cur = n
					n.wake <- struct{}{}
				}()
				return
			case pathEnd:
				pe = x
			case targetPanic:
				pe = pathEnd{kind: endViolation, vkind: "panic", msg: "panic: " + in.panicText(x.v)}
				in.notes = append(in.notes, "panic at "+x.where)
			default:
				st := string(debug.Stack())
				pe = pathEnd{kind: endIncomplete, msg: fmt.Sprintf("internal error: %v at %s\n%s", r, safeWhere(g), trimStack(st))}
			}
			if pe.kind == endKilled {
				return
			}
			g.exited = true
			in.finish(g, pe)
		}()
		body()
	}()
}

func safeWhere(g *Gor) (s string) {
	defer func() {
		if recover() != nil {
			s = "?"
		}
	}()
	return g.where()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/verif/engine") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (in *Interp) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return describe(v, 1)
	}
	if i.t == nil {
		return "nil"
	}
	s := func() (s string) {
		defer func() {
			if r := recover(); r != nil {
				s = describe(v, 2)
			}
		}()
		return in.fmtOne(nil, 'v', i, 0)
	}()
	return s
}

func (in *Interp) finish(g *Gor, pe pathEnd) {
	if in.ended {
		return
	}
	in.ended = true
	in.killed = true
	for _, o := range in.gors {
		if o != g && !o.exited {
			select {
			case o.wake <- struct{}{}:
			default:
			}
		}
	}
	in.endCh <- pe
}

// ready reports whether a goroutine's pending operation can run.
func (in *Interp) ready(g *Gor) bool {
	p := g.pend
	if p == nil {
		return false
	}
	if p.done {
		return true
	}
	switch p.kind {
	case opStart, opMem, opClose, opYield:
		return true
	case opQuiesce:
		return false
	case opSend:
		return in.canSend(g, p.ch)
	case opRecv:
		return canRecv(p.ch)
	case opSelect:
		if p.hasDef {
			return true
		}
		for i := range p.cases {
			if in.caseReady(g, p, i) {
				return true
			}
		}
		return false
	}
	return p.en == nil || p.en()
}

func (in *Interp) receivers(g *Gor, ch *ChanObj) []*Gor {
	var out []*Gor
	for _, o := range in.gors {
		if o == g || o.exited || o.pend == nil || o.pend.done {
			continue
		}
		switch o.pend.kind {
		case opRecv:
			if o.pend.ch == ch {
				out = append(out, o)
			}
		case opSelect:
			if o.pend.hasDef {
				continue
			}
			for _, c := range o.pend.cases {
				if !c.send && c.ch == ch {
					out = append(out, o)
					break
				}
			}
		}
	}
	return out
}

func (in *Interp) senders(g *Gor, ch *ChanObj) []*Gor {
	var out []*Gor
	for _, o := range in.gors {
		if o == g || o.exited || o.pend == nil || o.pend.done {
			continue
		}
		if o.pend.kind == opSend && o.pend.ch == ch {
			out = append(out, o)
		}
	}
	return out
}

func (in *Interp) canSend(g *Gor, ch *ChanObj) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		return true
	}
	if ch.cap > 0 {
		return ch.length() < ch.cap
	}
	return len(in.receivers(g, ch)) > 0
}

func canRecv(ch *ChanObj) bool {
	if ch == nil {
		return false
	}
	return ch.length() > 0 || ch.closed
}

func (in *Interp) caseReady(g *Gor, p *pendOp, i int) bool {
	c := p.cases[i]
	if c.send {
		return in.canSend(g, c.ch)
	}
	if canRecv(c.ch) {
		return true
	}
	if p.hasDef && c.ch != nil && c.ch.cap == 0 {
		return len(in.senders(g, c.ch)) > 0
	}
	return false
}

// pick selects the goroutine that runs next.
func (in *Interp) pick(cur *Gor) *Gor {
	var en []*Gor
	for _, g := range in.gors {
		if !g.exited && in.ready(g) {
			en = append(en, g)
		}
	}
	if len(en) == 0 {
		for _, g := range in.gors {
			if !g.exited && g.pend != nil && g.pend.kind == opQuiesce && g.pend.first {
				return g
			}
		}
		for _, g := range in.gors {
			if !g.exited && g.pend != nil && g.pend.kind == opQuiesce {
				return g
			}
		}
		var st []string
		for _, g := range in.gors {
			if !g.exited && g.pend != nil {
				st = append(st, fmt.Sprintf("g%d blocked in %s at %s", g.id, opNames[g.pend.kind], safeWhere(g)))
			}
		}
		in.notes = append(in.notes, st...)
		panic(pathEnd{kind: endViolation, vkind: "deadlock", msg: "all goroutines blocked: a call never returns"})
	}
	if !in.schedAll {
		for _, g := range en {
			if g == cur {
				return g
			}
		}
		return en[0]
	}
	for _, g := range en {
		if g.pend.done || g.pend.kind == opStart {
			return g
		}
	}
	curReady := false
	for _, g := range en {
		if g == cur {
			curReady = true
		}
	}
	if in.preempt >= 0 {
		if curReady && in.preempt == 0 {
			return cur
		}
		if curReady {
			// current first so that choice 0 is "no preemption"
			l := []*Gor{cur}
			for _, g := range en {
				if g != cur {
					l = append(l, g)
				}
			}
			en = l
		}
		k := 0
		if len(en) > 1 {
			k = in.choose("sched", len(en))
		}
		if curReady && en[k] != cur {
			in.preempt--
		}
		in.logSched(en[k], len(en))
		return en[k]
	}
	if in.delay >= 0 {
		// the deterministic order from the current goroutine on; each one passed over costs a delay
		var l []*Gor
		for _, g := range en {
			if g.id >= cur.id {
				l = append(l, g)
			}
		}
		for _, g := range en {
			if g.id < cur.id {
				l = append(l, g)
			}
		}
		n := len(l)
		if n > in.delay+1 {
			n = in.delay + 1
		}
		k := 0
		if n > 1 {
			k = in.choose("sched", n)
		}
		in.delay -= k
		in.logSched(l[k], n)
		return l[k]
	}
	var awake []*Gor
	for _, g := range en {
		asleep := false
		for _, s := range in.sleep {
			if s.gid == g.id && s.op == g.pend {
				asleep = true
			}
		}
		if !asleep {
			awake = append(awake, g)
		}
	}
	if len(awake) == 0 {
		panic(pathEnd{kind: endAssume, msg: "redundant interleaving"})
	}
	k := 0
	if len(awake) > 1 {
		k = in.choose("sched", len(awake))
	}
	ch := awake[k]
	var ns []sleepEnt
	for _, s := range in.sleep {
		if !dependent(s.op, ch.pend) {
			ns = append(ns, s)
		}
	}
	for i := 0; i < k; i++ {
		if !dependent(awake[i].pend, ch.pend) {
			ns = append(ns, sleepEnt{awake[i].id, awake[i].pend})
		}
	}
	in.sleep = ns
	in.logSched(ch, len(awake))
	return ch
}

func (in *Interp) logSched(g *Gor, n int) {
	if n > 1 && len(in.schedLog) < 400 {
		name := ""
		line := 0
		if g.fr != nil && g.fr.cf != nil {
			name = g.fr.cf.name
			line = g.fr.cf.fn.Prog.Fset.Position(g.fr.pos).Line
		}
		in.schedLog = append(in.schedLog, fmt.Sprintf("g%d %s %s:%d", g.id, opNames[g.pend.kind], name, line))
	}
}

// visible announces op as g's next visible operation and returns once g is
// scheduled to perform it.
func (in *Interp) visible(g *Gor, op *pendOp) {
	g.pend = op
	if g.atomic > 0 && in.schedAll {
		op.objs = append(append([]interface{}{}, op.objs...), g.aobjs...)
		op.write = true
		if in.ready(g) {
			g.pend = nil
			return
		}
	}
	if !in.schedAll && in.ready(g) {
		g.pend = nil
		return
	}
	n := in.pick(g)
	if n != g {
		in.cur = n
		n.wake <- struct{}{}
		<-g.wake
		if in.killed {
			panic(pathEnd{kind: endKilled})
		}
		in.cur = g
	}
	g.pend = nil
}

func (in *Interp) spawn(g *Gor, f Value, args []Value) {
	n := in.newGor("")
	if c, ok := f.(*Closure); ok && c != nil {
		n.name = c.fn.String()
	}
	n.pend = &pendOp{kind: opStart}
	in.forked(g, n)
	in.startGor(n, func() {
		in.cur = n
		n.pend = nil
		in.callValue(&frame{g: n}, f, args, false)
	})
}

func (in *Interp) chanSend(g *Gor, ch *ChanObj, v Value) {
	op := &pendOp{kind: opSend, ch: ch, val: v, write: true}
	if ch != nil {
		op.objs = []interface{}{ch}
	}
	in.visible(g, op)
	if op.done {
		return
	}
	in.doSend(g, ch, v)
}

func (in *Interp) doSend(g *Gor, ch *ChanObj, v Value) {
	if ch.closed {
		in.goPanic(in.plainError("send on closed channel"))
	}
	if ch.cap > 0 {
		in.sent(g, ch)
		ch.push(v)
		return
	}
	rs := in.receivers(g, ch)
	k := 0
	if in.schedAll && len(rs) > 1 {
		k = in.choose("recvr", len(rs))
	}
	r := rs[k]
	r.pend.got, r.pend.ok = v, true
	if r.pend.kind == opSelect {
		var idx []int
		for i, c := range r.pend.cases {
			if !c.send && c.ch == ch {
				idx = append(idx, i)
			}
		}
		j := 0
		if in.schedAll && len(idx) > 1 {
			j = in.choose("selcase", len(idx))
		}
		r.pend.selIdx = idx[j]
	}
	r.pend.done = true
	in.rendezvous(g, r)
}

func (in *Interp) doRecv(g *Gor, ch *ChanObj) (Value, bool) {
	if ch.length() > 0 {
		in.received(g, ch)
		return ch.pop(), true
	}
	if ch.closed {
		in.acquire(g, ch)
		return copyVal(ch.zero), false
	}
	// non-blocking select taking from a blocked sender
	ss := in.senders(g, ch)
	s := ss[0]
	s.pend.done = true
	in.rendezvous(g, s)
	return s.pend.val, true
}

func (in *Interp) chanRecv(g *Gor, ch *ChanObj, _ *ssa.UnOp) (Value, bool) {
	op := &pendOp{kind: opRecv, ch: ch, write: true}
	if ch != nil {
		op.objs = []interface{}{ch}
	}
	in.visible(g, op)
	if op.done {
		return op.got, op.ok
	}
	return in.doRecv(g, ch)
}

func (in *Interp) chanClose(g *Gor, ch *ChanObj) {
	if ch == nil {
		in.goPanic(in.plainError("close of nil channel"))
	}
	in.visible(g, &pendOp{kind: opClose, ch: ch, write: true, objs: []interface{}{ch}})
	if ch.closed {
		in.goPanic(in.plainError("close of closed channel"))
	}
	in.release(g, ch)
	ch.closed = true
}

func (in *Interp) doSelect(fr *frame, x *ssa.Select, ci *cinstr) {
	op := &pendOp{kind: opSelect, write: true, hasDef: !x.Blocking}
	for i, st := range x.States {
		ch, _ := fr.get(in, &ci.ops[2*i]).(*ChanObj)
		c := selCase{ch: ch, send: st.Send != nil}
		if c.send {
			c.val = copyVal(fr.get(in, &ci.ops[2*i+1]))
		}
		op.cases = append(op.cases, c)
		if ch != nil {
			op.objs = append(op.objs, ch)
		}
	}
	g := fr.g
	in.visible(g, op)
	idx := -1
	var got Value
	gotOK := false
	if op.done {
		idx, got, gotOK = op.selIdx, op.got, op.ok
	} else {
		var rd []int
		for i := range op.cases {
			if in.caseReady(g, op, i) {
				rd = append(rd, i)
			}
		}
		if len(rd) > 0 {
			k := 0
			if in.schedAll && len(rd) > 1 {
				k = in.choose("selcase", len(rd))
			}
			idx = rd[k]
			c := op.cases[idx]
			if c.send {
				in.doSend(g, c.ch, c.val)
			} else {
				got, gotOK = in.doRecv(g, c.ch)
			}
		}
	}
	res := Tuple{in.ctx.Const(uint64(int64(idx)), 64), in.ctx.Bool(gotOK)}
	for i, st := range x.States {
		if st.Send != nil {
			continue
		}
		if i == idx {
			res = append(res, got)
		} else {
			res = append(res, in.zero(elemType(st.Chan.Type())))
		}
	}
	fr.regs[ci.dst] = res
}

func (in *Interp) mutex(p Ptr) *mutexState {
	m := in.mutexes[p]
	if m == nil {
		m = &mutexState{}
		in.mutexes[p] = m
	}
	return m
}

func (in *Interp) lockOp(g *Gor, p Ptr, write bool) {
	if p.obj == nil {
		in.goPanicStr("invalid memory address or nil pointer dereference")
	}
	m := in.mutex(p)
	in.visible(g, &pendOp{kind: opLock, write: write, objs: []interface{}{p}, en: func() bool {
		if write {
			return m.w == 0 && m.r == 0
		}
		return m.w == 0
	}})
	in.acquire(g, p)
	if write {
		m.w = 1
	} else {
		m.r++
	}
}

func (in *Interp) unlockOp(g *Gor, p Ptr, write bool) {
	m := in.mutex(p)
	in.release(g, p)
	// Releasing a lock commutes with whatever others do next: no scheduling point.
	if write {
		if m.w == 0 {
			panic(pathEnd{kind: endViolation, vkind: "fatal", msg: "fatal error: sync: unlock of unlocked mutex"})
		}
		m.w = 0
	} else {
		if m.r == 0 {
			panic(pathEnd{kind: endViolation, vkind: "fatal", msg: "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		m.r--
	}
}
