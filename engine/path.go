package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	c      int32 // chosen alternative
	forced bool
	v      uint64 // payload (value for concretisation)
}

type workItem struct {
	prefix []Dec
	model  Model
}

type endKind int

const (
	endOK endKind = iota
	endAssume
	endIncomplete
	endViolation
	endKilled
)

type pathEnd struct {
	kind  endKind
	msg   string
	vkind string
}

type assertion struct {
	cond *Term
	msg  string
}

type nondetRec struct {
	Name string
	T    *Term
}

// Violation is a candidate counterexample found by the solver.
type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic, deadlock, fatal
	Msg     string            `json:"msg"`
	Values  map[string]uint64 `json:"values"`
	Order   []string          `json:"order"`
	Sched   []string          `json:"schedule,omitempty"`
	Notes   []string          `json:"notes,omitempty"`
	Multi   bool              `json:"multi_goroutine,omitempty"`
	Prefix  []Dec             `json:"-"`
}

// Sample is a completed path with concrete inputs that take it.
type Sample struct {
	Values map[string]uint64
	Order  []string
	Covers []string
	Multi  bool
}

// Explorer owns the work queue of one harness.
type Explorer struct {
	prog    *Program
	harness string
	fn      *ssa.Function
	opt     Options

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	active   int
	stopped  bool
	deadline time.Time

	Paths      int64
	Completed  int64
	Assumed    int64
	Incomplete map[string]int
	Violations []*Violation
	Covers     map[string]int64
	Steps      int64
	Queries    int64
	NSat       int64
	NUnsat     int64
	NUnknown   int64
	SolverTime time.Duration
	SolverErrs []string
	Asserts    int64 // assertions evaluated
	AssertQ    int64 // assertion batches sent to the solver
	AssertTriv int64 // assertions that rewrote to true
	Funcs      map[string]bool
	Truncated  bool
	MaxDecs    int
	Bounds     map[string]bool
	Samples    []*Sample
	Cross      int64
	CrossBad   []string

	racy, newRacy map[ssa.Instruction]bool // plain accesses that are scheduling points
	Rounds        int
}

type Options struct {
	Workers    int
	MaxPaths   int64
	MaxSteps   int64
	Timeout    time.Duration
	SolverBin  string
	SolverArgs []string
	StopFirst  bool
	CrossBin   string
	CrossArgs  []string
	MaxViol    int
	Trace      bool
	Config     map[string]int64
}

func (e *Explorer) push(w workItem) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped {
			return workItem{}, false
		}
		if len(e.queue) > 0 {
			if time.Now().After(e.deadline) || (e.opt.MaxPaths > 0 && e.Paths >= e.opt.MaxPaths) {
				e.Truncated = true
				e.stopped = true
				e.cond.Broadcast()
				return workItem{}, false
			}
			w := e.queue[len(e.queue)-1]
			e.queue = e.queue[:len(e.queue)-1]
			e.active++
			e.Paths++
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

// Explore runs all paths of the harness.
func (p *Program) Explore(harness string, fn *ssa.Function, opt Options) *Explorer {
	racy := map[ssa.Instruction]bool{}
	end := time.Now().Add(opt.Timeout)
	for round := 1; ; round++ {
		e := p.explore(harness, fn, opt, racy, end)
		e.Rounds = round
		if len(e.newRacy) == 0 || len(e.Violations) > 0 {
			return e
		}
		if time.Now().After(end) {
			e.Truncated = true
			return e
		}
		for i := range e.newRacy {
			racy[i] = true
			if opt.Trace {
				fmt.Println("  racy:", p.pos(i), i)
			}
		}
	}
}

func (p *Program) explore(harness string, fn *ssa.Function, opt Options, racy map[ssa.Instruction]bool, end time.Time) *Explorer {
	e := &Explorer{prog: p, harness: harness, fn: fn, opt: opt, racy: racy, newRacy: map[ssa.Instruction]bool{},
		Incomplete: map[string]int{}, Covers: map[string]int64{}, Funcs: map[string]bool{}, Bounds: map[string]bool{}}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = end
	e.queue = []workItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	if len(e.queue) > 0 && !e.stopped {
		e.Truncated = true
	}
	return e
}

func (e *Explorer) worker() {
	var in *Interp
	defer func() {
		if in != nil {
			e.retire(in)
		}
	}()
	for {
		w, ok := e.pop()
		if !ok {
			return
		}
		if in != nil && in.ctx.nextID > 3000000 {
			e.retire(in)
			in = nil
		}
		if in == nil {
			in = NewInterp(e)
		}
		in.runPath(w)
		e.done()
	}
}

func (e *Explorer) retire(in *Interp) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Queries += in.solver.Queries
	e.NSat += in.solver.NSat
	e.NUnsat += in.solver.NUnsat
	e.NUnknown += in.solver.NUnknown
	e.SolverTime += in.solver.Time
	e.SolverErrs = append(e.SolverErrs, in.solver.Errors...)
	for f := range in.compiled {
		e.Funcs[f.String()] = true
	}
	in.solver.Close()
	if in.cross != nil {
		in.cross.Close()
	}
}

// ---- decisions

func (in *Interp) pushPC(t *Term) {
	if t.isConst() {
		if t.val == 0 {
			panic(pathEnd{kind: endIncomplete, msg: "internal: false path condition"})
		}
		return
	}
	if in.known[t] {
		return
	}
	in.pc = append(in.pc, t)
	in.known[t] = true
}

func (in *Interp) record(d Dec) { in.trace = append(in.trace, d) }

func (in *Interp) fork(d Dec, m Model) {
	p := make([]Dec, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.ex.push(workItem{prefix: p, model: m})
}

// check decides pc ∧ t.
func (in *Interp) check(t *Term) (SatRes, Model) {
	if time.Now().After(in.ex.deadline) {
		panic(pathEnd{kind: endIncomplete, msg: "time ran out"})
	}
	return in.solver.Check(in.pc, t)
}

// branch decides a symbolic condition, forking when both sides are feasible.
func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if in.known[c] {
		return true
	}
	nc := in.ctx.BNot(c)
	if in.known[nc] {
		return false
	}
	if len(in.trace) < len(in.prefix) {
		d := in.prefix[len(in.trace)]
		in.record(d)
		if d.c == 1 {
			if d.forced {
				in.known[c] = true
			} else {
				in.pushPC(c)
			}
			return true
		}
		if d.forced {
			in.known[nc] = true
		} else {
			in.pushPC(nc)
		}
		return false
	}
	side := in.ctx.Eval(c, in.model) == 1
	mine, other := c, nc
	if !side {
		mine, other = nc, c
	}
	res, m := in.check(other)
	b2i := func(b bool) int32 {
		if b {
			return 1
		}
		return 0
	}
	if res == Unsat {
		in.record(Dec{c: b2i(side), forced: true})
		in.known[mine] = true
		return side
	}
	if res == Unknown {
		in.noteIncomplete("solver answered unknown on a branch condition")
		in.record(Dec{c: b2i(side), forced: true})
		in.pushPC(mine)
		return side
	}
	in.fork(Dec{c: b2i(!side)}, m)
	in.record(Dec{c: b2i(side)})
	in.pushPC(mine)
	return side
}

// assume adds a condition, ending the path when infeasible.
func (in *Interp) assume(c *Term) {
	if len(in.trace) < len(in.prefix) {
		// these assertions were decided under the same path condition by the
		// path this one forked from
		in.asserts = nil
	} else {
		in.flushAsserts()
	}
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{kind: endAssume})
		}
		return
	}
	if in.known[c] {
		return
	}
	replaying := len(in.trace) < len(in.prefix)
	if replaying {
		in.record(in.prefix[len(in.trace)])
		in.pushPC(c)
		return
	}
	if in.ctx.Eval(c, in.model) != 1 {
		res, m := in.check(c)
		if res == Unsat {
			panic(pathEnd{kind: endAssume})
		}
		if res == Unknown {
			panic(pathEnd{kind: endIncomplete, msg: "solver answered unknown on an assumption"})
		}
		in.model = m
	}
	in.record(Dec{c: 1})
	in.pushPC(c)
}

// choose is an n-way choice made by a fresh symbolic variable.
func (in *Interp) choose(name string, n int) int {
	if n <= 0 {
		panic(pathEnd{kind: endAssume})
	}
	v := in.freshVar(name, 16)
	var c int
	if len(in.trace) < len(in.prefix) {
		d := in.prefix[len(in.trace)]
		in.record(d)
		c = int(d.c)
	} else {
		for i := n - 1; i > 0; i-- {
			m := make(Model, len(in.model)+1)
			for k, x := range in.model {
				m[k] = x
			}
			m[v.name] = uint64(i)
			in.fork(Dec{c: int32(i)}, m)
		}
		in.record(Dec{c: 0})
		c = 0
		if in.model == nil {
			in.model = Model{}
		}
		in.model[v.name] = 0
	}
	in.pushPC(in.ctx.Eq(v, in.ctx.Const(uint64(c), 16)))
	return c
}

// concretize enumerates the feasible values of t (each its own path).
func (in *Interp) concretize(t *Term, what string) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.val
		}
		if n > 4096 {
			panic(pathEnd{kind: endIncomplete, msg: "too many values for " + what})
		}
		if len(in.trace) < len(in.prefix) {
			d := in.prefix[len(in.trace)]
			in.record(d)
			eq := in.ctx.Eq(t, in.ctx.Const(d.v, t.w))
			if d.c == 1 {
				in.pushPC(eq)
				return d.v
			}
			in.pushPC(in.ctx.BNot(eq))
			continue
		}
		v := in.ctx.Eval(t, in.model)
		eq := in.ctx.Eq(t, in.ctx.Const(v, t.w))
		if in.known[eq] {
			in.record(Dec{c: 1, v: v, forced: true})
			return v
		}
		res, m := in.check(in.ctx.BNot(eq))
		switch res {
		case Sat:
			in.fork(Dec{c: 0, v: v}, m)
		case Unknown:
			in.noteIncomplete("solver answered unknown while enumerating " + what)
		}
		in.record(Dec{c: 1, v: v})
		in.pushPC(eq)
		return v
	}
}

func (in *Interp) noteIncomplete(msg string) {
	in.ex.mu.Lock()
	in.ex.Incomplete[msg]++
	in.ex.mu.Unlock()
}

func (in *Interp) freshVar(name string, w uint8) *Term {
	k := in.seq[name]
	in.seq[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	if w != 8 {
		full = fmt.Sprintf("%s#%d:%d", name, k, w)
	}
	t := in.ctx.Var(full, w)
	in.nondet = append(in.nondet, nondetRec{fmt.Sprintf("%s#%d", name, k), t})
	return t
}

func (in *Interp) assertCond(c *Term, msg string) {
	in.nAsserts++
	if c.isConst() {
		if c.val == 1 {
			in.nTriv++
			return
		}
		// definitely false on this path
		in.asserts = append(in.asserts, assertion{c, msg})
		in.flushAsserts()
		return
	}
	in.asserts = append(in.asserts, assertion{c, msg})
	if len(in.trace) >= len(in.prefix) && in.ctx.Eval(c, in.model) == 0 {
		in.flushAsserts()
	}
}

// flushAsserts asks the solver whether any pending assertion can fail.
func (in *Interp) flushAsserts() {
	if len(in.asserts) == 0 {
		return
	}
	as := in.asserts
	in.asserts = nil
	conj := in.ctx.True
	for _, a := range as {
		conj = in.ctx.BAnd(conj, a.cond)
	}
	neg := in.ctx.BNot(conj)
	in.nAssertQ++
	var res SatRes
	var m Model
	if neg.isConst() && neg.val == 0 {
		res = Unsat
	} else if neg.isConst() {
		res, m = in.check(nil)
	} else {
		res, m = in.check(neg)
	}
	if in.cross != nil && !neg.isConst() {
		r2, _ := in.cross.Check(in.pc, neg)
		in.nCross++
		if r2 != res && r2 != Unknown && res != Unknown {
			in.crossBad = append(in.crossBad, fmt.Sprintf("solvers disagree on assertion %q: %v vs %v", as[0].msg, res, r2))
		}
	}
	switch res {
	case Unsat:
		return
	case Unknown:
		in.noteIncomplete("solver answered unknown on an assertion: " + as[0].msg)
		return
	}
	for _, a := range as {
		if in.ctx.Eval(a.cond, m) == 0 {
			in.model = m
			panic(pathEnd{kind: endViolation, msg: a.msg, vkind: "assert"})
		}
	}
	panic(pathEnd{kind: endIncomplete, msg: "internal: model does not falsify any assertion"})
}

func (in *Interp) makeViolation(pe pathEnd) *Violation {
	v := &Violation{Harness: in.ex.harness, Kind: pe.vkind, Msg: pe.msg, Values: map[string]uint64{}}
	in.ctx.gen++
	for _, n := range in.nondet {
		x := in.ctx.eval(n.T, in.model)
		v.Values[n.Name] = x
		v.Order = append(v.Order, n.Name)
	}
	v.Sched = append([]string(nil), in.schedLog...)
	v.Notes = append([]string(nil), in.notes...)
	v.Multi = in.multi
	return v
}

// runPath executes one path from the start following w.prefix.
func (in *Interp) runPath(w workItem) {
	in.reset()
	in.prefix = w.prefix
	in.model = w.model
	if in.model == nil {
		in.model = Model{}
	} else {
		m := make(Model, len(in.model))
		for k, v := range in.model {
			m[k] = v
		}
		in.model = m
	}
	end := in.execMain()
	e := in.ex
	// Pending assertions are decided under the full path condition.
	if end.kind == endOK || end.kind == endIncomplete || (end.kind == endViolation && end.vkind != "assert") {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						end = pe
						return
					}
					panic(r)
				}
			}()
			in.flushAsserts()
		}()
	}
	if end.kind == endViolation && end.vkind != "assert" {
		// a panic or deadlock: make sure the path condition has a model
		if in.ctx.evalAll(in.pc, in.model) == false {
			res, m := in.check(nil)
			if res == Sat {
				in.model = m
			} else {
				end = pathEnd{kind: endIncomplete, msg: "internal: violation on infeasible path"}
			}
		}
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Steps += in.steps
	e.Asserts += in.nAsserts
	e.AssertQ += in.nAssertQ
	e.AssertTriv += in.nTriv
	e.Cross += in.nCross
	e.CrossBad = append(e.CrossBad, in.crossBad...)
	if len(in.trace) > e.MaxDecs {
		e.MaxDecs = len(in.trace)
	}
	for b := range in.bounds {
		e.Bounds[b] = true
	}
	switch end.kind {
	case endOK:
		e.Completed++
		for c := range in.covers {
			e.Covers[c]++
		}
		if len(e.Samples) < 16 && (e.Completed%17 == 1) && in.ctx.evalAll(in.pc, in.model) {
			s := &Sample{Values: map[string]uint64{}, Covers: sortedKeys(in.covers), Multi: in.multi}
			in.ctx.gen++
			for _, n := range in.nondet {
				s.Values[n.Name] = in.ctx.eval(n.T, in.model)
				s.Order = append(s.Order, n.Name)
			}
			e.Samples = append(e.Samples, s)
		}
	case endAssume:
		e.Assumed++
	case endIncomplete:
		e.Incomplete[end.msg]++
	case endViolation:
		v := in.makeViolation(end)
		dup := false
		for _, o := range e.Violations {
			if o.Kind == v.Kind && o.Msg == v.Msg {
				dup = true
			}
		}
		if !dup {
			e.Violations = append(e.Violations, v)
		}
		if d := time.Now().Add(15 * time.Second); d.Before(e.deadline) {
			e.deadline = d
		}
		if e.opt.StopFirst || len(e.Violations) >= e.opt.MaxViol {
			e.stopped = true
			e.cond.Broadcast()
		}
	}
}

func (c *Ctx) evalAll(ts []*Term, m Model) bool {
	c.gen++
	for _, t := range ts {
		if c.eval(t, m) == 0 {
			return false
		}
	}
	return true
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
