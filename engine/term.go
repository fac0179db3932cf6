package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Op is an SMT-level operator. Terms with w==0 are Boolean, others are
// bit-vectors of width w (1..64).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bvnot
	ONeg
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OZExt
	OSExt
	OIte
	// Boolean results
	OEq
	OULt
	OULe
	OSLt
	OSLe
	OBNot
	OBAnd
	OBOr
)

var opName = map[Op]string{
	ONot: "bvnot", ONeg: "bvneg", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OConcat: "concat", OIte: "ite", OEq: "=", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OBNot: "not", OBAnd: "and", OBOr: "or",
}

// Term is a hash-consed SMT term, private to one Ctx.
type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	val     uint64
	a, b, c *Term
	name    string
	id      int32

	evGen  int32
	evVal  uint64
	emGen  int32 // solver generation in which it has been defined
	emGen2 int32 // same, for the cross-check solver
}

type tkey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	val     uint64
	a, b, c int32
}

// Ctx owns a term table. One per worker.
type Ctx struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	nextID int32
	small  [65][]*Term // constants < 512 per width
	gen    int32
	True   *Term
	False  *Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	c.False = c.mk(&Term{op: OConst, w: 0, val: 0})
	c.True = c.mk(&Term{op: OConst, w: 0, val: 1})
	for _, w := range []int{1, 8, 16, 32, 64} {
		n := 512
		if w == 8 {
			n = 256
		}
		if w == 1 {
			n = 2
		}
		if n == 512 {
			c.small[w] = make([]*Term, 70000) // the rest when needed
		} else {
			c.small[w] = make([]*Term, n)
		}
		for i := range c.small[w][:n] {
			c.small[w][i] = c.mk(&Term{op: OConst, w: uint8(w), val: uint64(i)})
		}
	}
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(t *Term) *Term {
	k := tkey{t.op, t.w, t.hi, t.lo, t.val, tid(t.a), tid(t.b), tid(t.c)}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.nextID
	c.nextID++
	c.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		if v != 0 {
			return c.True
		}
		return c.False
	}
	v &= mask(w)
	if s := c.small[w]; v < uint64(len(s)) {
		if t := s[v]; t != nil {
			return t
		}
		t := c.mk(&Term{op: OConst, w: w, val: v})
		s[v] = t
		return t
	}
	k := tkey{OConst, w, 0, 0, v, -1, -1, -1}
	if o, ok := c.tab[k]; ok {
		return o
	}
	return c.mk(&Term{op: OConst, w: w, val: v})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w uint8) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			panic("variable " + name + " redeclared with another width")
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.nextID}
	c.nextID++
	c.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func evalOp(op Op, w, aw uint8, hi, lo uint8, a, b, cc uint64) uint64 {
	m := mask(w)
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch op {
	case ONot:
		return ^a & m
	case ONeg:
		return -a & m
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAShr:
		x := sext64(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	case OExtract:
		return (a >> lo) & mask(hi-lo+1)
	case OZExt:
		return a
	case OSExt:
		return uint64(sext64(a, aw)) & m
	case OIte:
		if a != 0 {
			return b
		}
		return cc
	case OEq:
		return bo(a == b)
	case OULt:
		return bo(a < b)
	case OULe:
		return bo(a <= b)
	case OSLt:
		return bo(sext64(a, aw) < sext64(b, aw))
	case OSLe:
		return bo(sext64(a, aw) <= sext64(b, aw))
	case OBNot:
		return 1 - a
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	}
	panic("evalOp")
}

// zeroHigh gives a lower bound on the number of leading zero bits.
func (t *Term) zeroHigh() int {
	switch t.op {
	case OConst:
		return int(t.w) - bits.Len64(t.val)
	case OZExt:
		return int(t.w) - int(t.a.w) + t.a.zeroHigh()
	case OConcat:
		z := t.a.zeroHigh()
		if z == int(t.a.w) {
			return z + t.b.zeroHigh()
		}
		return z
	case OOr, OXor:
		x, y := t.a.zeroHigh(), t.b.zeroHigh()
		if x < y {
			return x
		}
		return y
	case OAnd:
		x, y := t.a.zeroHigh(), t.b.zeroHigh()
		if x > y {
			return x
		}
		return y
	case OShl:
		if t.b.isConst() {
			z := t.a.zeroHigh() - int(t.b.val)
			if z < 0 {
				z = 0
			}
			return z
		}
	case OLShr:
		if t.b.isConst() {
			z := t.a.zeroHigh() + int(t.b.val)
			if z > int(t.w) {
				z = int(t.w)
			}
			return z
		}
	case OIte:
		x, y := t.b.zeroHigh(), t.c.zeroHigh()
		if x < y {
			return x
		}
		return y
	}
	return 0
}

func (t *Term) maxVal() uint64 {
	z := t.zeroHigh()
	return mask(uint8(int(t.w) - z))
}

func (c *Ctx) Not(a *Term) *Term {
	if a.w == 0 {
		return c.BNot(a)
	}
	if a.isConst() {
		return c.Const(^a.val, a.w)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(&Term{op: ONot, w: a.w, a: a})
}

func (c *Ctx) Neg(a *Term) *Term {
	if a.isConst() {
		return c.Const(-a.val, a.w)
	}
	return c.mk(&Term{op: ONeg, w: a.w, a: a})
}

// Bin builds a bit-vector binary operation (same widths).
func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opName[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Const(evalOp(op, w, w, 0, 0, a.val, b.val, 0), w)
	}
	switch op {
	case OAdd, OMul, OAnd, OOr, OXor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		v := b.val
		switch op {
		case OAdd:
			if v == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return c.Bin(OAdd, a.a, c.Const(a.b.val+v, w))
			}
		case OSub:
			if v == 0 {
				return a
			}
			return c.Bin(OAdd, a, c.Const(-v, w))
		case OMul:
			if v == 0 {
				return b
			}
			if v == 1 {
				return a
			}
		case OUDiv, OSDiv:
			if v == 1 {
				return a
			}
			if op == OUDiv && v != 0 && v&(v-1) == 0 {
				return c.Bin(OLShr, a, c.Const(uint64(bits.TrailingZeros64(v)), w))
			}
		case OURem:
			if v != 0 && v&(v-1) == 0 {
				return c.Bin(OAnd, a, c.Const(v-1, w))
			}
		case OAnd:
			if v == 0 {
				return b
			}
			if v == mask(w) {
				return a
			}
			if a.maxVal()&^v == 0 && v&(v+1) == 0 {
				return a
			}
		case OOr:
			if v == 0 {
				return a
			}
			if v == mask(w) {
				return b
			}
		case OXor:
			if v == 0 {
				return a
			}
		case OShl, OLShr, OAShr:
			if v == 0 {
				return a
			}
			if v >= uint64(w) && op != OAShr {
				return c.Const(0, w)
			}
		}
	}
	if a.isConst() && a.val == 0 {
		switch op {
		case OShl, OLShr, OAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OSub, OXor:
			return c.Const(0, w)
		case OAnd, OOr:
			return a
		}
	}
	if (op == OAnd || op == OOr || op == OXor || op == OAdd || op == OMul) && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: op, w: w, a: a, b: b})
}

func (c *Ctx) Extract(hi, lo uint8, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(a.val>>lo, w)
	}
	switch a.op {
	case OExtract:
		return c.Extract(hi+a.lo, lo+a.lo, a.a)
	case OZExt:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
		if lo >= a.a.w {
			return c.Const(0, w)
		}
		return c.ZExt(c.Extract(a.a.w-1, lo, a.a), w)
	case OSExt:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
	case OConcat:
		if hi < a.b.w {
			return c.Extract(hi, lo, a.b)
		}
		if lo >= a.b.w {
			return c.Extract(hi-a.b.w, lo-a.b.w, a.a)
		}
	case OLShr:
		if a.b.isConst() {
			k := a.b.val
			if uint64(hi)+k < uint64(a.w) {
				return c.Extract(hi+uint8(k), lo+uint8(k), a.a)
			}
			if uint64(lo)+k >= uint64(a.w) {
				return c.Const(0, w)
			}
			return c.ZExt(c.Extract(a.w-1, lo+uint8(k), a.a), w)
		}
	case OAShr:
		if a.b.isConst() {
			k := a.b.val
			if uint64(hi)+k < uint64(a.w) {
				return c.Extract(hi+uint8(k), lo+uint8(k), a.a)
			}
		}
	case OShl:
		if a.b.isConst() {
			k := a.b.val
			if uint64(lo) >= k {
				return c.Extract(hi-uint8(k), lo-uint8(k), a.a)
			}
			if uint64(hi) < k {
				return c.Const(0, w)
			}
		}
	case OAnd, OOr, OXor:
		return c.Bin(a.op, c.Extract(hi, lo, a.a), c.Extract(hi, lo, a.b))
	case ONot:
		return c.Not(c.Extract(hi, lo, a.a))
	case OIte:
		return c.Ite(a.a, c.Extract(hi, lo, a.b), c.Extract(hi, lo, a.c))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(hi, 0, a.a), c.Extract(hi, 0, a.b))
		}
	}
	return c.mk(&Term{op: OExtract, w: w, hi: hi, lo: lo, a: a})
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrower")
	}
	if a.isConst() {
		return c.Const(a.val, w)
	}
	if a.op == OZExt {
		a = a.a
	}
	return c.mk(&Term{op: OZExt, w: w, a: a})
}

func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext64(a.val, a.w)), w)
	}
	if a.op == OSExt {
		a = a.a
	}
	if a.op == OZExt && a.a.w < a.w {
		return c.ZExt(a.a, w)
	}
	return c.mk(&Term{op: OSExt, w: w, a: a})
}

// Resize converts an integer of width a.w to width w.
func (c *Ctx) Resize(a *Term, signed bool, w uint8) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return c.Extract(w-1, 0, a)
	case signed:
		return c.SExt(a, w)
	}
	return c.ZExt(a, w)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return c.Const(a.val<<b.w|b.val, w)
	}
	if a.isConst() && a.val == 0 {
		return c.ZExt(b, w)
	}
	return c.mk(&Term{op: OConcat, w: w, a: a, b: b})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.BNot(a)
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			if b.val > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(b.val, a.a.w))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return c.True
				case x:
					return a.a
				case y:
					return c.BNot(a.a)
				default:
					return c.False
				}
			}
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.val-a.b.val, a.w))
			}
		}
		if b.val > a.maxVal() {
			return c.False
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	return c.mk(&Term{op: OEq, a: a, b: b})
}

func (c *Ctx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic("cmp width mismatch")
	}
	if a == b {
		return c.Bool(op == OULe || op == OSLe)
	}
	if a.isConst() && b.isConst() {
		return c.Const(evalOp(op, 0, a.w, 0, 0, a.val, b.val, 0), 0)
	}
	// signed comparisons on values whose sign bits are known clear are unsigned
	if (op == OSLt || op == OSLe) && a.zeroHigh() > 0 && b.zeroHigh() > 0 {
		if op == OSLt {
			op = OULt
		} else {
			op = OULe
		}
	}
	switch op {
	case OULt:
		if b.isConst() && b.val > a.maxVal() {
			return c.True
		}
		if b.isConst() && b.val == 0 {
			return c.False
		}
		if a.isConst() && a.val >= b.maxVal() {
			return c.False
		}
	case OULe:
		if b.isConst() && b.val >= a.maxVal() {
			return c.True
		}
		if a.isConst() && a.val == 0 {
			return c.True
		}
		if a.isConst() && a.val > b.maxVal() {
			return c.False
		}
	case OSLt:
		if b.isConst() && b.val == 0 && a.zeroHigh() > 0 {
			return c.False
		}
	}
	return c.mk(&Term{op: op, a: a, b: b})
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(&Term{op: OBNot, a: a})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OBAnd, a: a, b: b})
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OBOr, a: a, b: b})
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.val == 1 {
				return cond
			}
			return c.BNot(cond)
		}
		return c.BOr(c.BAnd(cond, a), c.BAnd(c.BNot(cond), b))
	}
	return c.mk(&Term{op: OIte, w: a.w, a: cond, b: a, c: b})
}

// Model assigns variables (by term) values; missing ones are 0.
type Model map[string]uint64

// Eval evaluates t under m.
func (c *Ctx) Eval(t *Term, m Model) uint64 {
	c.gen++
	return c.eval(t, m)
}

func (c *Ctx) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evGen == c.gen {
		return t.evVal
	}
	var v uint64
	if t.op == OVar {
		v = m[t.name] & mask(t.w)
		if t.w == 0 {
			v = m[t.name] & 1
		}
	} else if t.op == OConcat {
		v = c.eval(t.a, m)<<t.b.w | c.eval(t.b, m)
	} else {
		var a, b, d uint64
		a = c.eval(t.a, m)
		if t.b != nil {
			b = c.eval(t.b, m)
		}
		if t.c != nil {
			d = c.eval(t.c, m)
		}
		v = evalOp(t.op, t.w, t.a.w, t.hi, t.lo, a, b, d)
	}
	t.evGen = c.gen
	t.evVal = v
	return v
}

func smtConst(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return smtConst(t.val, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// body is the one-level SMT-LIB text of the term, with operands by reference.
func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, t.a.ref())
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
