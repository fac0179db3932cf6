package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (integers, booleans), float64, complex128, string
// (concrete string), *SymStr, Ptr, Slice, *Struct, *Array, *MapObj, *ChanObj,
// Iface, *Closure, *ssa.Builtin, Tuple, *rangeIter.
type Value interface{}

// SymStr is a string of known length with symbolic bytes.
type SymStr struct{ b []*Term }

// Container holds addressable cells.
type Container interface {
	get(i int) Value
	set(i int, v Value)
}

type Cell struct {
	v  Value
	sh *shadow
}

func (c *Cell) get(int) Value      { return c.v }
func (c *Cell) set(_ int, v Value) { c.v = v }

type Struct struct {
	f  []Value
	sh []*shadow
}

func (s *Struct) get(i int) Value    { return s.f[i] }
func (s *Struct) set(i int, v Value) { s.f[i] = v }

const chunkSz = 1024

// Array is a lazily materialised array; absent cells hold the zero value.
type Array struct {
	n    int
	zero Value
	agg  bool
	et   types.Type
	ch   [][]Value
	chm  map[int][]Value
	sh   map[int][]*shadow
}

func newArray(n int, et types.Type, zero Value) *Array {
	a := &Array{n: n, zero: zero, et: et}
	switch zero.(type) {
	case *Struct, *Array:
		a.agg = true
	}
	if n > 1<<23 {
		a.chm = map[int][]Value{}
	} else {
		a.ch = make([][]Value, (n+chunkSz-1)/chunkSz)
	}
	return a
}

func (a *Array) chunk(k int) []Value {
	if a.chm != nil {
		return a.chm[k]
	}
	return a.ch[k]
}

func (a *Array) mkchunk(k int) []Value {
	c := a.chunk(k)
	if c == nil {
		n := chunkSz
		if rest := a.n - k*chunkSz; rest < n {
			n = rest
		}
		c = make([]Value, n)
		if a.chm != nil {
			a.chm[k] = c
		} else {
			a.ch[k] = c
		}
	}
	return c
}

func (a *Array) get(i int) Value {
	c := a.chunk(i / chunkSz)
	if c == nil {
		if !a.agg {
			return a.zero
		}
		c = a.mkchunk(i / chunkSz)
	}
	v := c[i%chunkSz]
	if v == nil {
		if !a.agg {
			return a.zero
		}
		v = copyVal(a.zero)
		c[i%chunkSz] = v
	}
	return v
}

func (a *Array) set(i int, v Value) {
	c := a.chunk(i / chunkSz)
	if c == nil {
		if t, ok := v.(*Term); ok {
			if z, ok := a.zero.(*Term); ok && z == t {
				return
			}
		}
		c = a.mkchunk(i / chunkSz)
	}
	c[i%chunkSz] = v
}

func (a *Array) clone() *Array {
	b := newArray(a.n, a.et, a.zero)
	cp := func(k int, c []Value) {
		if c == nil {
			return
		}
		d := b.mkchunk(k)
		for i, v := range c {
			if v != nil {
				d[i] = copyVal(v)
			}
		}
	}
	if a.chm != nil {
		for k, c := range a.chm {
			cp(k, c)
		}
	} else {
		for k, c := range a.ch {
			cp(k, c)
		}
	}
	return b
}

type Ptr struct {
	obj Container
	idx int
}

func (p Ptr) isNil() bool { return p.obj == nil }

type Slice struct {
	arr         *Array
	off, ln, cp int
	sl          *Term // symbolic length (then ln is the backing capacity)
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
}

type Tuple []Value

type MapObj struct {
	keys  []Value
	vals  []Value
	live  []bool
	n     int
	idx   map[interface{}]int
	nsym  int // live symbolic keys
	order int
}

type ChanObj struct {
	cap    int
	buf    []Value
	head   int
	closed bool
	zero   Value
	id     int
	popped int

	// elements lzNext..lzEnd-1 and then tail come after those in buf
	lz     *Ctx
	lzW    uint8
	lzNext uint64
	lzEnd  uint64
	tail   []Value
}

func (c *ChanObj) length() int {
	return len(c.buf) - c.head + int(c.lzEnd-c.lzNext) + len(c.tail)
}

func (c *ChanObj) push(v Value) {
	if c.lzNext != c.lzEnd {
		c.tail = append(c.tail, v)
		return
	}
	c.buf = append(c.buf, v)
}

func (c *ChanObj) pop() Value {
	if c.head == len(c.buf) {
		v := c.lz.Const(c.lzNext, c.lzW)
		c.lzNext++
		c.popped++
		if c.lzNext == c.lzEnd {
			c.buf, c.head, c.tail = c.tail, 0, nil
		}
		return v
	}
	v := c.buf[c.head]
	c.buf[c.head] = nil
	c.head++
	c.popped++
	if c.head > 1024 && c.head*2 > len(c.buf) {
		c.buf = append([]Value(nil), c.buf[c.head:]...)
		c.head = 0
	}
	return v
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case *Struct:
		n := &Struct{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			switch x.(type) {
			case *Struct, *Array:
				n.f[i] = copyVal(x)
			default:
				n.f[i] = x
			}
		}
		return n
	case *Array:
		return v.clone()
	}
	return v
}

// assign stores v in the cell, keeping the identity of nested aggregates.
func assign(p Ptr, v Value) {
	switch v := v.(type) {
	case *Struct:
		if old, ok := p.obj.get(p.idx).(*Struct); ok {
			if old == v {
				return
			}
			for i := range v.f {
				assign(Ptr{old, i}, v.f[i])
			}
			return
		}
		p.obj.set(p.idx, copyVal(v))
	case *Array:
		if old, ok := p.obj.get(p.idx).(*Array); ok {
			if old == v {
				return
			}
			if old.agg {
				for i := 0; i < v.n; i++ {
					assign(Ptr{old, i}, v.get(i))
				}
				return
			}
			c := v.clone()
			old.ch, old.chm = c.ch, c.chm
			return
		}
		p.obj.set(p.idx, copyVal(v))
	default:
		p.obj.set(p.idx, v)
	}
}

// intInfo returns width and signedness for integer/bool kinds.
func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64:
		return 64, true, true
	case types.Uint, types.Uintptr, types.Uint64:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if w, _, ok := intInfo(t); ok {
			return in.ctx.Const(0, w)
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Struct:
		s := &Struct{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArray(int(u.Len()), u.Elem(), in.zero(u.Elem()))
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = in.zero(u.At(i).Type())
		}
		return t
	}
	in.unsupported("zero value of %v", t)
	return nil
}

// ---- strings

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func (in *Interp) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = in.ctx.small[8][s[i]]
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v))
}

func (in *Interp) mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: b}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return sb.String()
}

func (in *Interp) strIndex(v Value, i int) *Term {
	switch s := v.(type) {
	case string:
		return in.ctx.small[8][s[i]]
	case *SymStr:
		return s.b[i]
	}
	panic("strIndex")
}

func (in *Interp) strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return in.mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func (in *Interp) strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	x, y := in.strBytes(a), in.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return in.mkStr(r)
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.ctx.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return in.ctx.False
	}
	return in.bytesEq(in.strBytes(a), in.strBytes(b))
}

func (in *Interp) bytesEq(x, y []*Term) *Term {
	r := in.ctx.True
	for i := range x {
		e := in.ctx.Eq(x[i], y[i])
		if e == in.ctx.False {
			return e
		}
		r = in.ctx.BAnd(r, e)
	}
	return r
}

func (in *Interp) strLess(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.ctx.Bool(x < y)
		}
	}
	x, y := in.strBytes(a), in.strBytes(b)
	return in.bytesLess(x, y)
}

func (in *Interp) bytesLess(x, y []*Term) *Term {
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := in.ctx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		lt := in.ctx.Cmp(OULt, x[i], y[i])
		eq := in.ctx.Eq(x[i], y[i])
		r = in.ctx.BOr(lt, in.ctx.BAnd(eq, r))
	}
	return r
}

// ---- equality

func (in *Interp) equal(t types.Type, a, b Value) *Term {
	c := in.ctx
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case float64:
		return c.Bool(x == b.(float64))
	case complex128:
		return c.Bool(x == b.(complex128))
	case string, *SymStr:
		return in.strEq(a, b)
	case Ptr:
		return c.Bool(x == b.(Ptr))
	case *MapObj:
		return c.Bool(x == b.(*MapObj))
	case *ChanObj:
		return c.Bool(x == b.(*ChanObj))
	case *Closure:
		y := b.(*Closure)
		if x != nil && y != nil {
			in.goPanicStr("comparing uncomparable type " + "func")
		}
		return c.Bool(x == y)
	case Slice:
		y := b.(Slice)
		return c.Bool(x.arr == nil && y.arr == nil)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			in.unsupported("iface compare with %T", b)
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			in.goPanicStr("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.t, x.v, y.v)
	case *Struct:
		y := b.(*Struct)
		r := c.True
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		for i := range x.f {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			r = c.BAnd(r, in.equal(ft, x.f[i], y.f[i]))
		}
		return r
	case *Array:
		y := b.(*Array)
		r := c.True
		for i := 0; i < x.n; i++ {
			r = c.BAnd(r, in.equal(x.et, x.get(i), y.get(i)))
		}
		return r
	}
	in.unsupported("equality of %T", a)
	return nil
}

// ---- maps

type ifKey struct {
	t string
	k interface{}
}
type scKey struct {
	w uint8
	v uint64
}
type agKey struct{ s string }

// keyOf returns a canonical hashable key, false when symbolic.
func keyOf(v Value) (interface{}, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return scKey{v.w, v.val}, true
		}
		return nil, false
	case string:
		return v, true
	case *SymStr:
		return nil, false
	case float64, complex128:
		return v, true
	case Ptr:
		return v, true
	case *ChanObj:
		return v, true
	case Iface:
		if v.t == nil {
			return ifKey{}, true
		}
		k, ok := keyOf(v.v)
		return ifKey{types.TypeString(v.t, nil), k}, ok
	case *Struct:
		s := ""
		for _, f := range v.f {
			k, ok := keyOf(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%#v;", k, k)
		}
		return agKey{s}, true
	case *Array:
		s := ""
		for i := 0; i < v.n; i++ {
			k, ok := keyOf(v.get(i))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%#v;", k, k)
		}
		return agKey{s}, true
	}
	return nil, false
}

func newMap() *MapObj { return &MapObj{idx: map[interface{}]int{}} }

// find returns the index of key k or -1; it may fork on symbolic equality.
func (in *Interp) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.goPanicStr("hash of unhashable type " + i.t.String())
	}
	ck, conc := keyOf(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, ok := keyOf(m.keys[i]); ok {
				continue
			}
		}
		if in.branch(in.equal(nil, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapSet(m *MapObj, k, v Value) {
	i := in.mapFind(m, k)
	if i >= 0 {
		m.vals[i] = copyVal(v)
		return
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, copyVal(v))
	m.live = append(m.live, true)
	m.n++
	if ck, ok := keyOf(k); ok {
		m.idx[ck] = len(m.keys) - 1
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *MapObj, k Value) {
	i := in.mapFind(m, k)
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if ck, ok := keyOf(m.keys[i]); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	m.keys[i], m.vals[i] = nil, nil
}

func describe(v Value, depth int) string {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			if x.w == 0 {
				return fmt.Sprint(x.val == 1)
			}
			return fmt.Sprint(x.val)
		}
		return "<sym>"
	case string:
		return x
	case *SymStr:
		return fmt.Sprintf("<sym string len %d>", len(x.b))
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		return fmt.Sprintf("%v(%s)", x.t, describe(x.v, depth))
	case *Struct:
		if depth <= 0 {
			return "{...}"
		}
		var p []string
		for _, f := range x.f {
			p = append(p, describe(f, depth-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Ptr:
		if x.obj == nil {
			return "<nil>"
		}
		if depth > 0 {
			return "&" + describe(x.obj.get(x.idx), depth-1)
		}
		return "&..."
	}
	return fmt.Sprintf("%T", v)
}
