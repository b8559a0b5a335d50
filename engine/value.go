package main

// Values of the symbolic machine. Scalars are *Expr; everything with shape
// (pointers, slices, maps, ...) is concrete in shape and symbolic in content.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type StructV struct{ f []Value }

// Arr is array storage. Scalar arrays use lazily allocated pages of *Expr.
type Arr struct {
	n    int
	ew   uint8 // scalar element width, valid if scalar
	sc   bool
	et   types.Type
	zero *Expr
	pg   [][]*Expr
	vals []Value
}

const pageBits = 9
const pageSize = 1 << pageBits

func (a *Arr) get(i int) *Expr {
	if a.pg == nil {
		return a.zero
	}
	p := a.pg[i>>pageBits]
	if p == nil {
		return a.zero
	}
	e := p[i&(pageSize-1)]
	if e == nil {
		return a.zero
	}
	return e
}

func (a *Arr) set(i int, e *Expr) {
	if a.pg == nil {
		a.pg = make([][]*Expr, (a.n+pageSize-1)>>pageBits)
	}
	p := a.pg[i>>pageBits]
	if p == nil {
		sz := pageSize
		if a.n < sz {
			sz = a.n
		}
		p = make([]*Expr, sz)
		a.pg[i>>pageBits] = p
	}
	p[i&(pageSize-1)] = e
}

// Ptr: nil, a storage cell, or an array element (concrete or symbolic index).
type Ptr struct {
	c      *Value
	arr    *Arr
	i      int
	ie     *Expr // symbolic absolute index (scalar arrays only)
	lo, hi int   // feasible absolute range for ie
}

func (p Ptr) isNil() bool { return p.c == nil && p.arr == nil }

type Slice struct {
	arr      *Arr
	off      int
	len, cap int
}

type Str struct {
	s      string
	b      []*Expr // non-nil: symbolic bytes
	opaque bool
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	bi   *ssa.Builtin
	host func(m *Machine, args []Value) Value // a function provided by a stand-in
}

type Tuple []Value

type mapEnt struct {
	k, v Value
}

type MapObj struct {
	ents []mapEnt
	vt   types.Type
}

type rangeIter struct {
	m            *MapObj
	left         []mapEnt
	large, begun bool
	dir          int
	s            *Str
	pos          int
}

// target-level panic
type targetPanic struct {
	val     Value
	runtime bool
	msg     string
	pos     string
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abSteps
	abUnknown
	abBudget
	abViolation
	abKilled
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(f string, a ...interface{}) {
	panic(pathAbort{abUnsupported, sprintf(f, a...)})
}

func under(t types.Type) types.Type { return t.Underlying() }

func scalarInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return WBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Float32:
		return WF32, true, true
	case types.Float64, types.UntypedFloat:
		return WF64, true, true
	}
	return 0, false, false
}

func (m *Machine) zeroE(w uint8) *Expr {
	if w == WBool {
		return m.ctx.False
	}
	if isFloatW(w) {
		return m.ctx.FConst(w, 0)
	}
	return m.ctx.Const(w, 0)
}

func (m *Machine) newArr(et types.Type, n int) *Arr {
	a := &Arr{n: n, et: et}
	if w, _, ok := scalarInfo(et); ok {
		a.sc = true
		a.ew = w
		a.zero = m.zeroE(w)
		return a
	}
	if n > 1<<20 {
		unsupported("huge array of %d %v", n, et)
	}
	a.vals = make([]Value, n)
	for i := range a.vals {
		a.vals[i] = m.zero(et)
	}
	return a
}

func (m *Machine) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := scalarInfo(t); ok {
			return m.zeroE(w)
		}
		switch t.Kind() {
		case types.String, types.UntypedString:
			return emptyStr
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return nil
		}
		unsupported("zero of %v", t)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		s := &StructV{f: make([]Value, t.NumFields())}
		for i := range s.f {
			s.f[i] = m.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		return m.newArr(t.Elem(), int(t.Len()))
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = m.zero(t.At(i).Type())
		}
		return r
	}
	unsupported("zero of %v", t)
	return nil
}

var emptyStr = &Str{}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(v.f))}
		for i, x := range v.f {
			n.f[i] = copyVal(x)
		}
		return n
	case *Arr:
		return v.clone()
	}
	return v
}

func (a *Arr) clone() *Arr {
	n := *a
	if a.pg != nil {
		n.pg = make([][]*Expr, len(a.pg))
		for i, p := range a.pg {
			if p != nil {
				n.pg[i] = append([]*Expr(nil), p...)
			}
		}
	}
	if a.vals != nil {
		n.vals = make([]Value, len(a.vals))
		for i, x := range a.vals {
			n.vals[i] = copyVal(x)
		}
	}
	return &n
}

// assignInto stores v into the storage slot, keeping the identity of nested
// storage (so that field and element pointers stay valid).
func (m *Machine) assignInto(slot *Value, v Value) {
	switch v := v.(type) {
	case *StructV:
		if d, ok := (*slot).(*StructV); ok && d != nil && len(d.f) == len(v.f) {
			if d == v {
				return
			}
			for i := range v.f {
				m.assignInto(&d.f[i], v.f[i])
			}
			return
		}
		m.setSlot(slot, copyVal(v))
		return
	case *Arr:
		if d, ok := (*slot).(*Arr); ok && d != nil && d.n == v.n {
			if d == v {
				return
			}
			if m.spec != nil {
				panic(specAbort{})
			}
			c := v.clone()
			if d.sc {
				d.pg = c.pg
			} else {
				for i := range d.vals {
					m.assignInto(&d.vals[i], v.vals[i])
				}
			}
			return
		}
		m.setSlot(slot, copyVal(v))
		return
	}
	m.setSlot(slot, v)
}

func (m *Machine) setSlot(slot *Value, v Value) {
	if m.spec != nil {
		m.spec.slot(slot)
	}
	*slot = v
}

func (m *Machine) setElem(a *Arr, i int, e *Expr) {
	if m.spec != nil {
		m.spec.elem(a, i)
	}
	a.set(i, e)
}

func concreteStr(s string) *Str { return &Str{s: s} }

func (s *Str) length() int {
	if s.opaque {
		unsupported("length of a formatted string")
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (m *Machine) strByte(s *Str, i int) *Expr {
	if s.b != nil {
		return s.b[i]
	}
	return m.ctx.Const(8, uint64(s.s[i]))
}

func (m *Machine) strEq(a, b *Str) *Expr {
	if a.opaque || b.opaque {
		unsupported("comparison of a formatted string")
	}
	if a.length() != b.length() {
		return m.ctx.False
	}
	if a.b == nil && b.b == nil {
		return m.ctx.Bool(a.s == b.s)
	}
	r := m.ctx.True
	for i := 0; i < a.length(); i++ {
		r = m.ctx.And(r, m.ctx.Eq(m.strByte(a, i), m.strByte(b, i)))
	}
	return r
}

func (m *Machine) mkStr(bs []*Expr) *Str {
	all := true
	for _, e := range bs {
		if !e.IsConst() {
			all = false
			break
		}
	}
	if all {
		x := make([]byte, len(bs))
		for i, e := range bs {
			x[i] = byte(e.k)
		}
		return &Str{s: string(x)}
	}
	return &Str{b: append([]*Expr(nil), bs...)}
}

func (m *Machine) sliceBytes(s Slice) []*Expr {
	r := make([]*Expr, s.len)
	for i := range r {
		r[i] = s.arr.get(s.off + i)
	}
	return r
}

func (m *Machine) bytesToSlice(bs []*Expr) Slice {
	a := m.newArr(types.Typ[types.Uint8], len(bs))
	for i, e := range bs {
		if e != a.zero {
			a.set(i, e)
		}
	}
	return Slice{arr: a, len: len(bs), cap: len(bs)}
}

func (m *Machine) strSlice(s *Str, lo, hi int) *Str {
	if s.b != nil {
		return m.mkStr(s.b[lo:hi])
	}
	return &Str{s: s.s[lo:hi]}
}

// eq builds an equality formula of two values of the same static type.
func (m *Machine) eq(a, b Value) *Expr {
	c := m.ctx
	switch x := a.(type) {
	case *Expr:
		y := b.(*Expr)
		if isFloatW(x.w) {
			return c.FBin(OFEq, x, y)
		}
		return c.Eq(x, y)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return c.False
		}
		if x.ie != nil || y.ie != nil {
			unsupported("comparison of symbolic element pointers")
		}
		return c.Bool(x.c == y.c && x.arr == y.arr && (x.arr == nil || x.i == y.i))
	case *Str:
		return m.strEq(x, b.(*Str))
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			panic(targetPanic{runtime: true, msg: "comparing uncomparable type " + x.t.String()})
		}
		return m.eq(x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		r := c.True
		for i := range x.f {
			r = c.And(r, m.eq(x.f[i], y.f[i]))
		}
		return r
	case *Arr:
		y := b.(*Arr)
		r := c.True
		for i := 0; i < x.n; i++ {
			if x.sc {
				r = c.And(r, m.eq(x.get(i), y.get(i)))
			} else {
				r = c.And(r, m.eq(x.vals[i], y.vals[i]))
			}
		}
		return r
	case Slice:
		y := b.(Slice)
		return c.Bool(x.arr == nil && y.arr == nil) // only comparison with nil
	case *Closure:
		y := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	case *MapObj:
		y, _ := b.(*MapObj)
		return c.Bool(x == y)
	case nil:
		return c.Bool(b == nil)
	}
	unsupported("equality of %T", a)
	return nil
}
