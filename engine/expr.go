package main

// Hash-consed expressions over booleans, bit-vectors and IEEE floats, with the
// Go/SMT-LIB semantics of each operation, a local simplifier, and an evaluator.

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLShr
	OAShr
	OExtract
	OZExt
	OSExt
	OConcat
	// floats
	OS2F // signed bv -> float
	OU2F // unsigned bv -> float
	OF2S // float -> signed bv (RTZ)
	OF2U // float -> unsigned bv (RTZ)
	OF2F // float -> float of other width
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OFRound // k: 0 floor, 1 ceil, 2 trunc
)

const (
	WBool = uint8(0)
	WF32  = uint8(200)
	WF64  = uint8(201)
)

type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64
	h       uint64 // structural hash
	sh      uint64 // shape hash: variables anonymous
	kz, ko  uint64 // known zero / known one bits (bit-vectors only)
	id      int32  // dense per-context id
	smt     int32  // solver-session definition stamp
	vars    *varset
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64
}

// Ctx owns the hash-consing table; one per worker.
type Ctx struct {
	tab    map[exprKey]*Expr
	n      int32
	small  [65][257]*Expr
	True   *Expr
	False  *Expr
	emptyV *varset
	plain  bool // no rewriting beyond folding of constants
	ext    map[extKey]*Expr
}

type extKey struct {
	e     *Expr
	lo, n uint8
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[exprKey]*Expr, 1<<12), ext: map[extKey]*Expr{}}
	c.emptyV = &varset{}
	c.True = c.raw(OConst, WBool, nil, nil, nil, 1)
	c.False = c.raw(OConst, WBool, nil, nil, nil, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mix64(h uint64) uint64 {
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

func isFloatW(w uint8) bool { return w >= 200 }

func (c *Ctx) raw(op Op, w uint8, a, b, d *Expr, k uint64) *Expr {
	key := exprKey{op, w, a, b, d, k}
	if e, ok := c.tab[key]; ok {
		return e
	}
	c.n++
	e := &Expr{op: op, w: w, a: a, b: b, c: d, k: k, id: c.n}
	h := mix64(uint64(op)<<8 | uint64(w) | k<<17 ^ k>>40)
	if a != nil {
		h = mix64(h*31 + a.h)
	}
	if b != nil {
		h = mix64(h*37 + b.h)
	}
	if d != nil {
		h = mix64(h*41 + d.h)
	}
	e.h = h
	sv := k
	if op == OVar {
		sv = 0
	}
	sh := mix64(uint64(op)<<8 | uint64(w) | sv<<17 ^ sv>>40)
	for i, x := range [3]*Expr{a, b, d} {
		if x != nil {
			sh = mix64(sh*uint64(31+i*6) + x.sh)
		}
	}
	e.sh = sh
	if w > 0 && w <= 64 && (!c.plain || op == OConst) {
		e.known()
	}
	// variable set
	switch {
	case op == OConst:
		e.vars = c.emptyV
	case op == OVar:
		e.vars = newVarset(int(k))
	case b == nil && d == nil:
		e.vars = a.vars
	default:
		e.vars = a.vars
		if b != nil {
			e.vars = e.vars.union(b.vars)
		}
		if d != nil {
			e.vars = e.vars.union(d.vars)
		}
	}
	c.tab[key] = e
	return e
}

func (e *Expr) IsConst() bool { return e.op == OConst }
func (e *Expr) umin() uint64  { return e.ko }
func (e *Expr) umax() uint64  { return ^e.kz & mask(e.w) }

// known computes known bits from the operands.
func (e *Expr) known() {
	m := mask(e.w)
	var kz, ko uint64
	switch e.op {
	case OConst:
		ko = e.k
		kz = ^e.k & m
	case OIte:
		kz = e.b.kz & e.c.kz
		ko = e.b.ko & e.c.ko
	case OBAnd:
		kz = e.a.kz | e.b.kz
		ko = e.a.ko & e.b.ko
	case OBOr:
		kz = e.a.kz & e.b.kz
		ko = e.a.ko | e.b.ko
	case OBXor:
		kz = e.a.kz&e.b.kz | e.a.ko&e.b.ko
		ko = e.a.kz&e.b.ko | e.a.ko&e.b.kz
	case OBNot:
		kz, ko = e.a.ko, e.a.kz
	case OZExt:
		kz = e.a.kz | (m &^ mask(e.a.w))
		ko = e.a.ko
	case OSExt:
		ext := m &^ mask(e.a.w)
		kz, ko = e.a.kz, e.a.ko
		top := uint64(1) << (e.a.w - 1)
		if kz&top != 0 {
			kz |= ext
		}
		if ko&top != 0 {
			ko |= ext
		}
	case OConcat:
		kz = e.a.kz<<e.b.w | e.b.kz
		ko = e.a.ko<<e.b.w | e.b.ko
	case OExtract:
		kz = (e.a.kz >> e.k) & m
		ko = (e.a.ko >> e.k) & m
	case OAdd:
		s, carry := bits.Add64(e.a.umax(), e.b.umax(), 0)
		if carry == 0 && s <= m {
			kz = leadZeros(s, m)
		}
		// trailing known zeros
		t := min(bits.TrailingZeros64(^e.a.kz), bits.TrailingZeros64(^e.b.kz))
		if t > 0 {
			kz |= mask(uint8(min(t, 64))) & m
		}
	case OMul:
		hi, lo := bits.Mul64(e.a.umax(), e.b.umax())
		if hi == 0 && lo <= m {
			kz = leadZeros(lo, m)
		}
	case OUDiv:
		if e.b.umin() > 0 {
			kz = leadZeros(e.a.umax()/e.b.umin(), m)
		}
	case OURem:
		if e.b.umin() > 0 {
			kz = leadZeros(min(e.b.umax()-1, e.a.umax()), m)
		}
	case OLShr:
		kz = leadZeros(e.a.umax()>>min(e.b.umin(), 63), m)
	}
	e.kz, e.ko = kz&m, ko&m
}

func leadZeros(max, m uint64) uint64 {
	if max == 0 {
		return m
	}
	return m &^ (^uint64(0) >> uint(bits.LeadingZeros64(max)))
}

// ---- constructors ----

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if w <= 64 && v < 256 {
		if e := c.small[w][v]; e != nil {
			return e
		}
		e := c.raw(OConst, w, nil, nil, nil, v)
		c.small[w][v] = e
		return e
	}
	return c.raw(OConst, w, nil, nil, nil, v)
}

func (c *Ctx) FConst(w uint8, f float64) *Expr {
	if w == WF32 {
		return c.raw(OConst, w, nil, nil, nil, uint64(math.Float32bits(float32(f))))
	}
	return c.raw(OConst, w, nil, nil, nil, math.Float64bits(f))
}

func (e *Expr) fval() float64 {
	if e.w == WF32 {
		return float64(math.Float32frombits(uint32(e.k)))
	}
	return math.Float64frombits(e.k)
}

func (c *Ctx) Int(v int64) *Expr { return c.Const(64, uint64(v)) }

func (c *Ctx) Var(w uint8, idx int) *Expr { return c.raw(OVar, w, nil, nil, nil, uint64(idx)) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *Ctx) Not(a *Expr) *Expr {
	if c.plain {
		return c.pl(ONot, WBool, a, nil, 0)
	}
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt: // !(a<b) = b<=a
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.raw(ONot, WBool, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True {
		return b
	}
	if b == c.True {
		return a
	}
	if !c.plain && c.Not(a) == b {
		return c.False
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.raw(OAnd, WBool, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False {
		return b
	}
	if b == c.False {
		return a
	}
	if !c.plain && c.Not(a) == b {
		return c.True
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.raw(OOr, WBool, a, b, nil, 0)
}

func (c *Ctx) Ite(x, a, b *Expr) *Expr {
	if x.op == OConst {
		if x.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.plain {
		return c.raw(OIte, a.w, x, a, b, 0)
	}
	if a.w == WBool {
		if a == c.True {
			return c.Or(x, b)
		}
		if a == c.False {
			return c.And(c.Not(x), b)
		}
		if b == c.True {
			return c.Or(c.Not(x), a)
		}
		if b == c.False {
			return c.And(x, a)
		}
	}
	if x.op == ONot {
		return c.Ite(x.a, b, a)
	}
	if a.op == OIte && a.a == x {
		a = a.b
	}
	if b.op == OIte && b.a == x {
		b = b.c
	}
	if a == b {
		return a
	}
	if a.w == WBool || isFloatW(a.w) {
		return c.raw(OIte, a.w, x, a, b, 0)
	}
	// a choice by one bit between 1 and 0 is that bit
	if a.w == 1 && a.op == OConst && b.op == OConst && x.op == OEq && x.a.w == 1 && x.b.op == OConst {
		if x.b.k == a.k {
			return x.a
		}
		return c.BNot(x.a)
	}
	// equal parts are taken out
	if r := c.iteParts(x, a, b); r != nil {
		return r
	}
	return c.raw(OIte, a.w, x, a, b, 0)
}

// iteParts splits a choice between composite values where one part is the same on both sides.
func (c *Ctx) iteParts(x, a, b *Expr) *Expr {
	n := uint8(0)
	switch {
	case a.op == OConcat && (b.op == OConcat || b.op == OZExt || b.op == OConst):
		n = a.b.w
		if b.op == OConcat && b.b.w < n {
			n = b.b.w
		}
	case b.op == OConcat && (a.op == OZExt || a.op == OConst):
		n = b.b.w
	case a.op == OConst && b.op == OConst:
		d := a.k ^ b.k
		n = uint8(bits.TrailingZeros64(d))
		if n == 0 {
			n = uint8(bits.Len64(d))
			if n == a.w {
				return nil
			}
		}
	case a.op == OZExt && (b.op == OZExt || b.op == OConst):
		n = a.a.w
		if b.op == OZExt && b.a.w > n {
			n = b.a.w
		}
		if b.op == OConst {
			if m := uint8(bits.Len64(b.k)); m > n {
				n = m
			}
		}
	case b.op == OZExt && a.op == OConst:
		n = b.a.w
		if m := uint8(bits.Len64(a.k)); m > n {
			n = m
		}
	}
	if n == 0 || n >= a.w {
		return nil
	}
	ah, bh := c.Extract(a, n, a.w-n), c.Extract(b, n, a.w-n)
	al, bl := c.Extract(a, 0, n), c.Extract(b, 0, n)
	if ah != bh && al != bl {
		return nil
	}
	return c.Concat(c.Ite(x, ah, bh), c.Ite(x, al, bl))
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OEq, WBool, a, b, 0)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a == b && !isFloatW(a.w) {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.w == WBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		if a.op == ONot && b.op == ONot {
			return c.Eq(a.a, b.a)
		}
		if a.h > b.h {
			a, b = b, a
		}
		return c.raw(OEq, WBool, a, b, nil, 0)
	}
	if a.kz&b.ko != 0 || a.ko&b.kz != 0 {
		return c.False
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch a.op {
		case OZExt:
			if b.k > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OSExt:
			t := c.Const(a.a.w, b.k)
			if uint64(sext(t.k, a.a.w))&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a, t)
		case OConcat:
			return c.And(c.Eq(a.a, c.Const(a.a.w, b.k>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.k)))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OBNot:
			return c.Eq(a.a, c.Const(a.w, ^b.k))
		case OIte:
			bc, cc := a.b.op == OConst, a.c.op == OConst
			if bc && cc {
				return c.Ite(a.a, c.Bool(a.b.k == b.k), c.Bool(a.c.k == b.k))
			}
			if bc || a.b.kz&b.ko != 0 || a.b.ko&b.kz != 0 || cc || a.c.kz&b.ko != 0 || a.c.ko&b.kz != 0 {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt {
			if a.a.w == b.a.w {
				return c.Eq(a.a, b.a)
			}
			if a.a.w < b.a.w {
				return c.Eq(c.ZExt(a.a, b.a.w), b.a)
			}
			return c.Eq(a.a, c.ZExt(b.a, a.a.w))
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst {
			if a.a == b.a {
				return c.Bool(a.b.k == b.b.k)
			}
		}
		if a.op == OAdd && a.b.op == OConst && a.a == b {
			return c.Bool(a.b.k == 0)
		}
		if b.op == OAdd && b.b.op == OConst && b.a == a {
			return c.Bool(b.b.k == 0)
		}
	}
	if b.op != OConst && a.h > b.h {
		a, b = b, a
	}
	return c.raw(OEq, WBool, a, b, nil, 0)
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OUlt, WBool, a, b, 0)
	}
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k < b.k)
	}
	if a.umax() < b.umin() {
		return c.True
	}
	if a.umin() >= b.umax() {
		return c.False
	}
	if b.op == OConst && b.k == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZExt && b.op == OConst {
		return c.Ult(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == OZExt && a.op == OConst {
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	return c.raw(OUlt, WBool, a, b, nil, 0)
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OUle, WBool, a, b, 0)
	}
	if a == b {
		return c.True
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k <= b.k)
	}
	if a.umax() <= b.umin() {
		return c.True
	}
	if a.umin() > b.umax() {
		return c.False
	}
	if b.op == OConst && b.k == 0 {
		return c.Eq(a, b)
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	if a.op == OZExt && b.op == OConst {
		return c.Ule(a.a, c.Const(a.a.w, b.k))
	}
	if b.op == OZExt && a.op == OConst {
		return c.Ule(c.Const(b.a.w, a.k), b.a)
	}
	return c.raw(OUle, WBool, a, b, nil, 0)
}

func (e *Expr) smin() int64 {
	top := uint64(1) << (e.w - 1)
	v := e.ko
	if e.kz&top == 0 {
		v |= top
	}
	return sext(v, e.w)
}

func (e *Expr) smax() int64 {
	top := uint64(1) << (e.w - 1)
	v := e.umax()
	if e.ko&top == 0 {
		v &^= top
	}
	return sext(v, e.w)
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OSlt, WBool, a, b, 0)
	}
	if a == b {
		return c.False
	}
	if a.smax() < b.smin() {
		return c.True
	}
	if a.smin() >= b.smax() {
		return c.False
	}
	top := uint64(1) << (a.w - 1)
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.Ult(a, b)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	return c.raw(OSlt, WBool, a, b, nil, 0)
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OSle, WBool, a, b, 0)
	}
	if a == b {
		return c.True
	}
	if a.smax() <= b.smin() {
		return c.True
	}
	if a.smin() > b.smax() {
		return c.False
	}
	top := uint64(1) << (a.w - 1)
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.Ule(a, b)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return c.Sle(a.a, b.a)
	}
	return c.raw(OSle, WBool, a, b, nil, 0)
}

func (c *Ctx) Add(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OAdd, a.w, a, b, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.k == 0 {
			return a
		}
		if a.op == OConst {
			return c.Const(a.w, a.k+b.k)
		}
		if a.op == OAdd && a.b.op == OConst {
			return c.Add(a.a, c.Const(a.w, a.b.k+b.k))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Const(a.w, a.b.k+b.k), c.Const(a.w, a.c.k+b.k))
		}
		return c.raw(OAdd, a.w, a, b, nil, 0)
	}
	// (x+k)+y -> (x+y)+k
	if a.op == OAdd && a.b.op == OConst {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if a == b {
		return c.Shl(a, c.Const(a.w, 1))
	}
	// no carries between disjoint parts
	if m := mask(a.w); (a.kz|b.kz)&m == m {
		return c.BOr(a, b)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.raw(OAdd, a.w, a, b, nil, 0)
}

func (c *Ctx) Neg(a *Expr) *Expr { return c.Sub(c.Const(a.w, 0), a) }

func (c *Ctx) Sub(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OSub, a.w, a, b, 0)
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if b.op == OConst {
		return c.Add(a, c.Const(a.w, -b.k))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.op == OConst {
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd {
		if b.b.op == OConst {
			return c.Add(c.Sub(a, b.a), c.Const(a.w, -b.b.k))
		}
		if b.a == a {
			return c.Neg(b.b)
		}
		if b.b == a {
			return c.Neg(b.a)
		}
	}
	if a.op == OConst && a.k == 0 && b.op == OSub {
		return c.Sub(b.b, b.a)
	}
	return c.raw(OSub, a.w, a, b, nil, 0)
}

func (c *Ctx) Mul(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OMul, a.w, a, b, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k*b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		return c.raw(OMul, a.w, a, b, nil, 0)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.raw(OMul, a.w, a, b, nil, 0)
}

func (c *Ctx) UDiv(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OUDiv, a.w, a, b, 0)
	}
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.k/b.k)
		}
		if b.k&(b.k-1) == 0 {
			return c.LShr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if a.umax() < b.k {
			return c.Const(a.w, 0)
		}
	}
	// narrow
	if n := narrowW(a, b); n < a.w {
		return c.ZExt(c.UDiv(c.Extract(a, 0, n), c.Extract(b, 0, n)), a.w)
	}
	return c.raw(OUDiv, a.w, a, b, nil, 0)
}

func narrowW(a, b *Expr) uint8 {
	n := uint8(max(bits.Len64(a.umax()), bits.Len64(b.umax()), 1))
	if a.op == OConst && b.op == OConst {
		return a.w
	}
	if n+4 > a.w {
		return a.w
	}
	return n
}

func (c *Ctx) URem(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OURem, a.w, a, b, 0)
	}
	if b.op == OConst && b.k != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.k%b.k)
		}
		if b.k&(b.k-1) == 0 {
			return c.BAnd(a, c.Const(a.w, b.k-1))
		}
		if a.umax() < b.k {
			return a
		}
	}
	if n := narrowW(a, b); n < a.w {
		return c.ZExt(c.URem(c.Extract(a, 0, n), c.Extract(b, 0, n)), a.w)
	}
	return c.raw(OURem, a.w, a, b, nil, 0)
}

func (c *Ctx) SDiv(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OSDiv, a.w, a, b, 0)
	}
	top := uint64(1) << (a.w - 1)
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, a.w)
		if y == -1 {
			return c.Const(a.w, uint64(-x))
		}
		return c.Const(a.w, uint64(x/y))
	}
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.UDiv(a, b)
	}
	if b.op == OConst && b.k&top == 0 && b.k != 0 && b.k&(b.k-1) == 0 {
		k := bits.TrailingZeros64(b.k)
		if k == 0 {
			return a
		}
		// (a + ((a >>s w-1) >>u (w-k))) >>s k
		s := c.LShr(c.AShr(a, c.Const(a.w, uint64(a.w-1))), c.Const(a.w, uint64(int(a.w)-k)))
		return c.AShr(c.Add(a, s), c.Const(a.w, uint64(k)))
	}
	return c.raw(OSDiv, a.w, a, b, nil, 0)
}

func (c *Ctx) SRem(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OSRem, a.w, a, b, 0)
	}
	top := uint64(1) << (a.w - 1)
	if a.op == OConst && b.op == OConst && b.k != 0 {
		x, y := sext(a.k, a.w), sext(b.k, a.w)
		if y == -1 {
			return c.Const(a.w, 0)
		}
		return c.Const(a.w, uint64(x%y))
	}
	if a.kz&top != 0 && b.kz&top != 0 {
		return c.URem(a, b)
	}
	if b.op == OConst && b.k&top == 0 && b.k != 0 && b.k&(b.k-1) == 0 {
		k := uint64(bits.TrailingZeros64(b.k))
		q := c.SDiv(a, b)
		return c.Sub(a, c.Shl(q, c.Const(a.w, k)))
	}
	return c.raw(OSRem, a.w, a, b, nil, 0)
}

func (c *Ctx) BAnd(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OBAnd, a.w, a, b, 0)
	}
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	m := mask(a.w)
	// positions where the result is not trivially known
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k&b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k&^a.kz == ^a.kz&m { // mask keeps every possibly-one bit
			return a
		}
		if b.k&^a.kz == 0 {
			return c.Const(a.w, 0)
		}
		k := b.k
		// contiguous mask -> extract
		tz := uint(bits.TrailingZeros64(k))
		if run := k >> tz; run&(run+1) == 0 {
			n := uint8(bits.Len64(run))
			return c.placeAt(c.Extract(a, uint8(tz), n), uint8(tz), a.w)
		}
		switch a.op {
		case OBAnd:
			if a.b.op == OConst {
				return c.BAnd(a.a, c.Const(a.w, a.b.k&k))
			}
		case OBOr:
			return c.BOr(c.BAnd(a.a, b), c.BAnd(a.b, b))
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.BAnd(a.b, b), c.BAnd(a.c, b))
			}
		}
		return c.raw(OBAnd, a.w, a, b, nil, 0)
	}
	if (a.kz|b.kz)&m == m {
		return c.Const(a.w, 0)
	}
	if a.h > b.h {
		a, b = b, a
	}
	return c.raw(OBAnd, a.w, a, b, nil, 0)
}

// placeAt returns x shifted left by lo inside width w.
func (c *Ctx) placeAt(x *Expr, lo, w uint8) *Expr {
	if lo > 0 {
		x = c.Concat(x, c.Const(lo, 0))
	}
	return c.ZExt(x, w)
}

func (c *Ctx) BOr(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OBOr, a.w, a, b, 0)
	}
	if a == b {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	m := mask(a.w)
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == m {
			return b
		}
		if b.k&^a.ko == 0 {
			return a
		}
		if a.op == OBOr && a.b.op == OConst {
			return c.BOr(a.a, c.Const(a.w, a.b.k|b.k))
		}
	}
	// disjoint pieces: build a concat when one side lives strictly above the other
	if b.op != OConst || true {
		if r := c.orConcat(a, b); r != nil {
			return r
		}
		if r := c.orConcat(b, a); r != nil {
			return r
		}
	}
	if b.op != OConst && a.h > b.h {
		a, b = b, a
	}
	return c.raw(OBOr, a.w, a, b, nil, 0)
}

// orConcat handles hi|lo where lo fits in the low n bits and hi has them zero.
func (c *Ctx) orConcat(hi, lo *Expr) *Expr {
	n := uint8(bits.Len64(lo.umax()))
	if n == 0 || n >= hi.w {
		return nil
	}
	if hi.kz&mask(n) != mask(n) {
		return nil
	}
	top := c.Extract(hi, n, hi.w-n)
	low := c.Extract(lo, 0, n)
	return c.Concat(top, low)
}

func (c *Ctx) BXor(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OBXor, a.w, a, b, 0)
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	m := mask(a.w)
	if b.op == OConst {
		if a.op == OConst {
			return c.Const(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == m {
			return c.BNot(a)
		}
		if a.op == OBXor && a.b.op == OConst {
			return c.BXor(a.a, c.Const(a.w, a.b.k^b.k))
		}
	}
	if (a.kz|b.kz)&m == m {
		return c.BOr(a, b)
	}
	if b.op != OConst && a.h > b.h {
		a, b = b, a
	}
	return c.raw(OBXor, a.w, a, b, nil, 0)
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if c.plain {
		return c.pl(OBNot, a.w, a, nil, 0)
	}
	if a.op == OConst {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.raw(OBNot, a.w, a, nil, nil, 0)
}

// Shl etc. take a shift amount of the same width; amounts >= width give 0 / sign.
func (c *Ctx) Shl(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OShl, a.w, a, b, 0)
	}
	if b.op == OConst {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OConst {
			return c.Const(a.w, a.k<<b.k)
		}
		k := uint8(b.k)
		return c.Concat(c.Extract(a, 0, a.w-k), c.Const(k, 0))
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return c.raw(OShl, a.w, a, b, nil, 0)
}

func (c *Ctx) LShr(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OLShr, a.w, a, b, 0)
	}
	if b.op == OConst {
		if b.k >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.k == 0 {
			return a
		}
		k := uint8(b.k)
		return c.ZExt(c.Extract(a, k, a.w-k), a.w)
	}
	if a.op == OConst && a.k == 0 {
		return a
	}
	return c.raw(OLShr, a.w, a, b, nil, 0)
}

func (c *Ctx) AShr(a, b *Expr) *Expr {
	if c.plain {
		return c.pl(OAShr, a.w, a, b, 0)
	}
	if b.op == OConst {
		k := b.k
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		if a.kz&(uint64(1)<<(a.w-1)) != 0 {
			return c.LShr(a, c.Const(a.w, k))
		}
		return c.SExt(c.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	if a.kz&(uint64(1)<<(a.w-1)) != 0 {
		return c.LShr(a, b)
	}
	return c.raw(OAShr, a.w, a, b, nil, 0)
}

// Extract returns n bits of a starting at lo.
func (c *Ctx) Extract(a *Expr, lo, n uint8) *Expr {
	if lo == 0 && n == a.w {
		return a
	}
	if c.plain {
		return c.pl(OExtract, n, a, nil, uint64(lo))
	}
	if a.op == OConst {
		return c.Const(n, a.k>>lo)
	}
	mm := mask(n) << lo
	if (a.kz|a.ko)&mm == mm {
		return c.Const(n, (a.ko&mm)>>lo)
	}
	switch a.op {
	case OBAnd, OBOr, OBXor, OIte, OAdd, OSub, OMul, OConcat:
		k := extKey{a, lo, n}
		if e := c.ext[k]; e != nil {
			return e
		}
		e := c.extract(a, lo, n)
		c.ext[k] = e
		return e
	}
	return c.extract(a, lo, n)
}

func (c *Ctx) extract(a *Expr, lo, n uint8) *Expr {
	switch a.op {
	case OExtract:
		return c.Extract(a.a, uint8(a.k)+lo, n)
	case OConcat:
		bw := a.b.w
		if lo+n <= bw {
			return c.Extract(a.b, lo, n)
		}
		if lo >= bw {
			return c.Extract(a.a, lo-bw, n)
		}
		return c.Concat(c.Extract(a.a, 0, lo+n-bw), c.Extract(a.b, lo, bw-lo))
	case OZExt:
		if lo+n <= a.a.w {
			return c.Extract(a.a, lo, n)
		}
		// lo < a.a.w here (else constant zero above)
		return c.ZExt(c.Extract(a.a, lo, a.a.w-lo), n)
	case OSExt:
		if lo+n <= a.a.w {
			return c.Extract(a.a, lo, n)
		}
		if lo < a.a.w {
			return c.SExt(c.Extract(a.a, lo, a.a.w-lo), n)
		}
		return c.SExt(c.Extract(a.a, a.a.w-1, 1), n)
	case OBAnd:
		return c.BAnd(c.Extract(a.a, lo, n), c.Extract(a.b, lo, n))
	case OBOr:
		return c.BOr(c.Extract(a.a, lo, n), c.Extract(a.b, lo, n))
	case OBXor:
		return c.BXor(c.Extract(a.a, lo, n), c.Extract(a.b, lo, n))
	case OBNot:
		return c.BNot(c.Extract(a.a, lo, n))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Extract(a.b, lo, n), c.Extract(a.c, lo, n))
		}
	case OAdd:
		if lo == 0 {
			return c.Add(c.Extract(a.a, 0, n), c.Extract(a.b, 0, n))
		}
	case OSub:
		if lo == 0 {
			return c.Sub(c.Extract(a.a, 0, n), c.Extract(a.b, 0, n))
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.a, 0, n), c.Extract(a.b, 0, n))
		}
	}
	return c.raw(OExtract, n, a, nil, nil, uint64(lo))
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if c.plain {
		return c.pl(OZExt, w, a, nil, 0)
	}
	if a.w > w {
		panic("zext narrowing")
	}
	if a.op == OConst {
		return c.Const(w, a.k)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	// strip known-zero high bits
	if n := uint8(bits.Len64(a.umax())); n < a.w && n > 0 {
		x := c.Extract(a, 0, n)
		if x.op != OExtract {
			return c.raw(OZExt, w, x, nil, nil, 0)
		}
	}
	return c.raw(OZExt, w, a, nil, nil, 0)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if c.plain {
		return c.pl(OSExt, w, a, nil, 0)
	}
	if a.op == OConst {
		return c.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.kz&(uint64(1)<<(a.w-1)) != 0 {
		return c.ZExt(a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a, w)
	}
	return c.raw(OSExt, w, a, nil, nil, 0)
}

func (c *Ctx) Concat(hi, lo *Expr) *Expr {
	w := hi.w + lo.w
	if c.plain {
		return c.pl(OConcat, w, hi, lo, 0)
	}
	if hi.op == OConst && lo.op == OConst {
		return c.Const(w, hi.k<<lo.w|lo.k)
	}
	if hi.op == OConst && hi.k == 0 {
		return c.ZExt(lo, w)
	}
	if hi.op == OZExt {
		return c.ZExt(c.Concat(hi.a, lo), w)
	}
	// adjacent extracts
	if hi.op == OExtract && lo.op == OExtract && hi.a == lo.a && hi.k == lo.k+uint64(lo.w) {
		return c.Extract(hi.a, uint8(lo.k), w)
	}
	if lo.op == OConcat && hi.op == OExtract && lo.a.op == OExtract && hi.a == lo.a.a && hi.k == lo.a.k+uint64(lo.a.w) {
		return c.Concat(c.Extract(hi.a, uint8(lo.a.k), hi.w+lo.a.w), lo.b)
	}
	if hi.op == OConcat {
		// right-associate so that adjacent pieces meet
		return c.Concat(hi.a, c.Concat(hi.b, lo))
	}
	if hi.op == OConst && lo.op == OConcat && lo.a.op == OConst {
		return c.Concat(c.Const(hi.w+lo.a.w, hi.k<<lo.a.w|lo.a.k), lo.b)
	}
	return c.raw(OConcat, w, hi, lo, nil, 0)
}

// Bool2BV gives a 1-bit-in-w vector.
func (c *Ctx) Bool2BV(b *Expr, w uint8) *Expr {
	return c.Ite(b, c.Const(w, 1), c.Const(w, 0))
}

// ---- floats ----

func (c *Ctx) fconstBits(w uint8, f float64) *Expr { return c.FConst(w, f) }

func (c *Ctx) FBin(op Op, a, b *Expr) *Expr {
	if a.op == OConst && b.op == OConst {
		return c.constOf(fbin(op, a.w, a.k, b.k), resW(op, a.w))
	}
	return c.raw(op, resW(op, a.w), a, b, nil, 0)
}

func (c *Ctx) constOf(k uint64, w uint8) *Expr {
	if w == WBool {
		return c.Bool(k != 0)
	}
	return c.raw(OConst, w, nil, nil, nil, k)
}

func resW(op Op, w uint8) uint8 {
	switch op {
	case OFEq, OFLt, OFLe:
		return WBool
	}
	return w
}

func fbits(w uint8, f float64) uint64 {
	if w == WF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func ffrom(w uint8, k uint64) float64 {
	if w == WF32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fbin(op Op, w uint8, a, b uint64) uint64 {
	if w == WF32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		switch op {
		case OFAdd:
			return uint64(math.Float32bits(x + y))
		case OFSub:
			return uint64(math.Float32bits(x - y))
		case OFMul:
			return uint64(math.Float32bits(x * y))
		case OFDiv:
			return uint64(math.Float32bits(x / y))
		case OFEq:
			return b2u(x == y)
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		}
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OFAdd:
		return math.Float64bits(x + y)
	case OFSub:
		return math.Float64bits(x - y)
	case OFMul:
		return math.Float64bits(x * y)
	case OFDiv:
		return math.Float64bits(x / y)
	case OFEq:
		return b2u(x == y)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	}
	panic("fbin")
}

// FUn builds a conversion / unary float op with result width w.
func (c *Ctx) FUn(op Op, w uint8, a *Expr, k uint64) *Expr {
	if a.op == OConst {
		return c.constOf(fun1(op, w, a.w, a.k, k), w)
	}
	return c.raw(op, w, a, nil, nil, k)
}

func fun1(op Op, w, aw uint8, a, k uint64) uint64 {
	switch op {
	case OS2F:
		if w == WF32 {
			return uint64(math.Float32bits(float32(sext(a, aw))))
		}
		return math.Float64bits(float64(sext(a, aw)))
	case OU2F:
		if w == WF32 {
			return uint64(math.Float32bits(float32(a)))
		}
		return math.Float64bits(float64(a))
	case OF2S:
		return uint64(int64(ffrom(aw, a))) & mask(w)
	case OF2U:
		return uint64(ffrom(aw, a)) & mask(w)
	case OF2F:
		return fbits(w, ffrom(aw, a))
	case OFNeg:
		return fbits(w, -ffrom(aw, a))
	case OFRound:
		f := ffrom(aw, a)
		switch k {
		case 0:
			f = math.Floor(f)
		case 1:
			f = math.Ceil(f)
		default:
			f = math.Trunc(f)
		}
		return fbits(w, f)
	}
	panic("fun1")
}

// ---- evaluation under a model ----

type evaluator struct {
	model []uint64
	memo  map[*Expr]uint64
}

func (ev *evaluator) eval(e *Expr) uint64 {
	switch e.op {
	case OConst:
		return e.k
	case OVar:
		if int(e.k) < len(ev.model) {
			return ev.model[e.k] & maskAny(e.w)
		}
		return 0
	}
	if v, ok := ev.memo[e]; ok {
		return v
	}
	v := ev.eval1(e)
	ev.memo[e] = v
	return v
}

func maskAny(w uint8) uint64 {
	if w == WBool {
		return 1
	}
	return mask(w)
}

func (ev *evaluator) eval1(e *Expr) uint64 {
	m := maskAny(e.w)
	switch e.op {
	case ONot:
		return 1 - ev.eval(e.a)
	case OAnd:
		if ev.eval(e.a) == 0 {
			return 0
		}
		return ev.eval(e.b)
	case OOr:
		if ev.eval(e.a) != 0 {
			return 1
		}
		return ev.eval(e.b)
	case OIte:
		if ev.eval(e.a) != 0 {
			return ev.eval(e.b)
		}
		return ev.eval(e.c)
	}
	if e.b == nil {
		a := ev.eval(e.a)
		switch e.op {
		case OBNot:
			return ^a & m
		case OExtract:
			return (a >> e.k) & m
		case OZExt:
			return a
		case OSExt:
			return uint64(sext(a, e.a.w)) & m
		}
		return fun1(e.op, e.w, e.a.w, a, e.k)
	}
	a, b := ev.eval(e.a), ev.eval(e.b)
	aw := e.a.w
	switch e.op {
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(a, aw), sext(b, aw)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(aw) {
			return 0
		}
		return (a << b) & m
	case OLShr:
		if b >= uint64(aw) {
			return 0
		}
		return a >> b
	case OAShr:
		if b >= uint64(aw) {
			b = uint64(aw) - 1
		}
		return uint64(sext(a, aw)>>b) & m
	case OConcat:
		return a<<e.b.w | b
	}
	return fbin(e.op, aw, a, b)
}

// ---- variable sets ----

type varset struct{ w []uint64 }

func newVarset(i int) *varset {
	v := &varset{w: make([]uint64, i/64+1)}
	v.w[i/64] = 1 << uint(i%64)
	return v
}

func (a *varset) union(b *varset) *varset {
	if a == b || len(b.w) == 0 {
		return a
	}
	if len(a.w) == 0 {
		return b
	}
	// containment
	big, small := a, b
	if len(b.w) > len(a.w) {
		big, small = b, a
	}
	cont := true
	for i, x := range small.w {
		if x&^big.w[i] != 0 {
			cont = false
			break
		}
	}
	if cont {
		return big
	}
	r := &varset{w: append([]uint64(nil), big.w...)}
	for i, x := range small.w {
		r.w[i] |= x
	}
	return r
}

func (a *varset) intersects(b *varset) bool {
	n := min(len(a.w), len(b.w))
	for i := 0; i < n; i++ {
		if a.w[i]&b.w[i] != 0 {
			return true
		}
	}
	return false
}

func (a *varset) each(f func(int)) {
	for i, x := range a.w {
		for x != 0 {
			t := bits.TrailingZeros64(x)
			f(i*64 + t)
			x &^= 1 << uint(t)
		}
	}
}

// pl builds an expression without rewriting; constants are still folded.
func (c *Ctx) pl(op Op, w uint8, a, b *Expr, k uint64) *Expr {
	if a.op == OConst && (b == nil || b.op == OConst) {
		ev := evaluator{memo: map[*Expr]uint64{}}
		v := ev.eval1(&Expr{op: op, w: w, a: a, b: b, k: k})
		if w == WBool {
			return c.Bool(v != 0)
		}
		return c.Const(w, v)
	}
	return c.raw(op, w, a, b, nil, k)
}
