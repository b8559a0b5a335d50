package main

// Substitution of variables that the path condition fixes to a constant.

func (c *Ctx) rebuild(e *Expr, x, y, z *Expr) *Expr {
	switch e.op {
	case ONot:
		return c.Not(x)
	case OAnd:
		return c.And(x, y)
	case OOr:
		return c.Or(x, y)
	case OIte:
		return c.Ite(x, y, z)
	case OEq:
		return c.Eq(x, y)
	case OUlt:
		return c.Ult(x, y)
	case OUle:
		return c.Ule(x, y)
	case OSlt:
		return c.Slt(x, y)
	case OSle:
		return c.Sle(x, y)
	case OAdd:
		return c.Add(x, y)
	case OSub:
		return c.Sub(x, y)
	case OMul:
		return c.Mul(x, y)
	case OUDiv:
		return c.UDiv(x, y)
	case OURem:
		return c.URem(x, y)
	case OSDiv:
		return c.SDiv(x, y)
	case OSRem:
		return c.SRem(x, y)
	case OBAnd:
		return c.BAnd(x, y)
	case OBOr:
		return c.BOr(x, y)
	case OBXor:
		return c.BXor(x, y)
	case OBNot:
		return c.BNot(x)
	case OShl:
		return c.Shl(x, y)
	case OLShr:
		return c.LShr(x, y)
	case OAShr:
		return c.AShr(x, y)
	case OExtract:
		return c.Extract(x, uint8(e.k), e.w)
	case OZExt:
		return c.ZExt(x, e.w)
	case OSExt:
		return c.SExt(x, e.w)
	case OConcat:
		return c.Concat(x, y)
	case OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe:
		return c.FBin(e.op, x, y)
	}
	return c.FUn(e.op, e.w, x, e.k)
}

// fix records that a variable has a constant value on this path.
func (m *Machine) fix(v *Expr, val uint64) {
	p := m.path
	if p.fixed == nil {
		p.fixed = map[int]uint64{}
	}
	p.fixed[int(v.k)] = val
	p.fixedSet = p.fixedSet.union2(newVarset(int(v.k)))
	p.substMemo = map[*Expr]*Expr{}
}

func (a *varset) union2(b *varset) *varset {
	if a == nil {
		return b
	}
	return a.union(b)
}

// sub replaces fixed variables by their values.
func (m *Machine) sub(e *Expr) *Expr {
	p := m.path
	if p.fixedSet == nil || p.plain != nil || e.op == OConst || !e.vars.intersects(p.fixedSet) {
		return e
	}
	return m.sub1(e)
}

func (m *Machine) sub1(e *Expr) *Expr {
	p := m.path
	if e == nil || e.op == OConst || !e.vars.intersects(p.fixedSet) {
		return e
	}
	if e.op == OVar {
		v, ok := p.fixed[int(e.k)]
		if !ok {
			return e
		}
		if e.w == WBool {
			return m.ctx.Bool(v != 0)
		}
		return m.ctx.constOf(v, e.w)
	}
	if r, ok := p.substMemo[e]; ok {
		return r
	}
	r := m.ctx.rebuild(e, m.sub1(e.a), m.sub1(e.b), m.sub1(e.c))
	p.substMemo[e] = r
	return r
}
