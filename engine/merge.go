package main

// If-conversion: side-effect-free (or store-only) regions under a symbolic
// condition are executed on both sides and merged with ite instead of forking.

func (m *Machine) undo(sp *specState) {
	for i := len(sp.slots) - 1; i >= 0; i-- {
		*sp.slots[i].p = sp.slots[i].old
	}
	for i := len(sp.elems) - 1; i >= 0; i-- {
		u := sp.elems[i]
		u.a.set(u.i, u.old)
	}
}

type slotVal struct {
	p *Value
	v Value
}
type elemVal struct {
	a *Arr
	i int
	v *Expr
}

// take captures the current contents of the journalled locations and undoes.
func (m *Machine) take(sp *specState) (ss []slotVal, es []elemVal) {
	for _, u := range sp.slots {
		dup := false
		for _, x := range ss {
			if x.p == u.p {
				dup = true
				break
			}
		}
		if !dup {
			ss = append(ss, slotVal{u.p, *u.p})
		}
	}
	for _, u := range sp.elems {
		dup := false
		for _, x := range es {
			if x.a == u.a && x.i == u.i {
				dup = true
				break
			}
		}
		if !dup {
			es = append(es, elemVal{u.a, u.i, u.a.get(u.i)})
		}
	}
	m.undo(sp)
	return
}

func (m *Machine) mergeVal(c *Expr, a, b Value) Value {
	x, ok1 := a.(*Expr)
	y, ok2 := b.(*Expr)
	if ok1 && ok2 {
		if x.w != y.w {
			panic(specAbort{})
		}
		return m.ctx.Ite(c, x, y)
	}
	if ok1 != ok2 || !sameVal(a, b) {
		panic(specAbort{})
	}
	return a
}

func sameVal(a, b Value) (r bool) {
	defer func() {
		if recover() != nil {
			r = false
		}
	}()
	switch a.(type) {
	case *StructV, *Arr, Tuple:
		return false
	}
	return a == b
}

func (m *Machine) phiVals(fr *frame, b *cblock, pred int) []Value {
	if b.nphi == 0 {
		return nil
	}
	pi := -1
	for i, p := range b.pred {
		if p == pred {
			pi = i
			break
		}
	}
	r := make([]Value, b.nphi)
	for k := range r {
		r[k] = m.val(fr, &b.ins[k].ops[pi])
	}
	return r
}

func (m *Machine) setPhis(fr *frame, b *cblock, vs []Value) {
	for k, v := range vs {
		fr.regs[b.ins[k].dst] = v
	}
}

// tryMerge if-converts the region of the branch ending block bi; on success the
// memory effects are applied and the phi values of its post-dominator, or the
// function's results if both sides return, are returned.
func (m *Machine) tryMerge(fr *frame, bi int, cond *Expr) (vals []Value, ok bool) {
	outer := m.spec
	curIns, curFn, depth := m.cur, m.curFn, m.depth
	left := 300
	if m.path.unmerged == nil {
		m.path.unmerged = map[*cblock]int{}
	}
	if m.path.unmerged[&fr.c.blocks[bi]] >= 4 {
		return nil, false
	}
	if outer != nil {
		left = outer.left
	}
	sp := &specState{left: left}
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(specAbort); !is {
				panic(x)
			}
			if m.spec == sp {
				m.undo(sp)
			}
			m.spec = outer
			m.cur, m.curFn, m.depth = curIns, curFn, depth
			vals, ok = nil, false
			// deterministic: replaying the path counts the same failures
			m.path.unmerged[&fr.c.blocks[bi]]++
		}
	}()
	b := &fr.c.blocks[bi]
	j := b.idom
	m.spec = sp
	va := m.specSide(fr, b.succ[0], bi, j)
	sa, ea := m.take(sp)
	sp.slots, sp.elems = nil, nil
	vb := m.specSide(fr, b.succ[1], bi, j)
	sb, eb := m.take(sp)
	left = sp.left
	m.spec = outer
	if outer != nil {
		outer.left = left
	}
	// compute everything first (may abort), then apply
	vals = make([]Value, len(va))
	for k := range va {
		vals[k] = m.mergeVal(cond, va[k], vb[k])
	}
	var os []slotVal
	for _, x := range sa {
		o := *x.p
		for _, y := range sb {
			if y.p == x.p {
				o = y.v
			}
		}
		os = append(os, slotVal{x.p, m.mergeVal(cond, x.v, o)})
	}
	for _, y := range sb {
		dup := false
		for _, x := range sa {
			if x.p == y.p {
				dup = true
			}
		}
		if !dup {
			os = append(os, slotVal{y.p, m.mergeVal(cond, *y.p, y.v)})
		}
	}
	var oe []elemVal
	for _, x := range ea {
		o := x.a.get(x.i)
		for _, y := range eb {
			if y.a == x.a && y.i == x.i {
				o = y.v
			}
		}
		oe = append(oe, elemVal{x.a, x.i, m.ctx.Ite(cond, x.v, o)})
	}
	for _, y := range eb {
		dup := false
		for _, x := range ea {
			if x.a == y.a && x.i == y.i {
				dup = true
			}
		}
		if !dup {
			oe = append(oe, elemVal{y.a, y.i, m.ctx.Ite(cond, y.a.get(y.i), y.v)})
		}
	}
	m.path.unmerged[b] = -1 << 30
	for _, x := range os {
		m.setSlot(x.p, x.v)
	}
	for _, x := range oe {
		m.setElem(x.a, x.i, x.v)
	}
	return vals, true
}

func (m *Machine) specSide(fr *frame, bi, pred, join int) []Value {
	c := fr.c
	skip := false
	for bi != join {
		b := &c.blocks[bi]
		if !b.speculable {
			panic(specAbort{})
		}
		m.step(len(b.ins))
		if b.nphi > 0 && !skip {
			m.phis(fr, b, pred)
		}
		skip = false
		next := -1
		for k := b.nphi; k < len(b.ins); k++ {
			ci := &b.ins[k]
			m.spec.left--
			if m.spec.left < 0 {
				panic(specAbort{})
			}
			switch ci.k {
			case kIf:
				cond := m.sub(fr.regs2(m, &ci.ops[0]))
				if cond.op == OConst {
					if cond.k != 0 {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				} else if v, ok := m.path.known[cond]; ok {
					if v {
						next = b.succ[0]
					} else {
						next = b.succ[1]
					}
				} else {
					vals, ok := m.tryMerge(fr, bi, cond)
					if !ok {
						panic(specAbort{})
					}
					if b.idom == join {
						return vals
					}
					m.setPhis(fr, &c.blocks[b.idom], vals)
					skip = true
					next = b.idom
				}
			case kJump:
				next = b.succ[0]
			case kReturn:
				r := make([]Value, len(ci.ops))
				for i := range r {
					r[i] = m.val(fr, &ci.ops[i])
				}
				return r
			default:
				m.exec(fr, ci)
			}
			if next >= 0 {
				break
			}
		}
		pred, bi = bi, next
	}
	return m.phiVals(fr, &c.blocks[join], pred)
}

// tryFuse evaluates a chain of short-circuit conditions as one condition.
// It returns the successor taken (possibly by forking once) with its phi
// values resolved.
func (m *Machine) tryFuse(fr *frame, bi int, cond *Expr) (next int, vals []Value, ok bool) {
	c := fr.c
	b := &c.blocks[bi]
	s := int(b.fuse)
	d := b.succ[1-s] // the shared target
	cont := cond
	if s == 1 {
		cont = m.ctx.Not(cond)
	}
	type entry struct {
		cond *Expr
		vals []Value
	}
	dblk := &c.blocks[d]
	var ents []entry
	ents = append(ents, entry{m.ctx.Not(cont), m.phiVals(fr, dblk, bi)})
	x := b.succ[s]
	last, n := -1, -1
	for depth := 0; depth < 8; depth++ {
		xb := &c.blocks[x]
		if len(xb.pred) != 1 || len(xb.succ) != 2 || !xb.speculable || (xb.succ[0] != d && xb.succ[1] != d) || xb.succ[0] == xb.succ[1] {
			break
		}
		cx, good := m.specCond(fr, xb)
		if !good {
			break
		}
		t := 0
		if xb.succ[1] == d {
			t = 1
		}
		toD := cx
		if t == 1 {
			toD = m.ctx.Not(cx)
		}
		ents = append(ents, entry{m.ctx.And(cont, toD), m.phiVals(fr, dblk, x)})
		cont = m.ctx.And(cont, m.ctx.Not(toD))
		last, n = x, xb.succ[1-t]
		x = n
		if n == bi {
			break
		}
	}
	if last < 0 {
		return 0, nil, false
	}
	// merged phi values on entry to d
	dv := ents[len(ents)-1].vals
	for i := len(ents) - 2; i >= 0; i-- {
		nv := make([]Value, len(dv))
		for k := range dv {
			v, good := m.mergeValOK(ents[i].cond, ents[i].vals[k], dv[k])
			if !good {
				return 0, nil, false
			}
			nv[k] = v
		}
		dv = nv
	}
	nvals := m.phiVals(fr, &c.blocks[n], last)
	if m.branch(cont) {
		return n, nvals, true
	}
	return d, dv, true
}

func (m *Machine) mergeValOK(c *Expr, a, b Value) (v Value, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(specAbort); !is {
				panic(x)
			}
			ok = false
		}
	}()
	return m.mergeVal(c, a, b), true
}

func (m *Machine) specCond(fr *frame, xb *cblock) (cond *Expr, ok bool) {
	outer := m.spec
	curIns, curFn, depth := m.cur, m.curFn, m.depth
	sp := &specState{left: 60}
	m.spec = sp
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(specAbort); !is {
				panic(x)
			}
			ok = false
			m.cur, m.curFn, m.depth = curIns, curFn, depth
		}
		m.undo(sp)
		m.spec = outer
	}()
	for k := 0; k < len(xb.ins); k++ {
		ci := &xb.ins[k]
		switch ci.k {
		case kPhi: // single predecessor
			fr.regs[ci.dst] = m.val(fr, &ci.ops[0])
		case kStore:
			return nil, false
		case kIf:
			// a called function may have stored
			if len(sp.slots)+len(sp.elems) > 0 {
				return nil, false
			}
			return m.sub(fr.regs2(m, &ci.ops[0])), true
		default:
			m.exec(fr, ci)
		}
	}
	return nil, false
}
