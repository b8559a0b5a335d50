package main

// The interpreter: executes SSA over symbolic values along one path.

import (
	"fmt"
	"go/token"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Machine struct {
	ctx     *Ctx
	prog    *ssa.Program
	fns     map[*ssa.Function]*cfn
	solver  *Solver
	path    *Path
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]int // 1 running, 2 done
	spec    *specState
	ev      evaluator
	pools   map[*Value][]Value
	fs      *vfs
	ticks   uint32
	depth   int
	par     *parState
	cur     ssa.Instruction
	curFn   *cfn
	eng     *Engine
	locks   map[*Value]*int
}

type frame struct {
	c        *cfn
	regs     []Value
	caller   *frame
	defers   []deferred
	panicing *targetPanic
	recovd   bool
	inDefer  bool
	result   Value
}

type deferred struct {
	cl   *Closure
	args []Value
	inv  *types.Func
	recv Value
}

type specState struct {
	slots []slotUndo
	elems []elemUndo
	left  int
	trial bool // a run in one iteration order, see tryOrders
	plan  []int
	width []int
	at    int
}
type slotUndo struct {
	p   *Value
	old Value
}
type elemUndo struct {
	a   *Arr
	i   int
	old *Expr
}
type specAbort struct{}

// tryOrders runs a function that ranges over a map without side effects in every iteration order; if the result is always the
// same, there is nothing to fork on.
func (m *Machine) tryOrders(cl *Closure, args []Value) (res Value, ok bool) {
	depth, curIns, curFn := m.depth, m.cur, m.curFn
	sp := &specState{left: 1 << 30, trial: true}
	defer func() {
		m.spec = nil
		m.depth, m.cur, m.curFn = depth, curIns, curFn
		if x := recover(); x != nil {
			switch x.(type) {
			case specAbort, targetPanic:
				res, ok = nil, false
			default:
				panic(x)
			}
		}
	}()
	for n := 0; n < 200; n++ {
		sp.at = 0
		m.spec = sp
		r := m.call1(nil, cl, args)
		m.spec = nil
		if n == 0 {
			res = r
		} else if !sameVal(res, r) {
			return nil, false
		}
		// next plan
		k := sp.at - 1
		for ; k >= 0; k-- {
			if sp.plan[k]++; sp.plan[k] < sp.width[k] {
				break
			}
		}
		if k < 0 {
			return res, true
		}
		sp.plan, sp.width = sp.plan[:k+1], sp.width[:k+1]
	}
	return nil, false
}

// order is the next choice of a trial.
func (s *specState) order(n int) int {
	if s.at == len(s.plan) {
		s.plan, s.width = append(s.plan, 0), append(s.width, n)
	}
	s.at++
	return s.plan[s.at-1]
}

// effect reports instructions a trial may not execute.
func effect(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Store, *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max", "ssa:wrapnilchk", "real", "imag", "complex":
			default:
				return true
			}
		}
	}
	return false
}

func (s *specState) slot(p *Value)      { s.slots = append(s.slots, slotUndo{p, *p}) }
func (s *specState) elem(a *Arr, i int) { s.elems = append(s.elems, elemUndo{a, i, a.get(i)}) }

const maxDepth = 400

func (m *Machine) pos() string {
	if m.cur == nil {
		return "?"
	}
	p := m.cur.Pos()
	if !p.IsValid() && m.cur.Parent() != nil {
		p = m.cur.Parent().Pos()
	}
	ps := m.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

func (m *Machine) rtPanic(f string, a ...interface{}) {
	if m.spec != nil {
		panic(specAbort{})
	}
	panic(targetPanic{runtime: true, msg: sprintf(f, a...), pos: m.pos(), val: Iface{t: types.Typ[types.String], v: &Str{opaque: true}}})
}

func (m *Machine) val(fr *frame, o *opnd) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	if o.r == -1 {
		if o.v == nil {
			return o.v
		}
		return o.v
	}
	if o.r == -2 {
		return Ptr{c: m.global(o.g)}
	}
	return nil
}

func (m *Machine) global(g *ssa.Global) *Value {
	if s, ok := m.globals[g]; ok {
		return s
	}
	m.ensureInit(g.Pkg)
	if s, ok := m.globals[g]; ok {
		return s
	}
	s := new(Value)
	*s = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = s
	return s
}

func (m *Machine) ensureInit(p *ssa.Package) {
	if p == nil || m.inited[p] != 0 {
		return
	}
	path := p.Pkg.Path()
	if !initAllowed(path) {
		unsupported("global of package %s", path)
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	m.inited[p] = 1
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		m.call(nil, &Closure{fn: f}, nil)
	}
	m.inited[p] = 2
}

// call runs a function value.
func (m *Machine) call(caller *frame, cl *Closure, args []Value) Value {
	if cl != nil && cl.fn != nil && m.spec == nil && m.par == nil {
		if c := m.compiled(cl.fn); c.mapRange {
			if r, ok := m.tryOrders(cl, args); ok {
				return r
			}
		}
	}
	return m.call1(caller, cl, args)
}

func (m *Machine) call1(caller *frame, cl *Closure, args []Value) Value {
	if cl == nil {
		m.rtPanic("call of nil function")
	}
	if cl.bi != nil {
		return m.builtin(caller, cl.bi, args, nil)
	}
	if cl.host != nil {
		if m.spec != nil {
			panic(specAbort{})
		}
		return cl.host(m, args)
	}
	fn := cl.fn
	c := m.compiled(fn)
	if c.intr != nil {
		if m.spec != nil {
			panic(specAbort{})
		}
		return c.intr(m, caller, args)
	}
	if fn.Blocks == nil {
		unsupported("external function %s", c.name)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && caller != nil && fn.Pkg != nil && fn.Signature.Recv() == nil {
		// package initialiser called from another initialiser
		if initAllowed(fn.Pkg.Pkg.Path()) && isTargetPkg(fn.Pkg.Pkg.Path()) {
			m.ensureInit(fn.Pkg)
		}
		return nil
	}
	if m.spec != nil && !m.spec.trial && !c.pure {
		panic(specAbort{})
	}
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		panic(pathAbort{abSteps, "call depth exceeded in " + c.name})
	}
	fr := &frame{c: c, regs: make([]Value, c.nregs), caller: caller}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], cl.free)
	if c.target && !c.covered {
		c.covered = true
		m.eng.cover(c.name, fn)
	}
	var r Value
	if c.hasDefer {
		r = m.runDeferring(fr)
	} else {
		r = m.run(fr, 0, -1)
	}
	m.depth--
	return r
}

func (m *Machine) runDeferring(fr *frame) (res Value) {
	depth := m.depth
	func() {
		defer func() {
			if x := recover(); x != nil {
				tp, ok := x.(targetPanic)
				if !ok {
					panic(x)
				}
				fr.panicing = &tp
			}
		}()
		res = m.run(fr, 0, -1)
	}()
	if fr.panicing == nil {
		return res
	}
	m.depth = depth
	m.runDefers(fr)
	if fr.panicing != nil {
		panic(*fr.panicing)
	}
	// recovered
	if fr.c.fn.Recover != nil {
		return m.run(fr, fr.c.fn.Recover.Index, -1)
	}
	sig := fr.c.fn.Signature.Results()
	switch sig.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(sig.At(0).Type())
	}
	return m.zero(sig)
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := m.depth
			defer func() {
				if x := recover(); x != nil {
					tp, ok := x.(targetPanic)
					if !ok {
						panic(x)
					}
					m.depth = depth
					fr.panicing = &tp
				}
			}()
			fr.inDefer = true
			m.call(fr, d.cl, d.args)
			fr.inDefer = false
		}()
	}
}

func (m *Machine) step(n int) {
	p := m.path
	p.steps += int64(n)
	if p.steps > p.maxSteps {
		panic(pathAbort{abSteps, "step budget exceeded in " + m.curFn.name + " at " + m.pos()})
	}
	if m.ticks++; m.ticks&1023 == 0 && m.eng != nil && !m.eng.deadline.IsZero() && time.Since(m.eng.deadline) > 5*time.Second {
		panic(pathAbort{abBudget, "time over within a path"})
	}
}

// run executes from block bi (entered from pred) until return.
func (m *Machine) run(fr *frame, bi, pred int) Value {
	c := fr.c
	skip := false
	for {
		b := &c.blocks[bi]
		m.curFn = c
		m.step(len(b.ins))
		if sp := m.spec; sp != nil && !sp.trial {
			if sp.left -= len(b.ins); sp.left < 0 {
				panic(specAbort{})
			}
		}
		if b.nphi > 0 && pred >= 0 && !skip {
			m.phis(fr, b, pred)
		}
		skip = false
		next := -1
		for k := b.nphi; k < len(b.ins); k++ {
			ci := &b.ins[k]
			switch ci.k {
			case kIf:
				cond := m.sub(fr.regs2(m, &ci.ops[0]))
				m.cur = ci.ins
				t := -1
				if cond.op == OConst {
					t = int(cond.k)
				} else if kv, ok := m.path.known[cond]; ok {
					t = int(b2u(kv))
				}
				if t >= 0 {
					next = b.succ[1-t]
					break
				}
				if m.path.merge {
					if (m.spec == nil || !m.spec.trial) && b.merge {
						if vals, ok := m.tryMerge(fr, bi, cond); ok {
							if b.idom < 0 {
								m.path.merged++
								switch len(vals) {
								case 0:
									return nil
								case 1:
									return vals[0]
								}
								return Tuple(vals)
							}
							next = b.idom
							m.setPhis(fr, &c.blocks[next], vals)
							skip = true
							m.path.merged++
							break
						}
					} else if m.spec == nil && b.fuse >= 0 {
						if nb, vals, ok := m.tryFuse(fr, bi, cond); ok {
							next = nb
							m.setPhis(fr, &c.blocks[next], vals)
							skip = true
							break
						}
					}
				}
				m.curFn = c
				m.cur = ci.ins
				if m.isTrue(cond) {
					next = b.succ[0]
				} else {
					next = b.succ[1]
				}
			case kJump:
				next = b.succ[0]
			case kReturn:
				switch len(ci.ops) {
				case 0:
					return nil
				case 1:
					return m.val(fr, &ci.ops[0])
				}
				t := make(Tuple, len(ci.ops))
				for i := range t {
					t[i] = m.val(fr, &ci.ops[i])
				}
				return t
			default:
				m.exec(fr, ci)
			}
			if next >= 0 {
				break
			}
		}
		if next < 0 {
			unsupported("fell off block in %s", c.name)
		}
		pred = bi
		bi = next
	}
}

func (fr *frame) regs2(m *Machine, o *opnd) *Expr {
	return m.val(fr, o).(*Expr)
}

func (m *Machine) phis(fr *frame, b *cblock, pred int) {
	pi := -1
	for i, p := range b.pred {
		if p == pred {
			pi = i
			break
		}
	}
	if b.nphi == 1 {
		ci := &b.ins[0]
		fr.regs[ci.dst] = m.val(fr, &ci.ops[pi])
		return
	}
	var tmp [16]Value
	t := tmp[:0]
	for k := 0; k < b.nphi; k++ {
		t = append(t, m.val(fr, &b.ins[k].ops[pi]))
	}
	for k := 0; k < b.nphi; k++ {
		fr.regs[b.ins[k].dst] = t[k]
	}
}

// arithmetic ---------------------------------------------------------------

func (m *Machine) binop(ci *cinst, x, y Value) Value {
	c := m.ctx
	op := token.Token(ci.bop)
	if !ci.elemSc {
		// non-scalar: strings, pointers, interfaces, ...
		switch op {
		case token.EQL:
			return m.eq(x, y)
		case token.NEQ:
			return c.Not(m.eq(x, y))
		}
		if a, ok := x.(*Str); ok {
			b := y.(*Str)
			switch op {
			case token.ADD:
				if a.opaque || b.opaque {
					return &Str{opaque: true}
				}
				if a.b == nil && b.b == nil {
					return concreteStr(a.s + b.s)
				}
				var bs []*Expr
				for i := 0; i < a.length(); i++ {
					bs = append(bs, m.strByte(a, i))
				}
				for i := 0; i < b.length(); i++ {
					bs = append(bs, m.strByte(b, i))
				}
				return m.mkStr(bs)
			case token.LSS:
				return m.strLess(a, b)
			case token.GTR:
				return m.strLess(b, a)
			case token.LEQ:
				return c.Not(m.strLess(b, a))
			case token.GEQ:
				return c.Not(m.strLess(a, b))
			}
		}
		unsupported("binop %v on %T", op, x)
	}
	a, b := x.(*Expr), y.(*Expr)
	w := ci.w
	if isFloatW(w) {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, a, b)
		case token.SUB:
			return c.FBin(OFSub, a, b)
		case token.MUL:
			return c.FBin(OFMul, a, b)
		case token.QUO:
			return c.FBin(OFDiv, a, b)
		case token.EQL:
			return c.FBin(OFEq, a, b)
		case token.NEQ:
			return c.Not(c.FBin(OFEq, a, b))
		case token.LSS:
			return c.FBin(OFLt, a, b)
		case token.LEQ:
			return c.FBin(OFLe, a, b)
		case token.GTR:
			return c.FBin(OFLt, b, a)
		case token.GEQ:
			return c.FBin(OFLe, b, a)
		}
		unsupported("float op %v", op)
	}
	switch op {
	case token.EQL:
		return c.Eq(a, b)
	case token.NEQ:
		return c.Not(c.Eq(a, b))
	}
	if w == WBool {
		switch op {
		case token.LAND, token.AND:
			return c.And(a, b)
		case token.LOR, token.OR:
			return c.Or(a, b)
		}
		unsupported("bool op %v", op)
	}
	switch op {
	case token.ADD:
		return c.Add(a, b)
	case token.SUB:
		return c.Sub(a, b)
	case token.MUL:
		return c.Mul(a, b)
	case token.QUO, token.REM:
		z := c.Eq(b, c.Const(w, 0))
		if m.isTrue(z) {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			if ci.sg {
				return c.SDiv(a, b)
			}
			return c.UDiv(a, b)
		}
		if ci.sg {
			return c.SRem(a, b)
		}
		return c.URem(a, b)
	case token.AND:
		return c.BAnd(a, b)
	case token.OR:
		return c.BOr(a, b)
	case token.XOR:
		return c.BXor(a, b)
	case token.AND_NOT:
		return c.BAnd(a, c.BNot(b))
	case token.SHL, token.SHR:
		if ci.sg2 {
			neg := c.Slt(b, c.Const(b.w, 0))
			if m.isTrue(neg) {
				m.rtPanic("negative shift amount")
			}
		}
		var n *Expr
		if b.w > w {
			over := c.Ule(c.Const(b.w, uint64(w)), b)
			n = c.Ite(over, c.Const(w, uint64(w)), c.Extract(b, 0, w))
		} else {
			n = c.ZExt(b, w)
		}
		if op == token.SHL {
			return c.Shl(a, n)
		}
		if ci.sg {
			return c.AShr(a, n)
		}
		return c.LShr(a, n)
	case token.LSS:
		if ci.sg {
			return c.Slt(a, b)
		}
		return c.Ult(a, b)
	case token.LEQ:
		if ci.sg {
			return c.Sle(a, b)
		}
		return c.Ule(a, b)
	case token.GTR:
		if ci.sg {
			return c.Slt(b, a)
		}
		return c.Ult(b, a)
	case token.GEQ:
		if ci.sg {
			return c.Sle(b, a)
		}
		return c.Ule(b, a)
	}
	unsupported("binop %v", op)
	return nil
}

func (m *Machine) strLess(a, b *Str) *Expr {
	c := m.ctx
	if !a.opaque && !b.opaque && a.b == nil && b.b == nil {
		return c.Bool(a.s < b.s)
	}
	la, lb := a.length(), b.length()
	n := min(la, lb)
	r := c.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.strByte(a, i), m.strByte(b, i)
		r = c.Or(c.Ult(x, y), c.And(c.Eq(x, y), r))
	}
	return r
}

// isTrue forks on e (or aborts speculation when undetermined).
func (m *Machine) isTrue(e *Expr) bool {
	e = m.sub(e)
	if e.op == OConst {
		return e.k != 0
	}
	if m.spec != nil && m.spec.trial {
		panic(specAbort{})
	}
	if v, ok := m.path.known[e]; ok {
		return v
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	return m.branch(e)
}

// concInt forces an integer expression to a concrete int (forking).
func (m *Machine) concInt(e *Expr, signed bool) int {
	e = m.sub(e)
	if e.op == OConst {
		if signed {
			return int(sext(e.k, e.w))
		}
		return int(e.k)
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	v := m.concretize(e)
	if signed {
		return int(sext(v, e.w))
	}
	return int(v)
}

func (m *Machine) to64(e *Expr, signed bool) *Expr {
	if e.w == 64 {
		return e
	}
	if signed {
		return m.ctx.SExt(e, 64)
	}
	return m.ctx.ZExt(e, 64)
}

// index checks idx against n and returns it as an expression.
func (m *Machine) checkIndex(idx *Expr, signed bool, n int) *Expr {
	i := m.to64(m.sub(idx), signed)
	ok := m.ctx.Ult(i, m.ctx.Const(64, uint64(n)))
	if !m.isTrue(ok) {
		m.rtPanic("index out of range [%s] with length %d", exprStr(i), n)
	}
	return i
}

func exprStr(e *Expr) string {
	if e.op == OConst {
		return fmt.Sprint(int64(e.k))
	}
	return "?"
}

const maxIte = 80

func (m *Machine) load(p Ptr) Value {
	if p.c != nil {
		v := *p.c
		switch v.(type) {
		case *StructV, *Arr:
			return copyVal(v)
		}
		return v
	}
	if p.arr == nil {
		m.rtPanic("nil pointer dereference")
	}
	if p.ie != nil {
		return m.readIte(p.arr, p.ie, p.lo, p.hi)
	}
	return p.arr.get(p.i)
}

// readIte reads arr[ie], ie known to lie in [lo,hi).
func (m *Machine) readIte(a *Arr, ie *Expr, lo, hi int) *Expr {
	c := m.ctx
	if x := int(min(ie.umax(), 1<<40)); x+1 < hi {
		hi = x + 1
	}
	if x := int(min(ie.umin(), 1<<40)); x > lo {
		lo = x
	}
	if lo >= hi {
		return a.zero
	}
	var rec func(lo, hi int) *Expr
	rec = func(lo, hi int) *Expr {
		if hi-lo == 1 {
			return a.get(lo)
		}
		mid := (lo + hi) / 2
		l, h := rec(lo, mid), rec(mid, hi)
		if l == h {
			return l
		}
		return c.Ite(c.Ult(ie, c.Const(64, uint64(mid))), l, h)
	}
	return rec(lo, hi)
}

func (m *Machine) store(p Ptr, v Value) {
	if p.c != nil {
		m.assignInto(p.c, v)
		return
	}
	if p.arr == nil {
		m.rtPanic("nil pointer dereference")
	}
	e := v.(*Expr)
	if p.ie != nil {
		for i := p.lo; i < p.hi; i++ {
			cond := m.ctx.Eq(p.ie, m.ctx.Const(64, uint64(i)))
			if cond == m.ctx.False {
				continue
			}
			m.setElem(p.arr, i, m.ctx.Ite(cond, e, p.arr.get(i)))
		}
		return
	}
	m.setElem(p.arr, p.i, e)
}

func (m *Machine) indexAddr(x Value, idx *Expr, signed bool) Value {
	var a *Arr
	off, n := 0, 0
	switch x := x.(type) {
	case Slice:
		a, off, n = x.arr, x.off, x.len
	case Ptr:
		if x.isNil() {
			m.rtPanic("nil pointer dereference")
		}
		a = (*x.c).(*Arr)
		n = a.n
	default:
		unsupported("index of %T", x)
	}
	if idx.op == OConst {
		var i int64
		if signed {
			i = sext(idx.k, idx.w)
		} else {
			i = int64(idx.k)
			if i < 0 {
				i = 1 << 62
			}
		}
		if i < 0 || i >= int64(n) {
			m.rtPanic("index out of range [%d] with length %d", i, n)
		}
		if a.sc {
			return Ptr{arr: a, i: off + int(i)}
		}
		return Ptr{c: &a.vals[off+int(i)]}
	}
	i := m.checkIndex(idx, signed, n)
	if a.sc {
		lo, hi := 0, n
		if x := int(min(i.umax(), 1<<40)); x+1 < hi {
			hi = x + 1
		}
		if x := int(min(i.umin(), 1<<40)); x > lo {
			lo = x
		}
		if hi-lo <= maxIte {
			return Ptr{arr: a, ie: m.ctx.Add(i, m.ctx.Int(int64(off))), lo: off + lo, hi: off + hi}
		}
		return Ptr{arr: a, i: off + m.concInt(i, false)}
	}
	return Ptr{c: &a.vals[off+m.concInt(i, false)]}
}

func (m *Machine) exec(fr *frame, ci *cinst) {
	m.cur = ci.ins
	if m.spec != nil && m.spec.trial && effect(ci.ins) {
		panic(specAbort{})
	}
	switch ci.k {
	case kBinOp:
		fr.regs[ci.dst] = m.binop(ci, m.val(fr, &ci.ops[0]), m.val(fr, &ci.ops[1]))
	case kDeref:
		p, ok := m.val(fr, &ci.ops[0]).(Ptr)
		if !ok {
			unsupported("deref of %T", m.val(fr, &ci.ops[0]))
		}
		if m.par != nil && fr.c.target {
			m.par.yield(m, "load", p)
		}
		fr.regs[ci.dst] = m.load(p)
	case kStore:
		p := m.val(fr, &ci.ops[0]).(Ptr)
		if m.par != nil && fr.c.target {
			m.par.yield(m, "store", p)
		}
		m.store(p, m.val(fr, &ci.ops[1]))
	case kUnOp:
		x := m.val(fr, &ci.ops[0])
		switch token.Token(ci.bop) {
		case token.NOT:
			fr.regs[ci.dst] = m.ctx.Not(x.(*Expr))
		case token.SUB:
			e := x.(*Expr)
			if isFloatW(e.w) {
				fr.regs[ci.dst] = m.ctx.FUn(OFNeg, e.w, e, 0)
			} else {
				fr.regs[ci.dst] = m.ctx.Neg(e)
			}
		case token.XOR:
			fr.regs[ci.dst] = m.ctx.BNot(x.(*Expr))
		default:
			unsupported("unop %v", ci.ins)
		}
	case kFieldAddr:
		p := m.val(fr, &ci.ops[0]).(Ptr)
		if p.c == nil {
			m.rtPanic("nil pointer dereference")
		}
		s, ok := (*p.c).(*StructV)
		if !ok {
			unsupported("field of %T in %s", *p.c, fr.c.name)
		}
		fr.regs[ci.dst] = Ptr{c: &s.f[ci.field]}
	case kField:
		s := m.val(fr, &ci.ops[0]).(*StructV)
		fr.regs[ci.dst] = s.f[ci.field]
	case kIndexAddr:
		fr.regs[ci.dst] = m.indexAddr(m.val(fr, &ci.ops[0]), m.val(fr, &ci.ops[1]).(*Expr), ci.sg)
	case kIndex:
		x := m.val(fr, &ci.ops[0])
		idx := m.val(fr, &ci.ops[1]).(*Expr)
		switch x := x.(type) {
		case *Str:
			i := m.checkIndex(idx, ci.sg, x.length())
			if i.op == OConst {
				fr.regs[ci.dst] = m.strByte(x, int(i.k))
			} else {
				n := x.length()
				var rec func(lo, hi int) *Expr
				rec = func(lo, hi int) *Expr {
					if hi-lo == 1 {
						return m.strByte(x, lo)
					}
					mid := (lo + hi) / 2
					return m.ctx.Ite(m.ctx.Ult(i, m.ctx.Const(64, uint64(mid))), rec(lo, mid), rec(mid, hi))
				}
				fr.regs[ci.dst] = rec(0, n)
			}
		case *Arr:
			i := m.checkIndex(idx, ci.sg, x.n)
			if i.op == OConst {
				if x.sc {
					fr.regs[ci.dst] = x.get(int(i.k))
				} else {
					fr.regs[ci.dst] = x.vals[i.k]
				}
			} else if x.sc {
				fr.regs[ci.dst] = m.readIte(x, i, 0, x.n)
			} else {
				fr.regs[ci.dst] = x.vals[m.concInt(i, false)]
			}
		default:
			unsupported("index of %T", x)
		}
	case kConvert:
		x := ci.ins.(*ssa.Convert)
		fr.regs[ci.dst] = m.convert(m.val(fr, &ci.ops[0]), x.X.Type(), x.Type())
	case kChangeType:
		fr.regs[ci.dst] = m.val(fr, &ci.ops[0])
	case kExtract:
		fr.regs[ci.dst] = m.val(fr, &ci.ops[0]).(Tuple)[ci.field]
	case kPhi:
		unsupported("late phi")
	case kDebug:
	case kAlloc:
		s := new(Value)
		*s = m.zero(ci.t)
		fr.regs[ci.dst] = Ptr{c: s}
	case kMakeInterface:
		fr.regs[ci.dst] = Iface{t: ci.t, v: m.val(fr, &ci.ops[0])}
	case kSlice:
		m.sliceOp(fr, ci)
	case kMakeSlice:
		x := ci.ins.(*ssa.MakeSlice)
		n := m.val(fr, &ci.ops[0]).(*Expr)
		cp := m.val(fr, &ci.ops[1]).(*Expr)
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.regs[ci.dst] = m.makeSlice(et, n, cp, x.Len.Type(), x.Cap.Type())
	case kCall:
		x := ci.ins.(*ssa.Call)
		fr.regs[ci.dst] = m.doCall(fr, ci, &x.Call)
	case kTypeAssert:
		m.typeAssert(fr, ci)
	case kPanic:
		v := m.val(fr, &ci.ops[0])
		msg := "panic"
		if i, ok := v.(Iface); ok {
			if s, ok := i.v.(*Str); ok && !s.opaque && s.b == nil {
				msg = "panic: " + s.s
			} else if i.t != nil {
				msg = "panic of " + i.t.String()
			}
		}
		panic(targetPanic{val: v, msg: msg, pos: m.pos()})
	case kRunDefers:
		m.runDefers(fr)
		if fr.panicing != nil {
			tp := *fr.panicing
			panic(tp)
		}
	default:
		switch x := ci.ins.(type) {
		case *ssa.ChangeInterface:
			fr.regs[ci.dst] = m.val(fr, &ci.ops[0])
		case *ssa.MakeClosure:
			cl := m.val(fr, &ci.ops[0]).(*Closure)
			n := &Closure{fn: cl.fn}
			for i := 1; i < len(ci.ops); i++ {
				n.free = append(n.free, m.val(fr, &ci.ops[i]))
			}
			fr.regs[ci.dst] = n
		case *ssa.MakeMap:
			fr.regs[ci.dst] = &MapObj{vt: x.Type().Underlying().(*types.Map).Elem()}
		case *ssa.MapUpdate:
			mo := m.val(fr, &ci.ops[0]).(*MapObj)
			if mo == nil {
				m.rtPanic("assignment to entry in nil map")
			}
			k, v := m.val(fr, &ci.ops[1]), m.val(fr, &ci.ops[2])
			if i := m.mapFind(mo, k); i >= 0 {
				mo.ents[i].v = copyVal(v)
			} else {
				mo.ents = append(mo.ents, mapEnt{k, copyVal(v)})
			}
		case *ssa.Lookup:
			m.lookup(fr, ci, x)
		case *ssa.Range:
			v := m.val(fr, &ci.ops[0])
			switch v := v.(type) {
			case *MapObj:
				it := &rangeIter{m: v}
				if v != nil {
					it.left = append([]mapEnt(nil), v.ents...)
				}
				fr.regs[ci.dst] = it
			case *Str:
				fr.regs[ci.dst] = &rangeIter{s: v}
			}
		case *ssa.Next:
			m.next(fr, ci, x)
		case *ssa.Defer:
			fr.defers = append(fr.defers, m.prepCall(fr, ci, &x.Call))
		case *ssa.Go:
			unsupported("go statement")
		case *ssa.SliceToArrayPointer:
			s := m.val(fr, &ci.ops[0]).(Slice)
			n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			if s.len < n {
				m.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n)
			}
			if s.arr == nil {
				fr.regs[ci.dst] = Ptr{}
				return
			}
			if s.off == 0 && s.arr.n == n {
				var v Value = s.arr
				fr.regs[ci.dst] = Ptr{c: &v}
				return
			}
			// only reads through the pointer are supported: a snapshot
			if !onlyDerefs(x) {
				unsupported("slice to array pointer")
			}
			a := m.newArr(s.arr.et, n)
			for i := 0; i < n; i++ {
				if a.sc {
					a.set(i, s.arr.get(s.off+i))
				} else {
					a.vals[i] = copyVal(s.arr.vals[s.off+i])
				}
			}
			var v Value = a
			fr.regs[ci.dst] = Ptr{c: &v}
		case *ssa.MultiConvert:
			fr.regs[ci.dst] = m.convert(m.val(fr, &ci.ops[0]), x.X.Type(), x.Type())
		default:
			unsupported("instruction %T", ci.ins)
		}
	}
}

func onlyDerefs(x *ssa.SliceToArrayPointer) bool {
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

const hugeAlloc = 1 << 28

func (m *Machine) makeSlice(et types.Type, n, cp *Expr, nt, ct types.Type) Value {
	_, sn, _ := scalarInfo(nt)
	_, sc, _ := scalarInfo(ct)
	l := m.sizeArg(n, sn, "makeslice: len out of range")
	c := l
	if cp != n {
		c = m.sizeArg(cp, sc, "makeslice: cap out of range")
	}
	if l > c {
		m.rtPanic("makeslice: len larger than cap")
	}
	return Slice{arr: m.newArr(et, c), len: l, cap: c}
}

func (m *Machine) sizeArg(n *Expr, signed bool, msg string) int {
	if m.spec != nil {
		panic(specAbort{})
	}
	x := m.to64(n, signed)
	if !m.isTrue(m.ctx.Ult(x, m.ctx.Const(64, 1<<47))) {
		m.rtPanic("%s", msg)
	}
	if !m.isTrue(m.ctx.Ult(x, m.ctx.Const(64, hugeAlloc))) {
		unsupported("allocation of %d or more elements", hugeAlloc)
	}
	return m.concInt(x, false)
}

func (m *Machine) sliceOp(fr *frame, ci *cinst) {
	x := ci.ins.(*ssa.Slice)
	v := m.val(fr, &ci.ops[0])
	c := m.ctx
	arg := func(i int, t ssa.Value, def int) *Expr {
		if ci.ops[i].r == -3 {
			return c.Int(int64(def))
		}
		_, sg, _ := scalarInfo(t.Type())
		return m.to64(m.val(fr, &ci.ops[i]).(*Expr), sg)
	}
	if s, ok := v.(*Str); ok {
		n := s.length()
		lo, hi := arg(1, x.Low, 0), arg(2, x.High, n)
		if !m.isTrue(c.And(c.Ule(lo, hi), c.Ule(hi, c.Int(int64(n))))) {
			m.rtPanic("slice bounds out of range")
		}
		fr.regs[ci.dst] = m.strSlice(s, m.concInt(lo, false), m.concInt(hi, false))
		return
	}
	var a *Arr
	off, n, cp := 0, 0, 0
	isSlice := false
	switch y := v.(type) {
	case Slice:
		a, off, n, cp = y.arr, y.off, y.len, y.cap
		isSlice = true
	case Ptr:
		if y.isNil() {
			m.rtPanic("nil pointer dereference")
		}
		a = (*y.c).(*Arr)
		n, cp = a.n, a.n
	default:
		unsupported("slice of %T", v)
	}
	lo := arg(1, x.Low, 0)
	hi := arg(2, x.High, n)
	mx := arg(3, x.Max, cp)
	// 0 <= lo <= hi <= max <= cap
	ok := c.And(c.Ule(mx, c.Int(int64(cp))), c.And(c.Ule(hi, mx), c.Ule(lo, hi)))
	if !m.isTrue(ok) {
		m.rtPanic("slice bounds out of range [%s:%s:%s] with capacity %d", exprStr(lo), exprStr(hi), exprStr(mx), cp)
	}
	l, h, mm := m.concInt(lo, false), m.concInt(hi, false), m.concInt(mx, false)
	if a == nil && isSlice {
		fr.regs[ci.dst] = Slice{}
		return
	}
	fr.regs[ci.dst] = Slice{arr: a, off: off + l, len: h - l, cap: mm - l}
}

func (m *Machine) prepCall(fr *frame, ci *cinst, call *ssa.CallCommon) deferred {
	if call.IsInvoke() {
		recv := m.val(fr, &ci.ops[0]).(Iface)
		if recv.t == nil {
			m.rtPanic("nil pointer dereference (method call on nil interface)")
		}
		fn := m.lookupMethod(recv.t, call.Method)
		args := make([]Value, 0, len(ci.ops))
		args = append(args, recv.v)
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, m.val(fr, &ci.ops[i]))
		}
		return deferred{cl: &Closure{fn: fn}, args: args}
	}
	cl, ok := m.val(fr, &ci.ops[0]).(*Closure)
	if !ok {
		unsupported("call of %T", m.val(fr, &ci.ops[0]))
	}
	args := make([]Value, 0, len(ci.ops))
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, m.val(fr, &ci.ops[i]))
	}
	return deferred{cl: cl, args: args}
}

func (m *Machine) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	m.eng.progMu.Lock()
	defer m.eng.progMu.Unlock()
	fn := m.prog.LookupMethod(t, f.Pkg(), f.Name())
	if fn == nil {
		unsupported("no method %s on %v", f.Name(), t)
	}
	return fn
}

func (m *Machine) doCall(fr *frame, ci *cinst, call *ssa.CallCommon) Value {
	d := m.prepCall(fr, ci, call)
	if d.cl != nil && d.cl.bi != nil {
		return m.builtin(fr, d.cl.bi, d.args, call)
	}
	r := m.call(fr, d.cl, d.args)
	m.curFn = fr.c
	return r
}

func (m *Machine) typeAssert(fr *frame, ci *cinst) {
	x := ci.ins.(*ssa.TypeAssert)
	i := m.val(fr, &ci.ops[0]).(Iface)
	ok := false
	var v Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if i.t != nil && types.Implements(i.t, it) {
			ok = true
			v = i
		} else {
			v = Iface{}
		}
	} else {
		if i.t != nil && types.Identical(i.t, x.AssertedType) {
			ok = true
			v = i.v
		} else {
			v = m.zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		fr.regs[ci.dst] = Tuple{v, m.ctx.Bool(ok)}
		return
	}
	if !ok {
		m.rtPanic("interface conversion failed: %v", x.AssertedType)
	}
	fr.regs[ci.dst] = v
}

func (m *Machine) mapFind(mo *MapObj, k Value) int {
	if mo == nil {
		return -1
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.rtPanic("hash of unhashable type %v", i.t)
	}
	for i := range mo.ents {
		if m.isTrue(m.eq(mo.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lookup(fr *frame, ci *cinst, x *ssa.Lookup) {
	if s, ok := m.val(fr, &ci.ops[0]).(*Str); ok {
		idx := m.val(fr, &ci.ops[1]).(*Expr)
		i := m.checkIndex(idx, true, s.length())
		fr.regs[ci.dst] = m.strByte(s, m.concInt(i, false))
		return
	}
	mo := m.val(fr, &ci.ops[0]).(*MapObj)
	k := m.val(fr, &ci.ops[1])
	et := x.X.Type().Underlying().(*types.Map).Elem()
	// scalar values: no fork, ite chain
	if ke, ok := k.(*Expr); ok && !ke.IsConst() && mo != nil && len(mo.ents) <= 64 {
		if w, _, sc := scalarInfo(et); sc {
			r, found := m.zeroE(w), m.ctx.False
			for i := len(mo.ents) - 1; i >= 0; i-- {
				c := m.eq(mo.ents[i].k, k)
				r = m.ctx.Ite(c, mo.ents[i].v.(*Expr), r)
				found = m.ctx.Or(found, c)
			}
			if x.CommaOk {
				fr.regs[ci.dst] = Tuple{r, found}
			} else {
				fr.regs[ci.dst] = r
			}
			return
		}
	}
	i := m.mapFind(mo, k)
	var v Value
	if i >= 0 {
		v = mo.ents[i].v
	} else {
		v = m.zero(et)
	}
	if x.CommaOk {
		fr.regs[ci.dst] = Tuple{v, m.ctx.Bool(i >= 0)}
	} else {
		fr.regs[ci.dst] = v
	}
}

func (m *Machine) next(fr *frame, ci *cinst, x *ssa.Next) {
	it := m.val(fr, &ci.ops[0]).(*rangeIter)
	if it.s != nil {
		if it.s.b != nil || it.s.opaque {
			unsupported("range over a symbolic string")
		}
		if it.pos >= len(it.s.s) {
			fr.regs[ci.dst] = Tuple{m.ctx.False, m.ctx.Int(0), m.ctx.Const(32, 0)}
			return
		}
		var r rune
		n := 0
		for j, q := range it.s.s[it.pos:] {
			if j == 0 {
				r = q
				n = len(it.s.s) - it.pos
				continue
			}
			n = j
			break
		}
		fr.regs[ci.dst] = Tuple{m.ctx.True, m.ctx.Int(int64(it.pos)), m.ctx.Const(32, uint64(uint32(r)))}
		it.pos += n
		return
	}
	// drop entries deleted meanwhile
	live := it.left[:0:0]
	for _, e := range it.left {
		for _, q := range it.m.ents {
			if q.k == e.k {
				live = append(live, q)
				break
			}
		}
	}
	it.left = live
	if len(it.left) == 0 {
		tt := x.Type().(*types.Tuple)
		z := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return m.zero(tt.At(i).Type())
		}
		fr.regs[ci.dst] = Tuple{m.ctx.False, z(1), z(2)}
		return
	}
	// Go leaves map order open: every order of up to 4 entries, one order and its reverse of more
	n, k := len(it.left), 0
	if it.large = it.large || n > 4; it.large {
		n = 2
	}
	switch {
	case it.large && it.begun:
		k = it.dir
	case m.spec != nil && m.spec.trial:
		k = m.spec.order(n)
	default:
		k = m.choose(n)
	}
	it.begun = true
	if it.large {
		if it.dir = k; k > 0 {
			k = len(it.left) - 1
		}
	}
	e := it.left[k]
	it.left = append(append([]mapEnt(nil), it.left[:k]...), it.left[k+1:]...)
	fr.regs[ci.dst] = Tuple{m.ctx.True, e.k, e.v}
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	c := m.ctx
	fw, fs, fok := scalarInfo(from)
	tw, ts, tok := scalarInfo(to)
	if fok && tok {
		e := v.(*Expr)
		switch {
		case isFloatW(fw) && isFloatW(tw):
			if fw == tw {
				return e
			}
			return c.FUn(OF2F, tw, e, 0)
		case isFloatW(fw):
			// values outside the range are implementation-specific in Go:
			// amd64 truncates through int64
			if e.IsConst() {
				return c.Const(tw, uint64(int64(e.fval())))
			}
			if tw < 64 {
				return c.Extract(c.FUn(OF2S, 64, e, 0), 0, tw)
			}
			if ts {
				return c.FUn(OF2S, 64, e, 0)
			}
			return c.FUn(OF2U, 64, e, 0)
		case isFloatW(tw):
			if fs {
				return c.FUn(OS2F, tw, e, 0)
			}
			return c.FUn(OU2F, tw, e, 0)
		}
		if tw <= fw {
			return c.Extract(e, 0, tw)
		}
		if fs {
			return c.SExt(e, tw)
		}
		return c.ZExt(e, tw)
	}
	switch t := to.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Slice:
				if et, ok := x0elem(from); ok && et == 8 {
					return m.mkStr(m.sliceBytes(x))
				}
			case *Str:
				return x
			case *Expr:
				if x.IsConst() {
					return concreteStr(string(rune(sext(x.k, x.w))))
				}
			}
		}
		if t.Kind() == types.UnsafePointer {
			return v
		}
	case *types.Slice:
		if s, ok := v.(*Str); ok {
			if et, _ := x0elem(to); et == 8 {
				n := s.length()
				bs := make([]*Expr, n)
				for i := range bs {
					bs[i] = m.strByte(s, i)
				}
				return m.bytesToSlice(bs)
			}
		}
	case *types.Pointer:
		if p, ok := v.(Ptr); ok {
			return p
		}
	}
	unsupported("conversion %v to %v", from, to)
	return nil
}

func x0elem(t types.Type) (uint8, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return 0, false
	}
	w, _, ok := scalarInfo(s.Elem())
	return w, ok
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	c := m.ctx
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(x.len))
		case *Str:
			return c.Int(int64(x.length()))
		case *MapObj:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(len(x.ents)))
		case *Arr:
			return c.Int(int64(x.n))
		case Ptr:
			if a, ok := (*x.c).(*Arr); ok {
				return c.Int(int64(a.n))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return c.Int(int64(x.cap))
		case *Arr:
			return c.Int(int64(x.n))
		}
	case "append":
		return m.appendOp(args)
	case "copy":
		dst := args[0].(Slice)
		if s, ok := args[1].(*Str); ok {
			n := min(dst.len, s.length())
			for i := 0; i < n; i++ {
				m.setElem(dst.arr, dst.off+i, m.strByte(s, i))
			}
			return c.Int(int64(n))
		}
		src := args[1].(Slice)
		n := min(dst.len, src.len)
		m.copyRange(dst.arr, dst.off, src.arr, src.off, n)
		return c.Int(int64(n))
	case "delete":
		mo := args[0].(*MapObj)
		if i := m.mapFind(mo, args[1]); i >= 0 {
			mo.ents = append(mo.ents[:i:i], mo.ents[i+1:]...)
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		// legal only directly inside a deferred call
		if fr != nil && fr.caller != nil && fr.caller.inDefer && fr.caller.panicing != nil {
			v := fr.caller.panicing.val
			fr.caller.panicing = nil
			if v == nil {
				return Iface{}
			}
			return v
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Expr:
				_, sg, _ := scalarInfo(call.Args[0].Type())
				b2 := y.(*Expr)
				var lt *Expr
				if isFloatW(a.w) {
					unsupported("float min/max")
				}
				if sg {
					lt = c.Slt(a, b2)
				} else {
					lt = c.Ult(a, b2)
				}
				if b.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, a, b2)
			default:
				unsupported("min/max of %T", r)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case Slice:
			for i := 0; i < x.len; i++ {
				if x.arr.sc {
					m.setElem(x.arr, x.off+i, x.arr.zero)
				} else {
					m.assignInto(&x.arr.vals[x.off+i], m.zero(x.arr.et))
				}
			}
		case *MapObj:
			if x != nil {
				x.ents = nil
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			m.rtPanic("nil pointer dereference")
		}
		return args[0]
	case "ssa:deferstack":
		return Ptr{}
	case "panic":
		panic(targetPanic{val: args[0], msg: "panic", pos: m.pos()})
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := m.concInt(args[1].(*Expr), true)
		if n == 0 {
			return emptyStr
		}
		if p.arr != nil && p.ie == nil {
			return m.mkStr(m.sliceBytes(Slice{arr: p.arr, off: p.i, len: n, cap: n}))
		}
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			return Ptr{}
		}
		if s.arr.sc {
			return Ptr{arr: s.arr, i: s.off}
		}
		if s.off < len(s.arr.vals) {
			return Ptr{c: &s.arr.vals[s.off]}
		}
	case "StringData":
		s := args[0].(*Str)
		bs := make([]*Expr, s.length())
		for i := range bs {
			bs[i] = m.strByte(s, i)
		}
		sl := m.bytesToSlice(bs)
		if sl.len == 0 {
			return Ptr{}
		}
		return Ptr{arr: sl.arr}
	case "Slice":
		p := args[0].(Ptr)
		n := m.concInt(args[1].(*Expr), true)
		if p.arr != nil && p.ie == nil {
			return Slice{arr: p.arr, off: p.i, len: n, cap: n}
		}
		if n == 0 {
			return Slice{}
		}
	}
	unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (m *Machine) copyRange(d *Arr, do int, s *Arr, so, n int) {
	if n == 0 {
		return
	}
	if d == s && do == so {
		return
	}
	m.path.steps += int64(n / 8)
	if d.sc {
		if s.pg == nil && d.pg == nil {
			return
		}
		if d == s && do > so {
			for i := n - 1; i >= 0; i-- {
				m.setElem(d, do+i, s.get(so+i))
			}
			return
		}
		for i := 0; i < n; i++ {
			// skip untouched source pages over untouched destination pages
			if (so+i)&(pageSize-1) == 0 && (do+i)&(pageSize-1) == 0 && n-i >= pageSize {
				if (s.pg == nil || s.pg[(so+i)>>pageBits] == nil) && (d.pg == nil || d.pg[(do+i)>>pageBits] == nil) {
					i += pageSize - 1
					continue
				}
			}
			m.setElem(d, do+i, s.get(so+i))
		}
		return
	}
	tmp := make([]Value, n)
	for i := range tmp {
		tmp[i] = copyVal(s.vals[so+i])
	}
	for i := range tmp {
		m.assignInto(&d.vals[do+i], tmp[i])
	}
}

func (m *Machine) appendOp(args []Value) Value {
	if m.spec != nil {
		panic(specAbort{})
	}
	dst := args[0].(Slice)
	var src Slice
	switch y := args[1].(type) {
	case Slice:
		src = y
	case *Str:
		n := y.length()
		bs := make([]*Expr, n)
		for i := range bs {
			bs[i] = m.strByte(y, i)
		}
		src = m.bytesToSlice(bs)
	default:
		unsupported("append of %T", args[1])
	}
	if src.len == 0 {
		return dst
	}
	n := dst.len + src.len
	if n <= dst.cap {
		m.copyRange(dst.arr, dst.off+dst.len, src.arr, src.off, src.len)
		return Slice{arr: dst.arr, off: dst.off, len: n, cap: dst.cap}
	}
	nc := growCap(dst.cap, n, src.arr.et)
	a := m.newArr(src.arr.et, nc)
	if dst.len > 0 {
		m.copyRange(a, 0, dst.arr, dst.off, dst.len)
	}
	m.copyRange(a, dst.len, src.arr, src.off, src.len)
	return Slice{arr: a, len: n, cap: nc}
}

var goSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows the Go runtime's growslice.
func growCap(old, n int, et types.Type) int {
	nc := old
	if n > 2*old {
		nc = n
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < n {
			nc += (nc + 3*256) >> 2
		}
	}
	es := int(goSizes.Sizeof(et))
	if es == 0 {
		return nc
	}
	sz := nc * es
	for _, c := range sizeClasses {
		if sz <= c {
			return c / es
		}
	}
	return (sz + 8191) / 8192 * 8192 / es
}
