package main

// Per-worker translation of ssa.Function into register-numbered instructions.

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	r int // >=0 register; -1 constant; -2 global; -3 absent
	v Value
	g *ssa.Global
}

type kind uint8

const (
	kOther kind = iota
	kBinOp
	kUnOp
	kDeref
	kStore
	kCall
	kPhi
	kIf
	kJump
	kReturn
	kFieldAddr
	kField
	kIndexAddr
	kIndex
	kSlice
	kAlloc
	kConvert
	kChangeType
	kExtract
	kMakeInterface
	kMakeSlice
	kTypeAssert
	kPanic
	kRunDefers
	kDebug
)

type cinst struct {
	k      kind
	dst    int
	ops    []opnd
	ins    ssa.Instruction
	w      uint8 // operand scalar width
	sg     bool  // operand signed
	w2     uint8 // result scalar width
	sg2    bool
	field  int
	elemSc bool
	t      types.Type
	bop    int
}

type cblock struct {
	ins        []cinst
	nphi       int
	succ       []int
	pred       []int
	idom       int // immediate post-dominator, -1 none
	merge      bool
	fuse       int8 // condition fusion possible (successor index), -1 none
	speculable bool
}

type cfn struct {
	fn        *ssa.Function
	nregs     int
	blocks    []cblock
	hasDefer  bool
	pure      bool // may be called while both sides of a branch are executed
	mapRange  bool // ranges over a map
	intr      func(m *Machine, fr *frame, args []Value) Value
	name      string
	target    bool // function of the code under test
	std       bool
	covered   bool
	instrSeen int64
}

func (m *Machine) compiled(fn *ssa.Function) *cfn {
	if c, ok := m.fns[fn]; ok {
		return c
	}
	c := m.compile(fn)
	m.fns[fn] = c
	return c
}

func (m *Machine) constVal(x *ssa.Const) Value {
	if x.Value == nil {
		return m.zero(x.Type())
	}
	t := x.Type().Underlying()
	if w, signed, ok := scalarInfo(t); ok {
		if w == WBool {
			return m.ctx.Bool(constant.BoolVal(x.Value))
		}
		if isFloatW(w) {
			return m.ctx.FConst(w, x.Float64())
		}
		if signed {
			return m.ctx.Const(w, uint64(x.Int64()))
		}
		return m.ctx.Const(w, x.Uint64())
	}
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if x.Value.Kind() == constant.String {
			return concreteStr(constant.StringVal(x.Value))
		}
		return concreteStr(string(rune(x.Int64())))
	}
	return nil // unsupported constant, fails on use
}

func (m *Machine) compile(fn *ssa.Function) *cfn {
	c := &cfn{fn: fn, name: fn.String()}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	c.intr = m.intrinsic(o)
	pk := fnPkgPath(fn)
	c.target = isTargetPkg(pk)
	c.std = !c.target && !isHarnessPkg(pk)
	if c.intr != nil || fn.Blocks == nil {
		return c
	}
	reg := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		reg[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				c.hasDefer = true
			}
			if r, ok := ins.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok && c.target {
					c.mapRange = true
				}
			}
		}
	}
	c.nregs = n
	c.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &c.blocks[bi]
		cb.fuse = -1
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		for _, s := range b.Preds {
			cb.pred = append(cb.pred, s.Index)
		}
		for _, ins := range b.Instrs {
			ci := cinst{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			var rands [16]*ssa.Value
			ops := ins.Operands(rands[:0])
			if d, ok := ins.(*ssa.Defer); ok {
				ops = d.Call.Operands(rands[:0]) // without the defer stack
			}
			for _, op := range ops {
				if op == nil || *op == nil {
					ci.ops = append(ci.ops, opnd{r: -3})
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Const:
					ci.ops = append(ci.ops, opnd{r: -1, v: m.constVal(v)})
				case *ssa.Global:
					ci.ops = append(ci.ops, opnd{r: -2, g: v})
				case *ssa.Function:
					ci.ops = append(ci.ops, opnd{r: -1, v: &Closure{fn: v}})
				case *ssa.Builtin:
					ci.ops = append(ci.ops, opnd{r: -1, v: &Closure{bi: v}})
				default:
					r, ok := reg[v]
					if !ok {
						fatal("no register for %v in %v", v, fn)
					}
					ci.ops = append(ci.ops, opnd{r: r})
				}
			}
			m.classify(&ci)
			if ci.k == kPhi {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	postDoms(c)
	markMerge(c)
	return c
}

func (m *Machine) classify(ci *cinst) {
	switch x := ci.ins.(type) {
	case *ssa.BinOp:
		ci.k = kBinOp
		ci.bop = int(x.Op)
		ci.w, ci.sg, ci.elemSc = scalarInfo(x.X.Type())
		ci.w2, ci.sg2, _ = scalarInfo(x.Y.Type())
		ci.t = x.X.Type()
	case *ssa.UnOp:
		ci.bop = int(x.Op)
		ci.k = kUnOp
		if x.Op.String() == "*" {
			ci.k = kDeref
		}
		ci.w, ci.sg, _ = scalarInfo(x.X.Type())
		ci.t = x.Type()
	case *ssa.Store:
		ci.k = kStore
	case *ssa.Call:
		ci.k = kCall
	case *ssa.Phi:
		ci.k = kPhi
	case *ssa.If:
		ci.k = kIf
	case *ssa.Jump:
		ci.k = kJump
	case *ssa.Return:
		ci.k = kReturn
	case *ssa.FieldAddr:
		ci.k = kFieldAddr
		ci.field = x.Field
	case *ssa.Field:
		ci.k = kField
		ci.field = x.Field
	case *ssa.IndexAddr:
		ci.k = kIndexAddr
		ci.w, ci.sg, _ = scalarInfo(x.Index.Type())
	case *ssa.Index:
		ci.k = kIndex
		ci.w, ci.sg, _ = scalarInfo(x.Index.Type())
	case *ssa.Slice:
		ci.k = kSlice
	case *ssa.Alloc:
		ci.k = kAlloc
		ci.t = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.Convert:
		ci.k = kConvert
	case *ssa.ChangeType:
		ci.k = kChangeType
	case *ssa.Extract:
		ci.k = kExtract
		ci.field = x.Index
	case *ssa.MakeInterface:
		ci.k = kMakeInterface
		ci.t = x.X.Type()
	case *ssa.MakeSlice:
		ci.k = kMakeSlice
	case *ssa.TypeAssert:
		ci.k = kTypeAssert
	case *ssa.Panic:
		ci.k = kPanic
	case *ssa.RunDefers:
		ci.k = kRunDefers
	case *ssa.DebugRef:
		ci.k = kDebug
	}
}

// postDoms computes immediate post-dominators (blocks without successors reach
// a virtual exit).
func postDoms(c *cfn) {
	n := len(c.blocks)
	exit := n
	// order: reverse post order on the reversed graph
	succ := make([][]int, n+1)
	pred := make([][]int, n+1)
	for i := range c.blocks {
		if len(c.blocks[i].succ) == 0 {
			succ[i] = []int{exit}
		} else {
			succ[i] = c.blocks[i].succ
		}
		for _, s := range succ[i] {
			pred[s] = append(pred[s], i)
		}
	}
	order := []int{}
	num := make([]int, n+1)
	seen := make([]bool, n+1)
	var dfs func(int)
	dfs = func(b int) {
		seen[b] = true
		for _, p := range pred[b] {
			if !seen[p] {
				dfs(p)
			}
		}
		num[b] = len(order)
		order = append(order, b)
	}
	dfs(exit)
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[exit] = exit
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for i := len(order) - 1; i >= 0; i-- {
			b := order[i]
			if b == exit {
				continue
			}
			nd := -1
			for _, s := range succ[b] {
				if !seen[s] || idom[s] == -1 {
					continue
				}
				if nd == -1 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd != idom[b] {
				idom[b] = nd
				ch = true
			}
		}
	}
	for i := range c.blocks {
		d := idom[i]
		if d == exit {
			d = -1
		}
		c.blocks[i].idom = d
	}
}

// markMerge decides statically which branches may be if-converted: every block
// strictly between the branch and its post-dominator is speculable, few, and
// the join's phis are scalar.
func markMerge(c *cfn) {
	for i := range c.blocks {
		b := &c.blocks[i]
		b.speculable = true
		for j := range b.ins {
			if !specKind(&b.ins[j], c.target || c.std) {
				b.speculable = false
				break
			}
		}
	}
	c.pure = true
	for i := range c.blocks {
		c.pure = c.pure && c.blocks[i].speculable
	}
	for i := range c.blocks {
		b := &c.blocks[i]
		if len(b.succ) != 2 {
			continue
		}
		if b.succ[0] != b.succ[1] {
			ok := true
			if b.idom >= 0 {
				j := &c.blocks[b.idom]
				for k := 0; k < j.nphi; k++ {
					if _, _, sc := scalarInfo(j.ins[k].ins.(*ssa.Phi).Type()); !sc {
						ok = false
					}
				}
			}
			// region, up to the post-dominator or the returns
			seen := map[int]bool{b.idom: true}
			stack := append([]int(nil), b.succ...)
			cnt := 0
			for ok && len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if seen[x] {
					continue
				}
				seen[x] = true
				if x == i || !c.blocks[x].speculable {
					ok = false
					break
				}
				cnt += len(c.blocks[x].ins)
				if cnt > 80 || len(seen) > 14 {
					ok = false
					break
				}
				stack = append(stack, c.blocks[x].succ...)
			}
			b.merge = ok
		}
		if !b.merge {
			// short-circuit fusion: one successor is a single-predecessor
			// speculable block ending in an If sharing a target with b
			for s := 0; s < 2; s++ {
				x := b.succ[s]
				xb := &c.blocks[x]
				if x == i || len(xb.pred) != 1 || len(xb.succ) != 2 || !xb.speculable {
					continue
				}
				other := b.succ[1-s]
				if xb.succ[0] != other && xb.succ[1] != other {
					continue
				}
				if xb.succ[0] == xb.succ[1] {
					continue
				}
				hasStore := false
				for k := range xb.ins {
					if xb.ins[k].k == kStore {
						hasStore = true
					}
				}
				if hasStore {
					continue
				}
				b.fuse = int8(s)
				break
			}
		}
	}
}

func specKind(ci *cinst, wide bool) bool {
	switch ci.k {
	case kReturn, kAlloc, kSlice:
		return wide
	case kBinOp, kUnOp, kDeref, kStore, kPhi, kIf, kJump, kFieldAddr, kField, kIndexAddr, kIndex, kConvert, kChangeType, kExtract, kDebug:
		return true
	case kCall:
		x := ci.ins.(*ssa.Call)
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
		}
		if f := x.Call.StaticCallee(); f != nil && wide {
			return len(f.Blocks) > 0 && len(f.Blocks) <= 12
		}
	}
	return false
}
