package main

// Decisions along one path: branching, choosing, concretising, assuming,
// asserting. A path is re-executed from the start along a decision prefix.

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

var debugQ = os.Getenv("DEBUGQ") != ""

type dec struct {
	v      uint64
	kind   uint8 // 0 branch, 1 choose, 2 concretise
	forced bool
}

type input struct {
	kind string
	vi   int // variable index, -1 for a choice
	val  uint64
	w    uint8
	off  uint64
}

type Path struct {
	prefix    []dec
	log       []dec
	pc        []*Expr
	known     map[*Expr]bool
	model     []uint64
	vars      []*Expr
	inputs    []input
	obs       []*Expr
	steps     int64
	pool      int // see v.Pool
	maxSteps  int64
	merge     bool
	merged    int
	unmerged  map[*cblock]int // failed attempts
	reached   map[string]bool
	asserts   int
	sched     []string
	forks     int
	noNative  bool
	random    bool // drew from the random source
	draws     int  // 0: no limit, else draws left + 1
	fixed     map[int]uint64
	fixedSet  *varset
	substMemo map[*Expr]*Expr
	plain     *plainRun
}

type item struct {
	prefix []dec
	model  []uint64
}

func (m *Machine) eval(e *Expr) uint64 {
	m.ev.model = m.path.model
	return m.ev.eval(e)
}

func (m *Machine) setModel(mod []uint64) {
	m.path.model = mod
	m.ev.memo = map[*Expr]uint64{}
}

func (m *Machine) addPC(c *Expr) {
	p := m.path
	if c.op == OConst {
		return
	}
	if _, ok := p.known[c]; ok {
		return
	}
	m.learn(c)
	p.pc = append(p.pc, c)
}

func (m *Machine) learn(c *Expr) {
	m.path.known[c] = true
	m.path.known[m.ctx.Not(c)] = false
	switch {
	case c.op == OEq && c.a.op == OVar && c.b.op == OConst:
		m.fix(c.a, c.b.k)
	case c.op == OVar:
		m.fix(c, 1)
	case c.op == ONot && c.a.op == OVar:
		m.fix(c.a, 0)
	}
	if c.op == OAnd {
		m.learn(c.a)
		m.learn(c.b)
	} else if c.op == ONot && c.a.op == OOr {
		m.learn(m.ctx.Not(c.a.a))
		m.learn(m.ctx.Not(c.a.b))
	}
}

// slice returns the constraints connected to c through shared variables.
func (m *Machine) slicePC(c *Expr) []*Expr {
	p := m.path
	vs := c.vars
	n := len(p.pc)
	used := make([]bool, n)
	out := []*Expr{c}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !used[i] && p.pc[i].vars.intersects(vs) {
				used[i] = true
				out = append(out, p.pc[i])
				nv := vs.union(p.pc[i].vars)
				if nv != vs {
					vs = nv
					ch = true
				}
			}
		}
	}
	return out
}

type qres struct {
	r    Res
	vals []qval
}
type qval struct {
	i int32
	v uint64
}

type qcache struct {
	mu [64]sync.Mutex
	m  [64]map[[2]uint64]qres
}

func newQcache() *qcache {
	q := &qcache{}
	for i := range q.m {
		q.m[i] = map[[2]uint64]qres{}
	}
	return q
}

// queryKey hashes a constraint set up to renaming of variables; order lists
// the variables by canonical number.
func queryKey(cs []*Expr) (key [2]uint64, order []int32) {
	cs = append([]*Expr(nil), cs...)
	sort.Slice(cs, func(i, j int) bool {
		if cs[i].sh != cs[j].sh {
			return cs[i].sh < cs[j].sh
		}
		return cs[i].h < cs[j].h
	})
	num := map[*Expr]uint64{}
	type hh struct{ a, b uint64 }
	memo := map[*Expr]hh{}
	var rec func(e *Expr) hh
	rec = func(e *Expr) hh {
		if e.op == OConst {
			x := mix64(e.k*0x9E3779B97F4A7C15 + uint64(e.w) + 77)
			return hh{x, mix64(x + 0x51ed27)}
		}
		if x, ok := memo[e]; ok {
			return x
		}
		var x hh
		if e.op == OVar {
			n, ok := num[e]
			if !ok {
				n = uint64(len(order))
				num[e] = n
				order = append(order, int32(e.k))
			}
			x.a = mix64(n<<8 | uint64(e.w) + 0xabcdef<<32)
			x.b = mix64(x.a ^ 0x7777)
		} else {
			k := e.k<<17 ^ e.k>>40
			x.a = mix64(uint64(e.op)<<8 | uint64(e.w) | k)
			x.b = mix64(x.a + 99)
			for _, ch := range [3]*Expr{e.a, e.b, e.c} {
				if ch != nil {
					y := rec(ch)
					x.a = mix64(x.a*31 + y.a)
					x.b = mix64(x.b*0x9E3779B97F4A7C15 + y.b)
				}
			}
		}
		memo[e] = x
		return x
	}
	var a, b uint64 = 1469598103934665603, 88172645463325252
	var prev *Expr
	for _, c := range cs {
		if c == prev {
			continue
		}
		prev = c
		x := rec(c)
		a = mix64(a*31 + x.a)
		b = mix64(b*0x9E3779B97F4A7C15 + x.b)
	}
	return [2]uint64{a, b}, order
}

// check decides pc && c; on Sat it returns a model of the whole path condition.
func (m *Machine) check(c *Expr) (Res, []uint64) {
	if c == m.ctx.False {
		return Unsat, nil
	}
	if c.op == OConst {
		return Sat, m.path.model
	}
	cs := m.slicePC(c)
	key, order := queryKey(cs)
	sh := key[0] % 64
	qc := m.eng.qc
	qc.mu[sh].Lock()
	r, ok := qc.m[sh][key]
	qc.mu[sh].Unlock()
	if !ok {
		if debugQ {
			m.eng.note("query", relRepo(m.pos())+" "+dump(c, 4))
		}
		r = qres{}
		r.r = m.solver.Check(m.ctx, cs, func(i int, v uint64) {
			for n, o := range order {
				if int(o) == i {
					r.vals = append(r.vals, qval{int32(n), v})
					break
				}
			}
		})
		if r.r == Unknown {
			// the same question to a fresh process, then to a second solver
			for _, bin := range []string{m.eng.solverBin, "cvc5"} {
				r.vals = nil
				r.r = m.solver.Fresh(bin, m.ctx, cs, m.eng.timeoutMs*2, func(i int, v uint64) {
					for n, o := range order {
						if int(o) == i {
							r.vals = append(r.vals, qval{int32(n), v})
							break
						}
					}
				})
				if r.r != Unknown {
					break
				}
			}
		}
		if r.r == Unknown {
			m.eng.note("unknown", "solver gave no answer at "+m.pos())
		}
		qc.mu[sh].Lock()
		qc.m[sh][key] = r
		qc.mu[sh].Unlock()
	} else {
		m.eng.cacheHits.Add(1)
	}
	if r.r != Sat {
		return r.r, nil
	}
	mod := make([]uint64, len(m.path.vars))
	copy(mod, m.path.model)
	for _, x := range r.vals {
		mod[order[x.i]] = x.v
	}
	if m.eng.selfCheck {
		ev := evaluator{model: mod, memo: map[*Expr]uint64{}}
		for _, x := range append([]*Expr{c}, m.path.pc...) {
			if ev.eval(x) == 0 {
				fatal("model does not satisfy the path condition at %s (%s)", m.pos(), dump(x, 6))
			}
		}
	}
	return Sat, mod
}

func (m *Machine) pushAlt(d dec, mod []uint64) {
	p := m.path
	pre := make([]dec, len(p.log)+1)
	copy(pre, p.log)
	pre[len(p.log)] = d
	m.eng.push(item{prefix: pre, model: mod})
	p.forks++
}

// next returns the recorded decision at this point, if still in the prefix.
func (m *Machine) replayDec(kind uint8) (dec, bool) {
	p := m.path
	if len(p.log) < len(p.prefix) {
		d := p.prefix[len(p.log)]
		if d.kind != kind {
			fatal("nondeterministic re-execution at %s: decision %d kind %d, recorded %d", m.pos(), len(p.log), kind, d.kind)
		}
		p.log = append(p.log, d)
		return d, true
	}
	return dec{}, false
}

func (m *Machine) branch(c *Expr) bool {
	c = m.sub(c)
	if c.op == OConst {
		return c.k != 0
	}
	if pl := m.path.plain; pl != nil {
		if m.spec != nil {
			panic(specAbort{})
		}
		bv := m.eval(c) != 0
		if bv {
			pl.pc = append(pl.pc, c)
		} else {
			pl.pc = append(pl.pc, m.ctx.Not(c))
		}
		return bv
	}
	if v, ok := m.path.known[c]; ok && (m.spec == nil || !m.spec.trial) {
		return v
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	p := m.path
	if d, ok := m.replayDec(0); ok {
		x := c
		if d.v == 0 {
			x = m.ctx.Not(c)
		}
		if d.forced {
			m.learn(x)
		} else {
			m.addPC(x)
		}
		return d.v != 0
	}
	m.eng.branches.Add(1)
	bv := m.eval(c) != 0
	x, other := c, m.ctx.Not(c)
	if !bv {
		x, other = other, x
	}
	r, mod := m.check(other)
	switch r {
	case Sat:
		m.pushAlt(dec{v: b2u(!bv)}, mod)
		p.log = append(p.log, dec{v: b2u(bv)})
		m.addPC(x)
	case Unsat:
		p.log = append(p.log, dec{v: b2u(bv), forced: true})
		m.learn(x)
	default:
		p.log = append(p.log, dec{v: b2u(bv)})
		m.addPC(x)
	}
	return bv
}

// choose picks one of n alternatives nondeterministically.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.spec != nil {
		panic(specAbort{})
	}
	if pl := m.path.plain; pl != nil {
		if len(pl.choices) == 0 {
			panic(pathAbort{abUnsupported, "choices differ"})
		}
		k := pl.choices[0]
		pl.choices = pl.choices[1:]
		return int(k)
	}
	if d, ok := m.replayDec(1); ok {
		return int(d.v)
	}
	for k := n - 1; k >= 1; k-- {
		m.pushAlt(dec{v: uint64(k), kind: 1}, m.path.model)
	}
	m.path.log = append(m.path.log, dec{kind: 1})
	return 0
}

const maxConc = 600

func (m *Machine) concretize(e *Expr) uint64 {
	e = m.sub(e)
	if e.op == OConst {
		return e.k
	}
	p := m.path
	if p.plain != nil {
		v := m.eval(e)
		p.plain.pc = append(p.plain.pc, m.ctx.Eq(e, m.ctx.Const(e.w, v)))
		return v
	}
	if d, ok := m.replayDec(2); ok {
		m.addPC(m.ctx.Eq(e, m.ctx.Const(e.w, d.v)))
		return d.v
	}
	v0 := m.eval(e)
	excl := m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(e.w, v0)))
	n := 0
	for {
		r, mod := m.check(excl)
		if r == Unknown {
			break
		}
		if r == Unsat {
			break
		}
		n++
		if n > maxConc {
			m.eng.note("concretise", fmt.Sprintf("more than %d values at %s", maxConc, m.pos()))
			break
		}
		ev := evaluator{model: mod, memo: map[*Expr]uint64{}}
		v := ev.eval(e)
		m.pushAlt(dec{v: v, kind: 2}, mod)
		excl = m.ctx.And(excl, m.ctx.Not(m.ctx.Eq(e, m.ctx.Const(e.w, v))))
	}
	p.log = append(p.log, dec{v: v0, kind: 2})
	m.addPC(m.ctx.Eq(e, m.ctx.Const(e.w, v0)))
	return v0
}

func (m *Machine) assume(c *Expr) {
	c = m.sub(c)
	if c.op == OConst {
		if c.k == 0 {
			panic(pathAbort{abInfeasible, "assumption false"})
		}
		return
	}
	if m.path.plain != nil {
		m.path.plain.pc = append(m.path.plain.pc, c)
		return
	}
	if v, ok := m.path.known[c]; ok {
		if !v {
			panic(pathAbort{abInfeasible, "assumption false"})
		}
		return
	}
	inPrefix := len(m.path.log) < len(m.path.prefix)
	if m.eval(c) != 0 || inPrefix {
		// inside the prefix the model given for its end satisfies c
		m.addPC(c)
		return
	}
	r, mod := m.check(c)
	switch r {
	case Sat:
		m.setModel(mod)
		m.addPC(c)
	case Unsat:
		panic(pathAbort{abInfeasible, "assumption unsatisfiable"})
	default:
		panic(pathAbort{abUnknown, "assumption undecided"})
	}
}

func (m *Machine) assert(c *Expr, msg string) {
	c = m.sub(c)
	p := m.path
	p.asserts++
	if p.plain != nil {
		if c != m.ctx.True {
			p.plain.obl = append(p.plain.obl, obligation{len(p.plain.pc), c, msg})
		}
		return
	}
	m.eng.asserts.Add(1)
	if c.op == OConst {
		if c.k == 0 {
			m.violation(msg, p.model)
			panic(pathAbort{abViolation, msg})
		}
		return
	}
	if v, ok := p.known[c]; ok {
		if !v {
			m.violation(msg, p.model)
			panic(pathAbort{abViolation, msg})
		}
		return
	}
	if len(p.log) < len(p.prefix) {
		// already decided when this prefix was first executed
		m.addPC(c)
		return
	}
	if m.eval(c) == 0 {
		m.violation(msg, p.model)
		// go on with the inputs that satisfy it
		r, mod := m.check(c)
		if r != Sat {
			panic(pathAbort{abViolation, msg})
		}
		m.setModel(mod)
		m.addPC(c)
		return
	}
	r, mod := m.check(m.ctx.Not(c))
	switch r {
	case Sat:
		m.violation(msg, mod)
		m.addPC(c)
	case Unsat:
		m.learn(c)
	default:
		m.addPC(c)
	}
}

func (m *Machine) newVar(w uint8) *Expr {
	p := m.path
	v := m.ctx.Var(w, len(p.vars))
	p.vars = append(p.vars, v)
	if len(p.model) < len(p.vars) {
		p.model = append(p.model[:len(p.model):len(p.model)], 0)
	}
	return v
}

func (m *Machine) inputVector(mod []uint64) []uint64 {
	var out []uint64
	for _, in := range m.path.inputs {
		if in.vi < 0 {
			out = append(out, in.val)
			continue
		}
		v := uint64(0)
		if in.vi < len(mod) {
			v = mod[in.vi] & maskAny(in.w)
		}
		out = append(out, v+in.off)
	}
	return out
}

func dump(e *Expr, d int) string {
	if e == nil {
		return ""
	}
	if e.op == OConst {
		return fmt.Sprintf("%d:%d", e.k, e.w)
	}
	if e.op == OVar {
		return fmt.Sprintf("v%d:%d", e.k, e.w)
	}
	if d == 0 {
		return "…"
	}
	s := fmt.Sprintf("(%d/%d[%d]", e.op, e.w, e.k)
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + dump(x, d-1)
		}
	}
	return s + ")"
}
