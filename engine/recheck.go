package main

// Recheck: the rewriter of expr.go decides many conditions before the solver
// sees them. A sample of explored paths is executed again, guided by the
// inputs recorded for them, with rewriting switched off; the conjunction of
// all assertions on the path is then put to the solver in that plain form.

import (
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type obligation struct {
	npc int
	c   *Expr
	msg string
}

type plainRun struct {
	choices []uint64
	pc      []*Expr
	obl     []obligation
}

type recheckResult struct {
	Paths      int64 `json:"paths"`
	Assertions int64 `json:"assertions"`
	Unsat      int64 `json:"confirmed_by_solver"`
	Unknown    int64 `json:"no_answer"`
	Sat        int64 `json:"contradicted"`
	cex        []sample
}

func (e *Engine) recheck(n int, limit time.Duration) *recheckResult {
	r := &recheckResult{}
	var pick []sample
	for _, s := range e.samples {
		if !s.fallback && s.Outcome == "ok" {
			pick = append(pick, s)
		}
	}
	if len(pick) > n {
		var p []sample
		for i := 0; i < n; i++ {
			p = append(p, pick[i*len(pick)/n])
		}
		pick = p
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	end := time.Now().Add(limit)
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var m *Machine
			for {
				i := int(next.Add(1)) - 1
				if i >= len(pick) || time.Now().After(end) {
					break
				}
				if m == nil || m.ctx.n > 400000 {
					if m != nil {
						e.addStats(m)
					}
					m = &Machine{ctx: NewCtx(), prog: e.prog, fns: map[*ssa.Function]*cfn{}, eng: e}
					m.ctx.plain = true
					m.solver = NewSolver(e.solverBin, 5000)
				}
				res, nob, cex := e.recheckOne(m, pick[i])
				mu.Lock()
				switch res {
				case 0:
					r.Paths++
					r.Unsat++
					r.Assertions += int64(nob)
				case 1:
					r.Sat++
					r.cex = append(r.cex, cex)
				case 2:
					r.Unknown++
				}
				mu.Unlock()
			}
			if m != nil {
				e.addStats(m)
			}
		}()
	}
	wg.Wait()
	return r
}

// recheckOne: 0 confirmed, 1 contradicted, 2 no answer, 3 nothing to check.
func (e *Engine) recheckOne(m *Machine, s sample) (res, nob int, cex sample) {
	pl := &plainRun{choices: s.choices}
	p := &Path{known: map[*Expr]bool{}, maxSteps: e.maxSteps * 2, merge: false, reached: map[string]bool{}, plain: pl}
	p.model = append([]uint64(nil), s.model...)
	m.reset(p)
	m.setModel(p.model)
	ok := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x.(type) {
				case targetPanic, pathAbort:
				default:
					panic(x)
				}
			}
		}()
		m.ensureInit(e.harness.Pkg)
		m.call(nil, &Closure{fn: e.harness}, nil)
		ok = true
	}()
	if !ok {
		return 2, 0, cex
	}
	if len(pl.obl) == 0 {
		return 3, 0, cex
	}
	// pc0 and (not a0 or (pc1 and (not a1 or ...)))
	c := m.ctx
	f := c.False
	end := len(pl.pc)
	for i := len(pl.obl) - 1; i >= 0; i-- {
		o := pl.obl[i]
		for j := end - 1; j >= o.npc; j-- {
			f = c.And(pl.pc[j], f)
		}
		end = o.npc
		f = c.Or(c.Not(o.c), f)
	}
	for j := end - 1; j >= 0; j-- {
		f = c.And(pl.pc[j], f)
	}
	if f == c.False {
		return 3, 0, cex
	}
	mod := append([]uint64(nil), p.model...)
	r := m.solver.Check(c, []*Expr{f}, func(i int, v uint64) {
		for len(mod) <= i {
			mod = append(mod, 0)
		}
		mod[i] = v
	})
	switch r {
	case Unsat:
		return 0, len(pl.obl), cex
	case Sat:
		return 1, len(pl.obl), sample{Inputs: m.inputVector(mod), Outcome: "recheck"}
	}
	return 2, 0, cex
}
