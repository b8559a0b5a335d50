package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Harness string
	Msg     string
	Inputs  []uint64
	Sched   []string
	Kind    string // assert, panic, steps
	Pos     string
	Native  string // native replay outcome
	Random  bool   // the path drew from the random source
}

type Engine struct {
	prog    *ssa.Program
	progMu  sync.Mutex
	harness *ssa.Function
	name    string
	qc      *qcache

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []item
	active   int
	stop     bool
	deadline time.Time

	branches  atomic.Int64
	asserts   atomic.Int64
	cacheHits atomic.Int64
	paths     atomic.Int64
	complete  atomic.Int64
	infeas    atomic.Int64
	instrs    atomic.Int64
	unsup     atomic.Int64
	maxSteps  int64
	selfCheck bool
	useMerge  bool
	workers   int
	solverBin string
	timeoutMs int
	maxPaths  int64
	maxViol   int

	notes     map[string]map[string]int
	funcs     map[string]string
	reached   map[string]bool
	possible  map[string]bool // v.Possible conditions and whether some path allows them
	viol      []Violation
	violSeen  map[string]int
	samples   []sample
	nsample   int64
	maxSample int
	solver    SolverStats
	timedOut  bool
	finished  bool
	thorough  bool
}

type sample struct {
	Inputs   []uint64
	Outcome  string
	Obs      []uint64
	Steps    int64
	choices  []uint64
	model    []uint64
	fallback bool
}

func (e *Engine) push(it item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) note(kind, msg string) {
	e.mu.Lock()
	if e.notes[kind] == nil {
		e.notes[kind] = map[string]int{}
	}
	e.notes[kind][msg]++
	e.mu.Unlock()
}

func (e *Engine) cover(name string, fn *ssa.Function) {
	e.mu.Lock()
	if _, ok := e.funcs[name]; !ok {
		p := e.prog.Fset.Position(fn.Pos())
		e.funcs[name] = fmt.Sprintf("%s:%d", relRepo(p.Filename), p.Line)
	}
	e.mu.Unlock()
}

func (m *Machine) violation(msg string, mod []uint64) {
	m.violationK("assert", msg, mod)
}

func (m *Machine) violationK(kind, msg string, mod []uint64) {
	e := m.eng
	v := Violation{Harness: e.name, Msg: msg, Inputs: m.inputVector(mod), Kind: kind, Pos: m.pos(), Sched: append([]string(nil), m.path.sched...), Random: m.path.random}
	e.mu.Lock()
	defer e.mu.Unlock()
	key := kind + "|" + msg
	e.violSeen[key]++
	if e.violSeen[key] > 12 {
		return
	}
	e.viol = append(e.viol, v)
}

func (e *Engine) tooMany() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	n := 0
	for _, c := range e.violSeen {
		n += c
	}
	return n >= e.maxViol
}

func (e *Engine) run() {
	e.cond = sync.NewCond(&e.mu)
	e.notes = map[string]map[string]int{}
	e.funcs = map[string]string{}
	e.reached = map[string]bool{}
	e.possible = map[string]bool{}
	e.violSeen = map[string]int{}
	e.qc = newQcache()
	e.queue = []item{{}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			e.worker(id)
		}(i)
	}
	// wake workers at the deadline
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				if time.Now().After(e.deadline) {
					e.mu.Lock()
					if !e.stop {
						e.stop = true
						e.timedOut = true
					}
					e.mu.Unlock()
				}
				e.cond.Broadcast()
			}
		}
	}()
	wg.Wait()
	close(done)
	e.finished = !e.timedOut && len(e.queue) == 0
}

func (e *Engine) newMachine() *Machine {
	m := &Machine{ctx: NewCtx(), prog: e.prog, fns: map[*ssa.Function]*cfn{}, eng: e}
	m.solver = NewSolver(e.solverBin, e.timeoutMs)
	return m
}

func (e *Engine) worker(id int) {
	m := e.newMachine()
	defer func() {
		e.addStats(m)
	}()
	for {
		e.mu.Lock()
		for len(e.queue) == 0 && e.active > 0 && !e.stop {
			e.cond.Wait()
		}
		if e.stop || len(e.queue) == 0 {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		it := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		e.active++
		e.mu.Unlock()
		e.runPath(m, it)
		e.mu.Lock()
		e.active--
		e.mu.Unlock()
		e.cond.Broadcast()
		if e.paths.Load() >= e.maxPaths || e.tooMany() {
			e.mu.Lock()
			if !e.stop {
				e.stop = true
				e.timedOut = true
			}
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		if m.ctx.n > 1500000 {
			e.addStats(m)
			m = e.newMachine()
		}
	}
}

func (e *Engine) addStats(m *Machine) {
	m.solver.Close()
	e.mu.Lock()
	s := &m.solver.Stats
	e.solver.Queries += s.Queries
	e.solver.Sat += s.Sat
	e.solver.Unsat += s.Unsat
	e.solver.Unknown += s.Unknown
	e.solver.Time += s.Time
	if s.MaxQ > e.solver.MaxQ {
		e.solver.MaxQ = s.MaxQ
	}
	m.solver.Stats = SolverStats{}
	e.mu.Unlock()
}

func (e *Engine) runPath(m *Machine, it item) {
	p := &Path{prefix: it.prefix, known: map[*Expr]bool{}, maxSteps: e.maxSteps, merge: e.useMerge, reached: map[string]bool{}}
	p.model = it.model
	m.reset(p)
	m.setModel(it.model)
	outcome := ""
	var ab *pathAbort
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch x := x.(type) {
				case targetPanic:
					outcome = "panic"
					if len(p.log) >= len(p.prefix) {
						m.violationK("panic", shortMsg(x.msg)+" at "+relRepo(x.pos), p.model)
					}
				case pathAbort:
					ab = &x
				default:
					// no answer for this path; the others are still explored
					fmt.Fprintf(os.Stderr, "engine failure at %s in %s: %v\n%s\n", m.pos(), e.name, x, debug.Stack())
					ab = &pathAbort{abUnsupported, sprintf("engine failure: %v", x)}
				}
			}
		}()
		m.ensureInit(e.harness.Pkg)
		m.call(nil, &Closure{fn: e.harness}, nil)
		outcome = "ok"
	}()
	e.paths.Add(1)
	e.instrs.Add(p.steps)
	fallback := false
	if ab != nil {
		outcome = "abort"
		switch ab.kind {
		case abInfeasible:
			e.infeas.Add(1)
			return
		case abUnsupported:
			e.unsup.Add(1)
			e.note("unsupported", ab.msg+" at "+relRepo(m.pos()))
			fallback = true
		case abSteps:
			m.violationK("steps", ab.msg, p.model)
			return
		case abViolation:
			return
		default:
			e.note("aborted", ab.msg+" at "+relRepo(m.pos()))
			fallback = true
		}
	}
	e.complete.Add(1)
	e.mu.Lock()
	for r := range p.reached {
		e.reached[r] = true
	}
	e.nsample++
	keep := len(e.samples) < e.maxSample
	slot := -1
	if !keep {
		// deterministic thinning
		h := mix64(uint64(e.nsample) * 0x9E3779B97F4A7C15)
		if k := h % uint64(e.nsample); k < uint64(e.maxSample) {
			slot = int(k)
		}
	}
	e.mu.Unlock()
	if keep || slot >= 0 || fallback {
		s := sample{Inputs: m.inputVector(p.model), Outcome: outcome, Steps: p.steps, fallback: fallback, model: p.model}
		for _, d := range p.log {
			if d.kind == 1 {
				s.choices = append(s.choices, d.v)
			}
		}
		for _, o := range p.obs {
			s.Obs = append(s.Obs, m.eval(o))
		}
		e.mu.Lock()
		if slot >= 0 {
			e.samples[slot] = s
		} else if len(e.samples) < e.maxSample*2 {
			e.samples = append(e.samples, s)
		}
		e.mu.Unlock()
	}
}

func sortedKeys(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// shortMsg drops the concrete numbers of a runtime error.
func shortMsg(s string) string {
	if i := strings.Index(s, " ["); i > 0 {
		s = s[:i]
	}
	return s
}

// reset prepares the machine for a new execution.
func (m *Machine) reset(p *Path) {
	m.path = p
	m.globals = map[*ssa.Global]*Value{}
	m.inited = map[*ssa.Package]int{}
	m.pools = map[*Value][]Value{}
	m.fs = nil
	m.locks = nil
	m.spec = nil
	m.par = nil
	m.depth = 0
}
