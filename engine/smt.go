package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	Time                         time.Duration
	MaxQ                         time.Duration
}

type Solver struct {
	path    string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	session int32
	ndefs   int
	timeout int // ms
	Stats   SolverStats
	log     *os.File
	errs    int
	oneShot bool
	lia     *liaSolver
}

var solverSession int32

func NewSolver(path string, timeoutMs int) *Solver {
	return &Solver{path: path, timeout: timeoutMs}
}

func (s *Solver) start(ctx *Ctx) {
	args := []string{"-in"}
	if strings.Contains(s.path, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(s.timeout)}
	}
	s.cmd = exec.Command(s.path, args...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start solver %s: %v", s.path, err)
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.session++
	s.ndefs = 0
	if strings.Contains(s.path, "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :global-declarations true)\n(set-option :print-success false)\n", s.timeout)
	} else {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-logic ALL)\n")
	}
	for _, e := range ctx.tab {
		if e.smt != 0 {
			e.smt = 0
		}
	}
}

func (s *Solver) Close() {
	if s.lia != nil {
		s.lia.close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	switch w {
	case WBool:
		return "Bool"
	case WF32:
		return "(_ FloatingPoint 8 24)"
	case WF64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func fpParm(w uint8) string {
	if w == WF32 {
		return "8 24"
	}
	return "11 53"
}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OConst:
		switch {
		case e.w == WBool:
			if e.k != 0 {
				return "true"
			}
			return "false"
		case e.w == WF32:
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", e.k)
		case e.w == WF64:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", e.k)
		case e.w%4 == 0:
			return fmt.Sprintf("#x%0*x", int(e.w)/4, e.k)
		default:
			return fmt.Sprintf("#b%0*b", int(e.w), e.k)
		}
	case OVar:
		return fmt.Sprintf("v%d_%d", e.k, e.w)
	}
	return "n" + strconv.Itoa(int(e.id))
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OConcat: "concat",
	OFNeg: "fp.neg", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq",
}

func (s *Solver) define(e *Expr) {
	if e.op == OConst || e.smt == s.session {
		return
	}
	type fr struct {
		e *Expr
		i int
	}
	stack := []fr{{e, 0}}
	for len(stack) > 0 {
		t := &stack[len(stack)-1]
		var ch *Expr
		for t.i < 3 {
			switch t.i {
			case 0:
				ch = t.e.a
			case 1:
				ch = t.e.b
			case 2:
				ch = t.e.c
			}
			t.i++
			if ch != nil && ch.op != OConst && ch.smt != s.session {
				break
			}
			ch = nil
		}
		if ch != nil {
			stack = append(stack, fr{ch, 0})
			continue
		}
		x := t.e
		stack = stack[:len(stack)-1]
		if x.smt == s.session {
			continue
		}
		x.smt = s.session
		s.ndefs++
		w := s.in
		if x.op == OVar {
			fmt.Fprintf(w, "(declare-const v%d_%d %s)\n", x.k, x.w, sortOf(x.w))
			continue
		}
		fmt.Fprintf(w, "(define-fun n%d () %s (", x.id, sortOf(x.w))
		switch x.op {
		case OExtract:
			fmt.Fprintf(w, "(_ extract %d %d)", x.k+uint64(x.w)-1, x.k)
		case OZExt:
			fmt.Fprintf(w, "(_ zero_extend %d)", x.w-x.a.w)
		case OSExt:
			fmt.Fprintf(w, "(_ sign_extend %d)", x.w-x.a.w)
		case OS2F:
			fmt.Fprintf(w, "(_ to_fp %s) RNE", fpParm(x.w))
		case OU2F:
			fmt.Fprintf(w, "(_ to_fp_unsigned %s) RNE", fpParm(x.w))
		case OF2S:
			fmt.Fprintf(w, "(_ fp.to_sbv %d) RTZ", x.w)
		case OF2U:
			fmt.Fprintf(w, "(_ fp.to_ubv %d) RTZ", x.w)
		case OF2F:
			fmt.Fprintf(w, "(_ to_fp %s) RNE", fpParm(x.w))
		case OFAdd:
			w.WriteString("fp.add RNE")
		case OFSub:
			w.WriteString("fp.sub RNE")
		case OFMul:
			w.WriteString("fp.mul RNE")
		case OFDiv:
			w.WriteString("fp.div RNE")
		case OFRound:
			w.WriteString("fp.roundToIntegral " + []string{"RTN", "RTP", "RTZ"}[x.k])
		default:
			w.WriteString(opNames[x.op])
		}
		for _, ch := range []*Expr{x.a, x.b, x.c} {
			if ch != nil {
				w.WriteByte(' ')
				w.WriteString(s.ref(ch))
			}
		}
		w.WriteString("))\n")
	}
}

// Check decides the conjunction of conds. On Sat, set is called with each
// variable index and its value.
func (s *Solver) Check(ctx *Ctx, conds []*Expr, set func(idx int, v uint64)) Res {
	t0 := time.Now()
	if !s.oneShot && strings.Contains(s.path, "z3") && usesDivision(conds) {
		if s.lia == nil {
			s.lia = &liaSolver{path: s.path}
		}
		res := s.lia.check(conds, s.timeout, set)
		d := time.Since(t0)
		s.Stats.Queries++
		s.Stats.Time += d
		if d > s.Stats.MaxQ {
			s.Stats.MaxQ = d
		}
		switch res {
		case Unsat:
			s.Stats.Unsat++
			return res
		case Sat:
			s.Stats.Sat++
			return res
		}
		s.Stats.Unknown++
	}
	if s.cmd != nil && s.ndefs > 400000 {
		s.Close()
	}
	if s.cmd == nil {
		s.start(ctx)
	}
	vs := ctx.emptyV
	for _, c := range conds {
		s.define(c)
		vs = vs.union(c.vars)
	}
	w := s.in
	if !s.oneShot {
		w.WriteString("(push)\n")
	}
	for _, c := range conds {
		w.WriteString("(assert ")
		w.WriteString(s.ref(c))
		w.WriteString(")\n")
	}
	w.WriteString("(check-sat)\n")
	w.Flush()
	timer := time.AfterFunc(time.Duration(s.timeout)*time.Millisecond*3+5*time.Second, func() {
		if s.cmd != nil && s.cmd.Process != nil {
			s.cmd.Process.Kill()
		}
	})
	line, err := s.out.ReadString('\n')
	timer.Stop()
	s.Stats.Queries++
	res := Unknown
	if err != nil {
		s.cmd.Wait()
		s.cmd = nil
	} else {
		switch strings.TrimSpace(line) {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		case "unknown":
		default:
			s.errs++
			fmt.Fprintf(os.Stderr, "solver said: %s", line)
			s.Close()
		}
	}
	if res == Sat {
		var names []string
		var idxs []int
		for _, c := range conds {
			collectVars(c, func(v *Expr) {
				names = append(names, s.ref(v))
				idxs = append(idxs, int(v.k))
			})
		}
		if len(names) > 0 {
			w.WriteString("(get-value (")
			for _, n := range names {
				w.WriteString(n)
				w.WriteByte(' ')
			}
			w.WriteString("))\n")
			w.Flush()
			vals, ok := s.readValues(len(names))
			if !ok {
				res = Unknown
			} else {
				for i, v := range vals {
					set(idxs[i], v)
				}
			}
		}
	}
	if s.cmd != nil && !s.oneShot {
		w.WriteString("(pop)\n")
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxQ {
		s.Stats.MaxQ = d
	}
	switch res {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
	return res
}

// collectVars visits each variable node below e once (per call).
func collectVars(e *Expr, f func(*Expr)) {
	seen := map[*Expr]bool{}
	var rec func(*Expr)
	rec = func(x *Expr) {
		if x == nil || x.op == OConst || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OVar {
			f(x)
			return
		}
		rec(x.a)
		rec(x.b)
		rec(x.c)
	}
	rec(e)
}

// readValues parses ((name value) ...), possibly over several lines.
func (s *Solver) readValues(n int) ([]uint64, bool) {
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, false
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	toks := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	if len(toks) != 2*n {
		fmt.Fprintf(os.Stderr, "solver values: %q\n", sb.String())
		return nil, false
	}
	out := make([]uint64, n)
	for i := 0; i < n; i++ {
		t := toks[2*i+1]
		switch {
		case t == "true":
			out[i] = 1
		case t == "false":
			out[i] = 0
		case strings.HasPrefix(t, "#x"):
			out[i], _ = strconv.ParseUint(t[2:], 16, 64)
		case strings.HasPrefix(t, "#b"):
			out[i], _ = strconv.ParseUint(t[2:], 2, 64)
		default:
			return nil, false
		}
	}
	return out, true
}

// Fresh decides the conjunction in a new solver process without incremental
// mode (the full preprocessing of the solver applies).
func (s *Solver) Fresh(path string, ctx *Ctx, conds []*Expr, timeoutMs int, set func(idx int, v uint64)) Res {
	f := NewSolver(path, timeoutMs)
	f.oneShot = true
	f.session = 1 << 20
	r := f.Check(ctx, conds, set)
	f.Close()
	for _, e := range ctx.tab {
		if e.smt > 1<<20 {
			e.smt = 0
		}
	}
	if s.cmd != nil {
		// definitions of the long-lived solver were forgotten above
		s.Close()
	}
	s.Stats.Queries += f.Stats.Queries
	s.Stats.Time += f.Stats.Time
	s.Stats.Sat += f.Stats.Sat
	s.Stats.Unsat += f.Stats.Unsat
	s.Stats.Unknown += f.Stats.Unknown
	return r
}
