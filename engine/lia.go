package main

// Queries that divide are translated exactly to linear integer arithmetic:
// every bit-vector becomes its two's complement value, operations whose exact
// result may leave the range of the type are wrapped with mod. What is not
// linear stays with the bit-vector solver.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type liaSolver struct {
	path string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
}

// usesDivision says whether a division by a constant occurs below any of the conditions.
func usesDivision(conds []*Expr) bool {
	seen := map[*Expr]bool{}
	var rec func(e *Expr) bool
	rec = func(e *Expr) bool {
		if e == nil || e.op == OConst || e.op == OVar || seen[e] {
			return false
		}
		seen[e] = true
		switch e.op {
		case OSDiv, OSRem, OUDiv, OURem:
			if e.w >= 16 && e.b.op == OConst && e.b.k&(e.b.k-1) != 0 {
				return true
			}
		}
		return rec(e.a) || rec(e.b) || rec(e.c)
	}
	for _, c := range conds {
		if rec(c) {
			return true
		}
	}
	return false
}

type liaTerm struct {
	s      string // name or numeral
	lo, hi *big.Int
}

type liaUnsupported struct{ op Op }

type liaEnc struct {
	sb    *strings.Builder
	memo  map[*Expr]liaTerm
	bmemo map[*Expr]string
	rng   map[*Expr][2]*big.Int
	vars  []*Expr
	n     int
}

func pow2(n uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func num(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func signedOf(k uint64, w uint8) *big.Int {
	x := new(big.Int).SetUint64(k & mask(w))
	if w > 0 && x.Bit(int(w)-1) == 1 {
		x.Sub(x, pow2(w))
	}
	return x
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// bound records ranges of variables stated by the conditions.
func (l *liaEnc) bound(c *Expr, pos bool) {
	switch c.op {
	case ONot:
		l.bound(c.a, !pos)
		return
	case OAnd:
		if pos {
			l.bound(c.a, true)
			l.bound(c.b, true)
		}
		return
	case OOr:
		if !pos {
			l.bound(c.a, false)
			l.bound(c.b, false)
		}
		return
	}
	upd := func(x *Expr, lo, hi *big.Int) {
		r, ok := l.rng[x]
		if !ok {
			h := pow2(x.w - 1)
			r = [2]*big.Int{new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
		}
		if lo != nil {
			r[0] = maxB(r[0], lo)
		}
		if hi != nil {
			r[1] = minB(r[1], hi)
		}
		l.rng[x] = r
	}
	one := big.NewInt(1)
	switch c.op {
	case OSlt, OSle:
		d := new(big.Int)
		// pos: a < b or a <= b; neg: b <= a or b < a
		a, b, strict := c.a, c.b, c.op == OSlt
		if !pos {
			a, b, strict = b, a, !strict
		}
		if strict {
			d = one
		}
		if b.op == OConst {
			upd(a, nil, new(big.Int).Sub(signedOf(b.k, b.w), d))
		} else if a.op == OConst {
			upd(b, new(big.Int).Add(signedOf(a.k, a.w), d), nil)
		}
	case OUlt, OUle:
		if pos && c.b.op == OConst {
			k := signedOf(c.b.k, c.b.w)
			if k.Sign() >= 0 && (k.Sign() > 0 || c.op == OUle) {
				if c.op == OUlt {
					k.Sub(k, one)
				}
				upd(c.a, big.NewInt(0), k)
			}
		}
	case OEq:
		if pos && c.a.w != WBool && c.a.w < 200 {
			if c.b.op == OConst {
				k := signedOf(c.b.k, c.b.w)
				upd(c.a, k, k)
			} else if c.a.op == OConst {
				k := signedOf(c.a.k, c.a.w)
				upd(c.b, k, k)
			}
		}
	}
}

func (l *liaEnc) def(sort, body string) string {
	l.n++
	n := fmt.Sprintf("t%d", l.n)
	fmt.Fprintf(l.sb, "(define-fun %s () %s %s)\n", n, sort, body)
	return n
}

func (l *liaEnc) mk(body string, lo, hi *big.Int) liaTerm {
	return liaTerm{l.def("Int", body), lo, hi}
}

// wrap brings a term into the signed range of w.
func (l *liaEnc) wrap(t liaTerm, w uint8) liaTerm {
	h := pow2(w - 1)
	lo, hi := new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	if t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	return l.mk(fmt.Sprintf("(- (mod (+ %s %s) %s) %s)", t.s, h, pow2(w), h), lo, hi)
}

// unsigned is the unsigned value of a signed term.
func (l *liaEnc) unsigned(t liaTerm, w uint8) liaTerm {
	if t.lo.Sign() >= 0 {
		return t
	}
	m := pow2(w)
	if t.hi.Sign() < 0 {
		return l.mk(fmt.Sprintf("(+ %s %s)", t.s, m), new(big.Int).Add(t.lo, m), new(big.Int).Add(t.hi, m))
	}
	return l.mk(fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", t.s, t.s, m, t.s), big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)))
}

// floorDiv and rest divide a term of any sign by a positive constant, rounding down.
func (l *liaEnc) floorDiv(t liaTerm, d *big.Int) liaTerm {
	fl := func(x *big.Int) *big.Int {
		q, r := new(big.Int).QuoRem(x, d, new(big.Int))
		if r.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		}
		return q
	}
	return l.mk(fmt.Sprintf("(div %s %s)", t.s, d), fl(t.lo), fl(t.hi))
}

func (l *liaEnc) rest(t liaTerm, d *big.Int) liaTerm {
	if t.lo.Sign() >= 0 && t.hi.Cmp(d) < 0 {
		return t
	}
	return l.mk(fmt.Sprintf("(mod %s %s)", t.s, d), big.NewInt(0), new(big.Int).Sub(d, big.NewInt(1)))
}

func (l *liaEnc) term(e *Expr) liaTerm {
	if t, ok := l.memo[e]; ok {
		return t
	}
	t := l.build(e)
	if r, ok := l.rng[e]; ok {
		// the conditions hold in every model; stated, since their own encoding may rely on it
		fmt.Fprintf(l.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", num(r[0]), t.s, t.s, num(r[1]))
		t.lo, t.hi = maxB(t.lo, r[0]), minB(t.hi, r[1])
		if t.lo.Cmp(t.hi) > 0 {
			t.hi = t.lo
		}
	}
	l.memo[e] = t
	return t
}

func (l *liaEnc) build(e *Expr) liaTerm {
	if e.w == WBool || e.w > 64 {
		panic(liaUnsupported{e.op})
	}
	h := pow2(e.w - 1)
	full := func() (lo, hi *big.Int) { return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1)) }
	konst := func(x *Expr) (*big.Int, bool) {
		if x.op == OConst {
			return signedOf(x.k, x.w), true
		}
		return nil, false
	}
	switch e.op {
	case OConst:
		k := signedOf(e.k, e.w)
		return liaTerm{num(k), k, k}
	case OVar:
		l.vars = append(l.vars, e)
		n := fmt.Sprintf("v%d_%d", e.k, e.w)
		lo, hi := full()
		fmt.Fprintf(l.sb, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", n, num(lo), n, n, num(hi))
		return liaTerm{n, lo, hi}
	case OIte:
		c, a, b := l.cond(e.a), l.term(e.b), l.term(e.c)
		return l.mk(fmt.Sprintf("(ite %s %s %s)", c, a.s, b.s), minB(a.lo, b.lo), maxB(a.hi, b.hi))
	case OAdd:
		a, b := l.term(e.a), l.term(e.b)
		return l.wrap(l.mk(fmt.Sprintf("(+ %s %s)", a.s, b.s), new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)), e.w)
	case OSub:
		a, b := l.term(e.a), l.term(e.b)
		return l.wrap(l.mk(fmt.Sprintf("(- %s %s)", a.s, b.s), new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)), e.w)
	case OMul:
		a, b := l.term(e.a), l.term(e.b)
		if a.lo.Cmp(a.hi) != 0 && b.lo.Cmp(b.hi) != 0 {
			panic(liaUnsupported{e.op})
		}
		var lo, hi *big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil {
					lo, hi = p, p
				}
				lo, hi = minB(lo, p), maxB(hi, p)
			}
		}
		as, bs := a.s, b.s
		if a.lo.Cmp(a.hi) == 0 {
			as = num(a.lo)
		}
		if b.lo.Cmp(b.hi) == 0 {
			bs = num(b.lo)
		}
		return l.wrap(l.mk(fmt.Sprintf("(* %s %s)", as, bs), lo, hi), e.w)
	case OShl:
		k, ok := konst(e.b)
		if !ok || k.Sign() < 0 || k.Cmp(big.NewInt(int64(e.w))) >= 0 {
			panic(liaUnsupported{e.op})
		}
		a := l.term(e.a)
		f := pow2(uint8(k.Int64()))
		return l.wrap(l.mk(fmt.Sprintf("(* %s %s)", a.s, f), new(big.Int).Mul(a.lo, f), new(big.Int).Mul(a.hi, f)), e.w)
	case OAShr, OLShr:
		k, ok := konst(e.b)
		if !ok || k.Sign() < 0 || k.Cmp(big.NewInt(int64(e.w))) >= 0 {
			panic(liaUnsupported{e.op})
		}
		a := l.term(e.a)
		if e.op == OLShr {
			a = l.unsigned(a, e.w)
		}
		return l.wrap(l.floorDiv(a, pow2(uint8(k.Int64()))), e.w)
	case OSDiv, OSRem:
		d, ok := konst(e.b)
		if !ok || d.Sign() <= 0 {
			panic(liaUnsupported{e.op})
		}
		a := l.term(e.a)
		var q liaTerm
		if a.lo.Sign() >= 0 {
			q = l.floorDiv(a, d)
			if e.op == OSRem {
				return l.rest(a, d)
			}
			return q
		}
		lo, hi := new(big.Int).Quo(a.lo, d), new(big.Int).Quo(a.hi, d)
		q = l.mk(fmt.Sprintf("(ite (>= %s 0) (div %s %s) (- (div (- %s) %s)))", a.s, a.s, d, a.s, d), lo, hi)
		if e.op == OSDiv {
			return q
		}
		m := new(big.Int).Sub(d, big.NewInt(1))
		return l.mk(fmt.Sprintf("(- %s (* %s %s))", a.s, d, q.s), maxB(a.lo, new(big.Int).Neg(m)), maxB(big.NewInt(0), minB(a.hi, m)))
	case OUDiv, OURem:
		if e.b.op != OConst || e.b.k == 0 {
			panic(liaUnsupported{e.op})
		}
		d := new(big.Int).SetUint64(e.b.k)
		a := l.unsigned(l.term(e.a), e.w)
		if e.op == OUDiv {
			return l.wrap(l.floorDiv(a, d), e.w)
		}
		return l.wrap(l.rest(a, d), e.w)
	case OSExt:
		return l.term(e.a)
	case OZExt:
		return l.unsigned(l.term(e.a), e.a.w)
	case OExtract:
		a := l.term(e.a)
		if e.k > 0 {
			a = l.floorDiv(a, pow2(uint8(e.k)))
		}
		return l.wrap(a, e.w)
	case OConcat:
		a, b := l.term(e.a), l.unsigned(l.term(e.b), e.b.w)
		f := pow2(e.b.w)
		lo, hi := new(big.Int).Mul(a.lo, f), new(big.Int).Mul(a.hi, f)
		return l.mk(fmt.Sprintf("(+ (* %s %s) %s)", a.s, f, b.s), lo.Add(lo, b.lo), hi.Add(hi, b.hi))
	case OBNot:
		a := l.term(e.a)
		m1 := big.NewInt(-1)
		return l.mk(fmt.Sprintf("(- (- 1) %s)", a.s), new(big.Int).Sub(m1, a.hi), new(big.Int).Sub(m1, a.lo))
	case OBAnd:
		if e.b.op == OConst && e.b.k&(e.b.k+1) == 0 && e.b.k != mask(e.w) {
			return l.rest(l.term(e.a), new(big.Int).Add(new(big.Int).SetUint64(e.b.k), big.NewInt(1)))
		}
	}
	panic(liaUnsupported{e.op})
}

func (l *liaEnc) cond(e *Expr) string {
	if s, ok := l.bmemo[e]; ok {
		return s
	}
	var s string
	switch e.op {
	case OConst:
		s = "false"
		if e.k != 0 {
			s = "true"
		}
	case OVar:
		l.vars = append(l.vars, e)
		s = fmt.Sprintf("v%d_%d", e.k, e.w)
		fmt.Fprintf(l.sb, "(declare-const %s Bool)\n", s)
	case ONot:
		s = l.def("Bool", "(not "+l.cond(e.a)+")")
	case OAnd:
		s = l.def("Bool", "(and "+l.cond(e.a)+" "+l.cond(e.b)+")")
	case OOr:
		s = l.def("Bool", "(or "+l.cond(e.a)+" "+l.cond(e.b)+")")
	case OIte:
		s = l.def("Bool", "(ite "+l.cond(e.a)+" "+l.cond(e.b)+" "+l.cond(e.c)+")")
	case OEq:
		if e.a.w == WBool {
			s = l.def("Bool", "(= "+l.cond(e.a)+" "+l.cond(e.b)+")")
		} else {
			s = l.def("Bool", "(= "+l.term(e.a).s+" "+l.term(e.b).s+")")
		}
	case OSlt:
		s = l.def("Bool", "(< "+l.term(e.a).s+" "+l.term(e.b).s+")")
	case OSle:
		s = l.def("Bool", "(<= "+l.term(e.a).s+" "+l.term(e.b).s+")")
	case OUlt, OUle:
		a, b := l.unsigned(l.term(e.a), e.a.w), l.unsigned(l.term(e.b), e.b.w)
		op := "<"
		if e.op == OUle {
			op = "<="
		}
		s = l.def("Bool", "("+op+" "+a.s+" "+b.s+")")
	default:
		panic(liaUnsupported{e.op})
	}
	l.bmemo[e] = s
	return s
}

// check decides the conjunction; Unknown when it is not linear or too hard.
func (ls *liaSolver) check(conds []*Expr, timeoutMs int, set func(idx int, v uint64)) (res Res) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(liaUnsupported); !ok {
				panic(x)
			}
			res = Unknown
		}
	}()
	l := &liaEnc{sb: &strings.Builder{}, memo: map[*Expr]liaTerm{}, bmemo: map[*Expr]string{}, rng: map[*Expr][2]*big.Int{}}
	for _, c := range conds {
		l.bound(c, true)
	}
	for _, c := range conds {
		s := l.cond(c)
		fmt.Fprintf(l.sb, "(assert %s)\n", s)
	}
	if ls.cmd == nil {
		ls.cmd = exec.Command(ls.path, "-in")
		in, err := ls.cmd.StdinPipe()
		if err != nil {
			fatal("solver: %v", err)
		}
		out, err := ls.cmd.StdoutPipe()
		if err != nil {
			fatal("solver: %v", err)
		}
		if err := ls.cmd.Start(); err != nil {
			fatal("cannot start solver %s: %v", ls.path, err)
		}
		ls.in, ls.out = in, bufio.NewReader(out)
		fmt.Fprintf(in, "(set-option :timeout %d)\n", timeoutMs)
	}
	fmt.Fprintf(ls.in, "(push)\n%s(check-sat)\n", l.sb.String())
	timer := time.AfterFunc(time.Duration(timeoutMs)*time.Millisecond*2+5*time.Second, func() { ls.cmd.Process.Kill() })
	line, err := ls.out.ReadString('\n')
	timer.Stop()
	if err != nil {
		ls.close()
		return Unknown
	}
	switch strings.TrimSpace(line) {
	case "unsat":
		res = Unsat
	case "sat":
		res = Sat
		for _, v := range l.vars {
			n := fmt.Sprintf("v%d_%d", v.k, v.w)
			fmt.Fprintf(ls.in, "(get-value (%s))\n", n)
			line, err := ls.out.ReadString('\n')
			if err != nil {
				ls.close()
				return Unknown
			}
			f := strings.FieldsFunc(line, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			switch {
			case len(f) == 2 && f[1] == "true":
				set(int(v.k), 1)
			case len(f) == 2 && f[1] == "false":
				set(int(v.k), 0)
			default:
				x, ok := new(big.Int).SetString(f[len(f)-1], 10)
				if !ok {
					ls.close()
					return Unknown
				}
				if len(f) == 3 {
					x.Neg(x)
				}
				x.Mod(x, pow2(64))
				set(int(v.k), x.Uint64()&mask(v.w))
			}
		}
	case "unknown":
		res = Unknown
	default:
		ls.close()
		return Unknown
	}
	fmt.Fprintf(ls.in, "(pop)\n")
	return res
}

func (ls *liaSolver) close() {
	if ls.cmd != nil {
		ls.in.Close()
		ls.cmd.Process.Kill()
		ls.cmd.Wait()
		ls.cmd = nil
	}
}
