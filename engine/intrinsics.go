package main

// Harness primitives, environment stubs and models of runtime-provided code.

import (
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(m *Machine, fr *frame, args []Value) Value

const vPkg = "verif/harness/v"

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnPkgPath(o)
	}
	if p := fn.Parent(); p != nil {
		return fnPkgPath(p)
	}
	// wrappers: take the receiver's package
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

const targetMod = "github.com/lkmio/avformat"

func isTargetPkg(p string) bool  { return p == targetMod || strings.HasPrefix(p, targetMod+"/") }
func isHarnessPkg(p string) bool { return strings.HasPrefix(p, "verif/harness") }

var initOK = map[string]bool{
	"errors": true, "io": true, "encoding/binary": true, "bytes": true, "strconv": true, "strings": true, "math": true,
	"math/bits": true, "sort": true, "slices": true, "unicode/utf8": true, "sync": true, "sync/atomic": true, "cmp": true,
	"container/list": true, "container/heap": true, "container/ring": true, "bufio": true, "maps": true, "iter": true,
	"internal/bytealg": true, "encoding": true, "encoding/hex": true, "unicode": true, "math/rand": true, "io/fs": false,
	"internal/byteorder": true, "math/cmplx": true, "hash/crc32": false, "hash": true, "encoding/base64": true, "unsafe": true,
	"internal/oserror": true,
}

func initAllowed(p string) bool {
	return isTargetPkg(p) || isHarnessPkg(p) || initOK[p]
}

func (m *Machine) intrinsic(fn *ssa.Function) intrFn {
	pk := fnPkgPath(fn)
	name := fn.String()
	if pk == vPkg {
		if f, ok := vFuncs[fn.Name()]; ok && fn.Signature.Recv() == nil {
			return f
		}
		return nil
	}
	if isTargetPkg(pk) || isHarnessPkg(pk) {
		return nil
	}
	if f, ok := stubs[name]; ok {
		return f
	}
	switch pk {
	case "fmt", "log", "log/slog":
		return fmtStub(fn)
	case "internal/race", "internal/msan", "internal/asan":
		return func(m *Machine, fr *frame, args []Value) Value { return zeroResult(m, fn) }
	}
	return nil
}

func zeroResult(m *Machine, fn *ssa.Function) Value {
	sig := fn.Signature.Results()
	switch sig.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(sig.At(0).Type())
	}
	return m.zero(sig)
}

// fmtStub: formatting produces an opaque string, printing does nothing.
func fmtStub(fn *ssa.Function) intrFn {
	n := fn.Name()
	return func(m *Machine, fr *frame, args []Value) Value {
		switch {
		case strings.HasPrefix(n, "Sprint"):
			return &Str{opaque: true}
		case n == "Errorf":
			return m.newError(&Str{opaque: true})
		case strings.HasPrefix(n, "Print"), strings.HasPrefix(n, "Fprint"), n == "Info", n == "Warn", n == "Error", n == "Debug", n == "SetFlags", n == "SetOutput":
			return zeroResult(m, fn)
		case strings.HasPrefix(n, "Append"):
			unsupported("%s", fn)
		case strings.HasPrefix(n, "Panic"):
			panic(targetPanic{msg: "panic: log.Panic", pos: m.pos(), val: Iface{t: types.Typ[types.String], v: &Str{opaque: true}}})
		case n == "init":
			return nil
		}
		unsupported("%s", fn)
		return nil
	}
}

func (m *Machine) newError(s *Str) Value {
	p := m.prog.ImportedPackage("errors")
	if p == nil {
		unsupported("errors package not loaded")
	}
	return m.call(nil, &Closure{fn: p.Func("New")}, []Value{s})
}

func ex(v Value) *Expr { return v.(*Expr) }

// ptr-based atomics
func atomicOp(f func(m *Machine, p Ptr, args []Value) Value) intrFn {
	return func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		if p.isNil() {
			m.rtPanic("nil pointer dereference")
		}
		if m.par != nil {
			m.par.yield(m, "atomic", p)
		}
		return f(m, p, args)
	}
}

// atomicField: methods on atomic.Int32 etc., whose value is the last field.
func fieldPtr(p Ptr) Ptr {
	if p.c == nil {
		return p
	}
	if s, ok := (*p.c).(*StructV); ok {
		return Ptr{c: &s.f[len(s.f)-1]}
	}
	return p
}

var stubs map[string]intrFn
var vFuncs map[string]intrFn

func init() {
	stubs = map[string]intrFn{}
	nop := func(m *Machine, fr *frame, args []Value) Value { return nil }
	add := atomicOp(func(m *Machine, p Ptr, a []Value) Value {
		n := m.ctx.Add(ex(m.load(p)), ex(a[1]))
		m.store(p, n)
		return n
	})
	load := atomicOp(func(m *Machine, p Ptr, a []Value) Value { return m.load(p) })
	store := atomicOp(func(m *Machine, p Ptr, a []Value) Value { m.store(p, a[1]); return nil })
	swap := atomicOp(func(m *Machine, p Ptr, a []Value) Value { o := m.load(p); m.store(p, a[1]); return o })
	cas := atomicOp(func(m *Machine, p Ptr, a []Value) Value {
		c := m.eq(m.load(p), a[1])
		if m.isTrue(c) {
			m.store(p, a[2])
			return m.ctx.True
		}
		return m.ctx.False
	})
	and := atomicOp(func(m *Machine, p Ptr, a []Value) Value {
		o := ex(m.load(p))
		m.store(p, m.ctx.BAnd(o, ex(a[1])))
		return o
	})
	or := atomicOp(func(m *Machine, p Ptr, a []Value) Value {
		o := ex(m.load(p))
		m.store(p, m.ctx.BOr(o, ex(a[1])))
		return o
	})
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		stubs["sync/atomic.Add"+t] = add
		stubs["sync/atomic.Load"+t] = load
		stubs["sync/atomic.Store"+t] = store
		stubs["sync/atomic.Swap"+t] = swap
		stubs["sync/atomic.CompareAndSwap"+t] = cas
		stubs["sync/atomic.And"+t] = and
		stubs["sync/atomic.Or"+t] = or
	}
	// sync
	lock := func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if m.par != nil {
			m.par.yield(m, "lock", Ptr{})
			m.par.block(m, func() bool { return *c == 0 })
		} else if *c != 0 {
			panic(targetPanic{msg: "deadlock: mutex locked twice", pos: m.pos()})
		}
		*c = -1
		return nil
	}
	unlock := func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if m.par != nil {
			m.par.yield(m, "unlock", Ptr{})
		}
		if *c == 0 {
			panic(targetPanic{msg: "unlock of unlocked mutex", pos: m.pos()})
		}
		*c = 0
		return nil
	}
	rlock := func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if m.par != nil {
			m.par.yield(m, "rlock", Ptr{})
			m.par.block(m, func() bool { return *c >= 0 })
		} else if *c < 0 {
			panic(targetPanic{msg: "deadlock: mutex locked twice", pos: m.pos()})
		}
		*c++
		return nil
	}
	runlock := func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if m.par != nil {
			m.par.yield(m, "runlock", Ptr{})
		}
		*c--
		return nil
	}
	trylock := func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if m.par != nil {
			m.par.yield(m, "trylock", Ptr{})
		}
		if *c != 0 {
			return m.ctx.False
		}
		*c = -1
		return m.ctx.True
	}
	stubs["(*sync.Mutex).Lock"] = lock
	stubs["(*sync.Mutex).Unlock"] = unlock
	stubs["(*sync.Mutex).TryLock"] = trylock
	stubs["(*sync.RWMutex).Lock"] = lock
	stubs["(*sync.RWMutex).Unlock"] = unlock
	stubs["(*sync.RWMutex).RLock"] = rlock
	stubs["(*sync.RWMutex).RUnlock"] = runlock
	stubs["(*sync.RWMutex).TryLock"] = trylock
	stubs["(*sync.Once).Do"] = func(m *Machine, fr *frame, args []Value) Value {
		s := fieldStruct(args[0])
		c := mutexCell(m, s)
		if *c == 0 {
			*c = 1
			m.call(fr, args[1].(*Closure), nil)
		}
		return nil
	}
	stubs["(*sync.Pool).Put"] = func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		if m.par != nil {
			m.par.yield(m, "pool", Ptr{})
		}
		if i := args[1].(Iface); i.t != nil {
			m.pools[p.c] = append(m.pools[p.c], i)
		}
		return nil
	}
	// Pool.Get: any earlier Put or a new object
	stubs["(*sync.Pool).Get"] = func(m *Machine, fr *frame, args []Value) Value {
		p := args[0].(Ptr)
		if m.par != nil {
			m.par.yield(m, "pool", Ptr{})
		}
		l := m.pools[p.c]
		st := (*p.c).(*StructV)
		mk := func() Value {
			cl := st.f[len(st.f)-1].(*Closure) // New is the last field
			if cl == nil {
				return Iface{}
			}
			return m.call(fr, cl, nil)
		}
		k := 0
		if m.path.pool == 0 {
			k = m.choose(len(l) + 1)
		} else if m.path.pool == 3 {
			k = len(l)
		} else if m.path.pool == 2 && len(l) > 0 {
			k = len(l) - 1
		}
		if k == len(l) {
			return mk()
		}
		k = len(l) - 1 - k
		v := l[k]
		m.pools[p.c] = append(append([]Value(nil), l[:k]...), l[k+1:]...)
		return v
	}
	// the swapper and length that package sort takes from internal/reflectlite
	stubs["internal/reflectlite.ValueOf"] = func(m *Machine, fr *frame, args []Value) Value {
		sl, ok := args[0].(Iface).v.(Slice)
		if !ok {
			unsupported("reflectlite.ValueOf of %T", args[0].(Iface).v)
		}
		return StructV{f: []Value{Ptr{}, sl, m.ctx.Const(64, 0)}}
	}
	stubs["(internal/reflectlite.Value).Len"] = func(m *Machine, fr *frame, args []Value) Value {
		return m.ctx.Const(64, uint64(args[0].(StructV).f[1].(Slice).len))
	}
	stubs["internal/reflectlite.Swapper"] = func(m *Machine, fr *frame, args []Value) Value {
		sl, ok := args[0].(Iface).v.(Slice)
		if !ok {
			unsupported("reflectlite.Swapper of %T", args[0].(Iface).v)
		}
		return &Closure{host: func(m *Machine, a []Value) Value {
			p := m.indexAddr(sl, ex(a[0]), true).(Ptr)
			q := m.indexAddr(sl, ex(a[1]), true).(Ptr)
			x, y := m.load(p), m.load(q)
			m.store(p, y)
			m.store(q, x)
			return nil
		}}
	}
	// runtime and clock
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "time.Sleep", "math/rand.Seed", "runtime/debug.PrintStack", "os.init", "runtime.ReadMemStats"} {
		stubs[n] = nop
	}
	zeroOf := func(n string) {
		stubs[n] = nil
	}
	_ = zeroOf
	for _, n := range []string{"time.Now", "runtime.Caller", "runtime.Callers", "runtime/debug.Stack", "(time.Time).UnixNano", "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixMicro", "time.Since", "(time.Time).Sub", "(time.Duration).Milliseconds", "(time.Duration).Seconds", "runtime.FuncForPC", "runtime.CallersFrames", "runtime.NumGoroutine"} {
		stubs[n] = func(m *Machine, fr *frame, args []Value) Value {
			return zeroResult(m, m.cur.(*ssa.Call).Call.StaticCallee())
		}
	}
	// arbitrary numbers
	randN := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value {
			n := ex(args[len(args)-1])
			if m.isTrue(m.ctx.Sle(n, m.ctx.Const(w, 0))) {
				panic(targetPanic{msg: "panic: invalid argument to Intn", pos: m.pos()})
			}
			m.draw()
			v := m.newVar(w)
			m.assume(m.ctx.Ult(v, n))
			return v
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand).", "math/rand/v2."} {
		stubs[p+"Intn"] = randN(64)
		stubs[p+"IntN"] = randN(64)
		stubs[p+"Int63n"] = randN(64)
		stubs[p+"Int64N"] = randN(64)
		stubs[p+"Int31n"] = randN(32)
		stubs[p+"Int32N"] = randN(32)
		raw := func(w uint8, top bool) intrFn {
			return func(m *Machine, fr *frame, args []Value) Value {
				m.draw()
				if top {
					return m.newVar(w)
				}
				return m.ctx.ZExt(m.newVar(w-1), w)
			}
		}
		stubs[p+"Int"] = raw(64, false)
		stubs[p+"Int63"] = raw(64, false)
		stubs[p+"Int31"] = raw(32, false)
		stubs[p+"Uint32"] = raw(32, true)
		stubs[p+"Uint64"] = raw(64, true)
	}
	stubs["math/rand.New"] = func(m *Machine, fr *frame, args []Value) Value {
		s := new(Value)
		*s = &StructV{}
		return Ptr{c: s}
	}
	stubs["math/rand.NewSource"] = func(m *Machine, fr *frame, args []Value) Value { return Iface{} }
	// bytealg & friends
	stubs["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *frame, args []Value) Value {
		n := m.concInt(ex(args[0]), true)
		return Slice{arr: m.newArr(types.Typ[types.Uint8], n), len: n, cap: n}
	}
	beq := func(m *Machine, fr *frame, args []Value) Value {
		a, b := args[0].(Slice), args[1].(Slice)
		if a.len != b.len {
			return m.ctx.False
		}
		r := m.ctx.True
		for i := 0; i < a.len; i++ {
			r = m.ctx.And(r, m.ctx.Eq(a.arr.get(a.off+i), b.arr.get(b.off+i)))
		}
		return r
	}
	stubs["bytes.Equal"] = beq
	stubs["internal/bytealg.Equal"] = beq
	getb := func(m *Machine, v Value) []*Expr {
		switch x := v.(type) {
		case Slice:
			return m.sliceBytes(x)
		case *Str:
			r := make([]*Expr, x.length())
			for i := range r {
				r[i] = m.strByte(x, i)
			}
			return r
		}
		unsupported("bytes of %T", v)
		return nil
	}
	compare := func(m *Machine, fr *frame, args []Value) Value {
		a, b := getb(m, args[0]), getb(m, args[1])
		c := m.ctx
		r := c.Int(int64(0))
		if len(a) < len(b) {
			r = c.Int(-1)
		} else if len(a) > len(b) {
			r = c.Int(1)
		}
		for i := min(len(a), len(b)) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(a[i], b[i]), r, c.Ite(c.Ult(a[i], b[i]), c.Int(-1), c.Int(1)))
		}
		return r
	}
	stubs["bytes.Compare"] = compare
	stubs["internal/bytealg.Compare"] = compare
	stubs["internal/bytealg.CompareString"] = compare
	stubs["strings.Compare"] = compare
	indexByte := func(m *Machine, fr *frame, args []Value) Value {
		a := getb(m, args[0])
		x := ex(args[1])
		for i, e := range a {
			if m.isTrue(m.ctx.Eq(e, x)) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	}
	lastIndexByte := func(m *Machine, fr *frame, args []Value) Value {
		a := getb(m, args[0])
		x := ex(args[1])
		for i := len(a) - 1; i >= 0; i-- {
			if m.isTrue(m.ctx.Eq(a[i], x)) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	}
	count := func(m *Machine, fr *frame, args []Value) Value {
		r := m.ctx.Int(0)
		for _, e := range getb(m, args[0]) {
			r = m.ctx.Add(r, m.ctx.Bool2BV(m.ctx.Eq(e, ex(args[1])), 64))
		}
		return r
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		stubs[n] = indexByte
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString", "bytes.LastIndexByte", "strings.LastIndexByte"} {
		stubs[n] = lastIndexByte
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		stubs[n] = count
	}
	index := func(m *Machine, fr *frame, args []Value) Value {
		a, s := getb(m, args[0]), getb(m, args[1])
		for i := 0; i+len(s) <= len(a); i++ {
			c := m.ctx.True
			for j := range s {
				c = m.ctx.And(c, m.ctx.Eq(a[i+j], s[j]))
			}
			if m.isTrue(c) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	}
	lastIndex := func(m *Machine, fr *frame, args []Value) Value {
		a, s := getb(m, args[0]), getb(m, args[1])
		for i := len(a) - len(s); i >= 0; i-- {
			c := m.ctx.True
			for j := range s {
				c = m.ctx.And(c, m.ctx.Eq(a[i+j], s[j]))
			}
			if m.isTrue(c) {
				return m.ctx.Int(int64(i))
			}
		}
		return m.ctx.Int(-1)
	}
	for _, p := range []string{"bytes.", "strings.", "internal/bytealg."} {
		stubs[p+"Index"] = index
		stubs[p+"LastIndex"] = lastIndex
	}
	stubs["internal/bytealg.IndexString"] = index
	stubs["(*strings.Builder).String"] = func(m *Machine, fr *frame, args []Value) Value {
		st := (*args[0].(Ptr).c).(*StructV)
		return m.mkStr(m.sliceBytes(st.f[1].(Slice)))
	}
	stubs["(*strings.Builder).copyCheck"] = nop
	stubs["strings.Clone"] = func(m *Machine, fr *frame, args []Value) Value { return args[0] }
	// hex dumps are only printed by the code under test
	stubs["encoding/hex.EncodeToString"] = func(m *Machine, fr *frame, args []Value) Value { return &Str{opaque: true} }
	stubs["encoding/hex.Dump"] = stubs["encoding/hex.EncodeToString"]
	stubs["strconv.Itoa"] = func(m *Machine, fr *frame, args []Value) Value {
		if e := ex(args[0]); e.IsConst() {
			return concreteStr(sprintf("%d", int64(e.k)))
		}
		return &Str{opaque: true}
	}
	// floats
	round := func(k uint64) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value { return m.ctx.FUn(OFRound, WF64, ex(args[0]), k) }
	}
	stubs["math.Floor"] = round(0)
	stubs["math.Ceil"] = round(1)
	stubs["math.Trunc"] = round(2)
	stubs["math.Abs"] = func(m *Machine, fr *frame, args []Value) Value {
		x := ex(args[0])
		return m.ctx.Ite(m.ctx.FBin(OFLt, x, m.ctx.FConst(WF64, 0)), m.ctx.FUn(OFNeg, WF64, x, 0), x)
	}
	// bit tricks
	lz := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value { return m.lenBits(ex(args[0]), w, true) }
	}
	ln := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value { return m.lenBits(ex(args[0]), w, false) }
	}
	tz := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value {
			e := ex(args[0])
			r := m.ctx.Int(int64(w))
			for i := int(w) - 1; i >= 0; i-- {
				r = m.ctx.Ite(m.ctx.Eq(m.ctx.Extract(e, uint8(i), 1), m.ctx.Const(1, 1)), m.ctx.Int(int64(i)), r)
			}
			return r
		}
	}
	pc := func(w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value {
			e := ex(args[0])
			r := m.ctx.Int(0)
			for i := 0; i < int(w); i++ {
				r = m.ctx.Add(r, m.ctx.ZExt(m.ctx.Extract(e, uint8(i), 1), 64))
			}
			return r
		}
	}
	for n, w := range map[string]uint8{"": 64, "64": 64, "32": 32, "16": 16, "8": 8} {
		stubs["math/bits.LeadingZeros"+n] = lz(w)
		stubs["math/bits.Len"+n] = ln(w)
		stubs["math/bits.TrailingZeros"+n] = tz(w)
		stubs["math/bits.OnesCount"+n] = pc(w)
	}
	_ = bits.Len64

	// ---- harness primitives ----
	scal := func(kind string, w uint8) intrFn {
		return func(m *Machine, fr *frame, args []Value) Value {
			v := m.newVar(w)
			m.path.inputs = append(m.path.inputs, input{kind: kind, vi: int(v.k), w: w})
			return v
		}
	}
	vFuncs = map[string]intrFn{
		"Byte": scal("byte", 8), "Uint16": scal("u16", 16), "Uint32": scal("u32", 32), "Uint64": scal("u64", 64),
		"Int": scal("int", 64), "Int64": scal("i64", 64), "Int32": scal("i32", 32), "Bool": scal("bool", WBool),
		"Bytes": func(m *Machine, fr *frame, args []Value) Value {
			n := m.concInt(ex(args[0]), true)
			bs := make([]*Expr, n)
			for i := range bs {
				bs[i] = ex(vFuncs["Byte"](m, fr, nil))
			}
			return m.bytesToSlice(bs)
		},
		// IntRange: symbolic integer in [lo,hi], bounds concrete
		"IntRange": func(m *Machine, fr *frame, args []Value) Value {
			lo, hi := int64(m.concInt(ex(args[0]), true)), int64(m.concInt(ex(args[1]), true))
			if lo > hi {
				panic(pathAbort{abInfeasible, "empty range"})
			}
			d := uint64(hi - lo)
			if d == 0 {
				return m.ctx.Int(lo)
			}
			w := uint8(bits.Len64(d))
			v := m.newVar(w)
			m.path.inputs = append(m.path.inputs, input{kind: "range", vi: int(v.k), w: w, off: uint64(lo)})
			if d != mask(w) {
				m.assume(m.ctx.Ule(v, m.ctx.Const(w, d)))
			}
			return m.ctx.Add(m.ctx.ZExt(v, 64), m.ctx.Int(lo))
		},
		// Choose: explicit case split
		"Choose": func(m *Machine, fr *frame, args []Value) Value {
			n := m.concInt(ex(args[0]), true)
			if n <= 0 {
				panic(pathAbort{abInfeasible, "empty choice"})
			}
			k := m.choose(n)
			m.path.inputs = append(m.path.inputs, input{kind: "choose", vi: -1, val: uint64(k)})
			return m.ctx.Int(int64(k))
		},
		"Concretize": func(m *Machine, fr *frame, args []Value) Value {
			return m.ctx.Const(64, m.concretize(ex(args[0])))
		},
		"Assume": func(m *Machine, fr *frame, args []Value) Value { m.assume(ex(args[0])); return nil },
		"Assert": func(m *Machine, fr *frame, args []Value) Value {
			msg := "assertion"
			if s, ok := args[1].(*Str); ok && !s.opaque && s.b == nil {
				msg = s.s
			}
			m.assert(ex(args[0]), msg)
			return nil
		},
		"Fail": func(m *Machine, fr *frame, args []Value) Value {
			m.assert(m.ctx.False, args[0].(*Str).s)
			return nil
		},
		"Reach": func(m *Machine, fr *frame, args []Value) Value {
			m.path.reached[args[0].(*Str).s] = true
			return nil
		},
		// Possible: over all paths of the harness the condition must be satisfiable at least once.
		"Possible": func(m *Machine, fr *frame, args []Value) Value {
			if m.path.plain != nil {
				return nil // the recheck follows one path and decides no conditions
			}
			msg, ok := args[1].(*Str).s, true
			m.eng.mu.Lock()
			done := m.eng.possible[msg]
			m.eng.mu.Unlock()
			if done {
				return nil
			}
			if e := ex(args[0]); e != m.ctx.True {
				r, _ := m.check(e)
				if r == Unknown {
					m.eng.note("unknown", "possibility of "+msg)
				}
				ok = r != Unsat
			}
			m.eng.mu.Lock()
			m.eng.possible[msg] = m.eng.possible[msg] || ok
			m.eng.mu.Unlock()
			return nil
		},
		// Draws bounds how often the random source is asked on the rest of the path.
		"Draws": func(m *Machine, fr *frame, args []Value) Value {
			m.path.draws = m.concInt(ex(args[0]), true) + 1
			return nil
		},
		"Observe": func(m *Machine, fr *frame, args []Value) Value {
			m.path.obs = append(m.path.obs, ex(args[0]))
			return nil
		},
		"ObserveBytes": func(m *Machine, fr *frame, args []Value) Value {
			s := args[0].(Slice)
			m.path.obs = append(m.path.obs, m.ctx.Int(int64(s.len)))
			for i := 0; i < s.len; i++ {
				m.path.obs = append(m.path.obs, s.arr.get(s.off+i))
			}
			return nil
		},
		"EqBytes": beq,
		"And": func(m *Machine, fr *frame, args []Value) Value {
			s := args[0].(Slice)
			r := m.ctx.True
			for i := 0; i < s.len; i++ {
				r = m.ctx.And(r, s.arr.get(s.off+i))
			}
			return r
		},
		"Or": func(m *Machine, fr *frame, args []Value) Value {
			s := args[0].(Slice)
			r := m.ctx.False
			for i := 0; i < s.len; i++ {
				r = m.ctx.Or(r, s.arr.get(s.off+i))
			}
			return r
		},
		"Implies": func(m *Machine, fr *frame, args []Value) Value {
			return m.ctx.Or(m.ctx.Not(ex(args[0])), ex(args[1]))
		},
		"IteInt": func(m *Machine, fr *frame, args []Value) Value {
			return m.ctx.Ite(ex(args[0]), ex(args[1]), ex(args[2]))
		},
		"IteU64": func(m *Machine, fr *frame, args []Value) Value {
			return m.ctx.Ite(ex(args[0]), ex(args[1]), ex(args[2]))
		},
		"IteByte": func(m *Machine, fr *frame, args []Value) Value {
			return m.ctx.Ite(ex(args[0]), ex(args[1]), ex(args[2]))
		},
		"Panics": func(m *Machine, fr *frame, args []Value) (r Value) {
			depth := m.depth
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(targetPanic); !ok {
						panic(x)
					}
					m.depth = depth
					r = m.ctx.True
				}
			}()
			m.call(nil, args[0].(*Closure), nil)
			return m.ctx.False
		},
		"Par": func(m *Machine, fr *frame, args []Value) Value {
			s := args[0].(Slice)
			var fs []*Closure
			for i := 0; i < s.len; i++ {
				fs = append(fs, s.arr.vals[s.off+i].(*Closure))
			}
			m.path.noNative = true
			m.runPar(fr, fs, false)
			return nil
		},
		"ParData": func(m *Machine, fr *frame, args []Value) Value {
			s := args[0].(Slice)
			var fs []*Closure
			for i := 0; i < s.len; i++ {
				fs = append(fs, s.arr.vals[s.off+i].(*Closure))
			}
			m.path.noNative = true
			m.runPar(fr, fs, true)
			return nil
		},
		// SameMem reports whether two slices share their first byte's storage.
		"SameMem": func(m *Machine, fr *frame, args []Value) Value {
			a, b := args[0].(Slice), args[1].(Slice)
			return m.ctx.Bool(a.arr != nil && a.arr == b.arr && a.off == b.off)
		},
		// Overlap reports whether two slices share any byte.
		"Overlap": func(m *Machine, fr *frame, args []Value) Value {
			a, b := args[0].(Slice), args[1].(Slice)
			return m.ctx.Bool(a.arr != nil && a.arr == b.arr && a.off < b.off+b.len && b.off < a.off+a.len)
		},
		"Repeat": func(m *Machine, fr *frame, args []Value) Value {
			m.call(nil, args[1].(*Closure), nil)
			return nil
		},
		"Merge": func(m *Machine, fr *frame, args []Value) Value {
			m.path.merge = ex(args[0]).k != 0
			return nil
		},
		"Symbolic": func(m *Machine, fr *frame, args []Value) Value { return m.ctx.True },
		"Thorough": func(m *Machine, fr *frame, args []Value) Value { return m.ctx.Bool(m.eng.thorough) },
		"Pool": func(m *Machine, fr *frame, args []Value) Value {
			m.path.pool = m.concInt(ex(args[0]), true)
			return nil
		},
		"Steps": func(m *Machine, fr *frame, args []Value) Value {
			m.path.maxSteps = int64(m.concInt(ex(args[0]), true))
			return nil
		},
	}
	initFiles()
}

func (m *Machine) lenBits(e *Expr, w uint8, lead bool) Value {
	c := m.ctx
	r := c.Int(0)
	for i := 0; i < int(w); i++ {
		r = c.Ite(c.Eq(c.Extract(e, uint8(i), 1), c.Const(1, 1)), c.Int(int64(i+1)), r)
	}
	if lead {
		r = c.Sub(c.Int(int64(w)), r)
	}
	return r
}

// draw notes that the random source was asked.
func (m *Machine) draw() {
	p := m.path
	p.noNative, p.random = true, true
	if p.draws > 0 {
		if p.draws--; p.draws == 0 {
			m.assume(m.ctx.False)
		}
	}
}

func fieldStruct(v Value) Ptr {
	p := v.(Ptr)
	return p
}

// mutexCell keeps the lock state beside the mutex's storage.
func mutexCell(m *Machine, p Ptr) *int {
	if p.isNil() {
		m.rtPanic("nil pointer dereference")
	}
	if m.locks == nil {
		m.locks = map[*Value]*int{}
	}
	c := m.locks[p.c]
	if c == nil {
		c = new(int)
		m.locks[p.c] = c
	}
	return c
}
