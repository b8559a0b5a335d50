package main

// A file system in memory for the code's use of package os: contents are
// symbolic bytes, names and lengths concrete. Operations never fail except as
// their flags say.

import (
	"go/types"
	"path/filepath"
)

type vfile struct{ data []*Expr }

type vhandle struct {
	f      *vfile
	name   string
	off    int
	append bool
	rd, wr bool
	closed bool
}

type vfs struct {
	files map[string]*vfile
	open  map[*Value]*vhandle
	dirs  int
}

func (m *Machine) vfs() *vfs {
	if m.fs == nil {
		m.fs = &vfs{map[string]*vfile{}, map[*Value]*vhandle{}, 0}
	}
	return m.fs
}

func (m *Machine) concStr(v Value) string {
	s := v.(*Str)
	if s.opaque {
		unsupported("file name from formatted text")
	}
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		if e.op != OConst {
			unsupported("symbolic file name")
		}
		b[i] = byte(e.k)
	}
	return string(b)
}

func (m *Machine) osType(name string) types.Type {
	p := m.prog.ImportedPackage("os")
	if p == nil {
		unsupported("package os not loaded")
	}
	return p.Type(name).Type()
}

func (m *Machine) fileErr() Value { return m.newError(&Str{opaque: true}) }

const (
	oWRONLY, oRDWR, oCREATE, oEXCL, oTRUNC, oAPPEND = 1, 2, 0x40, 0x80, 0x200, 0x400
)

func (m *Machine) openFile(name string, flag int) Value {
	fs := m.vfs()
	name = filepath.Clean(name)
	f := fs.files[name]
	if f == nil && flag&oCREATE == 0 || f != nil && flag&oCREATE != 0 && flag&oEXCL != 0 {
		return Tuple{Ptr{}, m.fileErr()}
	}
	if f == nil {
		f = &vfile{}
		fs.files[name] = f
	}
	if flag&oTRUNC != 0 && flag&3 != 0 {
		f.data = nil
	}
	c := new(Value)
	*c = m.zero(m.osType("File"))
	fs.open[c] = &vhandle{f: f, name: name, append: flag&oAPPEND != 0, rd: flag&3 != oWRONLY, wr: flag&3 != 0}
	return Tuple{Ptr{c: c}, Iface{}}
}

func (h *vhandle) write(m *Machine, b []*Expr, at int) {
	for len(h.f.data) < at {
		h.f.data = append(h.f.data, m.ctx.Const(8, 0))
	}
	for i, x := range b {
		if at+i < len(h.f.data) {
			h.f.data[at+i] = x
		} else {
			h.f.data = append(h.f.data, x)
		}
	}
}

func (m *Machine) bytesSlice(b []*Expr) Slice {
	a := m.newArr(types.Typ[types.Uint8], len(b))
	for i, x := range b {
		a.set(i, x)
	}
	return Slice{arr: a, len: len(b), cap: len(b)}
}

func initFiles() {
	handle := func(m *Machine, v Value) *vhandle {
		p := v.(Ptr)
		if p.isNil() {
			return nil
		}
		h := m.vfs().open[p.c]
		if h == nil {
			unsupported("an os.File that was not opened here")
		}
		return h
	}
	getb := func(m *Machine, v Value) []*Expr {
		if s, ok := v.(*Str); ok {
			if s.opaque {
				unsupported("writing formatted text")
			}
			r := make([]*Expr, s.length())
			for i := range r {
				r[i] = m.strByte(s, i)
			}
			return r
		}
		return append([]*Expr(nil), m.sliceBytes(v.(Slice))...)
	}
	conc := func(m *Machine, v Value) int { return m.concInt(ex(v), true) }
	stubs["os.OpenFile"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.openFile(m.concStr(a[0]), conc(m, a[1]))
	}
	stubs["os.Create"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.openFile(m.concStr(a[0]), oRDWR|oCREATE|oTRUNC)
	}
	stubs["os.Open"] = func(m *Machine, fr *frame, a []Value) Value { return m.openFile(m.concStr(a[0]), 0) }
	write := func(m *Machine, fr *frame, a []Value) Value {
		h := handle(m, a[0])
		b := getb(m, a[1])
		if h == nil || h.closed || !h.wr {
			return Tuple{m.ctx.Int(0), m.fileErr()}
		}
		if h.append {
			h.off = len(h.f.data)
		}
		h.write(m, b, h.off)
		h.off += len(b)
		return Tuple{m.ctx.Int(int64(len(b))), Iface{}}
	}
	stubs["(*os.File).Write"] = write
	stubs["(*os.File).WriteString"] = write
	stubs["(*os.File).WriteAt"] = func(m *Machine, fr *frame, a []Value) Value {
		h := handle(m, a[0])
		b := getb(m, a[1])
		at := conc(m, a[2])
		if h == nil || h.closed || !h.wr || h.append || at < 0 {
			return Tuple{m.ctx.Int(0), m.fileErr()}
		}
		h.write(m, b, at)
		return Tuple{m.ctx.Int(int64(len(b))), Iface{}}
	}
	stubs["(*os.File).Seek"] = func(m *Machine, fr *frame, a []Value) Value {
		h := handle(m, a[0])
		if h == nil || h.closed {
			return Tuple{m.ctx.Int(0), m.fileErr()}
		}
		n := conc(m, a[1])
		switch conc(m, a[2]) {
		case 1:
			n += h.off
		case 2:
			n += len(h.f.data)
		}
		if n < 0 {
			return Tuple{m.ctx.Int(0), m.fileErr()}
		}
		h.off = n
		return Tuple{m.ctx.Int(int64(n)), Iface{}}
	}
	stubs["(*os.File).Truncate"] = func(m *Machine, fr *frame, a []Value) Value {
		h := handle(m, a[0])
		n := conc(m, a[1])
		if h == nil || h.closed || !h.wr || n < 0 {
			return m.fileErr()
		}
		if n < len(h.f.data) {
			h.f.data = h.f.data[:n:n]
		}
		h.write(m, nil, n)
		return Iface{}
	}
	stubs["(*os.File).Name"] = func(m *Machine, fr *frame, a []Value) Value { return &Str{s: handle(m, a[0]).name} }
	stubs["(*os.File).Sync"] = func(m *Machine, fr *frame, a []Value) Value { return Iface{} }
	stubs["(*os.File).Close"] = func(m *Machine, fr *frame, a []Value) Value {
		h := handle(m, a[0])
		if h == nil || h.closed {
			return m.fileErr()
		}
		h.closed = true
		return Iface{}
	}
	stubs["os.ReadFile"] = func(m *Machine, fr *frame, a []Value) Value {
		f := m.vfs().files[filepath.Clean(m.concStr(a[0]))]
		if f == nil {
			return Tuple{Slice{}, m.fileErr()}
		}
		return Tuple{m.bytesSlice(f.data), Iface{}}
	}
	stubs["os.WriteFile"] = func(m *Machine, fr *frame, a []Value) Value {
		f := &vfile{data: getb(m, a[1])}
		m.vfs().files[filepath.Clean(m.concStr(a[0]))] = f
		return Iface{}
	}
	rm := func(m *Machine, fr *frame, a []Value) Value {
		n := filepath.Clean(m.concStr(a[0]))
		if m.vfs().files[n] == nil {
			return m.fileErr()
		}
		delete(m.vfs().files, n)
		return Iface{}
	}
	stubs["os.Remove"] = rm
	stubs["os.MkdirAll"] = func(m *Machine, fr *frame, a []Value) Value { return Iface{} }
	vFuncs["TempDir"] = func(m *Machine, fr *frame, a []Value) Value { return &Str{s: "/scratch"} }
	vFuncs["Files"] = func(m *Machine, fr *frame, a []Value) Value { return m.ctx.Int(int64(len(m.vfs().files))) }
}
