package props

import (
	"github.com/lkmio/avformat/bufio"

	"verif/harness/v"
)

func beSpec(b []byte) uint64 {
	var r uint64
	for _, x := range b {
		r = r<<8 | uint64(x)
	}
	return r
}

// cursorViews checks the derived views against the cursor position.
func cursorViews(c bufio.BytesBuffer, data []byte, off int) {
	v.Assert(c.Offset() == off, "the cursor is where the operations put it")
	v.Assert(c.ReadableBytes() == len(data)-off, "ReadableBytes is the rest of the slice")
	rem := c.RemainingBytes()
	v.Assert(len(rem) == len(data)-off, "RemainingBytes has the length of the rest")
	if len(rem) > 0 {
		v.Assert(v.SameMem(rem, data[off:]), "RemainingBytes is the rest of the slice")
	}
}

// seekStep performs one relative move of any size and returns the new offset.
func seekStep(c bufio.BytesBuffer, n, off int, back bool) int {
	d := v.Int()
	var err error
	ok := false
	if back {
		err = c.SeekBack(d)
		ok = v.And(d <= off, d >= off-n)
	} else {
		err = c.Seek(d)
		ok = v.And(d >= -off, d <= n-off)
	}
	v.Assert((err == nil) == ok, "a seek succeeds exactly when it stays inside the slice")
	if err == nil {
		v.Reach("seek")
		d = v.Concretize(d)
		if back {
			return off - d
		}
		return off + d
	}
	v.Reach("seek refused")
	return off
}

// C02_Reader: every slice length 0..10, arbitrary bytes, three operations each of any kind; seek and
// read sizes are arbitrary 64-bit integers.
func C02_Reader() {
	n := v.Choose(11)
	data := v.Bytes(n)
	orig := clone(data)
	r := bufio.NewBytesReader(data)
	off := 0
	for i := 0; i < 3; i++ {
		op := v.Choose(9)
		w := []int{1, 2, 3, 4, 8, 0, 0, 0, 0}[op]
		var got uint64
		var err error
		switch op {
		case 0:
			var x uint8
			x, err = r.ReadUint8()
			got = uint64(x)
		case 1:
			var x uint16
			x, err = r.ReadUint16()
			got = uint64(x)
		case 2:
			var x uint32
			x, err = r.ReadUint24()
			got = uint64(x)
		case 3:
			var x uint32
			x, err = r.ReadUint32()
			got = uint64(x)
		case 4:
			got, err = r.ReadUint64()
		case 5:
			size := v.Int()
			b, err := r.ReadBytes(size)
			v.Assert((err == nil) == v.And(size >= 0, size <= n-off), "ReadBytes succeeds exactly when the bytes are there")
			if err == nil {
				size = v.Concretize(size)
				v.Assert(len(b) == size, "ReadBytes returns the size asked for")
				v.Assert(v.EqBytes(b, orig[off:off+size]), "ReadBytes returns the bytes at the cursor")
				off += size
				v.Reach("bytes read")
			} else {
				v.Assert(len(b) == 0, "a refused ReadBytes returns nothing")
			}
		case 6:
			off = seekStep(r, n, off, false)
		case 7:
			off = seekStep(r, n, off, true)
		case 8:
			r.Clear()
			off = 0
		}
		if w > 0 {
			v.Assert((err == nil) == (off+w <= n), "a fixed-width read succeeds exactly when it fits")
			if err == nil {
				v.Assert(got == beSpec(orig[off:off+w]), "a fixed-width read is big-endian at the cursor")
				off += w
				v.Reach("fixed read")
			}
			v.Observe(got)
		}
		cursorViews(r, data, off)
		v.Assert(v.EqBytes(data, orig), "reading leaves the data alone")
	}
}

// C02_Writer: every slice length 0..10, arbitrary bytes, three operations each of any kind with
// arbitrary values; written slices of 0..4 bytes; seek sizes are arbitrary 64-bit integers.
func C02_Writer() {
	n := v.Choose(11)
	data := v.Bytes(n)
	want := clone(data)
	w := bufio.NewBytesWriter(data)
	off := 0
	for i := 0; i < 3; i++ {
		op := v.Choose(8)
		width := []int{1, 2, 4, 8, 0, 0, 0, 0}[op]
		var err error
		var val uint64
		var src []byte
		switch op {
		case 0:
			val = uint64(v.Byte())
			err = w.WriteUint8(uint8(val))
		case 1:
			val = uint64(v.Uint16())
			err = w.WriteUint16(uint16(val))
		case 2:
			val = uint64(v.Uint32())
			err = w.WriteUint32(uint32(val))
		case 3:
			val = v.Uint64()
			err = w.WriteUint64(val)
		case 4:
			src = v.Bytes(v.Choose(5))
			err = w.Write(src)
			width = len(src)
		case 5:
			off = seekStep(w, n, off, false)
		case 6:
			off = seekStep(w, n, off, true)
		case 7:
			w.Clear()
			off = 0
		}
		if op <= 4 {
			v.Assert((err == nil) == (off+width <= n), "a write succeeds exactly when it fits")
			if err == nil {
				for k := 0; k < width; k++ {
					if op == 4 {
						want[off+k] = src[k]
					} else {
						want[off+k] = byte(val >> uint(8*(width-1-k)))
					}
				}
				off += width
				v.Reach("written")
			} else {
				v.Reach("write refused")
			}
		}
		cursorViews(w, data, off)
		wb := w.WrittenBytes()
		v.Assert(len(wb) == off, "WrittenBytes ends at the cursor")
		v.Assert(v.EqBytes(wb, want[:off]), "WrittenBytes shows what was written")
		v.Assert(v.EqBytes(data, want), "a write changes exactly its bytes, a refused one nothing")
	}
	v.ObserveBytes(data)
}

// C02_Reset: a used reader and writer given a second slice (0..4 bytes each) start over on it.
func C02_Reset() {
	a, b := v.Bytes(v.Choose(5)), v.Bytes(v.Choose(5))
	var c bufio.BytesBuffer
	if v.Choose(2) == 0 {
		c = bufio.NewBytesReader(a)
	} else {
		c = bufio.NewBytesWriter(a)
	}
	c.Seek(v.Choose(5))
	c.Reset(b)
	cursorViews(c, b, 0)
	off := seekStep(c, len(b), 0, false)
	cursorViews(c, b, off)
}
