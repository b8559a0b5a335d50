package props

import (
	"github.com/lkmio/avformat/bufio"

	"verif/harness/v"
)

// bitAt is bit p of data, most significant bit of each byte first.
func bitAt(data []byte, p int) uint64 { return uint64(data[p>>3]>>uint(7-p&7)) & 1 }

func bitsSpec(data []byte, start, n int) uint64 {
	var r uint64
	for p := start; p < start+n && p < 8*len(data); p++ {
		r = r<<1 | bitAt(data, p)
	}
	return r
}

func clone(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c
}

// C01_ReadBits: data of 0..10 arbitrary bytes, every start bit 0..23, every length 0..64.
func C01_ReadBits() {
	data := v.Bytes([]int{0, 1, 2, 3, 9, 10}[v.Choose(6)])
	orig := clone(data)
	start := v.Choose(24)
	n := v.Choose(65)
	got := bufio.ReadBits(data, start, n)
	v.Assert(got == bitsSpec(data, start, n), "ReadBits returns the addressed bits")
	v.Assert(v.EqBytes(data, orig), "ReadBits leaves the data alone")
	if start+n > 8*len(data) {
		v.Reach("past the end")
	}
	v.Observe(got)
}

// C01_WriteBits: data of 0..10 arbitrary bytes, every start bit 0..23, every length 0..64, every value.
func C01_WriteBits() {
	data := v.Bytes([]int{0, 1, 2, 3, 9, 10}[v.Choose(6)])
	orig := clone(data)
	start := v.Choose(24)
	n := v.Choose(65)
	val := v.Uint64()
	bufio.WriteBits(data, start, n, val)
	for p := 0; p < 8*len(data); p++ {
		if p >= start && p < start+n {
			v.Assert(bitAt(data, p) == val>>uint(start+n-1-p)&1, "WriteBits stores the bit")
		} else {
			v.Assert(bitAt(data, p) == bitAt(orig, p), "WriteBits touches nothing else")
		}
	}
	if start+n <= 8*len(data) {
		m := ^uint64(0)
		if n < 64 {
			m = 1<<uint(n) - 1
		}
		v.Reach("in range")
		v.Assert(bufio.ReadBits(data, start, n) == val&m, "a written value reads back")
	}
	v.ObserveBytes(data)
}

// C01_Reader: a cursor over 6 arbitrary bytes (of a longer array), three (thorough four) operations: reads of 0..17 bits or 0..7 bytes,
// seeks.
func C01_Reader() {
	data := v.Bytes(8)[:6]
	r := bufio.BitsReader{Data: data}
	off := 0
	for i := 0; i < maxLen(3, 4); i++ {
		switch v.Choose(3) {
		case 0:
			n := v.Choose(18)
			got := r.Read(n)
			v.Assert(got == bitsSpec(data, off, n), "Read returns the next bits")
			v.Observe(got)
			off += n
		case 1:
			n := v.Choose(10)
			r.Seek(n)
			off += n
		case 2:
			if off%8 != 0 {
				return
			}
			n := v.Choose(8)
			b := r.ReadBytes(n)
			from, to := bufio.MinInt(off/8, len(data)), bufio.MinInt(off/8+n, len(data))
			v.Assert(v.EqBytes(b, data[from:to]), "ReadBytes returns the next bytes")
			v.Reach("bytes")
			if to < off/8+n {
				v.Reach("past the end")
			}
			off += 8 * n
		}
		v.Assert(r.Offset == off, "the reader advances by the amount requested")
	}
}

// C01_Writer: a cursor over 6 arbitrary bytes (of a longer array), three (thorough four) operations: writes of 0..17 bits or 0..7
// bytes, seeks.
func C01_Writer() {
	data := v.Bytes(8)
	behind := clone(data)
	data = data[:6]
	want := clone(data)
	w := bufio.BitsWriter{Data: data}
	off := 0
	for i := 0; i < maxLen(3, 4); i++ {
		switch v.Choose(3) {
		case 0:
			n := v.Choose(18)
			val := v.Uint64()
			w.Write(n, val)
			for p := off; p < off+n && p < 48; p++ {
				b := byte(val>>uint(off+n-1-p)) & 1
				sh := uint(7 - p&7)
				want[p>>3] = want[p>>3]&^(1<<sh) | b<<sh
			}
			off += n
		case 1:
			n := v.Choose(10)
			w.Seek(n)
			off += n
		case 2:
			if off%8 != 0 {
				return
			}
			n := v.Choose(8)
			src := v.Bytes(n)
			w.WriteBytes(src)
			for k := 0; k < n && off/8+k < len(want); k++ {
				want[off/8+k] = src[k]
			}
			v.Reach("bytes")
			off += 8 * n
		}
		v.Assert(w.Offset == off, "the writer advances by the amount requested")
		v.Assert(v.EqBytes(data, want), "exactly the addressed bits changed")
		v.Assert(v.EqBytes(data[6:8], behind[6:8]), "nothing behind the data changed")
	}
	v.ObserveBytes(data)
}
