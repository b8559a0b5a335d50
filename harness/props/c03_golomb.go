package props

import (
	"bytes"
	"math/bits"

	"github.com/lkmio/avformat/bufio"

	"verif/harness/v"
)

// bitWriter assembles a symbolic bit string in the harness.
type bitWriter struct {
	bits []byte // one bit per element
}

func (w *bitWriter) put(val uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.bits = append(w.bits, byte(val>>uint(i))&1)
	}
}

// ue writes an Exp-Golomb code word whose info field has k arbitrary bits and
// returns its value: 2^k - 1 + info.
func (w *bitWriter) ue(k int, info uint64) uint64 {
	if k < 64 {
		info &= 1<<uint(k) - 1
	}
	w.put(0, k)
	w.put(1, 1)
	w.put(info, k)
	return 1<<uint(k) - 1 + info
}

// ueOf writes the Exp-Golomb code word of a known value.
func (w *bitWriter) ueOf(x uint64) {
	k := bits.Len64(x+1) - 1
	w.ue(k, x+1-1<<uint(k))
}

// bytes packs the bits, zero padded.
func (w *bitWriter) bytes() []byte {
	out := make([]byte, (len(w.bits)+7)/8)
	for i := range out {
		var b byte
		for j := 0; j < 8; j++ {
			b <<= 1
			if 8*i+j < len(w.bits) {
				b |= w.bits[8*i+j]
			}
		}
		out[i] = b
	}
	return out
}

func golomb(b []byte) *bufio.GolombBitReader {
	return &bufio.GolombBitReader{R: bytes.NewReader(b)}
}

// follow checks that the reader stands exactly at bit pos of data.
func follow(r *bufio.GolombBitReader, data []byte, pos int) {
	n := 8*len(data) - pos
	if n > 9 {
		n = 9
	}
	got, err := r.ReadBits(n)
	v.Assert(err == nil, "the bits after the code word are readable")
	v.Assert(uint64(got) == bitsSpec(data, pos, n), "exactly the code word was consumed")
}

// C03_Fixed: arbitrary data of 0..9 bytes, skip 0..9 bits, then one fixed-width read of 0..33 bits (64 for ReadBits64).
func C03_Fixed() {
	data := v.Bytes([]int{0, 1, 2, 5, 9}[v.Choose(5)])
	r := golomb(data)
	skip := v.Choose(10)
	if skip > 8*len(data) {
		return
	}
	if x, err := r.ReadBits(skip); true {
		v.Assert(err == nil && uint64(x) == bitsSpec(data, 0, skip), "leading bits")
	}
	kind := v.Choose(4)
	var got uint64
	var err error
	n := 1
	switch kind {
	case 0:
		var b uint
		b, err = r.ReadBit()
		got = uint64(b)
	case 1:
		n = v.Choose(65)
		var b uint
		b, err = r.ReadBits(n)
		got = uint64(b)
	case 2:
		n = v.Choose(33)
		var b uint32
		b, err = r.ReadBits32(uint(n))
		got = uint64(b)
	case 3:
		n = v.Choose(65)
		got, err = r.ReadBits64(uint(n))
	}
	v.Assert((err == nil) == (skip+n <= 8*len(data)), "a read fails exactly when the data ends inside it")
	if err == nil {
		v.Assert(got == bitsSpec(data, skip, n), "a read returns the next bits")
		v.Reach("ok")
		follow(r, data, skip+n)
	} else {
		v.Reach("short")
	}
}

// C03_UE: every code word with 0..32 leading zeros and arbitrary info bits, at every bit offset 0..7,
// followed by 9 arbitrary bits.
func C03_UE() {
	var w bitWriter
	pre := v.Choose(8)
	w.put(v.Uint64(), pre)
	k := v.Choose(33)
	want := w.ue(k, v.Uint64())
	end := len(w.bits)
	w.put(v.Uint64(), 9)
	data := w.bytes()
	r := golomb(data)
	r.ReadBits(pre)
	got, err := r.ReadExponentialGolombCode()
	v.Assert(err == nil, "a complete code word decodes")
	v.Assert(uint64(got) == want, "unsigned Exp-Golomb value")
	follow(r, data, end)
	v.Observe(uint64(got))
}

// C03_SE: as C03_UE for signed values: k -> (-1)^(k+1) * ceil(k/2).
func C03_SE() {
	var w bitWriter
	pre := v.Choose(8)
	w.put(v.Uint64(), pre)
	k := v.Choose(33)
	code := w.ue(k, v.Uint64())
	end := len(w.bits)
	w.put(v.Uint64(), 9)
	data := w.bytes()
	r := golomb(data)
	r.ReadBits(pre)
	got, err := r.ReadSE()
	v.Assert(err == nil, "a complete code word decodes")
	want := v.IteU64(code&1 == 1, code/2+1, -(code / 2))
	v.Assert(uint64(got) == want, "signed Exp-Golomb value")
	follow(r, data, end)
	v.Observe(uint64(got))
}

// C03_Short: a code word with 0..32 leading zeros cut to whole bytes before its end is refused, and so are three further reads.
func C03_Short() {
	var w bitWriter
	k := v.Choose(33)
	w.ue(k, v.Uint64())
	full := 2*k + 1
	n := v.Choose(9)
	if 8*n >= full {
		return
	}
	w.bits = w.bits[:8*n]
	data := w.bytes()
	r := golomb(data)
	var err error
	if v.Choose(2) == 0 {
		_, err = r.ReadExponentialGolombCode()
	} else {
		_, err = r.ReadSE()
	}
	v.Assert(err != nil, "data ending inside a code word is an error")
	for i := 0; i < 3; i++ {
		switch v.Choose(3) {
		case 0:
			_, err = r.ReadBit()
		case 1:
			_, err = r.ReadExponentialGolombCode()
		default:
			_, err = r.ReadBits32(4)
		}
		v.Assert(err != nil, "and so is reading on")
	}
	v.Reach("cut")
}

// C03_Stream: three consecutive code words decoded from 4 arbitrary bytes agree with a bit-level decoder.
func C03_Stream() {
	data := v.Bytes(4)
	r := golomb(data)
	pos := 0
	for i := 0; i < 3; i++ {
		z := 0
		for pos+z < 32 && bitAt(data, pos+z) == 0 {
			z++
		}
		ok := pos+2*z+1 <= 32
		got, err := r.ReadExponentialGolombCode()
		v.Assert((err == nil) == ok, "decoding fails exactly when the data ends inside the code word")
		if !ok {
			return
		}
		v.Assert(uint64(got) == bitsSpec(data, pos+z, z+1)-1, "value of the code word")
		pos += 2*z + 1
	}
	v.Reach("three words")
	follow(r, data, pos)
}
