package props

import (
	"github.com/lkmio/avformat/hevc"

	"verif/harness/v"
)

type hevcSPSSpec struct {
	w, h, chroma, left, right, top, bottom uint64
}

func (e *hevcSPSSpec) check(s *hevc.HEVCSPSInfo) {
	v.Assert(v.And(uint64(s.PicWidthInLumaSamples) == e.w, uint64(s.PicHeightInLumaSamples) == e.h), "picture size in luma samples")
	x, y := 1, 1
	switch e.chroma {
	case 1:
		x, y = 2, 2
	case 2:
		x = 2
	}
	v.Assert(s.Width == int(e.w)-x*int(e.left+e.right), "displayed width")
	v.Assert(s.Height == int(e.h)-y*int(e.top+e.bottom), "displayed height")
}

// hevcBuilder writes an H.265 SPS; element active takes every code-word size of its range, the others the default one.
type hevcBuilder struct {
	bitWriter
	hevcSPSSpec
	n, active, def int
}

func (b *hevcBuilder) elem(max int) uint64 {
	k := b.def
	if b.n == b.active {
		k = v.Choose(max + 1)
	}
	b.n++
	return b.bitWriter.ue(k, v.Uint64())
}

func (b *hevcBuilder) word(n int) { b.put(v.Uint64(), n) }

// ptl writes the profile, tier and level data; sub tells which sub-layers carry profile (bit 0) and level (bit 1) data.
func (b *hevcBuilder) ptl(layers int, sub []int) {
	b.word(8)
	b.word(32)
	b.put(v.Uint64()|0x800080008000, 48)
	b.put(uint64(v.Byte()|1), 8)
	for i := 0; i < layers; i++ {
		b.put(uint64(sub[i]), 2)
	}
	if layers > 0 {
		for i := layers; i < 8; i++ {
			b.put(0, 2)
		}
	}
	for i := 0; i < layers; i++ {
		if sub[i]&2 != 0 {
			b.put(v.Uint64()|0x0080008000800080, 56)
			b.put(v.Uint64()|0x00800080, 32)
		}
		if sub[i]&1 != 0 {
			b.put(uint64(v.Byte()|0x10), 8)
		}
	}
}

const hevcElems = 8

// head writes the syntax of 7.3.2.2.1 up to the dimensions and the conformance window.
func (b *hevcBuilder) head(layers int, sub []int, chroma int, window bool) {
	b.put(uint64(v.Byte()&0x81|33<<1), 8)
	b.put(uint64(v.Byte()|1), 8)
	b.put(uint64(v.Byte()), 4)
	b.put(uint64(layers), 3)
	b.put(uint64(v.Byte()), 1)
	b.ptl(layers, sub)
	b.elem(4) // id
	b.chroma = uint64(chroma)
	switch chroma {
	case 0:
		b.put(1, 1)
	case 1:
		b.put(2, 3)
	case 2:
		b.put(3, 3)
	case 3:
		b.put(4, 5)
		b.put(uint64(v.Byte()), 1)
	}
	b.w = b.elem(16)
	b.h = b.elem(16)
	if window {
		b.put(1, 1)
		b.left, b.right, b.top, b.bottom = b.elem(12), b.elem(12), b.elem(12), b.elem(12)
	} else {
		b.put(0, 1)
	}
}

// tail writes the elements after the window up to the transform hierarchy depths.
func (b *hevcBuilder) tail(layers int, all bool) {
	b.elem(3)
	b.bitWriter.ue(1, v.Uint64())
	b.bitWriter.ue(2, v.Uint64())
	i := layers
	if all {
		b.put(1, 1)
		i = 0
	} else {
		b.put(0, 1)
	}
	for ; i <= layers; i++ {
		b.bitWriter.ue(1, v.Uint64())
		b.bitWriter.ue(0, 0)
		b.bitWriter.ue(2, v.Uint64())
	}
	for i := 0; i < 6; i++ {
		b.bitWriter.ue(i%3, v.Uint64())
	}
}

func (b *hevcBuilder) done(esc bool) {
	b.put(0x8000, 16)
	sps := b.bytes()
	if esc {
		sps = escape(sps)
	} else {
		v.Assume(unescaped(sps))
	}
	in := withCode(sps, v.Choose(3))
	orig := clone(in)
	s, err := hevc.ParseSPS(in)
	v.Assert(err == nil, "a complete SPS parses")
	b.check(&s)
	v.Assert(v.EqBytes(in, orig), "input left alone")
	v.Reach("parsed")
}

// C12_Elements: id, dimensions, the four window offsets and the luma bit depth in turn take every code-word size of their range
// (arbitrary value, dimensions below 2^17, offsets below 2^13), the others sizes 0 or 3; every chroma format, separate planes or
// not; window present or not; three start-code forms; general profile, tier and level data arbitrary.
func C12_Elements() {
	b := &hevcBuilder{active: v.Choose(hevcElems+1) - 1, def: 3 * v.Choose(2)}
	b.head(0, nil, v.Choose(4), v.Choose(2) == 1)
	b.tail(0, v.Choose(2) == 1)
	b.done(false)
}

// C12_SubLayers: 1..6 (sps_max_sub_layers_minus1) sub-layers, each with or without profile and level data: every combination for
// up to 3 (thorough 6), beyond that all layers alike with every choice for one; their contents arbitrary.
func C12_SubLayers() {
	b := &hevcBuilder{active: -1, def: 5}
	n := 1 + v.Choose(6)
	sub := make([]int, n)
	if n <= maxLen(3, 6) {
		for i := range sub {
			sub[i] = v.Choose(4)
		}
	} else {
		k := v.Choose(4)
		for i := range sub {
			sub[i] = k
		}
		sub[v.Choose(n)] = v.Choose(4)
	}
	b.head(n, sub, 1+v.Choose(2), true)
	b.tail(n, v.Choose(2) == 1)
	b.done(false)
}

// C12_Truncated: cut to any whole number of bytes before its last needed bit, an SPS is rejected: 0, 1, 2 and 6 sub-layers,
// every chroma format, with and without window and per-layer ordering information.
func C12_Truncated() {
	b := &hevcBuilder{active: -1, def: 2 * v.Choose(2)}
	n := []int{0, 1, 2, 6}[v.Choose(4)]
	sub := []int{3, 2, 1, 0, 3, 1}[:n]
	b.head(n, sub, v.Choose(4), v.Choose(2) == 1)
	b.tail(n, v.Choose(2) == 1)
	need := len(b.bits)
	b.put(0x8000, 16)
	sps := b.bytes()
	v.Assume(unescaped(sps))
	cut := clone(sps[:v.Choose((need-1)/8+1)])
	_, err := hevc.ParseSPS(withCode(cut, v.Choose(3)))
	v.Assert(err != nil, "an SPS that ends early is rejected")
	v.Reach("cut")
}

// C12_Escaped: profile data with zero bytes at every place (6 constraint and 4 compatibility bytes, each arbitrary in two bits
// or zero), the dimensions behind them unaffected by the emulation prevention bytes this needs.
func C12_Escaped() {
	b := &hevcBuilder{active: -1, def: 4}
	b.put(uint64(v.Byte()&0x81|33<<1), 8)
	b.put(1, 8)
	b.put(uint64(v.Byte()&1), 8)
	b.put(uint64(v.Byte()&3), 8)
	for i := 0; i < 10; i++ {
		x := byte(0)
		if i%3 != 1 || v.Thorough() {
			x = v.Byte() & 3
		}
		b.put(uint64(x), 8)
	}
	b.put(uint64(v.Byte()|1), 8)
	b.elem(4)
	b.chroma = 1
	b.put(2, 3)
	b.w, b.h = b.bitWriter.ue(11, v.Uint64()), b.bitWriter.ue(10, v.Uint64())
	b.put(1, 1)
	b.left, b.right, b.top, b.bottom = b.elem(0), b.elem(0), b.elem(0), b.elem(0)
	b.tail(0, true)
	b.done(true)
}

// C12_EscapedSize: dimensions and window offsets whose own code words contain 00 00 0x, with the prevention bytes inserted.
func C12_EscapedSize() {
	b := &hevcBuilder{active: -1, def: 0}
	b.head0()
	b.bitWriter.ue(v.Choose(5), v.Uint64()&1)
	b.chroma = uint64(v.Choose(2))
	b.put(1+b.chroma, 1+2*int(b.chroma))
	k := 11 + v.Choose(6)
	b.w, b.h = b.bitWriter.ue(k, v.Uint64()&1), b.bitWriter.ue(k, v.Uint64()&0x101)
	b.put(1, 1)
	b.left, b.right, b.top, b.bottom = b.bitWriter.ue(9, v.Uint64()&1), b.bitWriter.ue(0, 0), b.bitWriter.ue(10, v.Uint64()&3), b.bitWriter.ue(0, 0)
	b.tail(0, true)
	b.done(true)
}

func (b *hevcBuilder) head0() {
	for _, x := range []uint64{0x42, 1, 1, 1, 0x60, 1, 2, 3, 0x90, 4, 5, 6, 7, 8, 93} {
		b.put(x, 8)
	}
}

// C12_Any: every SPS with a fixed head and 0..4 (thorough 5) arbitrary bytes from the id on, needing no emulation prevention, with
// dimensions of at most 2^16, against a second reading of the syntax.
func C12_Any() {
	b := &hevcBuilder{}
	b.head0()
	rest := v.Bytes(v.Choose(maxLen(4, 5)))
	if len(rest) > 0 {
		rest[0] |= byte(maxLen(0x90, 0x80))
	}
	sps := append(b.bytes(), rest...)
	v.Assume(unescaped(sps))
	s := &bitSrc{b: sps, pos: 8 * 15}
	var e hevcSPSSpec
	s.ue()
	if e.chroma = s.ue(); e.chroma == 3 {
		s.u(1)
	}
	v.Assume(e.chroma <= 3)
	e.w, e.h = s.ue(), s.ue()
	if s.u(1) == 1 {
		e.left, e.right, e.top, e.bottom = s.ue(), s.ue(), s.ue(), s.ue()
	}
	s.ue()
	s.ue()
	s.ue()
	s.u(1)
	for i := 0; i < 9; i++ {
		s.ue()
	}
	if s.weird {
		return
	}
	got, err := hevc.ParseSPS(sps)
	if s.short {
		v.Assert(err != nil, "an SPS that ends early is rejected")
		v.Reach("short")
		return
	}
	v.Assert(err == nil, "a complete SPS parses")
	e.check(&got)
	v.Reach("parsed")
}

// C12_Tiny: units of 0..3 arbitrary bytes, with or without start code, are rejected.
func C12_Tiny() {
	_, err := hevc.ParseSPS(withCode(v.Bytes(v.Choose(4)), v.Choose(3)))
	v.Assert(err != nil, "an SPS that ends early is rejected")
	v.Reach("done")
}

// C12_EscapedMany: SPS with 1..6 sub-layers of profile data that is zero in all of them or from the second half on, which need up to
// some 40 emulation prevention bytes before arbitrary dimensions.
func C12_EscapedMany() {
	b := &hevcBuilder{active: -1, def: 4}
	b.put(0x42, 8)
	b.put(1, 8)
	b.put(0, 4)
	n := 1 + v.Choose(6)
	b.put(uint64(n), 3)
	b.put(0, 1)
	b.put(uint64(v.Byte()&1), 8)
	late, fill := 0, uint64(0x55555555555555)
	if v.Choose(2) == 1 {
		late = (n + 1) / 2
		b.put(fill&0xffffffffffff, 48)
		b.put(fill&0xffffffff, 32)
	} else {
		b.put(0, 48)
		b.put(0, 32)
	}
	b.put(uint64(v.Byte()&3), 8)
	for i := 0; i < n; i++ {
		b.put(3, 2)
	}
	for i := n; i < 8; i++ {
		b.put(0, 2)
	}
	for i := 0; i < n; i++ {
		if i < late {
			b.put(fill, 56)
			b.put(fill&0xffffffff, 32)
		} else {
			b.put(0, 56)
			b.put(0, 32)
		}
		b.put(uint64(i&1), 8)
	}
	b.bitWriter.ue(0, 0)
	b.chroma = 1
	b.put(2, 3)
	b.w, b.h = b.bitWriter.ue(11, v.Uint64()), b.bitWriter.ue(10, v.Uint64())
	b.put(1, 1)
	b.left, b.right, b.top, b.bottom = b.elem(0), b.elem(0), b.elem(0), b.elem(0)
	b.tail(n, true)
	b.done(true)
}

// C12_Twice: two SPS that share everything before the dimensions, parsed one after the other, then the first again: each result is
// that of its own SPS.
func C12_Twice() {
	build := func() (*hevcBuilder, []byte) {
		b := &hevcBuilder{active: -1, def: 3}
		b.head0()
		b.bitWriter.ue(0, 0)
		b.chroma = 1
		b.put(2, 3)
		b.w, b.h = b.elem(0), b.elem(0)
		if v.Choose(2) == 1 {
			b.put(1, 1)
			b.left, b.right, b.top, b.bottom = b.elem(0), b.elem(0), b.elem(0), b.elem(0)
		} else {
			b.put(0, 1)
		}
		b.tail(0, true)
		b.put(0x8000, 16)
		sps := b.bytes()
		v.Assume(unescaped(sps))
		return b, sps
	}
	a, x := build()
	b, y := build()
	s, err1 := hevc.ParseSPS(x)
	t, err2 := hevc.ParseSPS(y)
	u, err3 := hevc.ParseSPS(x)
	v.Assert(err1 == nil && err2 == nil && err3 == nil, "a complete SPS parses")
	a.check(&s)
	b.check(&t)
	a.check(&u)
	v.Reach("done")
}
