package props

import (
	"github.com/lkmio/avformat/avc"

	"verif/harness/v"
)

// bitSrc reads a bit string for the oracle; short is set once the data has ended.
type bitSrc struct {
	b      []byte
	pos    int
	short  bool
	weird  bool // a code word with more than 32 leading zeros
	matrix bool // scaling lists present
}

func (s *bitSrc) u(n int) uint64 {
	if s.short || s.pos+n > 8*len(s.b) {
		s.short = true
		return 0
	}
	r := bitsSpec(s.b, s.pos, n)
	s.pos += n
	return r
}

func (s *bitSrc) ue() uint64 {
	k := 0
	for s.u(1) == 0 && !s.short {
		if k++; k > 32 {
			s.short, s.weird = true, true
		}
	}
	return 1<<uint(k) - 1 + s.u(k)
}

// unescape drops every 03 that follows two zero bytes.
func unescape(p []byte) []byte {
	var out []byte
	zeros := 0
	for _, x := range p {
		if zeros >= 2 && x == 3 {
			zeros = 0
			continue
		}
		if x == 0 {
			zeros++
		} else {
			zeros = 0
		}
		out = append(out, x)
	}
	return out
}

// escape inserts a 03 wherever 00 00 would be followed by a byte of at most 3.
func escape(p []byte) []byte {
	var out []byte
	zeros := 0
	for _, x := range p {
		if zeros >= 2 && x <= 3 {
			out = append(out, 3)
			zeros = 0
		}
		if x == 0 {
			zeros++
		} else {
			zeros = 0
		}
		out = append(out, x)
	}
	return out
}

// unescaped reports, without forking, that p needs no emulation prevention and contains none.
func unescaped(p []byte) bool {
	ok := true
	for i := 0; i+2 < len(p); i++ {
		ok = v.And(ok, !v.And(p[i] == 0, p[i+1] == 0, p[i+2] <= 3))
	}
	return ok
}

func highProfile(p uint64) bool {
	for _, x := range []uint64{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135} {
		if p == x {
			return true
		}
	}
	return false
}

type avcSPSSpec struct {
	profile, level, id, w, h, fmo, left, right, top, bottom, chroma, sep uint64
}

// check compares a parsed SPS with 7.3.2.1.1 and the derivations of 7.4.2.1.1.
func (e *avcSPSSpec) check(s *avc.SPS) {
	v.Assert(v.And(uint64(s.ProfileIdc) == e.profile, uint64(s.LevelIdc) == e.level, uint64(s.Id) == e.id), "profile, level and id")
	v.Assert(v.And(uint64(s.MbWidth) == e.w, uint64(s.MbHeight) == e.h), "dimensions in macroblocks and map units")
	v.Assert(v.And(uint64(s.CropLeft) == e.left, uint64(s.CropRight) == e.right, uint64(s.CropTop) == e.top, uint64(s.CropBottom) == e.bottom), "cropping offsets")
	x, y := 1, 2-int(e.fmo)
	if e.sep == 0 {
		switch e.chroma {
		case 1:
			x, y = 2, 2*y
		case 2:
			x = 2
		}
	}
	v.Assert(s.Width == 16*int(e.w)-x*int(e.left+e.right), "width after cropping")
	v.Assert(s.Height == (2-int(e.fmo))*16*int(e.h)-y*int(e.top+e.bottom), "height after cropping")
}

func (e *avcSPSSpec) plausible() bool {
	return v.And(e.w <= 4096, e.h <= 4096, e.left <= 1000, e.right <= 1000, e.top <= 1000, e.bottom <= 1000)
}

// readAVCSPS is the syntax of 7.3.2.1.1 up to and including the VUI presence flag.
func readAVCSPS(b []byte) (e avcSPSSpec, s *bitSrc) {
	s = &bitSrc{b: b}
	s.u(8)
	e.profile = s.u(8)
	s.u(8)
	e.level = s.u(8)
	e.id = s.ue()
	e.chroma = 1
	if s.short {
		return
	}
	if highProfile(e.profile) {
		e.chroma = s.ue()
		if e.chroma == 3 {
			e.sep = s.u(1)
		}
		s.ue()
		s.ue()
		s.u(1)
		if s.u(1) == 1 {
			s.matrix = true
			return
		}
	}
	s.ue()
	switch s.ue() {
	case 0:
		s.ue()
	case 1:
		s.u(1)
		s.ue()
		s.ue()
		for n := s.ue(); n > 0 && !s.short; n-- {
			s.ue()
		}
	}
	s.ue()
	s.u(1)
	e.w = s.ue() + 1
	e.h = s.ue() + 1
	if e.fmo = s.u(1); e.fmo == 0 {
		s.u(1)
	}
	s.u(1)
	if s.u(1) == 1 {
		e.left, e.right, e.top, e.bottom = s.ue(), s.ue(), s.ue(), s.ue()
	}
	return
}

func avcAny(sps []byte) {
	in := clone(sps)
	e, src := readAVCSPS(sps)
	vui := src.u(1)
	if src.weird || src.matrix {
		return
	}
	s, err := avc.ParseSPS(sps)
	v.Assert(v.EqBytes(in, sps), "input left alone")
	if src.short {
		v.Assert(err != nil, "an SPS that ends early is rejected")
		v.Reach("short")
		return
	}
	if vui == 1 {
		return // C11_VUI
	}
	v.Assume(e.plausible())
	v.Assert(err == nil, "a complete SPS parses")
	e.check(&s)
	v.Reach("parsed")
}

// C11_Any: every SPS of a non-high profile with 0..2 arbitrary bytes after the level (thorough: 20 bits), against a second
// reading of the syntax; cropped sizes compared where dimensions are at most 4096 macroblocks and offsets at most 1000.
func C11_Any() {
	rest := v.Bytes(v.Choose(maxLen(3, 4)))
	if len(rest) == 3 {
		rest[0] = rest[0]&0x0f | 0xf0
	}
	avcAny(append([]byte{v.Byte(), 66 + 11*byte(v.Choose(3)), v.Byte() | 0x40, v.Byte() | 1}, rest...))
}

// C11_AnyHigh: the same for profile 100 and 244 with 0..3 arbitrary bytes after the level, the first three (thorough: one) bits
// of which are set; without scaling lists (C11_Scaling).
func C11_AnyHigh() {
	rest := v.Bytes(v.Choose(4))
	if len(rest) > 0 {
		rest[0] |= byte(maxLen(0xe0, 0x80))
	}
	avcAny(append([]byte{v.Byte(), 100 + 144*byte(v.Choose(2)), v.Byte() | 0x40, v.Byte() | 1}, rest...))
}

// avcBuilder writes an SPS element by element. Element active takes every size of its range, the others the default one.
type avcBuilder struct {
	bitWriter
	avcSPSSpec
	n, active, def int
}

func (b *avcBuilder) elem(max int) uint64 {
	k := b.def
	if b.n == b.active {
		k = v.Choose(max + 1)
	}
	b.n++
	return b.bitWriter.ue(k, v.Uint64())
}

func (b *avcBuilder) flag() uint64 {
	x := uint64(v.Byte() & 1)
	b.put(x, 1)
	return x
}

const avcElems = 17

// se writes the signed value x.
func (b *avcBuilder) se(x int) {
	k := uint64(2*x - 1)
	if x <= 0 {
		k = uint64(-2 * x)
	}
	n := 0
	for k+1 >= 2<<uint(n) {
		n++
	}
	b.bitWriter.ue(n, k+1-1<<uint(n))
}

// scalingList writes a list of the given size: 0 absent, 1 default (next scale 0 at once), 2 flat, 3 default after three
// entries, 4 arbitrary small deltas first, 5 wrapping through negative values, 6 every entry different from the one before.
func (b *avcBuilder) scalingList(kind, size int) {
	if kind == 0 {
		b.put(0, 1)
		return
	}
	b.put(1, 1)
	switch kind {
	case 1:
		b.se(-8)
	case 2:
		b.put(^uint64(0), size)
	case 3:
		b.se(1)
		b.se(5)
		b.se(-14)
	case 4:
		for i := 0; i < 3; i++ {
			b.bitWriter.ue(1, v.Uint64())
		}
		b.put(^uint64(0), size-3)
	case 5:
		b.se(-20) // 244
		b.se(12)  // 0: stop
	case 6:
		for i := 0; i < size; i++ {
			b.se(1 - 2*(i&1))
		}
	}
}

func (b *avcBuilder) head(profile byte, chroma int, matrix bool, list, kind int) {
	b.put(uint64(v.Byte()&0x60|7), 8)
	b.profile = uint64(profile)
	b.put(b.profile, 8)
	b.put(uint64(v.Byte()|0x80), 8)
	b.level = uint64(v.Byte() | 1)
	b.put(b.level, 8)
	b.id = b.elem(5)
	b.chroma = 1
	if highProfile(b.profile) {
		b.chroma = uint64(chroma)
		b.se([]int{0, 1, -1, 2}[chroma])
		if chroma == 3 {
			b.sep = b.flag()
		}
		b.elem(2)
		b.elem(2)
		b.flag()
		if matrix {
			b.put(1, 1)
			others := 1 + 2*v.Choose(2)
			n := 8
			if chroma == 3 {
				n = 12
			}
			for i := 0; i < n; i++ {
				size, k := 16, 0
				if i >= 6 {
					size = 64
				}
				if i == list {
					k = kind
				} else if i%3 == others {
					k = 1
				}
				b.scalingList(k, size)
			}
		} else {
			b.put(0, 1)
		}
	} else {
		b.n += 2
	}
}

// tail writes the elements after the chroma and scaling part, up to the cropping.
func (b *avcBuilder) tail(poc, cycle int, crop bool) {
	b.elem(3)
	b.se([]int{0, 1, -1}[poc])
	switch poc {
	case 0:
		b.elem(3)
		b.n += 3
	case 1:
		b.n++
		b.flag()
		b.elem(31)
		b.elem(31)
		for n := 0; ; n++ {
			if 1<<uint(n)-1 <= cycle && cycle < 2<<uint(n)-1 {
				b.bitWriter.ue(n, uint64(cycle+1-1<<uint(n)))
				break
			}
		}
		for i := 0; i < cycle; i++ {
			if i < cycle-1 {
				b.bitWriter.ue(b.def, v.Uint64())
			} else {
				b.elem(31)
			}
		}
		if cycle == 0 {
			b.n++
		}
	case 2:
		b.n += 4
	}
	b.elem(4)
	b.flag()
	b.w = b.elem(16) + 1
	b.h = b.elem(16) + 1
	b.fmo = uint64(v.Choose(2))
	b.put(b.fmo, 1)
	if b.fmo == 0 {
		b.flag()
	}
	b.flag()
	if crop {
		b.put(1, 1)
		b.left, b.right, b.top, b.bottom = b.elem(10), b.elem(10), b.elem(10), b.elem(10)
	} else {
		b.put(0, 1)
	}
}

// done checks the parser on the finished SPS, in every start-code form.
func (b *avcBuilder) done(esc bool) {
	b.put(1, 1) // stop bit
	sps := b.bytes()
	if esc {
		sps = escape(sps)
	} else {
		v.Assume(unescaped(sps))
	}
	s, err := avc.ParseSPS(withCode(sps, v.Choose(3)))
	v.Assert(err == nil, "a complete SPS parses")
	b.check(&s)
	v.Reach("parsed")
}

func newAVCBuilder() *avcBuilder {
	b := &avcBuilder{active: v.Choose(avcElems) - 1, def: 2 * v.Choose(2)}
	return b
}

// C11_Elements: every syntax element in turn takes every code-word size of its range (sizes up to 16 or 31 bits, arbitrary
// value), the others sizes 0 or 2; profiles 66 and 100; picture order count types 0, 1 with 0..2 cycle entries, and 2;
// cropping present or not; frame and field coding; three start-code forms.
func C11_Elements() {
	b := newAVCBuilder()
	b.head(byte(66+34*v.Choose(2)), 1, false, 0, 0)
	poc := v.Choose(3)
	cycle := 0
	if poc == 1 {
		cycle = v.Choose(3)
	}
	b.tail(poc, cycle, v.Choose(2) == 1)
	b.put(0, 1)
	b.done(false)
}

// C11_Profiles: every profile value, every chroma format, separate planes or not, cropping by arbitrary offsets below 127,
// frame and field coding.
func C11_Profiles() {
	b := &avcBuilder{active: -1, def: 5}
	p := v.Byte()
	chroma := 1
	high := highProfile(uint64(p))
	if high {
		chroma = v.Choose(4)
	} else {
		v.Assume(p != 0)
	}
	b.head(p, chroma, false, 0, 0)
	b.tail(0, 0, v.Choose(2) == 1)
	b.put(0, 1)
	b.done(false)
}

// C11_Scaling: every position of the 8 (12 for 4:4:4) scaling lists with every kind of list, all other lists absent or every
// third one default.
func C11_Scaling() {
	b := &avcBuilder{active: -1, def: 1}
	chroma := v.Choose(4)
	n := 8
	if chroma == 3 {
		n = 12
	}
	b.head([]byte{100, 244, 118}[v.Choose(3)], chroma, true, v.Choose(n), v.Choose(7))
	b.tail(2, 0, true)
	b.put(0, 1)
	b.done(false)
}

// C11_Cycle: picture order count cycles of 0..12 entries and 255, sizes 0..2 of each entry.
func C11_Cycle() {
	b := &avcBuilder{active: -1, def: v.Choose(3)}
	b.head(77, 1, false, 0, 0)
	c := v.Choose(14)
	if c == 13 {
		c = 255
	}
	b.tail(1, c, true)
	b.put(0, 1)
	b.done(false)
}

// vui writes the leading VUI elements; what selects which parts are present.
func (b *avcBuilder) vui(what int) {
	b.put(1, 1)
	bit := func(i int) bool {
		x := what >> uint(i) & 1
		b.put(uint64(x), 1)
		return x == 1
	}
	if bit(0) { // aspect ratio
		if what>>6&1 == 1 {
			b.put(255, 8)
			b.put(v.Uint64(), 32)
		} else {
			b.put(uint64(v.Byte()&0x1f), 8)
		}
	}
	if bit(1) { // overscan
		b.flag()
	}
	if bit(2) { // video signal type
		b.put(v.Uint64(), 4)
		if bit(7) {
			b.put(v.Uint64(), 24)
		}
	}
	if bit(3) { // chroma location
		b.bitWriter.ue(1, v.Uint64())
		b.bitWriter.ue(2, v.Uint64()&1)
	}
	if bit(4) { // timing
		b.put(v.Uint64()|1<<31, 32)
		b.put(v.Uint64()|1<<31, 32)
		b.flag()
	}
}

// C11_VUI: every combination of the leading VUI parts (aspect ratio, overscan, signal type, chroma location, timing) with
// arbitrary contents, followed by two arbitrary bytes; the picture geometry is unaffected.
func C11_VUI() {
	b := &avcBuilder{active: -1, def: 3}
	b.head(100, 1, false, 0, 0)
	b.tail(0, 0, true)
	b.vui(v.Choose(256) &^ 32)
	b.put(v.Uint64(), 16)
	b.done(false)
}

// C11_Truncated: an SPS cut to any whole number of bytes before its last needed bit is rejected: all picture order count types,
// with and without the high-profile part, scaling lists, cropping and VUI.
func C11_Truncated() {
	b := &avcBuilder{active: -1, def: v.Choose(3)}
	matrix := v.Choose(2) == 1
	profile := byte(66 + 34*v.Choose(2))
	chroma := 1 + 2*v.Choose(2)
	if profile == 66 && (matrix || chroma != 1) {
		return
	}
	b.head(profile, chroma, matrix, 0, 4)
	b.tail(v.Choose(3), 2, v.Choose(2) == 1)
	need := 0
	if v.Choose(2) == 0 {
		b.put(0, 1)
		need = len(b.bits)
	} else {
		b.vui([]int{0, 31, 16, 0xdf}[v.Choose(4)])
		need = len(b.bits)
	}
	b.put(1, 1)
	sps := b.bytes()
	v.Assume(unescaped(sps))
	cut := clone(sps[:v.Choose((need-1)/8+1)])
	_, err := avc.ParseSPS(withCode(cut, v.Choose(3)))
	v.Assert(err != nil, "an SPS that ends early is rejected")
	v.Reach("cut")
}

// C11_Escaped: SPS whose bits need emulation prevention: ids, offsets and cropping values with up to 31 leading zeros, with
// the prevention bytes inserted, parse to the same geometry.
func C11_Escaped() {
	b := &avcBuilder{active: -1, def: 0}
	big := func(k int, mask uint64) uint64 { return b.bitWriter.ue(k, v.Uint64()&mask) }
	b.put(uint64(v.Byte()&0x60|7), 8)
	b.profile = 77
	b.put(b.profile, 8)
	b.put(uint64(v.Byte()&0x80), 8)
	b.level = uint64(v.Byte() & 0x03)
	b.put(b.level, 8)
	b.chroma = 1
	b.id = big(v.Choose(3), 3)
	big(0, 0)
	b.se(1)
	b.flag()
	big(20+v.Choose(maxLen(2, 12)), 1)
	big(23+v.Choose(maxLen(2, 8)), 3)
	b.se(0) // cycle 0
	big(0, 0)
	b.flag()
	b.w = big(10, 0x201) + 1
	b.h = big(7+v.Choose(2), 1) + 1
	b.fmo = 1
	b.put(1, 1)
	b.flag()
	b.put(1, 1)
	b.left, b.right, b.top, b.bottom = big(1, 1), big(0, 0), big(8, 1), big(0, 0)
	b.put(0, 1)
	b.done(true)
}

// C11_EscapedRaw: every SPS of 6..7 bytes holding 00 00 03 at any place after the profile, the other bytes arbitrary, read like
// the sequence without the 03.
func C11_EscapedRaw() {
	raw := []byte{0x67, 66, v.Byte() | 0x40, v.Byte() | 1, v.Byte(), v.Byte()}
	i := 2 + v.Choose(3)
	raw[i], raw[i+1] = 0, 0
	sps := append(append(clone(raw[:i+2]), 3), raw[i+2:]...)
	if i == 2 {
		v.Assume(raw[4] >= 0x40)
	}
	s, err := avc.ParseSPS(sps)
	e, src := readAVCSPS(unescape(sps))
	vui := src.u(1)
	if src.weird || vui == 1 {
		return
	}
	if src.short {
		v.Assert(err != nil, "an SPS that ends early is rejected")
		v.Reach("short")
		return
	}
	v.Assume(e.plausible())
	v.Assert(err == nil, "a complete SPS parses")
	e.check(&s)
	v.Reach("parsed")
}

// C11_EscapedMany: SPS with a picture order count cycle of 1, 3, 10, 40 or 90 (thorough 255) entries whose long zero runs, from the first entry or only from the middle on, need up
// to some 500 emulation prevention bytes, before an arbitrary last entry, dimensions and cropping.
func C11_EscapedMany() {
	b := &avcBuilder{active: -1, def: 0}
	big := func(k int, mask uint64) uint64 { return b.bitWriter.ue(k, v.Uint64()&mask) }
	zero := func(k int) { b.bitWriter.ue(k, 0) }
	b.put(0x67, 8)
	b.profile = 77
	b.put(b.profile, 8)
	b.put(0, 8)
	b.level = uint64(v.Byte() & 0x03)
	b.put(b.level, 8)
	b.chroma = 1
	zero(0)
	zero(0)
	b.se(1)
	b.put(uint64(v.Choose(2)), 1)
	zero(0)
	zero(0)
	n := []int{1, 3, 10, 40, 90}[v.Choose(5)]
	if n == 90 && v.Thorough() {
		n = 255
	}
	k := 0
	for n+1 >= 2<<uint(k) {
		k++
	}
	b.bitWriter.ue(k, uint64(n+1-1<<uint(k)))
	late := v.Choose(2) == 1
	for i := 0; i < n-1; i++ {
		if late && i < n/2 {
			b.bitWriter.ue(7, 0x55) // no zero bytes
		} else {
			zero(30)
		}
	}
	big(25, 3)
	zero(1)
	b.put(0, 1)
	b.w = big(8, 0x81) + 1
	b.h = big(7, 1) + 1
	b.fmo = 1
	b.put(1, 1)
	b.put(0, 1)
	b.put(1, 1)
	b.left, b.right, b.top, b.bottom = big(1, 1), big(0, 0), big(8, 1), big(0, 0)
	b.put(0, 1)
	b.done(true)
}

// C11_Twice: two SPS that share their first bytes (profile, level, id) and differ in dimensions and cropping, parsed one after the
// other, then the first again: each result is that of its own SPS.
func C11_Twice() {
	p := byte(66 + 34*v.Choose(2))
	build := func() (*avcBuilder, []byte) {
		b := &avcBuilder{active: -1, def: 2}
		b.put(0x67, 8)
		b.profile = uint64(p)
		b.put(b.profile, 8)
		b.put(0xc0, 8)
		b.level = 31
		b.put(31, 8)
		b.id = b.bitWriter.ue(0, 0)
		b.chroma = 1
		if highProfile(b.profile) {
			b.se(1)
			b.bitWriter.ue(0, 0)
			b.bitWriter.ue(0, 0)
			b.put(0, 2)
		}
		b.tail(0, 0, v.Choose(2) == 1)
		b.put(0, 1)
		b.put(1, 1)
		sps := b.bytes()
		v.Assume(unescaped(sps))
		return b, sps
	}
	a, x := build()
	b, y := build()
	s, err1 := avc.ParseSPS(x)
	t, err2 := avc.ParseSPS(y)
	u, err3 := avc.ParseSPS(x)
	v.Assert(err1 == nil && err2 == nil && err3 == nil, "a complete SPS parses")
	a.check(&s)
	b.check(&t)
	a.check(&u)
	v.Reach("done")
}
