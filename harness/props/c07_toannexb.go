package props

import (
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"

	"verif/harness/v"
)

// lenPrefixed builds n units of 1..maxUnit arbitrary bytes, each after a length field of size bytes.
func lenPrefixed(n, minUnit, maxUnit, size int) (data []byte, units [][]byte) {
	for i := 0; i < n; i++ {
		u := v.Bytes(minUnit + v.Choose(maxUnit+1-minUnit))
		data = append(data, be32(len(u))[4-size:]...)
		data = append(data, u...)
		units = append(units, u)
	}
	return
}

var code4 = []byte{0, 0, 0, 1}
var code3 = []byte{0, 0, 1}

// h264AnnexB is the reference conversion. It branches on the unit types.
func h264AnnexB(units [][]byte, extra []byte, keepSEI bool) []byte {
	var out []byte
	own := false
	for _, u := range units {
		switch u[0] & 0x1f {
		case 7, 8:
			own = true
		case 5:
			if !own {
				out = append(out, extra...)
				own = true
			}
		case 6:
			if !keepSEI {
				continue
			}
		}
		if len(out) == 0 {
			out = append(out, code4...)
		} else {
			out = append(out, code3...)
		}
		out = append(out, u...)
	}
	return out
}

func convert264(kind int, data, extra []byte, room int) []byte {
	dst := make([]byte, room)
	for i := range dst {
		dst[i] = 0xEE
	}
	if kind == 0 {
		n := avc.AVCC2AnnexB(dst, data, extra)
		v.Assert(v.And(n >= 0, n <= len(dst)), "the size is within the buffer")
		for i := n; i < len(dst); i++ {
			v.Assert(dst[i] == 0xEE, "nothing is written past the announced size")
		}
		return dst[:n]
	}
	w := bufio.NewBytesWriter(dst)
	avc.Mp4ToAnnexB(w, data, extra)
	return w.WrittenBytes()
}

// C07_Units: packets of 0..3 units of 1..3 arbitrary bytes (thorough 4 units), without or with supplied parameter sets
// of 5 arbitrary bytes, both converters.
func C07_Units() {
	data, units := lenPrefixed(v.Choose(maxLen(4, 5)), 1, maxLen(3, 3), 4)
	orig := clone(data)
	var extra []byte
	if v.Choose(2) == 1 {
		extra = v.Bytes(5)
	}
	kind := v.Choose(2)
	got := convert264(kind, data, extra, len(data)+16)
	want := h264AnnexB(units, extra, kind == 1)
	v.Assert(len(got) == len(want), "the size of the converted packet")
	v.Assert(v.EqBytes(got, want), "the same units in order, parameter sets before the first IDR slice if the packet has none")
	v.Assert(v.EqBytes(data, orig), "the input is unchanged")
	v.Reach("done")
	v.ObserveBytes(got)
}

// C07_Broken: 0..2 complete units of 1..2 bytes followed by a tail of 0..6 arbitrary bytes whose length field is zero,
// incomplete, or exceeds what is left: the complete units before it are converted and nothing else.
func C07_Broken() {
	data, units := lenPrefixed(v.Choose(3), 1, 2, 4)
	tail := v.Bytes(v.Choose(7))
	if len(tail) >= 4 {
		n := beSpec(tail[:4])
		v.Assume(v.Or(n == 0, n > uint64(len(tail)-4)))
	}
	kind := v.Choose(2)
	got := convert264(kind, append(data, tail...), nil, len(data)+32)
	want := h264AnnexB(units, nil, kind == 1)
	v.Assert(v.EqBytes(got, want), "conversion ends at the broken unit")
	v.Reach("done")
}

// C07_Any: every byte string of length 0..14 (thorough 0..18) is converted without reading or writing out of bounds.
func C07_Any() {
	data := v.Bytes(v.Choose(maxLen(14, 18) + 1))
	convert264(v.Choose(2), data, nil, len(data)+8)
	v.Reach("done")
}

// C07_RoundTrip: well-formed Annex-B streams of 1..3 units of 1..4 bytes, no SEI for the slice-level converter, go to the
// length-prefixed form and back: the same units.
func C07_RoundTrip() {
	stream, units := annexB(1+v.Choose(3), maxLen(3, 4), false)
	kind := v.Choose(2)
	if kind == 0 {
		for _, u := range units {
			v.Assume(u[0]&0x1f != 6)
		}
	}
	got := convert264(kind, toAVCC(stream), nil, len(stream)+16)
	k := 0
	avc.SplitNalU(got, func(piece []byte) {
		v.Assert(k < len(units), "no unit is invented")
		v.Assert(v.EqBytes(avc.RemoveStartCode(piece), units[k]), "the same unit comes back")
		k++
	})
	v.Assert(k == len(units), "no unit is lost")
	v.Reach("done")
}

// C07_Big: one IDR unit of 255..65540 bytes (first and last byte arbitrary) and a small second unit.
func C07_Big() {
	sizes := []int{255, 256, 257, 65535, 65536, 65540}
	n := sizes[v.Choose(len(sizes))]
	u := make([]byte, n)
	u[0], u[n-1] = v.Byte(), v.Byte()
	v.Assume(u[0]&0x1f != 6)
	s := v.Byte()
	v.Assume(s&0x1f != 6)
	data := append(be32(n), u...)
	data = append(append(data, 0, 0, 0, 1), s)
	got := convert264(v.Choose(2), data, nil, len(data)+8)
	v.Assert(len(got) == n+4+4, "size of both units")
	v.Assert(v.EqBytes(got[4:4+n], u), "bytes of the first unit")
	v.Assert(v.EqBytes(got[4+n:], []byte{0, 0, 1, s}), "second unit")
	v.Reach("done")
}
