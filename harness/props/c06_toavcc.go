package props

import (
	"github.com/lkmio/avformat/avc"

	"verif/harness/v"
)

func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

// toAVCC converts with a buffer prefilled with a pattern and returns the output.
func toAVCC(stream []byte) []byte {
	dst := make([]byte, len(stream)*2+8)
	for i := range dst {
		dst[i] = 0xEE
	}
	n := avc.AnnexB2AVCC(dst, stream)
	v.Assert(v.And(n >= 0, n <= len(dst)), "the size is within the buffer")
	for i := n; i < len(dst); i++ {
		v.Assert(dst[i] == 0xEE, "nothing is written past the announced size")
	}
	return dst[:n]
}

// C06_Units: streams of 1..3 well-formed units of 1..4 arbitrary bytes (thorough 4 units of 1..5), any unit header,
// start codes of either length.
func C06_Units() {
	stream, units := annexB(1+v.Choose(maxLen(3, 4)), maxLen(4, 5), false)
	orig := clone(stream)
	var want []byte
	for _, u := range units {
		want = append(want, be32(len(u))...)
		want = append(want, u...)
	}
	got := toAVCC(stream)
	v.Assert(v.EqBytes(got, want), "the same units, each after its length")
	v.Assert(v.EqBytes(stream, orig), "the input is unchanged")
	v.Reach("done")
	v.ObserveBytes(got)
}

// C06_Empty: streams of 1..4 units of 0..2 bytes, the last not empty: empty units are dropped.
func C06_Empty() {
	stream, units := annexB(1+v.Choose(4), 2, true)
	if len(units[len(units)-1]) == 0 {
		return
	}
	var want []byte
	for _, u := range units {
		if len(u) > 0 {
			want = append(want, be32(len(u))...)
			want = append(want, u...)
		} else {
			v.Reach("empty unit")
		}
	}
	v.Assert(v.EqBytes(toAVCC(stream), want), "empty units are dropped, the others kept")
}

// C06_Big: units of 250..260 and 65530..65540 bytes (first and last three bytes arbitrary, filler between), followed by a
// one-byte unit: the full length is encoded.
func C06_Big() {
	sizes := []int{250, 255, 256, 257, 260, 65535, 65536, 65540}
	n := sizes[v.Choose(len(sizes))]
	u := make([]byte, n)
	for i := range u {
		u[i] = 0x55
	}
	for _, i := range []int{0, 1, 2, n - 3, n - 2, n - 1} {
		u[i] = v.Byte()
	}
	v.Assume(!v.And(u[0] == 0, u[1] == 0, u[2] <= 2))
	v.Assume(!v.And(u[n-3] == 0, u[n-2] == 0, u[n-1] <= 2))
	v.Assume(u[n-1] != 0)
	last := v.Byte()
	v.Assume(last != 0)
	stream := append([]byte{0, 0, 0, 1}, u...)
	stream = append(append(stream, 0, 0, 1), last)
	dst := make([]byte, len(stream)+16)
	m := avc.AnnexB2AVCC(dst, stream)
	v.Assert(m == n+9, "size of both units")
	v.Assert(v.EqBytes(dst[:4], be32(n)), "length of the first unit")
	v.Assert(v.EqBytes(dst[4:4+n], u), "bytes of the first unit")
	v.Assert(v.EqBytes(dst[4+n:m], append(be32(1), last)), "second unit")
	v.Reach("done")
}

// C06_Any: every byte string of length 0..12 (thorough 0..17): the result is a sequence of length-prefixed, non-empty
// units that tiles its announced size, made of bytes of the input in order, and empty when there is no start code.
func C06_Any() {
	p := v.Bytes(v.Choose(maxLen(12, 17) + 1))
	got := toAVCC(p)
	if len(got) == 0 {
		v.Reach("nothing")
	}
	first, _ := startSpec(p)
	v.Assert(v.Or(first >= 0, len(got) == 0), "no start code, no output")
	i, sum := 0, 0
	for i < len(got) {
		v.Assert(i+4 <= len(got), "a length field is complete")
		n := int(beSpec(got[i : i+4]))
		v.Assert(v.And(n > 0, n <= len(got)-i-4), "a unit lies inside the output and is not empty")
		n = v.Concretize(n)
		i += 4 + n
		sum += n
		v.Reach("unit")
	}
	v.Assert(i == len(got), "the units tile the output")
	v.Assert(sum <= len(p), "no byte is invented")
}
