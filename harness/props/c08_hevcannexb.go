package props

import (
	"github.com/lkmio/avformat/hevc"

	"verif/harness/v"
)

func irap(h byte) bool {
	t := h >> 1 & 0x3f
	return v.And(t >= 16, t <= 23)
}

func h265AnnexB(units [][]byte, extra []byte) []byte {
	var out []byte
	seen := false
	for _, u := range units {
		if !seen && irap(u[0]) {
			out = append(out, extra...)
			seen = true
		}
		out = append(out, code4...)
		out = append(out, u...)
	}
	return out
}

// C08_Units: packets of 0..3 units (thorough 4) of 2..4 arbitrary bytes, every length-field size 1..4, with and without
// parameter sets of 5 arbitrary bytes.
func C08_Units() {
	size := 1 + v.Choose(4)
	data, units := lenPrefixed(v.Choose(maxLen(4, 5)), 2, 4, size)
	orig := clone(data)
	var extra []byte
	if v.Choose(2) == 1 {
		extra = v.Bytes(5)
	}
	dst := make([]byte, len(data)+40)
	for i := range dst {
		dst[i] = 0xEE
	}
	n, err := hevc.Mp4ToAnnexB(dst, data, extra, size)
	v.Assert(err == nil, "a well-formed packet is converted")
	want := h265AnnexB(units, extra)
	v.Assert(n == len(want), "the size of the converted packet")
	v.Assert(v.EqBytes(dst[:n], want), "the same units in order, parameter sets once before the first random-access unit")
	for i := n; i < len(dst); i++ {
		v.Assert(dst[i] == 0xEE, "nothing is written past the announced size")
	}
	v.Assert(v.EqBytes(data, orig), "the input is unchanged")
	v.Reach("done")
	v.ObserveBytes(dst[:n])
}

// C08_Any: every byte string of length 0..11 (thorough 0..15) and every length-field size 1..4: accepted exactly when
// units of at least two bytes tile it, without accesses out of bounds.
func C08_Any() {
	size := 1 + v.Choose(4)
	data := v.Bytes(v.Choose(maxLen(11, 15) + 1))
	n, err := hevc.Mp4ToAnnexB(make([]byte, 4*len(data)+8), data, nil, size)
	// reference parse
	i, ok, out := 0, true, 0
	for i < len(data) && ok {
		if i+size > len(data) {
			ok = false
			break
		}
		l := beSpec(data[i : i+size])
		i += size
		if l < 2 || l > uint64(len(data)-i) {
			ok = false
			break
		}
		l = uint64(v.Concretize(int(l)))
		i += int(l)
		out += 4 + int(l)
	}
	v.Assert((err == nil) == ok, "rejected exactly when the units do not tile the packet")
	if err == nil {
		v.Assert(n == out, "the size of the converted packet")
		v.Reach("accepted")
	} else {
		v.Reach("rejected")
	}
}

// C08_Big: one unit of 254..65540 bytes (header and last byte arbitrary) in every length-field size that can announce it.
func C08_Big() {
	sizes := []int{254, 255, 256, 65535, 65536, 65540}
	n := sizes[v.Choose(len(sizes))]
	size := 1 + v.Choose(4)
	if size < 4 && n >= 1<<uint(8*size) {
		return
	}
	u := make([]byte, n)
	u[0], u[1], u[n-1] = v.Byte(), v.Byte(), v.Byte()
	data := append(be32(n)[4-size:], u...)
	dst := make([]byte, n+8)
	m, err := hevc.Mp4ToAnnexB(dst, data, nil, size)
	v.Assert(v.And(err == nil, m == n+4), "the unit is converted")
	v.Assert(v.EqBytes(dst[:m], append(clone(code4), u...)), "byte-identical after a four-byte start code")
	v.Reach("done")
}
