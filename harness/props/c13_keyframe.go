package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// keyByHeaders is the reference answer for the header bytes of the units in order, computed without branching.
func keyByHeaders(h265 bool, headers []byte) bool {
	key := false
	for i := len(headers) - 1; i >= 0; i-- {
		var is, skip bool
		if h265 {
			t := headers[i] >> 1 & 0x3f
			is = v.And(t >= 16, t <= 23)
			skip = v.And(t >= 32, t <= 40, t != 36, t != 37, t != 38)
		} else {
			t := headers[i] & 0x1f
			is = t == 5
			skip = v.And(t >= 6, t <= 9)
		}
		key = v.Or(is, v.And(skip, key))
	}
	return key
}

// headersOf lists the bytes that follow a start code. It branches.
func headersOf(p []byte) (h []byte) {
	for i := 3; i < len(p); i++ {
		if codeAt(p, i-3) {
			h = append(h, p[i])
		}
	}
	return
}

func isKey(h265 bool, how int, p []byte) bool {
	if how == 1 {
		if h265 {
			return avformat.IsKeyFrame(utils.AVCodecIdH265, p)
		}
		return avformat.IsKeyFrame(utils.AVCodecIdH264, p)
	}
	if h265 {
		return hevc.IsKeyFrame(p)
	}
	return avc.IsKeyFrame(p)
}

// C13_Units: streams of 0..4 units (thorough 6) of 1..3 arbitrary well-formed bytes, either codec and entry point.
func C13_Units() {
	p, units := annexB(v.Choose(maxLen(5, 6)), 3, false)
	orig := clone(p)
	var h []byte
	for _, u := range units {
		h = append(h, u[0])
	}
	h265 := v.Choose(2) == 1
	got := isKey(h265, v.Choose(2), p)
	v.Assert(got == keyByHeaders(h265, h), "key exactly when the first unit that is not skipped is a key slice")
	v.Assert(v.EqBytes(p, orig), "input left alone")
	if got {
		v.Reach("key")
	} else {
		v.Reach("not key")
	}
}

// C13_Long: streams of 5..12 units of one byte, of which all but the last two are skipped kinds chosen freely.
func C13_Long() {
	var p, h []byte
	n := 5 + v.Choose(8)
	h265 := v.Choose(2) == 1
	for i := 0; i < n; i++ {
		b := v.Byte()
		if i < n-2 {
			if h265 {
				t := b >> 1 & 0x3f
				v.Assume(v.And(t >= 32, t <= 40, t != 36, t != 37, t != 38))
			} else {
				v.Assume(v.And(b&0x1f >= 6, b&0x1f <= 9))
			}
		}
		h = append(h, b)
		p = append(append(p, code3...), b, 0x80)
	}
	v.Assert(isKey(h265, v.Choose(2), p) == keyByHeaders(h265, h), "key exactly when the first unit that is not skipped is a key slice")
	v.Reach("done")
}

// C13_Any: every byte string of length 0..12 (thorough 0..15).
func C13_Any() {
	p := v.Bytes(v.Choose(maxLen(12, 15) + 1))
	h265 := v.Choose(2) == 1
	got := isKey(h265, 0, p)
	v.Assert(got == keyByHeaders(h265, headersOf(p)), "key exactly when the first unit that is not skipped is a key slice")
	v.Reach("done")
}

// C13_OtherCodecs: every other codec id, every byte string of length 0..6: never key.
func C13_OtherCodecs() {
	id := utils.AVCodecID(v.Int())
	v.Assume(v.And(id != utils.AVCodecIdH264, id != utils.AVCodecIdH265))
	v.Assert(!avformat.IsKeyFrame(id, v.Bytes(v.Choose(7))), "other codecs have no key frames here")
	v.Reach("done")
}
