package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// checkExtract compares every extraction from p with the last unit of each kind. It branches on the unit types.
func checkExtract(h265 bool, p []byte, units [][]byte) {
	orig := clone(p)
	var vps, sps, pps []byte
	for _, u := range units {
		if len(u) == 0 {
			continue
		}
		t := int(u[0] & 0x1f)
		if h265 {
			t = int(u[0] >> 1 & 0x3f)
		}
		switch {
		case h265 && t == 32:
			vps = u
		case h265 && t == 33, !h265 && t == 7:
			sps = u
		case h265 && t == 34, !h265 && t == 8:
			pps = u
		}
	}
	want := func(got, u []byte, what string) { v.Assert(v.EqBytes(got, withCode(u, 2)), what) }
	complete := sps != nil && pps != nil && (!h265 || vps != nil)
	var a, b, c []byte
	var err error
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
		a, b, c, err = hevc.ParseExtraDataFromKeyNALU(p)
	} else {
		b, c, err = avc.ParseExtraDataFromKeyNALU(p)
	}
	all, err2 := avformat.ExtractVideoExtraDataFromKeyFrame(id, p)
	v.Assert(v.EqBytes(p, orig), "input left alone")
	if !complete {
		v.Assert(err != nil && a == nil && b == nil && c == nil, "a missing kind is an error without partial result")
		v.Assert(err2 != nil && len(all) == 0, "no combined result either")
		v.Reach("missing")
		return
	}
	v.Assert(err == nil && err2 == nil, "all kinds present: no error")
	sets := [][]byte{sps, pps}
	if h265 {
		want(a, vps, "the last VPS")
		sets = [][]byte{vps, sps, pps}
	}
	want(b, sps, "the last SPS")
	want(c, pps, "the last PPS")
	v.Assert(v.EqBytes(all, concat(sets)), "combined extra data is VPS, SPS, PPS")
	v.Reach("found")
}

// C14_Units: streams of 0..3 units (thorough 4) of 1..3 arbitrary well-formed bytes with either start code, either codec.
func C14_Units() {
	n := v.Choose(maxLen(4, 5))
	var p []byte
	var units [][]byte
	for i := 0; i < n; i++ {
		u := nalUnit(1 + (v.Choose(2)+i)%3)
		p = append(p, withCode(u, 1+v.Choose(2))...)
		units = append(units, u)
	}
	checkExtract(v.Choose(2) == 1, p, units)
}

// C14_Order: the required kinds (each once or twice) in every order among up to 1 (thorough 2) other units
// of any type; sizes 1..40, bytes after the header at least 0x80.
func C14_Order() {
	h265 := v.Choose(2) == 1
	kinds := []int{7, 8}
	if h265 {
		kinds = []int{32, 33, 34}
	}
	n := len(kinds) + v.Choose(maxLen(2, 3))
	var p []byte
	var units [][]byte
	for i := 0; i < n; i++ {
		k := v.Choose(len(kinds) + 1)
		u := v.Bytes([]int{2, 40, 3, 1, 17}[i])
		for j := 1; j < len(u); j++ {
			u[j] |= 0x80
		}
		v.Assume(u[0] != 0)
		if k < len(kinds) {
			if h265 {
				u[0] = u[0]&0x81 | byte(kinds[k])<<1
			} else {
				u[0] = u[0]&0xe0 | byte(kinds[k])
			}
		}
		p = append(p, withCode(u, 1+(i+k)%2)...)
		units = append(units, u)
	}
	checkExtract(h265, p, units)
}

// unitsOf splits by the definition: a unit runs from after a start code to the next one. It branches.
func unitsOf(p []byte) (units [][]byte) {
	start := -1
	for i := 3; i < len(p); i++ {
		if !codeAt(p, i-3) {
			continue
		}
		if start >= 0 {
			end := i - 3
			if end > start && p[end-1] == 0 {
				end--
			}
			units = append(units, p[start:end])
		}
		start = i
	}
	if start >= 0 {
		units = append(units, p[start:])
	}
	return
}

// C14_Any: every byte string of length 4..13 (thorough 16) beginning with a start code, empty units included.
func C14_Any() {
	p := append(clone([][]byte{code3, code4}[v.Choose(2)]), v.Bytes(1+v.Choose(maxLen(9, 12)))...)
	checkExtract(v.Choose(2) == 1, p, unitsOf(p))
}

// C14_Streams: streams created from a key frame carry exactly the extracted parameter sets; key frames with SPS, PPS (and VPS)
// in either order after an access unit delimiter, other data after them.
func C14_Streams() {
	h265 := v.Choose(2) == 1
	var vps, sps, pps, p []byte
	aud := []byte{9, 0x10}
	if h265 {
		vps, sps, pps, aud = hevcUnit(32, 4), smallHEVCSPS(), hevcUnit(34, 3), []byte{70, 1, 0x50}
		wellFormed(vps)
	} else {
		sps, pps = smallAVCSPS(), append([]byte{0x68}, v.Bytes(2)...)
	}
	wellFormed(pps)
	list := [][]byte{aud, sps, pps}
	if v.Choose(2) == 1 {
		list = [][]byte{aud, pps, sps}
	}
	if h265 {
		list = append(list, vps)
	}
	slice := nalUnit(3)
	slice[0] = byte(0x65 - 0x3f*v.IteInt(h265, 1, 0))
	list = append(list, slice)
	for i, u := range list {
		p = append(p, withCode(u, 1+i%2)...)
	}
	index := v.Int()
	var s *avformat.AVStream
	var err error
	if h265 {
		s, err = avformat.CreateHevcStreamFromKeyFrame(p, index)
		v.Assert(err == nil && v.EqBytes(s.Data, concat([][]byte{vps, sps, pps})), "extra data is VPS, SPS, PPS")
		v.Assert(s.CodecID == utils.AVCodecIdH265, "codec")
	} else {
		s, err = avformat.CreateAVCStreamFromKeyFrame(p, index)
		v.Assert(err == nil && v.EqBytes(s.Data, concat([][]byte{sps, pps})), "extra data is SPS, PPS")
		v.Assert(s.CodecID == utils.AVCodecIdH264, "codec")
	}
	v.Assert(s.Index == index && s.MediaType == utils.AVMediaTypeVideo, "index and media type")
	sameUnits(s.CodecParameters.SPS(), [][]byte{sps}, "SPS of the codec data")
	sameUnits(s.CodecParameters.PPS(), [][]byte{pps}, "PPS of the codec data")
	v.Reach("done")
}

// smallAVCSPS is a baseline SPS of a symbolic size.
func smallAVCSPS() []byte {
	b := &avcBuilder{active: -1, def: 2}
	b.put(0x67, 8)
	b.put(66, 8)
	b.put(0xc0, 8)
	b.put(uint64(v.Byte()|1), 8)
	b.bitWriter.ue(0, 0)
	b.bitWriter.ue(2, v.Uint64())
	b.se(-1)
	b.bitWriter.ue(1, v.Uint64())
	b.flag()
	b.bitWriter.ue(4, v.Uint64())
	b.bitWriter.ue(4, v.Uint64())
	b.put(1, 1)
	b.flag()
	b.put(0, 2)
	b.put(1, 1)
	sps := b.bytes()
	wellFormed(sps)
	v.Assume(unescaped(sps))
	return sps
}

// smallHEVCSPS is a main profile SPS of a symbolic size.
func smallHEVCSPS() []byte {
	b := &hevcBuilder{}
	b.head0()
	b.bitWriter.ue(0, 0)
	b.put(2, 3)
	b.bitWriter.ue(10, v.Uint64())
	b.bitWriter.ue(10, v.Uint64())
	b.put(0, 1)
	b.tail(0, true)
	b.put(1, 1)
	sps := b.bytes()
	wellFormed(sps)
	v.Assume(unescaped(sps))
	return sps
}
