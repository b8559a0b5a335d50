package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// Calls must not depend on earlier calls, nor take results back that they gave out.

// filled returns n bytes of an earlier content.
func filled(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(0xA5 + i)
	}
	return b
}

// C06_Twice: two streams of 1..2 units of 1..2 bytes converted one after the other into buffers with other content, then the first
// again into the second's buffer.
func C06_Twice() {
	var streams, dsts, wants [][]byte
	for i := 0; i < 2; i++ {
		s, units := annexB(1+v.Choose(2), 2, false)
		var want []byte
		for _, u := range units {
			want = append(append(want, be32(len(u))...), u...)
		}
		streams, wants, dsts = append(streams, s), append(wants, want), append(dsts, filled(40))
	}
	for i := range streams {
		n := avc.AnnexB2AVCC(dsts[i], streams[i])
		v.Assert(n == len(wants[i]), "the size of each")
	}
	for i := range streams {
		v.Assert(v.EqBytes(dsts[i][:len(wants[i])], wants[i]), "the units of each")
	}
	n := avc.AnnexB2AVCC(dsts[1], streams[0])
	v.Assert(n == len(wants[0]) && v.EqBytes(dsts[1][:n], wants[0]), "the first again, over an earlier result")
	v.Assert(v.EqBytes(dsts[1][n:], filled(40)[n:]) || n < len(wants[1]), "nothing behind it")
	v.Reach("done")
}

// C07_Twice: a packet of two units and one of one unit, each with parameter sets of its own or without, converted one after the other by either
// converter, then the first again; the slice-level one into the same buffer.
func C07_Twice() {
	kind := v.Choose(2)
	buf := filled(40)
	w := bufio.NewBytesWriter(buf)
	dst := filled(40)
	run := func(data, extra, want []byte) {
		var got []byte
		if kind == 0 {
			got = dst[:avc.AVCC2AnnexB(dst, data, extra)]
		} else {
			w.Reset(buf)
			avc.Mp4ToAnnexB(w, data, extra)
			got = w.WrittenBytes()
		}
		v.Assert(v.EqBytes(got, want), "each packet converts as if it were the only one")
	}
	var datas, extras, wants [][]byte
	for i := 0; i < 2; i++ {
		data, units := lenPrefixed(2-i, 1, 2, 4)
		var extra []byte
		if v.Choose(2) == 1 {
			extra = v.Bytes(5)
		}
		datas, extras, wants = append(datas, data), append(extras, extra), append(wants, h264AnnexB(units, extra, kind == 1))
	}
	run(datas[0], extras[0], wants[0])
	run(datas[1], extras[1], wants[1])
	run(datas[0], extras[0], wants[0])
	v.Reach("done")
}

// C08_Twice: two packets of 1..2 units with length fields of 1..4 bytes, with or without parameter sets, or cut short, converted one
// after the other into the same buffer, then the first again.
func C08_Twice() {
	dst := filled(60)
	run := func(data, extra []byte, size int, units [][]byte, cut bool) {
		if cut {
			_, err := hevc.Mp4ToAnnexB(dst, data[:len(data)-1], extra, size)
			v.Assert(err != nil, "a packet cut short is rejected")
			return
		}
		n, err := hevc.Mp4ToAnnexB(dst, data, extra, size)
		want := h265AnnexB(units, extra)
		v.Assert(err == nil && n == len(want) && v.EqBytes(dst[:n], want), "each packet converts as if it were the only one")
	}
	var datas, extras [][]byte
	var units [][][]byte
	var sizes []int
	for i := 0; i < 2; i++ {
		size := []int{1, 2, 4}[v.Choose(3)]
		data, u := lenPrefixed(1+v.Choose(2), 2, 2, size)
		var extra []byte
		if v.Choose(2) == 1 {
			extra = v.Bytes(5)
		}
		datas, extras, units, sizes = append(datas, data), append(extras, extra), append(units, u), append(sizes, size)
	}
	cut := v.Choose(2) == 1
	run(datas[0], extras[0], sizes[0], units[0], cut)
	run(datas[1], extras[1], sizes[1], units[1], false)
	run(datas[0], extras[0], sizes[0], units[0], false)
	v.Reach("done")
}

// C13_Twice: two streams of 1..2 units of 1..2 bytes of either codec asked one after the other, then the first again; also after
// the first stream's bytes were replaced by the second's in the same memory.
func C13_Twice() {
	var ps, hs [][]byte
	var h265 []bool
	n := 1 + v.Choose(2)
	for i := 0; i < 2; i++ {
		var p, h []byte
		for k := 0; k < n; k++ {
			u := nalUnit(2)
			h = append(h, u[0])
			p = append(p, withCode(u, 1)...)
		}
		ps, hs, h265 = append(ps, p), append(hs, h), append(h265, v.Choose(2) == 1)
	}
	how := v.Choose(2)
	v.Assert(isKey(h265[0], how, ps[0]) == keyByHeaders(h265[0], hs[0]), "the first")
	v.Assert(isKey(h265[1], how, ps[1]) == keyByHeaders(h265[1], hs[1]), "the second")
	v.Assert(isKey(h265[0], how, ps[0]) == keyByHeaders(h265[0], hs[0]), "the first again")
	copy(ps[0], ps[1])
	v.Assert(isKey(h265[1], how, ps[0]) == keyByHeaders(h265[1], hs[1]), "other bytes in the same memory")
	v.Reach("done")
}

// C14_Twice: parameter sets taken from two key frames one after the other are those of each frame.
func C14_Twice() {
	h265 := v.Choose(2) == 1
	id, kinds := utils.AVCodecIdH264, []byte{0x67, 0x68}
	if h265 {
		id, kinds = utils.AVCodecIdH265, []byte{64, 66, 68}
	}
	build := func() (p []byte, sets [][]byte) {
		for _, k := range kinds {
			u := append([]byte{k}, v.Bytes(1+v.Choose(2))...)
			for i := 1; i < len(u); i++ {
				u[i] |= 0x80
			}
			sets = append(sets, u)
			p = append(p, withCode(u, 2)...)
		}
		return append(p, 0, 0, 1, 0x26, 1, 0x80), sets
	}
	p, a := build()
	q, b := build()
	first, err1 := avformat.ExtractVideoExtraDataFromKeyFrame(id, p)
	second, err2 := avformat.ExtractVideoExtraDataFromKeyFrame(id, q)
	v.Assert(err1 == nil && err2 == nil, "complete key frames")
	v.Assert(v.EqBytes(first, concat(a)) && v.EqBytes(second, concat(b)), "the sets of each")
	if !h265 {
		s1, p1, _ := avc.ParseExtraDataFromKeyNALU(p)
		s2, p2, _ := avc.ParseExtraDataFromKeyNALU(q)
		v.Assert(v.EqBytes(s1, withCode(a[0], 2)) && v.EqBytes(p1, withCode(a[1], 2)), "the first frame's sets")
		v.Assert(v.EqBytes(s2, withCode(b[0], 2)) && v.EqBytes(p2, withCode(b[1], 2)), "the second frame's sets")
	} else {
		v1, s1, p1, _ := hevc.ParseExtraDataFromKeyNALU(p)
		v2, s2, p2, _ := hevc.ParseExtraDataFromKeyNALU(q)
		v.Assert(v.EqBytes(v1, withCode(a[0], 2)) && v.EqBytes(s1, withCode(a[1], 2)) && v.EqBytes(p1, withCode(a[2], 2)), "the first frame's sets")
		v.Assert(v.EqBytes(v2, withCode(b[0], 2)) && v.EqBytes(s2, withCode(b[1], 2)) && v.EqBytes(p2, withCode(b[2], 2)), "the second frame's sets")
	}
	v.Reach("done")
}

// C15_Twice: two ADTS headers read and turned into configurations one after the other: each keeps its own fields and bytes, and a
// header written over another leaves nothing of it.
func C15_Twice() {
	var hs [2][]byte
	var as [2]utils.ADtsHeader
	var cs [2][]byte
	var is, chs [2]int
	for i := range hs {
		h := append([]byte{0xff, v.Byte() | 0xf0}, v.Bytes(7)...)
		is[i], chs[i] = []int{0, 4, 12}[v.Choose(3)], []int{0, 2, 7}[v.Choose(3)]
		h[2] = h[2]&0xc2 | byte(is[i])<<2 | byte(chs[i]>>2)
		h[2] = h[2]&0xfe | byte(chs[i]>>2)
		h[3] = h[3]&0x3f | byte(chs[i]&3)<<6
		hs[i] = h
	}
	for i := range hs {
		a, err := utils.ReadADtsFixedHeader(hs[i])
		v.Assert(err == nil, "a header with a sync word is read")
		c, err := utils.ADtsHeader2MpegAudioConfigData(a)
		v.Assert(err == nil, "a configuration")
		as[i], cs[i] = a, c
	}
	for i, h := range hs {
		f := func(bit, n int) int { return int(bitsSpec(h, bit, n)) }
		v.Assert(as[i].FrameLength() == f(30, 13) && as[i].Profile() == f(16, 2) && as[i].Frequency() == is[i] && as[i].Channel() == chs[i], "the fields of each header")
		c, err := utils.ParseMpeg4AudioConfig(cs[i])
		v.Assert(err == nil && c.ObjectType == f(16, 2)+1 && c.SampleRate == aacRates[is[i]] && c.Channels == aacChannels[chs[i]], "the configuration of each header")
	}
	utils.SetADtsHeader(hs[0], as[1].ID(), as[1].Profile(), is[1], chs[1], as[1].FrameLength())
	b, err := utils.ReadADtsFixedHeader(hs[0])
	v.Assert(err == nil && b.ID() == as[1].ID() && b.Profile() == as[1].Profile() && b.Frequency() == is[1] && b.Channel() == chs[1] &&
		b.FrameLength() == as[1].FrameLength(), "a header written over another")
	v.Reach("done")
}

// C04_Twice: two byte strings of 4..6 bytes searched one after the other, then the first again, then other bytes in its memory.
func C04_Twice() {
	p, q := v.Bytes(4+v.Choose(3)), v.Bytes(4+v.Choose(3))
	ask := func(x []byte) {
		at, _ := startSpec(x)
		i, _ := avc.FindStartCode(x)
		v.Assert(i == at || at < 0 && i < 0, "the first start code of each")
	}
	ask(p)
	ask(q)
	ask(p)
	copy(p, q)
	ask(p)
	v.Reach("done")
}

// C05_Nested: splitting another stream from within the function given to a split disturbs neither.
func C05_Nested() {
	p, units := annexB(1+v.Choose(2), 2, false)
	q, inner := annexB(1+v.Choose(2), 2, false)
	k := 0
	avc.SplitNalU(p, func(a []byte) {
		j := 0
		avc.SplitNalU(q, func(b []byte) {
			v.Assert(j < len(inner) && v.EqBytes(avc.RemoveStartCode(b), inner[j]), "the inner units")
			j++
		})
		v.Assert(j == len(inner), "all inner units")
		v.Assert(k < len(units) && v.EqBytes(avc.RemoveStartCode(a), units[k]), "the outer units")
		k++
	})
	v.Assert(k == len(units), "all outer units")
	v.Reach("done")
}
