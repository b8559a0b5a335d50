package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"

	"verif/harness/v"
)

// describes asserts that the codec data is about exactly these parameter sets, and asks everything twice.
func describes(c avformat.CodecData, h265 bool, vps, sps, pps [][]byte, w, h int) {
	for i := 0; i < 2; i++ {
		v.Assert(v.And(c.Width() == w, c.Height() == h), "dimensions of the SPS")
		sameSets(c.SPS(), sps, "SPS")
		sameSets(c.PPS(), pps, "PPS")
		if h265 {
			sameSets(c.(*avformat.HEVCCodecData).VPS(), vps, "VPS")
		}
		v.Assert(v.EqBytes(canonical(c.AnnexBExtraData()), concat(vps, sps, pps)), "Annex-B rendering")
		rec := c.MP4ExtraData()
		if h265 {
			var r hevc.HEVCDecoderConfigurationRecord
			v.Assert(r.Unmarshal(rec) == nil, "the configuration record parses")
			sameUnits(r.VPSList, vps, "VPS of the record")
			sameUnits(r.SPSList, sps, "SPS of the record")
			sameUnits(r.PPSList, pps, "PPS of the record")
		} else {
			var r avc.AVCDecoderConfigurationRecord
			v.Assert(r.Unmarshal(rec) == nil, "the configuration record parses")
			sameUnits(r.SPSList, sps, "SPS of the record")
			sameUnits(r.PPSList, pps, "PPS of the record")
		}
	}
}

// sameSets compares up to the start code.
func sameSets(got, want [][]byte, msg string) {
	v.Assert(len(got) == len(want), msg+": number")
	for i := range want {
		v.Assert(v.EqBytes(avc.RemoveStartCode(got[i]), want[i]), msg+": bytes")
	}
}

// canonical puts a four-byte start code before every unit of a well-formed stream.
func canonical(p []byte) []byte {
	return concat(unitsOf(p))
}

func plainPPS(h265 bool, n int) []byte {
	u := v.Bytes(n)
	if h265 {
		u[0] = u[0]&0x81 | 34<<1
	} else {
		u[0] = u[0]&0x60 | 8
	}
	wellFormed(u)
	return u
}

// fixedSPS is a valid SPS with its cropped dimensions: 640x480 for H.264, 416x240 for H.265, or another of 2 sizes.
func fixedSPS(h265 bool, which int) (sps []byte, w, h int) {
	b := &bitWriter{}
	if h265 {
		b.put(0x4201, 16)
		b.put(0, 4)
		b.put(0, 3)
		b.put(1, 1)
		b.put(1, 8) // profile, tier and level
		b.put(0x60808080, 32)
		b.put(0x908080808080, 48)
		b.put(93, 8)
		b.ueOf(0)
		b.ueOf(1)
		w, h = []int{416, 1920, 8}[which], []int{240, 1088, 16}[which]
		b.ueOf(uint64(w))
		b.ueOf(uint64(h))
		if which == 1 {
			b.put(1, 1)
			for _, x := range []uint64{0, 0, 0, 4} {
				b.ueOf(x)
			}
			h = 1080
		} else {
			b.put(0, 1)
		}
		for _, x := range []uint64{0, 0, 4} {
			b.ueOf(x)
		}
		b.put(1, 1)
		for i := 0; i < 9; i++ {
			b.ueOf(uint64(i % 3))
		}
		b.put(0xffff, 16)
		return b.bytes(), w, h
	}
	b.put(0x6742c01f, 32)
	for _, x := range []uint64{0, 0, 2, 1} {
		b.ueOf(x)
	}
	b.put(0, 1)
	w, h = []int{640, 1920, 16}[which], []int{480, 1088, 32}[which]
	b.ueOf(uint64(w/16 - 1))
	b.ueOf(uint64(h/16 - 1))
	b.put(3, 2)
	if which == 1 {
		b.put(1, 1)
		for _, x := range []uint64{0, 0, 0, 4} {
			b.ueOf(x)
		}
		h = 1080
	} else {
		b.put(0, 1)
	}
	b.put(1, 2)
	return b.bytes(), w, h
}

func newCodecData(h265 bool, vps, sps, pps []byte) (avformat.CodecData, error) {
	if h265 {
		return avformat.NewHEVCCodecData(vps, sps, pps)
	}
	return avformat.NewAVCCodecData(sps, pps)
}

func parseRecord(h265 bool, rec []byte) (avformat.CodecData, error) {
	if h265 {
		return avformat.ParseHEVCDecoderConfigurationRecord(rec)
	}
	return avformat.ParseAVCDecoderConfigurationRecord(rec)
}

// C27_FromSets: codec data from one SPS of 3 sizes, an arbitrary PPS of 2..4 bytes (and VPS of 2..3), each with a three- or
// four-byte start code; and from the renderings again.
func C27_FromSets() {
	h265 := v.Choose(2) == 1
	sps, w, h := fixedSPS(h265, v.Choose(3))
	pps := plainPPS(h265, 2+v.Choose(3))
	var vps []byte
	var vl [][]byte
	if h265 {
		vps = hevcUnit(32, 2+v.Choose(2))
		wellFormed(vps)
		vl = [][]byte{vps}
	}
	form := v.Choose(2)
	c, err := newCodecData(h265, withCode(vps, 1+form), withCode(sps, 2-form), withCode(pps, 1+v.Choose(2)))
	v.Assert(err == nil, "valid parameter sets are accepted")
	sl, pl := [][]byte{sps}, [][]byte{pps}
	describes(c, h265, vl, sl, pl, w, h)
	d, err := parseRecord(h265, c.MP4ExtraData())
	v.Assert(err == nil, "the record builds codec data")
	describes(d, h265, vl, sl, pl, w, h)
	var a, b, e []byte
	if h265 {
		a, b, e, err = hevc.ParseExtraDataFromKeyNALU(c.AnnexBExtraData())
	} else {
		b, e, err = avc.ParseExtraDataFromKeyNALU(c.AnnexBExtraData())
	}
	v.Assert(err == nil, "the Annex-B rendering holds the sets")
	d, err = newCodecData(h265, a, b, e)
	v.Assert(err == nil, "and builds codec data")
	describes(d, h265, vl, sl, pl, w, h)
	v.Reach("done")
}

// C27_FromRecord: codec data from records with 1..2 SPS and 1..3 PPS (and 1..2 VPS, arrays in either order) and arbitrary
// header bytes; the dimensions are those of the first SPS.
func C27_FromRecord() {
	h265 := v.Choose(2) == 1
	which := v.Choose(3)
	sps, w, h := fixedSPS(h265, which)
	sl := [][]byte{sps}
	if v.Choose(2) == 1 {
		other, _, _ := fixedSPS(h265, (which+1)%3)
		sl = append(sl, other)
	}
	var vl, pl [][]byte
	for i, n := 0, 1+v.Choose(3); i < n; i++ {
		pl = append(pl, plainPPS(h265, 2+i))
	}
	var rec []byte
	if h265 {
		for i, n := 0, 1+v.Choose(2); i < n; i++ {
			u := hevcUnit(32, 3-i)
			wellFormed(u)
			vl = append(vl, u)
		}
		arrays := []hevcArray{{32, vl}, {33, sl}, {34, pl}}
		if v.Choose(2) == 1 {
			arrays = []hevcArray{{34, pl}, {33, sl}, {32, vl}}
		}
		rec = hevcRecord(arrays)
	} else {
		rec = avcRecord(sl, pl)
	}
	orig := clone(rec)
	c, err := parseRecord(h265, rec)
	v.Assert(err == nil, "a valid record is accepted")
	describes(c, h265, vl, sl, pl, w, h)
	v.Assert(v.EqBytes(rec, orig), "the record is left alone")
	d, err := parseRecord(h265, c.MP4ExtraData())
	v.Assert(err == nil, "its rendering builds codec data")
	describes(d, h265, vl, sl, pl, w, h)
	v.Reach("done")
}

// C27_Literal: codec data that an application puts together around a record, as a value or by reference: a parsed one, or one
// with lists of its own, of 0..2 SPS, 1..2 PPS (and VPS), each with start code.
func C27_Literal() {
	h265 := v.Choose(2) == 1
	var vl, sl, pl [][]byte
	for i, n := 0, v.Choose(3); i < n; i++ {
		u, _, _ := fixedSPS(h265, i)
		sl = append(sl, u)
	}
	for i, n := 0, 1+v.Choose(2); i < n; i++ {
		pl = append(pl, plainPPS(h265, 3-i))
	}
	coded := func(l [][]byte) (r [][]byte) {
		for _, u := range l {
			r = append(r, withCode(u, 2))
		}
		return r
	}
	var c avformat.CodecData
	if h265 {
		for i, n := 0, 1+v.Choose(2); i < n; i++ {
			u := hevcUnit(32, 2+i)
			wellFormed(u)
			vl = append(vl, u)
		}
		r := &hevc.HEVCDecoderConfigurationRecord{}
		if len(sl) > 0 && v.Choose(2) == 1 {
			v.Assert(r.Unmarshal(hevcRecord([]hevcArray{{32, vl}, {33, sl}, {34, pl}})) == nil, "a valid record is accepted")
		} else {
			r.VPSList, r.SPSList, r.PPSList = coded(vl), coded(sl), coded(pl)
		}
		c = &avformat.HEVCCodecData{Record: r}
	} else {
		r := &avc.AVCDecoderConfigurationRecord{}
		if len(sl) > 0 && v.Choose(2) == 1 {
			v.Assert(r.Unmarshal(avcRecord(sl, pl)) == nil, "a valid record is accepted")
		} else {
			r.SPSList, r.PPSList = coded(sl), coded(pl)
		}
		c = &avformat.AVCCodecData{Record: r}
	}
	if len(sl) == 0 {
		// no record without SPS; the Annex-B rendering is the sets there are
		v.Assert(v.EqBytes(canonical(c.AnnexBExtraData()), concat(vl, sl, pl)), "Annex-B rendering")
		v.Reach("no SPS")
		return
	}
	describes(c, h265, vl, sl, pl, 0, 0)
	v.Reach("done")
}

// C27_Symbolic: codec data from SPS with symbolic dimensions, sub-fields and formats (the small SPS of C14).
func C27_Symbolic() {
	h265 := v.Choose(2) == 1
	pps := plainPPS(h265, 2)
	var vps []byte
	var sps []byte
	var vl [][]byte
	w, h := 0, 0
	if h265 {
		vps = []byte{0x40, 1, 0x80}
		vl = [][]byte{vps}
		sps = smallHEVCSPS()
		s, err := hevc.ParseSPS(sps)
		v.Assume(err == nil)
		w, h = s.Width, s.Height
	} else {
		sps = smallAVCSPS()
		s, err := avc.ParseSPS(sps)
		v.Assume(err == nil)
		w, h = s.Width, s.Height
	}
	c, err := newCodecData(h265, withCode(vps, 2), withCode(sps, 2), withCode(pps, 2))
	v.Assert(err == nil, "valid parameter sets are accepted")
	v.Assert(v.And(c.Width() == w, c.Height() == h), "dimensions of the SPS")
	v.Assert(v.EqBytes(c.AnnexBExtraData(), concat(vl, [][]byte{sps}, [][]byte{pps})), "Annex-B rendering")
	d, err := parseRecord(h265, c.MP4ExtraData())
	v.Assert(err == nil, "the record builds codec data")
	v.Assert(v.And(d.Width() == w, d.Height() == h), "the same dimensions")
	v.Assert(v.EqBytes(d.AnnexBExtraData(), c.AnnexBExtraData()), "the same Annex-B rendering")
	v.Assert(v.EqBytes(d.MP4ExtraData(), c.MP4ExtraData()), "the same record")
	v.Reach("done")
}

// C27_Invalid: SPS cut anywhere before their dimensions are complete, through both construction routes, and records cut
// anywhere, are rejected with an error and no codec data.
func C27_Invalid() {
	h265 := v.Choose(2) == 1
	sps, _, _ := fixedSPS(h265, 0)
	pps := plainPPS(h265, 2)
	vps := []byte{0x40, 1, 0x80}
	if v.Choose(2) == 0 {
		// the dimensions end at bit 8*(len-3) or later
		cut := sps[:v.Choose(len(sps)-4)]
		c, err := newCodecData(h265, withCode(vps, 2), withCode(cut, 2), withCode(pps, 2))
		v.Assert(err != nil && c == nil, "an SPS that ends early is rejected")
		if h265 {
			c, err = parseRecord(h265, hevcRecord([]hevcArray{{32, [][]byte{vps}}, {33, [][]byte{cut}}, {34, [][]byte{pps}}}))
		} else {
			c, err = parseRecord(h265, avcRecord([][]byte{cut}, [][]byte{pps}))
		}
		v.Assert(err != nil && c == nil, "also in a record")
		v.Reach("cut SPS")
		return
	}
	var rec []byte
	if h265 {
		rec = hevcRecord([]hevcArray{{32, [][]byte{vps}}, {33, [][]byte{sps}}, {34, [][]byte{pps}}})
	} else {
		rec = avcRecord([][]byte{sps}, [][]byte{pps})
	}
	c, err := parseRecord(h265, rec[:v.Choose(len(rec))])
	v.Assert(err != nil && c == nil, "a record that ends early is rejected")
	v.Reach("cut record")
}

// C27_Alias: parameter sets handed over as neighbouring parts of one buffer, with room behind them, and a record likewise: building
// codec data and asking for everything leaves the buffer alone, and appending to a rendering changes neither it nor the description.
func C27_Alias() {
	h265 := v.Choose(2) == 1
	sps, w, h := fixedSPS(h265, v.Choose(3))
	pps := plainPPS(h265, 2+v.Choose(2))
	var vl [][]byte
	sl, pl := [][]byte{sps}, [][]byte{pps}
	var vps []byte
	if h265 {
		vps = []byte{0x40, 1, 0x80}
		vl = [][]byte{vps}
	}
	order := v.Choose(3)
	buf := make([]byte, 0, 200)
	place := func(u []byte) (lo, hi int) {
		lo = len(buf)
		buf = append(buf, u...)
		return lo, len(buf)
	}
	var c avformat.CodecData
	var err error
	if order < 2 {
		var at [3][2]int
		units := [][]byte{vps, sps, pps}
		for i := 0; i < 3; i++ {
			k := i
			if order == 1 {
				k = 2 - i
			}
			at[k][0], at[k][1] = place(withCode(units[k], 2))
			place(v.Bytes(1))
		}
		for len(buf) < cap(buf) {
			buf = append(buf, 0xee)
		}
		orig := clone(buf)
		c, err = newCodecData(h265, buf[at[0][0]:at[0][1]], buf[at[1][0]:at[1][1]], buf[at[2][0]:at[2][1]])
		v.Assert(err == nil, "valid parameter sets are accepted")
		describes(c, h265, vl, sl, pl, w, h)
		v.Assert(v.EqBytes(buf, orig), "the caller's memory is left alone")
	} else {
		rec := avcRecord(sl, pl)
		if h265 {
			rec = hevcRecord([]hevcArray{{32, vl}, {33, sl}, {34, pl}})
		}
		place(v.Bytes(3))
		lo, hi := place(rec)
		for len(buf) < cap(buf) {
			buf = append(buf, 0xee)
		}
		orig := clone(buf)
		c, err = parseRecord(h265, buf[lo:hi])
		v.Assert(err == nil, "a valid record is accepted")
		describes(c, h265, vl, sl, pl, w, h)
		v.Assert(v.EqBytes(buf, orig), "the caller's memory is left alone")
	}
	_ = append(c.AnnexBExtraData(), 1, 2, 3, 4, 5, 6, 7, 8)
	describes(c, h265, vl, sl, pl, w, h)
	v.Reach("done")
}

// C27_Two: two codec data objects built one after the other, each from parameter sets or from a record, of the same or different codecs,
// with the same or different SPS and arbitrary PPS: neither description depends on the other object.
func C27_Two() {
	type obj struct {
		h265       bool
		vl, sl, pl [][]byte
		w, h       int
		c          avformat.CodecData
	}
	build := func(h265 bool, which int) (o obj) {
		sps, w, h := fixedSPS(h265, which)
		o = obj{h265: h265, sl: [][]byte{sps}, pl: [][]byte{plainPPS(h265, 2)}, w: w, h: h}
		var vps []byte
		if h265 {
			vps = []byte{0x40, 1, 0x80 | v.Byte()}
			o.vl = [][]byte{vps}
		}
		var err error
		if v.Choose(2) == 0 {
			o.c, err = newCodecData(h265, withCode(vps, 2), withCode(sps, 2), withCode(o.pl[0], 2))
		} else if h265 {
			o.c, err = parseRecord(true, hevcRecord([]hevcArray{{32, o.vl}, {33, o.sl}, {34, o.pl}}))
		} else {
			o.c, err = parseRecord(false, avcRecord(o.sl, o.pl))
		}
		v.Assert(err == nil, "valid parameter sets are accepted")
		return
	}
	a := build(v.Choose(2) == 1, 0)
	if v.Choose(2) == 1 {
		describes(a.c, a.h265, a.vl, a.sl, a.pl, a.w, a.h)
	}
	b := build(v.Choose(2) == 1, v.Choose(2))
	describes(b.c, b.h265, b.vl, b.sl, b.pl, b.w, b.h)
	describes(a.c, a.h265, a.vl, a.sl, a.pl, a.w, a.h)
	v.Reach("done")
}
