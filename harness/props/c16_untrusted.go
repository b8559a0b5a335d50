package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// Panics, accesses out of bounds and paths that do not end within the step budget are violations wherever they happen; these
// harnesses call every entry point and check that its input is unchanged afterwards.

// untouched runs f, which gets p, and checks that p is the same afterwards.
func untouched(p []byte, f func(p []byte)) {
	keep := clone(p)
	f(p)
	v.Assert(v.EqBytes(p, keep), "the input is unchanged")
}

// inside is whether p is part of mem or empty.
func inside(mem, p []byte) bool { return len(p) == 0 || v.Overlap(mem, p) }

// C16_Stream: every byte string of length 0..9 (thorough 14) goes to start-code search, splitting, prefix removal, key-frame detection,
// and conversion to length-prefixed form.
func C16_Stream() {
	v.Steps(60000)
	p := v.Bytes(v.Choose(maxLen(10, 15)))
	streamUsers(v.Choose(6), p)
	v.Reach("done")
}

func streamUsers(which int, p []byte) {
	switch which {
	case 0:
		untouched(p, func(p []byte) {
			i, n := avc.FindStartCode(p)
			v.Assert(v.And(i < len(p), v.Implies(i >= 0, v.And(n >= 3, i >= n))), "a start code inside the data")
			v.Assert(avc.FindStartCode2(p) < len(p), "inside the data")
		})
	case 1:
		untouched(p, func(p []byte) {
			r := bufio.NewBytesReader(p)
			for avc.FindStartCodeWithReader(r) >= 0 {
				v.Assert(v.And(r.Offset() > 3, r.Offset() <= len(p)), "inside the data")
			}
		})
	case 2:
		untouched(p, func(p []byte) {
			avc.SplitNalU(p, func(u []byte) { v.Assert(inside(p, avc.RemoveStartCode(u)), "inside the data") })
			v.Assert(inside(p, avc.RemoveStartCode(p)), "inside the data")
		})
	case 3:
		untouched(p, func(p []byte) { avc.IsKeyFrame(p) })
		untouched(p, func(p []byte) { avformat.IsKeyFrame(utils.AVCodecIdH264, p) })
	case 4:
		untouched(p, func(p []byte) { hevc.IsKeyFrame(p) })
		untouched(p, func(p []byte) { avformat.IsKeyFrame(utils.AVCodecIdH265, p) })
	case 5:
		untouched(p, func(p []byte) {
			dst := make([]byte, 2*len(p)+4)
			n := avc.AnnexB2AVCC(dst, p)
			v.Assert(v.And(n >= 0, n <= len(dst)), "fits")
		})
	}
}

// C16_LengthPrefixed: every byte string of length 0..11 (thorough 15), and every first length field before 0..3 more bytes, goes to the
// three conversions to Annex-B, with every length-field size and with or without parameter sets.
func C16_LengthPrefixed() {
	v.Steps(60000)
	p := v.Bytes(v.Choose(maxLen(12, 16)))
	var extra []byte
	if v.Choose(2) == 1 {
		extra = v.Bytes(3)
	}
	lengthUsers(v.Choose(6), p, extra)
	v.Reach("done")
}

func lengthUsers(k int, p, extra []byte) {
	dst := make([]byte, 2*len(p)+9+len(extra))
	switch k {
	case 0:
		untouched(p, func(p []byte) {
			n := avc.AVCC2AnnexB(dst, p, extra)
			v.Assert(v.And(n >= 0, n <= len(dst)), "fits")
		})
	case 1:
		untouched(p, func(p []byte) {
			w := bufio.NewBytesWriter(dst)
			avc.Mp4ToAnnexB(w, p, extra)
			v.Assert(w.Offset() <= len(dst), "fits")
		})
	default:
		untouched(p, func(p []byte) {
			n, err := hevc.Mp4ToAnnexB(dst, p, extra, k-1)
			v.Assert(v.Or(err != nil, v.And(n >= 0, n <= len(dst))), "fits")
		})
	}
}

// C16_AAC: every byte string of length 0..12 as ADTS header, audio configuration or audio packet of every kind of codec.
func C16_AAC() {
	audioUsers(v.Bytes(v.Choose(13)))
	v.Reach("done")
}

func audioUsers(p []byte) {
	switch v.Choose(4) {
	case 0:
		untouched(p, func(p []byte) {
			if h, err := utils.ReadADtsFixedHeader(p); err == nil {
				c, err := utils.ADtsHeader2MpegAudioConfigData(h)
				v.Assert(err != nil || len(c) == 2, "a configuration or an error")
				v.Reach("header")
			}
		})
	case 1:
		untouched(p, func(p []byte) {
			c, err := utils.ParseMpeg4AudioConfig(p)
			v.Assert((c == nil) == (err != nil), "a result or an error")
		})
	case 2:
		id := utils.AVCodecID(v.Int())
		untouched(p, func(p []byte) {
			_, skip, _, err := avformat.ExtractAudioExtraData(id, p)
			v.Assert(v.Or(err != nil, v.And(skip >= 0, skip <= 9)), "header size")
		})
	case 3:
		id, adts := utils.AVCodecID(v.Int()), v.Bool()
		untouched(p, func(p []byte) {
			q, err := avformat.ExtractAudioPacket(id, p, v.Int64(), v.Int(), v.Int(), adts)
			v.Assert(v.Or(err != nil, q != nil), "a packet or an error")
		})
	}
}

func avcRecordUsers(which int, p []byte) {
	untouched(p, func(p []byte) {
		switch which {
		case 0:
			r := avc.AVCDecoderConfigurationRecord{}
			if r.Unmarshal(p) == nil {
				r.Marshal(r.SPSList, r.PPSList)
			}
		case 1:
			avc.ExtraDataToAnnexB(p)
		case 2:
			avc.M4VCExtraDataToAnnexB(p)
		case 3:
			r, s, err := avc.NewCodecDataFromAVCDecoderConfigurationRecord(p)
			v.Assert((err != nil) == (r == nil) && (err != nil) == (s == nil), "a result or an error")
		case 4:
			if c, err := avformat.ParseAVCDecoderConfigurationRecord(p); err == nil {
				useCodecData(c)
			}
		}
	})
}

func hevcRecordUsers(which int, p []byte) {
	untouched(p, func(p []byte) {
		switch which {
		case 0:
			r := hevc.HEVCDecoderConfigurationRecord{}
			if r.Unmarshal(p) == nil {
				r.Marshal(r.VPSList, r.SPSList, r.PPSList)
			}
		case 1:
			hevc.ExtraDataToAnnexB(p)
		case 3:
			r, s, err := hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(p)
			v.Assert((err != nil) == (r == nil) && (err != nil) == (s == nil), "a result or an error")
		case 4:
			if c, err := avformat.ParseHEVCDecoderConfigurationRecord(p); err == nil {
				useCodecData(c)
			}
		}
	})
}

func useCodecData(c avformat.CodecData) {
	v.Assert(c != nil, "a result or an error")
	c.Width()
	c.Height()
	c.AnnexBExtraData()
	c.MP4ExtraData()
	c.SPS()
	c.PPS()
}

// C16_AVCRecord: H.264 configuration records of 0..13 (thorough 15) arbitrary bytes through every user of records. SPS inside have at
// most four bytes here, so none is complete (C16_AVCRecordChanged).
func C16_AVCRecord() {
	n := v.Choose(maxLen(14, 16))
	p := v.Bytes(n)
	which := v.Choose(5)
	if n > 5 && which >= 3 {
		v.Assume(p[5]&0x1f <= 2)
	}
	if n > 7 && which >= 3 {
		v.Assume(v.Or(p[6] != 0, p[7] <= 4, int(p[7]) > n-8))
	}
	avcRecordUsers(which, p)
	v.Reach("done")
}

// C16_HEVCRecord: H.265 records of 0..31 (thorough 34) bytes, the array count and everything after it arbitrary.
func C16_HEVCRecord() {
	n := v.Choose(maxLen(32, 35))
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(i)
		if i == 1 || i == 12 || i >= 21 {
			p[i] = v.Byte()
		}
	}
	hevcRecordUsers([]int{0, 1, 3, 4}[v.Choose(4)], p)
	v.Reach("done")
}

// change makes up to two bytes of p arbitrary (the second one at most `near` after the first) and cuts p anywhere after them.
func change(p []byte, from, near int) []byte {
	p = clone(p)
	k := from + v.Choose(len(p)-from)
	p[k] = v.Byte()
	if near > 0 {
		if d := v.Choose(near + 1); d > 0 && k+d < len(p) {
			p[k+d] = v.Byte()
		}
	}
	switch v.Choose(3) {
	case 0:
		return p
	case 1:
		if k+1 < len(p) {
			return p[:k+1]
		}
	case 2:
		return p[:len(p)-1]
	}
	return p
}

func fixedRecord(h265 bool) []byte {
	sps, _, _ := fixedSPS(h265, 0)
	if h265 {
		return hevcRecord([]hevcArray{{32, [][]byte{{0x40, 1, 0x80}}}, {33, [][]byte{sps}}, {34, [][]byte{{0x44, 1, 0xc0}, {0x44, 1, 0xe0}}}})
	}
	return avcRecord([][]byte{sps}, [][]byte{{0x68, 0xce, 0x80}, {0x68, 0xee, 0x80}})
}

// C16_AVCRecordChanged, C16_HEVCRecordChanged: a valid record with any one byte (thorough: any two neighbours) replaced by an arbitrary
// value, whole, cut behind it, or without its last byte, through every user of records.
func C16_AVCRecordChanged() {
	p := change(fixedRecord(false), 0, maxLen(0, 1))
	avcRecordUsers(v.Choose(5), p)
	v.Reach("done")
}

func C16_HEVCRecordChanged() {
	p := change(fixedRecord(true), 21, maxLen(0, 1))
	hevcRecordUsers([]int{0, 1, 3, 4}[v.Choose(4)], p)
	v.Reach("done")
}

// C16_SPSChanged: valid H.264 (baseline; high with scaling lists; with VUI) and H.265 SPS with any one byte replaced by an arbitrary
// value, cut anywhere: a result or an error.
func C16_SPSChanged() {
	h265 := v.Choose(2) == 1
	var p []byte
	if h265 {
		p = fullHEVCSPS([]uint64{0, 2}[v.Choose(2)])
	} else {
		p = fullAVCSPS(v.Choose(4))
	}
	k := v.Choose(len(p))
	p[k] = v.Byte()
	if v.Choose(2) == 1 {
		p = p[:k+1]
	}
	v.Assume(v.Or(!h265, unescaped(p)))
	untouched(p, func(p []byte) { parseSPS(h265, p) })
	v.Reach("done")
}

func parseSPS(h265 bool, p []byte) {
	if h265 {
		hevc.ParseSPS(p)
	} else {
		avc.ParseSPS(p)
	}
}

// fullAVCSPS is a fixed SPS: baseline, with picture order cycle, high with scaling lists, or with VUI.
func fullAVCSPS(kind int) []byte {
	b := &bitWriter{}
	profile := uint64(66)
	if kind == 2 {
		profile = 100
	}
	for _, x := range []uint64{0x67, profile, 0xc0, 0x1e} {
		b.put(x, 8)
	}
	b.ueOf(0)
	if kind == 2 {
		b.ueOf(1)
		b.ueOf(0)
		b.ueOf(0)
		b.put(1, 2)
		b.put(0x81, 8) // lists 0 and 7
		// filled below bit by bit: list 0 stops at once, list 7 after one value
	}
	b.ueOf(2)
	if kind == 1 {
		b.ueOf(1)
		b.put(0, 1)
		b.ueOf(3)
		b.ueOf(4)
		b.ueOf(3)
		b.ueOf(1)
		b.ueOf(2)
		b.ueOf(0)
	} else {
		b.ueOf(0)
		b.ueOf(4)
	}
	b.ueOf(3)
	b.put(0, 1)
	b.ueOf(39)
	b.ueOf(29)
	b.put(3, 2)
	b.put(1, 1)
	for _, x := range []uint64{1, 2, 3, 4} {
		b.ueOf(x)
	}
	if kind == 3 {
		b.put(1, 1)
		b.put(1, 1)
		b.put(255, 8)
		b.put(16, 16)
		b.put(11, 16)
		b.put(3, 2)
		b.put(1, 1)
		b.put(5, 3)
		b.put(3, 2)
		b.put(1, 8)
		b.put(1, 8)
		b.put(1, 8)
		b.put(1, 1)
		b.ueOf(1)
		b.ueOf(2)
		b.put(1, 1)
		b.put(0x01010101, 32)
		b.put(0x02020202, 32)
		b.put(1, 1)
	} else {
		b.put(0, 1)
	}
	b.put(0x80, 8)
	return b.bytes()
}

// fullHEVCSPS is a fixed SPS with n+1 sub-layers, of which the first has profile and level data.
func fullHEVCSPS(n uint64) []byte {
	b := &bitWriter{}
	for _, x := range []uint64{0x42, 1, 1 | n<<1, 1, 0x60, 1, 2, 3, 0x90, 4, 5, 6, 7, 8, 93} {
		b.put(x, 8)
	}
	if n > 0 {
		b.put(3, 2)
		b.put(0, 14)
		for i := uint64(0); i < 12; i++ {
			b.put(i+1, 8)
		}
	}
	for _, x := range []uint64{0, 1, 1920, 1080} {
		b.ueOf(x)
	}
	b.put(1, 1)
	for _, x := range []uint64{1, 2, 3, 4, 0, 0, 4} {
		b.ueOf(x)
	}
	b.put(1, 1)
	for i := uint64(0); i <= n; i++ {
		b.ueOf(4)
		b.ueOf(2)
		b.ueOf(3)
	}
	for _, x := range []uint64{0, 3, 0, 3, 0, 0} {
		b.ueOf(x)
	}
	b.put(1, 8)
	return b.bytes()
}

// C16_SPSAny: every H.264 SPS of 0..6 arbitrary bytes (thorough 7; any profile) without and with a start code, and every H.265 SPS
// with at most one arbitrary byte in its general profile data and 0..2 (thorough 3) arbitrary bytes after the level.
func C16_SPSAny() {
	v.Steps(200000)
	h265 := v.Choose(2) == 1
	var p []byte
	if h265 {
		b := &hevcBuilder{}
		b.head0()
		p = b.bytes()
		p[2] = p[2]&0xf1 | byte(v.Choose(8))<<1
		p = append(p, v.Bytes(v.Choose(maxLen(3, 4)))...)
		v.Assume(unescaped(p))
	} else {
		p = v.Bytes(v.Choose(maxLen(7, 8)))
		if len(p) > 5 {
			v.Assume(unescaped(p))
		}
	}
	untouched(p, func(p []byte) { parseSPS(h265, withCode(p, v.Choose(2))) })
	v.Reach("done")
}

// C16_SPSHuge: an H.264 SPS announcing a picture order cycle of any number up to 2^32 of entries, or scaling lists of any steps, and
// then ending after 2 more bytes: an error (unless the announced contents fit) after a bounded number of steps.
func C16_SPSHuge() {
	v.Steps(400000)
	b := &bitWriter{}
	kind := v.Choose(2)
	many := false
	for _, x := range []uint64{0x67, []uint64{66, 100}[kind], 0xc0, 0x1e} {
		b.put(x, 8)
	}
	b.ueOf(0)
	if kind == 0 {
		b.ueOf(0)
		b.ueOf(1)
		b.put(7, 3)
		k := v.Choose(33)
		b.ue(k, v.Uint64())
		b.put(v.Uint64()|0xf0f0, 16)
		many = k > 4
	} else {
		b.put(7, 3)
		b.put(1, 2) // scaling matrix
		b.put(0, v.Choose(8))
		b.put(1, 1)
		b.ue(v.Choose(8), v.Uint64())
		b.ue(v.Choose(4), v.Uint64())
		b.put(0x7fff, 15)
	}
	p := b.bytes()
	v.Assume(unescaped(p))
	untouched(p, func(p []byte) {
		_, err := avc.ParseSPS(p)
		v.Assert(err != nil || !many, "an SPS that ends early is rejected")
	})
	v.Reach("done")
}

// C16_Extract: every byte string of length 0..9 (thorough 13) as a key frame, either codec: extraction and stream creation.
func C16_Extract() {
	v.Steps(200000)
	p := v.Bytes(v.Choose(maxLen(10, 14)))
	h265, how := v.Choose(2) == 1, v.Choose(3)
	untouched(p, func(p []byte) { extractUsers(h265, how, p) })
	v.Reach("done")
}

func extractUsers(h265 bool, how int, p []byte) {
	switch {
	case how == 0 && h265:
		a, b, c, err := hevc.ParseExtraDataFromKeyNALU(p)
		v.Assert((err == nil) == (a != nil && b != nil && c != nil), "a result or an error")
	case how == 0:
		a, b, err := avc.ParseExtraDataFromKeyNALU(p)
		v.Assert((err == nil) == (a != nil && b != nil), "a result or an error")
	case how == 1 && h265:
		s, err := avformat.CreateHevcStreamFromKeyFrame(p, 1)
		v.Assert((err == nil) == (s != nil), "a result or an error")
	case how == 1:
		s, err := avformat.CreateAVCStreamFromKeyFrame(p, 1)
		v.Assert((err == nil) == (s != nil), "a result or an error")
	default:
		id := utils.AVCodecIdH264
		if h265 {
			id = utils.AVCodecIdH265
		}
		avformat.ExtractVideoExtraDataFromKeyFrame(id, p)
	}
}

func fixedKeyFrame(h265 bool) []byte {
	sps, _, _ := fixedSPS(h265, 0)
	if h265 {
		return append(concat([][]byte{{0x40, 1, 0x80}, sps, {0x44, 1, 0xc0}}), 0, 0, 1, 0x26, 1, 0xaf)
	}
	return append(concat([][]byte{sps, {0x68, 0xce, 0x80}}), 0, 0, 1, 0x65, 0x88)
}

// C16_ExtractChanged: a key frame with parameter sets with any byte (thorough: any two neighbours) arbitrary, whole or cut.
func C16_ExtractChanged() {
	h265, how := v.Choose(2) == 1, v.Choose(3)
	p := change(fixedKeyFrame(h265), 0, maxLen(0, 1))
	v.Assume(v.Or(!h265, unescaped(p)))
	untouched(p, func(p []byte) { extractUsers(h265, how, p) })
	v.Reach("done")
}

// quiet is a handler and a data pipeline that does nothing.
type quiet struct{ packets []*avformat.AVPacket }

func (q *quiet) OnNewTrack(t avformat.Track)                             {}
func (q *quiet) OnTrackComplete()                                        {}
func (q *quiet) OnTrackNotFind()                                         {}
func (q *quiet) OnPacket(p *avformat.AVPacket)                           { q.packets = append(q.packets, p) }
func (q *quiet) Write(p []byte, i int, t utils.AVMediaType) (int, error) { return 0, nil }
func (q *quiet) Fetch(i int) ([]byte, error)                             { return nil, nil }
func (q *quiet) PendingBlockSize(i int) int                              { return 0 }
func (q *quiet) DiscardBackPacket(i int)                                 {}
func (q *quiet) DiscardHeadPacket(i int)                                 {}

// convertAll converts every delivered video packet both ways.
func (q *quiet) convertAll(d *avformat.BaseDemuxer) {
	for _, p := range q.packets {
		if p.MediaType == utils.AVMediaTypeVideo {
			keep := clone(p.Data)
			s := d.Tracks.Get(p.Index).GetStream()
			avformat.AVCCPacket2AnnexB(s, p)
			avformat.AnnexBPacket2AVCC(p)
			v.Assert(v.EqBytes(p.Data, keep), "the input is unchanged")
		}
	}
}

var feedCodecs = []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdMJPEG, utils.AVCodecIdAAC, utils.AVCodecIdPCMALAW, utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726}

// feed hands p to the demuxer as configuration or packet of one of the codecs, with arbitrary timestamps.
func feed(d *avformat.BaseDemuxer, p []byte, buffer int) {
	k := v.Choose(len(feedCodecs))
	id, announce := feedCodecs[k], v.Choose(2) == 1
	untouched(p, func(p []byte) {
		switch {
		case k < 3 && announce:
			d.OnNewVideoTrack(buffer, id, 1000, p)
		case k < 3:
			d.OnVideoPacket(buffer, id, p, v.Choose(2) == 1, v.Int64(), v.Int64(), d.GetPackType())
		case announce:
			d.OnNewAudioTrack(buffer, id, 1000, p, avformat.AudioConfig{SampleRate: v.Int()})
		default:
			d.OnAudioPacket(buffer, id, p, v.Int64())
		}
	})
}

// C16_Demuxer: two inputs of 0..5 (thorough three of 0..8) arbitrary bytes, announced or as packets, any codec, then completion and
// conversion of what was delivered; each kind of demuxer.
func C16_Demuxer() {
	v.Steps(300000)
	q := &quiet{}
	d := &avformat.BaseDemuxer{Name: []string{"flv", "ps", "ts", "jt1078"}[v.Choose(4)], DataPipeline: q}
	d.SetHandler(q)
	for i := 0; i < 2; i++ {
		feed(d, v.Bytes([]int{0, 1, 2, 5}[v.Choose(4)]), v.Choose(2))
	}
	d.TryCompleteProbe()
	d.ProbeComplete()
	q.convertAll(d)
	v.Reach("done")
}

// C16_DemuxerKey: a key frame, record or AAC packet with one arbitrary byte opens the track, then 0..9 (thorough 12) arbitrary bytes
// follow twice on it; then completion and conversion of what was delivered.
func C16_DemuxerKey() {
	v.Steps(300000)
	q := &quiet{}
	d := &avformat.BaseDemuxer{Name: []string{"flv", "ts"}[v.Choose(2)], DataPipeline: q}
	d.SetHandler(q)
	h265 := v.Choose(2) == 1
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	if d.Name == "flv" {
		p := change(fixedRecord(h265), 21*v.IteInt(h265, 1, 0), 0)
		untouched(p, func(p []byte) { d.OnNewVideoTrack(0, id, 1000, p) })
	} else {
		p := change(fixedKeyFrame(h265), 0, 0)
		v.Assume(v.Or(!h265, unescaped(p)))
		untouched(p, func(p []byte) { d.OnVideoPacket(0, id, p, true, 0, 0, d.GetPackType()) })
	}
	p := v.Bytes([]int{0, 1, 6, 9}[v.Choose(maxLen(3, 4))])
	key := v.Choose(2) == 1
	untouched(p, func(p []byte) { d.OnVideoPacket(0, id, p, key, 40, 40, d.GetPackType()) })
	d.OnVideoPacket(0, id, []byte{0, 0, 0, 1}, key, 80, 80, d.GetPackType())
	d.ProbeComplete()
	q.convertAll(d)
	v.Reach("done")
}

// C16_Packets: packets of 0..9 (thorough 12) arbitrary bytes of either form and codec, key or not, converted for streams with and without
// codec data (three fixed sets), every H.265 length size.
func C16_Packets() {
	v.Steps(100000)
	p := v.Bytes(v.Choose(maxLen(10, 13)))
	h265 := v.Choose(2) == 1
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	pack := []avformat.PacketType{avformat.PacketTypeAVCC, avformat.PacketTypeAnnexB}[v.Choose(2)]
	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, id, nil, nil)
	if k := v.Choose(5); k > 0 {
		s = streamOf(h265, [][]byte{{0x40, 1}, {0x42, 1}, {0x44, 1}}[:2+v.IteInt(h265, 1, 0)], k)
	}
	untouched(p, func(p []byte) {
		q := avformat.NewVideoPacket(p, 0, 0, v.Choose(2) == 1, pack, id, 0, 1000)
		b := avformat.AVCCPacket2AnnexB(s, q)
		c := avformat.AnnexBPacket2AVCC(q)
		v.Assert(len(b) <= 3*len(p)+300 && len(c) <= 3*len(p)+300, "bounded output")
	})
	v.Reach("done")
}

// C16_Unused: avc.ParseNalUnits, an unfinished function nothing calls, on 0..2 arbitrary bytes.
func C16_Unused() {
	p := v.Bytes(v.Choose(3))
	v.Assert(!v.Panics(func() { avc.ParseNalUnits(p) }), "avc.ParseNalUnits returns")
}
