package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// longInput is a long byte string of one of several shapes with a few arbitrary bytes at its front, in its middle and at its end, whole or
// without its last 1 or 5 bytes.
func longInput(arbitrary int) []byte {
	var p []byte
	plain := []byte{0x61, 0x09}[v.Choose(2)]
	none := func(int) bool { return false }
	switch v.Choose(5) {
	case 0: // units, one of which is long
		p, _ = manyUnits(5, someSize(70000, 2), none, plain)
	case 1: // many units
		p, _ = manyUnits(300, func(i int) int { return 1 + i%3 }, none, plain)
	case 2: // nothing but start codes
		for i := 0; i < 400; i++ {
			p = append(p, 0, 0, 1)
		}
	case 3: // zeros
		p = make([]byte, 66000)
	case 4: // no start code
		p = filler(66000)
	}
	at := []int{0, len(p) / 2, len(p) - 6}[v.Choose(3)]
	symbolicAt(p, at, arbitrary)
	return p[:len(p)-[]int{0, 1, 5}[v.Choose(3)]]
}

// C16_LongStream: byte strings of 900 to 70000 bytes (5 units with one of 70000 bytes, 300 units, 400 start codes, zeros, no start code; 2
// (thorough 3) bytes arbitrary at the front, in the middle or near the end; cut by 0, 1 or 5 bytes) through the users of streams.
func C16_LongStream() {
	v.Steps(40000000)
	p := longInput(maxLen(2, 3))
	streamUsers(v.Choose(6), p)
	v.Reach("done")
}

// C16_LongExtract: the same with 1 (thorough 2) arbitrary bytes as a key frame to take parameter sets from, and as packets of either form to convert.
func C16_LongExtract() {
	v.Steps(40000000)
	p := longInput(maxLen(1, 2))
	h265 := v.Choose(2) == 1
	if v.Choose(2) == 0 {
		untouched(p, func(p []byte) { extractUsers(h265, 0, p) })
	} else {
		id := utils.AVCodecIdH264
		if h265 {
			id = utils.AVCodecIdH265
		}
		s := streamOf(h265, [][]byte{{0x40, 1}, {0x42, 1}, {0x44, 1}}[:2+v.IteInt(h265, 1, 0)], 4)
		pack := []avformat.PacketType{avformat.PacketTypeAVCC, avformat.PacketTypeAnnexB}[v.Choose(2)]
		untouched(p, func(p []byte) {
			q := avformat.NewVideoPacket(p, 0, 0, true, pack, id, 0, 1000)
			avformat.AVCCPacket2AnnexB(s, q)
			avformat.AnnexBPacket2AVCC(q)
		})
	}
	v.Reach("done")
}

// C16_LongPrefixed: length-prefixed inputs of 5 units one of which has 70000 bytes, or of 300 units, where one byte of one length field (the
// first, a middle or the last one) is arbitrary or the end is cut by 1 or 5 bytes, through the conversions with every length-field size.
func C16_LongPrefixed() {
	v.Steps(40000000)
	k := v.Choose(6)
	size := 4
	if k > 1 {
		size = k - 1
	}
	var p []byte
	n, big := 300, 5
	if v.Choose(2) == 0 {
		n, big = 5, 70000
		if size < 3 {
			big = 1<<(8*uint(size)) - 1
		}
	}
	at := []int{0, n / 2, n - 1}[v.Choose(3)]
	how := v.Choose(3)
	h := []byte{0x65, 0x26, 0x09}[v.Choose(3)]
	for i := 0; i < n; i++ {
		m := 2 + i%4
		if i == n/2 {
			m = big
		}
		l := be32(m)[4-size:]
		if how == 0 && i == at {
			l[v.Choose(size)] = v.Byte()
		}
		u := filler(m)
		u[0] = h
		p = append(append(p, l...), u...)
	}
	if how > 0 {
		p = p[:len(p)-1-4*(how-1)]
	}
	var extra []byte
	if v.Choose(2) == 1 {
		extra = filler(3)
	}
	lengthUsers(k, p, extra)
	v.Reach("done")
}

// C16_LongRecord: records with 31 SPS and 255 PPS, or 300 units of each kind of H.265, or units of 65535 bytes, with an arbitrary count or
// length in front or in the middle, whole or cut by 1 or 700 bytes, through every user of records.
func C16_LongRecord() {
	v.Steps(40000000)
	h265 := v.Choose(2) == 1
	sps, _, _ := fixedSPS(h265, 0)
	vps, pps := []byte{0x40, 1, 0x80}, []byte{0x68, 0xce, 0x80}
	var l [3][][]byte
	switch v.Choose(2) {
	case 0:
		for i := 0; i < 30; i++ {
			l[1] = append(l[1], sps)
			l[0] = append(l[0], vps)
		}
		for i := 0; i < 255; i++ {
			l[2] = append(l[2], pps)
		}
	case 1:
		l = [3][][]byte{{vps}, {sps, filler(65535)}, {pps, filler(65535)}}
	}
	var p []byte
	if h265 {
		p = hevcRecord([]hevcArray{{32, l[0]}, {33, l[1]}, {34, l[2]}})
		symbolicAt(p, []int{21, 22, 24, 25, 26}[v.Choose(5)], 1)
	} else {
		p = avcRecord(l[1], l[2])
		symbolicAt(p, []int{5, 6, 7}[v.Choose(3)], 1)
	}
	p = p[:len(p)-[]int{0, 1, 700}[v.Choose(3)]]
	if h265 {
		hevcRecordUsers([]int{0, 1, 3, 4}[v.Choose(4)], p)
	} else {
		avcRecordUsers(v.Choose(5), p)
	}
	v.Reach("done")
}

// C16_LongAudio: 20, 300 or 70000 bytes with 9 arbitrary bytes in front, as in C16_AAC.
func C16_LongAudio() {
	v.Steps(4000000)
	p := filler([]int{20, 300, 70000}[v.Choose(3)])
	symbolicAt(p, 0, 9)
	audioUsers(p)
	v.Reach("done")
}

// C16_LongFeed: a track opened by a key frame, record, or audio packet; then 3 packets of 0 or 70000 bytes, the second
// one behind two zeros and an arbitrary one, or 60 packets of 4 bytes one of which is half arbitrary; completion in between or at the end; conversion of what was delivered.
func C16_LongFeed() {
	v.Steps(40000000)
	q := &quiet{}
	d := &avformat.BaseDemuxer{Name: []string{"flv", "ts"}[v.Choose(2)], DataPipeline: q}
	d.SetHandler(q)
	k := v.Choose(3)
	id := []utils.AVCodecID{utils.AVCodecIdH264, utils.AVCodecIdH265, utils.AVCodecIdPCMS16LE}[k]
	send := func(p []byte, ts int64) {
		untouched(p, func(p []byte) {
			if k == 2 {
				d.OnAudioPacket(0, id, p, ts)
			} else {
				d.OnVideoPacket(0, id, p, ts == 0, ts, ts, d.GetPackType())
			}
		})
	}
	if k < 2 && d.Name == "flv" {
		d.OnNewVideoTrack(0, id, 1000, fixedRecord(k == 1))
	} else if k < 2 {
		send(fixedKeyFrame(k == 1), 0)
	}
	if v.Choose(2) == 0 {
		ts := v.Int64()
		v.Assume(v.And(ts > -1<<40, ts < 1<<40))
		for i := 0; i < 3; i++ {
			n := []int{0, 70000}[v.Choose(2)]
			p := filler(n)
			if i == 1 {
				p = append([]byte{0, 0, v.Byte()}, p...)
			}
			send(p, ts+int64(i))
		}
	} else {
		ts := int64(v.Choose(2)) << 40
		end := v.Choose(3) * 25
		for i := 0; i < 60; i++ {
			p := []byte{0, 0, 1, 0x41}
			if i == end {
				d.TryCompleteProbe()
				p = append([]byte{0, 0}, v.Byte(), v.Byte())
			}
			send(p, ts+int64(40*i))
		}
	}
	d.ProbeComplete()
	q.convertAll(d)
	v.Reach("done")
}
