package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// setsOf is a stream's parameter sets: SPS and PPS, preceded by VPS for H.265, of 3..5 arbitrary bytes.
func setsOf(h265 bool) (sets [][]byte) {
	if h265 {
		sets = [][]byte{hevcUnit(32, 3), hevcUnit(33, 5), hevcUnit(34, 3)}
	} else {
		sets = [][]byte{v.Bytes(5), v.Bytes(3)}
		sets[0][0], sets[1][0] = sets[0][0]&0x60|7, sets[1][0]&0x60|8
	}
	for _, u := range sets {
		wellFormed(u)
	}
	return
}

// streamOf is a video stream with the given parameter sets and length-field size.
func streamOf(h265 bool, sets [][]byte, lengthSize int) *avformat.AVStream {
	var s [][]byte
	for _, u := range sets {
		s = append(s, withCode(u, 2))
	}
	if h265 {
		c := &avformat.HEVCCodecData{Record: &hevc.HEVCDecoderConfigurationRecord{VPSList: s[:1], SPSList: s[1:2], PPSList: s[2:], LengthSizeMinusOne: byte(lengthSize)}}
		return avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH265, nil, c)
	}
	c := &avformat.AVCCodecData{Record: &avc.AVCDecoderConfigurationRecord{SPSList: s[:1], PPSList: s[1:]}}
	return avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, c)
}

// frameUnit is a unit of n bytes that is no parameter set.
func frameUnit(h265 bool, n int) []byte {
	u := nalUnit(n)
	if h265 {
		t := u[0] >> 1 & 0x3f
		v.Assume(v.Or(t < 32, t > 34))
	} else {
		t := u[0] & 0x1f
		v.Assume(v.And(t != 7, t != 8))
	}
	return u
}

func annexBForm(h265 bool, units [][]byte) (p []byte) {
	for i, u := range units {
		if h265 || i == 0 {
			p = append(p, withCode(u, 2)...)
		} else {
			p = append(p, withCode(u, 1)...)
		}
	}
	return
}

// withoutSEI leaves out what the H.264 slice-level converter does (C07). It branches.
func withoutSEI(h265 bool, units [][]byte) (l [][]byte) {
	for _, u := range units {
		if h265 || u[0]&0x1f != 6 {
			l = append(l, u)
		}
	}
	return
}

func lengthForm(units [][]byte, size int) (p []byte) {
	for _, u := range units {
		p = append(append(p, be32(len(u))[4-size:]...), u...)
	}
	return
}

// allocator hands out dirty memory of exactly the requested size, or nothing.
type allocator struct{ mem [][]byte }

func (a *allocator) alloc(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xEE
	}
	a.mem = append(a.mem, b)
	return b
}

func (a *allocator) owns(b []byte) bool {
	for _, m := range a.mem {
		if v.Overlap(m, b) {
			return true
		}
	}
	return false
}

// askTwice converts to Annex-B (or length-prefixed form) and checks that asking again gives the same.
func askTwice(toAnnexB bool, s *avformat.AVStream, p *avformat.AVPacket) []byte {
	f := func() []byte {
		if toAnnexB {
			return avformat.AVCCPacket2AnnexB(s, p)
		}
		return avformat.AnnexBPacket2AVCC(p)
	}
	first := f()
	keep := clone(first)
	again := f()
	v.Assert(v.EqBytes(again, keep), "asking again gives the same answer")
	return again
}

type packetCase struct {
	h265  bool
	key   bool
	pack  avformat.PacketType
	size  int
	sets  [][]byte
	units [][]byte
	own   bool // the packet begins with the stream's parameter sets
}

// runPacket converts both ways and compares.
func (c *packetCase) run(own *allocator, swap bool, none bool) {
	id := utils.AVCodecIdH264
	if c.h265 {
		id = utils.AVCodecIdH265
	}
	var data []byte
	if c.pack == avformat.PacketTypeAVCC {
		data = lengthForm(c.units, c.size)
	} else {
		data = annexBForm(c.h265, c.units)
	}
	orig := clone(data)
	s := streamOf(c.h265, c.sets, c.size)
	if none {
		s.CodecParameters = nil
	}
	p := avformat.NewVideoPacket(data, 1, 2, c.key, c.pack, id, 0, 1000)
	if own != nil {
		p.OnBufferAlloc = own.alloc
	}
	want := annexBForm(c.h265, c.units)
	if c.pack == avformat.PacketTypeAVCC {
		want = annexBForm(c.h265, withoutSEI(c.h265, c.units))
	}
	added := c.key && !c.own && !none
	if added {
		want = append(concat(c.sets), want...)
	}
	checkAnnexB := func() {
		got := askTwice(true, s, p)
		v.Assert(v.EqBytes(got, want), "Annex-B form")
		if added || c.pack == avformat.PacketTypeAVCC {
			v.Assert(own == nil || len(got) == 0 || own.owns(got), "the allocator's memory is used")
		} else {
			v.Assert(v.SameMem(got, data), "a packet in the wanted form is returned unchanged")
		}
	}
	checkAVCC := func() {
		got := askTwice(false, s, p)
		if c.pack == avformat.PacketTypeAVCC {
			v.Assert(v.SameMem(got, data) && v.EqBytes(got, orig), "a packet in the wanted form is returned unchanged")
			return
		}
		v.Assert(v.EqBytes(got, lengthForm(c.units, 4)), "length-prefixed form")
		v.Assert(own == nil || len(got) == 0 || own.owns(got), "the allocator's memory is used")
	}
	if swap {
		checkAVCC()
		checkAnnexB()
		checkAVCC()
	} else {
		checkAnnexB()
		checkAVCC()
		checkAnnexB()
	}
	v.Assert(v.EqBytes(p.Data, orig), "the packet's data is left alone")
}

// C24_Convert: packets of 1..3 units (1, 2 or 4 bytes, no parameter sets), either codec and packing, key or not, default or own
// allocator, both conversions in either order and repeated; four-byte lengths; a stream with one set of each kind or without
// codec data.
func C24_Convert() {
	c := &packetCase{h265: v.Choose(2) == 1, key: v.Choose(2) == 1, pack: avformat.PacketType(1 + v.Choose(2)), size: 4}
	c.sets = setsOf(c.h265)
	for i, n := 0, 1+v.Choose(3); i < n; i++ {
		k := []int{2, 1, 4}[(i+v.Choose(2))%3]
		if c.h265 && k == 1 {
			k = 3
		}
		c.units = append(c.units, frameUnit(c.h265, k))
	}
	var a *allocator
	if v.Choose(2) == 1 {
		a = &allocator{}
	}
	c.run(a, v.Choose(2) == 1, v.Choose(2) == 1)
	if a != nil && len(a.mem) > 0 {
		v.Reach("allocator used")
	}
	v.Reach("done")
}

// C24_OwnSets: key and non-key packets that begin with the stream's parameter sets, followed by 0..2 other units: the sets are
// never repeated and never removed.
func C24_OwnSets() {
	c := &packetCase{h265: v.Choose(2) == 1, key: v.Choose(2) == 1, pack: avformat.PacketType(1 + v.Choose(2)), size: 4, own: true}
	c.sets = setsOf(c.h265)
	c.units = append(c.units, c.sets...)
	for n := v.Choose(3); n > 0; n-- {
		c.units = append(c.units, frameUnit(c.h265, 2+n))
	}
	var a *allocator
	if v.Choose(2) == 1 {
		a = &allocator{}
	}
	c.run(a, v.Choose(2) == 1, false)
	v.Reach("done")
}

// C24_Sizes: length-prefixed H.265 packets with length fields of 1 to 4 bytes announced by the stream.
func C24_Sizes() {
	c := &packetCase{h265: true, key: v.Choose(2) == 1, pack: avformat.PacketTypeAVCC, size: 1 + v.Choose(4)}
	c.sets = setsOf(true)
	for n := 1 + v.Choose(3); n > 0; n-- {
		c.units = append(c.units, frameUnit(true, 1+n))
	}
	var a *allocator
	if v.Choose(2) == 1 {
		a = &allocator{}
	}
	c.run(a, false, false)
	v.Reach("done")
}

// C24_Growing: packets whose converted form is longer than the packet by more than any constant: up to 700 (thorough 1500) units of
// 1 (H.264) or 2 bytes with three-byte start codes to length-prefixed form, and with length fields of 1 or 2 bytes to Annex-B.
func C24_Growing() {
	n := []int{1, 64, 260, 300, 700}[v.Choose(5)]
	if v.Thorough() && n == 700 {
		n = 1500
	}
	h265 := v.Choose(2) == 1
	u := []byte{0x41}
	if h265 {
		u = []byte{2, 0x81}
	}
	last := frameUnit(h265, 2)
	var p, want []byte
	if v.Choose(2) == 0 {
		for i := 0; i < n; i++ {
			p = append(append(p, code3...), u...)
			want = append(append(want, be32(len(u))...), u...)
		}
		p = append(append(p, code3...), last...)
		want = append(append(want, be32(2)...), last...)
		id := utils.AVCodecIdH264
		if h265 {
			id = utils.AVCodecIdH265
		}
		pkt := avformat.NewVideoPacket(p, 0, 0, false, avformat.PacketTypeAnnexB, id, 0, 1000)
		v.Assert(v.EqBytes(avformat.AnnexBPacket2AVCC(pkt), want), "length-prefixed form of many units")
		v.Reach("to length-prefixed")
		return
	}
	if !h265 {
		return
	}
	size := 1 + v.Choose(2)
	for i := 0; i < n; i++ {
		p = append(append(p, be32(len(u))[4-size:]...), u...)
		want = append(append(want, code4...), u...)
	}
	p = append(append(p, be32(2)[4-size:]...), last...)
	want = append(append(want, code4...), last...)
	s := streamOf(true, setsOf(true), size)
	pkt := avformat.NewVideoPacket(p, 0, 0, false, avformat.PacketTypeAVCC, utils.AVCodecIdH265, 0, 1000)
	v.Assert(v.EqBytes(avformat.AVCCPacket2AnnexB(s, pkt), want), "Annex-B form of many units")
	v.Reach("to Annex-B")
}

// C24_Others: video packets of any other codec, and packets of neither packing, are returned unchanged in both directions
// (Annex-B rendering of H.264 and H.265 keys excepted); 0..4 arbitrary bytes.
func C24_Others() {
	data := v.Bytes(v.Choose(5))
	orig := clone(data)
	id := utils.AVCodecID(v.Int())
	pack := avformat.PacketType(v.Choose(4))
	key := v.Choose(2) == 1
	if pack == avformat.PacketTypeAVCC || pack == avformat.PacketTypeAnnexB || key {
		v.Assume(v.And(id != utils.AVCodecIdH264, id != utils.AVCodecIdH265))
	}
	h265 := v.Choose(2) == 1
	s := streamOf(h265, setsOf(h265), 4)
	if v.Choose(2) == 1 {
		s.CodecParameters = nil
	}
	s.CodecID = id
	p := avformat.NewVideoPacket(data, 0, 0, key, pack, id, 0, 1000)
	a := &allocator{}
	p.OnBufferAlloc = a.alloc
	got := askTwice(true, s, p)
	v.Assert(len(got) == len(data) && (len(got) == 0 || v.SameMem(got, data)), "returned unchanged as Annex-B")
	got = askTwice(false, s, p)
	v.Assert(len(got) == len(data) && (len(got) == 0 || v.SameMem(got, data)), "returned unchanged as length-prefixed")
	v.Assert(v.EqBytes(data, orig) && len(a.mem) == 0, "nothing allocated, nothing changed")
	v.Reach("done")
}

// C24_Unpacked: H.264 and H.265 packets of neither packing, key or not, 4..8 arbitrary bytes: never taken for length-prefixed ones; the
// Annex-B form is the packet itself, or for a key frame the stream's parameter sets and the packet.
func C24_Unpacked() {
	h265 := v.Choose(2) == 1
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	data := v.Bytes(4 + v.Choose(5))
	orig := clone(data)
	key := v.Choose(2) == 1
	sets := setsOf(h265)
	s := streamOf(h265, sets, 4)
	if v.Choose(2) == 1 {
		s.CodecParameters = nil
	}
	p := avformat.NewVideoPacket(data, 0, 0, key, []avformat.PacketType{0, avformat.PacketTypeNONE}[v.Choose(2)], id, 0, 1000)
	got := askTwice(true, s, p)
	if !key || s.CodecParameters == nil || len(got) == len(orig) {
		v.Assert(v.EqBytes(got, orig), "the packet itself")
	} else {
		v.Assert(v.EqBytes(got, append(concat(sets), orig...)), "the parameter sets and the packet")
	}
	v.Assert(v.EqBytes(askTwice(false, s, p), orig), "returned unchanged as length-prefixed")
	v.Assert(v.EqBytes(data, orig), "nothing changed")
	v.Reach("done")
}

// C24_RoundTrip: Annex-B to length-prefixed and back gives the same units; 1..3 units of 1..3 (H.265 2..3) bytes with
// either start code, parameter sets included, not a key frame.
func C24_RoundTrip() {
	h265 := v.Choose(2) == 1
	id, lo := utils.AVCodecIdH264, 1
	if h265 {
		id, lo = utils.AVCodecIdH265, 2
	}
	var p []byte
	var units [][]byte
	for n := 1 + v.Choose(3); n > 0; n-- {
		u := nalUnit(lo + v.Choose(4-lo))
		units = append(units, u)
		p = append(p, withCode(u, 1+v.Choose(2))...)
	}
	a := avformat.NewVideoPacket(p, 0, 0, false, avformat.PacketTypeAnnexB, id, 0, 1000)
	m := avformat.AnnexBPacket2AVCC(a)
	v.Assert(v.EqBytes(m, lengthForm(units, 4)), "length-prefixed form")
	s := streamOf(h265, setsOf(h265), 4)
	b := avformat.NewVideoPacket(m, 0, 0, false, avformat.PacketTypeAVCC, id, 0, 1000)
	v.Assert(v.EqBytes(avformat.AVCCPacket2AnnexB(s, b), annexBForm(h265, withoutSEI(h265, units))), "and back")
	v.Reach("done")
}

// C24_EmptyUnits: Annex-B packets of 1..3 units of 2 arbitrary bytes with 0..3 empty ones (a start code directly before another) in front
// of each, either start code, default or own allocator: the length-prefixed form has the other units only.
func C24_EmptyUnits() {
	h265 := v.Choose(2) == 1
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	var p []byte
	var units [][]byte
	for n := 1 + v.Choose(3); n > 0; n-- {
		for e := v.Choose(4); e > 0; e-- {
			p = append(p, withCode(nil, 1+e%2)...)
		}
		u := frameUnit(h265, 2)
		units = append(units, u)
		p = append(p, withCode(u, 1+v.Choose(2))...)
	}
	a := avformat.NewVideoPacket(p, 0, 0, false, avformat.PacketTypeAnnexB, id, 0, 1000)
	var own *allocator
	if v.Choose(2) == 1 {
		own = &allocator{}
		a.OnBufferAlloc = own.alloc
	}
	m := askTwice(false, nil, a)
	v.Assert(v.EqBytes(m, lengthForm(units, 4)), "length-prefixed form")
	v.Assert(own == nil || own.owns(m), "the allocator's memory is used")
	v.Reach("done")
}
