package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// madePacket is a packet with what it was created from.
type madePacket struct {
	p        *avformat.AVPacket
	video    bool
	unit     []byte
	data     []byte
	dts, pts int64
	key      bool
	pack     avformat.PacketType
	id       utils.AVCodecID
	index    int
	timebase int
}

// make264 creates a packet of one H.264 or H.265 unit, or an audio packet, with arbitrary fields.
func makePacket(kind int) *madePacket {
	m := &madePacket{video: kind > 0, dts: v.Int64(), index: v.Int(), timebase: v.Int()}
	m.unit = []byte{0x41, v.Byte() | 0x80, v.Byte() | 0x80}
	m.id = utils.AVCodecIdH264
	if kind > 2 {
		m.unit[0] = 2
		m.id = utils.AVCodecIdH265
	}
	switch kind {
	case 0:
		m.id = utils.AVCodecID(v.Int())
		m.data, m.pts = m.unit, m.dts
		m.p = avformat.NewAudioPacket(m.data, m.dts, m.id, m.index, m.timebase)
		return m
	case 1, 3:
		m.pack, m.data = avformat.PacketTypeAVCC, lengthForm([][]byte{m.unit}, 4)
	case 2, 4:
		m.pack, m.data = avformat.PacketTypeAnnexB, withCode(m.unit, 2)
	}
	m.pts, m.key = v.Int64(), v.Bool()
	m.p = avformat.NewVideoPacket(m.data, m.dts, m.pts, m.key, m.pack, m.id, m.index, m.timebase)
	return m
}

func (m *madePacket) check() {
	p := m.p
	v.Assert(v.SameMem(p.Data, m.data) && len(p.Data) == len(m.data), "data")
	v.Assert(v.And(p.Dts == m.dts, p.Pts == m.pts), "timestamps")
	v.Assert(v.And(p.CodecID == m.id, p.Index == m.index, p.Timebase == m.timebase), "codec, index and timebase")
	v.Assert(p.Duration == 0, "no duration")
	v.Assert(p.CreatedTime == 0, "no creation time")
	v.Assert(p.BufferIndex == 0, "no buffer index")
	v.Assert(p.OnBufferAlloc == nil, "no allocator")
	if m.video {
		v.Assert(p.MediaType == utils.AVMediaTypeVideo, "media type")
		v.Assert(v.And(p.Key == m.key, p.PacketType == m.pack), "key flag and packing")
	} else {
		v.Assert(p.MediaType == utils.AVMediaTypeAudio, "media type")
		v.Assert(!p.Key, "no key flag")
		v.Assert(v.Or(p.PacketType == 0, p.PacketType == avformat.PacketTypeNONE), "no packing")
	}
}

// convert checks both conversions against the packet's own unit.
func (m *madePacket) convert() {
	if !m.video {
		return
	}
	s := &avformat.AVStream{CodecID: m.id}
	v.Assert(v.EqBytes(avformat.AVCCPacket2AnnexB(s, m.p), withCode(m.unit, 2)), "its own Annex-B form")
	v.Assert(v.EqBytes(avformat.AnnexBPacket2AVCC(m.p), lengthForm([][]byte{m.unit}, 4)), "its own length-prefixed form")
}

// use fills every other field and converts.
func (m *madePacket) use() {
	m.p.Duration, m.p.CreatedTime, m.p.BufferIndex = v.Int64(), v.Int64(), v.Int()
	m.p.OnBufferAlloc = func(n int) []byte { return make([]byte, n) }
	m.convert()
	if v.Bool() {
		m.p.Key = true
	}
}

// C25_Recycle: a packet of each kind (audio; H.264 and H.265 in either packing) is created, used and freed, then one of each
// kind created, checked and converted; the pool returns the freed packet or a new one.
func C25_Recycle() {
	a := makePacket(v.Choose(5))
	a.check()
	a.use()
	avformat.FreePacket(a.p)
	b := makePacket(v.Choose(5))
	b.check()
	b.convert()
	if a.p == b.p {
		v.Reach("recycled")
	} else {
		v.Reach("new")
	}
}

// C25_Unused: the same for a packet that was freed right away, and with a used packet still alive beside it.
func C25_Unused() {
	a, c := makePacket(v.Choose(5)), makePacket(v.Choose(5))
	c.use()
	avformat.FreePacket(a.p)
	b := makePacket(v.Choose(5))
	b.check()
	v.Assert(b.p != c.p, "a packet in use is not handed out")
	b.convert()
	c.convert()
	v.Reach("done")
}

// C25_History: every sequence of 6 (thorough 8) steps that create (audio or length-prefixed H.264), use or free packets, up to
// 3 alive at once; every choice of the pool.
func C25_History() {
	var live []*madePacket
	for i := 0; i < maxLen(6, 8); i++ {
		if op := v.Choose(len(live) + 2); op < 2 {
			if len(live) == 3 {
				return
			}
			m := makePacket(op)
			m.check()
			for _, o := range live {
				v.Assert(o.p != m.p, "a packet in use is not handed out")
			}
			live = append(live, m)
			if i&1 == 1 {
				m.use()
			}
		} else {
			avformat.FreePacket(live[op-2].p)
			live = append(append([]*madePacket{}, live[:op-2]...), live[op-1:]...)
		}
	}
	for _, o := range live {
		v.Assert(v.SameMem(o.p.Data, o.data), "a live packet keeps its data")
		o.convert()
	}
	v.Reach("done")
}

// C25_Concurrent: a used packet is freed while another goroutine obtains, or frees and obtains, a packet of its own (audio, or H.264
// or H.265 in either packing); every schedule that differs in more than the order of accesses to different memory, every choice
// of the pool.
func C25_Concurrent() {
	a := makePacket(v.Choose(5))
	a.use()
	kind := v.Choose(3)
	unit := []byte{0x41, v.Byte() | 0x80, v.Byte() | 0x80}
	m := &madePacket{video: kind > 0, unit: unit, dts: v.Int64(), pts: v.Int64(), key: v.Bool(), index: v.Int(), timebase: v.Int()}
	m.id = utils.AVCodecIdH264
	switch kind {
	case 0:
		m.data, m.pts = unit, m.dts
	case 1:
		m.pack, m.data = avformat.PacketTypeAVCC, lengthForm([][]byte{unit}, 4)
	case 2:
		m.pack, m.data = avformat.PacketTypeAnnexB, withCode(unit, 2)
	}
	var c *madePacket
	if v.Choose(2) == 1 {
		c = makePacket(1)
	}
	v.ParData(func() {
		avformat.FreePacket(a.p)
	}, func() {
		if c != nil {
			avformat.FreePacket(c.p)
		}
		if kind == 0 {
			m.p = avformat.NewAudioPacket(m.data, m.dts, m.id, m.index, m.timebase)
		} else {
			m.p = avformat.NewVideoPacket(m.data, m.dts, m.pts, m.key, m.pack, m.id, m.index, m.timebase)
		}
	})
	m.check()
	m.convert()
	n := makePacket(0)
	v.Assert(n.p != m.p, "a packet in use is not handed out")
	n.check()
	m.check()
	if m.p == a.p {
		v.Reach("recycled")
	} else {
		v.Reach("another")
	}
}

// C25_Two: two goroutines that obtain a packet each and free it again, over a pool that holds a used one or none: never the same packet
// at the same time, and each as it was created; every schedule that differs in more than the order of accesses to different memory.
func C25_Two() {
	if v.Choose(2) == 1 {
		a := makePacket(1)
		a.use()
		avformat.FreePacket(a.p)
	}
	var m [2]*madePacket
	for i := range m {
		m[i] = &madePacket{unit: v.Bytes(2), dts: v.Int64(), index: v.Int(), timebase: v.Int(), id: utils.AVCodecIdAAC}
		m[i].data, m[i].pts = m[i].unit, m[i].dts
	}
	again := v.Choose(2) == 1
	var fs []func()
	for _, x := range m {
		x := x
		fs = append(fs, func() {
			x.p = avformat.NewAudioPacket(x.data, x.dts, x.id, x.index, x.timebase)
			if again {
				avformat.FreePacket(x.p)
				x.p = avformat.NewAudioPacket(x.data, x.dts, x.id, x.index, x.timebase)
			}
		})
	}
	v.ParData(fs...)
	v.Assert(m[0].p != m[1].p, "two packets in use are different")
	for _, x := range m {
		x.check()
	}
	v.Reach("done")
}
