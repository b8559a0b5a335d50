package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// smallPipe is a data pipeline over circular buffers of a given initial size.
type smallPipe struct {
	size    int
	buffers map[int]*collections.RBBlockBuffer
}

func (s *smallPipe) at(i int) *collections.RBBlockBuffer {
	if s.buffers[i] == nil {
		s.buffers[i] = collections.NewRBBlockBuffer(s.size)
	}
	return s.buffers[i]
}

func (s *smallPipe) Write(p []byte, i int, _ utils.AVMediaType) (int, error) {
	s.at(i).Write(p)
	return len(p), nil
}
func (s *smallPipe) Fetch(i int) ([]byte, error) { return s.at(i).Fetch(), nil }
func (s *smallPipe) DiscardBackPacket(i int)     { s.at(i).PopBack() }
func (s *smallPipe) DiscardHeadPacket(i int)     { s.at(i).Pop() }
func (s *smallPipe) PendingBlockSize(i int) int  { return s.at(i).PendingBlockSize() }

func newBlockDemux(name string, size int, autoFree bool) *demux {
	m := newDemux(name)
	m.d.AutoFree = autoFree
	m.blocks = map[int][]*sent{}
	if size == 0 {
		m.pipe = &avformat.StreamsBuffer{}
	} else {
		m.pipe = &smallPipe{size: size, buffers: map[int]*collections.RBBlockBuffer{}}
	}
	return m
}

// part writes n fresh bytes of the block being put together for a buffer.
func (m *demux) part(buffer int, video bool, n int, open map[int][]byte) {
	p := v.Bytes(n)
	t := utils.AVMediaTypeAudio
	if video {
		t = utils.AVMediaTypeVideo
	}
	_, err := m.Write(p, buffer, t)
	v.Assert(err == nil, "written")
	open[buffer] = append(open[buffer], p...)
}

// fetched completes the block and hands it to the demuxer's side.
func (m *demux) fetched(buffer int, open map[int][]byte) *sent {
	data, err := m.Fetch(buffer)
	v.Assert(err == nil && v.EqBytes(data, open[buffer]), "a completed block holds what was written")
	s := &sent{data: data, want: open[buffer]}
	open[buffer] = nil
	m.blocks[buffer] = append(m.blocks[buffer], s)
	return s
}

// intact: no outstanding block changed.
func (m *demux) intact() {
	for i := 0; i < 4; i++ {
		for _, s := range m.blocks[i] {
			v.Assert(v.EqBytes(s.data, s.want), "an outstanding block keeps its bytes")
		}
	}
}

// outstanding: exactly the accepted packets that were not released.
func (m *demux) outstanding() {
	for _, t := range m.tracks {
		n := len(t.packets)
		if m.d.AutoFree {
			n -= t.delivered
		} else {
			n -= t.released
		}
		v.Assert(len(m.blocks[t.buffer]) == n, "every other block was returned once")
	}
	for i := 0; i < 4; i++ {
		v.Assert(m.find(i) != nil || len(m.blocks[i]) == 0, "a stream without a track keeps no block")
	}
}

func (m *demux) blockPacket(buffer int, video bool, dts int64, open map[int][]byte) {
	s := m.fetched(buffer, open)
	s.video, s.dts, s.pts, s.id = video, dts, dts, utils.AVCodecIdPCMALAW
	accept := m.find(buffer) != nil || !m.done()
	if video {
		s.id = utils.AVCodecIdMJPEG
		accept = m.takesVideo(buffer)
	}
	m.packet(buffer, s, accept)
}

// release gives back the oldest packet of a track when the application is through with it.
func (m *demux) release(t *sentTrack) bool {
	if t == nil || t.released == t.delivered {
		return false
	}
	m.last = t.packets[t.released]
	t.released++
	m.dropHead(t.buffer)
	return true
}

func (m *demux) history(steps int) {
	open := map[int][]byte{}
	m.announce(1, true, utils.AVCodecIdMJPEG, 1000)
	shift := []int64{0, -100}[v.Choose(2)]
	ops := 6
	if !m.d.AutoFree {
		ops = 8
	}
	for i := 0; i < steps; i++ {
		switch k := v.Choose(ops); k {
		case 0, 1: // audio packet, whole or after what was written before
			m.part(0, false, 1+3*k, open)
			m.blockPacket(0, false, int64(i), open)
		case 2:
			m.part(1, true, 4, open)
			m.blockPacket(1, true, int64(i)+shift, open)
		case 3: // the beginning of the next audio packet
			m.part(0, false, 2, open)
		case 4: // a stream that has no track
			m.part(2, true, 3, open)
			m.blockPacket(2, true, int64(i), open)
		case 5:
			if m.done() {
				return
			}
			m.request()
		default:
			if !m.release(m.find(k - 6)) {
				return
			}
		}
		m.intact()
		m.outstanding()
	}
	m.request()
	m.part(1, true, 3, open)
	m.blockPacket(1, true, 1000, open)
	m.part(3, false, 3, open)
	m.blockPacket(3, false, 1000, open)
	m.intact()
	m.outstanding()
	v.Reach("done")
}

// C23_Free: every sequence of 5 (thorough 7) steps with automatically freed packets over buffers of 8 bytes that wrap and grow: audio
// packets of 1 or 4 bytes, 4-byte video packets, the first 2 bytes of an audio packet, a packet of a stream without track, a
// request; then a request, a video packet and a packet of a new stream; every choice of the packet pool.
func C23_Free() { newBlockDemux("flv", 8, true).history(maxLen(5, 7)) }

// C23_Kept: the same for 5 (thorough 6) steps when packets are not freed automatically and the application releases them, oldest first,
// at any time after their delivery.
func C23_Kept() { newBlockDemux("ps", 8, false).history(maxLen(5, 6)) }

// C23_Streams: 3 (thorough 4) such steps over the stream buffers the demuxers use, either way.
func C23_Streams() { newBlockDemux("flv", 0, v.Choose(2) == 1).history(maxLen(3, 4)) }

// C23_Empty: every sequence of 4 (thorough 5) steps in which packets may be empty, of either type, with and without a hook for video
// packets and automatic freeing: an empty or 3-byte video packet, an empty or 3-byte audio packet, a request, a release.
func C23_Empty() {
	m := newBlockDemux([]string{"flv", "ps"}[v.Choose(2)], 8, v.Choose(2) == 1)
	if v.Choose(2) == 1 {
		m.setHook()
	}
	open := map[int][]byte{}
	m.announce(1, true, utils.AVCodecIdMJPEG, 1000)
	for i := 0; i < maxLen(4, 5); i++ {
		switch k := v.Choose(7); k {
		case 0, 1, 2, 3:
			m.part(k/2, k > 1, k%2*3, open)
			m.blockPacket(k/2, k > 1, int64(i), open)
		case 4:
			if m.done() {
				return
			}
			m.request()
		default:
			if m.d.AutoFree || !m.release(m.find(k-5)) {
				return
			}
		}
		m.intact()
		m.outstanding()
	}
	v.Reach("done")
}

// C23_Config: every sequence of 3 (thorough 4) steps on a demuxer of length-prefixed formats over buffers of 40 bytes, which hand over
// blocks: an H.264 or broken configuration record of a video track, an AAC or broken configuration of an audio track, a video or audio
// packet, a request; the tracks keep their own copy of the configuration.
func C23_Config() {
	m := newBlockDemux("flv", 40, v.Choose(2) == 1)
	open := map[int][]byte{}
	sps, _, _ := fixedSPS(false, 0)
	rec := avcRecord([][]byte{sps}, [][]byte{{0x68, 1}})
	var config [2][]byte
	for i := 0; i < maxLen(3, 4); i++ {
		switch k := v.Choose(7); k {
		case 0, 1, 2, 3:
			var c []byte
			buffer, video := 1-k/2, k < 2
			switch k {
			case 0:
				c = clone(rec)
			case 1:
				c = v.Bytes(3)
			case 2:
				c = []byte{0x12, 0x10}
			case 3:
				c = []byte{0xff}
			}
			done, back := m.done(), m.back
			t := utils.AVMediaTypeAudio
			if video {
				t = utils.AVMediaTypeVideo
			}
			m.Write(c, buffer, t)
			open[buffer] = append(open[buffer], c...)
			s := m.fetched(buffer, open)
			accept := k&1 == 0 && !done && config[buffer] == nil
			if accept {
				config[buffer] = c
				if video {
					m.newTrack(buffer, true, utils.AVCodecIdH264, 1000)
				} else {
					m.newTrack(buffer, false, utils.AVCodecIdAAC, 1000)
				}
			}
			var got avformat.Track
			if video {
				got = m.d.OnNewVideoTrack(buffer, utils.AVCodecIdH264, 1000, s.data)
			} else {
				got = m.d.OnNewAudioTrack(buffer, utils.AVCodecIdAAC, 1000, s.data, avformat.AudioConfig{})
			}
			v.Assert((got != nil) == accept, "accepted when valid, first and in time")
			v.Assert(m.back == back+1 && m.backIndex == buffer, "a configuration block is discarded right away")
			m.expectDelivered()
		case 4, 5:
			m.part(5-k, k == 4, 20, open)
			s := m.fetched(5-k, open)
			s.video, s.dts, s.pts, s.id = k == 4, int64(i), int64(i), utils.AVCodecIdAAC
			if s.video {
				s.id = utils.AVCodecIdH264
			} else if m.find(0) == nil {
				// without configuration only ADTS is accepted, and this is none
				s.data[0] = 0
				s.want = clone(s.data)
			}
			m.packet(5-k, s, m.find(5-k) != nil)
		default:
			if m.done() {
				return
			}
			m.request()
		}
		m.intact()
		m.outstanding()
	}
	for _, t := range m.tracks {
		v.Assert(v.EqBytes(m.d.Tracks.Get(t.index).GetStream().Data, config[t.buffer]), "a track keeps its own copy of the configuration")
	}
	v.Reach("done")
}

// C23_Transport: every sequence of 4 (thorough 5) steps on a transport stream demuxer over buffers of 40 bytes: a valid or broken AAC
// configuration of an audio track, or valid or broken parameter sets of a video track, on one of two streams each, a G.711
// packet on a third stream, a request.
func C23_Transport() {
	m := newBlockDemux("ts", 40, true)
	open := map[int][]byte{}
	sps, _, _ := fixedSPS(false, 0)
	sets := concat([][]byte{sps}, [][]byte{{0x68, 1}})
	config := map[int][]byte{}
	for i := 0; i < maxLen(4, 5); i++ {
		k := v.Choose(7)
		switch {
		case k < 5:
			buffer, video, ok := []int{0, 1, 0, 1, 2}[k], k == 4, k < 2
			c := []byte{0xff}
			if video {
				ok = v.Choose(2) == 1
				c = v.Bytes(3)
			}
			if m.find(buffer) != nil {
				return
			}
			if ok && video {
				c = clone(sets)
			} else if ok {
				c = []byte{0x12, 0x10}
			}
			done, back := m.done(), m.back
			t := utils.AVMediaTypeAudio
			if video {
				t = utils.AVMediaTypeVideo
			}
			m.Write(c, buffer, t)
			open[buffer] = append(open[buffer], c...)
			s := m.fetched(buffer, open)
			accept := ok && !done
			var got avformat.Track
			if video {
				if accept {
					m.newTrack(buffer, true, utils.AVCodecIdH264, 90000)
				}
				got = m.d.OnNewVideoTrack(buffer, utils.AVCodecIdH264, 90000, s.data)
			} else {
				if accept {
					m.newTrack(buffer, false, utils.AVCodecIdAAC, 90000)
				}
				got = m.d.OnNewAudioTrack(buffer, utils.AVCodecIdAAC, 90000, s.data, avformat.AudioConfig{})
			}
			if accept {
				config[buffer] = clone(c)
			}
			v.Assert((got != nil) == accept, "accepted when valid and in time")
			v.Assert(m.back == back+1 && m.backIndex == buffer, "a configuration block is discarded right away")
			m.expectDelivered()
		case k == 5:
			m.part(3, false, 4, open)
			m.blockPacket(3, false, int64(i), open)
		default:
			if m.done() {
				return
			}
			m.request()
		}
		m.intact()
		m.outstanding()
	}
	for _, t := range m.tracks {
		if c := config[t.buffer]; c != nil {
			v.Assert(v.EqBytes(m.d.Tracks.Get(t.index).GetStream().Data, c), "a track keeps its own copy of the configuration")
		}
	}
	v.Reach("done")
}

// C23_Disorder: one or two tracks with arbitrary timestamps below 2^40 in magnitude, blocks released automatically: 4 (thorough 5) packets, then
// a request and a packet of each: one block of the packet's stream is released after each delivery.
func C23_Disorder() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	m.disorder = true
	m.d.AutoFree = true
	ts := func() int64 { return int64(v.IntRange(-1<<40, 1<<40)) }
	two := v.Choose(2) == 1
	m.announce(1, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
	for i := 0; i < maxLen(4, 5); i++ {
		if two && v.Choose(2) == 1 {
			m.audio(0, ts())
		} else {
			m.video(1, ts())
		}
	}
	m.request()
	m.video(1, ts())
	m.audio(0, ts())
	n := 0
	for _, t := range m.tracks {
		n += t.delivered
	}
	v.Assert(m.head == n, "as many blocks released as packets delivered")
	v.Reach("done")
}
