package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// sent is a packet handed to the demuxer.
type sent struct {
	data      []byte
	want      []byte // what was written for it, if it lives in a block
	dts, pts  int64
	key       bool
	video     bool
	id        utils.AVCodecID
	hooked    int
	delivered bool
	gone      bool // its block was given back
}

// sentTrack is a track the demuxer must have, with its accepted packets.
type sentTrack struct {
	index     int
	buffer    int
	timebase  int
	video     bool
	id        utils.AVCodecID
	packets   []*sent
	delivered int
	released  int // by the application
}

// demux feeds a demuxer and is its handler and data pipeline.
type demux struct {
	d         *avformat.BaseDemuxer
	tracks    []*sentTrack
	announced int
	complete  bool
	notFound  bool
	inFlush   bool // inside the call that completed the probe
	flushed   int
	flushDts  int64
	back      int // blocks discarded as newest
	head      int // blocks discarded as oldest
	headOwed  int // deliveries whose block is still to be released
	backIndex int
	hook      bool
	early     bool // completed by the probe duration
	pipe      avformat.DataPipeline
	blocks    map[int][]*sent // outstanding blocks of each buffer, oldest first
	last      *sent           // the packet delivered last
	disorder  bool
	probe     int
}

func newDemux(name string) *demux {
	m := &demux{d: &avformat.BaseDemuxer{Name: name}}
	m.d.DataPipeline = m
	m.d.SetHandler(m)
	return m
}

// carries tells whether p is the packet made of s: by the memory of its payload; an empty one by buffer and order.
func (m *demux) carries(p *avformat.AVPacket, t *sentTrack, s *sent) bool {
	if len(s.data) == 0 {
		return len(p.Data) == 0 && p.BufferIndex == t.buffer && !s.delivered
	}
	return v.SameMem(s.data, p.Data)
}

// setHook installs the hook that sees every accepted video packet.
func (m *demux) setHook() {
	m.hook = true
	m.d.SetOnPreprocessPacketHandler(func(p *avformat.AVPacket) {
		for _, t := range m.tracks {
			for _, s := range t.packets {
				if m.carries(p, t, s) && !s.gone && (len(s.data) > 0 || s.hooked == 0) {
					v.Assert(s.video && !s.delivered && s.hooked == 0, "a video packet is preprocessed once, before delivery")
					s.hooked++
					return
				}
			}
		}
		v.Fail("only accepted packets are preprocessed")
	})
}

func (m *demux) Write(p []byte, i int, t utils.AVMediaType) (int, error) {
	return m.pipe.Write(p, i, t)
}
func (m *demux) Fetch(i int) ([]byte, error) { return m.pipe.Fetch(i) }
func (m *demux) PendingBlockSize(i int) int  { return m.pipe.PendingBlockSize(i) }
func (m *demux) DiscardBackPacket(i int) {
	m.back++
	m.backIndex = i
	if m.pipe != nil {
		n := len(m.blocks[i])
		v.Assert(n > 0, "only outstanding blocks are discarded")
		m.blocks[i] = m.blocks[i][:n-1]
		m.pipe.DiscardBackPacket(i)
	}
}
func (m *demux) DiscardHeadPacket(i int) {
	v.Assert(m.headOwed == i+1, "a block is released after its packet was delivered, from its buffer")
	m.headOwed = 0
	m.head++
	m.dropHead(i)
}

func (m *demux) dropHead(i int) {
	m.last.gone = true
	if m.pipe != nil {
		v.Assert(len(m.blocks[i]) > 0 && m.blocks[i][0] == m.last, "the oldest block is the delivered packet's")
		m.blocks[i] = append([]*sent{}, m.blocks[i][1:]...)
		m.pipe.DiscardHeadPacket(i)
	}
}

func (m *demux) OnNewTrack(t avformat.Track) {
	v.Assert(!m.complete && !m.notFound, "tracks are announced before the completion notice")
	v.Assert(m.announced < len(m.tracks) && t.GetStream() == m.d.Tracks.Get(m.announced).GetStream() && t.GetStream().Index == m.announced, "every track is announced once, in order")
	m.announced++
}

func (m *demux) OnTrackComplete() {
	v.Assert(!m.complete && !m.notFound, "one completion notice")
	v.Assert(m.announced > 0 && m.announced == len(m.tracks), "all tracks are announced before completion")
	m.complete, m.inFlush = true, true
}

func (m *demux) OnTrackNotFind() {
	v.Assert(!m.complete && !m.notFound, "one completion notice")
	v.Assert(len(m.tracks) == 0, "not found only without tracks")
	m.notFound = true
}

func (m *demux) OnPacket(p *avformat.AVPacket) {
	v.Assert(m.complete, "packets come after the completion notice")
	v.Assert(m.headOwed == 0, "released before the next delivery")
	for _, t := range m.tracks {
		for i, s := range t.packets {
			// a released block's memory is used again
			if !m.carries(p, t, s) || s.gone {
				continue
			}
			v.Assert(!s.delivered, "delivered at most once")
			s.delivered = true
			m.last = s
			if s.want != nil {
				v.Assert(v.EqBytes(p.Data, s.want), "a delivered packet holds what was written for it")
			}
			v.Assert(len(s.data) == len(p.Data), "the whole payload")
			v.Assert(i+1 < len(t.packets), "delivered once a later packet of the track is there")
			v.Assert(v.And(p.Dts == s.dts, p.Pts == s.pts, p.Key == s.key), "timestamps and key flag")
			v.Assert(v.And(p.Index == t.index, p.Timebase == t.timebase, p.BufferIndex == t.buffer), "track, timebase and buffer")
			v.Assert(p.CodecID == s.id && (p.MediaType == utils.AVMediaTypeVideo) == s.video, "codec and media type")
			v.Assert(p.Duration == t.packets[i+1].dts-s.dts, "duration is the distance to the next packet")
			v.Assert(!m.hook || s.hooked == 1 == s.video, "video packets are preprocessed, once")
			if !m.disorder {
				v.Assert(i == t.delivered, "in arrival order within the track")
			}
			t.delivered++
			if m.inFlush {
				v.Assert(m.flushed == 0 || p.Dts >= m.flushDts, "probed packets by ascending timestamp")
				m.flushed++
				m.flushDts = p.Dts
			}
			if m.d.AutoFree {
				m.headOwed = t.buffer + 1
			}
			return
		}
	}
	v.Fail("only packets that were accepted are delivered")
}

func (m *demux) find(buffer int) *sentTrack {
	for _, t := range m.tracks {
		if t.buffer == buffer {
			return t
		}
	}
	return nil
}

// done tells whether probing is over, by the notices seen.
func (m *demux) done() bool { return m.complete || m.notFound }

// expectDelivered: once complete, all but the last packet of every track have been delivered.
func (m *demux) expectDelivered() {
	m.inFlush = false
	v.Assert(m.headOwed == 0, "released after delivery")
	v.Assert(m.complete || m.announced == 0, "announcing and completing go together")
	v.Assert(m.d.Completed == m.done(), "completion is announced")
	for _, t := range m.tracks {
		n := len(t.packets) - 1
		if n < 0 || !m.complete {
			n = 0
		}
		v.Assert(t.delivered == n, "each packet is delivered when the next one of its track is there")
	}
}

// packet hands over a packet; accept tells whether it must be taken. The track is created when it is the first.
func (m *demux) packet(buffer int, s *sent, accept bool) {
	t := m.find(buffer)
	back, done := m.back, m.done()
	if accept {
		if t == nil {
			t = m.newTrack(buffer, s.video, s.id, m.d.GetTimebase())
		}
		t.packets = append(t.packets, s)
	}
	keep := clone(s.data)
	if s.video {
		m.d.OnVideoPacket(buffer, s.id, s.data, s.key, s.dts, s.pts, m.d.GetPackType())
	} else {
		m.d.OnAudioPacket(buffer, s.id, s.data, s.dts)
	}
	v.Assert(v.EqBytes(keep, s.data), "the payload is left alone")
	if !accept {
		v.Assert(m.back == back+1 && m.backIndex == buffer, "a rejected packet's block is discarded")
		v.Assert(m.d.Tracks.Size() == len(m.tracks), "and no track created")
	} else {
		v.Assert(m.back == back, "an accepted packet's block is kept")
		v.Assert(m.d.Tracks.Size() == len(m.tracks), "its track exists")
		if !done && !m.disorder {
			m.timing(t)
		}
	}
	m.expectDelivered()
}

// timing decides whether the newest packet of t had to complete the probe: not before the track spans max(200, probe) ms; and
// certainly when it does after every packet's duration is rounded down to milliseconds.
func (m *demux) timing(t *sentTrack) {
	n := len(t.packets)
	limit := int64(v.IteInt(m.probe > 200, m.probe, 200))
	span := t.packets[n-1].dts - t.packets[0].dts
	per := int64(t.timebase / 1000)
	if m.complete {
		v.Assert(n > 1 && span >= limit*per, "completed no earlier than the probe duration")
		m.early = true
	} else if n > 1 {
		v.Assert(span < (limit+int64(n-1))*per, "completed once the probe duration is spanned")
	}
}

func (m *demux) newTrack(buffer int, video bool, id utils.AVCodecID, timebase int) *sentTrack {
	t := &sentTrack{index: len(m.tracks), buffer: buffer, video: video, id: id, timebase: timebase}
	m.tracks = append(m.tracks, t)
	return t
}

// announce tells the demuxer about a track of a codec without configuration.
func (m *demux) announce(buffer int, video bool, id utils.AVCodecID, timebase int) {
	done, back := m.done(), m.back
	accept := !done
	for _, t := range m.tracks {
		if t.video == video && m.d.Name != "ts" {
			accept = false
		}
	}
	if accept {
		m.newTrack(buffer, video, id, timebase)
	}
	var t avformat.Track
	if video {
		t = m.d.OnNewVideoTrack(buffer, id, timebase, nil)
	} else {
		t = m.d.OnNewAudioTrack(buffer, id, timebase, nil, avformat.AudioConfig{})
	}
	v.Assert((t != nil) == accept, "a track is refused after completion or when there is one of its type")
	v.Assert(m.d.Tracks.Size() == len(m.tracks) && m.back == back, "and kept otherwise")
	m.expectDelivered()
}

// request completes the probe explicitly.
func (m *demux) request() {
	m.d.ProbeComplete()
	v.Assert(m.done() && m.complete == (len(m.tracks) > 0), "completed on request")
	m.expectDelivered()
}

// audio hands over an audio packet of one arbitrary byte.
func (m *demux) audio(buffer int, dts int64) {
	m.packet(buffer, &sent{data: v.Bytes(1), dts: dts, pts: dts, id: utils.AVCodecIdPCMALAW}, m.find(buffer) != nil || !m.done())
}

// video hands over a video packet of one arbitrary byte of a codec whose tracks are announced; another stream of the codec takes
// over the configuration, except in formats that announce every track.
func (m *demux) video(buffer int, dts int64) {
	m.packet(buffer, &sent{data: v.Bytes(1), dts: dts, pts: v.Int64(), key: v.Bool(), video: true, id: utils.AVCodecIdMJPEG}, m.takesVideo(buffer))
}

func (m *demux) takesVideo(buffer int) bool {
	accept := m.find(buffer) != nil
	if !accept && !m.done() && m.d.GetPackType() == avformat.PacketTypeAnnexB {
		for _, t := range m.tracks {
			accept = accept || t.video
		}
	}
	return accept
}

func anyDemuxer() *demux { return newDemux([]string{"flv", "ps", "ts", "jt1078"}[v.Choose(4)]) }

// advance is a later or equal timestamp, at most about 12 days later.
func advance(ts int64) int64 { return ts + int64(v.IntRange(0, 1<<30)) }

// C22_Probe: one track (announced video or from its first packet) of up to 5 (thorough 7) packets, every non-decreasing
// timestamp, every probe duration, both timebases; then the probe is requested if still going.
func C22_Probe() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	m.probe = v.Int()
	v.Assume(v.And(m.probe > -1<<32, m.probe < 1<<32))
	m.d.SetProbeDuration(m.probe)
	video := v.Choose(2) == 1
	if video {
		m.announce(3, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
	}
	ts := int64(v.IntRange(-1<<40, 1<<40))
	for i := 0; i < maxLen(5, 7); i++ {
		if video {
			m.video(3, ts)
		} else {
			m.audio(3, ts)
		}
		ts = advance(ts)
	}
	if !m.done() {
		m.request()
		v.Reach("requested")
	}
	m.request()
	if m.early {
		v.Reach("probe complete")
	}
	v.Reach("done")
}

// C22_Two: every sequence of 6 (thorough 7) steps over a video and an audio track that is there from its first packet: a packet of
// either with any non-decreasing timestamps, or a request; then a request and a packet of each.
func C22_Two() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	if v.Choose(2) == 1 {
		m.setHook()
	}
	m.announce(1, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
	a, b := int64(v.IntRange(0, 1<<30)), int64(v.IntRange(0, 1<<30))
	for i := 0; i < maxLen(6, 7); i++ {
		switch v.Choose(3) {
		case 0:
			m.audio(0, a)
			a = advance(a)
		case 1:
			m.video(1, b)
			b = advance(b)
		default:
			if m.done() {
				return
			}
			m.request()
		}
	}
	m.request()
	m.audio(0, a)
	m.video(1, b)
	v.Reach("done")
}

// C22_Disorder: one or two tracks with arbitrary timestamps below 2^40 in magnitude: 4 (thorough 5) packets, then a request and a
// packet of each.
func C22_Disorder() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	m.disorder = true
	ts := func() int64 { return int64(v.IntRange(-1<<40, 1<<40)) }
	two := v.Choose(2) == 1
	m.announce(1, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
	for i := 0; i < maxLen(4, 5); i++ {
		if two && v.Choose(2) == 1 {
			m.audio(0, ts())
		} else {
			m.video(1, ts())
		}
	}
	m.request()
	m.video(1, ts())
	m.audio(0, ts())
	v.Reach("done")
}

// C22_Tracks: every sequence of 4 (thorough 5) steps on a demuxer of each kind: announcing an audio or video track, a first packet for
// a new audio stream, a packet for an unknown video stream, or a request; then a request and a packet for every buffer.
func C22_Tracks() {
	m := anyDemuxer()
	for i := 0; i < maxLen(4, 5); i++ {
		switch v.Choose(5) {
		case 0:
			m.announce(i, false, utils.AVCodecIdPCMALAW, 1000)
		case 1:
			m.announce(i, true, utils.AVCodecIdMJPEG, 1000)
		case 2:
			m.audio(i, int64(i))
		case 3:
			m.video(i, int64(i))
		default:
			m.request()
		}
	}
	m.request()
	for i := 0; i < maxLen(4, 5); i++ {
		if t := m.find(i); t != nil && t.video {
			m.video(i, 1000)
		} else {
			m.audio(i, 1000)
		}
	}
	if m.notFound {
		v.Reach("not found")
	} else {
		v.Reach("complete")
	}
}

// C22_Stable: many probed packets, 13..20 of each of two tracks, with equal timestamps or in groups of equal timestamps: still in arrival
// order within each track and in ascending order overall.
func C22_Stable() {
	m := newDemux("flv")
	m.announce(0, true, utils.AVCodecIdMJPEG, 1000)
	m.announce(1, false, utils.AVCodecIdPCMALAW, 1000)
	n := []int{13, 20}[v.Choose(2)]
	group := []int{1, 2, 7, 100}[v.Choose(4)]
	base := int64(1000)
	if n == 13 && group == 2 {
		base = int64(v.Uint32())
	}
	inter := v.Choose(2) == 1
	for i := 0; i < n; i++ {
		m.video(0, base+int64(i/group))
		if inter {
			m.audio(1, base+int64(i/group))
		}
	}
	for i := 0; !inter && i < n; i++ {
		m.audio(1, base+int64(i/group))
	}
	m.request()
	v.Reach("done")
}

// C22_Tentative: a tentative request completes the probe unless a PCM or G.726 track has fewer than two packets; tracks: one of PCM,
// G.726 or another codec, and a video track; 0..3 packets each in any order.
func C22_Tentative() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	id := []utils.AVCodecID{utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726, utils.AVCodecIdPCMALAW}[v.Choose(3)]
	if v.Choose(2) == 1 {
		m.announce(1, true, utils.AVCodecIdMJPEG, 1000)
	}
	if v.Choose(2) == 1 {
		m.announce(0, false, id, 1000)
	}
	for n := v.Choose(4); n > 0; n-- {
		if m.find(1) != nil && v.Choose(2) == 1 {
			m.video(1, int64(10-n))
		} else {
			m.packet(0, &sent{data: v.Bytes(1), dts: int64(10 - n), pts: int64(10 - n), id: id}, true)
		}
	}
	need := false
	if t := m.find(0); t != nil && id != utils.AVCodecIdPCMALAW && len(t.packets) < 2 {
		need = true
	}
	m.d.TryCompleteProbe()
	v.Assert(m.done() == !need, "completes unless more data is needed")
	m.expectDelivered()
	if need {
		v.Reach("needs more")
	}
	m.request()
	v.Reach("done")
}

// C22_Gaps: one track of 3 packets with gaps of up to 2^44 units (6 years of the finer timebase); then a request.
func C22_Gaps() {
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	ts := int64(v.IntRange(-1<<40, 1<<40))
	for i := 0; i < 3; i++ {
		m.audio(3, ts)
		ts += int64(v.IntRange(0, 1<<44))
	}
	if m.early {
		v.Reach("probe complete")
	}
	m.request()
	v.Reach("done")
}

// nosy is a handler that calls the demuxer from within a callback.
type nosy struct {
	*demux
	calls, at int
	do        func()
}

func (x *nosy) hit() {
	if x.calls++; x.calls == x.at {
		x.do()
		v.Reach("called from a callback")
	}
}
func (x *nosy) OnNewTrack(t avformat.Track) {
	x.demux.OnNewTrack(t)
	x.hit()
}
func (x *nosy) OnTrackComplete() {
	x.demux.OnTrackComplete()
	x.hit()
}
func (x *nosy) OnTrackNotFind() {
	x.demux.OnTrackNotFind()
	x.hit()
}
func (x *nosy) OnPacket(p *avformat.AVPacket) {
	x.demux.OnPacket(p)
	x.hit()
}

// C22_Nosy: a handler that, in any one of its callbacks, requests completion in either way, announces another track, or hands over a
// packet of an unknown stream: completion goes on as if it had not, and what it offers is refused. 0 to 2 tracks of 0 to 3 packets;
// completed on request or by the probe duration.
func C22_Nosy() {
	m := newDemux([]string{"flv", "ts"}[v.Choose(2)])
	x := &nosy{demux: m, at: 1 + v.Choose(6)}
	m.d.SetHandler(x)
	switch v.Choose(4) {
	case 0:
		x.do = m.d.ProbeComplete
	case 1:
		x.do = m.d.TryCompleteProbe
	case 2:
		x.do = func() {
			n := m.d.Tracks.Size()
			v.Assert(m.d.OnNewVideoTrack(9, utils.AVCodecIdMJPEG, 1000, nil) == nil, "a video track is refused after completion")
			v.Assert(m.d.OnNewAudioTrack(9, utils.AVCodecIdPCMALAW, 1000, nil, avformat.AudioConfig{}) == nil, "an audio track is refused after completion")
			v.Assert(m.d.Tracks.Size() == n, "no track is added")
		}
	case 3:
		x.do = func() {
			n, back := m.d.Tracks.Size(), m.back
			m.d.OnAudioPacket(9, utils.AVCodecIdPCMALAW, []byte{1}, 5)
			m.d.OnVideoPacket(9, utils.AVCodecIdMJPEG, []byte{1}, true, 5, 5, m.d.GetPackType())
			v.Assert(m.d.Tracks.Size() == n && m.back == back+2, "packets of unknown streams are refused after completion")
			m.back = back
		}
	}
	a, b := v.Choose(4), v.Choose(3)
	gap := int64(v.Choose(2)) * int64(m.d.GetTimebase()) // a second
	for i := 0; i < a; i++ {
		m.audio(1, int64(i)*gap)
	}
	if !m.done() {
		for i := 0; i < b; i++ {
			m.audio(2, int64(i)*gap)
		}
	}
	m.request()
	if a > 0 {
		m.audio(1, 10*gap)
	}
	v.Reach("done")
}
