package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

func someTrack() avformat.Track {
	s := avformat.NewAVStream(utils.AVMediaType(v.Int()), 0, utils.AVCodecID(v.Int()), nil, nil)
	return &avformat.SimpleTrack{Stream: s}
}

// checkTracks compares a track list with what was added: order, size, and the first match of any codec and media type.
func checkTracks(m *avformat.TrackManager, want []avformat.Track) {
	v.Assert(m.Size() == len(want), "number of tracks")
	id, typ := utils.AVCodecID(v.Int()), utils.AVMediaType(v.Int())
	first := func(match func(s *avformat.AVStream) bool) avformat.Track {
		for _, t := range want {
			if match(t.GetStream()) {
				return t
			}
		}
		return nil
	}
	for i, t := range want {
		v.Assert(m.Get(i) == t, "tracks in the order they were added")
	}
	v.Assert(m.Find(id) == first(func(s *avformat.AVStream) bool { return s.CodecID == id }), "first track of a codec")
	v.Assert(m.FindTrackWithType(typ) == first(func(s *avformat.AVStream) bool { return s.MediaType == typ }), "first track of a type")
}

// C28_List: 0..5 (thorough 7) tracks of arbitrary codec and media type; every codec and type looked up.
func C28_List() {
	var m avformat.TrackManager
	var want []avformat.Track
	for n := v.Choose(maxLen(6, 8)); n > 0; n-- {
		t := someTrack()
		v.Assert(m.Add(t), "added")
		want = append(want, t)
	}
	checkTracks(&m, want)
	v.Reach("done")
}

// C28_Muxer: up to 4 (thorough 5) tracks of arbitrary type: one per media type, retrievable under the reported index, also when the
// header is written before any of them.
func C28_Muxer() {
	var m avformat.BaseMuxer
	var want []avformat.Track
	header := v.Choose(maxLen(4, 5) + 1)
	for i := 0; i < maxLen(4, 5); i++ {
		if i == header {
			n, err := m.WriteHeader(nil)
			v.Assert(n == 0 && err == nil, "the base muxer has no header of its own")
		}
		t := someTrack()
		dup := false
		for _, o := range want {
			dup = dup || o.GetStream().MediaType == t.GetStream().MediaType
		}
		n, err := m.AddTrack(t)
		if dup {
			v.Assert(err != nil, "a second track of a media type is refused")
			v.Reach("refused")
			continue
		}
		want = append(want, t)
		v.Assert(err == nil && n == len(want)-1, "consecutive indices")
		v.Assert(m.Tracks.Get(n) == t, "retrievable under its index")
	}
	checkTracks(&m.Tracks, want)
	v.Reach("done")
}

// C28_Markers: up to 5 (thorough 6) lookups of arbitrary stream markers: a marker keeps its buffer index, new ones get consecutive ones.
func C28_Markers() {
	var d avformat.BaseDemuxer
	var seen []int
	for i := 0; i < maxLen(5, 6); i++ {
		x := v.Int()
		var got int
		if v.Choose(2) == 1 {
			got = d.FindBufferIndexByMediaType(utils.AVMediaType(x))
		} else {
			got = d.FindBufferIndex(x)
		}
		k := 0
		for k < len(seen) && seen[k] != x {
			k++
		}
		if k == len(seen) {
			seen = append(seen, x)
		}
		v.Assert(got == k, "one index per marker, in order of appearance")
	}
	v.Reach("done")
}

func private(s *avformat.AVStream, given, keep []byte) {
	v.Assert(v.EqBytes(s.Data, keep) && !v.Overlap(s.Data, given), "a private copy of the configuration")
	for i := range given {
		given[i] ^= 0xff
	}
	v.Assert(v.EqBytes(s.Data, keep), "unaffected by later changes")
}

// C28_Video: announcing video tracks on each kind of demuxer: H.264 or H.265 with one of 3 SPS and an arbitrary PPS, as a record or as
// Annex-B; then a second one and an audio track.
func C28_Video() {
	m := anyDemuxer()
	h265, which := v.Choose(2) == 1, v.Choose(3)
	timebase := v.Int()
	make1 := func() (data []byte, w, h int) {
		sps, w, h := fixedSPS(h265, which)
		pps := plainPPS(h265, 2)
		vps := []byte{0x40, 1, 0x80}
		switch {
		case m.d.GetPackType() == avformat.PacketTypeAVCC && h265:
			data = hevcRecord([]hevcArray{{32, [][]byte{vps}}, {33, [][]byte{sps}}, {34, [][]byte{pps}}})
		case m.d.GetPackType() == avformat.PacketTypeAVCC:
			data = avcRecord([][]byte{sps}, [][]byte{pps})
		case h265:
			data = concat([][]byte{vps, sps, pps})
		default:
			data = concat([][]byte{sps, pps})
		}
		return data, w, h
	}
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	for i := 0; i < 2; i++ {
		data, w, h := make1()
		keep := clone(data)
		back := m.back
		t := m.d.OnNewVideoTrack(5+i, id, timebase, data)
		v.Assert(m.back == back+1 && m.backIndex == 5+i, "the configuration's block is given back")
		if i == 1 && m.d.Name != "ts" {
			v.Assert(t == nil && m.d.Tracks.Size() == 1, "one per media type")
			continue
		}
		v.Assert(t != nil, "accepted")
		s := t.GetStream()
		v.Assert(v.And(s.Index == i, s.CodecID == id, s.MediaType == utils.AVMediaTypeVideo, s.Timebase == timebase), "index, codec, type and timebase")
		v.Assert(m.d.Tracks.Get(i) == t, "under its index")
		v.Assert(s.CodecParameters != nil && s.CodecParameters.Width() == w && s.CodecParameters.Height() == h, "dimensions")
		private(s, data, keep)
	}
	t := m.d.OnNewAudioTrack(9, utils.AVCodecIdPCMALAW, timebase, nil, avformat.AudioConfig{SampleRate: 8000, Channels: 1})
	v.Assert(t != nil && t.GetStream().Index == m.d.Tracks.Size()-1, "an audio track has its own place")
	v.Reach("done")
}

// C28_Audio: announcing audio tracks on each kind of demuxer: AAC with every two-byte configuration of a listed sampling rate, or with
// its parameters given because packets carry ADTS headers, or another codec with 0 or 3 bytes of configuration; then a second one.
func C28_Audio() {
	m := anyDemuxer()
	rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
	given := avformat.AudioConfig{SampleRate: v.Int(), SampleSize: v.Int(), Channels: v.Int(), BitRate: v.Int()}
	timebase := v.Int()
	for i := 0; i < 2; i++ {
		id, conf, want := utils.AVCodecIdAAC, v.Bytes(2), given
		switch v.Choose(4) {
		case 0:
			k := v.Choose(len(rates))
			ch := int(v.Byte()&7) + 1
			v.Assume(ch < 8)
			conf = []byte{0x10 | byte(k>>1), byte(k&1)<<7 | byte(ch)<<3}
			want.SampleRate, want.Channels = rates[k], v.IteInt(ch == 7, 8, ch)
		case 1:
			want.HasADTSHeader = true
		case 2:
			id, conf = utils.AVCodecIdOPUS, v.Bytes(3)
		case 3:
			id, conf = utils.AVCodecIdMP3, nil
		}
		config := given
		config.HasADTSHeader = want.HasADTSHeader
		keep := clone(conf)
		back := m.back
		t := m.d.OnNewAudioTrack(3+i, id, timebase, conf, config)
		v.Assert(len(conf) == 0 && m.back == back || m.back == back+1 && m.backIndex == 3+i, "the configuration's block is given back")
		if i == 1 && m.d.Name != "ts" {
			v.Assert(t == nil && m.d.Tracks.Size() == 1, "one per media type")
			continue
		}
		v.Assert(t != nil, "accepted")
		s := t.GetStream()
		v.Assert(v.And(s.Index == i, s.CodecID == id, s.MediaType == utils.AVMediaTypeAudio, s.Timebase == timebase), "index, codec, type and timebase")
		v.Assert(m.d.Tracks.Get(i) == t, "under its index")
		g := s.AudioConfig
		v.Assert(v.And(g.SampleRate == want.SampleRate, g.Channels == want.Channels), "sampling rate and channels")
		v.Assert(v.And(g.SampleSize == want.SampleSize, g.BitRate == want.BitRate, g.HasADTSHeader == want.HasADTSHeader), "the rest as given")
		private(s, conf, keep)
	}
	v.Reach("done")
}

// C28_FromPackets: tracks that appear with their first packet: a key frame with parameter sets (H.264 or H.265, one of 3 SPS, arbitrary
// PPS and slice), an AAC packet with an arbitrary valid ADTS header, or another audio codec; in either order, on each kind of demuxer;
// a second video stream takes over the parameter sets.
func C28_FromPackets() {
	m := newDemux([]string{"ps", "ts", "jt1078", "flv"}[v.Choose(4)])
	order := v.Choose(2)
	video := func() {
		h265, which := v.Choose(2) == 1, v.Choose(3)
		id := utils.AVCodecIdH264
		sps, w, h := fixedSPS(h265, which)
		sets := [][]byte{sps, plainPPS(h265, 3)}
		slice := frameUnit(h265, 3)
		if h265 {
			id = utils.AVCodecIdH265
			sets = append([][]byte{{0x40, 1, 0x80}}, sets...)
		}
		data := concat(sets, [][]byte{slice})
		key := v.Choose(2) == 1
		at := m.d.Tracks.Size()
		s := &sent{data: data, dts: 1, pts: 2, key: key, video: true, id: id}
		accept := key && m.d.Name != "flv"
		m.packet(0, s, accept)
		if !accept {
			v.Reach("no track yet")
			return
		}
		st := m.d.Tracks.Get(at).GetStream()
		v.Assert(st.Index == at && st.MediaType == utils.AVMediaTypeVideo && st.CodecID == id && st.Timebase == m.d.GetTimebase(), "index, type, codec and timebase")
		v.Assert(v.EqBytes(st.Data, concat(sets)) && !v.Overlap(st.Data, data), "a private copy of the parameter sets")
		v.Assert(st.CodecParameters.Width() == w && st.CodecParameters.Height() == h, "dimensions")
		m.packet(7, &sent{data: withCode(slice, 2), dts: 1, pts: 2, video: true, id: id}, true)
		other := m.d.Tracks.Get(at + 1).GetStream()
		v.Assert(other.Index == at+1 && v.EqBytes(other.Data, st.Data), "another stream of the codec takes over the parameter sets")
	}
	audio := func() {
		at := m.d.Tracks.Size()
		if v.Choose(2) == 0 {
			m.packet(1, &sent{data: v.Bytes(3), dts: 1, pts: 1, id: utils.AVCodecIdPCMALAW}, true)
			st := m.d.Tracks.Get(at).GetStream()
			v.Assert(st.Index == at && st.MediaType == utils.AVMediaTypeAudio && st.Timebase == m.d.GetTimebase(), "index, type and timebase")
			v.Assert(st.SampleRate == 8000 && st.Channels == 1 && st.SampleSize == 16, "telephone audio unless known better")
			return
		}
		rates := []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
		k, ch := v.Choose(len(rates)), int(v.Byte()&7)
		p := v.Bytes(9)
		p[0], p[1] = 0xff, 0xf0|p[1]&9
		p[2] = 1<<6 | byte(k)<<2 | byte(ch>>2)
		p[3] = byte(ch&3)<<6 | p[3]&0x3f
		m.packet(1, &sent{data: p, dts: 1, pts: 1, id: utils.AVCodecIdAAC}, true)
		st := m.d.Tracks.Get(at).GetStream()
		v.Assert(v.And(st.SampleRate == rates[k], st.Channels == v.IteInt(ch == 7, 8, ch)) && st.HasADTSHeader, "sampling rate and channels of the ADTS header")
		v.Assert(v.EqBytes(st.Data, []byte{2<<3 | byte(k>>1), byte(k&1)<<7 | byte(ch)<<3}), "and its configuration")
		v.Reach("aac")
	}
	if order == 0 {
		video()
		audio()
	} else {
		audio()
		video()
	}
	v.Reach("done")
}

var estimateSizes = []int{0, 1, 40, 80, 160, 161, 320, 339, 340, 640, 641, 960, 1279, 1940, 3200}

// estimate runs a probe with two packets of a codec, the first of the given size and ms long, among a video track and possibly a
// second track of the codec, with or without packets, and returns its streams. What the first track says counts for both.
func estimate(id utils.AVCodecID, size int, ms int64, given avformat.AudioConfig) []*avformat.AVStream {
	m := newDemux([]string{"flv", "ts"}[v.Choose(2)])
	if v.Choose(2) == 1 {
		m.announce(0, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
		m.video(0, 0)
	}
	t := m.d.OnNewAudioTrack(1, id, m.d.GetTimebase(), nil, given)
	streams := []*avformat.AVStream{t.GetStream()}
	m.newTrack(1, false, id, m.d.GetTimebase())
	if m.d.Name == "ts" && v.Choose(2) == 1 {
		t = m.d.OnNewAudioTrack(2, id, m.d.GetTimebase(), nil, given)
		m.newTrack(2, false, id, m.d.GetTimebase())
		streams = append(streams, t.GetStream())
	}
	if len(streams) > 1 && v.Choose(2) == 1 {
		// packets of the second track arrive first
		m.d.OnAudioPacket(2, id, make([]byte, 777), 900)
		m.d.OnAudioPacket(2, id, make([]byte, 7), 900+int64(m.d.GetTimebase()/50))
	}
	m.d.OnAudioPacket(1, id, make([]byte, size), 1000)
	unit := int64(m.d.GetTimebase() / 1000)
	m.d.OnAudioPacket(1, id, make([]byte, 7), 1000+ms*unit)
	v.Assert(!m.done(), "still probing")
	h := &estimated{}
	m.d.SetHandler(h)
	m.d.ProbeComplete()
	v.Assert(h.tracks == m.d.Tracks.Size(), "announced")
	return streams
}

// estimated counts announcements.
type estimated struct{ tracks int }

func (e *estimated) OnNewTrack(avformat.Track)     { e.tracks++ }
func (e *estimated) OnTrackComplete()              {}
func (e *estimated) OnTrackNotFind()               { v.Fail("there are tracks") }
func (e *estimated) OnPacket(p *avformat.AVPacket) {}

// C28_PCM: a first packet of 15 sizes up to 3200 bytes lasting every whole number of milliseconds from 0 to 199: the sampling rate is that
// of 16-bit mono audio of up to 16, 32, 64 or 96 bytes per millisecond, else what was announced.
func C28_PCM() {
	size := estimateSizes[v.Choose(len(estimateSizes))]
	ms := v.IntRange(0, 199)
	given := avformat.AudioConfig{SampleRate: v.Int(), BitRate: v.Int()}
	for _, s := range estimate(utils.AVCodecIdPCMS16LE, size, int64(ms), given) {
		want := given.SampleRate
		for i := 3; i >= 0; i-- {
			k := []int{16, 32, 64, 96}[i]
			want = v.IteInt(v.And(ms > 0, size < (k+1)*ms), []int{8000, 16000, 32000, 48000}[i], want)
		}
		v.Assert(s.SampleRate == want, "sampling rate bracket")
		v.Assert(s.BitRate == given.BitRate, "bit rate left alone")
	}
	v.Reach("done")
}

// C28_G726: the same for G.726 at up to 16, 24, 32 and 40 kbit/s; the bit rate is decided by whole bytes per millisecond or exactly.
func C28_G726() {
	size := estimateSizes[v.Choose(len(estimateSizes))]
	ms := v.IntRange(0, 199)
	given := avformat.AudioConfig{SampleRate: v.Int(), BitRate: v.Int()}
	for _, s := range estimate(utils.AVCodecIdADPCMG726, size, int64(ms), given) {
		whole, exact := given.BitRate, given.BitRate
		for i := 3; i >= 0; i-- {
			k := i + 2
			whole = v.IteInt(v.And(ms > 0, size < (k+1)*ms), 8000*k, whole)
			exact = v.IteInt(v.And(ms > 0, size <= k*ms), 8000*k, exact)
		}
		v.Assert(v.Or(s.BitRate == whole, s.BitRate == exact), "bit rate bracket")
		v.Assert(s.SampleRate == given.SampleRate, "sampling rate left alone")
	}
	v.Reach("done")
}
