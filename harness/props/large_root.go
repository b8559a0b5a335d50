package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// manyPrefixed is n length-prefixed units of fixed bytes, those of index k-1..k+1 with an arbitrary first byte.
func manyPrefixed(n, size int, length func(i int) int, k int, plain byte) (data []byte, units [][]byte) {
	for i := 0; i < n; i++ {
		u := filler(length(i))
		u[0] = plain
		if i >= k-1 && i <= k+1 {
			u[0] = v.Byte()
		}
		data = append(append(data, be32(len(u))[4-size:]...), u...)
		units = append(units, u)
	}
	return
}

// C07_Many: 40 units of 2..5 bytes, one of them, at the front, in the middle or at the end, of 130, 300 or 66000 bytes; the type of
// that one and its neighbours is arbitrary; no or 300 bytes of supplied parameter sets; both converters.
func C07_Many() {
	k := []int{0, 20, 38}[v.Choose(3)]
	big := bigSizes[v.Choose(3)]
	data, units := manyPrefixed(40, 4, someSize(big, k), k, 0x41)
	var extra []byte
	if v.Choose(2) == 1 {
		extra = filler(300)
	}
	kind := v.Choose(2)
	got := convert264(kind, data, extra, len(data)+len(extra)+8)
	v.Assert(v.EqBytes(got, h264AnnexB(units, extra, kind == 1)), "the same units in order, parameter sets before the first IDR slice if the packet has none")
	v.Reach("done")
}

// C08_Many: the same for H.265, with every length-field size that fits.
func C08_Many() {
	k := []int{0, 20, 38}[v.Choose(3)]
	big, size := bigSizes[v.Choose(4)], 1+v.Choose(4)
	if size < 4 && big >= 1<<uint(8*size) {
		return
	}
	data, units := manyPrefixed(40, size, someSize(big, []int{0, 20, 39}[v.Choose(3)]), k, 2)
	var extra []byte
	if v.Choose(2) == 1 {
		extra = filler(300)
	}
	dst := make([]byte, len(data)+len(extra)+200)
	n, err := hevc.Mp4ToAnnexB(dst, data, extra, size)
	v.Assert(err == nil, "a well-formed packet is converted")
	v.Assert(v.EqBytes(dst[:n], h265AnnexB(units, extra)), "the same units in order, parameter sets once before the first random-access unit")
	v.Reach("done")
}

// C13_Far: 1, 2 or 40 units of arbitrary skipped types and of 2 to 66000 bytes, then one of arbitrary type and one more; either codec
// and entry point.
func C13_Far() {
	h265 := v.Choose(2) == 1
	n := []int{1, 2, 40}[v.Choose(3)]
	size := []int{2, 300, 66000}[v.Choose(3)]
	if n == 40 && size > 300 {
		return
	}
	var p, h []byte
	for i := 0; i < n+2; i++ {
		u := filler(size)
		u[0] = v.Byte()
		if i < n {
			if h265 {
				t := u[0] >> 1 & 0x3f
				v.Assume(v.And(t >= 32, t <= 40, t != 36, t != 37, t != 38))
			} else {
				v.Assume(v.And(u[0]&0x1f >= 6, u[0]&0x1f <= 9))
			}
		}
		h = append(h, u[0])
		p = append(p, withCode(u, 1+i&1)...)
	}
	v.Assert(isKey(h265, v.Choose(2), p) == keyByHeaders(h265, h), "key exactly when the first unit that is not skipped is a key slice")
	v.Reach("done")
}

// C14_Large: parameter sets of up to 70000 bytes among others of up to 66000, in either order, the first one twice, once or the last one missing, and up to 40 other
// units before, between or after them; either codec.
func C14_Large() {
	h265 := v.Choose(2) == 1
	kinds := []byte{0x67, 0x68}
	other := byte(0x41)
	if h265 {
		kinds, other = []byte{0x40, 0x42, 0x44}, 2
	}
	if v.Choose(2) == 1 {
		kinds[0], kinds[len(kinds)-1] = kinds[len(kinds)-1], kinds[0]
	}
	kinds = append(kinds, kinds[0])
	// with the first one again, once each, or one missing
	kinds = kinds[:len(kinds)-v.Choose(3)]
	var p []byte
	var units [][]byte
	add := func(h byte, n int) {
		u := filler(n)
		u[0], u[n-1] = h, v.Byte()|0x80
		p = append(p, withCode(u, 1+len(units)&1)...)
		units = append(units, u)
	}
	where := v.Choose(4)
	size := []int{4, 300, 70000}[v.Choose(3)]
	for i, h := range kinds {
		if i == where {
			for n := []int{1, 40}[v.Choose(2)]; n > 0; n-- {
				add(other, 3)
			}
			add(other, []int{300, 66000}[v.Choose(2)])
		}
		add(h, size+i)
	}
	add(other|4, 5)
	checkExtract(h265, p, units)
}

// C22_Long: 90 packets of each of two tracks in one of three interleavings, with regular timestamps, probing ended on
// request after one (then with an arbitrary start), 20 or all of them or by itself.
func C22_Long() {
	v.Pool(1 + v.Choose(3))
	v.Steps(1 << 28)
	m := newDemux([]string{"flv", "ps"}[v.Choose(2)])
	if v.Choose(2) == 1 {
		m.setHook()
	}
	m.announce(1, true, utils.AVCodecIdMJPEG, m.d.GetTimebase())
	end := []int{0, 20, 89, 1000}[v.Choose(4)]
	if end < 1000 {
		m.d.SetProbeDuration(1 << 30)
		m.probe = 1 << 30
	} else {
		m.d.SetProbeDuration(2000)
		m.probe = 2000
	}
	order := v.Choose(3)
	base := int64(1000000)
	if end == 0 {
		base = int64(v.IntRange(0, 1<<40))
	}
	step := int64(m.d.GetTimebase() / 25)
	for i := 0; i < 90; i++ {
		ts := base + int64(i)*step
		switch order {
		case 0:
			m.audio(0, ts)
			m.video(1, ts)
		case 1:
			m.video(1, ts)
			if i%9 == 8 {
				for k := 8; k >= 0; k-- {
					m.audio(0, ts-int64(k)*step)
				}
			}
		default:
			m.video(1, ts)
			m.audio(0, ts+step/2)
		}
		if i == end {
			m.request()
		}
	}
	if end == 1000 {
		v.Assert(m.early, "completed by the probe duration")
	}
	v.Reach("done")
}

// C22_ManyTracks: 14 and 70 tracks of either type, announced or from their first packet, in a format that allows it; two packets each, a
// request in between, in ascending or descending order of the tracks.
func C22_ManyTracks() {
	v.Pool(1 + v.Choose(3))
	v.Steps(1 << 28)
	m := newDemux("ts")
	n := []int{14, 70}[v.Choose(2)]
	mode, down := v.Choose(2), v.Choose(2) == 1
	at := func(i int) int {
		if down {
			i = n - 1 - i
		}
		return i
	}
	put := func(i int, ts int64) {
		if i&1 == 1 {
			m.video(i, ts)
		} else {
			m.audio(i, ts)
		}
	}
	for i := 0; i < n; i++ {
		if at(i)&1 == 1 || mode == 0 {
			m.announce(at(i), at(i)&1 == 1, []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdMJPEG}[at(i)&1], 90000)
		} else {
			put(at(i), 0)
		}
	}
	for i := 0; i < n; i++ {
		put(at(i), 10)
	}
	m.request()
	for i := 0; i < n; i++ {
		put(at(i), 20)
	}
	v.Reach("done")
}

// big writes a block of n bytes, the first and last arbitrary, and hands it over as a packet.
func (m *demux) big(buffer int, video bool, n int, dts int64) {
	p := filler(n)
	p[0], p[n-1] = v.Byte(), v.Byte()
	t := utils.AVMediaTypeAudio
	if video {
		t = utils.AVMediaTypeVideo
	}
	_, err := m.Write(p, buffer, t)
	v.Assert(err == nil, "written")
	m.blockPacket(buffer, video, dts, map[int][]byte{buffer: p})
}

// C23_Long: 60 audio and 60 video packets of 1..9 bytes over buffers of 8 bytes, freed automatically or by the application that keeps up
// to 1, 20 or all of them; end of probing after 1 or 30 packets.
func C23_Long() {
	v.Pool(1 + v.Choose(3))
	v.Steps(1 << 28)
	m := newBlockDemux([]string{"flv", "ps"}[v.Choose(2)], 8, v.Choose(2) == 1)
	m.disorder = true
	keep := []int{1, 20, 200}[v.Choose(3)]
	end := []int{1, 30}[v.Choose(2)]
	m.announce(1, true, utils.AVCodecIdMJPEG, 1000)
	for i := 0; i < 60; i++ {
		m.big(1, true, 1+i*7%9, int64(i))
		m.big(0, false, 1+i*5%9, int64(i))
		for _, t := range m.tracks {
			for !m.d.AutoFree && len(m.blocks[t.buffer]) > keep {
				if !m.release(t) {
					break
				}
			}
		}
		if i == end {
			m.request()
		}
		if i%8 == 0 {
			m.intact()
			m.outstanding()
		}
	}
	m.intact()
	m.outstanding()
	v.Reach("done")
}

// C23_Wrap: packets of 70000 to 900000 bytes through the stream buffers the demuxers use, which wrap around and grow; freed automatically
// or kept up to 1 or 3.
func C23_Wrap() {
	v.Pool(1 + v.Choose(3))
	m := newBlockDemux("flv", 0, v.Choose(2) == 1)
	keep := []int{1, 3}[v.Choose(2)]
	m.announce(1, true, utils.AVCodecIdMJPEG, 1000)
	sizes := [][]int{{300000, 70000, 900000, 400000, 500000, 600000, 300000, 200000}, {900000, 900000, 900000, 100000, 900000, 5}}[v.Choose(2)]
	for i, n := range sizes {
		m.big(1, true, n, int64(i))
		m.big(0, false, n/3+1, int64(i))
		for _, t := range m.tracks {
			for !m.d.AutoFree && len(m.blocks[t.buffer]) > keep {
				if !m.release(t) {
					break
				}
			}
		}
		if i == 1 {
			m.request()
		}
		m.intact()
		m.outstanding()
	}
	v.Reach("done")
}

// C24_Large: packets of up to 30 units of which one has 130, 300 or 66000 bytes, of either codec and form, key or not, parameter
// sets of 4 or 70000 bytes, own or default allocator; both conversions in either order.
func C24_Large() {
	v.Steps(1 << 28)
	c := &packetCase{h265: v.Choose(2) == 1, key: v.Choose(2) == 1, pack: avformat.PacketType(1 + v.Choose(2)), size: 4}
	c.sets = setsOf(c.h265)
	if v.Choose(2) == 1 {
		for i, u := range c.sets {
			c.sets[i] = append(u, filler(70000)...)
		}
	}
	n := []int{2, 30}[v.Choose(2)]
	at := (n - 1) * v.Choose(2)
	size := someSize(bigSizes[v.Choose(3)], at)
	for i := 0; i < n; i++ {
		u := filler(size(i) + 1)
		u[0], u[1] = 0x61, 0x81
		if c.h265 {
			u[0] = 2
		}
		if i == at {
			u[len(u)-1] = v.Byte() | 1
		}
		c.units = append(c.units, u)
	}
	var a *allocator
	if v.Choose(2) == 1 {
		a = &allocator{}
	}
	c.run(a, v.Choose(2) == 1, false)
	v.Reach("done")
}

// C27_Large: codec data from records with up to 31 SPS (AVC), 40 PPS (AVC 255) and PPS of up to 60000 bytes, and from one set of each
// kind of that size.
func C27_Large() {
	v.Steps(1 << 28)
	h265 := v.Choose(2) == 1
	sps, w, h := fixedSPS(h265, v.Choose(3))
	size := []int{3, 300, 60000}[v.Choose(3)]
	pps := func(i int) []byte {
		u := filler(size)
		u[0], u[1], u[2] = 0x68, 0x80|byte(i), v.Byte()|0x80
		if h265 {
			u[0] = 0x44
		}
		return u
	}
	vps := append([]byte{0x40, 1}, filler(size)...)
	sl, pl, vl := [][]byte{sps}, [][]byte{pps(0)}, [][]byte{vps}
	if !h265 {
		vl = nil
	}
	if v.Choose(2) == 0 {
		c, err := newCodecData(h265, withCode(vps, 2), withCode(sps, 2), withCode(pl[0], 1))
		v.Assert(err == nil, "valid parameter sets are accepted")
		describes(c, h265, vl, sl, pl, w, h)
		return
	}
	n, k := 40, 3
	if size > 300 {
		n = 2
	} else if !h265 {
		k = 31
		if size == 3 {
			n = 255
		}
	}
	for len(pl) < n {
		pl = append(pl, pps(len(pl)))
	}
	for len(sl) < k {
		sl = append(sl, sps)
	}
	var rec []byte
	if h265 {
		rec = hevcRecord([]hevcArray{{32, vl}, {33, sl}, {34, pl}})
	} else {
		rec = avcRecord(sl, pl)
	}
	c, err := parseRecord(h265, rec)
	v.Assert(err == nil, "a valid record is accepted")
	describes(c, h265, vl, sl, pl, w, h)
	v.Reach("done")
}

// C28_Many: 40 tracks of different codecs and types, every codec and type looked up; 70 markers, then an arbitrary one.
func C28_Many() {
	if v.Choose(2) == 0 {
		var m avformat.TrackManager
		var want []avformat.Track
		for i := 0; i < 40; i++ {
			s := avformat.NewAVStream(utils.AVMediaType(i*3%7), 0, utils.AVCodecID(i*7%31), nil, nil)
			t := &avformat.SimpleTrack{Stream: s}
			v.Assert(m.Add(t), "added")
			want = append(want, t)
		}
		checkTracks(&m, want)
		v.Reach("tracks")
		return
	}
	var d avformat.BaseDemuxer
	for i := 0; i < 70; i++ {
		v.Assert(d.FindBufferIndex(i*1000003) == i, "consecutive indices")
	}
	x := v.Int()
	got := d.FindBufferIndex(x)
	k := 0
	for k < 70 && x != k*1000003 {
		k++
	}
	v.Assert(got == k, "one index per marker, in order of appearance")
	for i := 0; i < 70; i++ {
		v.Assert(d.FindBufferIndex(i*1000003) == i, "which it keeps")
	}
	v.Reach("markers")
}

// C29_Long: strings of 63..65, 100, 255..257 and 1000 characters, every outcome of the random source.
func C29_Long() {
	sizes := []int{63, 64, 65, 100, 255, 256, 257, 1000}
	n := sizes[v.Choose(len(sizes))]
	s := utils.RandStringBytes(n)
	v.Assert(len(s) == n, "the requested length")
	for i := 0; i < len(s); i++ {
		c := s[i]
		v.Assert(v.Or(v.And(c >= '0', c <= '9'), v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), "letters and digits only")
	}
	v.Reach("done")
}

// C30_Large: 3, then 2 writes of 500 or chosen from 10, 1000 and 70000 bytes (the first and last arbitrary) with a rewind of 0, 1, 900 or 69000 among
// them and a fetch after them; then 300 writes of 1..7 bytes.
func C30_Large() {
	d := &avformat.DirectDataPipeline{}
	var want []byte
	write := func(n int) {
		p := filler(n)
		p[0], p[n-1] = v.Byte(), v.Byte()
		_, err := d.Write(clone(p), 0, utils.AVMediaTypeVideo)
		want = append(want, p...)
		v.Assert(err == nil && d.PendingBlockSize(0) == len(want), "pending size")
	}
	fetch := func() {
		got, err := d.Fetch(0)
		v.Assert(err == nil && v.EqBytes(got, want), "fetch gives exactly the pending bytes")
		want = nil
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < 3-round; i++ {
			if i < 2-round {
				write([]int{10, 1000, 70000}[v.Choose(3)])
			} else {
				write(500)
			}
			if i == 1 {
				n := []int{0, 1, 900, 69000}[v.Choose(4)]
				d.Seek(int64(-n), 0)
				if n > len(want) {
					n = len(want)
				}
				want = want[:len(want)-n]
			}
		}
		fetch()
	}
	for i := 0; i < 300; i++ {
		write(1 + i*5%7)
	}
	fetch()
	v.Reach("done")
}

// C31_Many: 12 tracks of all kinds, three packets of 14 or 70 bytes each, of which one track's have 70000 bytes.
func C31_Many() {
	c := newFileCase()
	big := []int{0, 2, 11}[v.Choose(3)]
	order := v.Choose(2)
	small := []int{14, 70}[v.Choose(2)]
	for i := 0; i < 12; i++ {
		c.add([]int{2, 3, 0, 1}[(i+order)%4], 0)
	}
	c.h.OnTrackComplete()
	for k := 0; k < 3; k++ {
		for i, t := range c.tracks {
			n := small
			if i == big {
				n = 70000
			}
			u := filler(n)
			u[0], u[n-1] = 2, v.Byte()|1
			if t.sets == nil {
				t.want = append(t.want, u...)
				c.h.OnPacket(avformat.NewAudioPacket(u, 1, t.s.CodecID, t.s.Index, 1000))
				continue
			}
			if k == 0 {
				t.want = append(t.want, concat(t.sets)...)
			}
			t.want = append(t.want, concat([][]byte{u})...)
			data := lengthForm([][]byte{u}, 4)
			if k == 1 {
				data = concat([][]byte{u})
			}
			c.h.OnPacket(avformat.NewVideoPacket(data, 1, 2, k == 0, avformat.PacketType(2-k&1), t.s.CodecID, t.s.Index, 1000))
		}
	}
	c.check()
	v.Reach("done")
}
