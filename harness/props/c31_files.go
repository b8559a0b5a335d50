package props

import (
	"os"
	"strconv"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// fileTrack is a track whose packets go to a file, with what the file must hold.
type fileTrack struct {
	s    *avformat.AVStream
	name string
	sets [][]byte
	h265 bool
	want []byte
}

type fileCase struct {
	h      *avformat.OnUnpackStream2FileHandler
	path   string
	tracks []*fileTrack
}

func newFileCase() *fileCase {
	c := &fileCase{path: v.TempDir() + "/out"}
	c.h = &avformat.OnUnpackStream2FileHandler{Path: c.path}
	return c
}

// add announces a track; stale bytes may be in its file from an earlier run.
func (c *fileCase) add(kind int, stale int) {
	t := &fileTrack{}
	switch kind {
	case 0, 1:
		t.h265 = kind == 1
		t.sets = setsOf(t.h265)
		t.s = streamOf(t.h265, t.sets, 4)
	case 2:
		t.s = avformat.NewAVStream(utils.AVMediaTypeAudio, 0, utils.AVCodecIdPCMALAW, nil, nil)
	case 3:
		t.s = avformat.NewAVStream(utils.AVMediaTypeAudio, 0, utils.AVCodecIdAAC, nil, nil)
	}
	t.s.Index = len(c.tracks)
	t.name = c.path + "." + t.s.MediaType.String() + "." + strconv.Itoa(t.s.Index) + "." + t.s.CodecID.String()
	if stale > 0 {
		v.Assert(os.WriteFile(t.name, make([]byte, stale), 0644) == nil, "earlier file")
	}
	c.tracks = append(c.tracks, t)
	c.h.OnNewTrack(&avformat.SimpleTrack{Stream: t.s})
}

// packet writes one packet of a track and adds to what its file must hold.
func (c *fileCase) packet(t *fileTrack) {
	if t.sets == nil {
		data := v.Bytes(v.Choose(2) * 3)
		t.want = append(t.want, data...)
		c.h.OnPacket(avformat.NewAudioPacket(data, 1, t.s.CodecID, t.s.Index, 1000))
		return
	}
	var units [][]byte
	own := v.Choose(2) == 1
	if own {
		units = append(units, t.sets...)
	}
	units = append(units, frameUnit(t.h265, 2))
	if own || v.Thorough() && v.Choose(2) == 1 {
		units = append(units, frameUnit(t.h265, 3))
	}
	key := v.Choose(2) == 1
	pack := avformat.PacketType(1 + v.Choose(2))
	var data []byte
	form := annexBForm(t.h265, units)
	if pack == avformat.PacketTypeAVCC {
		data = lengthForm(units, 4)
		form = annexBForm(t.h265, withoutSEI(t.h265, units))
	} else {
		data = clone(form)
	}
	if key && !own {
		t.want = append(t.want, concat(t.sets)...)
		v.Reach("sets added")
	}
	t.want = append(t.want, form...)
	c.h.OnPacket(avformat.NewVideoPacket(data, 1, 2, key, pack, t.s.CodecID, t.s.Index, 1000))
}

func (c *fileCase) check() {
	for _, t := range c.tracks {
		got, err := os.ReadFile(t.name)
		v.Assert(err == nil, "a track's file is named after its media type, index and codec")
		v.Assert(v.EqBytes(got, t.want), "a file holds exactly its track's packets")
	}
	v.Assert(v.Files() == len(c.tracks), "one file for each track")
}

// C31_Packets: 1..2 tracks of any kind (H.264, H.265, two audio codecs), files that are new or hold 40 bytes of an earlier
// run, then 0..2 (thorough 3) packets of any of them: 0 or 3 bytes of audio, or video of 1..2 units of arbitrary bytes, with or
// without its own parameter sets, in either form, key or not.
func C31_Packets() {
	c := newFileCase()
	stale := v.Choose(2) * 40
	for n := 1 + v.Choose(2); n > 0; n-- {
		c.add(v.Choose(4), stale)
	}
	c.h.OnTrackComplete()
	n := 2
	if v.Thorough() {
		n = 3
	}
	for n = v.Choose(n + 1); n > 0; n-- {
		c.packet(c.tracks[v.Choose(len(c.tracks))])
	}
	c.check()
	v.Reach("done")
}

// C31_Demuxer: audio of two streams through a demuxer that frees packets automatically: 2..5 (thorough 7) packets of 1..3 arbitrary
// bytes of either stream, in any order, the end of probing requested after any of them; all but the last packet of each stream
// are in its file, in order.
func C31_Demuxer() {
	path := v.TempDir() + "/out"
	d := &avformat.BaseDemuxer{Name: "ts", AutoFree: true, DataPipeline: &avformat.StreamsBuffer{}}
	d.SetHandler(&avformat.OnUnpackStream2FileHandler{Path: path})
	ids := []utils.AVCodecID{utils.AVCodecIdPCMALAW, utils.AVCodecIdOPUS}
	var sent [2][][]byte
	var order []int
	last := 5
	if v.Thorough() {
		last = 7
	}
	n := 2 + v.Choose(last-1)
	end := v.Choose(n)
	done := false
	for i := 0; i < n; i++ {
		k := v.Choose(2)
		data := v.Bytes(1 + (i+k)%3)
		_, err := d.DataPipeline.Write(data, k, utils.AVMediaTypeAudio)
		v.Assert(err == nil, "written")
		b, err := d.DataPipeline.Fetch(k)
		v.Assert(err == nil && len(b) == len(data), "fetched")
		d.OnAudioPacket(k, ids[k], b, int64(10*i))
		if len(sent[k]) > 0 || !done {
			if len(sent[k]) == 0 {
				order = append(order, k)
			}
			sent[k] = append(sent[k], data)
		}
		if i == end {
			d.ProbeComplete()
			done = true
		}
	}
	for i, k := range order {
		var want []byte
		for j, p := range sent[k] {
			if j+1 < len(sent[k]) {
				want = append(want, p...)
			}
		}
		got, err := os.ReadFile(path + ".audio." + strconv.Itoa(i) + "." + ids[k].String())
		v.Assert(err == nil && v.EqBytes(got, want), "a file holds the packets of its stream in order")
	}
	v.Assert(v.Files() == len(order), "one file for each stream")
	v.Reach("done")
}
