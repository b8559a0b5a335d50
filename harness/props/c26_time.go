package props

import (
	"math/bits"

	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// timebases in use: seconds, frames, milliseconds, audio rates, MPEG, microseconds, the MPEG system clock.
var timebases = []int{1, 25, 1000, 8000, 11025, 16000, 44100, 48000, 90000, 1000000, 27000000}

func someTimebase() int { return timebases[v.Choose(len(timebases))] }

// exactConversion asserts that got is ts*dst/src rounded toward zero; no product overflows within the bounds.
func exactConversion(got, ts int64, src, dst int, msg string) {
	p, s := ts*int64(dst), int64(src)
	v.Assert(v.And(got <= 1<<62/s, got >= -(1<<62)/s), msg)
	d := p - got*s
	v.Assert(v.Or(
		v.And(p >= 0, got >= 0, d >= 0, d < s),
		v.And(p < 0, got <= 0, d <= 0, d > -s)), msg)
}

// realisticTs is any timestamp whose products with both timebases stay below 2^61: 2^36 for the finest timebase, 2^41 for
// microseconds, 2^44 for 90000, 2^51 for milliseconds.
func realisticTs(src, dst int) int64 {
	if dst > src {
		src = dst
	}
	b := 61 - bits.Len64(uint64(src))
	ts := v.Int64()
	v.Assume(v.And(ts > -(1<<b), ts < 1<<b))
	return ts
}

// C26_Exact: every pair of the timebases above, every timestamp within realisticTs.
func C26_Exact() {
	src, dst := someTimebase(), someTimebase()
	ts := realisticTs(src, dst)
	exactConversion(avformat.ConvertTs(ts, src, dst), ts, src, dst, "the exact value rounded toward zero")
	v.Reach("done")
}

// C26_Order: between the timebases 1000, 8000, 48000 and 90000 the order of every two timestamps is preserved (for the others
// it follows from C26_Exact).
func C26_Order() {
	some := []int{1000, 8000, 48000, 90000}
	src, dst := some[v.Choose(4)], some[v.Choose(4)]
	a, b := realisticTs(src, dst), realisticTs(src, dst)
	v.Assume(a <= b)
	v.Assert(avformat.ConvertTs(a, src, dst) <= avformat.ConvertTs(b, src, dst), "order preserved")
	v.Reach("done")
}

// C26_Multiples: the same, for every multiple of the source timebase (exact) and, where one timebase is a multiple of the
// other, there and back (lossless).
func C26_Multiples() {
	src, dst := someTimebase(), someTimebase()
	ts := realisticTs(src, dst)
	if dst%src == 0 {
		got := avformat.ConvertTs(ts, src, dst)
		v.Assert(got == ts*int64(dst/src), "to a finer timebase that is a multiple: exact")
		v.Assert(avformat.ConvertTs(got, dst, src) == ts, "to a finer timebase and back")
		v.Reach("finer")
	}
	sec := v.Int64()
	v.Assume(v.And(sec > -(1<<30), sec < 1<<30))
	v.Assert(avformat.ConvertTs(sec*int64(src), src, dst) == sec*int64(dst), "whole seconds are exact")
	v.Reach("seconds")
}

func anyPacket(timebase int) *avformat.AVPacket {
	var p *avformat.AVPacket
	if v.Choose(2) == 0 {
		p = avformat.NewVideoPacket(nil, v.Int64(), v.Int64(), v.Bool(), avformat.PacketTypeAVCC, utils.AVCodecIdH264, 0, timebase)
	} else {
		p = avformat.NewAudioPacket(nil, v.Int64(), utils.AVCodecIdAAC, 0, timebase)
		p.Pts = v.Int64()
	}
	p.Duration = v.Int64()
	return p
}

// C26_Own: every 64-bit timestamp and duration and every timebase (0 and negative ones included) in its own timebase.
func C26_Own() {
	tb := v.Int()
	p := anyPacket(tb)
	dts, pts, d := p.Dts, p.Pts, p.Duration
	v.Assert(p.ConvertDts(tb) == dts, "decoding timestamp unchanged")
	v.Assert(p.ConvertPts(tb) == pts, "presentation timestamp unchanged")
	v.Assert(p.GetDuration(tb) == d, "duration unchanged")
	v.Assert(p.GetPtsDtsDelta(tb) == pts-dts, "offset unchanged")
	v.Assert(v.And(p.Dts == dts, p.Pts == pts, p.Duration == d), "the packet is left alone")
	v.Reach("done")
}

// C26_Packet: a packet's timestamps, duration and offset between every pair of the timebases above.
func C26_Packet() {
	src, dst := someTimebase(), someTimebase()
	p := anyPacket(src)
	delta := realisticTs(src, dst)
	p.Dts, p.Pts, p.Duration = realisticTs(src, dst), realisticTs(src, dst), realisticTs(src, dst)
	exactConversion(p.ConvertDts(dst), p.Dts, src, dst, "decoding timestamp")
	exactConversion(p.ConvertPts(dst), p.Pts, src, dst, "presentation timestamp")
	exactConversion(p.GetDuration(dst), p.Duration, src, dst, "duration")
	p.Pts = p.Dts + delta
	exactConversion(p.GetPtsDtsDelta(dst), delta, src, dst, "offset")
	v.Reach("done")
}
