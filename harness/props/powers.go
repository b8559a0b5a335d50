package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"
	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// Sizes at and around powers of two, where chunked or block-wise code has its corners.

var blockSizes = []int{188, 255, 256, 257, 512, 1024, 1316, 2048, 4095, 4096, 4097, 8192, 12288, 16384, 32768, 65535, 65536, 65537}

// blockOf gives n bytes without zeros in the first 241, of which the first, the last and the one in the middle are arbitrary.
func blockOf(n int) []byte {
	p := filler(n)
	p[0], p[n/2], p[n-1] = v.Byte(), v.Byte(), v.Byte()
	return p
}

// unitOf is a unit of n bytes with an arbitrary header and end.
func unitOf(n int) []byte {
	p := filler(n)
	p[0], p[n-1] = v.Byte(), v.Byte()|0x80
	v.Assume(v.And(p[0] != 0, p[0] != 1))
	return p
}

// C01_Powers: whole blocks of 18 sizes from 188 to 65537 bytes copied through a bit writer and read back through a bit reader, after 0 or
// 1 other bytes.
func C01_Powers() {
	n, off := blockSizes[v.Choose(len(blockSizes))], v.Choose(2)
	p := blockOf(n)
	w := &bufio.BitsWriter{Data: make([]byte, off+n+3)}
	w.Seek(off * 8)
	w.WriteBytes(p)
	v.Assert(w.Offset == (off+n)*8, "the position moves by the block")
	v.Assert(v.EqBytes(w.Data[off:off+n], p) && w.Data[off+n] == 0, "the block is written and nothing else")
	r := &bufio.BitsReader{Data: w.Data}
	r.Seek(off * 8)
	v.Assert(v.EqBytes(r.ReadBytes(n), p) && r.Offset == (off+n)*8, "the block is read back")
	v.Reach("done")
}

// C02_Powers: blocks of 18 sizes from 188 to 65537 bytes written and read through byte cursors, after 0 or 1 other bytes; one byte less room and
// the write is refused.
func C02_Powers() {
	n, off := blockSizes[v.Choose(len(blockSizes))], v.Choose(2)
	p := blockOf(n)
	buf := make([]byte, off+n)
	w := bufio.NewBytesWriter(buf)
	v.Assert(w.Seek(off) == nil && w.Write(p) == nil && w.Offset() == off+n, "a block that fits is written")
	v.Assert(v.EqBytes(w.WrittenBytes()[off:], p), "the block is written")
	r := bufio.NewBytesReader(buf)
	v.Assert(r.Seek(off) == nil, "seek")
	got, err := r.ReadBytes(n)
	v.Assert(err == nil && v.EqBytes(got, p) && r.ReadableBytes() == 0, "the block is read back")
	w.Reset(buf[:off+n-1])
	v.Assert(w.Seek(off) == nil && w.Write(p) != nil && w.Offset() == off, "a block that does not fit is refused")
	v.Reach("done")
}

// C05_Powers: a unit of 18 sizes from 188 to 65537 bytes between two small ones.
func C05_Powers() {
	n := blockSizes[v.Choose(len(blockSizes))]
	units := [][]byte{unitOf(2), unitOf(n), unitOf(3)}
	form := 1 + v.Choose(2)
	var p []byte
	for _, u := range units {
		p = append(p, withCode(u, form)...)
	}
	k, at := 0, 0
	avc.SplitNalU(p, func(b []byte) {
		v.Assert(k < 3 && v.EqBytes(avc.RemoveStartCode(b), units[k]), "each unit")
		v.Assert(at+len(b) <= len(p) && v.EqBytes(b, p[at:at+len(b)]), "pieces of the stream")
		at += len(b)
		k++
	})
	v.Assert(k == 3 && at == len(p), "all units")
	v.Reach("done")
}

// C06_Powers: the same converted to the length-prefixed form.
func C06_Powers() {
	n := blockSizes[v.Choose(len(blockSizes))]
	units := [][]byte{unitOf(2), unitOf(n), unitOf(3)}
	form := 1 + v.Choose(2)
	var p, want []byte
	for _, u := range units {
		p = append(p, withCode(u, form)...)
		want = append(append(want, be32(len(u))...), u...)
	}
	v.Assert(v.EqBytes(toAVCC(p), want), "each unit after its length")
	v.Reach("done")
}

// C07_Powers: the same from the length-prefixed form, by both H.264 converters, with parameter sets of 5 bytes or without.
func C07_Powers() {
	n := blockSizes[v.Choose(len(blockSizes))]
	units := [][]byte{unitOf(2), unitOf(n), unitOf(3)}
	var data, extra []byte
	for _, u := range units {
		data = append(append(data, be32(len(u))...), u...)
	}
	if v.Choose(2) == 1 {
		extra = v.Bytes(5)
	}
	kind := v.Choose(2)
	want := h264AnnexB(units, extra, kind == 1)
	v.Assert(v.EqBytes(convert264(kind, data, extra, len(data)+20), want), "the units after start codes")
	v.Reach("done")
}

// C08_Powers: the same for H.265, with length fields of 2 (where they can hold it), 3 and 4 bytes.
func C08_Powers() {
	n := blockSizes[v.Choose(len(blockSizes))]
	units := [][]byte{unitOf(2), unitOf(n), unitOf(3)}
	size := 2 + v.Choose(3)
	v.Assume(size > 2 || n < 65536)
	var data, extra []byte
	for _, u := range units {
		data = append(append(data, be32(len(u))[4-size:]...), u...)
	}
	if v.Choose(2) == 1 {
		extra = v.Bytes(5)
	}
	want := h265AnnexB(units, extra)
	dst := make([]byte, len(data)+30)
	k, err := hevc.Mp4ToAnnexB(dst, data, extra, size)
	v.Assert(err == nil && k == len(want) && v.EqBytes(dst[:k], want), "the units after start codes")
	v.Reach("done")
}

// powers writes a block of 18 sizes from 188 to 65537 bytes in one or two parts, between two of 3 bytes, into a block buffer that starts with
// room for 64 or 4096 bytes, checks all three while they are in use and after each release.
func powers(b collections.BlockBuffer) {
	n := blockSizes[v.Choose(len(blockSizes))]
	parts := 1 + v.Choose(2)
	var got, want [][]byte
	intact := func() {
		for i := range got {
			v.Assert(v.EqBytes(got[i], want[i]), "blocks in use keep their bytes")
		}
	}
	for _, m := range []int{3, n, 3} {
		p := blockOf(m)
		if parts == 2 && m > 3 {
			b.Write(p[:m/2])
			v.Assert(b.PendingBlockSize() == m/2, "pending bytes")
			copy(b.Alloc(m-m/2), p[m/2:])
		} else {
			b.Write(p)
		}
		v.Assert(b.PendingBlockSize() == m, "pending bytes")
		got, want = append(got, b.Fetch()), append(want, p)
		intact()
	}
	for len(got) > 0 {
		b.Pop()
		got, want = got[1:], want[1:]
		intact()
	}
	b.Write([]byte{1, 2})
	v.Assert(v.EqBytes(b.Fetch(), []byte{1, 2}), "and used again")
	v.Reach("done")
}

// C19_Powers: blocks of 18 sizes from 188 to 65537 bytes in a buffer with room for 64 or 4096 bytes at first.
func C19_Powers() { powers(collections.NewDirectBlockBuffer(64 << (6 * v.Choose(2)))) }

// C20_Powers: the same in a circular buffer.
func C20_Powers() { powers(collections.NewRBBlockBuffer(64 << (6 * v.Choose(2)))) }

// C30_Powers: two writes of 18 sizes from 188 to 65537 bytes each, a rewind of nothing or one such size between them, and a fetch; then once
// more in the memory that is there.
func C30_Powers() {
	d := &avformat.DirectDataPipeline{}
	a, b := blockSizes[v.Choose(len(blockSizes))], blockSizes[v.Choose(len(blockSizes))]
	back := v.Choose(2) * 256
	for i := 0; i < 2; i++ {
		p, q := blockOf(a), blockOf(b)
		d.Write(clone(p), 0, utils.AVMediaTypeVideo)
		if back > 0 {
			d.Seek(int64(-back), 0)
			p = p[:len(p)-bufio.MinInt(back, len(p))]
		}
		d.Write(clone(q), 0, utils.AVMediaTypeVideo)
		v.Assert(d.PendingBlockSize(0) == len(p)+len(q), "pending bytes")
		got, err := d.Fetch(0)
		v.Assert(err == nil && v.EqBytes(got, append(clone(p), q...)), "fetch gives exactly the pending bytes")
	}
	v.Reach("done")
}

// C32_Powers: a block of 18 sizes from 188 to 65537 bytes on each of two streams, in one or two parts, and intact until released.
func C32_Powers() {
	c := newStreamsCase()
	n := blockSizes[v.Choose(len(blockSizes))]
	streams := []int{0, 1}
	for _, i := range streams {
		p := blockOf(n)
		if v.Choose(2) == 1 {
			c.write(i, p[:n/2])
			p = p[n/2:]
		}
		c.write(i, p)
		c.check(streams)
	}
	for _, i := range streams {
		c.fetch(i)
		c.write(i, blockOf(3))
		c.fetch(i)
		c.check(streams)
	}
	for _, i := range streams {
		c.head(i, 0)
		c.check(streams)
	}
	v.Reach("done")
}

// C24_Powers: a packet of a frame unit of 18 sizes from 188 to 65537 bytes, of either codec, asked for in both forms.
func C24_Powers() {
	n := blockSizes[v.Choose(len(blockSizes))]
	h265 := v.Choose(2) == 1
	id := utils.AVCodecIdH264
	if h265 {
		id = utils.AVCodecIdH265
	}
	u := filler(n)
	u[0], u[1], u[n-1] = 0x41, 1, v.Byte()|0x80
	if h265 {
		u[0] = 2
	}
	sets := setsOf(h265)
	s := streamOf(h265, sets, 4)
	key := v.Choose(2) == 1
	var lead [][]byte
	if key {
		lead = sets
	}
	length := v.Choose(2) == 1
	p := avformat.NewVideoPacket(annexBForm(h265, [][]byte{u}), 0, 0, key, avformat.PacketTypeAnnexB, id, 0, 90000)
	if length {
		p.Data, p.PacketType = lengthForm([][]byte{u}, 4), avformat.PacketTypeAVCC
	}
	out := avformat.AVCCPacket2AnnexB(s, p)
	all := append(append([][]byte{}, lead...), u)
	k := 0
	avc.SplitNalU(out, func(b []byte) {
		v.Assert(k < len(all) && v.EqBytes(avc.RemoveStartCode(b), all[k]), "the parameter sets of a key frame and the unit")
		k++
	})
	v.Assert(k == len(all), "all units")
	v.Assert(v.EqBytes(avformat.AnnexBPacket2AVCC(p), lengthForm([][]byte{u}, 4)), "the length-prefixed form")
	v.Reach("done")
}
