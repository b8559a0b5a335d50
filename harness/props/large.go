package props

import (
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

// The harnesses of this file go far instead of wide: sizes, positions and histories beyond the usual representation limits, most of the
// data fixed, the bytes that matter arbitrary.

// filler is n fixed bytes without zeros or ones, of a period no operation of the code shares.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n && i < 241; i++ {
		b[i] = byte(0x0b + i)
	}
	for i := 241; i < n; i *= 2 {
		m := i
		if n-i < m {
			m = n - i
		}
		m -= m % 241
		if m == 0 {
			m = n - i
		}
		copy(b[i:i+m], b[:m])
		if m < i {
			copy(b[i+m:], b[:n-i-m])
			break
		}
	}
	return b
}

// symbolicAt makes the k bytes at p arbitrary.
func symbolicAt(b []byte, p, k int) { copy(b[p:p+k], v.Bytes(k)) }

var far = []int{30, 254, 8190, 65534}

// C01_Far: 70000 bytes; bits addressed around bytes 32, 256, 8192 and 65536, 1..64 bits, the bytes there arbitrary; direct and through
// the cursors.
func C01_Far() {
	data := filler(70000)
	at := far[v.Choose(len(far))]
	symbolicAt(data, at, 12)
	start := 8*at + v.Choose(20)
	n := []int{1, 8, 13, 33, 64}[v.Choose(5)]
	want := bitsSpec(data, start, n)
	r := bufio.BitsReader{Data: data}
	switch v.Choose(4) {
	case 0:
		v.Assert(bufio.ReadBits(data, start, n) == want, "ReadBits returns the addressed bits")
	case 1:
		r.Seek(start)
		v.Assert(v.And(r.Read(n) == want, r.Offset == start+n), "Read returns the next bits")
	case 2:
		val := v.Uint64()
		orig := clone(data)
		bufio.WriteBits(data, start, n, val)
		for p := 8 * at; p < 8*(at+12); p++ {
			w := bitAt(orig, p)
			if p >= start && p < start+n {
				w = val >> uint(start+n-1-p) & 1
			}
			v.Assert(bitAt(data, p) == w, "WriteBits stores exactly the addressed bits")
		}
		v.Assert(v.EqBytes(data[:at], orig[:at]) && v.EqBytes(data[at+12:], orig[at+12:]), "WriteBits touches nothing else")
	default:
		r.Seek(8 * at)
		b := r.ReadBytes(300)
		v.Assert(v.EqBytes(b, data[at:at+300]) && r.Offset == 8*(at+300), "ReadBytes returns the next bytes")
		w := bufio.BitsWriter{Data: data}
		w.Seek(8 * at)
		src := filler(601)[300:]
		orig := clone(data)
		copy(orig[at:], src)
		w.WriteBytes(src)
		v.Assert(v.EqBytes(data, orig) && w.Offset == 8*(at+len(src)), "WriteBytes stores the bytes")
	}
	v.Reach("done")
}

// C02_Large: 70000 bytes; the cursor moved to around 32, 256, 8192 or 65536 in one move or by reading or writing that much, one operation
// of each width there, and back.
func C02_Large() {
	data := filler(70000)
	at := far[v.Choose(len(far))] + v.Choose(3)
	symbolicAt(data, at, 10)
	want := clone(data)
	off := 0
	if v.Choose(2) == 0 {
		r := bufio.NewBytesReader(data)
		if v.Choose(2) == 0 {
			v.Assert(r.Seek(at) == nil, "a seek inside the slice succeeds")
		} else {
			b, err := r.ReadBytes(at)
			v.Assert(err == nil && v.EqBytes(b, want[:at]), "ReadBytes returns the bytes at the cursor")
		}
		cursorViews(r, data, at)
		var got uint64
		var err error
		w := []int{1, 2, 3, 4, 8}[v.Choose(5)]
		switch w {
		case 1:
			var x uint8
			x, err = r.ReadUint8()
			got = uint64(x)
		case 2:
			var x uint16
			x, err = r.ReadUint16()
			got = uint64(x)
		case 3:
			var x uint32
			x, err = r.ReadUint24()
			got = uint64(x)
		case 4:
			var x uint32
			x, err = r.ReadUint32()
			got = uint64(x)
		default:
			got, err = r.ReadUint64()
		}
		off = at + w
		v.Assert(err == nil && got == beSpec(want[at:off]), "a fixed-width read is big-endian at the cursor")
		cursorViews(r, data, off)
		b, err := r.ReadBytes(70001 - off)
		v.Assert(err != nil && len(b) == 0, "a refused ReadBytes returns nothing")
		v.Assert(r.SeekBack(at-1) == nil && r.Offset() == w+1, "and back")
		_, err = r.ReadBytes(70000 - w - 1)
		v.Assert(err == nil, "to the end")
		cursorViews(r, data, 70000)
		return
	}
	r := bufio.NewBytesWriter(data)
	if v.Choose(2) == 0 {
		v.Assert(r.Seek(at) == nil, "a seek inside the slice succeeds")
	} else {
		src := filler(at + 100)[100:]
		v.Assert(r.Write(src) == nil, "a write that fits succeeds")
		copy(want, src)
	}
	cursorViews(r, data, at)
	val := v.Uint64()
	w := []int{1, 2, 4, 8}[v.Choose(4)]
	var err error
	switch w {
	case 1:
		err = r.WriteUint8(uint8(val))
	case 2:
		err = r.WriteUint16(uint16(val))
	case 4:
		err = r.WriteUint32(uint32(val))
	default:
		err = r.WriteUint64(val)
	}
	off = at + w
	for k := 0; k < w; k++ {
		want[at+k] = byte(val >> uint(8*(w-1-k)))
	}
	v.Assert(err == nil && v.EqBytes(data, want), "a fixed-width write is big-endian at the cursor")
	cursorViews(r, data, off)
	v.Assert(v.EqBytes(r.WrittenBytes(), want[:off]), "WrittenBytes shows what was written")
	v.Assert(r.Write(make([]byte, 70001-off)) != nil && v.EqBytes(data, want), "a refused write changes nothing")
	v.Assert(r.SeekBack(at-1) == nil && r.Offset() == w+1, "and back")
	v.Reach("done")
}

// C03_Far: codes of 1..17 bits at bit positions 0..7 after 31, 255, 8191 (thorough 65535) bytes.
func C03_Far() {
	at := []int{31, 255, 8191, 65535}[v.Choose(maxLen(3, 4))]
	w := &bitWriter{}
	pre := v.Choose(8)
	w.put(0, pre)
	k := v.Choose(9)
	info := v.Uint64()
	x := w.ue(k, info)
	w.put(0x2a, 6)
	w.put(0, 8)
	b := append(filler(at), w.bytes()...)
	r := golomb(b)
	for i := at; i > 0; {
		n := 4
		if i < n {
			n = i
		}
		r.ReadBits(8 * n)
		i -= n
	}
	r.ReadBits(pre)
	got, err := r.ReadExponentialGolombCode()
	v.Assert(err == nil && uint64(got) == x, "the code's value")
	rest, err := r.ReadBits(6)
	v.Assert(err == nil && rest == 0x2a, "and the cursor behind it")
	v.Reach("done")
}

// C04_Far: a start code after 0..7, 250..258, 8190 or 65533 other bytes and 0..3, 16, 254..257 or 300 zeros, followed by an arbitrary byte
// and another code; the first of them is reported by every variant.
func C04_Far() {
	pre := v.Choose(8)
	switch v.Choose(4) {
	case 1:
		pre += 250
	case 2:
		pre += 8188
	case 3:
		pre += 65529
	}
	zeros := []int{0, 1, 2, 3, 16, 254, 255, 256, 257, 300}[v.Choose(10)]
	p := append(filler(pre), make([]byte, zeros)...)
	p = append(append(p, 0, 0, 1), v.Byte(), 0x80, 0, 0, 0, 1, v.Byte(), 0x99)
	if v.Choose(2) == 1 {
		p = append(p, filler(300)...)
	}
	wi, ws := pre+zeros+3, 3
	if zeros > 0 {
		ws = 4
	}
	switch v.Choose(3) {
	case 0:
		i, n := avc.FindStartCode(p)
		v.Assert(i == wi && n == ws, "the first start code")
	case 1:
		v.Assert(avc.FindStartCode2(p) == wi-ws, "where the prefix starts")
	default:
		r := bufio.NewBytesReader(p)
		h := avc.FindStartCodeWithReader(r)
		v.Assert(v.And(h == int(p[wi]), r.Offset() == wi+1), "the unit header is returned, the reader stands behind it")
		h = avc.FindStartCodeWithReader(r)
		v.Assert(v.And(h == int(p[wi+6]), r.Offset() == wi+7), "and the next one")
	}
	v.Reach("done")
}

// manyUnits is an Annex-B stream of n units of fixed bytes, those of index i in [from,to) with an arbitrary header, start codes of
// alternating length.
func manyUnits(n int, size func(i int) int, arbitrary func(i int) bool, plain byte) (stream []byte, units [][]byte) {
	for i := 0; i < n; i++ {
		u := filler(size(i))
		u[0] = plain
		if arbitrary(i) {
			u[0] = v.Byte()
			v.Assume(u[0] > 2)
		}
		if (i*i+i)/2%3 != 0 || i == 0 {
			stream = append(stream, 0)
		}
		stream = append(append(stream, 0, 0, 1), u...)
		units = append(units, u)
	}
	return
}

// someSize gives most units a small size and one of them a large one.
func someSize(big, at int) func(int) int {
	return func(i int) int {
		if i == at {
			return big
		}
		return 2 + i%4
	}
}

var bigSizes = []int{300, 66000, 130, 1 << 17}

// C05_Large: 40 units of 2..5 bytes, one of them, the first, a middle or the last one, of 130, 300, 66000 or 131072 bytes; headers of
// that one and its neighbours arbitrary.
func C05_Large() {
	at := []int{0, 17, 39}[v.Choose(3)]
	stream, units := manyUnits(40, someSize(bigSizes[v.Choose(4)], at), func(i int) bool { return i >= at-1 && i <= at+1 }, 0x61)
	k := 0
	avc.SplitNalU(stream, func(piece []byte) {
		v.Assert(k < len(units), "no more pieces than units")
		v.Assert(v.EqBytes(avc.RemoveStartCode(piece), units[k]), "each unit is delivered in order and complete")
		k++
	})
	v.Assert(k == len(units), "every unit is delivered")
	v.Reach("done")
}

// C06_Many: the same streams to the length-prefixed form.
func C06_Many() {
	at := []int{0, 17, 39}[v.Choose(3)]
	stream, units := manyUnits(40, someSize(bigSizes[v.Choose(4)], at), func(i int) bool { return i >= at-1 && i <= at+1 }, 0x61)
	dst := make([]byte, len(stream)*2)
	n := avc.AnnexB2AVCC(dst, stream)
	v.Assert(v.EqBytes(dst[:n], lengthForm(units, 4)), "the same units, each after its length")
	v.Reach("done")
}

// C17_Large: rings of 64 and 256 elements, 1, c-1..c+1, 2c+3 pushes (arbitrary elements), then 0, 1, c-1 or all pops, and that once
// more; queues of initial capacity 1, 64 and 256 likewise, with removals at the back.
func C17_Large() {
	c := []int{64, 256}[v.Choose(2)]
	counts := []int{1, c - 1, c, c + 1, 2*c + 3}
	var want []int
	if v.Choose(2) == 0 {
		r := collections.NewRingBuffer[int](c)
		for round := 0; round < 2; round++ {
			for n := counts[v.Choose(len(counts))]; n > 0; n-- {
				x := v.Int()
				r.Push(x)
				if len(want) == c {
					want = want[1:]
				}
				want = append(want, x)
			}
			checkRing(r, want)
			for n := []int{0, 1, c - 1, c + 1}[v.Choose(4)]; n > 0; n-- {
				x := r.Pop()
				if len(want) > 0 {
					v.Assert(x == want[0], "the oldest element comes out")
					want = want[1:]
				} else {
					v.Assert(x == 0, "nothing comes out of an empty buffer")
				}
			}
			checkRing(r, want)
		}
		ringPush(r, want, c)
		return
	}
	q := collections.NewQueue[int]([]int{1, c}[v.Choose(2)])
	for round := 0; round < 2; round++ {
		for n := counts[v.Choose(len(counts))]; n > 0; n-- {
			x := v.Int()
			q.Push(x)
			want = append(want, x)
		}
		checkQueue(q, want)
		n := []int{0, 1, c - 1, c + 1}[v.Choose(4)]
		if n > 1 && v.Choose(2) == 1 {
			for ; n > 0 && len(want) > 0; n-- {
				v.Assert(q.PopBack() == want[len(want)-1], "the back element comes out")
				want = want[: len(want)-1 : len(want)-1]
			}
		}
		for ; n > 0; n-- {
			x := q.Pop()
			if len(want) > 0 {
				v.Assert(x == want[0], "the front element comes out")
				want = want[1:]
			} else {
				v.Assert(x == 0, "nothing comes out of an empty queue")
			}
		}
		checkQueue(q, want)
	}
	queuePush(q, want)
	v.Reach("done")
}

// C18_Large: a list of 40 (thorough 300) arbitrary elements, removals at the front, the back, the middle and one off those, an addition,
// and twice more.
func C18_Large() {
	l := &collections.LinkedList[int]{}
	var want []int
	n := maxLen(40, 300)
	for i := 0; i < n; i++ {
		want = listAdd(l, want)
	}
	for i := 0; i < 3; i++ {
		n = len(want)
		want = listRemove(l, want, []int{0, 1, n / 2, n/2 + 1, n - 2, n - 1}[v.Choose(6)])
		v.Assert(l.Size() == len(want), "size")
		want = listAdd(l, want)
	}
	checkList(l, want)
	for len(want) > 0 {
		want = listRemove(l, want, (len(want)-1)*(len(want)&1))
	}
	checkList(l, want)
	want = listAdd(l, want)
	checkList(l, want)
	v.Reach("done")
}

// putBig writes n bytes, the first and last arbitrary.
func (m *blockModel) putBig(b collections.BlockBuffer, n int, alloc bool) {
	p := filler(n)
	p[0], p[n-1] = v.Byte(), v.Byte()
	if alloc {
		copy(b.Alloc(n), p)
	} else {
		b.Write(clone(p))
	}
	m.wrote(p)
}

// C19_Large: 70 blocks of 1..9 bytes, or blocks of 300, 5000 and 70000 bytes in one or two parts, initial capacity 16, 4096 or 100000;
// then most of them given back at one end or both, a new one, and the rest; split along the way or not.
func C19_Large() {
	c := []int{16, 4096, 100000}[v.Choose(3)]
	b := collections.NewDirectBlockBuffer(c)
	m := &blockModel{limit: c}
	many := v.Choose(2) == 1
	sizes := []int{300, 70000, 5000, 300}
	if many {
		sizes = nil
		for i := 0; i < 70; i++ {
			sizes = append(sizes, 1+i*7%9)
		}
	}
	parts := v.Choose(2) == 1
	for i, n := range sizes {
		m.putBig(b, n, i&1 == 0)
		if parts && i%3 == 1 {
			m.putBig(b, n+1, i&2 == 0)
		}
		m.fetch(b)
		if !many {
			m.directCheck(b)
		}
	}
	m.directCheck(b)
	if v.Choose(2) == 1 {
		b2 := b.SplitOff()
		m2 := &blockModel{limit: b2.AvailableBytes()}
		m2.directCheck(b2)
		m2.putBig(b2, []int{40, 5000}[v.Choose(2)], true)
		m2.fetch(b2)
		m2.directCheck(b2)
		m.intact()
		v.Assert(v.EqBytes(b.(*collections.DirectBlockBuffer).Data(), m.all), "the sealed buffer keeps its bytes")
		v.Reach("split")
		return
	}
	end := v.Choose(3)
	for i := 0; len(m.blocks) > 2; i++ {
		m.directStep(b, 1+(end+i*(end/2))%2, nil)
	}
	m.putBig(b, 400, false)
	m.fetch(b)
	m.directCheck(b)
	for len(m.blocks) > 0 {
		m.directStep(b, 1+end&1, nil)
	}
	m.putBig(b, 200, false)
	m.fetch(b)
	m.directCheck(b)
	v.Reach("done")
}

// C20_Large: the same for the rotating buffer: 70 blocks of 1..9 bytes in a buffer of 64 or 600 bytes that wraps and grows, with pops between
// them; or blocks of 300 to 70000 bytes.
func C20_Large() {
	m := &blockModel{}
	if v.Choose(2) == 1 {
		b := collections.NewRBBlockBuffer([]int{64, 600}[v.Choose(2)])
		keep := []int{3, 20, 70}[v.Choose(3)]
		cancel := []int{0, 9}[v.Choose(2)]
		for i := 0; i < 70; i++ {
			for len(m.blocks) >= keep {
				m.rbPop(b)
			}
			m.putBig(b, 1+i*7%9, i&1 == 0)
			if i%5 == 2 {
				m.putBig(b, 3, i&2 == 0)
			}
			m.fetch(b)
			if cancel > 0 && i%cancel == 4 {
				m.rbPopBack(b)
			}
			m.rbCheck(b)
		}
		m.rbFinish(b)
		return
	}
	b := collections.NewRBBlockBuffer([]int{1000, 70000, 150000}[v.Choose(3)])
	for i, n := range []int{300, 70000, 5000, 65536, 300} {
		m.putBig(b, n, i&1 == 0)
		if i == 2 {
			m.putBig(b, 66000, true)
		}
		m.fetch(b)
		m.rbCheck(b)
		if i > 0 {
			for n := v.Choose(3); n > 0 && len(m.blocks) > 0; n-- {
				m.rbPop(b)
			}
		}
	}
	m.rbFinish(b)
}
