package props

import (
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

// block is one entry of the reference model.
type block struct {
	want []byte // the bytes written to it
	got  []byte // the slice handed out when it was completed
	done bool
}

// blockModel is what a block buffer must look like.
type blockModel struct {
	blocks  []*block
	all     []byte // written since the buffer was last empty
	limit   int    // memory the buffer owns, as reported
	growing bool
}

func (m *blockModel) pending() *block {
	if n := len(m.blocks); n > 0 && !m.blocks[n-1].done {
		return m.blocks[n-1]
	}
	return nil
}

// wrote records a write.
func (m *blockModel) wrote(p []byte) {
	if m.pending() == nil {
		m.blocks = append(m.blocks, &block{})
	}
	b := m.pending()
	b.want = append(b.want, p...)
	m.all = append(m.all, p...)
}

func (m *blockModel) intact() {
	for _, b := range m.blocks {
		if b.done {
			v.Assert(v.EqBytes(b.got, b.want), "a block in use keeps its bytes")
		}
	}
}

// write writes n fresh bytes, through Write or through Alloc.
func (m *blockModel) write(b collections.BlockBuffer, n int, alloc bool) {
	p := v.Bytes(n)
	if alloc {
		dst := b.Alloc(n)
		v.Assert(len(dst) == n, "the allocation has the requested length")
		copy(dst, p)
	} else {
		q := clone(p)
		b.Write(q)
		v.Assert(v.EqBytes(p, q), "the source is left alone")
	}
	m.wrote(p)
}

// fetch completes the newest block.
func (m *blockModel) fetch(b collections.BlockBuffer) {
	got := b.Fetch()
	x := m.pending()
	if x == nil {
		v.Assert(got == nil, "a completed block is handed out once")
		return
	}
	v.Assert(v.EqBytes(got, x.want), "a completed block holds what was written to it")
	x.got, x.done = got, true
}

func (m *blockModel) popped() {
	if len(m.blocks) == 0 {
		m.all = nil
	}
}

// directCheck compares everything observable.
func (m *blockModel) directCheck(b collections.BlockBuffer) {
	m.intact()
	v.Assert(v.EqBytes(b.(*collections.DirectBlockBuffer).Data(), m.all), "everything written since the buffer was last empty")
	v.Assert(b.Size() == len(m.blocks), "number of blocks")
	n := 0
	if x := m.pending(); x != nil {
		n = len(x.want)
	}
	v.Assert(b.PendingBlockSize() == n, "pending size")
	free := b.AvailableBytes()
	v.Assert(free >= 0, "free memory is not negative")
	if total := free + len(m.all); total != m.limit {
		v.Assert(len(m.all) > m.limit, "free memory shrinks by what is written unless the buffer grows")
		m.limit = total
		m.growing = true
	}
}

func (m *blockModel) directStep(b collections.BlockBuffer, op int, sizes []int) bool {
	switch {
	case op < len(sizes):
		m.write(b, sizes[op], op&1 == 1)
	case op == len(sizes):
		if len(m.blocks) == 0 {
			return false
		}
		m.fetch(b)
	case op == len(sizes)+1:
		b.Pop()
		if len(m.blocks) > 0 {
			m.blocks = m.blocks[1:]
		}
		m.popped()
	case op == len(sizes)+2:
		if len(m.blocks) == 0 {
			return false
		}
		b.PopBack()
		m.blocks = m.blocks[:len(m.blocks)-1]
		m.popped()
	default:
		b.Clear()
		m.blocks = nil
		m.popped()
	}
	m.directCheck(b)
	return true
}

// C19_History: every sequence of 6 (thorough 7) writes of 0, 1, 2 or 5 bytes, completions, pops at either end and clears (in the
// second half), initial capacity 0, 3 or 8, arbitrary bytes.
func C19_History() {
	c := []int{0, 3, 8}[v.Choose(3)]
	b := collections.NewDirectBlockBuffer(c)
	m := &blockModel{limit: c}
	m.directCheck(b)
	sizes := []int{1, 2, 5, 0}
	steps := maxLen(6, 7)
	for i := 0; i < steps; i++ {
		n := len(sizes) + 3
		if i >= steps/2 {
			n++
		}
		if !m.directStep(b, v.Choose(n), sizes) {
			return
		}
	}
	if m.growing {
		v.Reach("grown")
	}
	v.Reach("done")
}

// C19_Blocks: every sequence of 8 (thorough 10) complete blocks of 1 or 4 bytes and pops at either end, initial capacity 0..5.
func C19_Blocks() {
	c := v.Choose(6)
	b := collections.NewDirectBlockBuffer(c)
	m := &blockModel{limit: c}
	steps := maxLen(8, 10)
	for i := 0; i < steps; i++ {
		switch v.Choose(4) {
		case 0, 1:
			m.write(b, 1+3*(i&1), false)
			m.fetch(b)
			m.directCheck(b)
		case 2:
			if !m.directStep(b, 1, nil) {
				return
			}
		case 3:
			if !m.directStep(b, 2, nil) {
				return
			}
		}
	}
	v.Reach("done")
}

// C19_Split: 0..3 operations, a split, then 0..3 (thorough 4) operations on the new buffer, a second split and one more write;
// the sealed buffers keep their bytes and refuse writes, and a cleared one works again without touching the others.
func C19_Split() {
	c := []int{0, 3, 8}[v.Choose(3)]
	b := collections.NewDirectBlockBuffer(c)
	m := &blockModel{limit: c}
	sizes := []int{1, 3}
	for n := v.Choose(4); n > 0; n-- {
		if !m.directStep(b, v.Choose(4), sizes) {
			return
		}
	}
	free := b.AvailableBytes()
	b2 := b.SplitOff()
	m2 := &blockModel{limit: b2.AvailableBytes()}
	v.Assert(m2.limit == free, "the new buffer owns the unused memory")
	m2.directCheck(b2)
	v.Assert(v.Panics(func() { b.Write([]byte{1}) }), "a sealed buffer refuses writes")
	for n := v.Choose(maxLen(4, 5)); n > 0; n-- {
		if !m2.directStep(b2, v.Choose(5), sizes) {
			return
		}
		m.intact()
		v.Assert(v.EqBytes(b.(*collections.DirectBlockBuffer).Data(), m.all), "the sealed buffer keeps its bytes")
	}
	b3 := b2.SplitOff()
	m3 := &blockModel{limit: b3.AvailableBytes()}
	m3.directCheck(b3)
	m3.write(b3, 2, false)
	m3.directCheck(b3)
	m.intact()
	m2.intact()
	v.Assert(v.EqBytes(b.(*collections.DirectBlockBuffer).Data(), m.all), "the first sealed buffer keeps its bytes")
	v.Assert(v.EqBytes(b2.(*collections.DirectBlockBuffer).Data(), m2.all), "the second sealed buffer keeps its bytes")
	b.Clear()
	m.blocks, m.all = nil, nil
	m.write(b, 1+v.Choose(9), true)
	m.fetch(b)
	m.intact()
	m2.intact()
	m3.directCheck(b3)
	v.Reach("done")
}
