package props

import (
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

func (m *blockModel) rbCheck(b collections.BlockBuffer) {
	m.intact()
	n := 0
	if x := m.pending(); x != nil {
		n = len(x.want)
	}
	v.Assert(b.PendingBlockSize() == n, "pending size")
}

func (m *blockModel) rbPop(b collections.BlockBuffer) bool {
	if len(m.blocks) == 0 {
		return false
	}
	b.Pop()
	m.blocks = m.blocks[1:]
	return true
}

func (m *blockModel) rbPopBack(b collections.BlockBuffer) bool {
	if len(m.blocks) == 0 {
		return false
	}
	b.PopBack()
	m.blocks = m.blocks[:len(m.blocks)-1]
	return true
}

// finish completes the newest block and checks and pops everything in order.
func (m *blockModel) rbFinish(b collections.BlockBuffer) {
	if m.pending() != nil {
		m.fetch(b)
	}
	for len(m.blocks) > 0 {
		m.rbCheck(b)
		m.rbPop(b)
	}
	m.write(b, 2, false)
	m.fetch(b)
	m.rbCheck(b)
	v.Reach("done")
}

// C20_History: every sequence of 6 (thorough 7) writes of 1, 2 or 3 bytes to the newest block, completions of it, pops at either
// end and clears, initial capacity 3, 4 or 6, arbitrary bytes; then everything is drained.
func C20_History() {
	b := collections.NewRBBlockBuffer([]int{3, 4, 6}[v.Choose(3)])
	m := &blockModel{}
	steps := maxLen(6, 7)
	for i := 0; i < steps; i++ {
		n := 6
		if i >= 2 && i < steps-1 {
			n = 7
		}
		switch op := v.Choose(n); op {
		case 0, 1, 2:
			m.write(b, op+1, op == 1)
		case 3:
			if m.pending() == nil {
				return
			}
			m.fetch(b)
		case 4:
			if !m.rbPop(b) {
				return
			}
		case 5:
			if !m.rbPopBack(b) {
				return
			}
		case 6:
			b.Clear()
			m.blocks = nil
		}
		m.rbCheck(b)
	}
	m.rbFinish(b)
}

// C20_Blocks: every sequence of 8 (thorough 9) complete blocks of 1, 2 or 3 bytes and pops of the oldest, initial capacity
// 0, 4, 5 or 7; then everything is drained.
func C20_Blocks() {
	b := collections.NewRBBlockBuffer([]int{0, 4, 5, 7}[v.Choose(4)])
	m := &blockModel{}
	for i := 0; i < maxLen(8, 9); i++ {
		op := v.Choose(4)
		if op == 3 {
			if !m.rbPop(b) {
				return
			}
		} else {
			m.write(b, op+1, i&1 == 0)
			m.fetch(b)
		}
		m.rbCheck(b)
	}
	m.rbFinish(b)
}

// C20_Rotation: blocks written in two parts of 1..2 and 0..2 bytes, five (thorough six) times, with 0..2 pops before each and the
// newest cancelled after one of them or none, initial capacity 6 (thorough 6, 8, 9).
func C20_Rotation() {
	caps := []int{6}
	if v.Thorough() {
		caps = []int{6, 8, 9}
	}
	b := collections.NewRBBlockBuffer(caps[v.Choose(len(caps))])
	m := &blockModel{}
	cancel := v.Choose(maxLen(6, 7))
	for i := 0; i < maxLen(5, 6); i++ {
		if i >= 2 {
			for n := v.Choose(3); n > 0; n-- {
				if !m.rbPop(b) {
					return
				}
				m.rbCheck(b)
			}
		}
		k := 2
		if i > 0 {
			k = 1 + v.Choose(2)
		}
		m.write(b, k, false)
		m.rbCheck(b)
		if i > 1 {
			k = v.Choose(3)
		}
		if k > 0 {
			m.write(b, k, true)
			m.rbCheck(b)
		}
		m.fetch(b)
		m.rbCheck(b)
		if i == cancel {
			m.rbPopBack(b)
			m.rbCheck(b)
		}
	}
	m.rbFinish(b)
}

// C20_Growths: two to three growths with 0..3 blocks popped between them: 3 blocks, one larger than the capacity, pops, 2
// blocks, one larger again, pops, and one more block; sizes from {1,3}.
func C20_Growths() {
	b := collections.NewRBBlockBuffer(4 + v.Choose(3))
	m := &blockModel{}
	put := func(n int) {
		m.write(b, n, n&1 == 0)
		m.fetch(b)
		m.rbCheck(b)
	}
	pops := func() bool {
		for n := v.Choose(4); n > 0; n-- {
			if !m.rbPop(b) {
				return false
			}
			m.rbCheck(b)
		}
		return true
	}
	for n := v.Choose(4); n > 0; n-- {
		put(1 + 2*v.Choose(2))
	}
	put(8)
	if !pops() {
		return
	}
	for n := v.Choose(3); n > 0; n-- {
		put(1 + 2*v.Choose(2))
	}
	put(30)
	if !pops() {
		return
	}
	put(2)
	if v.Choose(2) == 1 {
		m.rbPopBack(b)
		m.rbCheck(b)
		put(60)
	}
	put(3)
	m.rbFinish(b)
}

// C20_Empty: every sequence of 7 (thorough 9) complete blocks of 0 or 2 bytes, one-byte writes left pending and pops at either
// end, initial capacity 2 or 5.
func C20_Empty() {
	b := collections.NewRBBlockBuffer([]int{2, 5}[v.Choose(2)])
	m := &blockModel{}
	for i := 0; i < maxLen(7, 9); i++ {
		switch op := v.Choose(5); op {
		case 0, 1:
			m.write(b, op*2, i&1 == 0)
			m.fetch(b)
		case 2:
			m.write(b, 1, false)
		case 3:
			if !m.rbPop(b) {
				return
			}
		case 4:
			if !m.rbPopBack(b) {
				return
			}
		}
		m.rbCheck(b)
	}
	m.rbFinish(b)
}
