package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// streamsCase is the real stream buffers beside a list of blocks for each stream.
type streamsCase struct {
	s      *avformat.StreamsBuffer
	used   map[int]bool
	open   map[int][]byte // nil: nothing written since the last fetch
	blocks map[int][]*sent
}

func newStreamsCase() *streamsCase {
	return &streamsCase{s: &avformat.StreamsBuffer{}, used: map[int]bool{}, open: map[int][]byte{}, blocks: map[int][]*sent{}}
}

func (c *streamsCase) write(i int, p []byte) {
	t := utils.AVMediaTypeAudio
	if i&1 == 1 {
		t = utils.AVMediaTypeVideo
	}
	n, err := c.s.Write(p, i, t)
	v.Assert(err == nil && n == len(p), "everything is written")
	c.used[i] = true
	c.open[i] = append(append([]byte{}, c.open[i]...), p...)
}

func (c *streamsCase) fetch(i int) {
	b, err := c.s.Fetch(i)
	v.Assert(err == nil && v.EqBytes(b, c.open[i]), "a stream's block holds what was written to that stream")
	c.blocks[i] = append(c.blocks[i], &sent{data: b, want: c.open[i]})
	c.open[i] = nil
}

// head releases the oldest complete block.
func (c *streamsCase) head(i int, how int) bool {
	if len(c.blocks[i]) == 0 {
		return false
	}
	c.blocks[i] = c.blocks[i][1:]
	if how == 0 {
		c.s.DiscardHeadPacket(i)
	} else {
		c.s.Discard(i)
	}
	return true
}

// back cancels the newest block, complete or not.
func (c *streamsCase) back(i int) bool {
	n := len(c.blocks[i])
	switch {
	case c.open[i] != nil:
		c.open[i] = nil
	case n > 0:
		c.blocks[i] = c.blocks[i][:n-1]
	default:
		return false
	}
	c.s.DiscardBackPacket(i)
	return true
}

func (c *streamsCase) check(streams []int) {
	for _, i := range streams {
		if c.used[i] {
			v.Assert(c.s.PendingBlockSize(i) == len(c.open[i]), "pending bytes of each stream")
		}
		for _, b := range c.blocks[i] {
			v.Assert(v.EqBytes(b.data, b.want), "a block stays intact until it is released, whatever happens on any stream")
		}
	}
}

// C32_History: every sequence of 5 (thorough 6) operations on two streams out of (0, 1), (2, 0) and (1, 5): a write of 1 or 3 arbitrary bytes,
// a fetch, a release at either end; then one more block on each.
func C32_History() {
	c := newStreamsCase()
	streams := [][]int{{0, 1}, {2, 0}, {1, 5}}[v.Choose(3)]
	for n := maxLen(5, 6); n > 0; n-- {
		i := streams[v.Choose(2)]
		switch v.Choose(5) {
		case 0:
			c.write(i, v.Bytes(1))
		case 1:
			c.write(i, v.Bytes(3))
		case 2:
			if c.open[i] == nil {
				return
			}
			c.fetch(i)
		case 3:
			if !c.head(i, n&1) {
				return
			}
		case 4:
			if !c.back(i) {
				return
			}
		}
		c.check(streams)
	}
	for _, i := range streams {
		c.write(i, v.Bytes(2))
		c.fetch(i)
	}
	c.check(streams)
	for _, i := range streams {
		for c.head(i, 0) {
		}
	}
	c.check(streams)
	v.Reach("done")
}

// C32_First: the first use of streams 0 to 64 (0, 1, 3, 7, 16, 20, 64), in every order of three different ones, whether it is a write or a question for
// its pending bytes, which are none.
func C32_First() {
	c := newStreamsCase()
	var streams []int
	for k := 0; k < 3; k++ {
		i := []int{0, 1, 3, 7, 16, 20, 64}[v.Choose(7)]
		if c.used[i] {
			return
		}
		if v.Choose(2) == 0 {
			v.Assert(c.s.PendingBlockSize(i) == 0, "nothing pending on an unused stream")
		}
		streams = append(streams, i)
		c.write(i, v.Bytes(2))
		c.check(streams)
	}
	for _, i := range streams {
		c.fetch(i)
	}
	c.check(streams)
	v.Reach("done")
}

// C32_Many: 12 (thorough 40) streams that get 8 blocks each of 1..7 bytes in one or two parts, in one of two interleavings, of which each
// stream keeps 1 or 5.
func C32_Many() {
	c := newStreamsCase()
	var streams []int
	total := maxLen(12, 40)
	for i := 0; i < total; i++ {
		streams = append(streams, i)
	}
	inter, keep, parts := v.Choose(2), 1+4*v.Choose(2), 1+v.Choose(2)
	for r := 0; r < 8*total; r++ {
		i := r % total
		if inter == 1 {
			i = r * 5 % total
			if total%5 == 0 {
				i = (r*5 + r/total) % total
			}
		}
		for p := 0; p < parts; p++ {
			d := make([]byte, 1+(r+p)%4)
			d[0] = byte(r)
			if r%17 == 0 {
				d[0] = v.Byte()
			}
			c.write(i, d)
		}
		c.fetch(i)
		if len(c.blocks[i]) > keep {
			c.head(i, 0)
		}
		if r%20 == 0 {
			c.check(streams)
		}
	}
	c.check(streams)
	v.Reach("done")
}

// C32_Large: four (thorough five) blocks of 250000 or 700000 bytes (first, last and a middle byte arbitrary), all on one stream or
// alternating between two, which wrap around and grow, with the oldest of the stream released after each or not.
func C32_Large() {
	c := newStreamsCase()
	streams := []int{0, 1}
	two := v.Choose(2)
	for n := maxLen(4, 5); n > 0; n-- {
		i := n & two
		d := make([]byte, []int{250000, 700000}[v.Choose(2)])
		d[0], d[len(d)/2], d[len(d)-1] = v.Byte(), v.Byte(), v.Byte()
		c.write(i, d)
		c.fetch(i)
		if v.Choose(2) == 1 {
			c.head(i, 0)
		}
	}
	c.check(streams)
	v.Reach("done")
}

// C32_Held: two neighbouring streams with 0, 1, 3 or 4 blocks of one byte held on each, then every sequence of 3 releases at either end,
// then a larger block on each, releases down to the newest block, and another larger block.
func C32_Held() {
	c := newStreamsCase()
	streams := [][]int{{0, 1}, {1, 0}}[v.Choose(2)]
	for _, i := range streams {
		for n := []int{0, 1, 3, 4}[v.Choose(4)]; n > 0; n-- {
			c.write(i, v.Bytes(1))
			c.fetch(i)
		}
	}
	for n := 0; n < 3; n++ {
		i := streams[v.Choose(2)]
		if v.Choose(2) == 0 {
			if !c.head(i, n&1) {
				return
			}
		} else if !c.back(i) {
			return
		}
	}
	for r := 0; r < 2; r++ {
		for _, i := range streams {
			c.write(i, v.Bytes(5))
			c.fetch(i)
		}
		c.check(streams)
		for _, i := range streams {
			for len(c.blocks[i]) > 1 {
				c.head(i, 0)
			}
		}
		c.check(streams)
	}
	v.Reach("done")
}
