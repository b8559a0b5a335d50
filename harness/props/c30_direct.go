package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// C30_History: every sequence of 6 (thorough 8) writes of 0, 1, 3 or 7 arbitrary bytes, fetches and backward seeks by 0..3 or
// beyond everything pending; the pending size after each and a fetch at the end.
func C30_History() {
	d := &avformat.DirectDataPipeline{}
	var want []byte
	index := v.Int()
	fetch := func() {
		got, err := d.Fetch(index)
		v.Assert(err == nil && v.EqBytes(got, want), "fetch gives exactly the pending bytes")
		want = nil
	}
	v.Assert(d.PendingBlockSize(index) == 0, "nothing pending at first")
	for i := 0; i < maxLen(6, 7); i++ {
		switch op := v.Choose(8); op {
		case 0, 1, 2, 3:
			p := v.Bytes([]int{0, 1, 3, 7}[op])
			q := clone(p)
			_, err := d.Write(q, index, utils.AVMediaTypeAudio)
			v.Assert(err == nil && v.EqBytes(p, q), "written, the source left alone")
			want = append(want, p...)
		case 4:
			fetch()
		case 5, 6, 7:
			n := []int{1, 3, 100}[op-5]
			v.Assert(d.Seek(int64(-n), index) == nil, "seek")
			if n > len(want) {
				n = len(want)
			}
			want = want[:len(want)-n]
		}
		v.Assert(d.PendingBlockSize(index) == len(want), "pending size")
	}
	fetch()
	v.Assert(d.PendingBlockSize(index) == 0, "nothing pending after a fetch")
	v.Reach("done")
}

// C30_Growth: 1 to 3 writes of every size 0..20 (thorough 0..40) after one another, a rewind of every length within them, one more
// write of 0..9 bytes, fetch, and the like again in the memory that is there.
func C30_Growth() {
	d := &avformat.DirectDataPipeline{}
	for round := 0; round < 2; round++ {
		var want []byte
		write := func(n int) {
			p := v.Bytes(n)
			d.Write(p, 0, utils.AVMediaTypeVideo)
			want = append(want, p...)
			v.Assert(d.PendingBlockSize(0) == len(want), "pending size")
		}
		if round == 0 {
			write(v.Choose(maxLen(21, 41)))
			write([]int{0, 2, 19}[v.Choose(3)])
		} else {
			write(v.Choose(maxLen(6, 12)) * 7)
		}
		n := []int{0, 1, 5, len(want)}[v.Choose(4)]
		if n <= len(want) {
			d.Seek(int64(-n), 0)
			want = want[:len(want)-n]
			v.Assert(d.PendingBlockSize(0) == len(want), "pending size after a rewind")
		}
		if round == 0 {
			write(v.Choose(10))
		} else {
			write(v.Choose(2) * 9)
		}
		got, _ := d.Fetch(0)
		v.Assert(v.EqBytes(got, want), "fetch gives exactly the pending bytes")
	}
	v.Reach("done")
}

// C30_Seek: every backward distance over the whole int64 range (not the lowest), 0..4 pending bytes.
func C30_Seek() {
	d := &avformat.DirectDataPipeline{}
	p := v.Bytes(v.Choose(5))
	d.Write(p, 0, utils.AVMediaTypeVideo)
	n := v.Int64()
	v.Assume(v.And(n <= 0, n > -(1<<63)))
	d.Seek(n, 0)
	left := v.IteInt(n < -int64(len(p)), 0, len(p)+int(n))
	v.Assert(d.PendingBlockSize(0) == left, "pending size after a rewind")
	got, _ := d.Fetch(0)
	v.Assert(v.EqBytes(got, p[:v.Concretize(left)]), "the rest is kept")
	v.Reach("done")
}
