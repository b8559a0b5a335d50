package props

import (
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

// sameInts compares the two-part view with the reference sequence.
func sameInts(a, b, want []int, msg string) {
	v.Assert(len(a)+len(b) == len(want), msg+": length")
	for i, x := range want {
		if i < len(a) {
			v.Assert(a[i] == x, msg)
		} else {
			v.Assert(b[i-len(a)] == x, msg)
		}
	}
}

func checkRing(r collections.RingBuffer[int], want []int) {
	n := len(want)
	v.Assert(r.Size() == n, "size")
	v.Assert(r.IsEmpty() == (n == 0), "emptiness")
	v.Assert(r.IsFull() == (n == r.Capacity()), "fullness")
	v.Assert(r.Capacity() >= n, "capacity holds the elements")
	a, b := r.Data()
	sameInts(a, b, want, "two-part view")
	if n > 0 {
		v.Assert(r.Head() == want[0], "front element")
		v.Assert(r.Tail() == want[n-1], "back element")
	}
}

func checkQueue(q *collections.Queue[int], want []int) {
	checkRing(q, want)
	for i, x := range want {
		v.Assert(q.Peek(i) == x, "indexed access")
	}
}

func ringPush(r collections.RingBuffer[int], want []int, c int) []int {
	x := v.Int()
	r.Push(x)
	if len(want) == c {
		want = want[1:]
		v.Reach("dropped the oldest")
	}
	want = append(want, x)
	checkRing(r, want)
	v.Assert(r.Capacity() == c, "the capacity is fixed")
	return want
}

func ringPop(r collections.RingBuffer[int], want []int) []int {
	x := r.Pop()
	if len(want) == 0 {
		v.Assert(x == 0, "nothing comes out of an empty buffer")
	} else {
		v.Assert(x == want[0], "the oldest element comes out")
		want = want[1:]
	}
	checkRing(r, want)
	return want
}

// C17_RingHistory: every sequence of 9 (thorough 12) pushes, pops and (last third only) clears, capacity 1..4, arbitrary elements.
func C17_RingHistory() {
	c := 1 + v.Choose(4)
	r := collections.NewRingBuffer[int](c)
	var want []int
	checkRing(r, want)
	steps := maxLen(9, 12)
	for i := 0; i < steps; i++ {
		n := 2
		if i >= steps*2/3 {
			n = 3
		}
		switch v.Choose(n) {
		case 0:
			want = ringPush(r, want, c)
		case 1:
			want = ringPop(r, want)
		case 2:
			r.Clear()
			want = nil
			checkRing(r, want)
		}
	}
	v.Reach("done")
}

// C17_RingLong: runs of pushes, pops, pushes, pops and pushes of every length 0..c+2, capacity c of 1..4 and 7 (thorough 1..5, 9).
func C17_RingLong() {
	caps := []int{1, 2, 3, 4, 7}
	if v.Thorough() {
		caps = []int{1, 2, 3, 4, 5, 9}
	}
	c := caps[v.Choose(len(caps))]
	r := collections.NewRingBuffer[int](c)
	var want []int
	for round := 0; round < 2; round++ {
		for n := v.Choose(c + 3); n > 0; n-- {
			want = ringPush(r, want, c)
		}
		for n := v.Choose(c + 2); n > 0; n-- {
			want = ringPop(r, want)
		}
	}
	for n := v.Choose(c + 1); n > 0; n-- {
		want = ringPush(r, want, c)
	}
	v.Reach("done")
}

func queuePush(q *collections.Queue[int], want []int) []int {
	x := v.Int()
	q.Push(x)
	want = append(want, x)
	checkQueue(q, want)
	return want
}

func queuePop(q *collections.Queue[int], want []int) []int {
	x := q.Pop()
	if len(want) == 0 {
		v.Assert(x == 0, "nothing comes out of an empty queue")
	} else {
		v.Assert(x == want[0], "the front element comes out")
		want = want[1:]
	}
	checkQueue(q, want)
	return want
}

func queuePopBack(q *collections.Queue[int], want []int) []int {
	n := len(want) - 1
	v.Assert(q.PopBack() == want[n], "the back element comes out")
	want = want[:n:n]
	checkQueue(q, want)
	return want
}

// C17_QueueHistory: every sequence of 9 (thorough 11) pushes, pops at either end and (last third only) clears, initial
// capacity 1..3, arbitrary elements. Removal at the back only from a non-empty queue.
func C17_QueueHistory() {
	c := 1 + v.Choose(3)
	q := collections.NewQueue[int](c)
	v.Assert(q.Capacity() == c, "initial capacity")
	var want []int
	checkQueue(q, want)
	steps := maxLen(9, 11)
	for i := 0; i < steps; i++ {
		n := 3
		if i >= steps*2/3 {
			n = 4
		}
		switch v.Choose(n) {
		case 0:
			want = queuePush(q, want)
		case 1:
			want = queuePop(q, want)
		case 2:
			if len(want) == 0 {
				return
			}
			want = queuePopBack(q, want)
		case 3:
			q.Clear()
			want = nil
			checkQueue(q, want)
		}
	}
	v.Reach("done")
}

// C17_QueueLong: a pushes, b pops, c pushes (across wrap-around and up to two growths), d removals at the back, e pushes, then
// everything drained from the front; a 0..5, b 0..a, c 0..9, d 0..2, e 0..3 (thorough 7, a, 12, 4, 5), initial capacity 1..4
// (thorough 1..6).
func C17_QueueLong() {
	q := collections.NewQueue[int](1 + v.Choose(maxLen(4, 6)))
	var want []int
	a := v.Choose(maxLen(6, 8))
	for i := 0; i < a; i++ {
		want = queuePush(q, want)
	}
	for n := v.Choose(a + 1); n > 0; n-- {
		want = queuePop(q, want)
	}
	for n := v.Choose(maxLen(10, 13)); n > 0; n-- {
		want = queuePush(q, want)
	}
	for n := v.Choose(maxLen(3, 5)); n > 0 && len(want) > 0; n-- {
		want = queuePopBack(q, want)
	}
	for n := v.Choose(maxLen(4, 6)); n > 0; n-- {
		want = queuePush(q, want)
	}
	for len(want) > 0 {
		want = queuePop(q, want)
	}
	v.Reach("done")
}
