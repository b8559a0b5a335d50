package props

import (
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

func checkList(l *collections.LinkedList[int], want []int) {
	v.Assert(l.Size() == len(want), "size")
	for i, x := range want {
		v.Assert(l.Get(i) == x, "element at its index")
	}
}

func listAdd(l *collections.LinkedList[int], want []int) []int {
	x := v.Int()
	l.Add(x)
	return append(want, x)
}

func listRemove(l *collections.LinkedList[int], want []int, i int) []int {
	v.Assert(l.Remove(i) == want[i], "the element at the index is removed")
	return append(append([]int{}, want[:i]...), want[i+1:]...)
}

// C18_History: every sequence of 9 (thorough 11) additions and removals at every valid index, arbitrary elements; the whole list
// is compared after each.
func C18_History() {
	l := &collections.LinkedList[int]{}
	var want []int
	for i := 0; i < maxLen(9, 11); i++ {
		k := v.Choose(len(want) + 1)
		if k == len(want) {
			want = listAdd(l, want)
		} else {
			want = listRemove(l, want, k)
		}
		checkList(l, want)
	}
	v.Reach("done")
}

// C18_Long: lists of 0..6 (thorough 8) elements, 3 (thorough 4) removals at every index, 2 additions, then 2 more removals.
func C18_Long() {
	l := &collections.LinkedList[int]{}
	var want []int
	for n := v.Choose(maxLen(7, 9)); n > 0; n-- {
		want = listAdd(l, want)
	}
	for i := 0; i < maxLen(3, 4) && len(want) > 0; i++ {
		want = listRemove(l, want, v.Choose(len(want)))
	}
	checkList(l, want)
	want = listAdd(l, want)
	want = listAdd(l, want)
	checkList(l, want)
	for i := 0; i < 2; i++ {
		want = listRemove(l, want, v.Choose(len(want)))
		checkList(l, want)
	}
	v.Reach("done")
}

// C18_Pointers: the same for elements of pointer type, every sequence of 5 (thorough 7) operations.
func C18_Pointers() {
	l := &collections.LinkedList[*int]{}
	var want []*int
	for i := 0; i < maxLen(5, 7); i++ {
		k := v.Choose(len(want) + 1)
		if k == len(want) {
			x := new(int)
			l.Add(x)
			want = append(want, x)
		} else {
			v.Assert(l.Remove(k) == want[k], "the element at the index is removed")
			want = append(append([]*int{}, want[:k]...), want[k+1:]...)
		}
		v.Assert(l.Size() == len(want), "size")
		for j, x := range want {
			v.Assert(l.Get(j) == x, "element at its index")
		}
	}
	v.Reach("done")
}

// C18_Lookups: a list of 2..5 elements, then 3 (thorough 4) steps each of which is a lookup at any index, a removal at any index or an addition,
// with nothing looked up in between; at the end all elements are looked up from the front, from the back or by removing them.
func C18_Lookups() {
	l := &collections.LinkedList[int]{}
	var want []int
	for n := 2 + v.Choose(4); n > 0; n-- {
		want = listAdd(l, want)
	}
	for i := 0; i < maxLen(3, 4); i++ {
		switch k := v.Choose(2*len(want) + 1); {
		case k < len(want):
			v.Assert(l.Get(k) == want[k], "element at its index")
		case k < 2*len(want):
			want = listRemove(l, want, k-len(want))
		default:
			want = listAdd(l, want)
		}
	}
	v.Assert(l.Size() == len(want), "size")
	switch v.Choose(3) {
	case 0:
		checkList(l, want)
	case 1:
		for i := len(want) - 1; i >= 0; i-- {
			v.Assert(l.Get(i) == want[i], "element at its index")
		}
	case 2:
		for len(want) > 0 {
			want = listRemove(l, want, 0)
		}
	}
	v.Reach("done")
}
