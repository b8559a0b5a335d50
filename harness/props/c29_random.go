package props

import (
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

// C29_Range: every pair of bounds with min <= max over the whole int range, every outcome of the random source (for ranges
// wider than int: outcomes accepted within 2 draws).
func C29_Range() {
	lo, hi := v.Int(), v.Int()
	v.Assume(lo <= hi)
	wide := hi-lo+1 <= 0
	if wide {
		v.Draws(2)
	}
	x := utils.RandomIntInRange(lo, hi)
	v.Assert(v.And(lo <= x, x <= hi), "within the range")
	if wide {
		v.Reach("wide")
	} else {
		v.Reach("narrow")
	}
}

// C29_Small: every range of 1 to 6 values starting anywhere (no overflow), every outcome; natively drawn 3000 times.
func C29_Small() {
	lo, n := v.Int(), 1+v.Choose(6)
	hi := lo + n - 1
	v.Assume(lo <= hi)
	v.Repeat(3000, func() {
		x := utils.RandomIntInRange(lo, hi)
		v.Assert(v.And(lo <= x, x <= hi), "within the range")
	})
	v.Reach("done")
}

var randomRanges = []struct {
	lo, hi int
	name   string
}{{0, 3, "0..3"}, {-2, 1, "-2..1"}, {5, 6, "5..6"}, {-7, -4, "-7..-4"}, {-9223372036854775808, -9223372036854775806, "the lowest integers"}, {9223372036854775805, 9223372036854775807, "the highest integers"}}

// C29_Every: for six ranges of 2 to 4 values (negative, positive, mixed, at both ends of int) some outcome gives each value.
func C29_Every() {
	r := randomRanges[v.Choose(len(randomRanges))]
	x := utils.RandomIntInRange(r.lo, r.hi)
	for k, name := range []string{"first", "second", "third", "fourth"} {
		if k <= r.hi-r.lo {
			v.Possible(x == r.lo+k, "some outcome gives the "+name+" value of "+r.name)
		}
	}
	v.Possible(x == r.hi, "some outcome gives the last value of "+r.name)
}

// C29_Extremes: for ranges of any width at least 1000 some outcome gives the lowest, the highest and a middle value.
func C29_Extremes() {
	lo, hi := v.Int(), v.Int()
	v.Assume(v.And(lo < 0, hi > 1000, lo > -(1<<61), hi < 1<<61))
	x := utils.RandomIntInRange(lo, hi)
	v.Possible(x == lo, "some outcome gives the lowest value")
	v.Possible(x == hi, "some outcome gives the highest value")
	v.Possible(v.And(x > lo+5, x < hi-5), "some outcome gives a middle value")
}

// C29_Inverted: every inverted range is refused.
func C29_Inverted() {
	lo, hi := v.Int(), v.Int()
	v.Assume(lo > hi)
	v.Assert(v.Panics(func() { utils.RandomIntInRange(lo, hi) }), "an inverted range is refused")
	v.Reach("refused")
}

// C29_String: every length 0..12 (thorough 40), every outcome of the random source.
func C29_String() {
	n := v.Choose(maxLen(13, 41))
	v.Repeat(500, func() {
		s := utils.RandStringBytes(n)
		v.Assert(len(s) == n, "the requested length")
		for i := 0; i < len(s); i++ {
			c := s[i]
			v.Assert(v.Or(v.And(c >= '0', c <= '9'), v.And(c >= 'a', c <= 'z'), v.And(c >= 'A', c <= 'Z')), "letters and digits only")
		}
		if n == 1 {
			v.Possible(s[0] == 'a', "a lower case letter can occur")
			v.Possible(s[0] == 'Z', "an upper case letter can occur")
			v.Possible(s[0] == '9', "a digit can occur")
		}
	})
	v.Reach("done")
}
