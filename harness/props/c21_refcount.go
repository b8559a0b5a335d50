package props

import (
	"github.com/lkmio/avformat/collections"

	"verif/harness/v"
)

// refModel counts what the goroutines hold: held references and drops that reported the last one.
type refModel struct {
	r     *collections.ReferenceCounter[int]
	held  int // references taken and not yet being dropped
	lasts int
}

func (m *refModel) take() {
	m.r.Refer()
	m.held++
}

func (m *refModel) drop() {
	m.held--
	if m.r.Release() {
		v.Assert(m.held == 0, "the last drop is reported only when nobody holds a reference")
		m.lasts++
	}
}

func (m *refModel) finish(want int) {
	v.Assert(m.r.UseCount() == int32(want), "final count is taken minus dropped")
	if want == 0 {
		v.Assert(m.lasts == 1, "exactly one drop reports the release")
	} else {
		v.Assert(m.lasts == 0, "no drop reports the release")
	}
}

// C21_Drops: a counter with one reference per goroutine, 2 to 4 goroutines dropping one each at once, optionally with one
// more reference that stays; every interleaving.
func C21_Drops() {
	n, extra := 2+v.Choose(3), v.Choose(2)
	m := &refModel{r: collections.NewReferenceCounter(v.Int()), held: 1}
	for i := 1; i < n+extra; i++ {
		m.take()
	}
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() { m.drop() })
	}
	v.Par(fs...)
	m.finish(extra)
	if extra == 0 {
		v.Reach("released")
	} else {
		v.Reach("still held")
	}
}

// C21_TakeDrop: goroutines that each hold one reference, take 1 or 2 more and drop all of them, in every order of taking and
// dropping in which they never drop below one before the end; 2 goroutines (thorough: 3, with one more reference each),
// every interleaving.
func C21_TakeDrop() {
	n := maxLen(2, 3)
	m := &refModel{r: collections.NewReferenceCounter(1), held: 1}
	for i := 1; i < n; i++ {
		m.take()
	}
	var fs []func()
	for i := 0; i < n; i++ {
		order := v.Choose(3)
		if n > 2 {
			order = 2
		}
		fs = append(fs, func() {
			switch order {
			case 0: // take take drop drop drop
				m.take()
				m.take()
				m.drop()
				m.drop()
			case 1:
				m.take()
				m.drop()
				m.take()
				m.drop()
			case 2:
				m.take()
				m.drop()
			}
			m.drop()
		})
	}
	v.Par(fs...)
	m.finish(0)
	v.Reach("done")
}

// C21_Handover: one goroutine takes references for others and drops its own, while another drops one and reads the count;
// every interleaving, arbitrary data.
func C21_Handover() {
	x := v.Int()
	m := &refModel{r: collections.NewReferenceCounter(x), held: 1}
	m.take()
	m.take()
	v.Par(func() {
		m.take()
		m.drop()
		m.drop()
	}, func() {
		c := m.r.UseCount()
		v.Assert(v.And(c >= 1, c <= 4), "the count in between")
		m.drop()
	}, func() {
		v.Assert(m.r.Get() == x, "the data stays")
	})
	m.finish(1)
	m.drop()
	v.Assert(m.lasts == 1, "the last drop reports the release")
	v.Reach("done")
}

// C21_Zero: a zero counter starts at no references; histories of 8 takes and drops that never go below zero, one goroutine.
func C21_Zero() {
	m := &refModel{r: &collections.ReferenceCounter[int]{}}
	n := 0
	for i := 0; i < 8; i++ {
		if n == 0 || v.Choose(2) == 0 {
			m.take()
			n++
		} else {
			m.lasts = 0
			m.drop()
			n--
			v.Assert((m.lasts == 1) == (n == 0), "the last drop reports it")
		}
		v.Assert(m.r.UseCount() == int32(n), "count")
	}
	v.Reach("done")
}

// C21_Many: 100, 127..129, 255..257, 300, 32768 and 65536 references held at once and dropped one after the other: the count is right at each
// step and only the last drop reports the release.
func C21_Many() {
	n := []int{100, 127, 128, 129, 255, 256, 257, 300, 32768, 65536}[v.Choose(10)]
	r := collections.NewReferenceCounter(v.Int())
	for i := 1; i < n; i++ {
		r.Refer()
	}
	for i := n - 1; i >= 0; i-- {
		if int(r.UseCount()) != i+1 || r.Release() != (i == 0) {
			v.Assert(false, "the count is taken minus dropped and only the last drop reports the release")
		}
	}
	v.Assert(r.UseCount() == 0, "final count is taken minus dropped")
	v.Reach("done")
}
