package props

import (
	"github.com/lkmio/avformat/avc"

	"verif/harness/v"
)

// C05_Split: every byte string of length 0..13 (thorough 0..19): the pieces partition the input; when it begins with
// a start code they are cut at exactly the start codes, otherwise only at start codes and at all from the fourth byte on.
func C05_Split() {
	p := v.Bytes(v.Choose(maxLen(13, 19) + 1))
	orig := clone(p)
	var cut [32]bool
	off := 0
	avc.SplitNalU(p, func(piece []byte) {
		v.Assert(off+len(piece) <= len(orig), "the pieces are not longer than the input")
		v.Assert(v.EqBytes(piece, orig[off:off+len(piece)]), "each piece is the next part of the input")
		v.Assert(off == 0 || len(piece) > 0, "no empty piece")
		if off > 0 {
			v.Assert(!cut[off], "no repeated piece")
			v.Reach("second piece")
		}
		cut[off] = true
		off += len(piece)
	})
	v.Assert(off == len(orig), "the pieces cover the whole input")
	begins := v.Or(codeAt(orig, 0), v.And(codeAt(orig, 1), len(orig) > 0 && orig[0] == 0))
	for i := 1; i < len(orig); i++ {
		// a prefix starts at i: four bytes 00 00 00 01, or three bytes not preceded by another zero
		is := v.Or(v.And(orig[i] == 0, codeAt(orig, i+1)), v.And(codeAt(orig, i), orig[i-1] != 0))
		if cut[i] {
			v.Assert(v.Or(is, v.And(!begins, codeAt(orig, i))), "a cut is at a start code")
		} else {
			v.Assert(v.Or(!begins, !is, len(orig) < 4), "every start code is a cut")
			v.Assert(i < 3 || v.Or(!codeAt(orig, i), v.And(cut[i-1], orig[i-1] == 0)), "every start code behind other data is a cut")
		}
	}
	v.Assert(v.EqBytes(p, orig), "splitting leaves the input alone")
}

// annexB builds a stream of up to n units, each 1..maxUnit bytes (0 bytes too when empty is set), start codes of either
// length. Unit bytes are arbitrary except that they contain no 00 00 0x (x <= 2) and do not end in 00, as the standard demands.
func annexB(n, maxUnit int, empty bool) (stream []byte, units [][]byte) {
	for i := 0; i < n; i++ {
		lo := 1
		if empty {
			lo = 0
		}
		u := nalUnit(lo + v.Choose(maxUnit+1-lo))
		if v.Choose(2) == 1 {
			stream = append(stream, 0)
		}
		stream = append(stream, 0, 0, 1)
		stream = append(stream, u...)
		units = append(units, u)
	}
	return
}

// nalUnit is an arbitrary well-formed unit of n bytes.
func nalUnit(n int) []byte {
	u := v.Bytes(n)
	wellFormed(u)
	return u
}

func wellFormed(u []byte) {
	n := len(u)
	for i := 0; i+2 < n; i++ {
		v.Assume(!v.And(u[i] == 0, u[i+1] == 0, u[i+2] <= 2))
	}
	if n > 0 {
		v.Assume(u[n-1] != 0)
	}
}

// C05_Units: streams of 1..3 well-formed units of 1..4 bytes (thorough 4 units of 1..5 bytes) with start codes of either
// length: each unit is delivered once, in order and complete, and stripping its start code gives exactly the unit.
func C05_Units() {
	stream, units := annexB(1+v.Choose(maxLen(3, 4)), maxLen(4, 5), false)
	k := 0
	avc.SplitNalU(stream, func(piece []byte) {
		v.Assert(k < len(units), "no more pieces than units")
		u := avc.RemoveStartCode(piece)
		v.Assert(v.EqBytes(u, units[k]), "each unit is delivered in order and complete")
		k++
	})
	v.Assert(k == len(units), "every unit is delivered")
	v.Reach("done")
}

// C05_Strip: every byte string of length 0..9.
func C05_Strip() {
	p := v.Bytes(v.Choose(10))
	orig := clone(p)
	n := len(p)
	three := n >= 3 && v.And(p[0] == 0, p[1] == 0, p[2] == 1)
	four := n >= 4 && v.And(p[0] == 0, p[1] == 0, p[2] == 0, p[3] == 1)
	got := avc.RemoveStartCode(p)
	skip := v.IteInt(three, 3, v.IteInt(four, 4, 0))
	v.Assert(len(got) == n-skip, "exactly the start code is removed")
	v.Assert(v.EqBytes(got, orig[n-len(got):]), "the rest is unchanged")
	v.Assert(v.EqBytes(p, orig), "stripping leaves the input alone")
}
