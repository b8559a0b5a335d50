package props

import (
	"github.com/lkmio/avformat/avc"
	"github.com/lkmio/avformat/bufio"

	"verif/harness/v"
)

// codeAt says whether a three-byte prefix starts at i and a byte follows it.
func codeAt(p []byte, i int) bool {
	if i < 0 || i+3 >= len(p) {
		return false
	}
	return v.And(p[i] == 0, p[i+1] == 0, p[i+2] == 1)
}

// startSpec is the reference result of a start-code search, computed without branching.
func startSpec(p []byte) (index, size int) {
	index, size = -1, -1
	for i := len(p) - 1; i >= 3; i-- {
		c := codeAt(p, i-3)
		n := 3
		if i > 3 {
			n = v.IteInt(p[i-4] == 0, 4, 3)
		}
		index = v.IteInt(c, i, index)
		size = v.IteInt(c, n, size)
	}
	return
}

func maxLen(quick, deep int) int {
	if v.Thorough() {
		return deep
	}
	return quick
}

// C04_Find: every byte string of length 0..14 (thorough 0..24).
func C04_Find() {
	p := v.Bytes(v.Choose(maxLen(14, 24) + 1))
	orig := clone(p)
	index, size := avc.FindStartCode(p)
	wi, ws := startSpec(orig)
	v.Assert(index == wi, "the search reports the first start code")
	v.Assert(size == ws, "the search reports the prefix length")
	if index < 0 {
		v.Reach("none")
	} else if size == 4 {
		v.Reach("four")
	} else {
		v.Reach("three")
	}
	v.Assert(v.EqBytes(p, orig), "the search leaves the data alone")
	v.Observe(uint64(index))
}

// C04_Variants: every byte string of length 0..11 (thorough 0..18): the start-of-prefix variant and the reader variant,
// the latter from every reader offset 0..3.
func C04_Variants() {
	p := v.Bytes(v.Choose(maxLen(11, 18) + 1))
	orig := clone(p)
	if v.Choose(2) == 0 {
		wi, ws := startSpec(orig)
		got := avc.FindStartCode2(p)
		v.Assert(got == v.IteInt(wi < 0, -1, wi-ws), "the prefix variant reports where the prefix starts")
		v.Observe(uint64(got))
		return
	}
	off := v.Choose(4)
	if off > len(p) {
		return
	}
	r := bufio.NewBytesReader(p)
	r.Seek(off)
	wi, _ := startSpec(orig[off:])
	got := avc.FindStartCodeWithReader(r)
	if got < 0 {
		v.Assert(wi < 0, "the reader variant misses no start code")
		v.Assert(got == -1, "not found is -1")
		v.Assert(r.Offset() == off, "the reader stays when nothing is found")
		v.Reach("none")
		return
	}
	v.Assert(wi >= 0, "the reader variant finds only start codes")
	wi = v.Concretize(wi)
	v.Assert(r.Offset() == off+wi+1, "the reader stands after the unit header")
	v.Assert(got == int(orig[off+wi]), "the unit header is returned")
	v.Reach("found")
}

// C04_Sequence: searching on from each reported header of a byte string of length 0..13 (thorough 0..20)
// visits every start code, in order.
func C04_Sequence() {
	p := v.Bytes(v.Choose(maxLen(13, 20) + 1))
	var found [32]bool
	at := 0
	for {
		n, _ := avc.FindStartCode(p[at:])
		if n < 0 {
			break
		}
		at += n
		v.Assert(n >= 3, "every hit lies after its prefix")
		found[at] = true
		v.Reach("hit")
	}
	for i := 3; i < len(p); i++ {
		v.Assert(codeAt(p, i-3) == found[i], "a repeated search visits exactly the start codes")
	}
}
