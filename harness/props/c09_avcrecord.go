package props

import (
	"github.com/lkmio/avformat/avc"

	"verif/harness/v"
)

// withCode puts the unit after no, a three-byte or a four-byte start code.
func withCode(u []byte, form int) []byte {
	switch form {
	case 1:
		return append(clone(code3), u...)
	case 2:
		return append(clone(code4), u...)
	}
	return clone(u)
}

// paramUnit is a unit of n arbitrary bytes that does not begin with a zero byte.
func paramUnit(n int) []byte {
	u := v.Bytes(n)
	if n > 0 {
		v.Assume(u[0] != 0)
	}
	return u
}

func sameUnits(got, want [][]byte, msg string) {
	v.Assert(len(got) == len(want), msg+": number")
	for i := range want {
		v.Assert(v.EqBytes(got[i], withCode(want[i], 2)), msg+": bytes")
	}
}

func concat(lists ...[][]byte) []byte {
	var out []byte
	for _, l := range lists {
		for _, u := range l {
			out = append(out, code4...)
			out = append(out, u...)
		}
	}
	return out
}

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }

func avcMarshal(sps, pps [][]byte, form int) ([]byte, error) {
	var s, p [][]byte
	for _, u := range sps {
		s = append(s, withCode(u, form))
	}
	for i, u := range pps {
		p = append(p, withCode(u, (form+i)%3))
	}
	r := avc.AVCDecoderConfigurationRecord{}
	return r.Marshal(s, p)
}

func avcRoundTrip(sps, pps [][]byte, form int) {
	rec, err := avcMarshal(sps, pps, form)
	v.Assert(err == nil, "valid parameter sets serialise")
	var r avc.AVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(rec) == nil, "a serialised record parses")
	sameUnits(r.SPSList, sps, "SPS round trip")
	sameUnits(r.PPSList, pps, "PPS round trip")
	v.Assert(r.ConfigurationVersion == 1, "version 1")
	v.Assert(r.LengthSizeMinusOne == 3, "four-byte lengths announced")
	v.Assert(v.And(rec[4] == 0xff, rec[5] == 0xe0|byte(len(sps))), "reserved bits and SPS count")
	ok := false
	for _, s := range sps {
		ok = v.Or(ok, v.And(r.AVCProfileIndication == s[1], r.ProfileCompatibility == s[2], r.AVCLevelIndication == s[3]))
	}
	v.Assert(ok, "profile, compatibility and level come from the SPS")
	b, err := avc.ExtraDataToAnnexB(rec)
	v.Assert(err == nil && v.EqBytes(b, concat(sps, pps)), "Annex-B rendering lists every SPS then every PPS")
	b, err = avc.M4VCExtraDataToAnnexB(rec)
	v.Assert(err == nil && v.EqBytes(b, concat(sps, pps)), "the other Annex-B rendering agrees")
}

// C09_RoundTrip: 1..3 SPS of 4..6 bytes and 1..3 PPS of 1..3 bytes, arbitrary contents not beginning with zero, given with no,
// three-byte or four-byte start codes.
func C09_RoundTrip() {
	var sps, pps [][]byte
	for i, n := 0, 1+v.Choose(3); i < n; i++ {
		sps = append(sps, paramUnit(4+v.Choose(3)))
	}
	for i, n := 0, 1+v.Choose(3); i < n; i++ {
		pps = append(pps, paramUnit(1+v.Choose(3)))
	}
	avcRoundTrip(sps, pps, v.Choose(3))
	v.Reach("done")
}

// C09_Large: parameter sets of 200..1100 and 32767..65535 bytes (first five bytes arbitrary) and lists of up to 31 SPS and 40 PPS, or 127..129, 200
// and 255 PPS of which every seventh has an arbitrary byte.
func C09_Large() {
	big := func(n int) []byte {
		u := make([]byte, n)
		for i := range u {
			u[i] = byte(i) | 0x80
			if i < 5 {
				u[i] = v.Byte()
			}
		}
		v.Assume(u[0] != 0)
		return u
	}
	switch v.Choose(8) {
	case 6:
		avcRoundTrip([][]byte{big([]int{32767, 32768, 40000, 65535}[v.Choose(4)])}, [][]byte{big(5), big(3)}, v.Choose(3))
	case 7:
		avcRoundTrip([][]byte{big(5)}, [][]byte{big([]int{32767, 32768, 40000, 65535}[v.Choose(4)]), big(3)}, v.Choose(3))
	case 5:
		var l, p [][]byte
		for i, n := 0, []int{1, 15, 16, 31}[v.Choose(4)]; i < n; i++ {
			l = append(l, paramUnit(4))
		}
		for i, n := 0, []int{127, 128, 129, 200, 255}[v.Choose(5)]; i < n; i++ {
			p = append(p, []byte{0x68, byte(i)})
			if i%7 == 0 {
				p[i][1] = v.Byte()
			}
		}
		avcRoundTrip(l, p, v.Choose(3))
	case 0:
		avcRoundTrip([][]byte{big(1100)}, [][]byte{big(5)}, v.Choose(3))
	case 1:
		avcRoundTrip([][]byte{big(260)}, [][]byte{big(1000)}, v.Choose(3))
	case 2:
		avcRoundTrip([][]byte{big(200), big(255), big(256), big(257)}, [][]byte{big(100), big(200)}, v.Choose(3))
	case 3:
		var l, p [][]byte
		for i := 0; i < 31; i++ {
			l = append(l, paramUnit(4))
		}
		for i := 0; i < 40; i++ {
			p = append(p, paramUnit(2))
		}
		avcRoundTrip(l, p, v.Choose(3))
	case 4:
		avcRoundTrip([][]byte{big(980)}, [][]byte{big(30)}, v.Choose(3))
	}
	v.Reach("done")
}

// C09_Unfit: sets that a record cannot hold or describe (no SPS, no PPS, SPS of 0..3 bytes, 32 or 33 SPS, 256 PPS, a unit of
// 65536 bytes) are refused, never serialised into a record that says something else.
func C09_Unfit() {
	sps, pps := [][]byte{paramUnit(4)}, [][]byte{paramUnit(1)}
	must := true
	switch v.Choose(7) {
	case 0:
		sps = nil
	case 1:
		pps = nil
	case 2:
		sps[0] = v.Bytes(v.Choose(4))
		if len(sps[0]) > 0 {
			v.Assume(sps[0][0] != 0)
		}
	case 3:
		for n := 31 + v.Choose(2); n > 0; n-- {
			sps = append(sps, paramUnit(4))
		}
	case 4:
		for n := 255; n > 0; n-- {
			pps = append(pps, []byte{0x68, byte(n)})
		}
	case 5:
		u := make([]byte, 65536)
		u[0] = 0x67
		sps[0] = u
	case 6:
		u := make([]byte, 65537)
		u[0] = 0x68
		pps[0] = u
	}
	_, err := avcMarshal(sps, pps, v.Choose(3))
	v.Assert(!must || err != nil, "parameter sets that do not fit a record are refused")
	v.Reach("refused")
}

// avcRecord builds a record with arbitrary header fields.
func avcRecord(sps, pps [][]byte) []byte {
	rec := v.Bytes(5)
	rec = append(rec, v.Byte()&0xe0|byte(len(sps)))
	for _, u := range sps {
		rec = append(append(rec, be16(len(u))...), u...)
	}
	rec = append(rec, byte(len(pps)))
	for _, u := range pps {
		rec = append(append(rec, be16(len(u))...), u...)
	}
	return rec
}

func someUnits(max, maxUnit int) (l [][]byte) {
	for i, n := 0, v.Choose(max+1); i < n; i++ {
		l = append(l, v.Bytes(v.Choose(maxUnit+1)))
	}
	return
}

// C09_Parse: records with arbitrary header bytes and reserved bits, 0..3 SPS and 0..3 PPS of 0..2 arbitrary bytes,
// followed by 0..1 more bytes.
func C09_Parse() {
	sps, pps := someUnits(3, 2), someUnits(3, 2)
	rec := avcRecord(sps, pps)
	rec = append(rec, v.Bytes(v.Choose(2))...)
	orig := clone(rec)
	var r avc.AVCDecoderConfigurationRecord
	err := r.Unmarshal(rec)
	valid := len(sps) > 0 && len(pps) > 0
	v.Assert(v.EqBytes(rec, orig), "parsing leaves the record alone")
	b, err1 := avc.ExtraDataToAnnexB(rec)
	c, err2 := avc.M4VCExtraDataToAnnexB(rec)
	if !valid {
		v.Assert(err != nil, "a record without SPS or PPS is rejected")
		v.Assert(v.And(err1 != nil, err2 != nil), "renderings reject it too")
		v.Reach("rejected")
		return
	}
	v.Assert(err == nil, "a complete record parses")
	sameUnits(r.SPSList, sps, "SPS")
	sameUnits(r.PPSList, pps, "PPS")
	v.Assert(v.And(r.ConfigurationVersion == orig[0], r.AVCProfileIndication == orig[1], r.ProfileCompatibility == orig[2],
		r.AVCLevelIndication == orig[3], r.LengthSizeMinusOne == orig[4]&3), "header fields")
	v.Assert(err1 == nil && v.EqBytes(b, concat(sps, pps)), "Annex-B rendering")
	v.Assert(err2 == nil && v.EqBytes(c, concat(sps, pps)), "other Annex-B rendering")
	v.Reach("parsed")
}

// C09_Truncated: every record of 1..2 SPS and 1..2 PPS of 1..2 arbitrary bytes, cut anywhere before its end, is rejected.
func C09_Truncated() {
	var sps, pps [][]byte
	for i, n := 0, 1+v.Choose(2); i < n; i++ {
		sps = append(sps, v.Bytes(1+v.Choose(2)))
	}
	for i, n := 0, 1+v.Choose(2); i < n; i++ {
		pps = append(pps, v.Bytes(1+v.Choose(2)))
	}
	rec := avcRecord(sps, pps)
	cut := rec[:v.Choose(len(rec))]
	cut = clone(cut)
	var r avc.AVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(cut) != nil, "a truncated record is rejected")
	_, err := avc.ExtraDataToAnnexB(cut)
	v.Assert(err != nil, "the rendering rejects it")
	_, err = avc.M4VCExtraDataToAnnexB(cut)
	v.Assert(err != nil, "the other rendering rejects it")
	_, _, err = avc.NewCodecDataFromAVCDecoderConfigurationRecord(cut)
	v.Assert(err != nil, "codec data is not built from it")
	v.Reach("cut")
}

// C09_Trailing: records of one SPS and 1..2 PPS followed by 0..12 arbitrary bytes, such as the extension for high profiles: the bytes
// behind the last parameter set change nothing.
func C09_Trailing() {
	sps := [][]byte{v.Bytes(4)}
	var pps [][]byte
	for i, n := 0, 1+v.Choose(2); i < n; i++ {
		pps = append(pps, v.Bytes(2))
	}
	rec := append(avcRecord(sps, pps), v.Bytes(v.Choose(13))...)
	var r avc.AVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(rec) == nil, "a complete record parses")
	sameUnits(r.SPSList, sps, "SPS")
	sameUnits(r.PPSList, pps, "PPS")
	b, err := avc.ExtraDataToAnnexB(rec)
	v.Assert(err == nil && v.EqBytes(b, concat(sps, pps)), "Annex-B rendering")
	v.Reach("done")
}

// C09_Twice: two different records parsed (or serialised) one after the other: the second result does not depend on the first, and the
// first stays as it was; 1..2 SPS and PPS of 4 arbitrary bytes each.
func C09_Twice() {
	list := func() (l [][]byte) {
		for n := 1 + v.Choose(2); n > 0; n-- {
			l = append(l, paramUnit(4))
		}
		return
	}
	s1, p1, s2, p2 := list(), list(), list(), list()
	r1, err1 := avcMarshal(s1, p1, 2)
	r2, err2 := avcMarshal(s2, p2, 1)
	v.Assert(err1 == nil && err2 == nil, "valid parameter sets serialise")
	var a, b avc.AVCDecoderConfigurationRecord
	v.Assert(a.Unmarshal(r1) == nil && b.Unmarshal(r2) == nil, "serialised records parse")
	sameUnits(a.SPSList, s1, "first SPS")
	sameUnits(a.PPSList, p1, "first PPS")
	sameUnits(b.SPSList, s2, "second SPS")
	sameUnits(b.PPSList, p2, "second PPS")
	x, _ := avc.ExtraDataToAnnexB(r1)
	y, _ := avc.ExtraDataToAnnexB(r2)
	v.Assert(v.And(v.EqBytes(x, concat(s1, p1)), v.EqBytes(y, concat(s2, p2))), "each rendering is of its own record")
	v.Reach("done")
}
