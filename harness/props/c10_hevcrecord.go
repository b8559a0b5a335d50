package props

import (
	"github.com/lkmio/avformat/hevc"

	"verif/harness/v"
)

// hevcUnit is a unit of n >= 1 bytes of the given type, other header bits and bytes arbitrary.
func hevcUnit(typ, n int) []byte {
	u := v.Bytes(n)
	u[0] = u[0]&0x81 | byte(typ)<<1
	return u
}

func hevcList(typ, count, size int) (l [][]byte) {
	for i := 0; i < count; i++ {
		l = append(l, hevcUnit(typ, size))
	}
	return
}

func formed(l [][]byte, form int) (r [][]byte) {
	for i, u := range l {
		r = append(r, withCode(u, (form+i)%3))
	}
	return
}

func hevcRoundTrip(vps, sps, pps [][]byte, form int) {
	var w, r hevc.HEVCDecoderConfigurationRecord
	rec, err := w.Marshal(formed(vps, form), formed(sps, form), formed(pps, form))
	v.Assert(err == nil, "valid parameter sets serialise")
	v.Assert(r.Unmarshal(rec) == nil, "a serialised record parses")
	sameUnits(r.VPSList, vps, "VPS round trip")
	sameUnits(r.SPSList, sps, "SPS round trip")
	sameUnits(r.PPSList, pps, "PPS round trip")
	v.Assert(r.ConfigurationVersion == 1, "version 1")
	v.Assert(rec[21]&3 == 3, "four-byte lengths announced")
	v.Assert(r.NumOfArrays == 3, "three arrays")
	b, err := hevc.ExtraDataToAnnexB(rec)
	v.Assert(err == nil && v.EqBytes(b, concat(vps, sps, pps)), "Annex-B rendering lists VPS, SPS, PPS")
}

// C10_RoundTrip: 1..3 VPS, SPS and PPS each, of 1..3 bytes, arbitrary except for the unit type, with no, three-byte or
// four-byte start codes.
func C10_RoundTrip() {
	vps := hevcList(32, 1+v.Choose(3), 1+v.Choose(3))
	sps := hevcList(33, 1+v.Choose(3), 1+v.Choose(3))
	pps := hevcList(34, 1+v.Choose(3), 1+v.Choose(3))
	hevcRoundTrip(vps, sps, pps, v.Choose(3))
	v.Reach("done")
}

// C10_Large: parameter sets of 100..1100 and 32767..65535 bytes (second and last byte arbitrary), lists of up to 60 units, and lists of 127..129,
// 255..257 and 300 units of one kind of which every ninth has an arbitrary byte.
func C10_Large() {
	big := func(typ, n int) []byte {
		u := make([]byte, n)
		for i := range u {
			u[i] = byte(i) | 0x80
		}
		u[0] = byte(typ) << 1
		u[1], u[n-1] = v.Byte(), v.Byte()
		return u
	}
	one := func(u []byte) [][]byte { return [][]byte{u} }
	form := v.Choose(3)
	switch v.Choose(6) {
	case 4:
		l := [3][][]byte{one(hevcUnit(32, 2)), one(hevcUnit(33, 2)), one(hevcUnit(34, 2))}
		k := v.Choose(3)
		l[k] = nil
		for i, n := 0, []int{127, 128, 129, 255, 256, 257, 300}[v.Choose(7)]; i < n; i++ {
			u := []byte{byte(32+k) << 1, byte(i)}
			if i%9 == 0 {
				u[1] = v.Byte()
			}
			l[k] = append(l[k], u)
		}
		hevcRoundTrip(l[0], l[1], l[2], form)
	case 5:
		n := []int{32767, 32768, 40000, 65535}[v.Choose(4)]
		l := []int{10, 10, 10}
		l[v.Choose(3)] = n
		hevcRoundTrip(one(big(32, l[0])), one(big(33, l[1])), [][]byte{big(34, l[2]), big(34, 12)}, form)
	case 0:
		hevcRoundTrip(one(big(32, 1100)), one(big(33, 100)), one(big(34, 100)), form)
	case 1:
		hevcRoundTrip(one(big(32, 100)), one(big(33, 1000)), one(big(34, 256)), form)
	case 2:
		hevcRoundTrip(one(big(32, 300)), one(big(33, 300)), [][]byte{big(34, 200), big(34, 255), big(34, 257)}, form)
	case 3:
		hevcRoundTrip(hevcList(32, 16, 2), hevcList(33, 16, 2), hevcList(34, 60, 2), form)
	}
	v.Reach("done")
}

// C10_Unfit: a missing kind, an empty unit first in its list, or a unit of 65536 or more bytes is refused.
func C10_Unfit() {
	l := [3][][]byte{{hevcUnit(32, 2)}, {hevcUnit(33, 2)}, {hevcUnit(34, 2)}}
	k := v.Choose(3)
	switch v.Choose(3) {
	case 0:
		l[k] = nil
	case 1:
		l[k] = [][]byte{{}}
	case 2:
		u := make([]byte, 65536+v.Choose(2))
		u[0] = byte(32+k) << 1
		l[k] = [][]byte{u}
	}
	var r hevc.HEVCDecoderConfigurationRecord
	_, err := r.Marshal(formed(l[0], v.Choose(3)), l[1], l[2])
	v.Assert(err != nil, "parameter sets that do not fit a record are refused")
	v.Reach("refused")
}

type hevcArray struct {
	typ   int
	units [][]byte
}

// hevcRecord builds a record with 22 arbitrary header bytes and arbitrary array flags.
func hevcRecord(arrays []hevcArray) []byte {
	rec := v.Bytes(22)
	rec = append(rec, byte(len(arrays)))
	for _, a := range arrays {
		rec = append(rec, v.Byte()&0xc0|byte(a.typ))
		rec = append(rec, be16(len(a.units))...)
		for _, u := range a.units {
			rec = append(append(rec, be16(len(u))...), u...)
		}
	}
	return rec
}

func pick(arrays []hevcArray, typ int) (l [][]byte) {
	for _, a := range arrays {
		if a.typ == typ {
			l = append(l, a.units...)
		}
	}
	return
}

// C10_Parse: records of 0..4 arrays, each of type VPS, SPS, PPS or SEI in any order and repetition, with 0..2 units of 0..2
// arbitrary bytes (thorough: 5 arrays); header bytes, completeness and reserved bits arbitrary.
func C10_Parse() {
	types := []int{32, 33, 34, 39}
	var arrays []hevcArray
	for i, n := 0, v.Choose(maxLen(5, 6)); i < n; i++ {
		a := hevcArray{typ: types[v.Choose(4)]}
		for j, m := 0, v.Choose(3); j < m; j++ {
			a.units = append(a.units, v.Bytes((i+j)%3))
		}
		arrays = append(arrays, a)
	}
	rec := hevcRecord(arrays)
	orig := clone(rec)
	vps, sps, pps := pick(arrays, 32), pick(arrays, 33), pick(arrays, 34)
	var r hevc.HEVCDecoderConfigurationRecord
	err := r.Unmarshal(rec)
	b, err1 := hevc.ExtraDataToAnnexB(rec)
	v.Assert(v.EqBytes(rec, orig), "parsing leaves the record alone")
	if len(vps) == 0 || len(sps) == 0 || len(pps) == 0 {
		v.Assert(v.And(err != nil, err1 != nil), "a record lacking a kind is rejected")
		v.Reach("rejected")
		return
	}
	v.Assert(err == nil, "a complete record parses")
	sameUnits(r.VPSList, vps, "VPS")
	sameUnits(r.SPSList, sps, "SPS")
	sameUnits(r.PPSList, pps, "PPS")
	v.Assert(err1 == nil && v.EqBytes(b, concat(vps, sps, pps)), "Annex-B rendering lists VPS, SPS, PPS")
	v.Reach("parsed")
}

// C10_Header: every header field is read from its place in ISO/IEC 14496-15, for all header bytes.
func C10_Header() {
	rec := hevcRecord([]hevcArray{{32, hevcList(32, 1, 1)}, {33, hevcList(33, 1, 1)}, {34, hevcList(34, 1, 1)}})
	var r hevc.HEVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(rec) == nil, "a complete record parses")
	f := func(bit, n int) uint64 { return bitsSpec(rec, bit, n) }
	v.Assert(uint64(r.ConfigurationVersion) == f(0, 8), "configurationVersion")
	v.Assert(uint64(r.GeneralProfileSpace) == f(8, 2), "general_profile_space")
	v.Assert(uint64(r.GeneralTierFlag) == f(10, 1), "general_tier_flag")
	v.Assert(uint64(r.GeneralProfileIdc) == f(11, 5), "general_profile_idc")
	v.Assert(uint64(r.GeneralProfileCompatibilityFlags) == f(16, 32), "general_profile_compatibility_flags")
	v.Assert(r.GeneralConstraintIndicatorFlags == f(48, 48), "general_constraint_indicator_flags")
	v.Assert(uint64(r.GeneralLevelIdc) == f(96, 8), "general_level_idc")
	v.Assert(uint64(r.MinSpatialSegmentationIdc) == f(108, 12), "min_spatial_segmentation_idc")
	v.Assert(uint64(r.ParallelismType) == f(126, 2), "parallelismType")
	v.Assert(uint64(r.ChromaFormat) == f(134, 2), "chromaFormat")
	v.Assert(uint64(r.BitDepthLumaMinus8) == f(141, 3), "bitDepthLumaMinus8")
	v.Assert(uint64(r.BitDepthChromaMinus8) == f(149, 3), "bitDepthChromaMinus8")
	v.Assert(uint64(r.AvgFrameRate) == f(152, 16), "avgFrameRate")
	v.Assert(uint64(r.ConstantFrameRate) == f(168, 2), "constantFrameRate")
	v.Assert(uint64(r.NumTemporalLayers) == f(170, 3), "numTemporalLayers")
	v.Assert(uint64(r.TemporalIdNested) == f(173, 1), "temporalIdNested")
	// the field holds the length size itself, which is what the packet conversion uses
	v.Assert(uint64(r.LengthSizeMinusOne) == f(174, 2)+1, "lengthSizeMinusOne + 1")
	v.Assert(r.NumOfArrays == 3, "numOfArrays")
	v.Reach("done")
}

// C10_Truncated: every record of one VPS, SPS and PPS of 1..2 arbitrary bytes and an SEI array of 0..1 units, arrays in any of
// six orders, cut anywhere before its end, is rejected.
func C10_Truncated() {
	a := []hevcArray{{32, hevcList(32, 1, 1+v.Choose(2))}, {33, hevcList(33, 1, 2)}, {34, hevcList(34, 1, 1)}, {39, someUnits(1, 1)}}
	i, j := v.Choose(3), v.Choose(2)
	a[0], a[i] = a[i], a[0]
	a[1], a[1+j] = a[1+j], a[1]
	rec := hevcRecord(a)
	cut := clone(rec[:v.Choose(len(rec))])
	var r hevc.HEVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(cut) != nil, "a truncated record is rejected")
	_, err := hevc.ExtraDataToAnnexB(cut)
	v.Assert(err != nil, "the rendering rejects it")
	_, _, err = hevc.NewCodecDataFromHEVCDecoderConfigurationRecord(cut)
	v.Assert(err != nil, "codec data is not built from it")
	v.Reach("cut")
}

// C10_Trailing: records of one unit of each kind followed by 0..12 arbitrary bytes, which change nothing.
func C10_Trailing() {
	vps, sps, pps := hevcList(32, 1, 2), hevcList(33, 1, 2), hevcList(34, 1, 2)
	rec := append(hevcRecord([]hevcArray{{32, vps}, {33, sps}, {34, pps}}), v.Bytes(v.Choose(13))...)
	var r hevc.HEVCDecoderConfigurationRecord
	v.Assert(r.Unmarshal(rec) == nil, "a complete record parses")
	sameUnits(r.VPSList, vps, "VPS")
	sameUnits(r.SPSList, sps, "SPS")
	sameUnits(r.PPSList, pps, "PPS")
	b, err := hevc.ExtraDataToAnnexB(rec)
	v.Assert(err == nil && v.EqBytes(b, concat(vps, sps, pps)), "Annex-B rendering")
	v.Reach("done")
}

// C10_Twice: two different records serialised and parsed one after the other: neither result depends on the other; 1..2 units of each
// kind of 3 arbitrary bytes.
func C10_Twice() {
	type sets struct{ vps, sps, pps [][]byte }
	pick := func() sets {
		return sets{hevcList(32, 1+v.Choose(2), 3), hevcList(33, 1+v.Choose(2), 3), hevcList(34, 1, 3)}
	}
	s, t := pick(), pick()
	m := hevc.HEVCDecoderConfigurationRecord{}
	r1, err1 := m.Marshal(formed(s.vps, 2), formed(s.sps, 2), formed(s.pps, 2))
	r2, err2 := m.Marshal(formed(t.vps, 1), formed(t.sps, 2), formed(t.pps, 2))
	v.Assert(err1 == nil && err2 == nil, "valid parameter sets serialise")
	var a, b hevc.HEVCDecoderConfigurationRecord
	v.Assert(a.Unmarshal(r1) == nil && b.Unmarshal(r2) == nil, "serialised records parse")
	for _, c := range []struct {
		r *hevc.HEVCDecoderConfigurationRecord
		s sets
	}{{&a, s}, {&b, t}} {
		sameUnits(c.r.VPSList, c.s.vps, "VPS")
		sameUnits(c.r.SPSList, c.s.sps, "SPS")
		sameUnits(c.r.PPSList, c.s.pps, "PPS")
	}
	x, _ := hevc.ExtraDataToAnnexB(r1)
	y, _ := hevc.ExtraDataToAnnexB(r2)
	v.Assert(v.And(v.EqBytes(x, concat(s.vps, s.sps, s.pps)), v.EqBytes(y, concat(t.vps, t.sps, t.pps))), "each rendering is of its own record")
	v.Reach("done")
}
