package props

import (
	"github.com/lkmio/avformat"
	"github.com/lkmio/avformat/utils"

	"verif/harness/v"
)

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
var aacChannels = []int{0, 1, 2, 3, 4, 5, 6, 8, 0, 0, 0, 7, 8, 24}

// C15_RoundTrip: every MPEG id, profile, sampling index, channel configuration and frame length below 8192, over a buffer of
// 7..9 arbitrary bytes.
func C15_RoundTrip() {
	id, profile, index, ch, size := int(v.Byte()&1), int(v.Byte()&3), int(v.Byte()&15), int(v.Byte()&7), int(v.Uint16()&0x1fff)
	h := v.Bytes(7 + v.Choose(3))
	orig := clone(h)
	utils.SetADtsHeader(h, id, profile, index, ch, size)
	v.Assert(v.EqBytes(h[7:], orig[7:]), "only the seven header bytes are written")
	a, err := utils.ReadADtsFixedHeader(h)
	v.Assert(err == nil, "a written header reads back")
	v.Assert(a.SyncWord() == 0xfff && a.Layer() == 0, "sync word and layer")
	v.Assert(a.ID() == id, "MPEG id")
	v.Assert(a.Profile() == profile, "profile")
	v.Assert(a.Frequency() == index, "sampling index")
	v.Assert(a.Channel() == ch, "channel configuration")
	v.Assert(a.FrameLength() == size, "frame length")
	v.Assert(a.ProtectionAbsent() == 1, "no checksum announced")
	v.Assert(a.Fullness() == 0x7ff && a.Blocks() == 0, "variable bit rate, one block")
	v.Reach("done")
}

// C15_Fields: every 7-byte header with a sync word (and 0..2 bytes after it): every field at its position of ISO/IEC 13818-7.
func C15_Fields() {
	h := append([]byte{0xff, v.Byte() | 0xf0}, v.Bytes(5+v.Choose(3))...)
	orig := clone(h)
	a, err := utils.ReadADtsFixedHeader(h)
	v.Assert(err == nil, "a header with a sync word is read")
	v.Assert(v.EqBytes(h, orig), "input left alone")
	f := func(bit, n int) int { return int(bitsSpec(orig, bit, n)) }
	v.Assert(a.SyncWord() == f(0, 12), "syncword")
	v.Assert(a.ID() == f(12, 1), "ID")
	v.Assert(a.Layer() == f(13, 2), "layer")
	v.Assert(a.ProtectionAbsent() == f(15, 1), "protection_absent")
	v.Assert(a.Profile() == f(16, 2), "profile")
	v.Assert(a.Frequency() == f(18, 4), "sampling_frequency_index")
	v.Assert(a.PrivateBit() == f(22, 1), "private_bit")
	v.Assert(a.Channel() == f(23, 3), "channel_configuration")
	v.Assert(a.Original() == f(26, 1), "original_copy")
	v.Assert(a.Home() == f(27, 1), "home")
	v.Assert(a.CopyrightBit() == f(28, 1), "copyright_identification_bit")
	v.Assert(a.CopyrightStart() == f(29, 1), "copyright_identification_start")
	v.Assert(a.FrameLength() == f(30, 13), "aac_frame_length")
	v.Assert(a.Fullness() == f(43, 11), "adts_buffer_fullness")
	v.Assert(a.Blocks() == f(54, 2), "number_of_raw_data_blocks_in_frame")
	v.Reach("done")
}

// C15_Rejected: every byte string of length 0..9 that is too short or does not begin with the sync word.
func C15_Rejected() {
	p := v.Bytes(v.Choose(10))
	if len(p) >= 7 {
		v.Assume(!v.And(p[0] == 0xff, p[1] >= 0xf0))
	}
	_, err := utils.ReadADtsFixedHeader(p)
	v.Assert(err != nil, "no header: rejected")
	_, _, _, err = avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, p)
	v.Assert(err != nil, "no audio configuration from it")
	v.Reach("rejected")
}

// C15_Config: every ADTS header with a standard sampling index (0..12): the derived configuration decodes to the same object
// type, rate and channels, and extraction reports them with the header length to skip.
func C15_Config() {
	h := append([]byte{0xff, v.Byte() | 0xf0}, v.Bytes(5+v.Choose(3))...)
	f := func(bit, n int) int { return int(bitsSpec(h, bit, n)) }
	index := f(18, 4)
	v.Assume(index < 13)
	index = v.Concretize(index)
	ch := v.Concretize(f(23, 3))
	a, err := utils.ReadADtsFixedHeader(h)
	v.Assert(err == nil, "a header with a sync word is read")
	data, err := utils.ADtsHeader2MpegAudioConfigData(a)
	v.Assert(err == nil && len(data) == 2, "a two-byte configuration")
	c, err := utils.ParseMpeg4AudioConfig(data)
	v.Assert(err == nil, "the configuration parses")
	v.Assert(c.ObjectType == f(16, 2)+1, "object type")
	v.Assert(c.SamplingIndex == index && c.SampleRate == aacRates[index], "sampling rate")
	v.Assert(c.ChanConfig == ch && c.Channels == aacChannels[ch], "channels")
	extra, skip, conf, err := avformat.ExtractAudioExtraData(utils.AVCodecIdAAC, h)
	v.Assert(err == nil && v.EqBytes(extra, data), "extraction gives the same configuration")
	v.Assert(skip == 7+2*(1-f(15, 1)), "the header length to skip")
	v.Assert(conf.SampleRate == aacRates[index] && conf.Channels == aacChannels[ch] && conf.HasADTSHeader, "reported rate and channels")
	v.Reach("done")
}

// C15_Parse: every configuration of 0..4 bytes: too short ones and channel configurations 14 and 15 are rejected, the others
// decoded.
func C15_Parse() {
	p := v.Bytes(v.Choose(5))
	orig := clone(p)
	c, err := utils.ParseMpeg4AudioConfig(p)
	v.Assert(v.EqBytes(p, orig), "input left alone")
	if len(p) < 2 {
		v.Assert(err != nil, "too short: rejected")
		v.Reach("short")
		return
	}
	f := func(bit, n int) int { return int(bitsSpec(orig, bit, n)) }
	ch := f(9, 4)
	if ch >= 14 {
		v.Assert(err != nil, "reserved channel configuration: rejected")
		v.Reach("reserved")
		return
	}
	v.Assert(err == nil, "decoded")
	v.Assert(c.ObjectType == f(0, 5), "object type")
	v.Assert(c.SamplingIndex == f(5, 4), "sampling index")
	i := v.Concretize(f(5, 4))
	v.Assert(i > 12 || c.SampleRate == aacRates[i], "sampling rate")
	v.Assert(c.ChanConfig == ch, "channel configuration")
	v.Assert(c.Channels == aacChannels[v.Concretize(ch)], "channels")
	v.Reach("decoded")
}

// C15_Rates: the two lookups are inverse on the 13 standard rates; every other rate has no index, and every index outside 0..15
// is unknown.
func C15_Rates() {
	i := v.Choose(13)
	r, ok := utils.GetSampleRateFromFrequency(i)
	v.Assert(ok && r == aacRates[i], "rate of the index")
	v.Assert(utils.GetSampleRateIndex(aacRates[i]) == i, "index of the rate")
	x := v.Int()
	for _, r := range aacRates {
		v.Assume(x != r)
	}
	j := utils.GetSampleRateIndex(x)
	v.Assert(v.Or(j < 0, j > 12), "other rates have no index")
	y := v.Int()
	v.Assume(v.Or(y < 0, y > 15))
	_, ok = utils.GetSampleRateFromFrequency(y)
	v.Assert(!ok, "unknown index")
	v.Reach("done")
}
