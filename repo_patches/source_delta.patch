From c0c47df22186e18e170063ea020a6139ad10ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:56 +0000
Subject: [PATCH 01/33] fix: signed Exp-Golomb values of even code numbers

---
 bufio/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bufio/golomb_reader.go b/bufio/golomb_reader.go
index 6d8d003..8c08d94 100644
--- a/bufio/golomb_reader.go
+++ b/bufio/golomb_reader.go
@@ -83,7 +83,7 @@ func (self *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From c687a08b10985e7024bc27a1052b772bdc7ac08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:56 +0000
Subject: [PATCH 02/33] fix: refuse negative sizes in BytesReader.ReadBytes

---
 bufio/bytes_reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bufio/bytes_reader.go b/bufio/bytes_reader.go
index 2c5a365..58f6718 100644
--- a/bufio/bytes_reader.go
+++ b/bufio/bytes_reader.go
@@ -2,6 +2,7 @@ package bufio
 
 import (
 	"encoding/binary"
+	"fmt"
 )
 
 type BytesReader interface {
@@ -66,6 +67,10 @@ func (b *bytesReader) ReadUint64() (uint64, error) {
 }
 
 func (b *bytesReader) ReadBytes(size int) ([]byte, error) {
+	if size < 0 {
+		return nil, fmt.Errorf("invalid read size %d", size)
+	}
+
 	tmp := b.offset
 	if err := b.peekN(size); err != nil {
 		return nil, err
-- 
2.43.0


From 786584b97ce279f0596d4d719a4c748e96924208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 03/33] fix: split and strip units of fewer than four bytes

---
 avc/util.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index c7898f1..ca99363 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -301,7 +301,12 @@ func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
 func SplitNalU(data []byte, cb func(nalu []byte)) {
 	var offset int
 	// +3查找第二个nalu
-	for n := FindStartCode2(data[offset+3:]); n > -1; n = FindStartCode2(data[offset+3:]) {
+	for len(data)-offset > 3 {
+		n := FindStartCode2(data[offset+3:])
+		if n < 0 {
+			break
+		}
+
 		n += 3
 		cb(data[offset : offset+n])
 		offset += n
@@ -312,11 +317,11 @@ func SplitNalU(data []byte, cb func(nalu []byte)) {
 }
 
 func RemoveStartCode(data []byte) []byte {
-	if data[0] != 0 || data[1] != 0 {
+	if len(data) < 3 || data[0] != 0 || data[1] != 0 {
 		return data
 	} else if data[2] == 0x1 {
 		return data[3:]
-	} else if data[2] == 0x0 && data[3] == 0x1 {
+	} else if len(data) > 3 && data[2] == 0x0 && data[3] == 0x1 {
 		return data[4:]
 	}
 
-- 
2.43.0


From 05d760e1a8bcd3cb2b6046b0a88f1e9ef7f041ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 04/33] fix: keep units whose header byte is zero in
 AnnexB2AVCC, drop empty ones

---
 avc/util.go | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index ca99363..7ee6234 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -190,14 +190,6 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 	}
 
 	for nalStart < length {
-		// 跳过开头空包(连续0000000100000001)
-		for nalStart < length && annexB[nalStart] == 0 {
-			nalStart++
-		}
-		if nalStart >= length {
-			break
-		}
-
 		nalEnd, n := FindStartCode(annexB[nalStart:])
 		// 最后一个nalu
 		if nalEnd < 0 {
@@ -206,16 +198,14 @@ func AnnexB2AVCC(dst []byte, annexB []byte) int {
 		}
 
 		nalSize := nalEnd - n
-		// 空包, 保存前一个nalu(1个字节header)
-		if nalSize == 0 {
-			nalSize++
-		}
-
-		binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
-		size += 4
+		// 跳过空包(连续0000000100000001)
+		if nalSize > 0 {
+			binary.BigEndian.PutUint32(dst[size:], uint32(nalSize))
+			size += 4
 
-		copy(dst[size:], annexB[nalStart:nalStart+nalSize])
-		size += nalSize
+			copy(dst[size:], annexB[nalStart:nalStart+nalSize])
+			size += nalSize
+		}
 		nalStart += nalEnd
 	}
 
-- 
2.43.0


From 4a953864625ff69dad2a8747b3079a9491c26cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:31 +0000
Subject: [PATCH 05/33] fix: insert parameter sets once per packet when
 converting to Annex-B

---
 avc/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index 7ee6234..a28d490 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -165,6 +165,8 @@ func AVCC2AnnexB(dst []byte, avcc []byte, extra []byte) int {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen && len(extra) > 0 {
 				outSize += copyNalUWithBytes(dst[outSize:], extra, outSize, false)
+				// 一个packet只添加一次
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		case H264NalSEI:
@@ -232,6 +234,8 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 		case H264NalIDRSlice:
 			if !spsSeen && !ppsSeen {
 				outSize += copyNalU(writer, extra, outSize, false)
+				// 一个packet只添加一次
+				spsSeen, ppsSeen = true, true
 			}
 			break
 		}
-- 
2.43.0


From 1f04ba6d22fe1800a88e6c6038f327dbc73f6816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:10 +0000
Subject: [PATCH 06/33] fix: size AVC configuration records by their contents
 and refuse what does not fit

---
 avc/mp4.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/avc/mp4.go b/avc/mp4.go
index e99b2bc..95f575c 100644
--- a/avc/mp4.go
+++ b/avc/mp4.go
@@ -46,8 +46,28 @@ func (a *AVCDecoderConfigurationRecord) Marshal(spsList, ppsList [][]byte) ([]by
 	if len(ppsList) == 0 {
 		return nil, fmt.Errorf("pps cannot be null")
 	}
+	if len(spsList) > 0x1F || len(ppsList) > 0xFF {
+		return nil, fmt.Errorf("too many parameter sets")
+	}
 
-	bytes := make([]byte, 1024)
+	size := 7
+	for _, sps := range spsList {
+		// profile, compatibility和level取自sps
+		n := len(RemoveStartCode(sps))
+		if n < 4 || n > 0xFFFF {
+			return nil, fmt.Errorf("invalid sps size: %d", n)
+		}
+		size += 2 + n
+	}
+	for _, pps := range ppsList {
+		n := len(RemoveStartCode(pps))
+		if n < 1 || n > 0xFFFF {
+			return nil, fmt.Errorf("invalid pps size: %d", n)
+		}
+		size += 2 + n
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 	if err := writer.Seek(5); err != nil {
 		return nil, err
@@ -176,7 +196,15 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	size := 0
+	for _, sps := range record.SPSList {
+		size += len(sps)
+	}
+	for _, pps := range record.PPSList {
+		size += len(pps)
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.SPSList {
-- 
2.43.0


From 566b8869f6fb94be3c73d6b936504312bae7bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:11 +0000
Subject: [PATCH 07/33] fix: render every parameter set in
 M4VCExtraDataToAnnexB and reject truncated records

---
 avc/util.go | 44 +-------------------------------------------
 1 file changed, 1 insertion(+), 43 deletions(-)

diff --git a/avc/util.go b/avc/util.go
index a28d490..de41e24 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -247,49 +247,7 @@ func Mp4ToAnnexB(writer bufio.BytesWriter, data, extra []byte) {
 }
 
 func M4VCExtraDataToAnnexB(src []byte) ([]byte, error) {
-	reader := bufio.NewBytesReader(src)
-
-	//unsigned int(8) configurationVersion = 1;
-	//unsigned int(8) AVCProfileIndication;
-	//unsigned int(8) profile_compatibility;
-	//unsigned int(8) AVCLevelIndication;
-	if err := reader.Seek(4); err != nil {
-		return nil, err
-	}
-
-	readUint8, err := reader.ReadUint8()
-	if err != nil {
-		return nil, err
-	}
-
-	readUint8 &= 0x3 + 1
-	unitNb, err := reader.ReadUint8()
-	unitNb &= 0x1f
-
-	spsDone := 0
-	writer := bufio.NewBytesWriter(make([]byte, len(src)+256))
-	for unitNb != 0 {
-		unitNb--
-
-		var size uint16
-		size, err = reader.ReadUint16()
-		if err != nil {
-			return nil, err
-		} else if err = writer.Write(StartCode4); err != nil {
-			return nil, err
-		} else if err = writer.Write(src[reader.Offset() : reader.Offset()+int(size)]); err != nil {
-			return nil, err
-		} else if err = reader.Seek(int(size)); err != nil {
-			return nil, err
-		}
-
-		spsDone++
-		if reader.ReadableBytes() > 2 && unitNb == 0 && spsDone == 1 {
-			unitNb, _ = reader.ReadUint8()
-		}
-	}
-
-	return writer.WrittenBytes(), nil
+	return ExtraDataToAnnexB(src)
 }
 
 func SplitNalU(data []byte, cb func(nalu []byte)) {
-- 
2.43.0


From 9bb56c57567e2b7edd5e4cc6a1bd8d4be9d64470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:11 +0000
Subject: [PATCH 08/33] fix: size HEVC configuration records by their contents
 and refuse what does not fit

---
 hevc/mp4.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index aabdb5a..0395d34 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -83,7 +83,23 @@ func (r *HEVCDecoderConfigurationRecord) Marshal(vpsList, spsList, ppsList [][]b
 		return nil, fmt.Errorf("vps cannot be null")
 	}
 
-	bytes := make([]byte, 1024)
+	size := 23
+	for _, list := range [][][]byte{vpsList, spsList, ppsList} {
+		if len(list) > 0xFFFF {
+			return nil, fmt.Errorf("too many parameter sets")
+		}
+
+		size += 3
+		for _, nalu := range list {
+			n := len(avc.RemoveStartCode(nalu))
+			if n < 1 || n > 0xFFFF {
+				return nil, fmt.Errorf("invalid parameter set size: %d", n)
+			}
+			size += 2 + n
+		}
+	}
+
+	bytes := make([]byte, size)
 	bytes[0] = 1
 	bytes[21] = 3
 	bytes[22] = 3
@@ -214,7 +230,14 @@ func ExtraDataToAnnexB(data []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	bytes := make([]byte, 1024)
+	size := 0
+	for _, list := range [][][]byte{record.VPSList, record.SPSList, record.PPSList} {
+		for _, nalu := range list {
+			size += len(nalu)
+		}
+	}
+
+	bytes := make([]byte, size)
 	writer := bufio.NewBytesWriter(bytes)
 
 	for _, sps := range record.VPSList {
-- 
2.43.0


From 5c6778d9174ad943a0d9f5f3d4ca36a26375278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:11 +0000
Subject: [PATCH 09/33] fix: keep every SPS of an HEVC configuration record

---
 hevc/mp4.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hevc/mp4.go b/hevc/mp4.go
index 0395d34..3d3d4dd 100644
--- a/hevc/mp4.go
+++ b/hevc/mp4.go
@@ -205,7 +205,7 @@ func (r *HEVCDecoderConfigurationRecord) Unmarshal(data []byte) error {
 			if HevcNalVPS == HEVCNALUnitType(headerType) {
 				r.VPSList = append(r.VPSList, nalu)
 			} else if HevcNalSPS == HEVCNALUnitType(headerType) {
-				r.SPSList = append(r.PPSList, nalu)
+				r.SPSList = append(r.SPSList, nalu)
 			} else if HevcNalPPS == HEVCNALUnitType(headerType) {
 				r.PPSList = append(r.PPSList, nalu)
 			}
-- 
2.43.0


From 2ddba0e5f2ba15efe6302ae7a57f23b5802c2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:29 +0000
Subject: [PATCH 10/33] fix: remove emulation prevention bytes before parsing
 an H.264 SPS

---
 avc/sps.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/avc/sps.go b/avc/sps.go
index 3249ab1..ab87cca 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -27,7 +27,8 @@ type SPS struct {
 }
 
 func ParseSPS(data []byte) (s SPS, err error) {
-	data = RemoveStartCode(data)
+	// 去除防竞争字节
+	data = bytes.Replace(RemoveStartCode(data), []byte{0x0, 0x0, 0x3}, []byte{0x0, 0x0}, -1)
 	r := &bufio.GolombBitReader{R: bytes.NewReader(data)}
 
 	if _, err = r.ReadBits(8); err != nil {
-- 
2.43.0


From e7dd20fb669d2c09398d86773a78d8c6be623dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:29 +0000
Subject: [PATCH 11/33] fix: H.264 cropping units, scaling list count and high
 profiles

---
 avc/sps.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/avc/sps.go b/avc/sps.go
index ab87cca..ae56af8 100644
--- a/avc/sps.go
+++ b/avc/sps.go
@@ -55,21 +55,29 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		return
 	}
 
+	// 默认4:2:0
+	chroma_format_idc := uint(1)
+	separate_colour_plane_flag := uint(0)
+	scalingListCount := 8
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
-			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			// separate_colour_plane_flag
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
+			scalingListCount = 12
 		}
 
 		// bit_depth_luma_minus8
@@ -91,7 +99,7 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			for i := 0; i < scalingListCount; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
@@ -215,8 +223,19 @@ func ParseSPS(data []byte) (s SPS, err error) {
 		}
 	}
 
-	s.Width = int((s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2)
-	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2)
+	// 裁剪单位, 7.4.2.1.1
+	cropUnitX, cropUnitY := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		if chroma_format_idc == 1 || chroma_format_idc == 2 {
+			cropUnitX = 2
+		}
+		if chroma_format_idc == 1 {
+			cropUnitY *= 2
+		}
+	}
+
+	s.Width = int((s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropUnitX)
+	s.Height = int(((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropUnitY)
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From d9e867afa9c77a41a211978e946b6936936a64d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:29 +0000
Subject: [PATCH 12/33] fix: apply the conformance window to the H.265 picture
 size

---
 hevc/sps.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/hevc/sps.go b/hevc/sps.go
index c25c1b1..8a3d9e8 100644
--- a/hevc/sps.go
+++ b/hevc/sps.go
@@ -82,18 +82,30 @@ func ParseSPS(sps []byte) (ctx HEVCSPSInfo, err error) {
 		return
 	}
 	if conformanceWindowFlag != 0 {
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		var left, right, top, bottom uint
+		if left, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if right, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if top, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
-		if _, err = br.ReadExponentialGolombCode(); err != nil {
+		if bottom, err = br.ReadExponentialGolombCode(); err != nil {
 			return
 		}
+
+		// 裁剪单位SubWidthC/SubHeightC, Table 6-1
+		subWidthC, subHeightC := uint(1), uint(1)
+		if ctx.chromaFormat == 1 || ctx.chromaFormat == 2 {
+			subWidthC = 2
+		}
+		if ctx.chromaFormat == 1 {
+			subHeightC = 2
+		}
+		ctx.Width -= int(subWidthC * (left + right))
+		ctx.Height -= int(subHeightC * (top + bottom))
 	}
 
 	var bdlm8 uint
-- 
2.43.0


From e074ba01f1cb465e4de4f9b8ac9061ea7265b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:40 +0000
Subject: [PATCH 13/33] fix: skip empty units when extracting parameter sets

---
 avc/util.go  | 4 ++++
 hevc/util.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/avc/util.go b/avc/util.go
index de41e24..73af138 100644
--- a/avc/util.go
+++ b/avc/util.go
@@ -287,6 +287,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, error) {
 
 	SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := noStartCodeNALU[0] & 0x1F
 
 		if byte(H264NalSPS) == header {
diff --git a/hevc/util.go b/hevc/util.go
index 8df5415..1297590 100644
--- a/hevc/util.go
+++ b/hevc/util.go
@@ -94,6 +94,10 @@ func ParseExtraDataFromKeyNALU(data []byte) ([]byte, []byte, []byte, error) {
 
 	avc.SplitNalU(data, func(nalu []byte) {
 		noStartCodeNALU := avc.RemoveStartCode(nalu)
+		if len(noStartCodeNALU) == 0 {
+			return
+		}
+
 		header := HEVCNALUnitType(noStartCodeNALU[0] >> 1 & 0x3F)
 
 		if header == HevcNalVPS {
-- 
2.43.0


From 61fb4712a3c56f796163dc6e9e2dfd87c1ac8ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:14 +0000
Subject: [PATCH 14/33] fix: look up the sampling index by rate

---
 utils/aac_util.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 3b5b258..9baffbc 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -180,8 +180,15 @@ func GetSampleRateFromFrequency(index int) (int, bool) {
 	return i, ok
 }
 
+// GetSampleRateIndex 返回采样率对应的索引, 不是标准采样率返回-1
 func GetSampleRateIndex(rate int) int {
-	return audioSamplingRates[rate]
+	for index := 0; index < len(audioSamplingRates); index++ {
+		if r, ok := audioSamplingRates[index]; ok && r > 0 && r == rate {
+			return index
+		}
+	}
+
+	return -1
 }
 
 func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
-- 
2.43.0


From 3bef8075965371f9a376cc5de0ac6e4d083a9945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:14 +0000
Subject: [PATCH 15/33] fix: reject AAC headers and configurations that are too
 short

---
 utils/aac_util.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/utils/aac_util.go b/utils/aac_util.go
index 9baffbc..098f8bb 100644
--- a/utils/aac_util.go
+++ b/utils/aac_util.go
@@ -224,6 +224,10 @@ func SetADtsHeader(header []byte, mpegId, aot, index, channelConfig, size int) {
 }
 
 func ReadADtsFixedHeader(data []byte) (ADtsHeader, error) {
+	if len(data) < 7 {
+		return 0, fmt.Errorf("need more data")
+	}
+
 	if 0xFFF != binary.BigEndian.Uint16(data)>>4 {
 		return 0, fmt.Errorf("not find syncword")
 	}
@@ -252,6 +256,10 @@ func ADtsHeader2MpegAudioConfigData(header ADtsHeader) ([]byte, error) {
 }
 
 func ParseMpeg4AudioConfig(data []byte) (*MPEG4AudioConfig, error) {
+	if len(data) < 2 {
+		return nil, fmt.Errorf("need more data")
+	}
+
 	//audio specific config
 	config := &MPEG4AudioConfig{}
 	config.ObjectType = int(data[0] >> 3)
-- 
2.43.0


From 0152544d60a3a620909136b5e465d4b6729f6b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:47 +0000
Subject: [PATCH 16/33] fix: packet conversion sizes its buffer, survives empty
 and malformed packets and adds parameter sets once

---
 packet_utils.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 310a976..45f7a7d 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -11,6 +11,12 @@ func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
 	return int64(float64(ts) * interval)
 }
 
+// needExtraData 数据开头不是vps/sps/pps时, 需要添加
+func needExtraData(extraData, data []byte) bool {
+	extraData, data = avc.RemoveStartCode(extraData), avc.RemoveStartCode(data)
+	return len(extraData) > 0 && (len(data) == 0 || extraData[0] != data[0])
+}
+
 func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 	utils.Assert(utils.AVMediaTypeVideo == pkt.MediaType)
 
@@ -18,7 +24,7 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		// 确保annexb的关键帧开头是vps/sps/pps
 		if pkt.Key && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) && stream.CodecParameters != nil && pkt.dataAnnexB == nil {
 			extraData := stream.CodecParameters.AnnexBExtraData()
-			if avc.RemoveStartCode(extraData)[0] != avc.RemoveStartCode(pkt.Data)[0] {
+			if needExtraData(extraData, pkt.Data) {
 				size := len(extraData) + len(pkt.Data)
 				var data []byte
 				if pkt.OnBufferAlloc != nil {
@@ -42,12 +48,14 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		var n int
 		var bytes []byte
 
-		var extraDataSize int
+		var extraData []byte
 		if pkt.Key && stream.CodecParameters != nil {
-			extraDataSize = len(stream.CodecParameters.AnnexBExtraData())
+			extraData = stream.CodecParameters.AnnexBExtraData()
 		}
 
-		dstSize := extraDataSize + len(pkt.Data) + 256
+		extraDataSize := len(extraData)
+		// 长度字段小于4字节时, 转换后会变大
+		dstSize := extraDataSize + len(pkt.Data)*2 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
@@ -59,16 +67,23 @@ func AVCCPacket2AnnexB(stream *AVStream, pkt *AVPacket) []byte {
 		} else if utils.AVCodecIdH265 == pkt.CodecID {
 			var err error
 
-			lengthSize := stream.CodecParameters.(*HEVCCodecData).Record.LengthSizeMinusOne
+			lengthSize := byte(4)
+			if codecData, ok := stream.CodecParameters.(*HEVCCodecData); ok && codecData.Record.LengthSizeMinusOne > 0 {
+				lengthSize = codecData.Record.LengthSizeMinusOne
+			}
 			n, err = hevc.Mp4ToAnnexB(bytes[extraDataSize:], pkt.Data, nil, int(lengthSize))
 			if err != nil {
-				panic(err)
+				return nil
 			}
 		}
 
-		copy(bytes[:extraDataSize], stream.CodecParameters.AnnexBExtraData())
 		n += extraDataSize
-		pkt.dataAnnexB = bytes[:n]
+		if needExtraData(extraData, bytes[extraDataSize:n]) {
+			copy(bytes[:extraDataSize], extraData)
+			pkt.dataAnnexB = bytes[:n]
+		} else {
+			pkt.dataAnnexB = bytes[extraDataSize:n]
+		}
 	}
 
 	return pkt.dataAnnexB
@@ -81,7 +96,8 @@ func AnnexBPacket2AVCC(pkt *AVPacket) []byte {
 		return pkt.Data
 	} else if pkt.dataAVCC == nil {
 		var bytes []byte
-		dstSize := len(pkt.Data) + 256
+		// 3字节start code转为4字节长度后, 会变大
+		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
 		if pkt.OnBufferAlloc != nil {
 			bytes = pkt.OnBufferAlloc(dstSize)
 		} else {
-- 
2.43.0


From 92ac447149b3b68b3aa2e443a578f4e93bf0b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 17/33] fix: convert timestamps exactly

---
 packet_utils.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet_utils.go b/packet_utils.go
index 45f7a7d..6d203d9 100644
--- a/packet_utils.go
+++ b/packet_utils.go
@@ -7,8 +7,12 @@ import (
 )
 
 func ConvertTs(ts int64, srcTimeBase, dstTimeBase int) int64 {
-	interval := float64(dstTimeBase) / float64(srcTimeBase)
-	return int64(float64(ts) * interval)
+	if srcTimeBase == 0 {
+		return ts
+	}
+
+	src, dst := int64(srcTimeBase), int64(dstTimeBase)
+	return ts/src*dst + ts%src*dst/src
 }
 
 // needExtraData 数据开头不是vps/sps/pps时, 需要添加
-- 
2.43.0


From 0616797d2701e9254087a599270258f9e40c905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 18/33] fix: report the capacity of a queue

---
 collections/ring_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/ring_buffer.go b/collections/ring_buffer.go
index ded39d1..fbe1a22 100644
--- a/collections/ring_buffer.go
+++ b/collections/ring_buffer.go
@@ -89,7 +89,7 @@ func (r *ringBuffer[T]) Size() int {
 }
 
 func (r *ringBuffer[T]) Capacity() int {
-	return r.capacity
+	return cap(r.data)
 }
 
 func (r *ringBuffer[T]) Data() ([]T, []T) {
-- 
2.43.0


From f60d08ae2a77023c37f984244807e1450b347342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 19/33] fix: a split-off block buffer starts empty and shares
 no memory

---
 collections/buffer_direct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_direct.go b/collections/buffer_direct.go
index daea3e6..8ee6a90 100644
--- a/collections/buffer_direct.go
+++ b/collections/buffer_direct.go
@@ -122,14 +122,16 @@ func (b *DirectBlockBuffer) Size() int {
 
 func (b *DirectBlockBuffer) SplitOff() BlockBuffer {
 	b.sealed = true
+	free := b.data[b.nextOffset:]
+	// 空闲内存归新的BlockBuffer所有
+	b.data = b.data[:b.nextOffset:b.nextOffset]
 	return &DirectBlockBuffer{
-		data: b.data[b.nextOffset:],
+		data: free,
 		blocks: NewQueue[*struct {
 			index     int
 			size      int
 			completed bool
 		}](64),
-		nextOffset: b.nextOffset,
 	}
 }
 
-- 
2.43.0


From c1785a56c46fe6a892f7c064d8e3bfa545d30190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:48 +0000
Subject: [PATCH 20/33] fix: a completely filled circular block buffer has no
 room left

---
 collections/buffer_rb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index b605fe4..f9245e4 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -59,7 +59,8 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
-	over := tail < head
+	// 尾部block在头部block之前, 说明已经回环. 此时tail等于head表示没有空闲内存
+	over := tail < head || (tail == head && oldBlock.index < head)
 	if over && head-tail >= size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
-- 
2.43.0


From e5ba7d3a54c61c61367139fb39166082cc364354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 21/33] fix: count the blocks left behind by every growth

---
 collections/buffer_rb.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index f9245e4..9a40524 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -83,8 +83,9 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		oldBlock.index = 0
 		tail = oldBlock.size
 
-		r.discardBlockCount = bufio.MaxInt(r.blocks.Size()-1, 0)
-		for i := 0; i < r.discardBlockCount; i++ {
+		discardBlockCount := bufio.MaxInt(r.blocks.Size()-1, 0)
+		r.discardBlockCount += discardBlockCount
+		for i := 0; i < discardBlockCount; i++ {
 			r.blocks.Pop()
 		}
 	}
-- 
2.43.0


From 77a56945004e1237d021d647d87f51d9904cc720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 22/33] fix: cancel a block that growth left behind

---
 collections/buffer_rb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 9a40524..7888fd0 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -111,6 +111,18 @@ func (r *RBBlockBuffer) Pop() {
 	}
 }
 
+func (r *RBBlockBuffer) PopBack() {
+	utils.Assert(!r.sealed)
+
+	// 最新的block位于扩容之前的内存中
+	if r.blocks.IsEmpty() && r.discardBlockCount > 0 {
+		r.discardBlockCount--
+		return
+	}
+
+	r.DirectBlockBuffer.PopBack()
+}
+
 func (r *RBBlockBuffer) Clear() {
 	r.DirectBlockBuffer.Clear()
 	r.capacity = cap(r.data)
-- 
2.43.0


From 02d013bbec46a904a59a9f2e72a134ac8f6fb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 23/33] fix: keep the packets of each track in its own list

---
 demuxer.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index e08f94f..08873e8 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -253,13 +253,10 @@ func (s *BaseDemuxer) OnVideoPacket(bufferIndex int, id utils.AVCodecID, data []
 // 保证回调的顺序是OnNewTrack...->OnTrackComplete->OnPacket...
 func (s *BaseDemuxer) processBufferedPacket(packet *AVPacket) {
 	var packets *collections.LinkedList[*AVPacket]
-	exist := packet.Index < len(s.Packets)
-	if exist {
-		packets = s.Packets[packet.Index]
-	} else {
+	for packet.Index >= len(s.Packets) {
 		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
-		packets = s.Packets[len(s.Packets)-1]
 	}
+	packets = s.Packets[packet.Index]
 
 	packets.Add(packet)
 
-- 
2.43.0


From 31a60d0298e6571572253eb7194ce77e2afafdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 24/33] fix: merge probed packets without reordering equal
 timestamps

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 08873e8..37b7267 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -463,7 +463,7 @@ func (s *BaseDemuxer) OnProbeComplete() {
 	}
 
 	// dts升序排序
-	sort.Slice(result, func(i, j int) bool {
+	sort.SliceStable(result, func(i, j int) bool {
 		return result[i].Dts < result[j].Dts
 	})
 
-- 
2.43.0


From b9dbf9aa99ef9305868b9c8d415cd5f15e4106f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:49 +0000
Subject: [PATCH 25/33] fix: keep the sampling rate of PCM above the known
 brackets

---
 demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demuxer.go b/demuxer.go
index 37b7267..b7b3031 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -358,7 +358,7 @@ func (s *BaseDemuxer) calculatePCMFrequency() bool {
 			continue
 		}
 
-		var sampleRate = track.GetStream().SampleSize
+		var sampleRate = track.GetStream().SampleRate
 		msSize := pktDataSize / pktDuration
 		if msSize <= 16 { // 8K
 			sampleRate = 8000
-- 
2.43.0


From ffd20ec4e5621aa0ffc265dda04a70dadef4e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 26/33] fix: a PCM or G.726 track without packets needs more
 data

---
 demuxer.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/demuxer.go b/demuxer.go
index b7b3031..a24b76a 100644
--- a/demuxer.go
+++ b/demuxer.go
@@ -493,14 +493,9 @@ func (s *BaseDemuxer) TryCompleteProbe() {
 			continue
 		}
 
-		for i, packets := range s.Packets {
-			if i == track.GetStream().Index && packets.Size() < 2 {
-				needMoreData = true
-				break
-			}
-		}
-
-		if needMoreData {
+		index := track.GetStream().Index
+		if index >= len(s.Packets) || s.Packets[index].Size() < 2 {
+			needMoreData = true
 			break
 		}
 	}
-- 
2.43.0


From 8251943ef151ad44943da64dfe89a3b43e0fc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 27/33] fix: create the stream buffers below a new index

---
 streams_buffer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/streams_buffer.go b/streams_buffer.go
index 7e88f5b..e37ff55 100644
--- a/streams_buffer.go
+++ b/streams_buffer.go
@@ -10,8 +10,7 @@ type StreamsBuffer struct {
 }
 
 func (s *StreamsBuffer) findOrCreateStreamBuffer(index int, mediaType utils.AVMediaType) *collections.RBBlockBuffer {
-	exist := index < len(s.buffers)
-	if !exist {
+	for index >= len(s.buffers) {
 		if utils.AVMediaTypeVideo == mediaType {
 			s.buffers = append(s.buffers, collections.NewRBBlockBuffer(1024*1024*2))
 		} else {
-- 
2.43.0


From 09e8a6642483d8ef1119fd2f45808beae413d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 28/33] fix: random integers from ranges wider than an int

---
 utils/random_util.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/utils/random_util.go b/utils/random_util.go
index 1d47be8..01d5ae6 100644
--- a/utils/random_util.go
+++ b/utils/random_util.go
@@ -24,5 +24,14 @@ func RandomIntInRange(min, max int) int {
 	}
 
 	rand.Seed(time.Now().UnixNano())
-	return rand.Intn(max-min+1) + min
+	if n := max - min + 1; n > 0 {
+		return rand.Intn(n) + min
+	}
+
+	// 范围超过int
+	for {
+		if n := int(rand.Uint64()); n >= min && n <= max {
+			return n
+		}
+	}
 }
-- 
2.43.0


From e381b8d370bb57417c8b391bba6a9611a03d02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:12 +0000
Subject: [PATCH 29/33] fix: a full circular block buffer starts no new block
 over the oldest

---
 collections/buffer_rb.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/buffer_rb.go b/collections/buffer_rb.go
index 7888fd0..7d4daf5 100644
--- a/collections/buffer_rb.go
+++ b/collections/buffer_rb.go
@@ -44,6 +44,12 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		tail = oldBlock.index + oldBlock.size
 	}
 
+	// 有block在头部block之前, 说明已经回环. 此时tail等于head表示没有空闲内存
+	over := tail < head
+	for i := 0; !over && tail == head && i < r.blocks.Size(); i++ {
+		over = r.blocks.Peek(i).index < head
+	}
+
 	// 分配新的内存块
 	if oldBlock == nil || oldBlock.completed {
 		oldBlock = &struct {
@@ -59,8 +65,6 @@ func (r *RBBlockBuffer) Alloc(size int) []byte {
 		r.blocks.Push(oldBlock)
 	}
 
-	// 尾部block在头部block之前, 说明已经回环. 此时tail等于head表示没有空闲内存
-	over := tail < head || (tail == head && oldBlock.index < head)
 	if over && head-tail >= size {
 		// 已经回环, 并且头部有大小合适的内存空间
 	} else if !over && r.capacity-tail >= size {
-- 
2.43.0


From 31214978091521b2316e55fe829e087d10a99541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:17 +0000
Subject: [PATCH 30/33] fix: AAC with channel configuration 7 has eight
 channels

---
 video_stream.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/video_stream.go b/video_stream.go
index 5023ee2..74b960a 100644
--- a/video_stream.go
+++ b/video_stream.go
@@ -86,12 +86,15 @@ func ExtractAudioExtraData(codec utils.AVCodecID, data []byte) ([]byte, int, Aud
 			return nil, -1, AudioConfig{}, err
 		}
 
-		rate, _ := utils.GetSampleRateFromFrequency(header.Frequency())
+		config, err := utils.ParseMpeg4AudioConfig(extraData)
+		if err != nil {
+			return nil, -1, AudioConfig{}, err
+		}
 
 		return extraData, skip, AudioConfig{
-			SampleRate:    rate,
+			SampleRate:    config.SampleRate,
 			SampleSize:    16,
-			Channels:      header.Channel(),
+			Channels:      config.Channels,
 			HasADTSHeader: true,
 		}, nil
 	} else if utils.AVCodecIdPCMALAW == codec || utils.AVCodecIdPCMMULAW == codec {
-- 
2.43.0


From b1c534241e95772549da87d2485cb336241d581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:21 +0000
Subject: [PATCH 31/33] fix: byte copies of the bit cursors stop at the end of
 the data

---
 bufio/bits_reader.go | 4 +++-
 bufio/bits_writer.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bufio/bits_reader.go b/bufio/bits_reader.go
index bd9e0da..b5afee2 100644
--- a/bufio/bits_reader.go
+++ b/bufio/bits_reader.go
@@ -41,7 +41,9 @@ func (b *BitsReader) Seek(length int) {
 func (b *BitsReader) ReadBytes(length int) []byte {
 	offset := b.Offset
 	b.Offset += 8 * length
-	return b.Data[offset/8 : b.Offset/8]
+	// 超出数据范围
+	size := len(b.Data)
+	return b.Data[MinInt(offset/8, size):MinInt(b.Offset/8, size)]
 }
 
 func (b *BitsReader) SafeRead(length int) (uint64, error) {
diff --git a/bufio/bits_writer.go b/bufio/bits_writer.go
index 5e4c9f9..a8db664 100644
--- a/bufio/bits_writer.go
+++ b/bufio/bits_writer.go
@@ -38,6 +38,6 @@ func (b *BitsWriter) Seek(length int) {
 }
 
 func (b *BitsWriter) WriteBytes(data []byte) {
-	copy(b.Data[b.Offset/8:], data)
+	copy(b.Data[MinInt(b.Offset/8, len(b.Data)):], data)
 	b.Offset += len(data) * 8
 }
-- 
2.43.0


From 9e99297267e3555a578b894c04431fc628523006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 32/33] fix: do not write the parameter sets of a
 length-prefixed key frame twice

---
 handler.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/handler.go b/handler.go
index e374151..e74bdcc 100644
--- a/handler.go
+++ b/handler.go
@@ -74,12 +74,6 @@ func (o *OnUnpackStream2FileHandler) OnPacket(packet *AVPacket) {
 	if utils.AVMediaTypeVideo == packet.MediaType {
 		stream := o.tracks.Get(packet.Index).GetStream()
 		data = AVCCPacket2AnnexB(stream, packet)
-		if packet.Key && PacketTypeAVCC == packet.PacketType && stream.CodecParameters != nil {
-			extraData := stream.CodecParameters.AnnexBExtraData()
-			if _, err := o.fos[packet.Index].Write(extraData); err != nil {
-				panic(err)
-			}
-		}
 	}
 
 	if _, err := o.fos[packet.Index].Write(data); err != nil {
-- 
2.43.0


From a4b9180d4918ce7290775c44c97d65d2c23f1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 33/33] fix: truncate the track files of an earlier run

---
 handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handler.go b/handler.go
index e74bdcc..9d0940f 100644
--- a/handler.go
+++ b/handler.go
@@ -55,7 +55,7 @@ type OnUnpackStream2FileHandler struct {
 func (o *OnUnpackStream2FileHandler) OnNewTrack(track Track) {
 	o.OnUnpackStreamLogger.OnNewTrack(track)
 	stream := track.GetStream()
-	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE, 132)
+	file, err := os.OpenFile(o.Path+"."+stream.MediaType.String()+"."+strconv.Itoa(stream.Index)+"."+stream.CodecID.String(), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 132)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0

