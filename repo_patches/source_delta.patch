From 39fa39729bfb628f3f3d7231b013119b8e6e4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:01 +0000
Subject: [PATCH 01/93] fix: write the length of ECMA array keys in the AMF0
 encoder

---
 format/flv/flvio/amf0.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..01bdc81 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,8 +280,11 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			pio.WriteString(b, n, p.K)
-			FillAMF0Val(b, n, p.V)
+			if len(p.K) > 0 {
+				pio.WriteU16BE(b, n, uint16(len(p.K)))
+				pio.WriteString(b, n, p.K)
+				FillAMF0Val(b, n, p.V)
+			}
 		}
 		pio.WriteU24BE(b, n, 0x000009)
 
-- 
2.43.0


From b6545c10640af26b7314b68dd45efa643bca83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 02/93] fix: limit the nesting depth of parsed AMF values

---
 format/flv/flvio/amf0.go |  8 ++++++++
 format/flv/flvio/amf3.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 01bdc81..808326b 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -330,6 +330,9 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	return
 }
 
+// maxAMFDepth limits how deep parsed values can nest.
+const maxAMFDepth = 256
+
 func ParseAMF0Val(b []byte, n *int) (val interface{}, err error) {
 	val, err = parseAMF0Val(0, b, n)
 	return
@@ -365,6 +368,11 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > maxAMFDepth {
+		err = amfParseErr("toodeep", b, *n, nil)
+		return
+	}
+
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..ce3187b 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -37,6 +37,11 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > maxAMFDepth {
+		err = amfParseErr("toodeep", b, *n, nil)
+		return
+	}
+
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -221,7 +226,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			break
 		}
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -277,7 +282,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				break
 			}
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
@@ -293,7 +298,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				return
 			}
 			val = val.Set(keys[i], v)
-- 
2.43.0


From 3c876ec239039ef9c0cc407332215a49bbceea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 03/93] fix: do not allocate AMF0 strict arrays from their
 declared count

---
 format/flv/flvio/amf0.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 808326b..abd145d 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -500,12 +500,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var v interface{}
+			if v, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, v)
 		}
 		val = obj
 
-- 
2.43.0


From cffa096ae352101714edb92be5f9c5d6971d40ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:13 +0000
Subject: [PATCH 04/93] fix: do not allocate AMF3 object keys from their
 declared count

---
 format/flv/flvio/amf3.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index ce3187b..bb6a3d4 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -289,12 +289,13 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			val = val.Set(k, v)
 		}
 	} else {
-		keys := make([]string, l)
+		var keys []string
 		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
+			k, err = readString(b, n)
 			if err != nil {
 				return
 			}
+			keys = append(keys, k)
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-- 
2.43.0


From af585adba4e07dcfaeb32d15ddec86517fab059e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 05/93] fix: AMF3 booleans have no payload byte

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index bb6a3d4..d47b7a2 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -55,17 +55,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From f9c596fce5afa01161e3edc6c414a2588f826f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 06/93] fix: write bit fields that cross the 64-bit buffer of
 bits.Writer correctly

---
 utils/bits/bits.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..1e5840d 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -71,14 +71,15 @@ type Writer struct {
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
 		move := uint(64 - w.n)
-		mask := bits >> move
+		rest := uint(n) - move
+		mask := bits >> rest
 		w.bits = (w.bits << move) | mask
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
-		n -= int(move)
-		bits ^= (mask << move)
+		n = int(rest)
+		bits ^= (mask << rest)
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From 75833d5d0ed39c3890ee0b9f83a9e3033b2275b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:12 +0000
Subject: [PATCH 07/93] fix: bit readers lost data when the underlying reader
 returned short

---
 utils/bits/bits.go          | 12 +++---------
 utils/bits/golomb_reader.go |  2 +-
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 1e5840d..ef6e332 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -1,7 +1,6 @@
 package bits
 
 import (
-	"fmt"
 	"io"
 )
 
@@ -14,20 +13,15 @@ type Reader struct {
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
 	if r.n < n {
 		var b [8]byte
-		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
+		if _, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
-		if got < want {
-			err = fmt.Errorf("bits: EOF")
-			return
-		}
-		for i := 0; i < got; i++ {
+		for i := 0; i < want; i++ {
 			r.bits <<= 8
 			r.bits |= uint64(b[i])
 		}
-		r.n += got * 8
+		r.n += want * 8
 	}
 	bits = r.bits >> uint(r.n-n)
 	r.bits ^= bits << uint(r.n-n)
diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..bda2865 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
-- 
2.43.0


From 2385ebfd75b5d9f4aca3d630bed1d1aaa3fdf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 08/93] fix: bits.Reader dropped bits of wide unaligned fields

---
 utils/bits/bits.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index ef6e332..5752031 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -11,6 +11,18 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if n > 32 {
+		// left over bits and n more may not fit into 64 bits
+		var hi, lo uint64
+		if hi, err = r.ReadBits64(n - 32); err != nil {
+			return
+		}
+		if lo, err = r.ReadBits64(32); err != nil {
+			return
+		}
+		bits = hi<<32 | lo
+		return
+	}
 	if r.n < n {
 		var b [8]byte
 		want := (n - r.n + 7) / 8
-- 
2.43.0


From dfa1ac79da46f6bb9ec2e23d85da37ae65a53eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 09/93] fix: sign of negative Exp-Golomb codes

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index bda2865..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 957e609b5a71edb5200699f9b786716fea7cd352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 10/93] fix: AAC audio object type numbers

---
 codec/aac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..f7246f3 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -89,13 +89,13 @@ const (
 	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
 	AOT_CELP                        ///< N                       Code Excited Linear Prediction
 	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
+	AOT_TTSI            = 3 + iota  ///< N                       Text-To-Speech Interface
 	AOT_MAINSYNTH                   ///< N                       Main Synthesis
 	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
 	AOT_MIDI                        ///< N                       General MIDI
 	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
 	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_LTP      = 4 + iota  ///< N                       Error Resilient Long Term Prediction
 	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
 	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
 	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-- 
2.43.0


From 746b9639bd1668d8ba174003e76ab94e0aedb097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 11/93] fix: do not panic on short ADTS headers

---
 codec/aac/aac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index f7246f3..544b962 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -196,6 +196,10 @@ var chanConfigTable = []ChannelLayout{
 }
 
 func ParseADTSHeader(frame []byte) (config MPEG4AudioConfig, hdrlen int, framelen int, samples int, err error) {
+	if len(frame) < ADTSHeaderLength {
+		err = fmt.Errorf("aacparser: adts header too short")
+		return
+	}
 	if frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
 		err = fmt.Errorf("aacparser: not adts header")
 		return
-- 
2.43.0


From 097b9b266ae33d358528a2e5d84569148c12fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 12/93] fix: take the decoder configuration's profile from its
 first SPS

---
 codec/h264/h264.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..321123b 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -475,9 +475,8 @@ func (c *Codec) ToConfig() {
 	var config = make([]byte, c.Len())
 	var pos = 0
 	firstSPS := []byte{}
-	for _, s := range c.SPS {
-		firstSPS = s
-		break
+	if sps := Map2arr(c.SPS); len(sps) > 0 {
+		firstSPS = sps[0]
 	}
 
 	var AVCProfileIndication byte
-- 
2.43.0


From 9f0e6438a0c72a59cf4d9c3940b92cad82ea9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:37 +0000
Subject: [PATCH 13/93] fix: keep the configuration bytes of a parsed H.264
 decoder configuration

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 321123b..d0d5540 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -576,6 +576,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = b
 	c = nc
 	return
 }
-- 
2.43.0


From 295a5ee1595970e15fa4e72bc46bc365293de004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 14/93] fix: read chroma and scaling fields of all high
 profiles' SPS

---
 codec/h264/h264.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index d0d5540..37d9b0a 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -688,7 +688,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From 1c8f95db9814e887c780ac1ecdff0913dfe8a4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 15/93] fix: SPS with 4:4:4 chroma has twelve scaling lists

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 37d9b0a..f225970 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -724,7 +724,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			lists := 8
+			if chroma_format_idc == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 4a91f409060a040768b9c862ada0998b869b34ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:40 +0000
Subject: [PATCH 16/93] fix: H.264 cropping is in chroma and field units

---
 codec/h264/h264.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index f225970..526867e 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -685,6 +685,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	// crop units of 4:2:0, in luma samples
+	cropUnitX, cropUnitY := uint(2), uint(2)
+
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -698,6 +701,13 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			return
 		}
 
+		switch chroma_format_idc {
+		case 0, 3:
+			cropUnitX, cropUnitY = 1, 1
+		case 2:
+			cropUnitX, cropUnitY = 2, 1
+		}
+
 		if chroma_format_idc == 3 {
 			// residual_colour_transform_flag
 			if _, err = r.ReadBit(); err != nil {
@@ -852,8 +862,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	cropUnitY *= 2 - frame_mbs_only_flag
+
+	s.Width = (s.MbWidth * 16) - s.CropLeft*cropUnitX - s.CropRight*cropUnitX
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*cropUnitY - s.CropBottom*cropUnitY
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From d16ede9216f210e0bbb803b33e79df2e6c08036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:49 +0000
Subject: [PATCH 17/93] fix: reject MP4 boxes smaller than their header

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..3b7a003 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2642,7 +2642,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2797,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2894,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
-- 
2.43.0


From 313119523f24c85dddf0ae932b8c01f281f29fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 18/93] fix: keep an empty box at the end of an MP4 container

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 3b7a003..9e3da55 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -254,7 +254,7 @@ func (self Movie) Len() (n int) {
 func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -551,7 +551,7 @@ func (self Track) Len() (n int) {
 func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -881,7 +881,7 @@ func (self Media) Len() (n int) {
 func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1105,7 +1105,7 @@ func (self MediaInfo) Len() (n int) {
 func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1214,7 +1214,7 @@ func (self DataInfo) Len() (n int) {
 func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1308,7 +1308,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1581,7 +1581,7 @@ func (self SampleTable) Len() (n int) {
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1748,7 +1748,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	n += 1
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1919,7 +1919,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleRate = GetFixed32(b[n:])
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2138,7 +2138,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.ColorTableId = pio.I16BE(b[n:])
 	n += 2
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2639,7 +2639,7 @@ func (self MovieFrag) Len() (n int) {
 func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2794,7 +2794,7 @@ func (self TrackFrag) Len() (n int) {
 func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2891,7 +2891,7 @@ func (self MovieExtend) Len() (n int) {
 func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
-- 
2.43.0


From ba01f756ca3af55116f502579e28e3a7cb25af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:51 +0000
Subject: [PATCH 19/93] fix: check that an MP4 table's entry count is present

---
 format/mp4/mp4io/atoms.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 9e3da55..756f9b6 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2259,6 +2259,10 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]TimeToSampleEntry, _len_Entries)
@@ -2343,6 +2347,10 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]SampleToChunkEntry, _len_Entries)
@@ -2430,6 +2438,10 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
@@ -2514,6 +2526,10 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]uint32, _len_Entries)
@@ -2581,6 +2597,10 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]uint32, _len_Entries)
@@ -3095,6 +3115,10 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 		return
 	}
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]uint32, _len_Entries)
@@ -3227,6 +3251,10 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
 	self.Entries = make([]TrackFragRunEntry, _len_Entries)
-- 
2.43.0


From 7d9fa8789f5540728560d7abdbfecefa835dd4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 20/93] fix: allocate MP4 table entries only after checking
 that they are present

---
 format/mp4/mp4io/atoms.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 756f9b6..f3d79e2 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2265,11 +2265,11 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if len(b)-n < LenTimeToSampleEntry*int(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2353,11 +2353,11 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if len(b)-n < LenSampleToChunkEntry*int(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2444,11 +2444,11 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if len(b)-n < LenCompositionOffsetEntry*int(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2532,11 +2532,11 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b)-n < 4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2603,11 +2603,11 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b)-n < 4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3121,11 +3121,11 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b)-n < 4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
-- 
2.43.0


From 953f4eb460fae050c6d3ccf359950046bee2c23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 21/93] fix: presence of trun sample fields is set by the box
 flags

---
 format/mp4/mp4io/atoms.go | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index f3d79e2..c818547 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3171,13 +3171,8 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 		}
 	}
 
-	for i, entry := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for _, entry := range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			pio.PutU32BE(b[n:], entry.Duration)
 			n += 4
@@ -3213,13 +3208,8 @@ func (self TrackFragRun) Len() (n int) {
 		}
 	}
 
-	for i := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			n += 4
 		}
@@ -3280,12 +3270,7 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 
 	for i := 0; i < int(_len_Entries); i++ {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+		flags := self.Flags
 		entry := &self.Entries[i]
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			entry.Duration = pio.U32BE(b[n:])
-- 
2.43.0


From b49ab0d00229848697387ea5e0d1b0bd6ad7cbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 22/93] fix: check that trun entries are present before
 allocating them

---
 format/mp4/mp4io/atoms.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index c818547..e252fdc 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3141,6 +3141,7 @@ type TrackFragRun struct {
 	Flags            uint32
 	DataOffset       uint32
 	FirstSampleFlags uint32
+	SampleCount      uint32 // used when no entry has any field, so that Entries is empty
 	Entries          []TrackFragRunEntry
 	AtomPos
 }
@@ -3156,7 +3157,11 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 	n += 1
 	pio.PutU24BE(b[n:], self.Flags)
 	n += 3
-	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
+	if len(self.Entries) != 0 {
+		pio.PutU32BE(b[n:], uint32(len(self.Entries)))
+	} else {
+		pio.PutU32BE(b[n:], self.SampleCount)
+	}
 	n += 4
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
@@ -3247,7 +3252,6 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3269,8 +3273,23 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		}
 	}
 
-	for i := 0; i < int(_len_Entries); i++ {
-		flags := self.Flags
+	flags := self.Flags
+	entryLen := 0
+	for _, f := range []uint32{TRUN_SAMPLE_DURATION, TRUN_SAMPLE_SIZE, TRUN_SAMPLE_FLAGS, TRUN_SAMPLE_CTS} {
+		if flags&f != 0 {
+			entryLen += 4
+		}
+	}
+	if len(b)-n < entryLen*int(_len_Entries) {
+		err = parseErr("TrackFragRunEntry", n+offset, err)
+		return
+	}
+	self.SampleCount = _len_Entries
+	if entryLen == 0 {
+		return
+	}
+	self.Entries = make([]TrackFragRunEntry, _len_Entries)
+	for i := range self.Entries {
 		entry := &self.Entries[i]
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			entry.Duration = pio.U32BE(b[n:])
-- 
2.43.0


From 3bf40a6f2782c62e7afe5771f7ca33f0b77a921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:39 +0000
Subject: [PATCH 23/93] fix: check that the time of a tfdt box is present

---
 format/mp4/mp4io/atoms.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e252fdc..bf607c8 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3549,10 +3549,18 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	if self.Version != 0 {
+		if len(b) < n+8 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime64(b[n:])
 		n += 8
 	} else {
 
+		if len(b) < n+4 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime32(b[n:])
 		n += 4
 	}
-- 
2.43.0


From c9cdb517df9b1fb5bf9d4f29fac26f64230ee409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:40 +0000
Subject: [PATCH 24/93] fix: keep the sample count of an stsz box with a
 uniform size

---
 format/mp4/mp4io/atoms.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index bf607c8..d024760 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3049,9 +3049,11 @@ func (self TrackExtend) Children() (r []Atom) {
 type SampleSize struct {
 	Version    uint8
 	Flags      uint32
-	SampleSize uint32
+	SampleSize uint32 // size of every sample, or zero if Entries has them
 	Entries    []uint32
 	AtomPos
+
+	SampleCount uint32 // used when SampleSize is not zero
 }
 
 func (self SampleSize) Marshal(b []byte) (n int) {
@@ -3068,6 +3070,8 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
 	if self.SampleSize != 0 {
+		pio.PutU32BE(b[n:], self.SampleCount)
+		n += 4
 		return
 	}
 	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
@@ -3083,10 +3087,10 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	n += 4
 	if self.SampleSize != 0 {
 		return
 	}
-	n += 4
 	n += 4 * len(self.Entries)
 	return
 }
@@ -3111,9 +3115,6 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
-	if self.SampleSize != 0 {
-		return
-	}
 	var _len_Entries uint32
 	if len(b) < n+4 {
 		err = parseErr("Entries", n+offset, err)
@@ -3121,6 +3122,10 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
+	if self.SampleSize != 0 {
+		self.SampleCount = _len_Entries
+		return
+	}
 	if len(b)-n < 4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
-- 
2.43.0


From 4234c4d5fd7a031cadfaabafdc345bfce116ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 25/93] fix: keep unknown boxes in stbl and dref

---
 format/mp4/mp4io/atoms.go | 41 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index d024760..d172b19 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -1254,9 +1254,10 @@ func (self DataInfo) Children() (r []Atom) {
 }
 
 type DataRefer struct {
-	Version uint8
-	Flags   uint32
-	Url     *DataReferUrl
+	Version  uint8
+	Flags    uint32
+	Url      *DataReferUrl
+	Unknowns []Atom
 	AtomPos
 }
 
@@ -1275,11 +1276,15 @@ func (self DataRefer) marshal(b []byte) (n int) {
 	if self.Url != nil {
 		_childrenNR++
 	}
+	_childrenNR += len(self.Unknowns)
 	pio.PutI32BE(b[n:], int32(_childrenNR))
 	n += 4
 	if self.Url != nil {
 		n += self.Url.Marshal(b[n:])
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Marshal(b[n:])
+	}
 	return
 }
 func (self DataRefer) Len() (n int) {
@@ -1290,6 +1295,9 @@ func (self DataRefer) Len() (n int) {
 	if self.Url != nil {
 		n += self.Url.Len()
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Len()
+	}
 	return
 }
 func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
@@ -1325,6 +1333,15 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 				}
 				self.Url = atom
 			}
+		default:
+			{
+				atom := &Dummy{Tag_: tag, Data: b[n : n+size]}
+				if _, err = atom.Unmarshal(b[n:n+size], offset+n); err != nil {
+					err = parseErr("", n+offset, err)
+					return
+				}
+				self.Unknowns = append(self.Unknowns, atom)
+			}
 		}
 		n += size
 	}
@@ -1334,6 +1351,7 @@ func (self DataRefer) Children() (r []Atom) {
 	if self.Url != nil {
 		r = append(r, self.Url)
 	}
+	r = append(r, self.Unknowns...)
 	return
 }
 
@@ -1520,6 +1538,7 @@ type SampleTable struct {
 	SyncSample        *SyncSample
 	ChunkOffset       *ChunkOffset
 	SampleSize        *SampleSize
+	Unknowns          []Atom
 	AtomPos
 }
 
@@ -1551,6 +1570,9 @@ func (self SampleTable) marshal(b []byte) (n int) {
 	if self.SampleSize != nil {
 		n += self.SampleSize.Marshal(b[n:])
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Marshal(b[n:])
+	}
 	return
 }
 func (self SampleTable) Len() (n int) {
@@ -1576,6 +1598,9 @@ func (self SampleTable) Len() (n int) {
 	if self.SampleSize != nil {
 		n += self.SampleSize.Len()
 	}
+	for _, atom := range self.Unknowns {
+		n += atom.Len()
+	}
 	return
 }
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
@@ -1652,6 +1677,15 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 				}
 				self.SampleSize = atom
 			}
+		default:
+			{
+				atom := &Dummy{Tag_: tag, Data: b[n : n+size]}
+				if _, err = atom.Unmarshal(b[n:n+size], offset+n); err != nil {
+					err = parseErr("", n+offset, err)
+					return
+				}
+				self.Unknowns = append(self.Unknowns, atom)
+			}
 		}
 		n += size
 	}
@@ -1679,6 +1713,7 @@ func (self SampleTable) Children() (r []Atom) {
 	if self.SampleSize != nil {
 		r = append(r, self.SampleSize)
 	}
+	r = append(r, self.Unknowns...)
 	return
 }
 
-- 
2.43.0


From dc3dafecef18f27048ea400789acbf328404243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 26/93] fix: descriptor lengths of esds boxes

---
 format/mp4/mp4io/mp4io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..750a385 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -281,8 +281,8 @@ func (self ElemStreamDesc) Marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], 0) // Version
 	n += 4
 	datalen := self.Len()
-	n += self.fillESDescHdr(b[n:], datalen-n-self.lenESDescHdr())
-	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1)
+	n += self.fillESDescHdr(b[n:], datalen-n-self.lenDescHdr())
+	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-self.lenDescHdr()-1)
 	copy(b[n:], self.DecConfig)
 	n += len(self.DecConfig)
 	n += self.fillDescHdr(b[n:], 0x06, datalen-n-self.lenDescHdr())
-- 
2.43.0


From 23851e0de45dbcb68f6a44b5ac77a5dc701e31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 27/93] fix: parse esds descriptors within their declared
 lengths

---
 format/mp4/mp4io/mp4io.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 750a385..1779494 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -300,10 +300,12 @@ func (self *ElemStreamDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
 	n += 4
-	return self.parseDesc(b[n:], offset+n)
+	return self.parseDesc(b[n:], offset+n, 0)
 }
 
-func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
+// parseDesc parses a descriptor and the first one inside it, whose tag must be
+// higher than its parent's.
+func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int, err error) {
 	var hdrlen int
 	var datalen int
 	var tag uint8
@@ -316,6 +318,12 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 		err = parseErr("datalen", offset+n, err)
 		return
 	}
+	b = b[:n+datalen]
+
+	if tag <= parent {
+		err = parseErr("nested desc", offset, err)
+		return
+	}
 
 	switch tag {
 	case MP4ESDescrTag:
@@ -323,8 +331,11 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 			err = parseErr("MP4ESDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+3:], offset+n+3); err != nil {
-			return
+		self.TrackId = pio.U16BE(b[n:])
+		if len(b) > n+3 {
+			if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
+				return
+			}
 		}
 
 	case MP4DecConfigDescrTag:
@@ -333,8 +344,10 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size); err != nil {
-			return
+		if len(b) > n+size {
+			if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
+				return
+			}
 		}
 
 	case MP4DecSpecificDescrTag:
-- 
2.43.0


From a86704be0e7d8364ec81dee08660e4159e5e2030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 28/93] fix: MP4 64-bit times do not overflow

---
 format/mp4/mp4io/mp4io.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 1779494..9dfd5b6 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -46,13 +46,12 @@ func PutTime32(b []byte, t time.Time) {
 func GetTime64(b []byte) (t time.Time) {
 	sec := pio.U64BE(b)
 	t = time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC)
-	t = t.Add(time.Second * time.Duration(sec))
+	t = time.Unix(t.Unix()+int64(sec), 0).UTC()
 	return
 }
 
 func PutTime64(b []byte, t time.Time) {
-	dur := t.Sub(time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC))
-	sec := uint64(dur / time.Second)
+	sec := uint64(t.Unix() - time.Date(1904, time.January, 1, 0, 0, 0, 0, time.UTC).Unix())
 	pio.PutU64BE(b, sec)
 }
 
-- 
2.43.0


From 04e66268e77b4adf16ab54c41321cfea0bf7017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 29/93] fix: file-level MP4 boxes with 64-bit, open-ended or
 forged sizes

---
 format/mp4/mp4io/mp4io.go | 40 +++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 9dfd5b6..b4d9f97 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -389,8 +389,18 @@ func (self *ElemStreamDesc) parseDescHdr(b []byte, offset int) (n int, tag uint8
 }
 
 func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
+	var offset, end int64
+	if offset, err = r.Seek(0, 1); err != nil {
+		return
+	}
+	if end, err = r.Seek(0, 2); err != nil {
+		return
+	}
+	if _, err = r.Seek(offset, 0); err != nil {
+		return
+	}
+
 	for {
-		offset, _ := r.Seek(0, 1)
 		taghdr := make([]byte, 8)
 		if _, err = io.ReadFull(r, taghdr); err != nil {
 			if err == io.EOF {
@@ -398,9 +408,26 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 			}
 			return
 		}
-		size := pio.U32BE(taghdr[0:])
+		size := int64(pio.U32BE(taghdr[0:]))
 		tag := Tag(pio.U32BE(taghdr[4:]))
 
+		hdrlen := int64(8)
+		switch size {
+		case 0: // extends to the end of the file
+			size = end - offset
+		case 1: // 64-bit size
+			size64 := make([]byte, 8)
+			if _, err = io.ReadFull(r, size64); err != nil {
+				return
+			}
+			size = int64(pio.U64BE(size64))
+			hdrlen = 16
+		}
+		if size < hdrlen || size > math.MaxInt64-offset {
+			err = parseErr("TagSizeInvalid", int(offset), err)
+			return
+		}
+
 		var atom Atom
 		switch tag {
 		case MOOV:
@@ -410,7 +437,11 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
+			if size > end-offset {
+				err = io.ErrUnexpectedEOF
+				return
+			}
+			b := make([]byte, 8+int(size-hdrlen))
 			if _, err = io.ReadFull(r, b[8:]); err != nil {
 				return
 			}
@@ -422,11 +453,12 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		} else {
 			dummy := &Dummy{Tag_: tag}
 			dummy.setPos(int(offset), int(size))
-			if _, err = r.Seek(int64(size)-8, 1); err != nil {
+			if _, err = r.Seek(offset+size, 0); err != nil {
 				return
 			}
 			atoms = append(atoms, dummy)
 		}
+		offset += size
 	}
 	return
 }
-- 
2.43.0


From 20c34e7a344a1ecc198212fadc57f1b2e28debee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 30/93] fix: MP4 audio and video codec types were swapped

---
 format/mp4/stream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..71237d5 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,8 +13,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
 
@@ -64,11 +62,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From 5dbdbaa9a9b8c1fe80dfbadaeb515103cd3009ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 31/93] fix: select the MP4 video track to seek by its codec

---
 format/mp4/demuxer.go | 8 ++++----
 format/mp4/stream.go  | 5 +++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..dceac79 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -132,8 +132,8 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
-		if IsVideo(sType) {
+	for _, stream := range self.streams {
+		if stream.isVideo() {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
@@ -142,8 +142,8 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	for _, stream := range self.streams {
+		if !stream.isVideo() {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 71237d5..484bc56 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -69,6 +69,11 @@ func IsVideo(t int) bool {
 	return t == av.H264
 }
 
+func (self *Stream) isVideo() bool {
+	_, ok := self.Codec.(*h264.Codec)
+	return ok
+}
+
 func timeToTs(tm time.Duration, timeScale int64) int64 {
 	return int64(tm * time.Duration(timeScale) / time.Second)
 }
-- 
2.43.0


From 745134d20c01ffe6cc5738b528c7e4d48226234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:59 +0000
Subject: [PATCH 32/93] fix: write the AAC decoder configuration into MP4 files

---
 format/mp4/muxer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..1e20c5a 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -140,9 +140,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				DecConfig: codec.ConfigBytes,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From 942eb270e83b71e5f0d20c8d01bf9cf7ce8d8e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 33/93] fix: do not replace the MP4 tracks that have packets

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 1e20c5a..b143f6d 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,6 +46,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if _, ok := self.streams[cType]; ok {
+			continue
+		}
 		stream := &Stream{Codec: codec}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From a4565545ec9dfa9a9e91cc21f7c0ce82da44bda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 34/93] fix: next track id of MP4 files with two tracks

---
 format/mp4/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index b143f6d..876e035 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -262,7 +262,7 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(self.streams) + 1),
 	}
 
 	maxDur := time.Duration(0)
-- 
2.43.0


From d13ce6c46295c8b3ca6c0e267cb07abb869de60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 35/93] fix: write the mdat header of an MP4 file without
 packets

---
 format/mp4/muxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 876e035..2e5c7d5 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -248,6 +248,10 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
+
 	for _, stream := range self.streams {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
-- 
2.43.0


From ac998aae6028f7515403f8bde5271594a6e71c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 36/93] fix: negative composition offsets in MP4 files

---
 format/mp4/muxer.go  | 3 +++
 format/mp4/stream.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 2e5c7d5..4754bfb 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -230,6 +230,9 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 
 	if self.sample.CompositionOffset != nil {
 		offset := uint32(self.timeToTs(pkt.CTime))
+		if pkt.CTime < 0 {
+			self.sample.CompositionOffset.Version = 1 // offsets are signed
+		}
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
 			table := self.sample.CompositionOffset
 			table.Entries = append(table.Entries, mp4io.CompositionOffsetEntry{Offset: offset})
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 484bc56..d530049 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -315,6 +315,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
 		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		if self.sample.CompositionOffset.Version != 0 {
+			cts = int64(int32(cts))
+		}
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From 57ce263dcd529b37dac2a60e87b41a5cd84cb330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 37/93] fix: MP4 times do not overflow

---
 format/mp4/stream.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index d530049..040e969 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -75,19 +75,21 @@ func (self *Stream) isVideo() bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	sec, frac := tm/time.Second, tm%time.Second
+	return int64(sec)*timeScale + int64(frac)*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	sec, frac := ts/timeScale, ts%timeScale
+	return time.Duration(sec)*time.Second + time.Duration(frac)*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
-- 
2.43.0


From 5632b13c5e80307fca22bff0d58aaa95d518c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:04 +0000
Subject: [PATCH 38/93] fix: MP4 decode times do not drift from the packet
 times

---
 format/mp4/muxer.go  | 5 ++++-
 format/mp4/stream.go | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 4754bfb..123f3ec 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -221,7 +221,10 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	if self.sampleIndex == 0 {
+		self.startTime = pkt.Time
+	}
+	duration := uint32(self.timeToTs(pkt.Time+rawdur-self.startTime) - self.duration)
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 040e969..fcf7225 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -19,7 +19,8 @@ type Stream struct {
 	trackAtom *mp4io.Track
 	idx       int
 
-	lastpkt *av.Packet
+	lastpkt   *av.Packet
+	startTime time.Duration
 
 	timeScale int64
 	duration  int64
-- 
2.43.0


From a0fa344c8c0de26b5d17df592facfc488dad4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:18 +0000
Subject: [PATCH 39/93] fix: MP4 demuxer crashed on tracks without headers or
 sample tables

---
 format/mp4/demuxer.go |  8 +++++++-
 format/mp4/stream.go  | 11 +++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index dceac79..b806c0f 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -76,7 +76,7 @@ func (self *Demuxer) probe() (err error) {
 			demuxer:   self,
 			idx:       i,
 		}
-		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
+		if atrack.Media != nil && atrack.Media.Header != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
 			stream.timeScale = int64(atrack.Media.Header.TimeScale)
 		} else {
@@ -88,11 +88,17 @@ func (self *Demuxer) probe() (err error) {
 			if stream.Codec, err = h264.FromDecoderConfig(avc1.Data); err != nil {
 				return
 			}
+			if err = stream.checkTables(); err != nil {
+				return
+			}
 			self.streams = append(self.streams, stream)
 		} else if esds := atrack.GetElemStreamDesc(); esds != nil {
 			if stream.Codec, err = aac.FromMPEG4AudioConfigBytes(esds.DecConfig); err != nil {
 				return
 			}
+			if err = stream.checkTables(); err != nil {
+				return
+			}
 			self.streams = append(self.streams, stream)
 		}
 	}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fcf7225..a747436 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -93,6 +93,17 @@ func (self *Stream) tsToTime(ts int64) time.Duration {
 	return tsToTime(ts, self.timeScale)
 }
 
+func (self *Stream) checkTables() error {
+	s := self.sample
+	if s.TimeToSample == nil || s.SampleToChunk == nil || s.ChunkOffset == nil || s.SampleSize == nil {
+		return fmt.Errorf("mp4: stream[%d]: incomplete sample table", self.idx)
+	}
+	if self.timeScale <= 0 {
+		return fmt.Errorf("mp4: stream[%d]: invalid time scale", self.idx)
+	}
+	return nil
+}
+
 func (self *Stream) setSampleIndex(index int) (err error) {
 	found := false
 	start := 0
-- 
2.43.0


From 80b89b8533a361cb97dc10e083cb7b3d8e2a70b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 40/93] fix: MP4 demuxer crashed on inconsistent sample tables

---
 format/mp4/stream.go | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index a747436..bcd7dd8 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -109,6 +109,11 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	start := 0
 	self.chunkGroupIndex = 0
 
+	if len(self.sample.SampleToChunk.Entries) == 0 {
+		err = fmt.Errorf("mp4: stream[%d]: empty sample to chunk table", self.idx)
+		return
+	}
+
 	for self.chunkIndex = range self.sample.ChunkOffset.Entries {
 		if self.chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
 			uint32(self.chunkIndex+1) == self.sample.SampleToChunk.Entries[self.chunkGroupIndex+1].FirstChunk {
@@ -216,15 +221,8 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
-	if self.sample.SampleSize.SampleSize != 0 {
-		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
-			return false
-		}
+	if self.sampleIndex >= self.sampleCount() {
+		return false
 	}
 	return true
 }
@@ -282,21 +280,10 @@ func (self *Stream) incSampleIndex() (duration int64) {
 }
 
 func (self *Stream) sampleCount() int {
-	if self.sample.SampleSize.SampleSize == 0 {
-		chunkGroupIndex := 0
-		count := 0
-		for chunkIndex := range self.sample.ChunkOffset.Entries {
-			n := int(self.sample.SampleToChunk.Entries[chunkGroupIndex].SamplesPerChunk)
-			count += n
-			if chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
-				uint32(chunkIndex+1) == self.sample.SampleToChunk.Entries[chunkGroupIndex+1].FirstChunk {
-				chunkGroupIndex++
-			}
-		}
-		return count
-	} else {
-		return len(self.sample.SampleSize.Entries)
+	if self.sample.SampleSize.SampleSize != 0 {
+		return int(self.sample.SampleSize.SampleCount)
 	}
+	return len(self.sample.SampleSize.Entries)
 }
 
 func (self *Stream) readPacket() (pkt av.Packet, err error) {
@@ -321,7 +308,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
 	}
-- 
2.43.0


From b10f534332cfb314c69fd1a7fee63a26e9f9efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:20 +0000
Subject: [PATCH 41/93] fix: MP4 demuxer allocated samples beyond the end of
 the file

---
 format/mp4/demuxer.go | 4 ++++
 format/mp4/stream.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index b806c0f..7055c50 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -15,6 +15,7 @@ type Demuxer struct {
 	r         io.ReadSeeker
 	streams   []*Stream
 	movieAtom *mp4io.Movie
+	size      int64
 }
 
 func NewDemuxer(r io.ReadSeeker) *Demuxer {
@@ -54,6 +55,9 @@ func (self *Demuxer) probe() (err error) {
 	if atoms, err = mp4io.ReadFileAtoms(self.r); err != nil {
 		return
 	}
+	if self.size, err = self.r.Seek(0, 2); err != nil {
+		return
+	}
 	if _, err = self.r.Seek(0, 0); err != nil {
 		return
 	}
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index bcd7dd8..745adcf 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -302,6 +302,10 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
+	if sampleOffset+int64(sampleSize) > self.demuxer.size {
+		err = io.ErrUnexpectedEOF
+		return
+	}
 	pkt.Data = make([]byte, sampleSize)
 	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
 		return
-- 
2.43.0


From 6892258044d229a809f7b002bae9c79e9d0a27a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 42/93] fix: MP4 demuxer stopped when its first track ended

---
 format/mp4/demuxer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 7055c50..c6e0dd1 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -118,10 +118,17 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
 	}
+	if chosen == nil {
+		err = io.EOF
+		return
+	}
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
-- 
2.43.0


From 6351542d81d248aeaeaeecc582d1928feb3131e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 43/93] fix: set the type of packets read from MP4 files

---
 format/mp4/demuxer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index c6e0dd1..db7e4ca 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -136,6 +136,7 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
+	pkt.Type, err = CodecType(chosen.Codec)
 	pkt.Time = tm
 	return
 }
-- 
2.43.0


From 86f3a490bf5c03ce24950fafcab1199aee18abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 44/93] fix: every sample of an MP4 video track without stss is
 a key frame

---
 format/mp4/stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 745adcf..ee43b75 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -316,6 +316,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else {
+		pkt.IsKeyFrame = self.isVideo()
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From ef40ce9d5ff93eb42aa6aa18977baa9b1cd85f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 45/93] fix: MP4 seek skipped the sync sample at the target

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index ee43b75..afa22ed 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -375,7 +375,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i]-1 <= uint32(targetIndex) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From 9fc8c6780d87ce0942cc289f46f470bb579e9dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 46/93] fix: MP4 seek in tracks with long runs of equal
 durations

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index afa22ed..a0decbb 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -355,7 +355,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
-- 
2.43.0


From 2235c495bb4fbc5a49120b606aa5886d039cd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 47/93] fix: MP4 seek failed on files with an empty track

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index a0decbb..60f8bb7 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -336,6 +336,9 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 
 func (self *Stream) seekToTime(tm time.Duration) (err error) {
 	index := self.timeToSampleIndex(tm)
+	if index < 0 { // no samples
+		return
+	}
 	if err = self.setSampleIndex(index); err != nil {
 		return
 	}
-- 
2.43.0


From 9ffcdf185bc51f9a92fb1b16fbe50a560a2e9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 48/93] fix: MP4 seek went to zero when the video track was
 empty

---
 format/mp4/demuxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index db7e4ca..0ad66e8 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -151,7 +151,7 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 	for _, stream := range self.streams {
-		if stream.isVideo() {
+		if stream.isVideo() && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From 749a51bbd694cab1fe054132042a3f0cc8dd961c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:50 +0000
Subject: [PATCH 49/93] fix: flush RTMP media messages when they are written

---
 format/rtmp/msg.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..5708379 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -767,12 +767,15 @@ func (c *Conn) WriteTag(tag flvio.Tag) (err error) {
 	} else {
 		csid = 5
 	}
-	return c.writeMsg(csid, message{
+	if err = c.writeMsg(csid, message{
 		msgtypeid: uint8(tag.Type),
 		msgdata:   tag.Data,
 		msgsid:    c.avmsgsid,
 		timenow:   tag.Time,
-	}, tag.FillHeader)
+	}, tag.FillHeader); err != nil {
+		return
+	}
+	return c.flushWrite()
 }
 
 func (c *message) arrToCommand(arr []interface{}) (cmd *command, err error) {
-- 
2.43.0


From 91cff6999ee1d37988abff4ad68130c0b6c1f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 50/93] fix: byte order of 3-byte RTMP chunk stream ids

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 5708379..70021f3 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[0]) + uint32(b[1])<<8 + 64
 	}
 
 	newcs := false
-- 
2.43.0


From 192624e9972eb0cc69a72d6bfec0f5041872307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:07 +0000
Subject: [PATCH 51/93] fix: RTMP continuation chunks without a repeated
 extended timestamp stalled

---
 format/rtmp/msg.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 70021f3..b3426e9 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -483,11 +483,16 @@ func (c *Conn) readChunk() (msg *message, err error) {
 			}
 		} else {
 			if cs.hastimeext {
-				var b []byte
-				if b, err = c.wrapRW.Peek(4); err != nil {
-					return
+				// not all peers repeat the extended timestamp
+				repeated := true
+				for i := 1; i <= 4 && repeated; i++ {
+					var p []byte
+					if p, err = c.wrapRW.Peek(i); err != nil {
+						return
+					}
+					repeated = p[i-1] == byte(cs.timeext>>uint(32-8*i))
 				}
-				if pio.U32BE(b) == cs.timeext {
+				if repeated {
 					if _, err = c.wrapRW.Read(b[:4]); err != nil {
 						return
 					}
-- 
2.43.0


From 996767f65b8899dbc810f3f35fd459e09cdcad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:40 +0000
Subject: [PATCH 52/93] fix: rejected RTMP publish and play requests are
 reported as errors

The failure status was sent with level "status", which peers (this client
included) take for success.
---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From e34a527993cc336d10c35294549dd00ba363ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 53/93] fix: RTMP dial of an unsupported URL scheme crashed

---
 format/rtmp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 242c497..b1b02b1 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"fmt"
 	"net"
 	"net/url"
 	"time"
@@ -89,6 +90,9 @@ func (t *Client) Dial(url_ string, flags int) (c *Conn, nc net.Conn, err error)
 			return
 		}
 		nc_ = tls.Client(nc_, &tls.Config{InsecureSkipVerify: true})
+	default:
+		err = fmt.Errorf("SchemeUnsupported(%s)", u.Scheme)
+		return
 	}
 
 	var c_ *Conn
-- 
2.43.0


From c96997dfcd507ff03b1238cda45baa19b4173691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 54/93] fix: SDP media line without fields crashed

---
 format/rtsp/sdp/parser.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..bc7ae3a 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -43,9 +43,11 @@ func Parse(content string) (sess Session, medias []Media) {
 					case "audio", "video":
 						medias = append(medias, Media{AVType: fields[0]})
 						media = &medias[len(medias)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							media.PayloadType, _ = strconv.Atoi(mfields[2])
+						if len(fields) > 1 {
+							mfields := strings.Split(fields[1], " ")
+							if len(mfields) >= 3 {
+								media.PayloadType, _ = strconv.Atoi(mfields[2])
+							}
 						}
 					}
 				}
-- 
2.43.0


From a9409eab4045cf4a06b3a450e77267cefa89981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:22 +0000
Subject: [PATCH 55/93] fix: SDP attributes of other media sections changed the
 previous one

---
 format/rtsp/sdp/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index bc7ae3a..9d9767f 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,6 +38,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
+				media = nil
 				if len(fields) > 0 {
 					switch fields[0] {
 					case "audio", "video":
-- 
2.43.0


From dfd13b28d29eb50f86b1f0404a32232df4d0dfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 56/93] fix: SDP attributes are told apart by their names

A '/', ';' or "control:" in any other attribute changed the clock rate,
configuration or control URL of the section, parameters of an fmtp line with
a single one were ignored, and so was the case of parameter names.
---
 format/rtsp/sdp/parser.go | 81 +++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 9d9767f..48808b1 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -3,7 +3,6 @@ package sdp
 import (
 	"encoding/base64"
 	"encoding/hex"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -58,19 +57,31 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			case "a":
 				if media != nil {
-					for _, field := range fields {
-						keyval := strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
-							key := keyval[0]
-							val := keyval[1]
-							switch key {
-							case "control":
-								media.Control = val
-							case "rtpmap":
-								media.Rtpmap, _ = strconv.Atoi(val)
-							}
-						}
-						keyval = strings.Split(field, "/")
+					keyval := strings.SplitN(typeval[1], ":", 2)
+					if len(keyval) < 2 {
+						continue
+					}
+					attr, val := keyval[0], strings.TrimSpace(keyval[1])
+					if attr == "control" {
+						media.Control = val
+						continue
+					}
+
+					// rtpmap and fmtp: payload type, space, value
+					fields := strings.SplitN(val, " ", 2)
+					if len(fields) < 2 {
+						continue
+					}
+					payloadType, err := strconv.Atoi(fields[0])
+					if err != nil || payloadType != media.PayloadType {
+						continue
+					}
+					val = strings.TrimSpace(fields[1])
+
+					switch attr {
+					case "rtpmap":
+						media.Rtpmap = payloadType
+						keyval := strings.Split(val, "/")
 						if len(keyval) >= 2 {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
@@ -82,30 +93,26 @@ func Parse(content string) (sess Session, medias []Media) {
 							if i, err := strconv.Atoi(keyval[1]); err == nil {
 								media.TimeScale = i
 							}
-							if false {
-								fmt.Println("sdp:", keyval[1], media.TimeScale)
-							}
 						}
-						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
-							for _, field := range keyval {
-								keyval := strings.SplitN(field, "=", 2)
-								if len(keyval) == 2 {
-									key := strings.TrimSpace(keyval[0])
-									val := keyval[1]
-									switch key {
-									case "config":
-										media.Config, _ = hex.DecodeString(val)
-									case "sizelength":
-										media.SizeLength, _ = strconv.Atoi(val)
-									case "indexlength":
-										media.IndexLength, _ = strconv.Atoi(val)
-									case "sprop-parameter-sets":
-										fields := strings.Split(val, ",")
-										for _, field := range fields {
-											val, _ := base64.StdEncoding.DecodeString(field)
-											media.SpropParameterSets = append(media.SpropParameterSets, val)
-										}
+
+					case "fmtp":
+						for _, field := range strings.Split(val, ";") {
+							keyval := strings.SplitN(field, "=", 2)
+							if len(keyval) == 2 {
+								key := strings.ToLower(strings.TrimSpace(keyval[0]))
+								val := strings.TrimSpace(keyval[1])
+								switch key {
+								case "config":
+									media.Config, _ = hex.DecodeString(val)
+								case "sizelength":
+									media.SizeLength, _ = strconv.Atoi(val)
+								case "indexlength":
+									media.IndexLength, _ = strconv.Atoi(val)
+								case "sprop-parameter-sets":
+									fields := strings.Split(val, ",")
+									for _, field := range fields {
+										val, _ := base64.StdEncoding.DecodeString(field)
+										media.SpropParameterSets = append(media.SpropParameterSets, val)
 									}
 								}
 							}
-- 
2.43.0


From e303ff85ae6048e1b5fdfe23ddbb293dd112c4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:23 +0000
Subject: [PATCH 57/93] fix: RTSP sections with static payload types made
 Describe fail

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..42491fb 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -602,6 +602,9 @@ func (self *Client) Describe() (err error) {
 
 	self.streams = []*Stream{}
 	for _, media := range medias {
+		if !(media.PayloadType >= 96 && media.PayloadType <= 127) {
+			continue // unsupported codec
+		}
 		stream := &Stream{Sdp: media, client: self}
 		if err := stream.makeCodec(); err != nil {
 			return err
-- 
2.43.0


From e6c79635480e725375f6293fdff47bc16243c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 58/93] fix: RTSP control URLs

A request URL with a trailing slash and a section without control URL of its
own gave wrong SETUP URLs.
---
 format/rtsp/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 42491fb..e838e1d 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -541,8 +541,10 @@ func (self *Client) Setup(idx []int) (err error) {
 		control := self.streams[si].Sdp.Control
 		if strings.HasPrefix(control, "rtsp://") {
 			uri = control
+		} else if control == "" || control == "*" {
+			uri = self.requestUri
 		} else {
-			uri = self.requestUri + "/" + control
+			uri = strings.TrimSuffix(self.requestUri, "/") + "/" + control
 		}
 		req := Request{Method: "SETUP", Uri: uri}
 		req.Header = append(req.Header, fmt.Sprintf("Transport: RTP/AVP/TCP;unicast;interleaved=%d-%d", si*2, si*2+1))
-- 
2.43.0


From f627c1d208cb085495e3c2433d49d8dd060513e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 59/93] fix: RTSP requests that fail are reported

DESCRIBE answered by an error with a body was taken for a presentation
without streams, and a refused SETUP or PLAY left the reader waiting for
media.  A challenged SETUP is sent again with credentials.
---
 format/rtsp/client.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e838e1d..ab615f6 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -60,6 +60,7 @@ type Client struct {
 	brconn     *bufio.Reader
 	requestUri string
 	cseq       uint
+	playCSeq   string
 	streams    []*Stream
 	session    string
 	body       io.Reader
@@ -551,10 +552,20 @@ func (self *Client) Setup(idx []int) (err error) {
 		if self.session != "" {
 			req.Header = append(req.Header, "Session: "+self.session)
 		}
-		if err = self.WriteRequest(req); err != nil {
-			return
+		var res Response
+		for i := 0; i < 2; i++ {
+			if err = self.WriteRequest(req); err != nil {
+				return
+			}
+			if res, err = self.ReadResponse(); err != nil {
+				return
+			}
+			if res.StatusCode != 401 {
+				break
+			}
 		}
-		if _, err = self.ReadResponse(); err != nil {
+		if res.StatusCode != 200 {
+			err = fmt.Errorf("rtsp: Setup failed, StatusCode=%d", res.StatusCode)
 			return
 		}
 	}
@@ -589,7 +600,7 @@ func (self *Client) Describe() (err error) {
 			break
 		}
 	}
-	if res.ContentLength == 0 {
+	if res.StatusCode != 200 || res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
 		return
 	}
@@ -1052,6 +1063,7 @@ func (self *Client) Play() (err error) {
 	if err = self.WriteRequest(req); err != nil {
 		return
 	}
+	self.playCSeq = strconv.Itoa(int(self.cseq))
 	if self.stage == stageSetupDone {
 		self.stage = stagePlayDone
 	}
@@ -1147,6 +1159,10 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
+			if res.StatusCode >= 300 && res.Headers.Get("CSeq") == self.playCSeq {
+				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
+				return
+			}
 		}
 
 		var ok bool
-- 
2.43.0


From eb86e83e077840056cd44e57873523edb1e7814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 60/93] fix: RTSP authentication

Realms and nonces with '=' or ',' were cut, the digest did not cover the URI
of the request, quotes in values were not escaped and opaque not returned.
---
 format/rtsp/client.go | 70 +++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index ab615f6..5a548b1 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -53,7 +53,7 @@ type Client struct {
 	setupIdx []int
 	setupMap []int
 
-	authHeaders func(method string) []string
+	authHeaders func(method, uri string) []string
 
 	url        *url.URL
 	conn       *connWithTimeout
@@ -171,7 +171,7 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	fmt.Fprintf(buf, "CSeq: %d\r\n", self.cseq)
 
 	if self.authHeaders != nil {
-		headers := self.authHeaders(req.Method)
+		headers := self.authHeaders(req.Method, req.Uri)
 		for _, s := range headers {
 			io.WriteString(buf, s)
 			io.WriteString(buf, "\r\n")
@@ -280,22 +280,13 @@ func (self *Client) handle401(res *Response) (err error) {
 	*/
 	authval := res.Headers.Get("WWW-Authenticate")
 	hdrval := strings.SplitN(authval, " ", 2)
-	var realm, nonce string
+	var realm, nonce, opaque string
 
 	if len(hdrval) == 2 {
-		for _, field := range strings.Split(hdrval[1], ",") {
-			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
-				key := keyval[0]
-				val := strings.Trim(keyval[1], `"`)
-				switch key {
-				case "realm":
-					realm = val
-				case "nonce":
-					nonce = val
-				}
-			}
-		}
+		params := parseAuthParams(hdrval[1])
+		realm = params["realm"]
+		nonce = params["nonce"]
+		opaque = params["opaque"]
 
 		if realm != "" {
 			var username string
@@ -308,7 +299,7 @@ func (self *Client) handle401(res *Response) (err error) {
 			username = self.url.User.Username()
 			password, _ = self.url.User.Password()
 
-			self.authHeaders = func(method string) []string {
+			self.authHeaders = func(method, uri string) []string {
 				var headers []string
 				if nonce == "" {
 					headers = []string{
@@ -316,11 +307,14 @@ func (self *Client) handle401(res *Response) (err error) {
 					}
 				} else {
 					hs1 := md5hash(username + ":" + realm + ":" + password)
-					hs2 := md5hash(method + ":" + self.requestUri)
+					hs2 := md5hash(method + ":" + uri)
 					response := md5hash(hs1 + ":" + nonce + ":" + hs2)
 					headers = []string{fmt.Sprintf(
 						`Authorization: Digest username="%s", realm="%s", nonce="%s", uri="%s", response="%s"`,
-						username, realm, nonce, self.requestUri, response)}
+						quoteAuthParam(username), quoteAuthParam(realm), quoteAuthParam(nonce), uri, response)}
+					if opaque != "" {
+						headers[0] += fmt.Sprintf(`, opaque="%s"`, quoteAuthParam(opaque))
+					}
 				}
 				return headers
 			}
@@ -330,6 +324,44 @@ func (self *Client) handle401(res *Response) (err error) {
 	return
 }
 
+// key=value and key="quoted value" parameters separated by commas
+func parseAuthParams(s string) map[string]string {
+	params := map[string]string{}
+	for s != "" {
+		i := strings.IndexByte(s, '=')
+		if i < 0 {
+			break
+		}
+		key := strings.ToLower(strings.Trim(s[:i], ", "))
+		s = strings.TrimLeft(s[i+1:], " ")
+		var val []byte
+		if strings.HasPrefix(s, `"`) {
+			for i = 1; i < len(s) && s[i] != '"'; i++ {
+				if s[i] == '\\' && i+1 < len(s) {
+					i++
+				}
+				val = append(val, s[i])
+			}
+		} else {
+			if i = strings.IndexByte(s, ','); i < 0 {
+				i = len(s)
+			}
+			val = []byte(strings.TrimSpace(s[:i]))
+		}
+		params[key] = string(val)
+		s = s[i:]
+		if i = strings.IndexByte(s, ','); i < 0 {
+			break
+		}
+		s = s[i+1:]
+	}
+	return params
+}
+
+func quoteAuthParam(s string) string {
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s)
+}
+
 func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 	const (
 		R = iota + 1
-- 
2.43.0


From 078a09ddeed3967e904b2d390daefa8722323213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:25 +0000
Subject: [PATCH 61/93] fix: short interleaved RTSP blocks

RTCP blocks of less than 8 bytes crashed the client, which looked at 12 bytes
before it knew that the block has them.
---
 format/rtsp/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 5a548b1..fbf0309 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -200,8 +200,12 @@ func (self *Client) WriteRequest(req Request) (err error) {
 	return
 }
 
+func blockLength(h []byte) int {
+	return int(h[2])<<8 + int(h[3])
+}
+
 func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool) {
-	length = int(h[2])<<8 + int(h[3])
+	length = blockLength(h)
 	no = int(h[1])
 	if no/2 >= len(self.streams) {
 		return
@@ -420,7 +424,7 @@ func (self *Client) findRTSP() (block []byte, data []byte, err error) {
 			return
 		}
 
-		if stat == Dollar && len(peek) >= 12 {
+		if stat == Dollar && len(peek) >= 4 && (len(peek) >= 12 || len(peek) == 4+blockLength(peek)) {
 			if self.DebugRtp {
 				fmt.Println("rtsp: dollar at", i, len(peek))
 			}
-- 
2.43.0


From e721c0c7f4ee6e55fb065084a0745984e7f5ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:26 +0000
Subject: [PATCH 62/93] fix: do not allocate RTSP bodies from their declared
 length

---
 format/rtsp/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index fbf0309..d26a783 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -501,10 +501,11 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		body := &bytes.Buffer{}
+		if _, err = io.CopyN(body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From bf559882b9083f10b3afb6b5c61e7d77dfe7e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 63/93] fix: skip the header extension and padding of RTP
 packets

---
 format/rtsp/client.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d26a783..4a5ef75 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1016,6 +1016,30 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 
+	if packet[0]&0x10 != 0 { // header extension
+		if len(payload) < 4 {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		extlen := 4 + int(binary.BigEndian.Uint16(payload[2:4]))*4
+		if extlen > len(payload) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		payload = payload[extlen:]
+	}
+	if packet[0]&0x20 != 0 { // padding
+		padlen := 0
+		if len(payload) > 0 {
+			padlen = int(payload[len(payload)-1])
+		}
+		if padlen == 0 || padlen > len(payload) {
+			err = fmt.Errorf("rtp: padding invalid")
+			return
+		}
+		payload = payload[:len(payload)-padlen]
+	}
+
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
 		0	PCMU	A	8000	1	[RFC3551]
-- 
2.43.0


From d2b0d42bae1ed70b621b657e4f8feb166590c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 64/93] fix: RTSP packet times

A first timestamp of 0 was taken for none, and times stopped when the distance
to the first timestamp reached 2^32.
---
 format/rtsp/client.go | 20 ++++++++++----------
 format/rtsp/stream.go | 11 +++++++----
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 4a5ef75..f998100 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -227,11 +227,9 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
-			timestamp -= stream.firsttimestamp
-			if timestamp < stream.timestamp {
-				return
-			} else if timestamp-stream.timestamp > uint32(stream.timeScale()*60*60) {
+		if stream.timed {
+			// the difference of an earlier timestamp wraps around
+			if int64(timestamp-stream.lasttimestamp) > int64(stream.timeScale())*60*60 {
 				return
 			}
 		}
@@ -1175,19 +1173,21 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 	if stream.gotpkt {
 		/*
 			TODO: sync AV by rtcp NTP timestamp
-			TODO: handle timestamp overflow
 			https://tools.ietf.org/html/rfc3550
 			A receiver can then synchronize presentation of the audio and video packets by relating
 			their RTP timestamps using the timestamp pairs in RTCP SR packets.
 		*/
-		if stream.firsttimestamp == 0 {
-			stream.firsttimestamp = stream.timestamp
+		if stream.timed {
+			stream.ticks += int64(stream.timestamp - stream.lasttimestamp)
 		}
-		stream.timestamp -= stream.firsttimestamp
+		stream.timed = true
+		stream.lasttimestamp = stream.timestamp
 
 		ok = true
 		pkt = stream.pkt
-		pkt.Time = time.Duration(stream.timestamp) * time.Second / time.Duration(stream.timeScale())
+		scale := int64(stream.timeScale())
+		pkt.Time = time.Duration(stream.ticks/scale)*time.Second +
+			time.Duration(stream.ticks%scale)*time.Second/time.Duration(scale)
 
 		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
 			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..a0cae1e 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,10 +20,13 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt         bool
-	pkt            av.Packet
-	timestamp      uint32
-	firsttimestamp uint32
+	gotpkt    bool
+	pkt       av.Packet
+	timestamp uint32
+
+	timed         bool   // there was a packet before
+	lasttimestamp uint32 // its timestamp
+	ticks         int64  // its distance from the first one
 
 	lasttime time.Duration
 }
-- 
2.43.0


From 1b0b9be28b0b2a4679c59136a05a4c34835fd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:55 +0000
Subject: [PATCH 65/93] fix: RTSP packets with several frames, nested
 packetisation and one-byte NAL units

Of several slices in one aggregation packet only the last was returned.
Aggregation and fragmentation units within each other recursed as deeply as
the peer liked, copying the rest of the data each time.  NAL units without
payload, such as end of sequence, ended the session.
---
 format/rtsp/client.go | 186 +++++++++++++++++++++++-------------------
 format/rtsp/stream.go |   3 +-
 2 files changed, 105 insertions(+), 84 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index f998100..3ea08d2 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -62,6 +62,7 @@ type Client struct {
 	cseq       uint
 	playCSeq   string
 	streams    []*Stream
+	pkts       []av.Packet // received and not yet returned
 	session    string
 	body       io.Reader
 }
@@ -724,13 +725,13 @@ func (self *Stream) timeScale() int {
 	return t
 }
 
-func (self *Stream) handleBuggyAnnexbH264Packet(timestamp uint32, packet []byte) (isBuggy bool, err error) {
+func (self *Stream) handleBuggyAnnexbH264Packet(packet []byte) (isBuggy bool, err error) {
 	if len(packet) >= 4 && packet[0] == 0 && packet[1] == 0 && packet[2] == 0 && packet[3] == 1 {
 		isBuggy = true
 		if nalus, typ := h264.SplitNALUs(packet); typ != h264.NALU_RAW {
 			for _, nalu := range nalus {
 				if len(nalu) > 0 {
-					if err = self.handleH264Payload(timestamp, nalu); err != nil {
+					if err = self.handleH264NALU(nalu); err != nil {
 						return
 					}
 				}
@@ -748,7 +749,7 @@ func (self *Stream) makeCodec() (err error) {
 		case av.H264:
 			for _, nalu := range media.SpropParameterSets {
 				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+					self.handleH264NALU(nalu)
 				}
 			}
 
@@ -756,7 +757,7 @@ func (self *Stream) makeCodec() (err error) {
 				if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
 					for _, nalu := range nalus {
 						if len(nalu) > 0 {
-							self.handleH264Payload(0, nalu)
+							self.handleH264NALU(nalu)
 						}
 					}
 				}
@@ -787,14 +788,14 @@ func (self *Stream) makeCodec() (err error) {
 	return
 }
 
-func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err error) {
-	if len(packet) < 2 {
+func (self *Stream) handleH264Payload(packet []byte) (err error) {
+	if len(packet) < 1 {
 		err = fmt.Errorf("rtp: h264 packet too short")
 		return
 	}
 
 	var isBuggy bool
-	if isBuggy, err = self.handleBuggyAnnexbH264Packet(timestamp, packet); isBuggy {
+	if isBuggy, err = self.handleBuggyAnnexbH264Packet(packet); isBuggy {
 		return
 	}
 
@@ -816,47 +817,8 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 		29       FU-B      Fragmentation unit                 5.8
 		30-31    reserved                                     -
 	*/
-	switch {
-	case naluType >= 1 && naluType <= 5:
-		if naluType == 5 {
-			self.pkt.IsKeyFrame = true
-		}
-		self.gotpkt = true
-		// raw nalu to avcc
-		b := make([]byte, 4+len(packet))
-		pio.PutU32BE(b[0:4], uint32(len(packet)))
-		copy(b[4:], packet)
-		self.pkt.Data = b
-		self.timestamp = timestamp
-
-	case naluType == 7: // sps
-		if self.client != nil && self.client.DebugRtp {
-			fmt.Println("rtsp: got sps")
-		}
-		if len(self.sps) == 0 {
-			self.sps = packet
-		} else if bytes.Compare(self.sps, packet) != 0 {
-			self.spsChanged = true
-			self.sps = packet
-			if self.client != nil && self.client.DebugRtp {
-				fmt.Println("rtsp: sps changed")
-			}
-		}
-	case naluType == 8: // pps
-		if self.client != nil && self.client.DebugRtp {
-			fmt.Println("rtsp: got pps")
-		}
-		if len(self.pps) == 0 {
-			self.pps = packet
-		} else if bytes.Compare(self.pps, packet) != 0 {
-			self.ppsChanged = true
-			self.pps = packet
-			if self.client != nil && self.client.DebugRtp {
-				fmt.Println("rtsp: pps changed")
-			}
-		}
-
-	case naluType == 28: // FU-A
+	switch naluType {
+	case 28: // FU-A
 		/*
 			0                   1                   2                   3
 			0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1
@@ -905,6 +867,10 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			Type: 5 bits
 			The NAL unit payload type as defined in table 7-1 of [1].
 		*/
+		if len(packet) < 2 {
+			err = fmt.Errorf("rtp: h264 packet too short")
+			return
+		}
 		fuIndicator := packet[0]
 		fuHeader := packet[1]
 		isStart := fuHeader&0x80 != 0
@@ -917,13 +883,13 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			self.fuBuffer = append(self.fuBuffer, packet[2:]...)
 			if isEnd {
 				self.fuStarted = false
-				if err = self.handleH264Payload(timestamp, self.fuBuffer); err != nil {
+				if err = self.handleH264NALU(self.fuBuffer); err != nil {
 					return
 				}
 			}
 		}
 
-	case naluType == 24: // STAP-A
+	case 24: // STAP-A
 		/*
 			0                   1                   2                   3
 			0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1 2 3 4 5 6 7 8 9 0 1
@@ -952,19 +918,72 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 			if size+2 > len(packet) {
 				break
 			}
-			if err = self.handleH264Payload(timestamp, packet[2:size+2]); err != nil {
+			nalu := packet[2 : size+2]
+			if isBuggy, err = self.handleBuggyAnnexbH264Packet(nalu); err != nil {
 				return
 			}
+			if !isBuggy {
+				if err = self.handleH264NALU(nalu); err != nil {
+					return
+				}
+			}
 			packet = packet[size+2:]
 		}
+
+	default:
+		err = self.handleH264NALU(packet)
+	}
+
+	return
+}
+
+func (self *Stream) handleH264NALU(packet []byte) (err error) {
+	if len(packet) < 1 {
+		err = fmt.Errorf("rtp: h264 packet too short")
 		return
+	}
+
+	naluType := packet[0] & 0x1f
+
+	switch {
+	case naluType >= 1 && naluType <= 5:
+		// raw nalu to avcc
+		b := make([]byte, 4+len(packet))
+		pio.PutU32BE(b[0:4], uint32(len(packet)))
+		copy(b[4:], packet)
+		self.gotPacket(naluType == 5, b)
+
+	case naluType == 7: // sps
+		if self.client != nil && self.client.DebugRtp {
+			fmt.Println("rtsp: got sps")
+		}
+		if len(self.sps) == 0 {
+			self.sps = packet
+		} else if bytes.Compare(self.sps, packet) != 0 {
+			self.spsChanged = true
+			self.sps = packet
+			if self.client != nil && self.client.DebugRtp {
+				fmt.Println("rtsp: sps changed")
+			}
+		}
+	case naluType == 8: // pps
+		if self.client != nil && self.client.DebugRtp {
+			fmt.Println("rtsp: got pps")
+		}
+		if len(self.pps) == 0 {
+			self.pps = packet
+		} else if bytes.Compare(self.pps, packet) != 0 {
+			self.ppsChanged = true
+			self.pps = packet
+			if self.client != nil && self.client.DebugRtp {
+				fmt.Println("rtsp: pps changed")
+			}
+		}
 
 	case naluType >= 6 && naluType <= 23: // other single NALU packet
 	case naluType == 25: // STAB-B
 	case naluType == 26: // MTAP-16
 	case naluType == 27: // MTAP-24
-	case naluType == 28: // FU-B
-
 	default:
 		err = fmt.Errorf("rtsp: unsupported H264 naluType=%d", naluType)
 		return
@@ -973,6 +992,14 @@ func (self *Stream) handleH264Payload(timestamp uint32, packet []byte) (err erro
 	return
 }
 
+func (self *Stream) gotPacket(isKeyFrame bool, data []byte) {
+	self.pkts = append(self.pkts, av.Packet{
+		Type:       self.Sdp.Type,
+		IsKeyFrame: isKeyFrame,
+		Data:       data,
+	})
+}
+
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	if self.isCodecChange() {
 		err = ErrCodecChange
@@ -1011,7 +1038,7 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		err = fmt.Errorf("rtp: packet too short")
 		return
 	}
-	timestamp := binary.BigEndian.Uint32(packet[4:8])
+	self.timestamp = binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 
 	if packet[0]&0x10 != 0 { // header extension
@@ -1082,11 +1109,9 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	*/
 	//payloadType := packet[1]&0x7f
 
-	self.pkt.Type = self.Sdp.Type
-
 	switch self.Sdp.Type {
 	case av.H264:
-		if err = self.handleH264Payload(timestamp, payload); err != nil {
+		if err = self.handleH264Payload(payload); err != nil {
 			return
 		}
 
@@ -1096,14 +1121,10 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 			return
 		}
 		payload = payload[4:] // TODO: remove this hack
-		self.gotpkt = true
-		self.pkt.Data = payload
-		self.timestamp = timestamp
+		self.gotPacket(false, payload)
 
 	default:
-		self.gotpkt = true
-		self.pkt.Data = payload
-		self.timestamp = timestamp
+		self.gotPacket(false, payload)
 	}
 
 	if err = self.makeCodec(); err != nil {
@@ -1146,7 +1167,7 @@ func (self *Client) Close() (err error) {
 	return self.conn.Conn.Close()
 }
 
-func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error) {
+func (self *Client) handleBlock(block []byte) (err error) {
 	_, blockno, _ := self.parseBlockHeader(block)
 	if blockno%2 != 0 {
 		if self.DebugRtp {
@@ -1170,7 +1191,9 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		}
 	}
 
-	if stream.gotpkt {
+	pkts := stream.pkts
+	stream.pkts = nil
+	if len(pkts) > 0 {
 		/*
 			TODO: sync AV by rtcp NTP timestamp
 			https://tools.ietf.org/html/rfc3550
@@ -1183,24 +1206,23 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 		stream.timed = true
 		stream.lasttimestamp = stream.timestamp
 
-		ok = true
-		pkt = stream.pkt
 		scale := int64(stream.timeScale())
-		pkt.Time = time.Duration(stream.ticks/scale)*time.Second +
+		pktTime := time.Duration(stream.ticks/scale)*time.Second +
 			time.Duration(stream.ticks%scale)*time.Second/time.Duration(scale)
 
-		if pkt.Time < stream.lasttime || pkt.Time-stream.lasttime > time.Minute*30 {
-			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pkt.Time, stream.lasttime)
+		if pktTime < stream.lasttime || pktTime-stream.lasttime > time.Minute*30 {
+			err = fmt.Errorf("rtp: time invalid  time=%v lasttime=%v", pktTime, stream.lasttime)
 			return
 		}
-		stream.lasttime = pkt.Time
+		stream.lasttime = pktTime
 
-		if self.DebugRtp {
-			fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
+		for _, pkt := range pkts {
+			pkt.Time = pktTime
+			if self.DebugRtp {
+				fmt.Println("rtp: pktout", pkt.Time, len(pkt.Data))
+			}
+			self.pkts = append(self.pkts, pkt)
 		}
-
-		stream.pkt = av.Packet{}
-		stream.gotpkt = false
 	}
 
 	return
@@ -1211,7 +1233,7 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
-	for {
+	for len(self.pkts) == 0 {
 		var res Response
 		for {
 			if res, err = self.poll(); err != nil {
@@ -1226,14 +1248,14 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			}
 		}
 
-		var ok bool
-		if pkt, ok, err = self.handleBlock(res.Block); err != nil {
-			return
-		}
-		if ok {
+		if err = self.handleBlock(res.Block); err != nil {
 			return
 		}
 	}
+
+	pkt = self.pkts[0]
+	self.pkts = self.pkts[1:]
+	return
 }
 
 func (self *Client) ReadPacket() (pkt av.Packet, err error) {
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index a0cae1e..deb46a1 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,8 +20,7 @@ type Stream struct {
 	spsChanged bool
 	ppsChanged bool
 
-	gotpkt    bool
-	pkt       av.Packet
+	pkts      []av.Packet // of the last RTP packet
 	timestamp uint32
 
 	timed         bool   // there was a packet before
-- 
2.43.0


From 8ecc5155b0da24b923446e92bf46c10a6f0d97aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:32 +0000
Subject: [PATCH 66/93] fix: RTSP parameter sets

Of several parameter sets of a kind only the last was kept, the ones of the
SDP were put back after every RTP packet once the stream had changed them, and
the RTP packet that followed a change was lost.
---
 format/rtsp/client.go | 64 +++++++++++++++++++++++--------------------
 format/rtsp/stream.go |  2 --
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 3ea08d2..6cc4598 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -747,13 +747,16 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
+			codec := h264.NewCodec()
+			self.Codec = codec
+
 			for _, nalu := range media.SpropParameterSets {
 				if len(nalu) > 0 {
 					self.handleH264NALU(nalu)
 				}
 			}
 
-			if len(self.sps) == 0 || len(self.pps) == 0 {
+			if len(codec.SPS) == 0 || len(codec.PPS) == 0 {
 				if nalus, typ := h264.SplitNALUs(media.Config); typ != h264.NALU_RAW {
 					for _, nalu := range nalus {
 						if len(nalu) > 0 {
@@ -763,17 +766,7 @@ func (self *Stream) makeCodec() (err error) {
 				}
 			}
 
-			if self.Codec == nil {
-				self.Codec = h264.NewCodec()
-			}
-
-			if len(self.pps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.pps)
-			}
-			if len(self.sps) > 0 {
-				self.Codec.(*h264.Codec).AddSPSPPS(self.sps)
-				self.Codec.(*h264.Codec).ToConfig()
-			}
+			self.clearCodecChange()
 
 		case av.AAC:
 			if self.Codec, err = aac.FromMPEG4AudioConfigBytes(media.Config); err != nil {
@@ -957,11 +950,8 @@ func (self *Stream) handleH264NALU(packet []byte) (err error) {
 		if self.client != nil && self.client.DebugRtp {
 			fmt.Println("rtsp: got sps")
 		}
-		if len(self.sps) == 0 {
-			self.sps = packet
-		} else if bytes.Compare(self.sps, packet) != 0 {
+		if self.addParameterSet(packet) {
 			self.spsChanged = true
-			self.sps = packet
 			if self.client != nil && self.client.DebugRtp {
 				fmt.Println("rtsp: sps changed")
 			}
@@ -970,11 +960,8 @@ func (self *Stream) handleH264NALU(packet []byte) (err error) {
 		if self.client != nil && self.client.DebugRtp {
 			fmt.Println("rtsp: got pps")
 		}
-		if len(self.pps) == 0 {
-			self.pps = packet
-		} else if bytes.Compare(self.pps, packet) != 0 {
+		if self.addParameterSet(packet) {
 			self.ppsChanged = true
-			self.pps = packet
 			if self.client != nil && self.client.DebugRtp {
 				fmt.Println("rtsp: pps changed")
 			}
@@ -992,6 +979,22 @@ func (self *Stream) handleH264NALU(packet []byte) (err error) {
 	return
 }
 
+// changed: another parameter set with the same id was replaced
+func (self *Stream) addParameterSet(nalu []byte) (changed bool) {
+	codec := self.Codec.(*h264.Codec)
+	old := *codec
+	n := len(codec.SPS) + len(codec.PPS)
+
+	codec.AddSPSPPS(nalu)
+	if codec.Equal(old) {
+		return
+	}
+	if len(codec.SPS) > 0 {
+		codec.ToConfig()
+	}
+	return n > 0 && len(codec.SPS)+len(codec.PPS) == n
+}
+
 func (self *Stream) gotPacket(isKeyFrame bool, data []byte) {
 	self.pkts = append(self.pkts, av.Packet{
 		Type:       self.Sdp.Type,
@@ -1001,11 +1004,6 @@ func (self *Stream) gotPacket(isKeyFrame bool, data []byte) {
 }
 
 func (self *Stream) handleRtpPacket(packet []byte) (err error) {
-	if self.isCodecChange() {
-		err = ErrCodecChange
-		return
-	}
-
 	if self.client != nil && self.client.DebugRtp {
 		fmt.Println("rtp: packet", "len", len(packet))
 		dumpsize := len(packet)
@@ -1127,10 +1125,6 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		self.gotPacket(false, payload)
 	}
 
-	if err = self.makeCodec(); err != nil {
-		return
-	}
-
 	return
 }
 
@@ -1233,7 +1227,17 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 		return
 	}
 
-	for len(self.pkts) == 0 {
+	for {
+		for _, stream := range self.streams {
+			if stream.isCodecChange() {
+				err = ErrCodecChange
+				return
+			}
+		}
+		if len(self.pkts) > 0 {
+			break
+		}
+
 		var res Response
 		for {
 			if res, err = self.poll(); err != nil {
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index deb46a1..fd9b1c5 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -15,8 +15,6 @@ type Stream struct {
 	// h264
 	fuStarted  bool
 	fuBuffer   []byte
-	sps        []byte
-	pps        []byte
 	spsChanged bool
 	ppsChanged bool
 
-- 
2.43.0


From efd93b4d837ce4237245ec543de1b89d57b64872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:31 +0000
Subject: [PATCH 67/93] fix: creating an unsupported URL truncated the file it
 names

The extension was checked after os.Create, and URLs of other schemes were
taken for local paths.
---
 format/format.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/format/format.go b/format/format.go
index 483e306..ca84b71 100644
--- a/format/format.go
+++ b/format/format.go
@@ -63,6 +63,10 @@ func ErrUnsupported(url_ string) error {
 	return fmt.Errorf("open `%s` failed: %s", url_, "unsupported format")
 }
 
+func isLocal(u *url.URL) bool {
+	return u.Scheme == "" || u.Scheme == "file"
+}
+
 type URLOpener struct {
 	NewDialFunc     func() func(ctx context.Context, network, address string) (net.Conn, error)
 	ReplaceRawConn  func(nc net.Conn) net.Conn
@@ -153,6 +157,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 
 	default:
 		ext := path.Ext(u.Path)
+		if !isLocal(u) || (ext != ".flv" && ext != ".mp4") {
+			err = ErrUnsupported(url_)
+			return
+		}
 		var f *os.File
 		if f, err = os.Create(u.Path); err != nil {
 			return
@@ -272,6 +280,10 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 		}
 
 	default:
+		if !isLocal(u) {
+			err = ErrUnsupported(url_)
+			return
+		}
 		ext := path.Ext(u.Path)
 		switch ext {
 		case ".flv":
-- 
2.43.0


From 8f4fc650afd117cf406f4f4d15ca583246141899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 68/93] fix: creating an MP4 file without streams crashed

It left the file open when its streams are not available.
---
 format/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/format.go b/format/format.go
index ca84b71..6a1c1e4 100644
--- a/format/format.go
+++ b/format/format.go
@@ -33,6 +33,7 @@ type Mp4WriterCloser struct {
 
 func (c Mp4WriterCloser) Close() error {
 	if err := c.Muxer.WriteTrailer(); err != nil {
+		c.Closer.Close()
 		return err
 	}
 	if err := c.Closer.Close(); err != nil {
@@ -161,6 +162,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			err = ErrUnsupported(url_)
 			return
 		}
+		if ext == ".mp4" && streamer == nil {
+			err = fmt.Errorf("create `%s` failed: %s", url_, "no streams")
+			return
+		}
 		var f *os.File
 		if f, err = os.Create(u.Path); err != nil {
 			return
@@ -180,6 +185,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			var m *mp4.Muxer
 			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if err != nil {
+				f.Close()
 				return nil, err
 			}
 			w = &Writer{
-- 
2.43.0


From 920668a9f5fdfc268a656ff89be1b958cc2da740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 69/93] fix: HTTP-FLV responses that fail are reported, and
 close the connection

---
 format/format.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 6a1c1e4..7715b63 100644
--- a/format/format.go
+++ b/format/format.go
@@ -20,12 +20,6 @@ import (
 	"github.com/nareix/joy5/format/rtmp"
 )
 
-type dummyCloser struct{}
-
-func (c dummyCloser) Close() error {
-	return nil
-}
-
 type Mp4WriterCloser struct {
 	io.Closer
 	*mp4.Muxer
@@ -268,13 +262,18 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			if hr, err = http.Get(url_); err != nil {
 				return
 			}
+			if hr.StatusCode != http.StatusOK {
+				hr.Body.Close()
+				err = fmt.Errorf("open `%s` failed: %s", url_, hr.Status)
+				return
+			}
 			c := flv.NewDemuxer(hr.Body)
 			if fn := o.OnNewFlvDemuxer; fn != nil {
 				fn(c)
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From bf584884eefdd919e9be983732ad77085eba34a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 70/93] fix: waiting for an RTMP publisher kept the port and
 other connections

The listener was never closed, later connections hung, and a player was
taken for the publisher.
---
 format/format.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 7715b63..ee09fb0 100644
--- a/format/format.go
+++ b/format/format.go
@@ -86,19 +86,34 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 	if fn := o.OnNewRtmpServer; fn != nil {
 		fn(s)
 	}
+	defer lis.Close()
 	type Got struct {
 		c  *rtmp.Conn
 		nc net.Conn
 	}
-	got_ := make(chan Got, 1)
+	got_ := make(chan Got)
+	done := make(chan struct{})
+	defer close(done)
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
-		got_ <- Got{c, nc}
+		if !c.Publishing {
+			nc.Close()
+			return
+		}
+		select {
+		case got_ <- Got{c, nc}:
+		case <-done:
+			nc.Close()
+		}
 	}
 	go func() {
 		for {
 			nc, err := lis.Accept()
 			if err != nil {
-				time.Sleep(time.Second)
+				select {
+				case <-done:
+					return
+				case <-time.After(time.Second):
+				}
 				continue
 			}
 			go s.HandleNetConn(nc)
-- 
2.43.0


From 3fc71280772da30af976777495be0d69c88c0949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 71/93] fix: the pub/sub relay left the connections of ended
 sessions open

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..a956804 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -309,6 +309,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From 92e9e40f33dd338038c56ec6b5c46a0b315b15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 72/93] fix: avcc2annexb and moveh264seqhdrtokeyframe failed at
 the end of the file

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..92c0a53 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -28,6 +29,9 @@ func doAvcc2Annexb(src, dst string) error {
 	for {
 		pkt, err := r.ReadPacket()
 		if err != nil {
+			if err == io.EOF {
+				err = nil
+			}
 			return err
 		}
 
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..6a3f2be 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -33,6 +34,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	for {
 		pkt, err := r.ReadPacket()
 		if err != nil {
+			if err == io.EOF {
+				err = nil
+			}
 			return err
 		}
 
-- 
2.43.0


From 97649e4dcdf6e60937c8098c001a81256b9f1fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 73/93] fix: moveh264seqhdrtokeyframe crashed on a key frame
 before the parameter sets

It also truncated an unrelated file in /tmp that it never writes to.
---
 cmd/avtool/seqhdr.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 6a3f2be..96d7961 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -26,9 +26,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
@@ -53,11 +50,13 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 			if pkt.IsKeyFrame {
 				pktnalus, _ := h264.SplitNALUs(pkt.Data)
 				nalus := [][]byte{}
-				for _, b := range h264.Map2arr(h264seqhdr.SPS) {
-					nalus = append(nalus, b)
-				}
-				for _, b := range h264.Map2arr(h264seqhdr.PPS) {
-					nalus = append(nalus, b)
+				if h264seqhdr != nil {
+					for _, b := range h264.Map2arr(h264seqhdr.SPS) {
+						nalus = append(nalus, b)
+					}
+					for _, b := range h264.Map2arr(h264seqhdr.PPS) {
+						nalus = append(nalus, b)
+					}
 				}
 				nalus = append(nalus, pktnalus...)
 				data := h264.JoinNALUsAnnexb(nalus)
-- 
2.43.0


From 40232da31aa13cfaa7960ac424b173cb3aa73f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 74/93] fix: conv did not close what it wrote

---
 cmd/avtool/conv.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index dbfd342..d852186 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -30,6 +30,14 @@ func doConv(src, dst string) (err error) {
 	if fr, err = foR.Open(src); err != nil {
 		return
 	}
+	defer fr.Close()
+	defer func() {
+		if fw != nil {
+			if cerr := fw.Close(); err == nil {
+				err = cerr
+			}
+		}
+	}()
 
 	canRe := func() bool {
 		if optNativeRate {
-- 
2.43.0


From 424102c1d93be8978f524c1bda70fd863eb73439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 75/93] fix: a publisher could crash the forwarding server, or
 overwrite its files

Forwarding to a URL that is not RTMP created a local file and then crashed.
---
 cmd/avtool/forwardrtmp.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..51ef191 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -3,6 +3,7 @@ package main
 import (
 	"log"
 	"net"
+	"net/url"
 	"time"
 	"unsafe"
 
@@ -42,6 +43,11 @@ func doForwardRtmp(listenAddr string) (err error) {
 		}
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "fwd", fwd)
 
+		if u, err := url.Parse(fwd); err != nil || (u.Scheme != "rtmp" && u.Scheme != "rtmps") {
+			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "ForwardUnsupported")
+			return
+		}
+
 		fo := newFormatOpener()
 
 		var err error
-- 
2.43.0


From dec08f5fcfa1f2055e47bc7fbbd2d8217d3a079c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 76/93] fix: the forwarding server kept idle publishers after
 their target closed

---
 cmd/avtool/forwardrtmp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index 51ef191..04e14c6 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -60,6 +60,11 @@ func doForwardRtmp(listenAddr string) (err error) {
 		nc2 := w.NetConn
 		defer nc2.Close()
 
+		go func() {
+			<-c2.CloseNotify()
+			nc.Close()
+		}()
+
 		log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "DialOK", unsafe.Pointer(c2))
 
 		for {
-- 
2.43.0


From 81ab237b863c6aef929d2328b5720134ede046ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:35 +0000
Subject: [PATCH 77/93] fix: the pub/sub relay kept idle publishers that were
 replaced

---
 cmd/avtool/pubsub.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index a956804..d22765f 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -3,6 +3,7 @@ package main
 import (
 	"bytes"
 	"context"
+	"io"
 	"log"
 	"net"
 	"sync"
@@ -218,13 +219,16 @@ func (s *stream) notifySub() {
 	})
 }
 
-func (s *stream) setPub(r av.PacketReader) {
+func (s *stream) setPub(r av.PacketReader, nc io.Closer) {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
 	sp := &streamPub{
-		cancel: cancel,
-		gc:     &gopCache{},
+		cancel: func() {
+			cancel()
+			nc.Close()
+		},
+		gc: &gopCache{},
 	}
 
 	oldsp := (*streamPub)(atomic.SwapPointer(&s.pub, unsafe.Pointer(sp)))
@@ -315,7 +319,7 @@ func doPubsubRtmp(listenAddr string) error {
 		defer remove()
 
 		if c.Publishing {
-			stream.setPub(c)
+			stream.setPub(c, nc)
 		} else {
 			stream.addSub(c.CloseNotify(), c)
 		}
-- 
2.43.0


From 49a27bd722fd63dfc6090c02f3f552f34f9548ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:00 +0000
Subject: [PATCH 78/93] fix: an FLV file cut inside a tag is not at its end

---
 format/flv/flv.go         | 3 +++
 format/flv/flvio/flvio.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/format/flv/flv.go b/format/flv/flv.go
index a67c801..dff4601 100644
--- a/format/flv/flv.go
+++ b/format/flv/flv.go
@@ -202,6 +202,9 @@ func (r *Demuxer) ReadFileHeader() (err error) {
 		r.LogHeaderEvent(flags)
 	}
 	if _, err = io.CopyN(ioutil.Discard, r.r, int64(skip)); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
 	r.gotfilehdr = true
diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..fbfb18d 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -359,6 +359,12 @@ func ReadTag(r io.Reader, b []byte, malloc func(int) ([]byte, error)) (tag Tag,
 	if tag, datalen, err = ParseTagHeader(b); err != nil {
 		return
 	}
+	// from here on the end of the input is inside the tag
+	defer func() {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
 
 	var data []byte
 	if data, err = malloc(datalen); err != nil {
-- 
2.43.0


From 21031a67001a896bedc6d324afc86708b05d2aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 79/93] fix: AMF0 dates outside 1678 to 2262 were written wrong

---
 format/flv/flvio/amf0.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index abd145d..a784b13 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -308,8 +308,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 
 	case time.Time:
 		pio.WriteU8(b, n, datemarker)
-		u := val.UnixNano()
-		f := float64(u / 1000000)
+		f := float64(val.Unix()*1000 + int64(val.Nanosecond()/1000000))
 		fillBEFloat64(b, n, f)
 		pio.WriteU16BE(b, n, uint16(0))
 
-- 
2.43.0


From 1ed79db4f665229f4a26d0b3e3ffbddb87e5a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 80/93] fix: RTSP fragments around a lost packet were joined
 into one unit

---
 format/rtsp/client.go | 5 +++++
 format/rtsp/stream.go | 1 +
 2 files changed, 6 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 6cc4598..d45797e 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1037,6 +1037,11 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		return
 	}
 	self.timestamp = binary.BigEndian.Uint32(packet[4:8])
+	seq := binary.BigEndian.Uint16(packet[2:4])
+	if seq != self.seq+1 {
+		self.fuStarted = false // a fragment may be missing
+	}
+	self.seq = seq
 	payload := packet[payloadOffset:]
 
 	if packet[0]&0x10 != 0 { // header extension
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index fd9b1c5..05f124e 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -20,6 +20,7 @@ type Stream struct {
 
 	pkts      []av.Packet // of the last RTP packet
 	timestamp uint32
+	seq       uint16
 
 	timed         bool   // there was a packet before
 	lasttimestamp uint32 // its timestamp
-- 
2.43.0


From b22cc9fbf0a6e367601add3316454e2b12d1bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 81/93] fix: sealed members of dynamic AMF3 objects were taken
 for its dynamic ones

---
 format/flv/flvio/amf3.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index d47b7a2..8097b01 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -263,6 +263,21 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 	val = AMFMap{}
 
 	var k string
+	var keys []string
+	for i := 0; i < l; i++ {
+		k, err = readString(b, n)
+		if err != nil {
+			return
+		}
+		keys = append(keys, k)
+	}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			return
+		}
+		val = val.Set(keys[i], v)
+	}
 	if isDynamic {
 		for {
 			k, err = readString(b, n)
@@ -280,22 +295,6 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			}
 			val = val.Set(k, v)
 		}
-	} else {
-		var keys []string
-		for i := 0; i < l; i++ {
-			k, err = readString(b, n)
-			if err != nil {
-				return
-			}
-			keys = append(keys, k)
-		}
-		for i := 0; i < l; i++ {
-			var v interface{}
-			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
-				return
-			}
-			val = val.Set(keys[i], v)
-		}
 	}
 	return
 }
-- 
2.43.0


From a22ab08196e8c54300c711e29cb2ac2b26936ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:16 +0000
Subject: [PATCH 82/93] fix: seeking in an MP4 file before anything has been
 read from it was ignored

---
 format/mp4/demuxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 0ad66e8..4e84333 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -150,6 +150,10 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
+	if err = self.probe(); err != nil {
+		return
+	}
+
 	for _, stream := range self.streams {
 		if stream.isVideo() && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
-- 
2.43.0


From 155a69078639c61b174c414f61372a232423edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 83/93] fix: seeking in an MP4 file left the second and later
 video tracks where they were

---
 format/mp4/demuxer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 4e84333..a422774 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -154,18 +154,20 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		return
 	}
 
+	var first *Stream
 	for _, stream := range self.streams {
 		if stream.isVideo() && stream.sampleCount() > 0 {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
 			tm = stream.tsToTime(stream.dts)
+			first = stream
 			break
 		}
 	}
 
 	for _, stream := range self.streams {
-		if !stream.isVideo() {
+		if stream != first {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From b15df1ca7ef22dc3c0dc281d5097657ea143cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:57 +0000
Subject: [PATCH 84/93] fix: AMF0 values without an encoding left nothing
 behind their key and corrupted the rest

---
 format/flv/flvio/amf0.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index a784b13..b51fd60 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -324,6 +324,9 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 
 	case nil:
 		pio.WriteU8(b, n, nullmarker)
+
+	default: // no AMF0 form, AMF3 byte arrays for one
+		pio.WriteU8(b, n, nullmarker)
 	}
 
 	return
-- 
2.43.0


From 934ee079d341d46678ac06bf851fbbe1fd9a10fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 85/93] fix: FLV tags of 16 MB and more were written with a
 wrong length

---
 format/flv/flvio/flvio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index fbfb18d..a5e9493 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -405,6 +405,10 @@ func WriteTag(w io.Writer, tag Tag, b []byte) (err error) {
 
 	n := tag.FillHeader(b[TagHeaderLength:])
 	datalen := len(data) + n
+	if datalen > 0xffffff {
+		err = fmt.Errorf("TagDataTooBig(%d)", datalen)
+		return
+	}
 
 	FillTagHeader(b, tag, datalen)
 	n += TagHeaderLength
-- 
2.43.0


From 0f375bb0d5f530566b872f28600f2e5b107bea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:58 +0000
Subject: [PATCH 86/93] fix: RTMP messages of 16 MB and more were written with
 a wrong length

---
 format/rtmp/msg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index b3426e9..9b42adc 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -693,6 +693,10 @@ func (c *Conn) writeMsg2(
 	b := c.tmpwbuf(chunkHeader0Length + fillheader(nil))
 	chdrlen := fillChunkHeader0(b, csid, msg.timenow, msg.msgtypeid, msg.msgsid, 0)
 	taghdrlen := fillheader(b[chdrlen:])
+	if taghdrlen+len(msg.msgdata) > ffffff {
+		err = fmt.Errorf("MsgDataTooBig(%d)", taghdrlen+len(msg.msgdata))
+		return
+	}
 	msg.msgdatalen = uint32(taghdrlen + len(msg.msgdata))
 	msg.msgdataleft = msg.msgdatalen
 	fillChunkHeader0MsgDataLen(b, int(msg.msgdatalen))
-- 
2.43.0


From 46a4a9aafca57093b1a44353473d4097c7a6744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 87/93] fix: RTSP keepalives did not name the session they keep
 alive

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d45797e..e7ad215 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -154,6 +154,9 @@ func (self *Client) SendRtpKeepalive() (err error) {
 				Method: "OPTIONS",
 				Uri:    self.requestUri,
 			}
+			if self.session != "" {
+				req.Header = append(req.Header, "Session: "+self.session)
+			}
 			if err = self.WriteRequest(req); err != nil {
 				return
 			}
-- 
2.43.0


From b755cff9388ea748c6d1bf87078153519587f9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:57 +0000
Subject: [PATCH 88/93] fix: RTSP PLAY was not repeated with credentials when
 challenged

---
 format/rtsp/client.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index e7ad215..8be350e 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -61,10 +61,12 @@ type Client struct {
 	requestUri string
 	cseq       uint
 	playCSeq   string
-	streams    []*Stream
-	pkts       []av.Packet // received and not yet returned
-	session    string
-	body       io.Reader
+	// PLAY was repeated with credentials
+	playRetried bool
+	streams     []*Stream
+	pkts        []av.Packet // received and not yet returned
+	session     string
+	body        io.Reader
 }
 
 type Request struct {
@@ -1254,6 +1256,13 @@ func (self *Client) readPacket() (pkt av.Packet, err error) {
 			if len(res.Block) > 0 {
 				break
 			}
+			if res.StatusCode == 401 && res.Headers.Get("CSeq") == self.playCSeq && !self.playRetried {
+				self.playRetried = true
+				if err = self.Play(); err != nil {
+					return
+				}
+				continue
+			}
 			if res.StatusCode >= 300 && res.Headers.Get("CSeq") == self.playCSeq {
 				err = fmt.Errorf("rtsp: Play failed, StatusCode=%d", res.StatusCode)
 				return
-- 
2.43.0


From d9f9e281ea4a88d5f4b9edc45466f4eeee539fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 89/93] fix: RTSP packets of other payload types were searched
 for the start of the next one

---
 format/rtsp/client.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 8be350e..34fe2cb 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -228,12 +228,9 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		stream := self.streams[no/2]
-		if int(h[5]&0x7f) != stream.Sdp.PayloadType {
-			return
-		}
-
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.timed {
+		// packets of other payload types have their own times
+		if stream.timed && int(h[5]&0x7f) == stream.Sdp.PayloadType {
 			// the difference of an earlier timestamp wraps around
 			if int64(timestamp-stream.lasttimestamp) > int64(stream.timeScale())*60*60 {
 				return
@@ -1186,6 +1183,12 @@ func (self *Client) handleBlock(block []byte) (err error) {
 		return
 	}
 	stream := self.streams[i]
+	if int(block[5]&0x7f) != stream.Sdp.PayloadType {
+		if self.DebugRtp {
+			fmt.Println("rtp: other payload type", block[5]&0x7f)
+		}
+		return
+	}
 
 	herr := stream.handleRtpPacket(block[4:])
 	if herr != nil {
-- 
2.43.0


From a573ce6a37eff16aced8a26ad5aaffcde30a9b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 90/93] fix: RTSP codec change was not reported when only one
 of SPS and PPS changed

---
 format/rtsp/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 34fe2cb..00e6280 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -942,6 +942,11 @@ func (self *Stream) handleH264NALU(packet []byte) (err error) {
 
 	switch {
 	case naluType >= 1 && naluType <= 5:
+		if self.spsChanged || self.ppsChanged {
+			// the other set stays as it is
+			self.spsChanged = true
+			self.ppsChanged = true
+		}
 		// raw nalu to avcc
 		b := make([]byte, 4+len(packet))
 		pio.PutU32BE(b[0:4], uint32(len(packet)))
-- 
2.43.0


From aace19716700123a97e8bf7e97493cb6c1d5ff4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 91/93] fix: RTP packets without payload ended the RTSP session

---
 format/rtsp/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 00e6280..2bb77ae 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -1074,6 +1074,9 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 		}
 		payload = payload[:len(payload)-padlen]
 	}
+	if len(payload) == 0 {
+		return // keeps the connection open
+	}
 
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
-- 
2.43.0


From aec12830a9106b3477bf305b5633f224b1bd9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 92/93] fix: avtool exited with status 0 when its command line
 was wrong

---
 cmd/avtool/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/avtool/main.go b/cmd/avtool/main.go
index 5b317d7..a645768 100644
--- a/cmd/avtool/main.go
+++ b/cmd/avtool/main.go
@@ -143,5 +143,7 @@ func main() {
 	rootCmd.AddCommand(cmdPubsubRtmp)
 	rootCmd.AddCommand(cmdAvcc2Annexb)
 	rootCmd.AddCommand(cmdMoveH264SeqhdrToKeyFrame)
-	rootCmd.Execute()
+	if err := rootCmd.Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From a43c9b2300796f3fb4985b65e51ecd3643a3e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:05 +0000
Subject: [PATCH 93/93] fix: the pubsub relay answered players only once
 something was published

---
 cmd/avtool/pubsub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index d22765f..83dc40a 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -321,6 +321,10 @@ func doPubsubRtmp(listenAddr string) error {
 		if c.Publishing {
 			stream.setPub(c, nc)
 		} else {
+			// answers the player, who may wait long for something to play
+			if err := c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); err != nil {
+				return
+			}
 			stream.addSub(c.CloseNotify(), c)
 		}
 	}
-- 
2.43.0

