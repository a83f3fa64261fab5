From 5a1ae50ae65d0ef6eaac140c46d859c93c163597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 01/86] fix: bit reader must tolerate short reads from the
 underlying reader

---
 jxlio/bitreader.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..e043a71 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,22 +97,16 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
-	if err != nil {
-		return err
-	}
-
-	if n != int(numBytes) {
-		return errors.New("unable to read all bytes")
-	}
-	return nil
+	// io.Reader may return fewer bytes than asked for without being at the end.
+	_, err := io.ReadFull(br.stream, buffer[:numBytes])
+	return err
 }
 
 // read single bit and will cache the current byte we're working on.
 func (br *BitStreamReader) readBit() (uint8, error) {
 	if br.index == 0 {
 
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -162,7 +156,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 
 	// Read full bytes directly while we need 8+ more bits
 	for bits-bitsRead >= 8 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -174,7 +168,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 	// Read remaining bits (less than 8)
 	remaining := bits - bitsRead
 	if remaining > 0 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -409,7 +403,7 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 	numBytes := bits / 8
 	if numBytes > 0 {
 		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
+		_, err := io.ReadFull(br.stream, buffer)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 832ae12d8dc711471efbf68c9fabceba8053ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:36 +0000
Subject: [PATCH 02/86] fix: UnpackSigned overflowed for odd values with the
 top bit set

---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index e043a71..b9e1c53 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -467,7 +467,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return -int32(value>>1) - 1
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -475,5 +475,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return -int64(value>>1) - 1
 }
-- 
2.43.0


From 54978e095f4803fe0cbeeb8421a67d9d63ef37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 03/86] fix: skipping must count the skipped bits and not
 overflow on large skips

---
 jxlio/bitreader.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index b9e1c53..3e294ac 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -402,12 +402,9 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 
 	numBytes := bits / 8
 	if numBytes > 0 {
-		buffer := make([]byte, numBytes)
-		_, err := io.ReadFull(br.stream, buffer)
-		if err != nil {
+		if err := br.skipBytes(int64(numBytes)); err != nil {
 			return err
 		}
-		br.currentByte = buffer[numBytes-1]
 	}
 
 	// read bits so we can keep track of where we are.
@@ -420,8 +417,26 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 	return nil
 }
 
+// skipBytes moves on by numBytes whole bytes, keeping the position within the byte.
+func (br *BitStreamReader) skipBytes(numBytes int64) error {
+	if numBytes > 1 {
+		if _, err := io.CopyN(io.Discard, br.stream, numBytes-1); err != nil {
+			return err
+		}
+	}
+	if _, err := io.ReadFull(br.stream, br.buffer); err != nil {
+		return err
+	}
+	br.currentByte = br.buffer[0]
+	br.bitsRead += uint64(numBytes) * 8
+	return nil
+}
+
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
+	if bytes == 0 {
+		return 0, nil
+	}
+	err := br.skipBytes(int64(bytes))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From c2066cc6e376e6d41d801e78ffdc47bcbaa2cbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 04/86] fix: prefix codes could not be decoded close to the end
 of the stream

---
 entropy/VLCTable.go |  6 ++++++
 jxlio/bitreader.go  | 15 ++++++++-------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/entropy/VLCTable.go b/entropy/VLCTable.go
index c422153..c55fd19 100644
--- a/entropy/VLCTable.go
+++ b/entropy/VLCTable.go
@@ -2,6 +2,7 @@ package entropy
 
 import (
 	"errors"
+	"io"
 	bbits "math/bits"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
@@ -82,6 +83,11 @@ func NewVLCTableWithSymbols(bits int32, lengths []int32, symbols []int32) (*VLCT
 func (rcvr *VLCTable) GetVLC(reader jxlio.BitReader) (int32, error) {
 
 	index, err := reader.ShowBits(int(rcvr.bits))
+	// Near the end of the stream fewer bits than the longest code may be left,
+	// which is still enough for a shorter code.
+	for bits := int(rcvr.bits) - 1; errors.Is(err, io.EOF) && bits > 0; bits-- {
+		index, err = reader.ShowBits(bits)
+	}
 	if err != nil {
 		return 0, err
 	}
diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 3e294ac..a448f2e 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -382,18 +382,19 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldIndex := br.index
 	oldBitsRead := br.bitsRead
 
-	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
-	}
+	b, readErr := br.ReadBits(uint32(bits))
 
+	// peeking must leave the position untouched, even when it fails.
 	_, err = br.Seek(curPos, io.SeekStart)
-	if err != nil {
-		return 0, err
-	}
 	br.currentByte = oldCur
 	br.index = oldIndex
 	br.bitsRead = oldBitsRead
+	if readErr != nil {
+		return 0, readErr
+	}
+	if err != nil {
+		return 0, err
+	}
 
 	return b, nil
 }
-- 
2.43.0


From 2c3fcc07dae87131522cdc535a8f6bd84d0c3f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 05/86] fix: ANS distribution with a single symbol in the
 general form was decoded wrongly

---
 entropy/ANSSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 805e645..8175053 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -196,6 +196,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				totalCount += asd.frequencies[i]
 			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
+			if asd.frequencies[omitPos] == 1<<12 {
+				uniqPos = omitPos
+			}
 		}
 	}
 	asd.generateAliasMapping(uniqPos)
-- 
2.43.0


From 99558680fd8f0585319a0c61014ca4e0d0210b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 06/86] fix: LZ77 special distances must be at least one

---
 entropy/EntropyStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..35befff 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -351,6 +351,9 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 			distance++
 		} else if distance < 120 {
 			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
+			if distance < 1 {
+				distance = 1
+			}
 		} else {
 			distance -= 119
 		}
-- 
2.43.0


From 3c69ee12b771f477073031f27b699e2abf3d7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 07/86] fix: self-correcting predictor overflowed 32 bits for
 high bit depths

---
 frame/ModularChannel.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index f36a97b..b390d5a 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -134,23 +134,26 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 
 func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (int32, error) {
 
-	n3 := mc.north(x, y) << 3
-	nw3 := mc.northWest(x, y) << 3
-	ne3 := mc.northEast(x, y) << 3
-	w3 := mc.west(x, y) << 3
-	nn3 := mc.northNorth(x, y) << 3
+	// 64-bit intermediates: with more than about 20 bits per sample the sums below
+	// do not fit in 32 bits.
+	n3 := int64(mc.north(x, y)) << 3
+	nw3 := int64(mc.northWest(x, y)) << 3
+	ne3 := int64(mc.northEast(x, y)) << 3
+	w3 := int64(mc.west(x, y)) << 3
+	nn3 := int64(mc.northNorth(x, y)) << 3
 	tN := mc.errorNorth(x, y, 4)
 	tW := mc.errorWest(x, y, 4)
 	tNE := mc.errorNorthEast(x, y, 4)
 	tNW := mc.errorNorthWest(x, y, 4)
-	mc.subpred[0] = w3 + ne3 - n3
-	mc.subpred[1] = n3 - ((tW+tN+tNE)*(int32(wpParams.param1)))>>5
-	mc.subpred[2] = w3 - ((tW+tN+tNW)*(int32(wpParams.param2)))>>5
-	mc.subpred[3] = n3 - ((tNW*wpParams.param3a +
-		tN*wpParams.param3b +
-		tNE*wpParams.param3c +
-		(nn3-n3)*wpParams.param3d +
-		(nw3-w3)*wpParams.param3e) >> 5)
+	tN64, tW64, tNE64, tNW64 := int64(tN), int64(tW), int64(tNE), int64(tNW)
+	mc.subpred[0] = int32(w3 + ne3 - n3)
+	mc.subpred[1] = int32(n3 - ((tW64+tN64+tNE64)*int64(wpParams.param1))>>5)
+	mc.subpred[2] = int32(w3 - ((tW64+tN64+tNW64)*int64(wpParams.param2))>>5)
+	mc.subpred[3] = int32(n3 - ((tNW64*int64(wpParams.param3a) +
+		tN64*int64(wpParams.param3b) +
+		tNE64*int64(wpParams.param3c) +
+		(nn3-n3)*int64(wpParams.param3d) +
+		(nw3-w3)*int64(wpParams.param3e)) >> 5))
 
 	wSum := int32(0)
 	for e := int32(0); e < 4; e++ {
@@ -169,17 +172,17 @@ func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (in
 	wSum = 0
 	weight := mc.weight
 
-	s := int32(0)
+	s := int64(0)
 	for e := 0; e < 4; e++ {
 		weight[e] = weight[e] >> logWeight
 		wSum += weight[e]
-		s += mc.subpred[e] * mc.weight[e]
+		s += int64(mc.subpred[e]) * int64(mc.weight[e])
 	}
-	s += (wSum >> 1) - 1
+	s += int64((wSum >> 1) - 1)
 
-	mc.pred[y][x] = int32((int64(s) * oneL24OverKP1[wSum-1]) >> 24)
+	mc.pred[y][x] = int32((s * oneL24OverKP1[wSum-1]) >> 24)
 	if (tN^tW)|(tN^tNW) <= 0 {
-		mc.pred[y][x] = util.Clamp(mc.pred[y][x], w3, n3, ne3)
+		mc.pred[y][x] = util.Clamp(mc.pred[y][x], int32(w3), int32(n3), int32(ne3))
 	}
 
 	// Cache absolute values to avoid repeated util.Abs() calls
-- 
2.43.0


From 0d59b7e15ef7302150b61e853bf0fa9d4b51b077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 08/86] fix: implicit palette colours underflowed for bit
 depths below 3

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5a96dfc 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -519,7 +519,7 @@ func (ms *ModularStream) applyTransforms() error {
 			first := ms.transforms[i].beginC + 1
 			endC := ms.transforms[i].beginC + ms.transforms[i].numC - 1
 			last := endC + 1
-			bitDepth := ms.frame.getGlobalMetadata().BitDepth.BitsPerSample
+			bitDepth := int(ms.frame.getGlobalMetadata().BitDepth.BitsPerSample)
 			firstChannel := ms.channels[first]
 			c0 := ms.channels[0]
 			for j := first + 1; j <= last; j++ {
-- 
2.43.0


From e79e2e9c74cea2cd7618295db77ef58943dd5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 09/86] fix: default squeeze after a palette used the size of
 the palette channel

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5a96dfc..b87f2bd 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -265,7 +265,7 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			if len(ms.transforms[i].sp) == 0 {
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
-				size := ms.channels[0].size
+				size := ms.channels[first].size
 				if count > 2 && size.Width == ms.channels[first+1].size.Width && size.Height == ms.channels[first+1].size.Height {
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: true, inPlace: false, beginC: first + 1, numC: 2})
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: false, inPlace: false, beginC: first + 1, numC: 2})
-- 
2.43.0


From 398f94a0187c16f42233047e47ff99c7affa25d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 10/86] fix: explicit squeeze parameters were read with the
 wrong field layout

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index b87f2bd..75fb0c2 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From c8cd92fa37d4459056ea952ccdbaa8869844a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 11/86] fix: palette deltas with the self-correcting predictor
 predicted from the indices

---
 frame/ModularChannel.go | 27 +++++++++++++++++++--------
 frame/ModularStream.go  | 13 +++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index b390d5a..1e885b9 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -203,6 +203,23 @@ func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (in
 	return maxError, nil
 }
 
+// allocateWP prepares the state of the self-correcting predictor.
+func (mc *ModularChannel) allocateWP() {
+	mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
+	mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
+	mc.subpred = make([]int32, 4)
+	mc.weight = make([]int32, 4)
+}
+
+// updateWP records the prediction errors of a decoded sample.
+func (mc *ModularChannel) updateWP(x int32, y int32) {
+	trueValue := mc.buffer[y][x]
+	for e := 0; e < 4; e++ {
+		mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
+	}
+	mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+}
+
 // Could try and use IfThenElse but that gets messy quickly. Prefer some simple 'if' statements.
 func (mc *ModularChannel) west(x int32, y int32) int32 {
 	if x > 0 {
@@ -429,10 +446,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 	tree = tree.compactify(channelIndex, streamIndex)
 	useWP := mc.forceWP || tree.useWeightedPredictor()
 	if useWP {
-		mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
-		mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
-		mc.subpred = make([]int32, 4)
-		mc.weight = make([]int32, 4)
+		mc.allocateWP()
 	} else {
 		wpParams = nil
 	}
@@ -471,10 +485,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 			trueValue := diff + p
 			mc.buffer[y][x] = trueValue
 			if useWP {
-				for e := 0; e < 4; e++ {
-					mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
-				}
-				mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+				mc.updateWP(x, y)
 			}
 		}
 	}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 75fb0c2..d207b7a 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -527,6 +527,11 @@ func (ms *ModularStream) applyTransforms() error {
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
+				useWP := ms.transforms[i].dPred == 6
+				if useWP {
+					// predictions depend on the decoded colours, not on the indices
+					ch.allocateWP()
+				}
 				for y := uint32(0); y < firstChannel.size.Height; y++ {
 					for x := uint32(0); x < firstChannel.size.Width; x++ {
 						index := ch.buffer[y][x]
@@ -558,6 +563,11 @@ func (ms *ModularStream) applyTransforms() error {
 						} else {
 							value = 0
 						}
+						if useWP {
+							if _, err := ch.prePredictWP(ms.wpParams, int32(x), int32(y)); err != nil {
+								return err
+							}
+						}
 						ch.buffer[y][x] = value
 						if isDelta {
 							pred, err := ch.prediction(int32(y), int32(x), int32(ms.transforms[i].dPred))
@@ -566,6 +576,9 @@ func (ms *ModularStream) applyTransforms() error {
 							}
 							ch.buffer[y][x] += pred
 						}
+						if useWP {
+							ch.updateWP(int32(x), int32(y))
+						}
 					}
 				}
 			}
-- 
2.43.0


From ce800a903cf1b540ed6e753ec1b20122cc27ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:14 +0000
Subject: [PATCH 12/86] fix: util.Add overwrote the element at the insertion
 position

---
 util/misc.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/misc.go b/util/misc.go
index 475cbaa..2905f71 100644
--- a/util/misc.go
+++ b/util/misc.go
@@ -94,7 +94,9 @@ func FillFloat32(a []float32, fromIndex uint32, toIndex uint32, val float32) {
 }
 
 func Add[T any](slice []T, index int, elem T) []T {
-	newSlice := append(slice[:index], elem)
+	newSlice := make([]T, 0, len(slice)+1)
+	newSlice = append(newSlice, slice[:index]...)
+	newSlice = append(newSlice, elem)
 	newSlice = append(newSlice, slice[index:]...)
 	return newSlice
 }
-- 
2.43.0


From b0af2f69eef582494fbe7938d84dad737470d614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 13/86] fix: vertical squeeze of a channel without columns
 panicked

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index d207b7a..2f897d5 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -675,7 +675,7 @@ func inverseVerticalSqueeze(channel *ModularChannel, orig *ModularChannel, res *
 	if orig.size.Height > res.size.Height {
 
 		// must be a quicker way surely?
-		for x := uint32(0); x < uint32(len(orig.buffer[res.size.Height])); x++ {
+		for x := uint32(0); x < channel.size.Width; x++ {
 			channel.buffer[2*res.size.Height][x] = orig.buffer[res.size.Height][x]
 		}
 	}
-- 
2.43.0


From c86d1e03883b6b9a0cecb93c28bbfb0f56c0d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 14/86] fix: channels of a group were cut out with the wrong
 grid for squeezed frames

---
 frame/Frame.go          | 120 ++++++++++++----------------------------
 frame/ModularChannel.go |  23 ++++++++
 2 files changed, 57 insertions(+), 86 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..3ca5374 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -539,42 +539,16 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
+	// channels that are not part of the global stream and are stored per LF group.
 	lfReplacementChannels := []*ModularChannel{}
-	lfReplacementChannelIndicies := []int{}
-
-	for i := 0; i < len(f.LfGlobal.globalModular.getChannels()); i++ {
-		ch := f.LfGlobal.globalModular.getChannels()[i]
-		if !ch.decoded {
-			if ch.hshift >= 3 && ch.vshift >= 3 {
-				lfReplacementChannelIndicies = append(lfReplacementChannelIndicies, i)
-				height := f.Header.lfGroupDim >> ch.vshift
-				width := f.Header.lfGroupDim >> ch.hshift
-				lfReplacementChannels = append(lfReplacementChannels, NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, false))
-			}
+	for _, ch := range f.LfGlobal.globalModular.getChannels() {
+		if !ch.decoded && ch.hshift >= 3 && ch.vshift >= 3 {
+			lfReplacementChannels = append(lfReplacementChannels, ch)
 		}
 	}
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
 
-	// Hoist invariant computation out of the loop
-	frameSize, err := f.GetPaddedFrameSize()
-	if err != nil {
-		return err
-	}
-
-	// Pre-compute lfHeight/lfWidth for each replacement channel (invariant per channel)
-	numReplacements := len(lfReplacementChannels)
-	lfHeights := make([]uint32, numReplacements)
-	lfWidths := make([]uint32, numReplacements)
-	templateHeights := make([]uint32, numReplacements)
-	templateWidths := make([]uint32, numReplacements)
-	for i, r := range lfReplacementChannels {
-		lfHeights[i] = frameSize.Height >> r.vshift
-		lfWidths[i] = frameSize.Width >> r.hshift
-		templateHeights[i] = r.size.Height
-		templateWidths[i] = r.size.Width
-	}
-
 	errChan := make(chan error, f.numLFGroups)
 	var wg sync.WaitGroup
 	// Ensure at least 1 goroutine
@@ -603,24 +577,11 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 			lfGroupPos := f.getLFGroupLocation(int32(id))
 
-			// Pre-allocate with correct capacity, use index assignment instead of append
-			replaced := make([]ModularChannel, numReplacements)
-			for i, r := range lfReplacementChannels {
-				// Copy the template channel directly instead of calling NewModularChannelFromChannel
-				replaced[i] = ModularChannel{
-					size:    r.size,
-					origin:  r.origin,
-					hshift:  r.hshift,
-					vshift:  r.vshift,
-					decoded: r.decoded,
-					// buffer is nil - will be allocated by NewLFGroupWithReader if needed
+			replaced := make([]ModularChannel, 0, len(lfReplacementChannels))
+			for _, r := range lfReplacementChannels {
+				if mc, ok := groupChannel(r, lfGroupPos, f.Header.lfGroupDim); ok {
+					replaced = append(replaced, mc)
 				}
-
-				// Update origin and size for this specific LF group
-				replaced[i].origin.Y = lfGroupPos.Y * int32(templateHeights[i])
-				replaced[i].origin.X = lfGroupPos.X * int32(templateWidths[i])
-				replaced[i].size.Height = util.Min(templateHeights[i], lfHeights[i]-uint32(replaced[i].origin.Y))
-				replaced[i].size.Width = util.Min(templateWidths[i], lfWidths[i]-uint32(replaced[i].origin.X))
 			}
 
 			lfg, err := NewLFGroupWithReader(reader, f, int32(id), replaced, lfBuffer, NewLFCoefficientsWithReader, NewHFMetadataWithReader)
@@ -640,20 +601,18 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	// Allocate all replacement channels once BEFORE copying data from LF groups
 	// (previously was allocating redundantly for each LF group)
-	channels := f.LfGlobal.globalModular.getChannels()
-	for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-		channels[lfReplacementChannelIndicies[j]].allocate()
+	for _, channel := range lfReplacementChannels {
+		channel.allocate()
 	}
 
 	// Copy data from each LF group into the pre-allocated channels
 	for lfGroupID := uint32(0); lfGroupID < f.numLFGroups; lfGroupID++ {
-		for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-			index := lfReplacementChannelIndicies[j]
-			channel := channels[index]
-			newChannelInfo := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[index]
-			newChannel := newChannelInfo.buffer
-			for y := 0; y < len(newChannel); y++ {
-				copy(channel.buffer[int32(y)+newChannelInfo.origin.Y], newChannel[y])
+		decoded := f.lfGroups[lfGroupID].modularLFGroup.getChannels()
+		pos := f.getLFGroupLocation(int32(lfGroupID))
+		for _, channel := range lfReplacementChannels {
+			if info, ok := groupChannel(channel, pos, f.Header.lfGroupDim); ok {
+				channel.copyAt(info.origin, decoded[0])
+				decoded = decoded[1:]
 			}
 		}
 	}
@@ -694,27 +653,17 @@ func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) er
 		return err
 	}
 
+	groupPos := f.getGroupLocation(int32(iGroup))
 	replaced := []ModularChannel{}
 	for _, r := range f.passes[iPass].replacedChannels {
 		// remove any replacedChannels that are nil/empty
 		if r != nil {
-			mc := NewModularChannelFromChannel(*r)
-			replaced = append(replaced, *mc)
+			if mc, ok := groupChannel(r, groupPos, f.Header.groupDim); ok {
+				replaced = append(replaced, mc)
+			}
 		}
 	}
 
-	for i := 0; i < len(replaced); i++ {
-		info := replaced[i]
-		groupHeight := f.Header.groupDim >> info.vshift
-		groupWidth := f.Header.groupDim >> info.hshift
-		rowStride := util.CeilDiv(info.size.Width, groupWidth)
-		info.origin.Y = int32((uint32(iGroup) / rowStride) * groupHeight)
-		info.origin.X = int32((uint32(iGroup) % rowStride) * groupWidth)
-		info.size.Height = util.Min(info.size.Height-uint32(info.origin.Y), uint32(groupHeight))
-		info.size.Width = util.Min(info.size.Width-uint32(info.origin.X), uint32(groupWidth))
-		replaced[i] = info
-	}
-
 	pg, err := NewPassGroupWithReader(br, f, uint32(iPass), uint32(iGroup), replaced)
 	if err != nil {
 		return err
@@ -762,24 +711,23 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	wg.Wait()
 
 	for pass := 0; pass < numPasses; pass++ {
-		j := 0
-		for i := 0; i < len(f.passes[pass].replacedChannels); i++ {
-			if f.passes[pass].replacedChannels[i] == nil {
-				continue
+		for i, r := range f.passes[pass].replacedChannels {
+			if r != nil {
+				f.LfGlobal.globalModular.getChannels()[i].allocate()
 			}
-			ii := i
-			jj := j
-			channel := f.LfGlobal.globalModular.getChannels()[ii]
-			channel.allocate()
-			for group := 0; group < int(f.numGroups); group++ {
-				newChannelInfo := passGroups[pass][group].modularStream.getChannels()[jj]
-				buff := newChannelInfo.buffer
-				for y := 0; y < len(buff); y++ {
-					idx := y + int(newChannelInfo.origin.Y)
-					copy(channel.buffer[idx][newChannelInfo.origin.X:], buff[y][:len(buff[y])])
+		}
+		for group := 0; group < numGroups; group++ {
+			decoded := passGroups[pass][group].modularStream.getChannels()
+			pos := f.getGroupLocation(int32(group))
+			for i, r := range f.passes[pass].replacedChannels {
+				if r == nil {
+					continue
+				}
+				if info, ok := groupChannel(r, pos, f.Header.groupDim); ok {
+					f.LfGlobal.globalModular.getChannels()[i].copyAt(info.origin, decoded[0])
+					decoded = decoded[1:]
 				}
 			}
-			j++
 		}
 	}
 
diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index 1e885b9..e351bd2 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -74,6 +74,29 @@ func NewModularChannelWithAllParams(height int32, width int32, vshift int32, hsh
 	return mc
 }
 
+// groupChannel returns the part of ch that belongs to the (LF) group at grid
+// position pos, where dim is the group size in unshifted pixels. The second
+// result is false when the group holds no samples of the channel.
+func groupChannel(ch *ModularChannel, pos *util.Point, dim uint32) (ModularChannel, bool) {
+	width := dim >> ch.hshift
+	height := dim >> ch.vshift
+	x := uint32(pos.X) * dim >> ch.hshift
+	y := uint32(pos.Y) * dim >> ch.vshift
+	if width == 0 || height == 0 || x >= ch.size.Width || y >= ch.size.Height {
+		return ModularChannel{}, false
+	}
+	mc := NewModularChannelWithAllParams(int32(min(height, ch.size.Height-y)), int32(min(width, ch.size.Width-x)), ch.vshift, ch.hshift, ch.forceWP)
+	mc.origin = util.Point{X: int32(x), Y: int32(y)}
+	return *mc, true
+}
+
+// copyAt copies the samples of src into mc with the upper left corner at origin.
+func (mc *ModularChannel) copyAt(origin util.Point, src *ModularChannel) {
+	for y := range src.buffer {
+		copy(mc.buffer[y+int(origin.Y)][origin.X:], src.buffer[y])
+	}
+}
+
 func (mc *ModularChannel) allocate() {
 	if len(mc.buffer) != 0 {
 		return
-- 
2.43.0


From f9d7b8975d065908d3aa82553612aea947e5243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 15/86] fix: LZ77 distances depended on channels coded in other
 sections

---
 frame/ModularStream.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 2f897d5..21aa48a 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -350,15 +350,6 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	}
 
 	ms.stream = entropy.NewEntropyStreamWithStream(ms.tree.stream)
-
-	// get max Width from all channels.
-	maxWidth := uint32(0)
-	for _, c := range ms.channels {
-		if c.size.Width > maxWidth {
-			maxWidth = c.size.Width
-		}
-	}
-	ms.distMultiplier = int32(maxWidth)
 	return ms, nil
 }
 
@@ -369,12 +360,23 @@ func (ms *ModularStream) getChannels() []*ModularChannel {
 func (ms *ModularStream) decodeChannels(reader jxlio.BitReader, partial bool) error {
 
 	groupDim := uint32(ms.frame.getFrameHeader().groupDim)
-	for i := 0; i < len(ms.channels); i++ {
-		channel := ms.channels[i]
+	count := len(ms.channels)
+	maxWidth := uint32(0)
+	for i, channel := range ms.channels {
 		if partial && i >= ms.nbMetaChannels &&
 			(channel.size.Width > groupDim || channel.size.Height > groupDim) {
+			count = i
 			break
 		}
+		if channel.size.Height > 0 {
+			maxWidth = max(maxWidth, channel.size.Width)
+		}
+	}
+	// only the channels coded in this stream determine the LZ77 distances
+	ms.distMultiplier = int32(maxWidth)
+
+	for i := 0; i < count; i++ {
+		channel := ms.channels[i]
 		err := channel.decode(reader, ms.stream, ms.wpParams, ms.tree, ms, int32(i), int32(ms.streamIndex), ms.distMultiplier)
 		if err != nil {
 			return err
-- 
2.43.0


From 36ff802c1ed1d55cf4673937425a67c14b37ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 16/86] fix: permuted table of contents was ignored

---
 frame/Frame.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 3ca5374..9b7037c 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -480,12 +480,21 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
 	if len(f.tocLengths) != 1 {
+		readers := make([]jxlio.BitReader, len(f.tocLengths))
 		for i := 0; i < len(f.tocLengths); i++ {
 			buffer, err := f.readBuffer(i)
 			if err != nil {
 				return err
 			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+			readers[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+		}
+		for i := range f.bitreaders {
+			if f.permutatedTOC {
+				// logical section i is stored at position tocPermutation[i]
+				f.bitreaders[i] = readers[f.tocPermutation[i]]
+			} else {
+				f.bitreaders[i] = readers[i]
+			}
 		}
 	} else {
 		f.bitreaders[0] = f.reader
-- 
2.43.0


From c2c27e76d9fb1c3bde75bc8f5b41086419a3d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 17/86] fix: errors while decoding a pass group were only
 logged

---
 frame/Frame.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 9b7037c..95ec1d3 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -646,13 +646,18 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+// startWorker decodes pass groups until inputChan is drained and returns the first error.
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) error {
+	var firstErr error
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			if firstErr == nil {
+				firstErr = err
+			}
 		}
-
 	}
+	return firstErr
 }
 
 func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
@@ -709,15 +714,22 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if maxGoroutines < 1 {
 		maxGoroutines = 1
 	}
+	workerErrs := make(chan error, maxGoroutines)
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
-			wg.Done()
+			defer wg.Done()
+			if err := f.startWorker(inputChan, passGroups); err != nil {
+				workerErrs <- err
+			}
 		}()
 	}
 
 	wg.Wait()
+	close(workerErrs)
+	if err := <-workerErrs; err != nil {
+		return err
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		for i, r := range f.passes[pass].replacedChannels {
-- 
2.43.0


From 93cdc7c6cb7c53cc852bf17e319249e8113748c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 18/86] fix: errors of the chroma upsampling were dropped

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 95ec1d3..5548f23 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -460,7 +460,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	}
 
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
 
 	if f.Header.restorationFilter.gab {
-- 
2.43.0


From 23bf6d10471e60e44bead036c5198f94c2ec1dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 19/86] fix: a downsampling entry for the last pass hid the
 full-resolution channels

---
 frame/Pass.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Pass.go b/frame/Pass.go
index 9e7e79f..c0fb4b4 100644
--- a/frame/Pass.go
+++ b/frame/Pass.go
@@ -31,8 +31,8 @@ func NewPassWithReader(reader jxlio.BitReader, frame Framer, passIndex uint32, p
 	passes := frame.getFrameHeader().passes
 	for i := 0; i < len(passes.lastPass); i++ {
 		if passes.lastPass[i] == passIndex {
+			// later entries win: the final one completes the image
 			n = i
-			break
 		}
 	}
 
-- 
2.43.0


From 47d949b65ebec193fd24765eca9a392d5f20247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 20/86] fix: extension lengths are given in bits

---
 bundle/Extensions.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..0a98daf 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,27 +25,27 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
+	// lengths are given in bits
+	var lengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
 		}
 	}
-	for i := 0; i < 64; i++ {
-		if len(ex.Payloads[i]) > 0 {
-			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
-					return nil, err
-				} else {
-					ex.Payloads[i][j] = byte(bits)
-				}
+	for i, remaining := range lengths {
+		for remaining > 0 {
+			n := min(remaining, 8)
+			bits, err := reader.ReadBits(uint32(n))
+			if err != nil {
+				return nil, err
 			}
+			ex.Payloads[i] = append(ex.Payloads[i], byte(bits))
+			remaining -= n
 		}
 	}
 	return ex, nil
-- 
2.43.0


From 2081e6774a0b2fd600a46fabc9f9d7131a3003ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 21/86] fix: size limits were tested on 32-bit products

---
 bundle/image_header.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..699769d 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -833,7 +833,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
@@ -846,15 +846,15 @@ func getWidthFromRatio(ratio uint32, height uint32) (uint32, error) {
 	case 1:
 		return height, nil
 	case 2:
-		return height * 6 / 5, nil
+		return uint32(uint64(height) * 6 / 5), nil
 	case 3:
-		return height * 4 / 3, nil
+		return uint32(uint64(height) * 4 / 3), nil
 	case 4:
-		return height * 3 / 2, nil
+		return uint32(uint64(height) * 3 / 2), nil
 	case 5:
-		return height * 16 / 9, nil
+		return uint32(uint64(height) * 16 / 9), nil
 	case 6:
-		return height * 5 / 4, nil
+		return uint32(uint64(height) * 5 / 4), nil
 	case 7:
 		return height * 2, nil
 	default:
-- 
2.43.0


From 965701b427e9601a49a0edf1aa8efa1b32a31812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 22/86] fix: extra channels ignored their own upsampling factor

---
 frame/Frame.go         | 22 ++++++++++++++++------
 frame/FrameHeader.go   | 26 ++++++++++++++++++++++++++
 frame/ModularStream.go | 13 ++++++++-----
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 5548f23..e146d20 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -359,6 +359,14 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 			channelSize.Height >>= f.Header.jpegUpsamplingY[c]
 			channelSize.Width >>= f.Header.jpegUpsamplingX[c]
 		}
+		if c >= numColours {
+			shift, err := f.Header.ecChannelShift(f.GlobalMetadata, c-numColours)
+			if err != nil {
+				return err
+			}
+			channelSize.Height = util.CeilDiv(f.Header.Bounds.Size.Height, 1<<shift)
+			channelSize.Width = util.CeilDiv(f.Header.Bounds.Size.Width, 1<<shift)
+		}
 		var isFloat bool
 		if c < f.GetColourChannelCount() {
 			isFloat = f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT ||
@@ -443,16 +451,15 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else if f.Buffer[cOut].IsFloat() {
 
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+			for y := range modularBuffer[cIn] {
+				for x := range modularBuffer[cIn][y] {
 					outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
 				}
 			}
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				//copy(outBuffer[y], modularBuffer[cIn][y])
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
+			for y := range modularBuffer[cIn] {
+				for x := range modularBuffer[cIn][y] {
 					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
 				}
 			}
@@ -1436,7 +1443,10 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 	if c < colour {
 		k = f.Header.Upsampling
 	} else {
-		k = f.Header.EcUpsampling[c-colour]
+		var err error
+		if k, err = f.Header.ecUpsamplingFactor(f.GlobalMetadata, c-colour); err != nil {
+			return nil, err
+		}
 	}
 	if k == 1 {
 		return &ib, nil
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..2b865d5 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -1,6 +1,7 @@
 package frame
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -451,3 +452,28 @@ func (fh *FrameHeader) DisplayDebug() {
 	fmt.Printf("  Flags bits: USE_LF_FRAME=%v NOISE=%v PATCHES=%v SPLINES=%v\n",
 		fh.Flags&USE_LF_FRAME != 0, fh.Flags&NOISE != 0, fh.Flags&PATCHES != 0, fh.Flags&SPLINES != 0)
 }
+
+// ecUpsamplingFactor is the total upsampling factor of extra channel ec.
+func (fh *FrameHeader) ecUpsamplingFactor(parent *bundle.ImageHeader, ec int) (uint32, error) {
+	k := uint64(1)
+	if ec < len(fh.EcUpsampling) {
+		k = uint64(fh.EcUpsampling[ec])
+	}
+	k <<= uint32(parent.ExtraChannelInfo[ec].DimShift)
+	if k > 8 {
+		return 0, errors.New("invalid extra channel upsampling")
+	}
+	return uint32(k), nil
+}
+
+// ecChannelShift is log2 of the size ratio of the colour channels and extra channel ec.
+func (fh *FrameHeader) ecChannelShift(parent *bundle.ImageHeader, ec int) (int32, error) {
+	k, err := fh.ecUpsamplingFactor(parent, ec)
+	if err != nil {
+		return 0, err
+	}
+	if k < fh.Upsampling {
+		return 0, errors.New("extra channel upsampled less than the colour channels")
+	}
+	return int32(util.CeilLog2(int64(k)) - util.CeilLog2(int64(max(1, fh.Upsampling)))), nil
+}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 21aa48a..13c5b18 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -221,12 +221,15 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 	if len(channelArray) == 0 {
 		for i := 0; i < channelCount; i++ {
-			size := frame.getFrameHeader().Bounds.Size
+			header := frame.getFrameHeader()
+			size := header.Bounds.Size
 			var dimShift int32
-			if i < ecStart {
-				dimShift = 0
-			} else {
-				dimShift = frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift
+			if i >= ecStart {
+				if dimShift, err = header.ecChannelShift(frame.getGlobalMetadata(), i-ecStart); err != nil {
+					return nil, err
+				}
+				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
+				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
 			}
 			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
 		}
-- 
2.43.0


From 5ea3273043bb9a9b7467415a62d8c7639f947155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 23/86] fix: integer samples above 24 bits were rounded through
 float32

---
 frame/Frame.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index e146d20..b44207b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -459,9 +459,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
 			for y := range modularBuffer[cIn] {
-				for x := range modularBuffer[cIn][y] {
-					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
-				}
+				copy(outBuffer[y], modularBuffer[cIn][y])
 			}
 		}
 	}
-- 
2.43.0


From 99b312ab80f4078af70af5e58aa1d7f064e53f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 24/86] fix: bit patterns of floating point samples were
 converted as integers

---
 bundle/BitDepthHeader.go | 29 ++++++++++++++++++++++++++++-
 frame/Frame.go           | 22 ++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/bundle/BitDepthHeader.go b/bundle/BitDepthHeader.go
index 368cdd5..6c9d140 100644
--- a/bundle/BitDepthHeader.go
+++ b/bundle/BitDepthHeader.go
@@ -1,6 +1,10 @@
 package bundle
 
-import "github.com/kpfaulkner/jxl-go/jxlio"
+import (
+	"math"
+
+	"github.com/kpfaulkner/jxl-go/jxlio"
+)
 
 type BitDepthHeader struct {
 	BitsPerSample    uint32
@@ -41,3 +45,26 @@ func NewBitDepthHeaderWithReader(reader jxlio.BitReader) (*BitDepthHeader, error
 	}
 	return bh, nil
 }
+
+// SampleToFloat converts the bit pattern of a floating point sample to its value.
+func (bh *BitDepthHeader) SampleToFloat(sample int32) float32 {
+	bits := uint32(sample)
+	if bh.BitsPerSample == 32 {
+		return math.Float32frombits(bits)
+	}
+	mantBits := bh.BitsPerSample - bh.ExpBits - 1
+	sign := bits >> (bh.BitsPerSample - 1) & 1
+	exp := int(bits >> mantBits & (1<<bh.ExpBits - 1))
+	mantissa := float64(bits & (1<<mantBits - 1))
+	if exp == 0 {
+		exp = 1
+	} else {
+		mantissa += float64(uint32(1) << mantBits)
+	}
+	bias := 1<<(bh.ExpBits-1) - 1
+	v := math.Ldexp(mantissa, exp-bias-int(mantBits))
+	if sign != 0 {
+		v = -v
+	}
+	return float32(v)
+}
diff --git a/frame/Frame.go b/frame/Frame.go
index b44207b..e59926d 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -448,6 +448,13 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 					outBuffer[y][x] = scaleFactor * float32(modularBuffer[0][y][x]+modularBuffer[2][y][x])
 				}
 			}
+		} else if floatDepth := f.floatSampleDepth(cOut); floatDepth != nil {
+			outBuffer := f.Buffer[cOut].FloatBuffer
+			for y := range modularBuffer[cIn] {
+				for x := range modularBuffer[cIn][y] {
+					outBuffer[y][x] = floatDepth.SampleToFloat(modularBuffer[cIn][y][x])
+				}
+			}
 		} else if f.Buffer[cOut].IsFloat() {
 
 			outBuffer := f.Buffer[cOut].FloatBuffer
@@ -482,6 +489,21 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	return nil
 }
 
+// floatSampleDepth returns the bit depth of a modular channel that stores the
+// bit patterns of floating point samples, nil for other channels.
+func (f *Frame) floatSampleDepth(c int) *bundle.BitDepthHeader {
+	depth := f.GlobalMetadata.BitDepth
+	if colours := f.GetColourChannelCount(); c >= colours {
+		depth = &f.GlobalMetadata.ExtraChannelInfo[c-colours].BitDepth
+	} else if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+		return nil
+	}
+	if depth == nil || depth.ExpBits == 0 {
+		return nil
+	}
+	return depth
+}
+
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
 	if len(f.tocLengths) != 1 {
-- 
2.43.0


From 3642c624abb6e60ba77706fd701de2747f67d00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 25/86] fix: samples outside a cropped frame were not those of
 its reference frame

---
 core/jxl_codestream_decoder.go | 70 ++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..246a2d9 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -105,7 +105,6 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 	jxl.imageHeader = imageHeader
-	size := imageHeader.Size
 	jxl.canvas = make([]image2.ImageBuffer, imageHeader.GetColourChannelCount()+len(imageHeader.ExtraChannelInfo))
 	if imageHeader.AnimationHeader != nil {
 		return nil, errors.New("animation not implemented")
@@ -238,31 +237,10 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				panic("VARDCT not implemented yet")
 			}
 
-			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
-				for c := 0; c < len(jxl.canvas); c++ {
-					canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
-					if err != nil {
-						return nil, err
-					}
-					jxl.canvas[c] = *canvas
-				}
-			}
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
-
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
+				jxl.canvas, err = jxl.newCanvas(imgFrame)
+				if err != nil {
+					return nil, err
 				}
 				err = jxl.blendFrame(jxl.canvas, imgFrame)
 				if err != nil {
@@ -731,6 +709,48 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+// frameChannel returns the channel of a frame that holds image channel c, and its blending info.
+func (jxl *JXLCodestreamDecoder) frameChannel(imgFrame *frame.Frame, c int) (int, *frame.BlendingInfo) {
+	frameColours := imgFrame.GetColourChannelCount()
+	frameC := c
+	if frameColours != jxl.imageHeader.GetColourChannelCount() {
+		if c == 0 {
+			frameC = 1
+		} else {
+			frameC = c + 2
+		}
+	}
+	if frameC < frameColours {
+		return frameC, imgFrame.Header.BlendingInfo
+	}
+	return frameC, &imgFrame.Header.EcBlendingInfo[frameC-frameColours]
+}
+
+// newCanvas creates the canvas imgFrame is blended into. Samples which are not
+// covered by the frame are those of the reference frame that is blended with.
+func (jxl *JXLCodestreamDecoder) newCanvas(imgFrame *frame.Frame) ([]image2.ImageBuffer, error) {
+	size := jxl.imageHeader.GetSize()
+	bounds := imgFrame.Header.Bounds
+	lowerCorner := bounds.ComputeLowerCorner()
+	covered := bounds.Origin.Y <= 0 && bounds.Origin.X <= 0 &&
+		lowerCorner.Y >= int32(size.Height) && lowerCorner.X >= int32(size.Width)
+	canvas := make([]image2.ImageBuffer, len(jxl.canvas))
+	for c := range canvas {
+		frameC, info := jxl.frameChannel(imgFrame, c)
+		if ref := jxl.reference[info.Source]; !covered && c < len(ref) &&
+			ref[c].Width == int32(size.Width) && ref[c].Height == int32(size.Height) {
+			canvas[c] = *image2.NewImageBufferFromImageBuffer(&ref[c], true)
+			continue
+		}
+		buf, err := image2.NewImageBuffer(imgFrame.Buffer[frameC].BufferType, int32(size.Height), int32(size.Width))
+		if err != nil {
+			return nil, err
+		}
+		canvas[c] = *buf
+	}
+	return canvas, nil
+}
+
 func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFrame *frame.Frame) error {
 
 	imageSize := jxl.imageHeader.GetSize()
-- 
2.43.0


From 9f6dd61ef2b33a64e63c1e25a7648c5c7fbe2155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 26/86] fix: clamp flag of multiplicative blending is coded
 without extra channels too

---
 frame/BlendingInfo.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..b1a5a81 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -40,9 +40,7 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	}
 
 	var err error
-	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
-		bi.Mode == BLEND_MULADD) {
+	if bi.Mode == BLEND_MULT || extra && (bi.Mode == BLEND_BLEND || bi.Mode == BLEND_MULADD) {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b8b8ce42012310e9b27dda30517556a03b5a2554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:27 +0000
Subject: [PATCH 27/86] fix: vertical position of a frame depended on the sign
 of the horizontal one

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 246a2d9..0ecde50 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -756,7 +756,7 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
 	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
+	if header.Bounds.Origin.Y >= 0 {
 		frameStartY = header.Bounds.Origin.Y
 	}
 	frameStartX := int32(0)
-- 
2.43.0


From bdf9f14b22dd0108ebea04690832f6e53969d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:28 +0000
Subject: [PATCH 28/86] fix: frames outside of the image panicked

---
 core/jxl_codestream_decoder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 0ecde50..c74b90f 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -769,6 +769,11 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	frameHeight := util.Min(lowerCorner.Y, int32(imageSize.Height)) - frameStartY
 	frameWidth := util.Min(lowerCorner.X, int32(imageSize.Width)) - frameStartX
 
+	if frameHeight <= 0 || frameWidth <= 0 {
+		// frame is entirely outside of the image
+		return nil
+	}
+
 	frameColours := imgFrame.GetColourChannelCount()
 	imageColours := jxl.imageHeader.GetColourChannelCount()
 	hasAlpha := jxl.imageHeader.HasAlpha()
-- 
2.43.0


From 1bcecadff1801fc5a38ca16bc6f569d49eeefb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 29/86] fix: frame position is in image pixels and must not be
 upsampled

---
 frame/Frame.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index e59926d..4679d06 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1446,9 +1446,6 @@ func (f *Frame) Upsample() error {
 	}
 	f.Header.Bounds.Size.Height *= f.Header.Upsampling
 	f.Header.Bounds.Size.Width *= f.Header.Upsampling
-
-	f.Header.Bounds.Origin.Y *= int32(f.Header.Upsampling)
-	f.Header.Bounds.Origin.X *= int32(f.Header.Upsampling)
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
-- 
2.43.0


From b67d1ef7724c9b64bda900dc523cdc7ca8d422d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 30/86] fix: padding of upsampled frames was blended into the
 image

---
 core/jxl_codestream_decoder.go | 5 +++++
 frame/FrameHeader.go           | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index c74b90f..e5eb818 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -766,6 +766,11 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	frameOffsetY := frameStartY - header.Bounds.Origin.Y
 	frameOffsetX := frameStartX - header.Bounds.Origin.X
 	lowerCorner := header.Bounds.ComputeLowerCorner()
+	if header.Width > 0 && header.Height > 0 {
+		// the coded size is rounded up, the samples beyond the frame size are not part of the frame
+		lowerCorner.Y = util.Min(lowerCorner.Y, header.Bounds.Origin.Y+int32(header.Height))
+		lowerCorner.X = util.Min(lowerCorner.X, header.Bounds.Origin.X+int32(header.Width))
+	}
 	frameHeight := util.Min(lowerCorner.Y, int32(imageSize.Height)) - frameStartY
 	frameWidth := util.Min(lowerCorner.X, int32(imageSize.Width)) - frameStartX
 
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 2b865d5..8bd1375 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -265,6 +265,8 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			}
 		}
 		fh.Bounds.Size = parent.Size
+		fh.Width = parent.Size.Width
+		fh.Height = parent.Size.Height
 	}
 
 	normalFrame := !allDefault && (fh.FrameType == REGULAR_FRAME || fh.FrameType == SKIP_PROGRESSIVE)
-- 
2.43.0


From da6ced797e853066c902e5c22362987757ba152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 31/86] fix: blending with a reference that was never stored
 panicked

---
 core/jxl_codestream_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index e5eb818..c1cad93 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -805,6 +805,10 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
 		refBuffer := jxl.reference[info.Source]
+		if refBuffer == nil && info.Mode != frame.BLEND_ADD {
+			// nothing was stored: blend with zeros
+			refBuffer = make([]image2.ImageBuffer, len(canvas))
+		}
 		err := jxl.convertCanvasWithDifferentBufferType(canvas, c, &frameBuffer, imageColours, frameC, frameColours)
 		if err != nil {
 			return err
-- 
2.43.0


From 76161caf3bc6fde20186824efadcb4a57565d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 32/86] fix: blending two fully transparent samples gave NaN

---
 core/jxl_codestream_decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index c1cad93..95cb49f 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -961,6 +961,8 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
+				} else if alpha == 0 {
+					cf[cy][cx] = 0
 				} else {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
 				}
-- 
2.43.0


From da4c90f9f4e09748b0bfec475f3c1386c55b9f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 33/86] fix: alpha channel of the blending info was not
 validated

---
 core/jxl_codestream_decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 95cb49f..5e34d86 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -802,6 +802,9 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 			info = &imgFrame.Header.EcBlendingInfo[frameC-int32(frameColours)]
 		}
 		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
+		if hasAlpha && int(info.AlphaChannel) >= len(jxl.imageHeader.ExtraChannelInfo) {
+			return errors.New("invalid alpha channel for blending")
+		}
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
 		refBuffer := jxl.reference[info.Source]
-- 
2.43.0


From cab4dffcb90e9988105cec72519de82992b3768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 34/86] fix: alpha of a frame with more colour channels than
 the image was not converted

---
 core/jxl_codestream_decoder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 5e34d86..d053b6a 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -836,6 +836,12 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		}
 		ref := refBuffer[c]
 
+		if hasAlpha && (info.Mode == frame.BLEND_BLEND || info.Mode == frame.BLEND_MULADD) {
+			depth := jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].BitDepth.BitsPerSample
+			if err := frameBuffers[frameColours+int(info.AlphaChannel)].CastToFloatIfMax(^(^0 << depth)); err != nil {
+				return err
+			}
+		}
 		err2 := jxl.blendAlpha(canvas[c], hasAlpha, info, imageColours, refBuffer, frameBuffers)
 		if err2 != nil {
 			return err2
-- 
2.43.0


From e6df46ad3f9d303cfd33181976c2542c32dbc7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 35/86] fix: reference-only frames stored the canvas instead of
 themselves

---
 core/jxl_codestream_decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index d053b6a..a4e6200 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -249,7 +249,16 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				if header.FrameType == frame.REFERENCE_ONLY {
+					stored := make([]image2.ImageBuffer, len(jxl.canvas))
+					for c := range stored {
+						frameC, _ := jxl.frameChannel(imgFrame, c)
+						stored[c] = imgFrame.Buffer[frameC]
+					}
+					jxl.reference[header.SaveAsReference] = stored
+				} else {
+					jxl.reference[header.SaveAsReference] = jxl.canvas
+				}
 			}
 
 			if header.IsLast && header.Duration == 0 {
-- 
2.43.0


From a363a6a9d79d97321b44efb2cc4704a5844abf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 36/86] fix: upsampling clamped negative neighbourhoods to zero
 instead of to their maximum

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 4679d06..cd2b51d 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1521,7 +1521,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-- 
2.43.0


From 7395be9f5f65c1ed519eefc75b7be182355521ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 37/86] fix: padding of an upsampled frame counted as covering
 the image

---
 core/jxl_codestream_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index a4e6200..f11588e 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -741,6 +741,10 @@ func (jxl *JXLCodestreamDecoder) newCanvas(imgFrame *frame.Frame) ([]image2.Imag
 	size := jxl.imageHeader.GetSize()
 	bounds := imgFrame.Header.Bounds
 	lowerCorner := bounds.ComputeLowerCorner()
+	if imgFrame.Header.Width > 0 && imgFrame.Header.Height > 0 {
+		lowerCorner.Y = util.Min(lowerCorner.Y, bounds.Origin.Y+int32(imgFrame.Header.Height))
+		lowerCorner.X = util.Min(lowerCorner.X, bounds.Origin.X+int32(imgFrame.Header.Width))
+	}
 	covered := bounds.Origin.Y <= 0 && bounds.Origin.X <= 0 &&
 		lowerCorner.Y >= int32(size.Height) && lowerCorner.X >= int32(size.Width)
 	canvas := make([]image2.ImageBuffer, len(jxl.canvas))
-- 
2.43.0


From b0e796587fa3df4ac510b8003f624bd8609d509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 38/86] fix: large float samples became zero instead of the
 maximum when cast to integers

---
 image/imagebuffer.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index 7c27fe1..2e5c94d 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -212,14 +212,12 @@ func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
 
 	for y := 0; y < int(ib.Height); y++ {
 		for x := 0; x < int(ib.Width); x++ {
-			v := int32(oldBuffer[y][x]*scaleFactor + 0.5)
+			v := oldBuffer[y][x]*scaleFactor + 0.5
 			var vv int32
-			if v < 0 {
-				vv = 0
-			} else if v > maxValue {
+			if v >= scaleFactor {
 				vv = maxValue
-			} else {
-				vv = v
+			} else if v > 0 {
+				vv = int32(v)
 			}
 			newBuffer[y][x] = vv
 		}
-- 
2.43.0


From 473d707090dfdde8779d04bcb6a47d9df1824731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 39/86] fix: implement the DCT4x4 varblock transform instead of
 panicking

---
 frame/PassGroup.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..fe813dc 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -264,7 +264,28 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				g.auxDCT2(coeffs[c], scratchBlock[1], ppg, util.ZERO, 2)
+				for y := int32(0); y < 2; y++ {
+					for x := int32(0); x < 2; x++ {
+						scratchBlock[0][0][0] = scratchBlock[1][y][x]
+						for iy := int32(0); iy < 4; iy++ {
+							for ix := int32(0); ix < 4; ix++ {
+								if ix == 0 && iy == 0 {
+									continue
+								}
+								scratchBlock[0][iy][ix] = coeffs[c][ppg.Y+y+iy*2][ppg.X+x+ix*2]
+							}
+						}
+						ppf2 := util.Point{
+							X: ppf.X + x<<2,
+							Y: ppf.Y + y<<2,
+						}
+						if err := util.InverseDCT2D(scratchBlock[0], frameBuffer[c], util.ZERO, ppf2,
+							util.Dimension{Height: 4, Width: 4}, scratchBlock[2], scratchBlock[3], true); err != nil {
+							return err
+						}
+					}
+				}
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From f196a55342b0d4bf04de483cc4054752fb0c8b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 40/86] fix: AFV1 to AFV3 varblocks were decoded without being
 mirrored

---
 frame/PassGroup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index fe813dc..8227459 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -339,10 +339,10 @@ func (g *PassGroup) invertAFV(coeffs [][]float32, buffer [][]float32, tt *Transf
 
 	var flipX int32
 	var flipY int32
-	if tt == AFV2 || tt == AFV3 {
+	if tt.ttType == AFV2.ttType || tt.ttType == AFV3.ttType {
 		flipY = 1
 	}
-	if tt == AFV1 || tt == AFV3 {
+	if tt.ttType == AFV1.ttType || tt.ttType == AFV3.ttType {
 		flipX = 1
 	}
 	totalSample := float32(0)
-- 
2.43.0


From b16481fbab936ea6ca193bc0b83a2dababf793b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:08 +0000
Subject: [PATCH 41/86] fix: AFV dequantisation weights were transposed and
 took the wrong bands

---
 frame/HFGlobal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..5f73987 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -638,8 +638,8 @@ func (hfg *HFGlobal) getAFVTransformWeights(index int, c int) ([][]float32, erro
 			if x < 2 && y < 2 {
 				continue
 			}
-			pos := (afvFreqs[y*4+x] - low) / (high - low)
-			weight[2*x][2*y] = interpolate(float32(pos), bands)
+			pos := float64(len(bands)-1) * (afvFreqs[y*4+x] - low) / (high - low + 1e-6)
+			weight[2*y][2*x] = interpolate(float32(pos), bands)
 		}
 		for x := 0; x < 8; x++ {
 			if x == 0 && y == 0 {
-- 
2.43.0


From fe3faf1e90e6c1d4de221d1dda065b681486bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 42/86] fix: custom DCT4x4 multipliers were scaled by 64 and
 custom DCT4x8 matrices rejected

---
 frame/HFGlobal.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 5f73987..339833c 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -342,7 +342,7 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 				if err != nil {
 					return err
 				}
-				m[y][x] = 64.0 * mm
+				m[y][x] = mm
 			}
 		}
 		dctParam, err := hfg.readDCTParams(reader)
@@ -350,6 +350,20 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			mm, err := reader.ReadF16()
+			if err != nil {
+				return err
+			}
+			m[y][0] = mm
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From 9f16c6c0f9fc04cca02f51e3a95837e05f0a57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 43/86] fix: negative LF chroma-from-luma factors wrapped
 around

---
 frame/lfcoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..f531497 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -91,8 +91,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 		// TOOD(kpfaulkner) investigate what this really does.
 		lfc := frame.getLFGlobal().lfChanCorr
-		kX := lfc.baseCorrelationX + float32(lfc.xFactorLF-128)/float32(lfc.colorFactor)
-		kB := lfc.baseCorrelationB + float32(lfc.bFactorLF-128)/float32(lfc.colorFactor)
+		kX := lfc.baseCorrelationX + float32(int32(lfc.xFactorLF)-128)/float32(lfc.colorFactor)
+		kB := lfc.baseCorrelationB + float32(int32(lfc.bFactorLF)-128)/float32(lfc.colorFactor)
 		dqLFY := dequantLFCoeff[1]
 		dqLFX := dequantLFCoeff[0]
 		dqLFB := dequantLFCoeff[2]
-- 
2.43.0


From 0c8d6dd1e5094399fd15fa8b37425561c0be0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:19 +0000
Subject: [PATCH 44/86] fix: X and B quantisation scales 0 and 1 wrapped around

---
 frame/HFCoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 14f4207..53de200 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -267,9 +267,9 @@ func (hf *HFCoefficients) dequantizeHFCoefficients() error {
 	header := hf.frame.getFrameHeader()
 	globalScale := 65536.0 / float32(hf.frame.getLFGlobal().globalScale)
 	scaleFactor := [3]float32{
-		globalScale * float32(math.Pow(0.8, float64(header.xqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.xqmScale)-2)),
 		globalScale,
-		globalScale * float32(math.Pow(0.8, float64(header.bqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.bqmScale)-2)),
 	}
 	weights := hf.frame.getHFGlobal().weights
 	qbclut := [][]float32{
-- 
2.43.0


From ceda563a342ba609041545fa7f69f28731a597c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 45/86] fix: the product of global scale and LF quantiser
 overflowed

---
 frame/LFGlobal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/LFGlobal.go b/frame/LFGlobal.go
index 3c3c73a..36d3eb0 100644
--- a/frame/LFGlobal.go
+++ b/frame/LFGlobal.go
@@ -109,7 +109,7 @@ func NewLFGlobalWithReader(reader jxlio.BitReader, parent Framer, hfBlockContext
 		}
 		lf.quantLF = int32(quantLF)
 		for i := 0; i < 3; i++ {
-			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / float32(lf.globalScale*lf.quantLF)
+			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / (float32(lf.globalScale) * float32(lf.quantLF))
 		}
 		lf.hfBlockCtx, err = hfBlockContextFunc(reader, entropy.ReadClusterMap)
 		if err != nil {
-- 
2.43.0


From 76a8221cdfcdceec0cd22ad51347380e0e180393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 46/86] fix: chroma-from-luma ignored blocks decoded before the
 one at their tile's origin

---
 frame/HFCoefficients.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 53de200..18e3173 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -343,8 +343,6 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 	lfc := hf.frame.getLFGlobal().lfChanCorr
 	xFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[0]
 	bFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[1]
-	xFactors := util.MakeMatrix2D[float32](len(xFactorHF), len(xFactorHF[0]))
-	bFactors := util.MakeMatrix2D[float32](len(bFactorHF), len(bFactorHF[0]))
 
 	// Cache the float32 conversion outside the loops to avoid per-pixel conversion
 	invColorFactor := 1.0 / float32(lfc.colorFactor)
@@ -362,25 +360,13 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 		for iy := int32(0); iy < tt.pixelHeight; iy++ {
 			y := pPosY + iy
 			fy := y >> 6
-			by := fy<<6 == y
-			xF := xFactors[fy]
-			bF := bFactors[fy]
 			hfX := xFactorHF[fy]
 			hfB := bFactorHF[fy]
 			for ix := int32(0); ix < tt.pixelWidth; ix++ {
 				x := pPosX + ix
 				fx := x >> 6
-				var kX float32
-				var kB float32
-				if by && fx<<6 == x {
-					kX = baseCorrelationX + float32(hfX[fx])*invColorFactor
-					kB = baseCorrelationB + float32(hfB[fx])*invColorFactor
-					xF[fx] = kX
-					bF[fx] = kB
-				} else {
-					kX = xF[fx]
-					kB = bF[fx]
-				}
+				kX := baseCorrelationX + float32(hfX[fx])*invColorFactor
+				kB := baseCorrelationB + float32(hfB[fx])*invColorFactor
 				dequantY := hf.dequantHFCoeff[1][y&0xFF][x&0xFF]
 				hf.dequantHFCoeff[0][y&0xFF][x&0xFF] += kX * dequantY
 				hf.dequantHFCoeff[2][y&0xFF][x&0xFF] += kB * dequantY
-- 
2.43.0


From 9391eb302b64aeb761eecabc40405a10ac760248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 47/86] fix: VarDCT frames with several passes panicked

---
 frame/HFCoefficients.go | 11 +++++++++++
 frame/PassGroup.go      |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 18e3173..8b1d199 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -245,6 +245,17 @@ func (hf *HFCoefficients) getCoefficientContext(k int32, nonZeros int32, numBloc
 	return (coeffNumNonzeroCtx[nonZeros]+coeffFreqCtx[k])*2 + prev
 }
 
+// addPass adds the quantised coefficients of the preceding passes.
+func (hf *HFCoefficients) addPass(prev *HFCoefficients) {
+	for c := range hf.quantizedCoeffs {
+		for y, row := range hf.quantizedCoeffs[c] {
+			for x, v := range prev.quantizedCoeffs[c][y] {
+				row[x] += v
+			}
+		}
+	}
+}
+
 func (hf *HFCoefficients) bakeDequantizedCoeffs() error {
 
 	if err := hf.dequantizeHFCoefficients(); err != nil {
diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 8227459..d5cec72 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -109,7 +109,11 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 
 	header := g.frame.Header
 	if prev != nil {
-		panic("not implemented")
+		g.hfCoefficients.addPass(prev.hfCoefficients)
+	}
+	if int(g.passID)+1 < len(g.frame.passes) {
+		// later passes refine these coefficients.
+		return nil
 	}
 
 	// differs from jxlatte
-- 
2.43.0


From 4ee161f17b7f2c5bf96c91363a0f660ba49e6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:57 +0000
Subject: [PATCH 48/86] fix: frames using an LF frame also read quantised LF
 coefficients

---
 frame/lfcoefficients.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index f531497..d0e8665 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -55,6 +55,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 				}
 			}
 		}
+		// the LF image replaces the quantised LF coefficients.
+		return lf, nil
 	}
 
 	extraPrecision, err := reader.ReadBits(2)
-- 
2.43.0


From ac6b142b85a7ec8805d9042224a3805cd1c7102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 49/86] fix: frames without a passes field panicked or lost the
 channels of their groups

---
 frame/FrameHeader.go |  2 +-
 frame/PassesInfo.go  | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 8bd1375..c89b220 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -192,7 +192,7 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			return nil, err
 		}
 	} else {
-		fh.passes = NewPassesInfo()
+		fh.passes = newSinglePass()
 	}
 
 	if fh.FrameType == LF_FRAME {
diff --git a/frame/PassesInfo.go b/frame/PassesInfo.go
index 70d4109..df93b00 100644
--- a/frame/PassesInfo.go
+++ b/frame/PassesInfo.go
@@ -20,6 +20,16 @@ func NewPassesInfo() *PassesInfo {
 	return pi
 }
 
+// newSinglePass describes a frame whose header has no passes field.
+func newSinglePass() *PassesInfo {
+	return &PassesInfo{
+		shift:      []uint32{0},
+		downSample: []uint32{1},
+		lastPass:   []uint32{0},
+		numPasses:  1,
+	}
+}
+
 func NewPassesInfoWithReader(reader jxlio.BitReader) (*PassesInfo, error) {
 	pi := &PassesInfo{}
 	if numPasses, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 3); err != nil {
-- 
2.43.0


From 499d9ad63b4cb62c92984548d3d02665dd87e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 50/86] fix: VarDCT samples were cleared and pooled while in
 use once a pool of their size existed

---
 frame/Frame.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index cd2b51d..ff44d35 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -782,8 +782,7 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		buffers := make([][][]float32, 3)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From d3cb92107540aa3e94e520e1317812b421454b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 51/86] fix: subsampled VarDCT planes returned to the pool as
 one matrix of the first plane's size

---
 frame/HFCoefficients.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 8b1d199..2f73d92 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -437,14 +437,15 @@ func (hf *HFCoefficients) finalizeLLF() error {
 
 // Release returns pooled buffers to the pool
 func (hf *HFCoefficients) Release() {
-	if hf.quantizedCoeffs != nil {
-		util.ReturnMatrix3DToPool(hf.quantizedCoeffs)
-		hf.quantizedCoeffs = nil
+	// the planes were pooled one by one: those of subsampled channels are smaller
+	for c := range hf.quantizedCoeffs {
+		util.ReturnMatrix2DToPool(hf.quantizedCoeffs[c])
 	}
-	if hf.dequantHFCoeff != nil {
-		util.ReturnMatrix3DToPool(hf.dequantHFCoeff)
-		hf.dequantHFCoeff = nil
+	hf.quantizedCoeffs = nil
+	for c := range hf.dequantHFCoeff {
+		util.ReturnMatrix2DToPool(hf.dequantHFCoeff[c])
 	}
+	hf.dequantHFCoeff = nil
 }
 
 func getPredictedNonZeros(nonZeros [][][]int32, c int, y int32, x int32) int32 {
-- 
2.43.0


From 47b5e303e8c5049850f8b66f34416eebe948df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 52/86] fix: modular transforms of channels that do not exist
 or do not match panicked

---
 frame/ModularStream.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 13c5b18..5159c17 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -244,6 +244,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 		if ms.transforms[i].tr == PALETTE {
 
+			if err := ms.checkChannels(ms.transforms[i].beginC, ms.transforms[i].numC, true); err != nil {
+				return nil, err
+			}
 			if ms.transforms[i].beginC < ms.nbMetaChannels {
 				ms.nbMetaChannels += 2 - ms.transforms[i].numC
 			} else {
@@ -266,6 +269,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			// See JPEGXL specs, section I.3
 			squeezeList := []SqueezeParam{}
 			if len(ms.transforms[i].sp) == 0 {
+				if len(ms.channels) <= ms.nbMetaChannels {
+					return nil, errors.New("squeeze without channels")
+				}
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
 				size := ms.channels[first].size
@@ -298,6 +304,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			for j := 0; j < len(squeezeList); j++ {
 				begin := spa[j].beginC
 				end := begin + spa[j].numC - 1
+				if err := ms.checkChannels(begin, spa[j].numC, false); err != nil {
+					return nil, err
+				}
 				var offset int
 				if spa[j].inPlace {
 					offset = end + 1
@@ -336,7 +345,12 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 				}
 			}
 		} else if ms.transforms[i].tr == RCT {
-			continue
+			if err := ms.checkChannels(ms.transforms[i].beginC, 3, true); err != nil {
+				return nil, err
+			}
+			if ms.transforms[i].rctType >= 42 {
+				return nil, errors.New("illegal RCT type")
+			}
 		} else {
 			return nil, fmt.Errorf("illegal transform type %d", ms.transforms[i].tr)
 		}
@@ -356,6 +370,27 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	return ms, nil
 }
 
+// checkChannels verifies that a transform of the count channels from begin on
+// refers to existing channels, for sameSize also that they are equal in size
+// and either all or none of them are meta channels.
+func (ms *ModularStream) checkChannels(begin int, count int, sameSize bool) error {
+	if begin+max(count, 1) > len(ms.channels) {
+		return errors.New("transform of channels that do not exist")
+	}
+	if !sameSize {
+		return nil
+	}
+	if begin < ms.nbMetaChannels && begin+count > ms.nbMetaChannels {
+		return errors.New("transform of meta channels and other channels")
+	}
+	for _, c := range ms.channels[begin : begin+count] {
+		if c.size != ms.channels[begin].size {
+			return errors.New("transform of channels that differ in size")
+		}
+	}
+	return nil
+}
+
 func (ms *ModularStream) getChannels() []*ModularChannel {
 	return ms.channels
 }
-- 
2.43.0


From d78c50214d68804aca6767d8a49589b318db7f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 53/86] fix: code the chroma channels of subsampled modular
 YCbCr frames in their own size

---
 frame/ModularStream.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5159c17..ab39d29 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -223,15 +223,21 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		for i := 0; i < channelCount; i++ {
 			header := frame.getFrameHeader()
 			size := header.Bounds.Size
-			var dimShift int32
+			var vShift, hShift int32
 			if i >= ecStart {
+				var dimShift int32
 				if dimShift, err = header.ecChannelShift(frame.getGlobalMetadata(), i-ecStart); err != nil {
 					return nil, err
 				}
 				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
 				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
+				vShift, hShift = dimShift, dimShift
+			} else if header.DoYCbCr && ecStart == 3 {
+				vShift, hShift = header.jpegUpsamplingY[i], header.jpegUpsamplingX[i]
+				size.Height = util.CeilDiv(size.Height, 1<<vShift)
+				size.Width = util.CeilDiv(size.Width, 1<<hShift)
 			}
-			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
+			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), vShift, hShift, false))
 		}
 	} else {
 		//ms.channels = append(ms.channels, channelArray...)
-- 
2.43.0


From 3ac7528737b539682f022af91e1a278b273c181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 54/86] fix: read box sizes in containers as specified, box
 size 0 and 64 bit sizes failed or panicked

---
 core/read_jxl_boxes.go | 77 +++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 23 deletions(-)

diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..68f53a1 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -86,26 +87,35 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 		}
 
 		boxSize := makeTag(boxSizeArray, 0, 4)
+		headerSize := uint64(8)
+
+		err = br.reader.ReadBytesToBuffer(boxTag, 4)
+		if err != nil {
+			return nil, err
+		}
+		tag := makeTag(boxTag, 0, 4)
+
+		// 64 bit size follows the type.
 		if boxSize == 1 {
 			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
 			if err != nil {
 				return nil, err
 			}
 			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
-			}
+			headerSize = 16
 		}
-		if boxSize > 0 {
-			boxSize -= 8
+		if boxSize == 0 {
+			// extends to the end of the file.
+			if boxSize, err = br.bytesLeft(); err != nil {
+				return nil, err
+			}
+		} else {
+			if boxSize < headerSize || boxSize > math.MaxInt64 {
+				return nil, errors.New("invalid box size")
+			}
+			boxSize -= headerSize
 		}
 
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
-		if err != nil {
-			return nil, err
-		}
-		tag := makeTag(boxTag, 0, 4)
-
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
 		case JXLP:
@@ -114,6 +124,9 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			if err != nil {
 				return nil, err
 			}
+			if boxSize < 4 {
+				return nil, errors.New("invalid box size")
+			}
 			boxSize -= 4
 
 			// fileoffset...  directly from ReadSeeker?
@@ -171,25 +184,43 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 		default:
 			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+			s, err := br.SkipFully(int64(boxSize))
+			if err != nil {
+				return nil, err
+			}
+			if s != 0 {
+				return nil, errors.New("truncated extra box")
 			}
 		}
 	}
 }
 
+// bytesLeft is the number of bytes from the current position to the end of the file.
+func (br *BoxReader) bytesLeft() (uint64, error) {
+	pos, err := br.reader.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	end, err := br.reader.Seek(0, io.SeekEnd)
+	if err != nil {
+		return 0, err
+	}
+	if _, err = br.reader.Seek(pos, io.SeekStart); err != nil {
+		return 0, err
+	}
+	return uint64(max(end-pos, 0)), nil
+}
+
 // returns number of bytes that were NOT skipped.
 func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+	for i > 0 {
+		n, err := br.reader.Skip(uint32(min(i, math.MaxUint32)))
+		i -= n
+		if err != nil {
+			return i, err
+		}
+	}
+	return i, nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From 5388825556a8778c8a0ff6ef31f6a316472792f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 55/86] fix: join partial codestream boxes into one stream,
 image data that continues in the next box failed

---
 core/codestream_reader.go      | 76 ++++++++++++++++++++++++++++++++++
 core/jxl_codestream_decoder.go | 63 ++++++++++------------------
 core/read_jxl_boxes.go         |  4 ++
 3 files changed, 102 insertions(+), 41 deletions(-)
 create mode 100644 core/codestream_reader.go

diff --git a/core/codestream_reader.go b/core/codestream_reader.go
new file mode 100644
index 0000000..6ea3854
--- /dev/null
+++ b/core/codestream_reader.go
@@ -0,0 +1,76 @@
+package core
+
+import (
+	"errors"
+	"io"
+
+	"github.com/kpfaulkner/jxl-go/jxlio"
+)
+
+// codestreamReader presents the contents of the codestream boxes of a container
+// as one continuous stream.
+type codestreamReader struct {
+	reader jxlio.BitReader
+	boxes  []ContainerBoxHeader
+	size   int64
+
+	// position in the codestream and position of the underlying reader (-1: unknown).
+	pos       int64
+	readerPos int64
+}
+
+func newCodestreamReader(reader jxlio.BitReader, boxes []ContainerBoxHeader) *codestreamReader {
+	cr := &codestreamReader{reader: reader, boxes: boxes, readerPos: -1}
+	for _, box := range boxes {
+		cr.size += int64(box.BoxSize)
+	}
+	return cr
+}
+
+func (cr *codestreamReader) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	offset := cr.pos
+	for _, box := range cr.boxes {
+		if offset >= int64(box.BoxSize) {
+			offset -= int64(box.BoxSize)
+			continue
+		}
+
+		if filePos := box.Offset + offset; filePos != cr.readerPos {
+			if _, err := cr.reader.Seek(filePos, io.SeekStart); err != nil {
+				return 0, err
+			}
+			cr.readerPos = filePos
+		}
+
+		n := min(int64(len(p)), int64(box.BoxSize)-offset)
+		if err := cr.reader.ReadBytesToBuffer(p, uint32(n)); err != nil {
+			cr.readerPos = -1
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			return 0, err
+		}
+		cr.readerPos += n
+		cr.pos += n
+		return int(n), nil
+	}
+	return 0, io.EOF
+}
+
+func (cr *codestreamReader) Seek(offset int64, whence int) (int64, error) {
+	switch whence {
+	case io.SeekCurrent:
+		offset += cr.pos
+	case io.SeekEnd:
+		offset += cr.size
+	}
+	if offset < 0 {
+		return 0, errors.New("seek before start of codestream")
+	}
+	cr.pos = offset
+	return offset, nil
+}
diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index f11588e..c314091 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -27,6 +27,7 @@ type JXLCodestreamDecoder struct {
 	options        options.JXLOptions
 	level          int
 	foundSignature bool
+	container      bool // boxHeaders are boxes of a container
 }
 
 func NewJXLCodestreamDecoder(br jxlio.BitReader, opts *options.JXLOptions) *JXLCodestreamDecoder {
@@ -53,17 +54,7 @@ func (jxl *JXLCodestreamDecoder) atEnd() bool {
 func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 
 	// read header to get signature
-	err := jxl.ReadSignatureAndBoxes()
-	if err != nil {
-		return nil, err
-	}
-
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
+	err := jxl.openCodestream()
 	if err != nil {
 		return nil, err
 	}
@@ -84,13 +75,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 
 	// read header to get signature
-	err := jxl.ReadSignatureAndBoxes()
-	if err != nil {
-		return nil, err
-	}
-
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
+	err := jxl.openCodestream()
 	if err != nil {
 		return nil, err
 	}
@@ -132,29 +117,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	visibleFrames := 0
 	header := frame.FrameHeader{}
 
-	// If we have multiple box headers...  then we want to loop over from the second one.
-	// Need to also seek to that box offset.
-	ii := 0
-	shouldSeekBoxOffset := false
-	if len(jxl.boxHeaders) > 1 {
-		ii = 1
-		shouldSeekBoxOffset = true
-	}
-
-	for _, box := range jxl.boxHeaders[ii:] {
-
-		// only seek if we're not dealing with a single box.
-		if shouldSeekBoxOffset {
-			_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		if jxl.atEnd() {
-			return nil, nil
-		}
-
+	for !jxl.atEnd() {
 		for {
 			imgFrame := frame.NewFrameWithReader(jxl.bitReader, jxl.imageHeader, &jxl.options)
 			header, err = imgFrame.ReadFrameHeader()
@@ -297,6 +260,23 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	return nil, nil
 }
 
+// openCodestream positions the bit reader at the start of the codestream. The
+// codestream boxes of a container are read as one stream.
+func (jxl *JXLCodestreamDecoder) openCodestream() error {
+	if err := jxl.ReadSignatureAndBoxes(); err != nil {
+		return err
+	}
+	if len(jxl.boxHeaders) == 0 {
+		return errors.New("no codestream found")
+	}
+	if !jxl.container {
+		_, err := jxl.bitReader.Seek(0, io.SeekStart)
+		return err
+	}
+	jxl.bitReader = jxlio.NewBitStreamReader(newCodestreamReader(jxl.bitReader, jxl.boxHeaders))
+	return nil
+}
+
 // Read signature
 func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
@@ -308,6 +288,7 @@ func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
 	jxl.boxHeaders = boxHeaders
 	jxl.level = br.level
+	jxl.container = br.container
 	return nil
 }
 
diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 68f53a1..6a2c3b8 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -28,6 +28,9 @@ type ContainerBoxHeader struct {
 type BoxReader struct {
 	reader jxlio.BitReader
 	level  int
+
+	// set when the file is a container, not a bare codestream.
+	container bool
 }
 
 func NewBoxReader(reader jxlio.BitReader) *BoxReader {
@@ -63,6 +66,7 @@ func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 		return containerBoxHeaders, nil
 	}
 
+	br.container = true
 	if containerBoxHeaders, err = br.readAllBoxes(); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d7a687128315430ee1ceadb90a1b20fe84f6a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 56/86] fix: codestreams that end early gave neither an image
 nor an error

---
 core/jxl_codestream_decoder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index c314091..2bf268d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -60,7 +60,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -81,7 +81,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -257,7 +257,8 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return img, nil
 	}
 
-	return nil, nil
+	// the codestream ends before the first frame.
+	return nil, io.ErrUnexpectedEOF
 }
 
 // openCodestream positions the bit reader at the start of the codestream. The
-- 
2.43.0


From dcaf8782453107d9cf575e4693bf32f06da42670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:52 +0000
Subject: [PATCH 57/86] fix: codestreams shorter than the container signature
 were refused

---
 core/read_jxl_boxes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 6a2c3b8..76087c0 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -43,7 +43,8 @@ func NewBoxReader(reader jxlio.BitReader) *BoxReader {
 func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 	buffer := make([]byte, 12)
 	err := br.reader.ReadByteArrayWithOffsetAndLength(buffer, 0, 12)
-	if err != nil {
+	if err != nil && err != io.ErrUnexpectedEOF {
+		// (a bare codestream may be shorter than the container signature)
 		return nil, err
 	}
 
-- 
2.43.0


From 76c59f067485ef94226a9dad14b6ba70f994a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 58/86] fix: ParseOnly ran past the last frame and failed for
 every file

---
 core/jxl_codestream_decoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 2bf268d..9d3f3b4 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -126,7 +126,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 			frameCount++
 
-			if jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
+			if !jxl.options.ParseOnly && jxl.lfBuffer[header.LfLevel] == nil && header.Flags&frame.USE_LF_FRAME != 0 {
 				return nil, errors.New("LF level too large")
 			}
 
@@ -139,6 +139,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				if err := imgFrame.SkipFrameData(); err != nil {
 					return nil, err
 				}
+				if header.IsLast && header.Duration == 0 {
+					break
+				}
 				continue
 			}
 
-- 
2.43.0


From 7a9009b2648e6a8b240152d1cf03ec0be4f3e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:14 +0000
Subject: [PATCH 59/86] fix: a decoder whose header had been read could not
 decode

---
 core/jxl_codestream_decoder.go | 12 ++++++++++++
 jxlio/bitreader.go             |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 9d3f3b4..a364a9d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -28,6 +28,9 @@ type JXLCodestreamDecoder struct {
 	level          int
 	foundSignature bool
 	container      bool // boxHeaders are boxes of a container
+
+	// reader of the whole file, bitReader reads the codestream in it.
+	fileReader jxlio.BitReader
 }
 
 func NewJXLCodestreamDecoder(br jxlio.BitReader, opts *options.JXLOptions) *JXLCodestreamDecoder {
@@ -267,6 +270,15 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 // openCodestream positions the bit reader at the start of the codestream. The
 // codestream boxes of a container are read as one stream.
 func (jxl *JXLCodestreamDecoder) openCodestream() error {
+	// start again at the beginning when the header has been read before.
+	if jxl.fileReader == nil {
+		jxl.fileReader = jxl.bitReader
+	}
+	jxl.bitReader = jxl.fileReader
+	if _, err := jxl.bitReader.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+
 	if err := jxl.ReadSignatureAndBoxes(); err != nil {
 		return err
 	}
diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index a448f2e..0f73dca 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -68,6 +68,12 @@ func (br *BitStreamReader) Seek(offset int64, whence int) (int64, error) {
 	if err != nil {
 		return 0, err
 	}
+
+	// bits left of a partially read byte do not belong to the new position.
+	if whence != io.SeekCurrent {
+		br.index = 0
+		br.currentByte = 0
+	}
 	return n, err
 }
 
-- 
2.43.0


From e6967c2a56b867f67b957c8140cdd1caf67f6cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 60/86] fix: do not let a declared ICC size allocate memory the
 file cannot back

---
 bundle/image_header.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 699769d..9ea5540 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"math"
 	"slices"
 
 	"github.com/kpfaulkner/jxl-go/colour"
@@ -16,6 +15,9 @@ import (
 
 const (
 	CODESTREAM_HEADER uint32 = 0x0AFF
+
+	// maxEncodedICC is the largest accepted size of an encoded ICC profile
+	maxEncodedICC = 1 << 28
 )
 
 var (
@@ -335,11 +337,10 @@ func ParseImageHeader(reader jxlio.BitReader, level int32) (*ImageHeader, error)
 			return nil, err
 		}
 
-		// check MaxUint32 or MaxInt32
-		if encodedSize > math.MaxUint32 {
+		if encodedSize > maxEncodedICC {
 			return nil, errors.New("Invalid encoded Size")
 		}
-		header.EncodedICC = make([]byte, encodedSize)
+		header.EncodedICC = []byte{}
 		iccDistribution, err := entropy.NewEntropyStreamWithReaderAndNumDists(reader, 41, entropy.ReadClusterMap)
 		if err != nil {
 			return nil, err
@@ -349,7 +350,11 @@ func ParseImageHeader(reader jxlio.BitReader, level int32) (*ImageHeader, error)
 			if err != nil {
 				return nil, err
 			}
-			header.EncodedICC[i] = byte(cc)
+			header.EncodedICC = append(header.EncodedICC, byte(cc))
+			// the symbols may take no bits at all, do not let a few bytes stand for a huge profile
+			if i&0xFFFF == 0xFFFF && uint64(i) > 256*(reader.GetBitsCount()>>3) {
+				return nil, errors.New("ICC Stream")
+			}
 		}
 		if !iccDistribution.ValidateFinalState() {
 			return nil, errors.New("ICC Stream")
-- 
2.43.0


From 7df1d42a20608315109d3de60cc64d6200496bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 61/86] fix: ICC bytes shuffled when their number is no
 multiple of the width

---
 bundle/image_header.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 9ea5540..f1cbd58 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -681,10 +681,16 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 
 func shuffle(buffer []byte, width int32) []byte {
 
-	height := int32(util.CeilDiv(uint32(len(buffer)), uint32(width)))
+	height := util.CeilDiv(uint32(len(buffer)), uint32(width))
 	result := make([]byte, len(buffer))
-	for i := int32(0); i < int32(len(buffer)); i++ {
-		result[(i%height)*width+(i/height)] = buffer[i]
+	start, pos := uint32(0), uint32(0)
+	for i := range result {
+		result[i] = buffer[pos]
+		pos += height
+		if pos >= uint32(len(buffer)) {
+			start++
+			pos = start
+		}
 	}
 	return result
 }
-- 
2.43.0


From f336fd7ebf085dda3fc0015e55ec3e6a1a7824ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 62/86] fix: ICC profiles without tag list, short profiles, and
 malformed profiles

---
 bundle/image_header.go | 383 ++++++++++++++++++++++-------------------
 jxlio/bitreader.go     |   9 +-
 2 files changed, 216 insertions(+), 176 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index f1cbd58..45cb84a 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -2,8 +2,10 @@ package bundle
 
 import (
 	"bytes"
+	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"slices"
 
 	"github.com/kpfaulkner/jxl-go/colour"
@@ -407,50 +409,105 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		return nil, nil
 	}
 
+	decoded, err := h.decodeICC()
+	if err != nil {
+		return nil, err
+	}
+	h.DecodedICC = decoded
+	return h.DecodedICC, nil
+}
+
+// maxICCExpansion is the most bytes of profile a single byte of the encoded stream can
+// yield: a tag command writes three entries of 12 bytes each.
+const maxICCExpansion = 36
+
+// decodeICC rebuilds the ICC profile from the commands and data of EncodedICC.
+func (h *ImageHeader) decodeICC() ([]byte, error) {
+
 	commandReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC))
-	outputSize, err := commandReader.ReadICCVarint()
+	outputSize, err := readICCSize(commandReader)
 	if err != nil {
 		return nil, err
 	}
-	commandSize, err := commandReader.ReadICCVarint()
+	if outputSize > maxICCExpansion*int64(len(h.EncodedICC)) {
+		return nil, errors.New("ICC profile size too large")
+	}
+	commandSize, err := readICCSize(commandReader)
 	if err != nil {
 		return nil, err
 	}
 
-	commandStart := int32(commandReader.GetBitsCount() >> 3)
+	commandStart := int64(commandReader.GetBitsCount() >> 3)
 	dataStart := commandStart + commandSize
-	dataReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[dataStart:]))
-	headerSize := util.Min(128, outputSize)
-	h.DecodedICC = make([]byte, outputSize)
-	resultPos := int32(0)
+	if dataStart > int64(len(h.EncodedICC)) {
+		return nil, errors.New("ICC commands exceed the ICC stream")
+	}
+	data := h.EncodedICC[dataStart:]
 
-	for i := int32(0); i < headerSize; i++ {
-		e, err := dataReader.ReadBits(8)
-		if err != nil {
-			return nil, err
+	// commandPos is the position of commandReader in EncodedICC.
+	commandPos := func() int64 {
+		return int64(commandReader.GetBitsCount() >> 3)
+	}
+	result := make([]byte, 0, outputSize)
+	// write appends to the profile, which cannot outgrow its declared size.
+	write := func(b ...byte) error {
+		if int64(len(b)) > outputSize-int64(len(result)) {
+			return errors.New("ICC profile exceeds its size")
 		}
-		p := h.GetICCPrediction(h.DecodedICC, i)
-		h.DecodedICC[resultPos] = byte(int32(e)+p) & 0xFF
-		resultPos++
+		result = append(result, b...)
+		return nil
 	}
-	if resultPos == outputSize {
-		return h.DecodedICC, nil
+	readData := func(n int64) ([]byte, error) {
+		if n > int64(len(data)) {
+			return nil, errors.New("ICC data exhausted")
+		}
+		b := data[:n]
+		data = data[n:]
+		return b, nil
+	}
+	// finish checks that everything was used and the profile is complete.
+	finish := func() ([]byte, error) {
+		if commandPos() != dataStart {
+			return nil, errors.New("ICC commands not used up")
+		}
+		if len(data) != 0 {
+			return nil, errors.New("ICC data not used up")
+		}
+		if int64(len(result)) != outputSize {
+			return nil, errors.New("ICC profile size mismatch")
+		}
+		return result, nil
 	}
 
-	tagCount, err := commandReader.ReadICCVarint()
+	headerSize := min(128, outputSize)
+	headerData, err := readData(headerSize)
 	if err != nil {
 		return nil, err
 	}
-	tagCount--
+	for i, e := range headerData {
+		p := h.GetICCPrediction(result[:outputSize], int32(i))
+		result = append(result, byte(int32(e)+p))
+	}
+	if int64(len(result)) == outputSize {
+		return finish()
+	}
 
-	if tagCount >= 0 {
-		for i := 24; i >= 0; i -= 8 {
-			h.DecodedICC[resultPos] = byte(tagCount>>i) & 0xFF
-			resultPos++
+	tagCount, err := readICCVarint(commandReader)
+	if err != nil {
+		return nil, err
+	}
+	if commandPos() > dataStart {
+		return nil, errors.New("ICC commands exhausted")
+	}
+
+	if tagCount > 0 {
+		tagCount--
+		if err := write(binary.BigEndian.AppendUint32(nil, uint32(tagCount))...); err != nil {
+			return nil, err
 		}
 		prevTagStart := 128 + tagCount*12
-		prevTagSize := int32(0)
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		prevTagSize := uint64(0)
+		for commandPos() < dataStart {
 			command, err := commandReader.ReadBits(8)
 			if err != nil {
 				return nil, err
@@ -460,44 +517,37 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				break
 			}
 			var tag string
-			var tcr []byte
 			if tagCode == 1 {
-				tcr = make([]byte, 4)
-				for i := 0; i < 4; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					tcr[i] = byte(dat)
+				tcr, err := readData(4)
+				if err != nil {
+					return nil, err
 				}
 				tag = string(tcr)
 			} else if tagCode == 2 {
 				tag = "rTRC"
 			} else if tagCode == 3 {
 				tag = "rXYZ"
-			} else if tagCode >= 4 && tagCode <= 21 {
+			} else if tagCode-4 < uint64(len(iccTags)) {
 				tag = iccTags[tagCode-4]
 			} else {
 				return nil, errors.New("illegal ICC tag code")
 			}
 
-			var tagStart int32
-			var tagSize int32
+			var tagStart uint64
+			var tagSize uint64
 			if command&0x40 > 0 {
-				dat, err := commandReader.ReadICCVarint()
+				tagStart, err = readICCVarint(commandReader)
 				if err != nil {
 					return nil, err
 				}
-				tagStart = dat
 			} else {
 				tagStart = prevTagStart + prevTagSize
 			}
 			if command&0x80 > 0 {
-				dat, err := commandReader.ReadICCVarint()
+				tagSize, err = readICCVarint(commandReader)
 				if err != nil {
 					return nil, err
 				}
-				tagSize = dat
 			} else {
 				if slices.Contains([]string{"rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi"}, tag) {
 					tagSize = 20
@@ -517,166 +567,150 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				tags = []string{tag}
 			}
 			for _, wTag := range tags {
-				tcr = []byte(wTag)
-				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = tcr[i] & 0xFF
-					resultPos++
-				}
-				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagStart>>i) & 0xFF
-					resultPos++
+				if tagStart > math.MaxUint32 {
+					return nil, errors.New("illegal ICC tag offset")
 				}
-				for i := 24; i >= 0; i -= 8 {
-					h.DecodedICC[resultPos] = byte(tagSize>>i) & 0xFF
-					resultPos++
+				entry := []byte(wTag)
+				entry = binary.BigEndian.AppendUint32(entry, uint32(tagStart))
+				entry = binary.BigEndian.AppendUint32(entry, uint32(tagSize))
+				if err := write(entry...); err != nil {
+					return nil, err
 				}
 				if tagCode == 3 {
 					tagStart += tagSize
 				}
 			}
 		}
+	}
 
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
-			command, err := commandReader.ReadBits(8)
+	for commandPos() < dataStart {
+		command, err := commandReader.ReadBits(8)
+		if err != nil {
+			return nil, err
+		}
+		if command == 1 {
+			num, err := readICCSize(commandReader)
 			if err != nil {
 				return nil, err
 			}
-			if command == 1 {
-				num, err := commandReader.ReadICCVarint()
-				if err != nil {
-					return nil, err
-				}
-				for i := 0; i < int(num); i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					h.DecodedICC[resultPos] = byte(dat)
-					resultPos++
-				}
-			} else if command == 2 || command == 3 {
-				num, err := commandReader.ReadICCVarint()
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			if err := write(b...); err != nil {
+				return nil, err
+			}
+		} else if command == 2 || command == 3 {
+			num, err := readICCSize(commandReader)
+			if err != nil {
+				return nil, err
+			}
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			var width int32
+			if command == 2 {
+				width = 2
+			} else {
+				width = 4
+			}
+			if err := write(shuffle(b, width)...); err != nil {
+				return nil, err
+			}
+		} else if command == 4 {
+			flags, err := commandReader.ReadBits(8)
+			if err != nil {
+				return nil, err
+			}
+			width := int64((flags & 3) + 1)
+			if width == 3 {
+				return nil, errors.New("illegal width is 3")
+			}
+			order := int64(flags&12) >> 2
+			if order == 3 {
+				return nil, errors.New("illegal order is 3")
+			}
+			stride := width
+			if flags&0x10 > 0 {
+				stride, err = readICCSize(commandReader)
 				if err != nil {
 					return nil, err
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
+			}
+			if stride*4 >= int64(len(result)) {
+				return nil, errors.New("stride too large")
+			}
+			if stride < width {
+				return nil, errors.New("stride too small")
+			}
+			num, err := readICCSize(commandReader)
+			if err != nil {
+				return nil, err
+			}
+			b, err := readData(num)
+			if err != nil {
+				return nil, err
+			}
+			if width == 2 || width == 4 {
+				b = shuffle(b, int32(width))
+			}
+			for i := int64(0); i < num; i += width {
+				var prev [3]int32
+				for j := int64(0); j <= order; j++ {
+					for k := int64(0); k < width; k++ {
+						prev[j] = prev[j] << 8
+						prev[j] = prev[j] | int32(result[int64(len(result))-stride*(j+1)+k])
 					}
-					b[p] = byte(dat)
 				}
-				var width int32
-				if command == 2 {
-					width = 2
+				var p int32
+				if order == 0 {
+					p = prev[0]
+				} else if order == 1 {
+					p = 2*prev[0] - prev[1]
 				} else {
-					width = 4
-				}
-				b = shuffle(b, width)
-				copy(h.DecodedICC[resultPos:], b)
-				resultPos += int32(len(b))
-			} else if command == 4 {
-				flags, err := commandReader.ReadBits(8)
-				if err != nil {
-					return nil, err
-				}
-				width := int32((flags & 3) + 1)
-				if width == 3 {
-					return nil, errors.New("illegal width is 3")
-				}
-				order := int32(flags&12) >> 2
-				if order == 3 {
-					return nil, errors.New("illegal order is 3")
-				}
-				var stride int32
-				if flags&0x10 > 0 {
-					dat, err := commandReader.ReadICCVarint()
-					if err != nil {
-						return nil, err
-					}
-					stride = dat
-				} else {
-					stride = int32(width)
-				}
-				if stride*4 >= resultPos {
-					return nil, errors.New("stride too large")
-				}
-				if stride < int32(width) {
-					return nil, errors.New("stride too small")
-				}
-				num, err := commandReader.ReadICCVarint()
-				if err != nil {
-					return nil, err
+					p = 3*prev[0] - 3*prev[1] + prev[2]
 				}
-				b := make([]byte, num)
-				for p := 0; p < int(num); p++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
-						return nil, err
-					}
-					b[p] = byte(dat)
-				}
-				if width == 2 || width == 4 {
-					b = shuffle(b, int32(width))
-				}
-				for i := int32(0); i < num; i += width {
-					n := order + 1
-					prev := make([]int32, n)
-					for j := int32(0); j < n; j++ {
-						for k := int32(0); k < width; k++ {
-							prev[j] = prev[j] << 8
-							prev[j] = prev[j] | int32(h.DecodedICC[resultPos-stride*(j+1)+k]&0xFF)
-						}
-					}
-					var p int32
-					if order == 0 {
-						p = prev[0]
-					} else if order == 1 {
-						p = 2*prev[0] - prev[1]
-					} else {
-						p = 3*prev[0] - 3*prev[1] + prev[2]
-					}
 
-					for j := int32(0); j < width && i+j < num; j++ {
-						h.DecodedICC[resultPos] = ((b[i+j] + byte(p>>(8*(width-1-j)))) & 0xFF)
-						resultPos++
-					}
-				}
-			} else if command == 10 {
-				h.DecodedICC[resultPos] = 'X'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Y'
-				resultPos++
-				h.DecodedICC[resultPos] = 'Z'
-				resultPos++
-				h.DecodedICC[resultPos] = ' '
-				resultPos++
-				resultPos += 4
-				for i := 0; i < 12; i++ {
-					dat, err := dataReader.ReadBits(8)
-					if err != nil {
+				for j := int64(0); j < width && i+j < num; j++ {
+					if err := write(b[i+j] + byte(p>>(8*(width-1-j)))); err != nil {
 						return nil, err
 					}
-					h.DecodedICC[resultPos] = byte(dat)
-					resultPos++
-				}
-			} else if command >= 16 && command < 24 {
-				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
-				trc := []byte(s[command-16])
-				for i := 0; i < 4; i++ {
-					h.DecodedICC[resultPos] = trc[i]
-					resultPos++
 				}
-				resultPos += 4
-
-			} else {
-				return nil, errors.New("illegal data command")
 			}
+		} else if command == 10 {
+			b, err := readData(12)
+			if err != nil {
+				return nil, err
+			}
+			if err := write('X', 'Y', 'Z', ' ', 0, 0, 0, 0); err != nil {
+				return nil, err
+			}
+			if err := write(b...); err != nil {
+				return nil, err
+			}
+		} else if command >= 16 && command < 24 {
+			s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
+			if err := write(append([]byte(s[command-16]), 0, 0, 0, 0)...); err != nil {
+				return nil, err
+			}
+		} else {
+			return nil, errors.New("illegal data command")
 		}
 	}
 
-	return h.DecodedICC, nil
+	return finish()
+}
+
+// readICCVarint reads a variable length number, of at most 32 bits, of the ICC stream.
+func readICCVarint(reader jxlio.BitReader) (uint64, error) {
+	v, err := reader.ReadICCVarint()
+	return uint64(uint32(v)), err
+}
+
+func readICCSize(reader jxlio.BitReader) (int64, error) {
+	v, err := readICCVarint(reader)
+	return int64(v), err
 }
 
 func shuffle(buffer []byte, width int32) []byte {
@@ -944,6 +978,9 @@ func (h *ImageHeader) GetICCPrediction(buffer []byte, i int32) int32 {
 	if i >= 36 && i <= 39 {
 		return int32(ACSP[i-36])
 	}
+	if i <= 40 {
+		return 0
+	}
 	if buffer[40] == 'A' {
 		if i == 41 || i == 42 {
 			return 'P'
diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 0f73dca..c02e83b 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -252,18 +252,21 @@ func (br *BitStreamReader) ReadF16() (float32, error) {
 }
 
 func (br *BitStreamReader) ReadICCVarint() (int32, error) {
-	value := int32(0)
+	value := uint64(0)
 	for shift := 0; shift < 63; shift += 7 {
 		b, err := br.ReadBits(8)
 		if err != nil {
 			return 0, err
 		}
-		value |= int32(b) & 127 << shift
+		value |= b & 127 << shift
 		if b <= 127 {
 			break
 		}
 	}
-	return value, nil
+	if value > math.MaxUint32 {
+		return 0, errors.New("ICC varint exceeds 32 bits")
+	}
+	return int32(uint32(value)), nil
 }
 
 func (br *BitStreamReader) ReadU32(c0 int, u0 int, c1 int, u1 int, c2 int, u2 int, c3 int, u3 int) (uint32, error) {
-- 
2.43.0


From dc6a7aae08d472eb1d4a7606dc578a3d114e51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 63/86] fix: NewJXLImageFromJXLImage left out the samples

---
 core/jxl_image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..c353883 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -101,7 +101,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
-- 
2.43.0


From 9ff68b3a171f241a0d2c7958eca36232c297c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 64/86] fix: integer samples were scaled by the bit depth
 instead of the largest value before a transfer function

---
 core/jxl_image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index c353883..2c8839d 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -547,7 +547,7 @@ func (jxl *JXLImage) transferInPlace(transferFunction func(float64) float64) err
 
 	buffers := util.MakeMatrix3D[float32](colours, 0, 0)
 	for c := 0; c < colours; c++ {
-		if err := jxl.Buffer[c].CastToFloatIfMax(int32(jxl.bitDepths[c])); err != nil {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
 			return err
 		}
 		buffers[c] = jxl.Buffer[c].FloatBuffer
-- 
2.43.0


From 4f9c616fc1bd3480949f9036cd2ebdf7e2f7712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 65/86] fix: PQ to linear had a wrong sign, DCI was no gamma
 2.6, gamma of negative samples was NaN

---
 colour/colour_management.go |  3 ++-
 colour/transfer_function.go | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/colour/colour_management.go b/colour/colour_management.go
index 4e3a4fd..25a5037 100644
--- a/colour/colour_management.go
+++ b/colour/colour_management.go
@@ -123,7 +123,8 @@ func GetTransferFunction(transfer int32) (TransferFunction, error) {
 	case TF_BT709:
 		return BT709TransferFunction{}, nil
 	case TF_DCI:
-		return NewGammaTransferFunction(transfer), nil
+		// gamma 2.6
+		return NewGammaTransferFunction(3846154), nil
 	case TF_HLG:
 		return nil, errors.New("Not implemented")
 	}
diff --git a/colour/transfer_function.go b/colour/transfer_function.go
index de9f6e0..41924e8 100644
--- a/colour/transfer_function.go
+++ b/colour/transfer_function.go
@@ -52,12 +52,12 @@ type PQTransferFunction struct {
 }
 
 func (tf PQTransferFunction) ToLinear(input float64) float64 {
-	d := math.Pow(input, 0.012683313515655965121)
-	return math.Pow((d-0.8359375)/(18.8515625+18.6875*d), 6.2725880551301684533)
+	d := math.Pow(math.Max(input, 0), 0.012683313515655965121)
+	return math.Pow(math.Max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.2725880551301684533)
 }
 
 func (tf PQTransferFunction) FromLinear(input float64) float64 {
-	d := math.Pow(input, 0.159423828125)
+	d := math.Pow(math.Max(input, 0), 0.159423828125)
 	return math.Pow((0.8359375+18.8515625*d)/(1.0+18.6875*d), 78.84375)
 }
 
@@ -74,9 +74,9 @@ func NewGammaTransferFunction(transfer int32) GammaTransferFunction {
 }
 
 func (tf GammaTransferFunction) ToLinear(input float64) float64 {
-	return math.Pow(input, tf.inverseGamma)
+	return math.Pow(math.Max(input, 0), tf.inverseGamma)
 }
 
 func (tf GammaTransferFunction) FromLinear(input float64) float64 {
-	return math.Pow(input, tf.gamma)
+	return math.Pow(math.Max(input, 0), tf.gamma)
 }
-- 
2.43.0


From b64466923d361ac9fdd0b735c1afb035f950ccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 66/86] fix: images whose colours are not already linear or
 sRGB panicked in the outputs

linearize was not implemented, the gamut was never converted, PQ ignored the intensity target
---
 core/jxl_image.go | 57 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 2c8839d..957eaca 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -379,7 +379,8 @@ func (jxl *JXLImage) isHDR() bool {
 
 func (jxl *JXLImage) transform(primaries *colour.CIEPrimaries, whitePoint *colour.CIEXY, transfer int32, peakDetect int32) (*JXLImage, error) {
 
-	if primaries.Matches(jxl.primariesXY) && whitePoint.Matches(jxl.whiteXY) {
+	// gray is neutral whatever the primaries and the white point
+	if jxl.ColorEncoding == colour.CE_GRAY || primaries.Matches(jxl.primariesXY) && whitePoint.Matches(jxl.whiteXY) {
 		return jxl.transferImage(transfer, peakDetect)
 	}
 
@@ -389,7 +390,7 @@ func (jxl *JXLImage) transform(primaries *colour.CIEPrimaries, whitePoint *colou
 		return nil, err
 	}
 
-	if err := img.toneMapLinear(); err != nil {
+	if err := img.toneMapLinear(primaries, whitePoint); err != nil {
 		return nil, err
 	}
 
@@ -519,23 +520,69 @@ func (jxl *JXLImage) transferImage(transfer int32, peakDetect int32) (*JXLImage,
 	if err != nil {
 		return nil, err
 	}
-	if err := img.transferInPlace(transferFunction.FromLinear); err != nil {
+	scale := img.pqScale(transfer)
+	if err := img.transferInPlace(func(v float64) float64 { return transferFunction.FromLinear(v * scale) }); err != nil {
 		return nil, err
 	}
+	img.transfer = transfer
 
 	return img, nil
 }
 
+// pqScale is the factor from linear samples, where 1.0 is the intensity target, to the
+// light the transfer function works on: PQ is absolute and 1.0 stands for 10000 nits.
+func (jxl *JXLImage) pqScale(transfer int32) float64 {
+	if transfer != colour.TF_PQ {
+		return 1
+	}
+	return float64(jxl.imageHeader.ToneMapping.GetIntensityTarget()) / 10000
+}
+
 func (jxl *JXLImage) linearize() (*JXLImage, error) {
 
 	if jxl.transfer == colour.TF_LINEAR {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	transferFunction, err := colour.GetTransferFunction(jxl.transfer)
+	if err != nil {
+		return nil, err
+	}
+	img, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
+	}
+	scale := 1 / jxl.pqScale(jxl.transfer)
+	if err := img.transferInPlace(func(v float64) float64 { return transferFunction.ToLinear(v) * scale }); err != nil {
+		return nil, err
+	}
+	img.transfer = colour.TF_LINEAR
+	return img, nil
 }
 
-func (jxl *JXLImage) toneMapLinear() error {
+// toneMapLinear converts the linear colours to other primaries and white point.
+func (jxl *JXLImage) toneMapLinear(primaries *colour.CIEPrimaries, whitePoint *colour.CIEXY) error {
+	matrix, err := colour.GetConversionMatrix(*primaries, *whitePoint, *jxl.primariesXY, *jxl.whiteXY)
+	if err != nil {
+		return err
+	}
+	var buffers [3][][]float32
+	for c := range buffers {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
+			return err
+		}
+		buffers[c] = jxl.Buffer[c].FloatBuffer
+	}
+	for y := 0; y < int(jxl.Height); y++ {
+		for x := 0; x < int(jxl.Width); x++ {
+			r, g, b := buffers[0][y][x], buffers[1][y][x], buffers[2][y][x]
+			for c := range buffers {
+				buffers[c][y][x] = matrix[c][0]*r + matrix[c][1]*g + matrix[c][2]*b
+			}
+		}
+	}
+	jxl.primariesXY = primaries
+	jxl.whiteXY = whitePoint
 	return nil
 }
 
-- 
2.43.0


From ab5c382476f7af3fe37cbe4b834a84c71fe0047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 67/86] fix: outputs changed the image, and lost alpha, depth
 and samples

ToImage, WritePNG, WritePFM and ChannelToImage work on copies of the samples. Alpha is taken
from the alpha channel wherever it is and premultiplied colours are divided by it, Go images
have 16 bits per sample for deep images, PNG samples have the depth the header announces, HDR
PNGs are tagged with cICP instead of an empty profile, and integer images can be written as PFM.
---
 core/jxl_image.go  | 335 ++++++++++++++++++++-------------------------
 core/pfm_writer.go |  18 +--
 core/png_writer.go | 212 +++++++---------------------
 3 files changed, 209 insertions(+), 356 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 957eaca..8167125 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -3,6 +3,7 @@ package core
 import (
 	"fmt"
 	"image"
+	"image/color"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
 	"github.com/kpfaulkner/jxl-go/colour"
@@ -179,200 +180,200 @@ func (jxl *JXLImage) NumExtraChannels() int {
 // Can be used for any channel (R,G,B, alpha, depth..... etc) but is really expected to be
 // used for NON "regular" channels (ie depth etc)
 func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
-	buffer, err := jxl.getBuffer(true)
-	if err != nil {
-		return nil, err
-	}
-	if channelNo < 0 || channelNo >= len(buffer) {
+	if channelNo < 0 || channelNo >= len(jxl.Buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
-	pix := img.Pix
-	dx := img.Bounds().Dx()
-	dy := img.Bounds().Dy()
-	pos := 0
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-
-				// Assumption of 8 bits per channel. Will do for now.
-				pix[pos] = uint8(buffer[channelNo].FloatBuffer[y][x] * 255)
-				pos++
-			}
-		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[channelNo].IntBuffer[y][x])
-				pos++
-			}
+	buffer := image2.NewImageBufferFromImageBuffer(&jxl.Buffer[channelNo], true)
+	if err := toIntSamples(buffer, jxl.bitDepths[channelNo], 8); err != nil {
+		return nil, err
+	}
+	img := image.NewGray(image.Rect(0, 0, int(buffer.Width), int(buffer.Height)))
+	for y, row := range buffer.IntBuffer {
+		for x, v := range row {
+			img.Pix[y*img.Stride+x] = uint8(v)
 		}
 	}
 	return img, nil
 }
 
-// ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
+// ToImage converts to a standard Go image.Image: Gray for gray images without alpha, NRGBA
+// for the R,G,B and alpha channels otherwise, with 16 bits per sample for images which have
+// more than 8 bits and HDR images.
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
-
-	//gray := jxlImage.ColourEncoding == color.CE_GRAY
-	primaries := colour.CM_PRI_SRGB
-	tf := colour.TF_SRGB
-	if jxl.isHDR() {
-		primaries = colour.CM_PRI_BT2100
-		tf = colour.TF_PQ
-	}
-	whitePoint := colour.CM_WP_D65
-	iccProfile := jxl.iccProfile
-	var err error
-	if iccProfile == nil {
-		// transforms in place
-		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
-		if err != nil {
-			return nil, err
-		}
-		jxl = img
-	}
-	maxValue := int32(^(^0 << bitDepth))
-	coerce := jxl.alphaIsPremultiplied
-	buffer, err := jxl.getBuffer(false)
+	bitDepth := outputBitDepth(&jxl.imageHeader)
+	buffer, err := jxl.outputSamples(bitDepth)
 	if err != nil {
 		return nil, err
 	}
-	if !coerce {
-		for c := 0; c < len(buffer); c++ {
-			if buffer[c].IsInt() && jxl.bitDepths[c] != uint32(bitDepth) {
-				coerce = true
-				break
-			}
-		}
+
+	rect := image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height))
+	var img image.Image
+	var pix []byte
+	channels := []int{0}
+	switch OutputColorModel(&jxl.imageHeader) {
+	case color.GrayModel:
+		m := image.NewGray(rect)
+		img, pix = m, m.Pix
+	case color.Gray16Model:
+		m := image.NewGray16(rect)
+		img, pix = m, m.Pix
+	case color.NRGBAModel:
+		m := image.NewNRGBA(rect)
+		img, pix = m, m.Pix
+		channels = jxl.nrgbaChannels()
+	default:
+		m := image.NewNRGBA64(rect)
+		img, pix = m, m.Pix
+		channels = jxl.nrgbaChannels()
 	}
-	if coerce {
-		for c := 0; c < len(buffer); c++ {
-			if err := buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
-				return nil, err
+
+	pos := 0
+	for y := 0; y < rect.Dy(); y++ {
+		for x := 0; x < rect.Dx(); x++ {
+			for _, c := range channels {
+				v := int32(0xFFFF)
+				if c >= 0 {
+					v = buffer[c].IntBuffer[y][x]
+				}
+				if bitDepth > 8 {
+					pix[pos] = uint8(v >> 8)
+					pos++
+				}
+				pix[pos] = uint8(v)
+				pos++
 			}
 		}
 	}
-	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+	return img, nil
+}
+
+// nrgbaChannels returns which of the output samples are red, green, blue and alpha. -1 is opaque.
+func (jxl *JXLImage) nrgbaChannels() []int {
+	colours := jxl.colourCount()
+	alpha := -1
+	if jxl.alphaIndex >= 0 {
+		alpha = colours
 	}
-	for c := 0; c < len(buffer); c++ {
-		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
-			if err := buffer[c].Clamp(maxValue); err != nil {
-				return nil, err
-			}
-		} else {
-			if err := buffer[c].CastToIntIfMax(maxValue); err != nil {
-				return nil, err
-			}
-		}
+	if colours == 1 {
+		return []int{0, 0, 0, alpha}
 	}
+	return []int{0, 1, 2, alpha}
+}
 
-	var img image.Image
-	colourCount := jxl.imageHeader.GetColourChannelCount()
-	if colourCount == 1 {
-		img = jxl.createGrayScaleImage(buffer)
-	} else {
-		img = jxl.create24BitImage(buffer)
+func (jxl *JXLImage) colourCount() int {
+	return util.IfThenElse(jxl.ColorEncoding == colour.CE_GRAY, 1, 3)
+}
+
+// OutputColorModel is the colour model of the Go image for an image with the given header.
+func OutputColorModel(header *bundle.ImageHeader) color.Model {
+	gray := header.ColourEncoding.ColourEncoding == colour.CE_GRAY && !header.HasAlpha()
+	if outputBitDepth(header) == 8 {
+		return util.IfThenElse(gray, color.GrayModel, color.NRGBAModel)
 	}
-	return img, nil
+	return util.IfThenElse(gray, color.Gray16Model, color.NRGBA64Model)
 }
 
-func (jxl *JXLImage) createGrayScaleImage(buffer []image2.ImageBuffer) image.Image {
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
-	pix := img.Pix
-	dx := img.Bounds().Dx()
-	dy := img.Bounds().Dy()
-	pos := 0
+// outputBitDepth is the number of bits per sample in PNG files and Go images.
+func outputBitDepth(header *bundle.ImageHeader) int32 {
+	if headerIsHDR(header) || header.BitDepth.BitsPerSample > 8 {
+		return 16
+	}
+	return 8
+}
 
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
+// outputSamples returns the colour channels and the alpha channel, if there is one, as
+// integers of the given depth. Images without an ICC profile are converted to sRGB, or
+// to BT.2100 PQ if they are HDR. The image itself is left as it is.
+func (jxl *JXLImage) outputSamples(bitDepth int32) ([]image2.ImageBuffer, error) {
 
-				// assumption of 8 bits per channel but only 1 channel (grayscale)
-				pix[pos] = uint8(buffer[0].FloatBuffer[y][x] * 255)
-				pos++
+	img, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
+	}
+	if img.alphaIsPremultiplied {
+		if img, err = img.unpremultiply(); err != nil {
+			return nil, err
+		}
+	}
 
-			}
+	if img.iccProfile == nil {
+		primaries := colour.CM_PRI_SRGB
+		tf := colour.TF_SRGB
+		if img.isHDR() {
+			primaries = colour.CM_PRI_BT2100
+			tf = colour.TF_PQ
 		}
-	} else {
+		if img, err = img.transform(primaries, colour.CM_WP_D65, tf, PEAK_DETECT_AUTO); err != nil {
+			return nil, err
+		}
+	}
 
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[0].IntBuffer[y][x])
-				pos++
-			}
+	colours := img.colourCount()
+	channels := []int{0, 1, 2}[:colours]
+	if img.alphaIndex >= 0 {
+		channels = append(channels, colours+int(img.alphaIndex))
+	}
+	buffers := make([]image2.ImageBuffer, len(channels))
+	for i, c := range channels {
+		if err := toIntSamples(&img.Buffer[c], img.bitDepths[c], bitDepth); err != nil {
+			return nil, err
 		}
+		buffers[i] = img.Buffer[c]
 	}
-	return img
+	return buffers, nil
 }
 
-func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
-	img := image.NewNRGBA(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
-	pix := img.Pix
-	dx := img.Bounds().Dx()
-	dy := img.Bounds().Dy()
-	pos := 0
-
-	if buffer[0].IsFloat() {
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
+// toIntSamples converts the samples in place to integers of the output depth.
+func toIntSamples(buffer *image2.ImageBuffer, depth uint32, outputDepth int32) error {
+	maxValue := int32(^(^0 << outputDepth))
+	if buffer.IsInt() && depth == uint32(outputDepth) {
+		return buffer.Clamp(maxValue)
+	}
+	if err := buffer.CastToFloatIfMax(^(^0 << depth)); err != nil {
+		return err
+	}
+	return buffer.CastToIntIfMax(maxValue)
+}
 
-				// assumption of 8 bits per channel.
-				pix[pos] = uint8(buffer[0].FloatBuffer[y][x] * 255)
-				pos++
-				pix[pos] = uint8(buffer[1].FloatBuffer[y][x] * 255)
-				pos++
-				pix[pos] = uint8(buffer[2].FloatBuffer[y][x] * 255)
-				pos++
+// unpremultiply divides the colours by alpha. Associated alpha refers to the colours
+// in the colour space of the image.
+func (jxl *JXLImage) unpremultiply() (*JXLImage, error) {
 
-				if jxl.imageHeader.HasAlpha() {
-					// FIXME(kpfaulkner) deal with alpha channels properly
-					pix[pos] = 255 // uint8(buffer[3].FloatBuffer[y][x] * 255)
-					pos++
-				} else {
-					pos++
-				}
-			}
+	img, err := jxl.transferImage(jxl.taggedTransfer, PEAK_DETECT_OFF)
+	if err != nil {
+		return nil, err
+	}
+	colours := img.colourCount()
+	alpha := &img.Buffer[colours+int(img.alphaIndex)]
+	if err := alpha.CastToFloatIfMax(^(^0 << img.bitDepths[colours+int(img.alphaIndex)])); err != nil {
+		return nil, err
+	}
+	for c := 0; c < colours; c++ {
+		if err := img.Buffer[c].CastToFloatIfMax(^(^0 << img.bitDepths[c])); err != nil {
+			return nil, err
 		}
-	} else {
-
-		for y := 0; y < dy; y++ {
-			for x := 0; x < dx; x++ {
-				pix[pos] = uint8(buffer[0].IntBuffer[y][x])
-				pos++
-				pix[pos] = uint8(buffer[1].IntBuffer[y][x])
-				pos++
-				pix[pos] = uint8(buffer[2].IntBuffer[y][x])
-				pos++
-
-				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
-					pos++
-				} else {
-					pix[pos] = 255
-					pos++
+		for y, row := range img.Buffer[c].FloatBuffer {
+			for x := range row {
+				if a := alpha.FloatBuffer[y][x]; a > 0 {
+					row[x] /= a
 				}
 			}
 		}
 	}
-	return img
+	img.alphaIsPremultiplied = false
+	return img, nil
 }
 
 func (jxl *JXLImage) isHDR() bool {
-	if jxl.taggedTransfer == colour.TF_PQ || jxl.taggedTransfer == colour.TF_HLG ||
-		jxl.taggedTransfer == colour.TF_LINEAR {
+	return headerIsHDR(&jxl.imageHeader)
+}
+
+func headerIsHDR(header *bundle.ImageHeader) bool {
+	col := header.ColourEncoding
+	if col.Tf == colour.TF_PQ || col.Tf == colour.TF_HLG || col.Tf == colour.TF_LINEAR {
 		return true
 	}
-	col := jxl.imageHeader.ColourEncoding
 	return !col.Prim.Matches(colour.CM_PRI_SRGB) &&
 		!col.Prim.Matches(colour.CM_PRI_P3)
 }
@@ -401,38 +402,6 @@ func (jxl *JXLImage) transform(primaries *colour.CIEPrimaries, whitePoint *colou
 	return img, nil
 }
 
-// getBuffer gets a copy of the buffer... making a copy if required
-// REALLY not optimised but will fix later.
-func (jxl *JXLImage) getBuffer(makeCopy bool) ([]image2.ImageBuffer, error) {
-	if !makeCopy {
-		return jxl.Buffer, nil
-	}
-
-	buffer := make([]image2.ImageBuffer, len(jxl.Buffer))
-	for c := 0; c < len(jxl.Buffer); c++ {
-		buf, err := image2.NewImageBuffer(jxl.Buffer[c].BufferType, jxl.Buffer[c].Height, jxl.Buffer[c].Width)
-		if err != nil {
-			return nil, err
-		}
-		buffer[c] = *buf
-		// very stupid... will optimise later TODO(kpfaulkner)
-		if buffer[c].IsInt() {
-			for y := 0; y < int(jxl.Buffer[c].Height); y++ {
-				for x := 0; x < int(jxl.Buffer[c].Width); x++ {
-					buffer[c].IntBuffer[y][x] = jxl.Buffer[c].IntBuffer[y][x]
-				}
-			}
-		} else {
-			for y := 0; y < int(jxl.Buffer[c].Height); y++ {
-				for x := 0; x < int(jxl.Buffer[c].Width); x++ {
-					buffer[c].FloatBuffer[y][x] = jxl.Buffer[c].FloatBuffer[y][x]
-				}
-			}
-		}
-	}
-	return buffer, nil
-}
-
 func (jxl *JXLImage) determinePeak() (float32, error) {
 
 	if jxl.transfer != colour.TF_LINEAR {
diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..2672a14 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -30,22 +30,18 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 		cCount = 3
 	}
 
-	buffer2, err := jxlImage.getBuffer(false)
-	if err != nil {
-		return err
-	}
-	nb := make([]image2.ImageBuffer, len(buffer2))
+	nb := make([]image2.ImageBuffer, cCount)
 	for c := 0; c < len(nb); c++ {
-		if buffer2[c].IsInt() {
-			panic("not implemented")
+		if jxlImage.Buffer[c].IsInt() {
+			nb[c] = *image2.NewImageBufferFromImageBuffer(&jxlImage.Buffer[c], true)
+			if err := nb[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
+				return err
+			}
 		} else {
-			nb[c] = buffer2[c]
+			nb[c] = jxlImage.Buffer[c]
 		}
 	}
 
-	if gray {
-		cCount = 1
-	}
 	var buf bytes.Buffer
 
 	for y := int32(height - 1); y >= 0; y-- {
diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..fd43ffd 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -8,16 +8,16 @@ import (
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/colour"
+	image2 "github.com/kpfaulkner/jxl-go/image"
 )
 
 type PNGWriter struct {
-	bitDepth     int32
-	colourMode   byte
-	width        uint32
-	height       uint32
-	alphaIndex   int32
-	hdr          bool
-	writeSRGBICC bool
+	bitDepth   int32
+	colourMode byte
+	width      uint32
+	height     uint32
+	alphaIndex int32
+	hdr        bool
 }
 
 // WritePNG instead of using standard golang image/png package since we need
@@ -25,37 +25,8 @@ type PNGWriter struct {
 func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 
 	w.hdr = jxlImage.isHDR()
-	var bitDepth int32
-	if w.hdr {
-		bitDepth = 16
-	} else {
-		if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-			bitDepth = 16
-		} else {
-			bitDepth = 8
-		}
-	}
-
-	w.bitDepth = bitDepth
+	w.bitDepth = outputBitDepth(&jxlImage.imageHeader)
 	gray := jxlImage.ColorEncoding == colour.CE_GRAY
-
-	primaries := colour.CM_PRI_SRGB
-	tf := colour.TF_SRGB
-	if jxlImage.isHDR() {
-		primaries = colour.CM_PRI_BT2100
-		tf = colour.TF_PQ
-	}
-	whitePoint := colour.CM_WP_D65
-
-	if jxlImage.iccProfile == nil {
-		// transforms in place
-		img, err := jxlImage.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
-		if err != nil {
-			return err
-		}
-		jxlImage = img
-	}
-	maxValue := int32(^(^0 << bitDepth))
 	w.width = jxlImage.Width
 	w.height = jxlImage.Height
 	w.alphaIndex = jxlImage.alphaIndex
@@ -76,54 +47,10 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 	w.colourMode = colourMode
 
-	coerce := jxlImage.alphaIsPremultiplied
-	buffer, err := jxlImage.getBuffer(false)
+	buffer, err := jxlImage.outputSamples(w.bitDepth)
 	if err != nil {
 		return err
 	}
-	if !coerce {
-		for c := 0; c < len(buffer); c++ {
-			if buffer[c].IsInt() && jxlImage.bitDepths[c] != uint32(bitDepth) {
-				coerce = true
-				break
-			}
-		}
-	}
-	if coerce {
-		for c := 0; c < len(buffer); c++ {
-			if err := buffer[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
-				return err
-			}
-		}
-	}
-
-	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
-	}
-	for c := 0; c < len(buffer); c++ {
-		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-			if err := buffer[c].Clamp(maxValue); err != nil {
-				return err
-			}
-		} else {
-			if err := buffer[c].CastToIntIfMax(maxValue); err != nil {
-				return err
-			}
-		}
-	}
-
-	//newImg := jxlImage.create24BitImage(buffer)
-	//buf := new(bytes.Buffer)
-	//if err := png.Encode(buf, newImg); err != nil {
-	//	panic(err)
-	//}
-	//
-	//pngFileName := `c:\temp\test-image.png`
-	//err = os.WriteFile(pngFileName, buf.Bytes(), 0666)
-	//if err != nil {
-	//	panic(err)
-	//}
-	//return nil
 
 	// PNG header
 	header := []byte{0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A}
@@ -136,18 +63,22 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	if w.hdr || len(jxlImage.iccProfile) != 0 || w.writeSRGBICC {
+	if len(jxlImage.iccProfile) != 0 {
+		// if we have an ICC profile then write it out
 		if err := w.writeICCP(jxlImage, output); err != nil {
 			return err
 		}
+	} else if w.hdr {
+		if err := w.writeCICP(output); err != nil {
+			return err
+		}
 	} else {
-		// if we have an ICC profile then write it out
 		if err := w.writeSRGB(jxlImage, output); err != nil {
 			return err
 		}
 	}
 
-	if err := w.writeIDAT(jxlImage, output); err != nil {
+	if err := w.writeIDAT(buffer, output); err != nil {
 		return err
 	}
 	_, err = output.Write([]byte{0, 0, 0, 0})
@@ -250,6 +181,27 @@ func (w *PNGWriter) writeSRGB(jxlImage *JXLImage, output io.Writer) error {
 	return nil
 }
 
+// writeCICP tags the samples as BT.2100 PQ.
+func (w *PNGWriter) writeCICP(output io.Writer) error {
+
+	// primaries BT.2100, transfer function PQ, RGB, full range
+	rawBytes := []byte{'c', 'I', 'C', 'P', 9, 16, 0, 1}
+
+	b := make([]byte, 4)
+	binary.BigEndian.PutUint32(b, uint32(len(rawBytes))-4)
+	if _, err := output.Write(b); err != nil {
+		return err
+	}
+	if _, err := output.Write(rawBytes); err != nil {
+		return err
+	}
+	binary.BigEndian.PutUint32(b, crc32.ChecksumIEEE(rawBytes))
+	if _, err := output.Write(b); err != nil {
+		return err
+	}
+	return nil
+}
+
 func (w *PNGWriter) writeIHDR(jxlImage *JXLImage, output io.Writer) error {
 
 	ihdr := make([]byte, 17)
@@ -282,7 +234,7 @@ func (w *PNGWriter) writeIHDR(jxlImage *JXLImage, output io.Writer) error {
 	return nil
 }
 
-func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
+func (w *PNGWriter) writeIDAT(buffer []image2.ImageBuffer, output io.Writer) error {
 
 	var buf bytes.Buffer
 	buf.Write([]byte("IDAT"))
@@ -293,90 +245,26 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
-
-	maxValue := int32(^(^0 << bitDepth))
-
-	if err = jxlImage.Buffer[0].CastToIntIfMax(maxValue); err != nil {
-		return err
-	}
-
-	if len(jxlImage.Buffer) > 1 {
-		if err = jxlImage.Buffer[1].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	if len(jxlImage.Buffer) > 2 {
-		if err = jxlImage.Buffer[2].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
-			return err
-		}
-	}
-
-	for c := 0; c < len(jxlImage.Buffer); c++ {
-		if jxlImage.Buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
-			if err := jxlImage.Buffer[c].Clamp(maxValue); err != nil {
-				return err
-			}
-		} else {
-			if err := jxlImage.Buffer[c].CastToIntIfMax(maxValue); err != nil {
-				return err
-			}
-		}
-	}
-	for y := uint32(0); y < jxlImage.Height; y++ {
+	for y := uint32(0); y < w.height; y++ {
 		if _, err := wr.Write([]byte{0}); err != nil {
 			return err
 		}
-		for x := uint32(0); x < jxlImage.Width; x++ {
-
-			// FIXME(kpfaulkner) remove 3 assumption
-			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
-				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
-					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
-						return err
-					}
-				} else {
-					byte1 := dat & 0xFF
-					byte2 := dat & 0xFF00
-					byte2 >>= 8
-					if _, err := wr.Write([]byte{byte(byte2), byte(byte1)}); err != nil {
-						return err
-					}
+		for x := uint32(0); x < w.width; x++ {
+			for c := range buffer {
+				dat := buffer[c].IntBuffer[y][x]
+				sample := []byte{byte(dat >> 8), byte(dat)}
+				if w.bitDepth == 8 {
+					sample = sample[1:]
 				}
-
-			}
-			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
-					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
-						return err
-					}
-				} else {
-					byte1 := dat & 0xFF
-					byte2 := dat & 0xFF00
-					byte2 >>= 8
-
-					if _, err := wr.Write([]byte{byte(byte2), byte(byte1)}); err != nil {
-						return err
-					}
+				if _, err := wr.Write(sample); err != nil {
+					return err
 				}
 			}
 		}
 	}
-	wr.Close()
+	if err := wr.Close(); err != nil {
+		return err
+	}
 
 	if _, err := buf.Write(compressedBytes.Bytes()); err != nil {
 		return err
-- 
2.43.0


From bc14543021f1961d8a90c6e9999d3ed60e99d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 68/86] fix: registered image format could not decode anything
 from image.Decode

The reader of image.Decode cannot seek, bare codestreams were not recognised, and DecodeConfig
gave the size before orientation and a colour model that is not that of the image.
---
 reader.go | 61 +++++++++++++++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/reader.go b/reader.go
index c13f603..6889b47 100644
--- a/reader.go
+++ b/reader.go
@@ -1,35 +1,35 @@
 package jxl_go
 
 import (
-	"errors"
+	"bytes"
 	"image"
-	color2 "image/color"
 	"io"
 
-	"github.com/kpfaulkner/jxl-go/colour"
 	"github.com/kpfaulkner/jxl-go/core"
 )
 
-const jxlHeader = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+const (
+	jxlHeader           = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+	jxlCodestreamHeader = "\xFF\x0A"
+)
 
 func init() {
 	image.RegisterFormat("jxl", jxlHeader, Decode, DecodeConfig)
+	image.RegisterFormat("jxl", jxlCodestreamHeader, Decode, DecodeConfig)
 }
 
+// Decode reads a JPEG XL image from r and returns it as an image.Image.
 func Decode(r io.Reader) (image.Image, error) {
 
-	var rs io.ReadSeeker
-	var ok bool
-
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return nil, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return nil, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
 
 	var img image.Image
 	var jxlImg *core.JXLImage
-	var err error
 	if jxlImg, err = jxl.Decode(); err != nil {
 		return nil, err
 	}
@@ -40,12 +40,13 @@ func Decode(r io.Reader) (image.Image, error) {
 	return img, nil
 }
 
+// DecodeConfig returns the colour model and dimensions of the image Decode returns,
+// without decoding the entire image.
 func DecodeConfig(r io.Reader) (image.Config, error) {
-	var rs io.ReadSeeker
-	var ok bool
 
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return image.Config{}, errors.New("required ReadSeeker")
+	rs, err := readSeeker(r)
+	if err != nil {
+		return image.Config{}, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
@@ -54,24 +55,22 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
-	var colourModel color2.Model
-
-	switch header.GetColourModel() {
-	case colour.CE_RGB:
-		colourModel = color2.RGBAModel
-	case colour.CE_XYB:
-		colourModel = color2.GrayModel // unsure how to deal with XYB
-	case colour.CE_GRAY:
-		colourModel = color2.GrayModel
-	default:
-		colourModel = color2.RGBAModel
-	}
-
-	dim := header.GetSize()
 	return image.Config{
-		ColorModel: colourModel,
-		Width:      int(dim.Width),
-		Height:     int(dim.Height),
+		ColorModel: core.OutputColorModel(header),
+		Width:      int(header.OrientedWidth),
+		Height:     int(header.OrientedHeight),
 	}, nil
 
 }
+
+// readSeeker makes r seekable. image.Decode does not pass on readers that are.
+func readSeeker(r io.Reader) (io.ReadSeeker, error) {
+	if rs, ok := r.(io.ReadSeeker); ok {
+		return rs, nil
+	}
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	return bytes.NewReader(data), nil
+}
-- 
2.43.0


From 0c1b6a8f6847fe7e41b82f3bf59c5678cb008900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 69/86] fix: PQ used a wrong exponent (2612/16384 instead of
 2610/16384)

---
 colour/transfer_function.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/colour/transfer_function.go b/colour/transfer_function.go
index 41924e8..829d031 100644
--- a/colour/transfer_function.go
+++ b/colour/transfer_function.go
@@ -53,11 +53,11 @@ type PQTransferFunction struct {
 
 func (tf PQTransferFunction) ToLinear(input float64) float64 {
 	d := math.Pow(math.Max(input, 0), 0.012683313515655965121)
-	return math.Pow(math.Max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.2725880551301684533)
+	return math.Pow(math.Max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.277394636015325670498)
 }
 
 func (tf PQTransferFunction) FromLinear(input float64) float64 {
-	d := math.Pow(math.Max(input, 0), 0.159423828125)
+	d := math.Pow(math.Max(input, 0), 0.1593017578125)
 	return math.Pow((0.8359375+18.8515625*d)/(1.0+18.6875*d), 78.84375)
 }
 
-- 
2.43.0


From 985b8ee19a3a744d75b49c2e437466f61b6ae463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 70/86] fix: decoders kept a record of every read, whose bit
 count panicked for big ICC profiles

---
 core/jxl_decoder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/jxl_decoder.go b/core/jxl_decoder.go
index f9631d7..1abe0e2 100644
--- a/core/jxl_decoder.go
+++ b/core/jxl_decoder.go
@@ -6,7 +6,6 @@ import (
 	"github.com/kpfaulkner/jxl-go/bundle"
 	"github.com/kpfaulkner/jxl-go/jxlio"
 	"github.com/kpfaulkner/jxl-go/options"
-	"github.com/kpfaulkner/jxl-go/testcommon"
 )
 
 // JXLDecoder decodes the JXL image
@@ -24,8 +23,7 @@ func NewJXLDecoder(in io.ReadSeeker, opts *options.JXLOptions) *JXLDecoder {
 		in: in,
 	}
 
-	realBR := jxlio.NewBitStreamReader(in)
-	br := testcommon.NewBitReaderRecorder(realBR)
+	br := jxlio.NewBitStreamReader(in)
 
 	// if nil options, then create one
 	if opts == nil {
-- 
2.43.0


From f84bcafe42fc0899dc1b692645794b74a742d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 71/86] fix: broken trees panicked when a symbol could not be
 read

---
 entropy/EntropyStream.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 35befff..f6393ce 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -36,6 +36,7 @@ type EntropyStream struct {
 	copyPos77       int32
 	numDecoded77    int32
 	usesLZ77        bool
+	err             error
 }
 
 type EntropyStreamer interface {
@@ -301,15 +302,21 @@ func (es *EntropyStream) ReadSymbol(reader jxlio.BitReader, context int) (int32,
 	return es.ReadSymbolWithMultiplier(reader, context, 0)
 }
 
+// TryReadSymbol reads a symbol like ReadSymbol. If that fails it returns 0 and every further
+// symbol read from the stream returns the error.
 func (es *EntropyStream) TryReadSymbol(reader jxlio.BitReader, context int) int32 {
 	v, err := es.ReadSymbol(reader, context)
 	if err != nil {
-		panic(err)
+		es.err = err
+		return 0
 	}
 	return v
 }
 
 func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, context int, distanceMultiplier int32) (int32, error) {
+	if es.err != nil {
+		return 0, es.err
+	}
 	if es.numToCopy77 > 0 {
 		es.copyPos77++
 		hybridInt := es.window[es.copyPos77&0xFFFFF]
-- 
2.43.0


From 2466d4d7839e9003a356606fc8b54cf5f324199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:12 +0000
Subject: [PATCH 72/86] fix: using a global tree that the frame does not have
 panicked

---
 frame/ModularStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index ab39d29..8ebcfcd 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -370,6 +370,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		ms.tree = tree
 	} else {
 		ms.tree = frame.getGlobalTree()
+		if ms.tree == nil {
+			return nil, errors.New("no global tree")
+		}
 	}
 
 	ms.stream = entropy.NewEntropyStreamWithStream(ms.tree.stream)
-- 
2.43.0


From 63b560466b69109805a4cfad58b969b8e90d4002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 73/86] fix: prefix codes with lengths for more symbols than
 there are panicked

---
 entropy/PrefixSymbolDistribution.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/entropy/PrefixSymbolDistribution.go b/entropy/PrefixSymbolDistribution.go
index a65717e..394409a 100644
--- a/entropy/PrefixSymbolDistribution.go
+++ b/entropy/PrefixSymbolDistribution.go
@@ -100,7 +100,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	var prevZeroCount int32
 	level2Lengths := make([]int32, rcvr.alphabetSize)
 	level2Symbols := make([]int32, rcvr.alphabetSize)
-	level2Counts := make([]int32, rcvr.alphabetSize+1)
+	level2Counts := make([]int32, max(rcvr.alphabetSize, 15)+1)
 	prev := int32(8)
 	for i := int32(0); i < int32(rcvr.alphabetSize); i++ {
 		code, err := level1Table.GetVLC(reader)
@@ -116,6 +116,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevRepeatCount > 0 {
 				extra = 4*(prevRepeatCount-2) - prevRepeatCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Invalid Level 2 Prefix Codes")
+			}
 			for j := int32(0); j < extra; j++ {
 				level2Lengths[i+j] = prev
 			}
@@ -133,6 +136,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevZeroCount > 0 {
 				extra = 8*(prevZeroCount-2) - prevZeroCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Invalid Level 2 Prefix Codes")
+			}
 			i += extra - 1
 			prevRepeatCount = 0
 			prevZeroCount += extra
@@ -157,7 +163,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	if totalCode != 32768 && level2Counts[0] < rcvr.alphabetSize-1 {
 		return errors.New("Invalid Level 2 Prefix Codes")
 	}
-	for i := int32(1); i <= rcvr.alphabetSize; i++ {
+	for i := 1; i < len(level2Counts); i++ {
 		level2Counts[i] += level2Counts[i-1]
 	}
 	level2LengthsScrambled := make([]int32, rcvr.alphabetSize)
-- 
2.43.0


From 86d743c2e96bf2591c89d19f00dba964abe89c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 74/86] fix: cluster maps with entries beyond the move-to-front
 list panicked

---
 entropy/EntropyStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index f6393ce..00726b2 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -138,6 +138,9 @@ func ReadClusterMap(reader jxlio.BitReader, clusterMap []int, maxClusters int) (
 				}
 				for i := 0; i < numDists; i++ {
 					index := clusterMap[i]
+					if index < 0 || index > 255 {
+						return 0, errors.New("Illegal cluster map entry")
+					}
 					clusterMap[i] = mtf[index]
 					if index != 0 {
 						value := mtf[index]
-- 
2.43.0


From 093abb7026a32b586302e9638983cebd43bdc8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 75/86] fix: LZ77 lengths and distances of more than 31 bits

---
 entropy/EntropyStream.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 00726b2..902aba8 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -357,7 +357,13 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if err != nil {
 			return 0, err
 		}
-		if distanceMultiplier == 0 {
+		if es.numToCopy77 < 1 {
+			return 0, errors.New("Illegal LZ77 length")
+		}
+		if distance < 0 {
+			// more than an int32, further back than the window in any case
+			distance = 1 << 20
+		} else if distanceMultiplier == 0 {
 			distance++
 		} else if distance < 120 {
 			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
-- 
2.43.0


From 79004f8198207f5c76a02557da9c12fc1792d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:19 +0000
Subject: [PATCH 76/86] fix: ANS distributions whose frequencies exceed the
 total panicked

---
 entropy/ANSSymbolDistribution.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 8175053..be432ca 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -196,6 +196,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				totalCount += asd.frequencies[i]
 			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
+			if asd.frequencies[omitPos] <= 0 {
+				return nil, errors.New("Invalid frequencies")
+			}
 			if asd.frequencies[omitPos] == 1<<12 {
 				uniqPos = omitPos
 			}
-- 
2.43.0


From 2cd22163861980cef399dfcb2da629c097cec79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 77/86] fix: varblocks beyond their group and gaps between
 varblocks panicked

---
 frame/LFGroup.go    |  3 +++
 frame/hfmetadata.go | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/frame/LFGroup.go b/frame/LFGroup.go
index ad1699b..a0fd8de 100644
--- a/frame/LFGroup.go
+++ b/frame/LFGroup.go
@@ -56,6 +56,9 @@ func NewLFGroupWithReader(reader jxlio.BitReader, parent Framer, index int32, re
 		if err != nil {
 			return nil, err
 		}
+		if err = metadata.checkCoverage(); err != nil {
+			return nil, err
+		}
 		lfg.hfMetadata = metadata
 	} else {
 		lfg.hfMetadata = nil
diff --git a/frame/hfmetadata.go b/frame/hfmetadata.go
index 2250543..38ee0ce 100644
--- a/frame/hfmetadata.go
+++ b/frame/hfmetadata.go
@@ -72,6 +72,22 @@ func NewHFMetadataWithReader(reader jxlio.BitReader, parent *LFGroup, frame Fram
 	return hf, nil
 }
 
+// checkCoverage returns an error if a block has no transform type: every block
+// of an LF group has to be part of a varblock.
+func (m *HFMetadata) checkCoverage() error {
+	if m == nil {
+		return nil
+	}
+	for _, row := range m.dctSelect {
+		for _, tt := range row {
+			if tt == nil {
+				return errors.New("Blocks do not cover the LF group")
+			}
+		}
+	}
+	return nil
+}
+
 // FIXME(kpfaulkner) 20241102 think somethings wrong in here...  llfScale is bad
 func (m *HFMetadata) placeBlock(lastBlock util.Point, block TransformType, mul int32) (util.Point, error) {
 	var x int32
@@ -94,6 +110,9 @@ outerY:
 					continue outerX
 				}
 			}
+			if y+block.dctSelectHeight > int32(len(m.dctSelect)) || x&31+block.dctSelectWidth > 32 || y&31+block.dctSelectHeight > 32 {
+				return util.Point{}, errors.New("Block exceeds its group")
+			}
 			pos := util.Point{
 				X: x,
 				Y: y,
-- 
2.43.0


From 34d4538336e51d4975f0f02311adb28ddbdbf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 78/86] fix: varblocks with more non-zero coefficients than
 coefficients panicked

---
 frame/HFCoefficients.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 2f73d92..6e291d4 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -115,12 +115,14 @@ func NewHFCoefficientsWithReader(reader jxlio.BitReader, frame Framer, pass uint
 				}
 			}
 
-			// TODO(kpfaulkner) check this...  taken from JXLatte
-			if nonZero <= 0 {
-				continue
-			}
 			orderSize := int32(len(hfPass.order[tt.orderID][c]))
 			ucoeffLen := orderSize - numBlocks
+			if nonZero < 0 || nonZero > ucoeffLen {
+				return nil, errors.New("nonZero != 0: more nonzero coefficients than there are")
+			}
+			if nonZero == 0 {
+				continue
+			}
 			histCtx := offset + 458*blockCtx + 37*hf.hfctx.numClusters
 
 			// Track only previous coefficient value instead of allocating full slice
-- 
2.43.0


From 7b75663565e9ea94f02c10d3aba76a574e392815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:57 +0000
Subject: [PATCH 79/86] fix: few bytes could claim billions of groups and
 section bytes, and get the memory for them

---
 frame/Frame.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index ff44d35..1a350ba 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -33,6 +33,14 @@ var (
 		{X: 0, Y: -2}, {X: 0, Y: 2}, {X: 2, Y: 0}, {X: -2, Y: 0}}
 )
 
+const (
+	// maxTOCEntries limits what a few bytes of frame header can make the decoder allocate
+	maxTOCEntries = 65536
+
+	// sectionChunk is how much of a section is read at once
+	sectionChunk = 1 << 20
+)
+
 type NewLFGlobalWithReaderFunc func(reader jxlio.BitReader, parent Framer, hfBlockContextFunc NewHFBlockContextFunc) (*LFGlobal, error)
 
 type ReadPermutationFunc func(reader jxlio.BitReader, stream entropy.EntropyStreamer, size uint32, skip uint32) ([]uint32, error)
@@ -116,6 +124,11 @@ func (f *Frame) ReadFrameHeader() (FrameHeader, error) {
 		Size:   f.Header.Bounds.Size,
 	}
 
+	groups := uint64(util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)) * uint64(util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim))
+	if groups > maxTOCEntries {
+		return FrameHeader{}, errors.New("too many groups")
+	}
+
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
@@ -132,6 +145,9 @@ func (f *Frame) ReadTOC() error {
 	} else {
 		tocEntries = 1 + f.numLFGroups + 1 + f.numGroups*f.Header.passes.numPasses
 	}
+	if tocEntries > maxTOCEntries {
+		return errors.New("too many TOC entries")
+	}
 
 	var err error
 	if f.permutatedTOC, err = f.reader.ReadBool(); err != nil {
@@ -184,16 +200,19 @@ func (f *Frame) readBuffer(index int) ([]uint8, error) {
 
 	length := f.tocLengths[index]
 
-	buffer := make([]uint8, length+4)
-	err := f.reader.ReadBytesToBuffer(buffer, length)
-	if err != nil {
-		return nil, err
-	}
-	if len(buffer) < int(length) {
-		return nil, errors.New("unable to read full TOC entry")
+	// the file may be shorter than the TOC claims
+	buffer := make([]uint8, 0, min(length, sectionChunk)+4)
+	for remaining := length; remaining > 0; {
+		n := min(remaining, sectionChunk)
+		start := len(buffer)
+		buffer = append(buffer, make([]uint8, n)...)
+		if err := f.reader.ReadBytesToBuffer(buffer[start:], n); err != nil {
+			return nil, err
+		}
+		remaining -= n
 	}
 
-	return buffer, nil
+	return append(buffer, 0, 0, 0, 0), nil
 }
 
 func ctxFunc(x int64) int {
-- 
2.43.0


From 8f76fdb254ba143379f9fc6b4eb610213a7ee777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 80/86] fix: grey images with a modular YCbCr frame panicked
 (such a frame has three colour channels)

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 1a350ba..602aff0 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -553,7 +553,7 @@ func (f *Frame) IsVisible() bool {
 }
 
 func (f *Frame) GetColourChannelCount() int {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT || f.Header.DoYCbCr {
 		return 3
 	}
 	return f.GlobalMetadata.GetColourChannelCount()
@@ -1645,7 +1645,7 @@ func (f *Frame) getGroupSize(groupID int32) (util.Dimension, error) {
 }
 
 func (f *Frame) getColourChannelCount() int32 {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT || f.Header.DoYCbCr {
 		return 3
 	}
 	return int32(f.GlobalMetadata.GetColourChannelCount())
-- 
2.43.0


From 763d4eb927815da686947e750a7844717d48e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 81/86] fix: the RenderVarblocks option panicked instead of
 returning an error

---
 core/jxl_codestream_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index a364a9d..58acb8d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -203,7 +203,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if header.Encoding == frame.VARDCT && jxl.options.RenderVarblocks {
-				panic("VARDCT not implemented yet")
+				return nil, errors.New("rendering varblocks is not implemented")
 			}
 
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-- 
2.43.0


From 5b214a75bd69373ca6a5a76a7ed08466452a093e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:44 +0000
Subject: [PATCH 82/86] fix: preview sizes given in units of 8 pixels were not
 multiplied by 8

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 45cb84a..264ad6d 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -779,7 +779,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -803,7 +803,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From f3b166b683e60803548cd142eef3f73a3869d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 83/86] fix: the pool metrics counted newly made matrices as
 hits

---
 util/buffer_pool.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/util/buffer_pool.go b/util/buffer_pool.go
index 7a04344..a8f7a77 100644
--- a/util/buffer_pool.go
+++ b/util/buffer_pool.go
@@ -46,12 +46,7 @@ func (p *Matrix3DPool[T]) Get(depth, height, width int) [][][]T {
 		// Double-check after acquiring write lock
 		pool, exists = p.pools[key]
 		if !exists {
-			pool = &sync.Pool{
-				New: func() interface{} {
-					m := MakeMatrix3D[T](depth, height, width)
-					return &m
-				},
-			}
+			pool = &sync.Pool{}
 			p.pools[key] = pool
 		}
 		p.mu.Unlock()
@@ -132,12 +127,7 @@ func (p *Matrix2DPool[T]) Get(height, width int) [][]T {
 		p.mu.Lock()
 		pool, exists = p.pools[key]
 		if !exists {
-			pool = &sync.Pool{
-				New: func() interface{} {
-					m := MakeMatrix2D[T](height, width)
-					return &m
-				},
-			}
+			pool = &sync.Pool{}
 			p.pools[key] = pool
 		}
 		p.mu.Unlock()
-- 
2.43.0


From 27ea507b6239d4dbb0b680ada0e18f47c830b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 84/86] fix: jxltopng ended with status 0 when it had failed

---
 tools/jxltopng/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/jxltopng/main.go b/tools/jxltopng/main.go
index 9094e97..41d0d60 100644
--- a/tools/jxltopng/main.go
+++ b/tools/jxltopng/main.go
@@ -30,7 +30,7 @@ func main() {
 	f, err := os.ReadFile(*infile)
 	if err != nil {
 		log.Errorf("Error opening file: %v\n", err)
-		return
+		os.Exit(1)
 	}
 
 	r := bytes.NewReader(f)
@@ -39,7 +39,7 @@ func main() {
 	var jxlImage *core.JXLImage
 	if jxlImage, err = jxl.Decode(); err != nil {
 		fmt.Printf("Error decoding: %v\n", err)
-		return
+		os.Exit(1)
 	}
 	fmt.Printf("decoding took %d ms\n", time.Since(start).Milliseconds())
 	//fmt.Printf("Has alpha %v\n", jxlImage.HasAlpha())
@@ -68,6 +68,7 @@ func main() {
 		img, err := jxlImage.ToImage()
 		if err != nil {
 			fmt.Printf("error when making image %v\n", err)
+			os.Exit(1)
 		}
 
 		fmt.Printf("encoding to img took %d ms\n", time.Since(startEncodingToImg).Milliseconds())
-- 
2.43.0


From 8a4d5699ea8480e3902896810ba8accddeb83393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 85/86] fix: predictions overflowed with samples of more than
 30 bits

---
 frame/ModularChannel.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index e351bd2..748b794 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -110,7 +110,8 @@ func (mc *ModularChannel) allocate() {
 }
 
 func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
-	var n, v, nw, w int32
+	// sums of samples do not fit in 32 bits when the samples have that many
+	var n, nw, w int32
 	switch k {
 	case 0:
 		return 0, nil
@@ -119,20 +120,17 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	case 2:
 		return mc.north(x, y), nil
 	case 3:
-		return (mc.west(x, y) + mc.north(x, y)) / 2, nil
+		return average(mc.west(x, y), mc.north(x, y)), nil
 	case 4:
 		w = mc.west(x, y)
 		n = mc.north(x, y)
 		nw = mc.northWest(x, y)
-		if util.Abs(n-nw) < util.Abs(w-nw) {
+		if util.Abs(int64(n)-int64(nw)) < util.Abs(int64(w)-int64(nw)) {
 			return w, nil
 		}
 		return n, nil
 	case 5:
-		w = mc.west(x, y)
-		n = mc.north(x, y)
-		v = w + n - mc.northWest(x, y)
-		return util.Clamp3(v, n, w), nil
+		return clampedGradient(mc.north(x, y), mc.west(x, y), mc.northWest(x, y)), nil
 	case 6:
 		return (mc.pred[y][x] + 3) >> 3, nil
 	case 7:
@@ -142,19 +140,30 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	case 9:
 		return mc.westWest(x, y), nil
 	case 10:
-		return (mc.west(x, y) + mc.northWest(x, y)) / 2, nil
+		return average(mc.west(x, y), mc.northWest(x, y)), nil
 	case 11:
-		return (mc.north(x, y) + mc.northWest(x, y)) / 2, nil
+		return average(mc.north(x, y), mc.northWest(x, y)), nil
 	case 12:
-		return (mc.north(x, y) + mc.northEast(x, y)) / 2, nil
+		return average(mc.north(x, y), mc.northEast(x, y)), nil
 	case 13:
-		return (6*mc.north(x, y) - 2*mc.northNorth(x, y) + 7*mc.west(x, y) +
-			mc.westWest(x, y) + mc.northEastEast(x, y) + 3*mc.northEast(x, y) + 8) / 16, nil
+		return int32((6*int64(mc.north(x, y)) - 2*int64(mc.northNorth(x, y)) + 7*int64(mc.west(x, y)) +
+			int64(mc.westWest(x, y)) + int64(mc.northEastEast(x, y)) + 3*int64(mc.northEast(x, y)) + 8) / 16), nil
 	default:
 		return 0, errors.New("Illegal predictor state")
 	}
 }
 
+// average is the mean of a and b, rounded towards zero.
+func average(a int32, b int32) int32 {
+	return int32((int64(a) + int64(b)) / 2)
+}
+
+// clampedGradient continues the slope from nw to n at w, within the range of n and w.
+func clampedGradient(n int32, w int32, nw int32) int32 {
+	v := int64(n) + int64(w) - int64(nw)
+	return int32(max(int64(min(n, w)), min(v, int64(max(n, w)))))
+}
+
 func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (int32, error) {
 
 	// 64-bit intermediates: with more than about 20 bits per sample the sums below
@@ -431,7 +440,7 @@ func (mc *ModularChannel) getWalkerFunc(channelIndex int32, streamIndex int32, x
 				} else {
 					rNW = rW
 				}
-				rG = rC - util.Clamp3(rW+rN-rNW, rN, rW)
+				rG = rC - clampedGradient(rN, rW, rNW)
 				if k2 == k {
 					return util.Abs(rG), nil
 				}
-- 
2.43.0


From dc9cb29b2b0c26e100519d4fb471f24ee6da2c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:38 +0000
Subject: [PATCH 86/86] fix: the squeeze tendency overflowed with samples of 30
 bits and more

---
 frame/ModularStream.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 8ebcfcd..368e9a7 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -732,7 +732,9 @@ func inverseVerticalSqueeze(channel *ModularChannel, orig *ModularChannel, res *
 	return channel, nil
 }
 
-func tendancy(a int32, b int32, c int32) int32 {
+func tendancy(first int32, second int32, third int32) int32 {
+	// 64-bit intermediates: these do not fit in 32 bits with 30 or more bits per sample
+	a, b, c := int64(first), int64(second), int64(third)
 	if a >= b && b >= c {
 		x := (4*a - 3*c - b + 6) / 12
 		d := 2 * (a - b)
@@ -743,7 +745,7 @@ func tendancy(a int32, b int32, c int32) int32 {
 		if (x + (x & 1)) > e {
 			x = e
 		}
-		return x
+		return int32(x)
 	}
 
 	if a <= b && b <= c {
@@ -756,7 +758,7 @@ func tendancy(a int32, b int32, c int32) int32 {
 		if (x - (x & 1)) < e {
 			x = e
 		}
-		return x
+		return int32(x)
 	}
 
 	return 0
-- 
2.43.0

