From 7865247afa09f69929c370dd65b203a59e6a2377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 01/51] fix: do not overflow when making or comparing times
 above 2048 samples

---
 src/BKTime.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..fa845c2 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return ((BKTime) samples << BK_FINT20_SHIFT) + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From 0aaf71a7d1f734be0bba0b449ee31e0ada8586d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 02/51] fix: pass number of channels and sample rate in right
 order when writing data

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..a722ddb 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 874499d563190e5eb04dda03847bafcfa0b2cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 03/51] fix: get pointer attributes of units instead of setting
 them

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..1943021 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1273,7 +1273,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From 4061b5de0ebce0219832d9dddd85482ae91cf240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 04/51] fix: do not loop forever when disposing clock with
 dividers

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 5d14c7f43d50030c4281abac74ecf36cd6d422fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 05/51] fix: make instrument copies independent of their
 original

---
 src/BKInstrument.c | 12 ++++++++----
 src/BKSequence.c   | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..872e259 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,10 +117,12 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	if (BKInstrumentInit (copy) < 0) {
+		return -1;
+	}
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
-	copy -> numSequences = original -> numSequences;
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	copy -> numSequences  = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
 		sequence = original -> sequences [i];
@@ -128,8 +130,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..4eddb48 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,10 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
@@ -365,10 +367,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> values    = values;
+		copy -> stateList = NULL;
 
 		* outCopy = copy;
 
-- 
2.43.0


From c344edc7b8c4088ba69b72bdf16fbefdfdf84d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 06/51] fix: make copies of data objects disposable

---
 src/BKData.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..017cda5 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -192,15 +192,19 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
+	copy -> object.flags = BKObjectFlagInitialized;
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
 	if (original -> frames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
 
-	if (res < 0)
+	if (res < 0) {
+		copy -> numFrames = 0;
 		return res;
+	}
+
+	copy -> numBits = original -> numBits;
 
 	return 0;
 }
-- 
2.43.0


From 04f8741f2dc2ac0c6474212dc97895a297b6601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 07/51] fix: do not release frames owned by the caller after
 replacing a copy

---
 src/BKData.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKData.c b/src/BKData.c
index 017cda5..fb4399d 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -367,6 +367,7 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	else {
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
 			free (data -> frames);
+			data -> object.flags &= ~BK_DATA_FLAG_COPY;
 		}
 
 		newFrames = (BKFrame *) frames;
-- 
2.43.0


From 4347c0b8a2df02129794f4c8d76183a007fb79f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 08/51] fix: release frames allocated when converting data

---
 src/BKData.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKData.c b/src/BKData.c
index fb4399d..953501f 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -813,6 +813,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
 	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From 228d7894e5277f03d3d2440f9b4c48468abf6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 09/51] fix: let users of normalized data continue on the
 copied frames

---
 src/BKData.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 953501f..53eaab8 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -154,6 +154,8 @@ static BKInt BKDataPromoteToCopy (BKData * data)
 
 		data -> frames = frames;
 		data -> object.flags |= BK_DATA_FLAG_COPY;
+
+		BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 	}
 
 	return 0;
-- 
2.43.0


From 7ca157f33dd4778349aef7308f75807d7e1c59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 10/51] fix: keep list of data states intact when removing some
 of them

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 53eaab8..eab4f40 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From 01739dedb62a55d4b1365d8fbe8b91b02576bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 11/51] fix: convert raw data exactly and keep ownership and
 users of frames consistent

---
 src/BKData.c | 91 ++++++++++++++++++----------------------------------
 1 file changed, 31 insertions(+), 60 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index eab4f40..3bb3574 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -449,7 +449,7 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 {
 	BKInt numFrames = 0;
 	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	BKSize dataSizeBits = (BKSize) dataSize * 8;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -464,77 +464,41 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 	return numFrames;
 }
 
-static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUInt dataSize, BKUInt numBits, BKInt isSigned, BKInt reverseEndian, BKUInt numChannels)
+static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKInt numFrames, BKUInt numBits, BKInt isSigned, BKInt reverseEndian)
 {
-	BKSize mask;
+	BKInt value;
+	BKUInt shift, mask;
 	unsigned char const * charData = data;
-	unsigned char c;
-
-	switch (numBits) {
-		case  1: mask = 1; break;
-		case  2: mask = 1; break;
-		case  4: mask = 1; break;
-		case  8: mask = 1; break;
-		default:
-		case 16: mask = 2; break;
-	}
-
-	dataSize -= (dataSize % (mask * numChannels));
 
-	for (charData = data; (void *) charData < data + dataSize;) {
+	for (BKInt i = 0; i < numFrames; i ++) {
 		switch (numBits) {
-			case 1: {
-				c = charData [0];
-				outFrames [0] = ((c & (1 << 7)) >> 7) * BK_FRAME_MAX;
-				outFrames [1] = ((c & (1 << 6)) >> 6) * BK_FRAME_MAX;
-				outFrames [2] = ((c & (1 << 5)) >> 5) * BK_FRAME_MAX;
-				outFrames [3] = ((c & (1 << 4)) >> 4) * BK_FRAME_MAX;
-				outFrames [4] = ((c & (1 << 3)) >> 3) * BK_FRAME_MAX;
-				outFrames [5] = ((c & (1 << 2)) >> 2) * BK_FRAME_MAX;
-				outFrames [6] = ((c & (1 << 1)) >> 1) * BK_FRAME_MAX;
-				outFrames [7] = ((c & (1 << 0)) >> 0) * BK_FRAME_MAX;
-				charData += 1;
-				outFrames += 8;
-				break;
-			}
-			case 2: {
-				c = charData [0];
-				outFrames [0] = ((c & (3 << 6)) >> 6) * BK_FRAME_MAX / 3;
-				outFrames [1] = ((c & (3 << 4)) >> 4) * BK_FRAME_MAX / 3;
-				outFrames [2] = ((c & (3 << 2)) >> 2) * BK_FRAME_MAX / 3;
-				outFrames [3] = ((c & (3 << 0)) >> 0) * BK_FRAME_MAX / 3;
-				charData += 1;
-				outFrames += 4;
-				break;
-			}
+			case 1:
+			case 2:
 			case 4: {
-				c = charData [0];
-				outFrames [0] = ((c & (15 << 4)) >> 4) * BK_FRAME_MAX / 15;
-				outFrames [1] = ((c & (15 << 0)) >> 0) * BK_FRAME_MAX / 15;
-				charData += 1;
-				outFrames += 2;
+				mask  = (1 << numBits) - 1;
+				shift = 8 - numBits - (i * numBits) % 8;
+				value = (charData [(BKSize) i * numBits / 8] >> shift) & mask;
+				outFrames [i] = value * BK_FRAME_MAX / mask;
 				break;
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					value = (signed char) charData [i];
+					value = value * (BKInt) BK_FRAME_MAX / 127;
+					outFrames [i] = BKMax (value, - (BKInt) BK_FRAME_MAX - 1);
 				} else {
-					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
+					outFrames [i] = charData [i] * BK_FRAME_MAX / 255;
 				}
 
-				charData += 1;
-				outFrames += 1;
 				break;
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [i] = (charData [2 * i] << 8) | charData [2 * i + 1];
 				} else {
-					outFrames [0] =  (* (BKFrame *) charData);
+					memcpy (& outFrames [i], & charData [2 * i], sizeof (BKFrame));
 				}
 
-				charData += 2;
-				outFrames += 1;
 				break;
 			}
 			default: {
@@ -569,24 +533,31 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	if (numFrames < 0)
 		return BK_INVALID_NUM_BITS;
 
-	if (data -> object.flags & BK_DATA_FLAG_COPY) {
-		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
-	}
-	else {
-		frames = malloc (numFrames * sizeof (BKFrame));
-	}
+	// need at least 2 phases
+	if (numFrames / numChannels < 2)
+		return BK_INVALID_NUM_FRAMES;
+
+	frames = malloc (numFrames * sizeof (BKFrame));
 
 	if (frames == NULL)
 		return BK_ALLOCATION_ERROR;
 
-	if (BKDataConvertFromBits (frames, frameData, dataSize, numBits, isSigned, reverseEndian, numChannels) < 0)
+	if (BKDataConvertFromBits (frames, frameData, numFrames, numBits, isSigned, reverseEndian) < 0) {
+		free (frames);
 		return -1;
+	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY)
+		free (data -> frames);
+
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> frames      = frames;
 	data -> numFrames   = numFrames / numChannels;
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From b45c2adaad7803717d3b6778eda392a493923b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 12/51] fix: keep ownership and users of frames consistent when
 loading WAVE files

---
 src/BKData.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 3bb3574..e7942cf 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -612,7 +612,18 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	// need at least 2 phases
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	if (numChannels > BK_MAX_CHANNELS) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_CHANNELS;
+	}
+
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -625,6 +636,9 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY)
+		free (data -> frames);
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -632,6 +646,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	data -> numChannels   = numChannels;
 	data -> frames        = frames;
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	BKDispose (& reader);
 
 	return 0;
-- 
2.43.0


From 15ed7ee64b956b5e56695f8ec5b7bf64493861a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 13/51] fix: read WAVE files with extended or damaged chunks
 inside of bounds

---
 src/BKWaveFileReader.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..6bb165a 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,6 +133,18 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels == 0) {
+			return -1;
+		}
+
+		// skip extension of format chunk
+		size = sizeof (headerFmt) - sizeof (headerData);
+
+		if (headerFmt.subchunkSize > size) {
+			size = (BKSize) headerFmt.subchunkSize - size;
+			fseek (reader -> file, size + (size & 1), SEEK_CUR);
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
@@ -146,8 +158,12 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				break;
 			}
 
-			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			// seek to next subchunk; chunks are padded to even sizes
+			size = (BKSize) headerData.subchunkSize + (headerData.subchunkSize & 1);
+
+			if (fseek (reader -> file, size, SEEK_CUR)) {
+				return -1;
+			}
 		}
 		while (1);
 
@@ -183,7 +199,9 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		reader -> numFrames = (BKInt) (reader -> dataSize / reader -> numChannels / frameSize);
+		// ignore trailing incomplete frame
+		reader -> dataSize  = (BKSize) reader -> numFrames * reader -> numChannels * frameSize;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -269,7 +287,7 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 	}
 
 	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From 590532d5272831d1ed936b45f6c6cab72b158786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 14/51] fix: refuse WAVE files with impossible sizes

---
 src/BKWaveFileReader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 6bb165a..7bef4b2 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,7 +133,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
-		if (headerFmt.numChannels == 0) {
+		if (headerFmt.numChannels == 0 || headerFmt.subchunkSize < sizeof (headerFmt) - sizeof (headerData)) {
 			return -1;
 		}
 
@@ -199,6 +199,12 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			reader -> dataSize = size - cur;
 		}
 
+		// size must be in range of number of frames
+		if (reader -> dataSize < 0 || reader -> dataSize > BK_INT_MAX) {
+			reader -> sampleRate = 0;
+			return -1;
+		}
+
 		reader -> numFrames = (BKInt) (reader -> dataSize / reader -> numChannels / frameSize);
 		// ignore trailing incomplete frame
 		reader -> dataSize  = (BKSize) reader -> numFrames * reader -> numChannels * frameSize;
-- 
2.43.0


From ed349dc837a80c989066c0b4d928dee813bf5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 15/51] fix: write correct sizes at any file offset and without
 frames

---
 src/BKWaveFileWriter.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a722ddb..950c23a 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -96,6 +96,9 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 		return res;
 	}
 
+	// nothing to terminate until writer is initialized
+	writer -> object.flags |= BKWaveFileFlagTerminated;
+
 	if (!numBits) {
 		numBits = 16;
 	}
@@ -110,6 +113,8 @@ BKInt BKWaveFileWriterInit (BKWaveFileWriter * writer, FILE * file, BKInt numCha
 	writer -> numBits       = numBits;
 	writer -> reverseEndian = BKSystemIsBigEndian ();
 
+	writer -> object.flags &= ~BKWaveFileFlagTerminated;
+
 	return 0;
 }
 
@@ -155,7 +160,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -219,6 +224,12 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 3aec0976ad1eaacaf5b03f182f72356dd69b879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 16/51] fix: do not keep using replaced or disposed data when
 detached or when it does not fit

---
 src/BKUnit.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 1943021..8faefcc 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -79,10 +79,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
-	}
-
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
@@ -106,7 +102,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
 			}
 
 			break;
@@ -116,7 +111,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
 				// number of channels must eighter be 1 or equal to
 				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
+				if (data -> numChannels != 1 && ctx && data -> numChannels != ctx -> numChannels) {
 					return BK_INVALID_NUM_CHANNELS;
 				}
 				else if (data -> numFrames < 2) {
@@ -171,10 +166,18 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
 	BKInt res;
 
-	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	if (data && unit -> ctx == NULL) {
+		res = BK_INVALID_STATE;
+	}
+	else {
+		res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	}
 
 	if (res == 0) {
-		BKDataStateSetData (& unit -> sample.dataState, data);
+		// keep data if other type was unset
+		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE)) {
+			BKDataStateSetData (& unit -> sample.dataState, data);
+		}
 	}
 	// unset data when failed
 	else {
@@ -192,6 +195,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
+	BKInt res;
 	BKEnum type;
 
 	switch (unit -> waveform) {
@@ -210,7 +214,15 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// do not use old frames any longer
+	if (res < 0) {
+		unit -> waveform      = 0;
+		unit -> sample.frames = NULL;
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
@@ -260,6 +272,11 @@ void BKUnitDisposeObject (BKUnit * unit)
 BKInt BKUnitAttach (BKUnit * unit, BKContext * ctx)
 {
 	if (unit -> ctx == NULL) {
+		// sample must fit to number of context channels
+		if (unit -> waveform == BK_SAMPLE && unit -> sample.numChannels != 1 && unit -> sample.numChannels != ctx -> numChannels) {
+			return BK_INVALID_NUM_CHANNELS;
+		}
+
 		unit -> prevUnit = ctx -> lastUnit;
 		unit -> nextUnit = NULL;
 		unit -> ctx      = ctx;
-- 
2.43.0


From 4dcb970ad0814bc67906d056e0055c88c1adae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:24 +0000
Subject: [PATCH 17/51] fix: keep data callback of tracks when clearing

---
 src/BKUnit.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 8faefcc..dae55b3 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1259,8 +1259,6 @@ void BKUnitClear (BKUnit * unit)
 	unit -> sample.sustainEnd                 = 0;
 	unit -> sample.period                     = BK_FINT20_UNIT;
 	unit -> sample.timeFrac                   = 0;
-	unit -> sample.dataState.callback         = (void *) BKUnitSampleDataStateCallback;
-	unit -> sample.dataState.callbackUserInfo = unit;
 
 	// reset sample range
 	if (unit -> sample.dataState.data)
-- 
2.43.0


From dfd2b5d78508372ab46f860a6242f0250341d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 18/51] fix: detach dividers from disposed context

---
 src/BKContext.c | 17 ++++++++++++++---
 src/BKTrack.c   |  3 +--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..ee1400e 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -103,9 +103,10 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 
 static void BKContextDisposeObject (BKContext * ctx)
 {
-	BKUnit   * nextUnit;
-	BKClock  * nextClock;
-	BKBuffer * channel;
+	BKUnit    * nextUnit;
+	BKClock   * nextClock;
+	BKDivider * nextDivider;
+	BKBuffer  * channel;
 
 	for (BKUnit * unit = ctx -> firstUnit; unit; unit = nextUnit) {
 		nextUnit = unit -> nextUnit;
@@ -117,6 +118,16 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
+	for (BKDivider * divider = ctx -> beatDividers.firstDivider; divider; divider = nextDivider) {
+		nextDivider = divider -> nextDivider;
+		BKDividerDetach (divider);
+	}
+
+	for (BKDivider * divider = ctx -> effectDividers.firstDivider; divider; divider = nextDivider) {
+		nextDivider = divider -> nextDivider;
+		BKDividerDetach (divider);
+	}
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferDispose (channel);
diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..71494a8 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -518,8 +518,7 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKContextAttachDivider (ctx, & track -> divider, BK_CLOCK_TYPE_EFFECT);
 
-		if (ctx -> numChannels == 2)
-			track -> flags |= (BKPanningEnabledFlag);
+		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
 		track -> flags |= BKTrackAttrUpdateFlagVolume;
 		BKTrackUpdateUnit (track);
-- 
2.43.0


From 44b47d480b7b224ec7ba82b4ab2e3fc4ffb02f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 19/51] fix: leave clock detached if it can not be attached

---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..39ad23f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From e6a078ae8ae913d9336d77935102d0a4e1d76a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 20/51] fix: keep schedule of all clocks if some are attached,
 detached or reset

---
 src/BKClock.c   | 14 ++++++++++++--
 src/BKContext.c | 12 ++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 39ad23f..7b87c54 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -153,6 +153,9 @@ void BKClockDetach (BKClock * clock)
 			ctx -> lastClock = clock -> prevClock;
 		}
 
+		// clocks may be iterated at the moment
+		ctx -> flags |= BK_CONTEXT_FLAG_CLOCK_RESET;
+
 		clock -> ctx = NULL;
 		BKClockReset (clock);
 	}
@@ -175,8 +178,8 @@ void BKClockReset (BKClock * clock)
 
 	clock -> object.flags &= ~BK_CLOCK_FLAG_RESET; // clear reset flag
 	clock -> counter  = 0;
-	clock -> time     = BK_TIME_ZERO;
-	clock -> nextTime = BK_TIME_ZERO;
+	clock -> time     = ctx ? ctx -> currentTime : BK_TIME_ZERO;
+	clock -> nextTime = clock -> time;
 }
 
 void BKClockAdvance (BKClock * clock, BKFUInt20 period)
@@ -225,8 +228,15 @@ BKInt BKClockTick (BKClock * clock)
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
 
+		// was detached in callback
+		if (clock -> ctx == NULL)
+			return result;
+
 		BKDividerTick (clock -> dividers.firstDivider, & info);
 
+		if (clock -> ctx == NULL)
+			return result;
+
 		clock -> counter ++;
 
 		// set next time and new period from callback
diff --git a/src/BKContext.c b/src/BKContext.c
index ee1400e..8abb383 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -347,7 +347,7 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
  * Get next clock tick period of all clocks
  * Increment clock times by that period and set new time if some clock ticks
  */
-static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
+static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKInt * error)
 {
 	BKClock * clock;
 	BKTime    nextTime;
@@ -358,9 +358,13 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 		nextTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
-		for (clock = clocks; clock; clock = clock -> nextClock) {
+		for (clock = ctx -> firstClock; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
+			// start over if detached while ticking
+			if (clock -> ctx != ctx)
+				break;
+
 			// get next time to tick
 			if (BKTimeIsLess (clock -> nextTime, nextTime))
 				nextTime = clock -> nextTime;
@@ -378,7 +382,7 @@ static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * err
 	}
 
 	// advance
-	for (clock = clocks; clock; clock = clock -> nextClock)
+	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockAdvance (clock, period);
 
 	ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, period);
@@ -395,7 +399,7 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 	if (ctx -> firstClock) {
 		for (time = ctx -> deltaTime; time < endTime;) {
 			result = 0;
-			clockDelta = BKClocksAdvance (ctx, ctx -> firstClock, & result);
+			clockDelta = BKClocksAdvance (ctx, & result);
 
 			if (result < 0)
 				return result;
-- 
2.43.0


From 4d6ef8b161f9a75913110fd9fdda74d759329b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:09 +0000
Subject: [PATCH 21/51] fix: advance time without clocks and start units at
 current time

---
 src/BKContext.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 8abb383..3a75066 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -398,6 +398,8 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 
 	if (ctx -> firstClock) {
 		for (time = ctx -> deltaTime; time < endTime;) {
+			// units attached in callbacks start at current time
+			ctx -> deltaTime = time;
 			result = 0;
 			clockDelta = BKClocksAdvance (ctx, & result);
 
@@ -415,6 +417,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		ctx -> deltaTime = time;
 	}
 	else {
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime = endTime;
+		}
+
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
-- 
2.43.0


From 9fffbfc827eeccbe85d0fd4ef177dd563b5cfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 22/51] fix: only read frames which are available

---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..df5d34f 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -136,7 +136,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 	BKInt   amp;
 
 	interlace = BKMax (interlace, 1);          // step must be at least 1
-	size      = BKMin (size, buf -> capacity); // can only read available frames
+	size      = BKMin (size, BKBufferSize (buf)); // can only read available frames
 
 	while (frames < & buf -> frames [size]) {
 		accum -= (accum >> (BK_INT_SHIFT - BK_HIGH_PASS_SHIFT));  // apply high pass filter
-- 
2.43.0


From d473061fc45f86806261b4b479f209bf342ddf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 23/51] fix: generate exactly up to the requested time

---
 src/BKContext.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 3a75066..c9e8524 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -312,11 +312,17 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
 	BKInt numFrames = 0;
+	BKInt size, result;
 	BKTime deltaTime;
 	BKFUInt20 period;
+	BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// clocks may be ahead of generated frames by `deltaTime`
+	for (;;) {
+		deltaTime = BKTimeSub (endTime, BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime));
+
+		if (!BKTimeIsGreater (deltaTime, BK_TIME_ZERO))
+			break;
 
 		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 			period = BKTimeGetFUInt20 (deltaTime);
@@ -325,14 +331,13 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 			period = BK_INT_MAX / 3;
 		}
 
-		BKContextEnd (ctx, period);
+		result = BKContextEnd (ctx, period);
 
-		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
-			BKInt size;
-			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
+		if (result < 0)
+			return result;
 
-			size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES);
+		// write all available frames
+		while ((size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES)) > 0) {
 			numFrames += size;
 
 			if (write (frames, size, info) != 0)
-- 
2.43.0


From 9b00a0a6949bef0b3ab6eccccd3c491268458558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 24/51] fix: reset beat and effect dividers when resetting
 context

---
 src/BKContext.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index c9e8524..b85bca5 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -499,6 +499,12 @@ void BKContextReset (BKContext * ctx)
 	for (clock = ctx -> firstClock; clock; clock = clock -> nextClock)
 		BKClockReset (clock);
 
+	for (BKDivider * divider = ctx -> beatDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
+	for (BKDivider * divider = ctx -> effectDividers.firstDivider; divider; divider = divider -> nextDivider)
+		BKDividerReset (divider);
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferClear (channel);
-- 
2.43.0


From 67657948cf08047db03d5b4fc2297857ea2905c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 25/51] fix: read back tremolo and vibrato parameters as set

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 71494a8..fb941d8 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -949,14 +949,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From a2492a31a4299ae9b8b7c8358d11b9e8748c4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 26/51] fix: do not read outside of status names

---
 src/BKBase.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..61407d0 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,8 +48,10 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
-		name = statusNames [BK_STATUS_IDX (status)];
+	BKInt idx = BK_STATUS_IDX (status);
+
+	if (idx >= 0 && idx < (BKInt) (sizeof (statusNames) / sizeof (statusNames [0])) && statusNames [idx]) {
+		name = statusNames [idx];
 	}
 
 	return name;
-- 
2.43.0


From d9ea20c97a9bfdb2067895858c70989307fd523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 27/51] fix: use repeat mode returned by sample callback

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index dae55b3..26936d7 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -235,7 +235,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 4713f26efd1e99a305a62e9f75a52deba861cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 28/51] fix: treat negative number of arpeggio notes as none

---
 src/BKTrack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index fb941d8..366690d 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1026,10 +1026,10 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   count    = 0;
 
 					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
 
 					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
 
-- 
2.43.0


From 8859b5e82c232cfc7e963973364f6f6b5fc1f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 29/51] fix: do not leak or crash when context can not be
 allocated

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index b85bca5..822b239 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -95,6 +97,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 3e07f4f4173d5d8b5cbb77f29f88f64db5556918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 30/51] fix: do not wrap amplitude steps larger than a frame

---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..5b33bc3 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -147,7 +147,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return buf -> time >> BK_FINT20_SHIFT;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From 4fb0c3cbc260cf922714c19fed659a2fd2b82e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 31/51] fix: clamp far exceeded amplitudes to full scale

---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index df5d34f..17be1ae 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = (amp >> (BK_INT_SHIFT - 1)) ^ BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
-- 
2.43.0


From 554196c1d65dd1a44f989936b54e131d3499f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 32/51] fix: do not round slides beyond their target

---
 src/BKInterpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..86a2c72 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -37,7 +37,7 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		// prevent division by 0
 		if ((deltaValue >> state -> valueShift)) {
 			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
+			roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 		}
 
 		state -> endValue  = endValue;
@@ -100,7 +100,7 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			// prevent division by 0
 			if (delta >> state -> valueShift) {
 				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
+				roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 			}
 
 			switch (state -> phase) {
-- 
2.43.0


From 256861c4523e07b683a6fbc422130960f543d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 33/51] fix: keep sample phase inside of sample range

---
 src/BKUnit.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 26936d7..7f4e592 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -370,7 +370,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
@@ -387,7 +387,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// sustain range is relative to sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -571,7 +572,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
@@ -1042,6 +1043,12 @@ static BKInt BKUnitWrapSamplePhase (BKUnit * unit, BKInt min, BKInt max)
 	BKInt resetDir = 0;
 	BKInt length   = max - min;
 
+	// nothing to wrap in empty range
+	if (length <= 0) {
+		unit -> phase.phase = min;
+		return 0;
+	}
+
 	// reset if phase exceeds end
 	if ((BKInt) unit -> phase.phase >= max) {
 		// phase %= length
@@ -1093,7 +1100,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From 6216d839d4605f0b2a74d590011a2432d8df410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 34/51] fix: restart samples in the direction of their range

---
 src/BKUnit.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 7f4e592..9110601 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -479,11 +479,14 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			else {
 				// reset to sample start
 				if (value < 0) {
+					unit -> sample.period = BKAbs (unit -> sample.period);
+
 					if (unit -> sample.end > unit -> sample.offset) {
 						value = 0;
 					}
 					else {
 						value = unit -> sample.length - 1;
+						unit -> sample.period = -unit -> sample.period;
 					}
 				}
 
-- 
2.43.0


From f767c0e35dca251ccbd735ed5c8c93352cdb7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 35/51] fix: keep fraction of time when ending inside of a
 frame

---
 src/BKBuffer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 5b33bc3..c4153ed 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -120,6 +120,11 @@ BK_INLINE BKInt BKBufferEnd (BKBuffer * buf, BKFUInt20 time)
 	time   = buf -> time + time;
 	offset = time >> BK_FINT20_SHIFT;
 
+	// include started frame
+	if (time & BK_FINT20_FRAC) {
+		offset ++;
+	}
+
 	if (offset > buf -> capacity) {
 		buf -> capacity = offset;
 	}
-- 
2.43.0


From 1be1c2816ed8b1a92b2f3d3397f0d5b7eee9a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 36/51] fix: update period of tracks when attaching them to a
 context

---
 src/BKTrack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 366690d..b452e8e 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -520,7 +520,8 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 
 		BKBitSetCond (track -> flags, BKPanningEnabledFlag, ctx -> numChannels == 2);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		// period depends on sample rate of context
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From 52c4f13af716413f70ae9f255c9b7aae92d735de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 37/51] fix: leave room for any start value in duty cycle
 envelopes

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 4eddb48..0558808 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -168,6 +168,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// start value may be any duty cycle
+	maxValue = BKMax (maxValue, BK_MAX_DUTY_CYCLE);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From d0dbba4978b7c0dbaa2a7f6ad37e995edd661454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:21 +0000
Subject: [PATCH 38/51] fix: refuse attaching dividers of a context twice

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 822b239..a83fa13 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -538,7 +538,11 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			BKInt ret = BKDividerAttachToGroup (divider, group);
+
+			if (ret != 0)
+				return ret;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From 4558fdf71744aff5938deb03bae77d1c1d83f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:26 +0000
Subject: [PATCH 39/51] fix: keep time of attached units when resetting

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 9110601..0dc959f 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1285,7 +1285,7 @@ void BKUnitReset (BKUnit * unit)
 
 	unit -> waveform    = 0;
 	unit -> phase.phase = 0;
-	unit -> time = 0;
+	unit -> time = unit -> ctx ? unit -> ctx -> deltaTime : 0;
 
 	for (BKInt i = 0; i < BK_MAX_CHANNELS; i ++)
 		unit -> lastPulse [i] = 0;
-- 
2.43.0


From 61aab7810751635d92190c95c3ed22f9093ede35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 40/51] fix: set and get effects and arpeggio with pointer
 functions of tracks

---
 src/BKTrack.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index b452e8e..969451c 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -1049,9 +1049,20 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 	return 0;
 }
 
+/**
+ * Size of values which are set and returned if no size is given
+ */
+static BKSize BKTrackPtrSize (BKEnum attr)
+{
+	if ((attr & BK_ATTR_TYPE_MASK) == BK_EFFECT_TYPE)
+		return 2 * sizeof (BKInt);
+
+	return (attr == BK_ARPEGGIO) ? sizeof (BKInt) : 0;
+}
+
 BKInt BKTrackSetPtr (BKTrack * track, BKEnum attr, void * ptr)
 {
-	return BKTrackSetPtrObj (track, attr, ptr, 0);
+	return BKTrackSetPtrObj (track, attr, ptr, BKTrackPtrSize (attr));
 }
 
 static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr, BKSize size)
@@ -1097,7 +1108,7 @@ static BKInt BKTrackGetPtrObj (BKTrack const * track, BKEnum attr, void * outPtr
 
 BKInt BKTrackGetPtr (BKTrack const * track, BKEnum attr, void * outPtr)
 {
-	return BKTrackGetPtrObj (track, attr, outPtr, 0);
+	return BKTrackGetPtrObj (track, attr, outPtr, BKTrackPtrSize (attr));
 }
 
 BKClass BKTrackClass =
-- 
2.43.0


From c65a7db7bd38d42e8ce967691dd1400693b8676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 41/51] fix: do not read frames of WAVE files with refused
 sizes

---
 src/BKWaveFileReader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 7bef4b2..ca4e807 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -202,6 +202,7 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 		// size must be in range of number of frames
 		if (reader -> dataSize < 0 || reader -> dataSize > BK_INT_MAX) {
 			reader -> sampleRate = 0;
+			reader -> dataSize   = 0;
 			return -1;
 		}
 
-- 
2.43.0


From 026495f8ee8078f803a715312ea0677166fb3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 42/51] fix: apply range set by sample callback before setting
 sample phase

---
 src/BKUnit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 0dc959f..4106b0d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -477,6 +477,9 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				value = BKClamp (value, 0, unit -> phase.count - 1);
 			}
 			else {
+				// may change range
+				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+
 				// reset to sample start
 				if (value < 0) {
 					unit -> sample.period = BKAbs (unit -> sample.period);
@@ -491,7 +494,6 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				}
 
 				value = BKClamp (value, 0, unit -> sample.length - 1);
-				BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 			}
 
 			unit -> phase.phase = value;
-- 
2.43.0


From dfedde3a866ef345f7f10fd6da3d958a8455611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 43/51] fix: begin samples after their data is set

---
 src/BKUnit.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 4106b0d..105330c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -132,8 +132,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
 				}
 			}
@@ -178,6 +176,10 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 		if (data || (unit -> waveform != BK_CUSTOM && unit -> waveform != BK_SAMPLE)) {
 			BKDataStateSetData (& unit -> sample.dataState, data);
 		}
+
+		// may set ranges of new data
+		if (data && type == BK_SAMPLE)
+			BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 	}
 	// unset data when failed
 	else {
@@ -221,6 +223,9 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 		unit -> waveform      = 0;
 		unit -> sample.frames = NULL;
 	}
+	else if (type == BK_SAMPLE && event != BK_DATA_STATE_EVENT_DISPOSE) {
+		BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
+	}
 
 	return res;
 }
-- 
2.43.0


From ab8562f552326bf5a65c4d70d82bf97d8e36da77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 44/51] fix: repeat samples whose callback has moved the phase

---
 src/BKUnit.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 105330c..5f25669 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1117,6 +1117,12 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 		}
 	}
 
+	// callback has moved phase into range; keep direction
+	if (resetDir == 0 && unit -> sample.length > 0) {
+		if (repeatMode == BK_REPEAT || repeatMode == BK_PALINDROME)
+			mode = unit -> sample.period < 0 ? -1 : 1;
+	}
+
 	// halt
 	if (mode == 0) {
 		halt = 1;
-- 
2.43.0


From 25dc1413df6e26eb025455dd40e334ee531c416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 45/51] fix: follow mute and sustain range set by sample
 callback

---
 src/BKUnit.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 5f25669..2d8abdb 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1198,6 +1198,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 			if (BKUnitResetSample (unit) == 1) {
 				break;
 			}
+
+			// callback may have changed state
+			if (unit -> mute || unit -> sample.length < 2) {
+				break;
+			}
+
+			checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
 		}
 
 		// check for sustain range boundary
-- 
2.43.0


From 9890470963bc8e2eaa1a6517e2d40ccc88c11ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 46/51] fix: do not move phase of other waveforms when
 releasing samples

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 2d8abdb..90eb151 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -580,7 +580,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				unit -> object.flags = (unit -> object.flags & ~BKUnitFlagRelease) | value;
 
 				if (value) {
-					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
+					if (unit -> waveform == BK_SAMPLE && (unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
 							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
-- 
2.43.0


From ba7e71ebd4a609238d83b2508f2e44ddc4b0a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:59 +0000
Subject: [PATCH 47/51] fix: copy empty data whose memory was allocated

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index e7942cf..2c4e2da 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -198,7 +198,7 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
-	if (original -> frames)
+	if (original -> numFrames)
 		res = BKDataSetFrames (copy, original -> frames, original -> numFrames, original -> numChannels, 1);
 
 	if (res < 0) {
-- 
2.43.0


From 8f9bb460d301d8d2daf0ff666f7944bb31d98820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:53 +0000
Subject: [PATCH 48/51] fix: end buffers also for units attached later

---
 src/BKContext.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index a83fa13..e3cc784 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -460,6 +460,11 @@ BKInt BKContextEnd (BKContext * ctx, BKFUInt20 endTime)
 	// shift channel buffers
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
+
+		// units may have been attached at a later time
+		if (ctx -> firstUnit)
+			BKBufferEnd (channel, endTime);
+
 		BKBufferShift (channel, endTime);
 	}
 
-- 
2.43.0


From 4c791a37386b61ac835d2c78e6790cc58b7e017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:30 +0000
Subject: [PATCH 49/51] fix: new notes end release of samples whose sustain
 range was removed

---
 src/BKUnit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 90eb151..df5762c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -575,7 +575,8 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_FLAG_RELEASE: {
-			if (unit -> object.flags & BKUnitFlagSampleSustainRange) {
+			// can be cleared also if sustain range was removed in the meantime
+			if (value == 0 || (unit -> object.flags & BKUnitFlagSampleSustainRange)) {
 				value = value ? BKUnitFlagRelease : 0;
 				unit -> object.flags = (unit -> object.flags & ~BKUnitFlagRelease) | value;
 
-- 
2.43.0


From 4871e350cdb9cd5ea3f0f66bcf3a24cf09367937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:56 +0000
Subject: [PATCH 50/51] fix: start clocks moved to other contexts in callbacks
 at their time

---
 src/BKClock.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 7b87c54..07db8c6 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -218,6 +218,7 @@ BKInt BKClockTick (BKClock * clock)
 {
 	BKInt result = 0;
 	BKCallbackInfo info;
+	BKContext * ctx = clock -> ctx;
 
 	if (BKTimeIsEqual (clock -> time, clock -> nextTime)) {
 		memset (& info, 0, sizeof (BKCallbackInfo));
@@ -228,13 +229,13 @@ BKInt BKClockTick (BKClock * clock)
 		if (clock -> callback.func)
 			result = clock -> callback.func (& info, clock -> callback.userInfo);
 
-		// was detached in callback
-		if (clock -> ctx == NULL)
+		// was detached or moved to other context in callback
+		if (clock -> ctx == NULL || clock -> ctx != ctx)
 			return result;
 
 		BKDividerTick (clock -> dividers.firstDivider, & info);
 
-		if (clock -> ctx == NULL)
+		if (clock -> ctx == NULL || clock -> ctx != ctx)
 			return result;
 
 		clock -> counter ++;
-- 
2.43.0


From 2b4dea4401a5b286143c413bb491e788fec82d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 51/51] fix: add and subtract more than 2047 samples on systems
 with 32-bit times

BKTimeSubFUInt20 shifted the whole difference as a signed number, so that a
subtrahend of 2048 samples or more came back as a larger time. The addition
lost its carry.
---
 src/BKTime.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index fa845c2..375de55 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -158,10 +158,10 @@ BK_INLINE BKTime BKTimeAddFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac + b;
+	frac = a.frac + (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time += (frac >> BK_FINT20_SHIFT);
+	a.time += (b >> BK_FINT20_SHIFT) + (frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
@@ -183,10 +183,10 @@ BK_INLINE BKTime BKTimeSubFUInt20 (BKTime a, BKFUInt20 b)
 {
 	BKFUInt20 frac;
 
-	frac = a.frac - b;
+	frac = a.frac - (b & BK_FINT20_FRAC);
 
 	a.frac = frac & BK_FINT20_FRAC;
-	a.time = a.time + ((BKInt) frac >> BK_FINT20_SHIFT);
+	a.time = a.time - (BKInt) (b >> BK_FINT20_SHIFT) + ((BKInt) frac >> BK_FINT20_SHIFT);
 
 	return a;
 }
-- 
2.43.0

