From 424c64615fb8d37284431cf7ccb87707347c9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 01/20] fix: enforce the limit of a bytes list in the dry check

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From 5269fa108d99aa8a05f4fb59bec733b9989c5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 02/20] fix: fuzz-mode length of basic lists must respect the
 input and the limit

---
 types/ssz_list_basic.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..f0e36cb 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,14 +97,15 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	// respect type limit
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
+		bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 	}
-	bytesLen := x % span
-	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From 30ec7d9133aacf4d4ad8cc54de2bd374311db2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 03/20] fix: fuzz-mode lists of variable-size elements must
 respect the limit

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..49d2651 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -118,6 +118,10 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	length := uint64(0)
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
+		// respect type limit
+		if length > v.limit {
+			length = v.limit
+		}
 	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
-- 
2.43.0


From 5458f3fc7c27be5fc1d6cb25e4c20e862b43ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 04/20] fix: mask the last byte of fuzz-mode bitlists with the
 bits left in it

---
 types/ssz_bitlist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..94688bc 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -112,7 +112,9 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 8 {
+			data[len(data)-1] &= (1 << (bitsLeft + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From 6d390eb2415ccbfcf9d24e41818c9a28404e14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 05/20] fix: maximum fuzzing length of a bitlist of limit 0 is
 below the minimum

---
 types/ssz_bitlist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 94688bc..b852e6a 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -49,7 +49,10 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
-	// 8 for a random byte count, limit for maximum fill
+	// 8 for a random byte count, limit for maximum fill. There is always a byte for the delimiting bit.
+	if v.byteLimit == 0 {
+		return 8 + 1
+	}
 	return 8 + v.byteLimit
 }
 
-- 
2.43.0


From 22e58ac8d666e9e28e95e1bd0a597ad4166852e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 06/20] fix: clear unused bits of bitvectors in fuzz mode

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..e896207 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// mask last byte, unused bits must be 0
+		data[len(data)-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From 242861d5ccefdddf569df4162bcce72c13bb7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 07/20] fix: accept data that the reader returns together with
 EOF

---
 dec/decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..ee54502 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,8 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		// a reader may return the last of the data together with an error (EOF)
+		if err != nil && n < len(p) {
 			return n, err
 		}
 	}
-- 
2.43.0


From 3ba8cdf6b589129139b47f65109919172c0ecbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 08/20] fix: skipping 2^63 or more bytes must not succeed
 without reading

---
 dec/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dec/decoder.go b/dec/decoder.go
index ee54502..cd25258 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -64,6 +64,9 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
+	if int64(count) < 0 {
+		return 0, fmt.Errorf("cannot skip %d bytes, count is too large", count)
+	}
 	switch r := dr.input.(type) {
 	case io.Seeker:
 		n, err := r.Seek(int64(count), io.SeekCurrent)
-- 
2.43.0


From a9d86e37905f91371f2172880275d45fc32f4fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 09/20] fix: remove the delimiting bit from the root of a
 bitlist that fills its last chunk

---
 types/ssz_bitlist.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index b852e6a..efff6d3 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -152,8 +152,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, or copy it if the last (full) chunk contains the delimiting bit
+		if e > byteLen || (e == byteLen && bitLen&7 != 0) {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
-- 
2.43.0


From 7a1956d23380427cc6201a889a370bb4f27a131d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 10/20] fix: big-endian decoding of basic vectors must use the
 element count

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 961a4db84b2ed63abe9edc9bb9c946c786d90a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 11/20] fix: count the offsets in the maximum length of lists
 of variable-size elements

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 49d2651..d9f6fe3 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 3241f19f8d2d3cdf2fab36813e0bf7967a0dee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 12/20] fix: check the limit of basic lists and bitlists before
 allocating

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index efff6d3..cc2f7f5 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -107,6 +107,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the limit before allocating
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index f0e36cb..3b309e2 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -121,6 +121,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
+	// check the limit before allocating
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From c8eef738d358199fbbfa099ad0d570517c64b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 13/20] fix: do not leave illegal bool values in memory when
 decoding fails

---
 types/basic_series.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..53cf174 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -42,26 +42,19 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 	}
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
-	if _, err := dr.Read(data); err != nil {
-		return err
-	}
+	_, err := dr.Read(data)
 	if isBoolElem {
-		if dr.IsFuzzMode() {
-			// just make it correct where necessary
-			for i := 0; i < len(data); i++ {
-				if data[i] > 1 {
-					data[i] = 1
-				}
-			}
-		} else {
-			for i := 0; i < len(data); i++ {
-				if data[i] > 1 {
-					return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, data[i])
+		// make it correct where necessary, also on errors: the memory holds Go bools, which may only be 0 or 1.
+		for i := 0; i < len(data); i++ {
+			if data[i] > 1 {
+				if err == nil && !dr.IsFuzzMode() {
+					err = fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, data[i])
 				}
+				data[i] = 1
 			}
 		}
 	}
-	return nil
+	return err
 }
 
 // WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
-- 
2.43.0


From a9e019dafac81879c92119dbf77ae9445290c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 14/20] fix: merkle branches next to padding, and beyond the
 leaves, must hold the true siblings

---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..d9b01f4 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the rest of it is padding),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// the next power of two may be smaller than the ultimate virtual size,
+	// complement with zero-hashes at each depth. The index may be in this padding.
+	for j := depth; j < limitDepth; j++ {
+		if index>>j == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From fccdd7fbffc95ebe2a140a57d020dfeeb95c3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:17 +0000
Subject: [PATCH 15/20] fix: keep the plain field name when squashing through
 several levels

---
 types/ssz_container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_container.go b/types/ssz_container.go
index 1abafdc..b0a7208 100644
--- a/types/ssz_container.go
+++ b/types/ssz_container.go
@@ -36,7 +36,7 @@ func (c *ContainerField) Wrap(name string, memOffset uintptr) ContainerField {
 	return ContainerField{
 		ssz:      c.ssz,
 		name:     name + ">" + c.name,
-		pureName: c.name,
+		pureName: c.pureName,
 		ptrFn:    c.ptrFn.WrapOffset(memOffset),
 		isFixed:  c.ssz.IsFixed(),
 	}
-- 
2.43.0


From 6f56da91d9f4a5ba2ad05300d5dd65d890bc98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 16/20] fix: rounding up limits near 2^64 must not overflow

---
 types/basic_series.go | 4 ++--
 types/ssz_bitlist.go  | 2 +-
 types/ssz_bytes.go    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 53cf174..d54c6db 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -74,7 +74,7 @@ func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, b
 		return data[s:e]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
+	leafLimit := (bytesLimit >> 5) + ((bytesLimit&31)+31)>>5 // limit rounded up, without overflow
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
@@ -111,7 +111,7 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, byte
 		return d[:]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
+	leafLimit := (bytesLimit >> 5) + ((bytesLimit&31)+31)>>5 // limit rounded up, without overflow
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index cc2f7f5..a704dae 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,7 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	byteLimit := (bitLimit >> 3) + ((bitLimit&7)+7)>>3 // rounded up, without overflow
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index ba5bac2..a355da3 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -105,7 +105,7 @@ func (v *SSZBytes) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	data := *(*[]byte)(unsafe.Pointer(sh))
 	dataLen := uint64(len(data))
 	leafCount := (dataLen + 31) >> 5
-	leafLimit := (v.limit + 31) >> 5
+	leafLimit := (v.limit >> 5) + ((v.limit&31)+31)>>5 // limit rounded up, without overflow
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-- 
2.43.0


From 740d739c2183a9d00e92c12e4082350d3894b49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 17/20] fix: byte length of bitvectors near 2^64 bits must not
 overflow

---
 bitfields/bitvector.go | 2 +-
 types/ssz_bitvector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..d807f88 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -30,7 +30,7 @@ func BitvectorCheck(b []byte, n uint64) error {
 }
 
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	if expected := (bitLength >> 3) + ((bitLength&7)+7)>>3; byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index e896207..aaa0509 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if (bitLen>>3)+((bitLen&7)+7)>>3 != byteLen {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 711818d32519f35eec3f0e8b91da3bff4958940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 18/20] fix: Limit and BitLen methods on value receivers must
 not panic

---
 types/limit.go         | 4 ++++
 types/ssz_bitvector.go | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/types/limit.go b/types/limit.go
index 4d02c8c..be6757e 100644
--- a/types/limit.go
+++ b/types/limit.go
@@ -13,6 +13,10 @@ func ReadListLimit(typ reflect.Type) (uint64, error) {
 	if !ptrTyp.Implements(listType) {
 		return 0, fmt.Errorf("*typ (pointer type) is not a ssz list")
 	}
+	if typ.Implements(listType) {
+		// declared on the type itself: the method cannot be called on a nil pointer
+		return reflect.Zero(typ).Interface().(lists.List).Limit(), nil
+	}
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)
 	return typedNil.Limit(), nil
 }
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index aaa0509..f923bce 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -31,8 +31,12 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	if !ptrTyp.Implements(bitvectorMeta) {
 		return nil, fmt.Errorf("*typ (pointer type) is not a bitvector")
 	}
-	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
-	bitLen := typedNil.BitLen()
+	meta := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
+	if typ.Implements(bitvectorMeta) {
+		// declared on the type itself: the method cannot be called on a nil pointer
+		meta = reflect.Zero(typ).Interface().(bitfields.BitvectorMeta)
+	}
+	bitLen := meta.BitLen()
 	byteLen := uint64(typ.Len())
 	if (bitLen>>3)+((bitLen&7)+7)>>3 != byteLen {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
-- 
2.43.0


From 0bef5e8a5b255b3cdca5752bcde2ca251556399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 19/20] fix: recursive types must be refused, not recursed into
 forever

---
 types/factory.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/types/factory.go b/types/factory.go
index 815ae23..5229187 100644
--- a/types/factory.go
+++ b/types/factory.go
@@ -9,7 +9,19 @@ type SSZFactoryFn func(typ reflect.Type) (SSZ, error)
 
 // The default SSZ factory
 func SSZFactory(typ reflect.Type) (SSZ, error) {
-	return DefaultSSZFactory(SSZFactory, typ)
+	return factoryWithin(nil)(typ)
+}
+
+// The default SSZ factory for a type nested in the given types, none of which it can contain again.
+func factoryWithin(parents []reflect.Type) SSZFactoryFn {
+	return func(typ reflect.Type) (SSZ, error) {
+		for _, p := range parents {
+			if p == typ {
+				return nil, fmt.Errorf("ssz: type %s is recursive", typ.String())
+			}
+		}
+		return DefaultSSZFactory(factoryWithin(append(parents[:len(parents):len(parents)], typ)), typ)
+	}
 }
 
 func DefaultSSZFactory(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
-- 
2.43.0


From ed70afc189c2166fce3f898bdab5604037929f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:31 +0000
Subject: [PATCH 20/20] fix: a read or skip beyond the scope never changes the
 index

The check for the end of the scope overflowed for counts near 2^64 (Skip on
a reader without a scope): the skip failed, but the index went backwards.
---
 dec/decoder.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index cd25258..68658f9 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,10 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	if span := dr.GetBytesSpan(); x > span {
+		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0

