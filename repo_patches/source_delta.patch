From 908006bb017f7051bb93125f7dd7782f459934f3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 01/23] fix: accept readers that return the final bytes
 together with io.EOF

---
 dec/decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 6c500f4..1bfbf22 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -85,7 +85,9 @@ func (dr *DecodingReader) Read(p []byte) (int, error) {
 	for n < len(p) {
 		v, err := dr.input.Read(p[n:])
 		n += v
-		if err != nil {
+		// a reader may return its last bytes together with an error (e.g. io.EOF),
+		// the error is only a problem if there is not enough data.
+		if err != nil && n < len(p) {
 			return n, err
 		}
 	}
-- 
2.43.0


From b3a0dbce894efea006b6c987aa657be05096bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/23] fix: enforce the limit of byte lists in DryCheck, like
 Decode does

---
 types/ssz_bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 644ea36..ba5bac2 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -92,7 +92,11 @@ func (v *SSZBytes) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 }
 
 func (v *SSZBytes) DryCheck(dr *DecodingReader) error {
-	_, err := dr.Skip(dr.GetBytesSpan())
+	length := dr.GetBytesSpan()
+	if length > v.limit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", length, v.limit)
+	}
+	_, err := dr.Skip(length)
 	return err
 }
 
-- 
2.43.0


From 0e221be072e0f9455518a6eafc207dd5fa03f03e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 03/23] fix: exclude the delimiting bit from bitlist roots when
 it is in the last byte of a full leaf

---
 types/ssz_bitlist.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index f39422c..72cace0 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -147,8 +147,8 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-		// pad the data
-		if e > byteLen {
+		// pad the data, and/or cut off the length-determining bit if it is in the last byte of this leaf
+		if e > byteLen || (e == byteLen && bitLen&7 != 0) {
 			x := [32]byte{}
 			copy(x[:], data[s:byteLen])
 			if bitLen&7 != 0 && byteLen != 0 { // if we not already cut off the delimiting bit with a bytes boundary
@@ -160,7 +160,7 @@ func (v *SSZBitlist) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 			}
 			return x[:]
 		}
-		// if the last leaf does not have to be padded,
+		// if the last leaf does not have to be padded, and the bits end on a byte boundary,
 		// then the length-determining bitlist bit is already cut off,
 		// i.e. as sole bit in next (ignored) chunk of data.
 		return data[s:e]
-- 
2.43.0


From 0cd6e7d0ef2c06b011e03829dd5db53fc791ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/23] fix: keep fuzz-mode basic lists within the available
 input and the list limit, and reset them when empty

---
 types/ssz_list_basic.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 5477be1..f0e36cb 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -97,14 +97,15 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 		return err
 	}
 	span := dr.GetBytesSpan()
-	if v.byteLimit > span {
+	// respect type limit
+	if span > v.byteLimit {
 		span = v.byteLimit
 	}
-	if span == 0 {
-		return nil
+	bytesLen := uint64(0)
+	if span != 0 {
+		bytesLen = x % span
+		bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 	}
-	bytesLen := x % span
-	bytesLen -= bytesLen % v.elemSSZ.FixedLen()
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-- 
2.43.0


From d958f43d0fbf346950a4424c75f399beb60800a1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 05/23] fix: keep fuzz-mode lists within the list limit

---
 types/ssz_list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index 40ba4f5..d4c0c35 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -119,6 +119,10 @@ func (v *SSZList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) error {
 	if span != 0 {
 		length = (x % span) / v.elemSSZ.FuzzMinLen()
 	}
+	// the span may fit more minimum-size elements than the limit allows
+	if length > v.limit {
+		length = v.limit
+	}
 	contentsPtr := v.alloc.MutateLenOrAllocNew(p, length)
 	if v.elemSSZ.IsFixed() {
 		return DecodeFixedSeries(v.elemSSZ.Decode, length, v.elemMemSize, dr, contentsPtr)
-- 
2.43.0


From 6241ef247503d0f95774e6bb78d4752a65d86ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 06/23] fix: keep fuzz-mode bitlists within the bit limit

---
 types/ssz_bitlist.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 72cace0..0cd7ee0 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -112,7 +112,9 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	}
 	if dr.IsFuzzMode() {
 		// mask last byte to stay within bit-limit
-		data[len(data)-1] &= (1 << (v.bitLimit + 1)) - 1
+		if bitsLeft := v.bitLimit - ((byteLen - 1) << 3); bitsLeft < 8 {
+			data[len(data)-1] &= (1 << (bitsLeft + 1)) - 1
+		}
 		if data[len(data)-1] == 0 {
 			// last byte must not be 0 for bitlist to be valid
 			data[len(data)-1] = 1
-- 
2.43.0


From feece7ce0b75e95b248b2bffc671e9230c2f4c9b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/23] fix: mask unused bits of fuzz-mode bitvectors instead
 of failing

---
 types/ssz_bitvector.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index b3ad2a9..e2bff2b 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -86,6 +86,10 @@ func (v *SSZBitvector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if _, err := dr.Read(data); err != nil {
 		return err
 	}
+	if dr.IsFuzzMode() && v.bitLen&7 != 0 {
+		// zero out the unused bits, to turn the random data into a valid bitvector
+		data[v.byteLen-1] &= (1 << (v.bitLen & 7)) - 1
+	}
 	// check if the data is a valid bitvector value (0 bits for unused bits)
 	return bitfields.BitvectorCheck(data, v.bitLen)
 }
-- 
2.43.0


From e9509eff86252ffc8cd051e1201e157fc8dae786 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 08/23] fix: complete merkle proofs of partially filled trees

---
 merkle/merkleize.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/merkle/merkleize.go b/merkle/merkleize.go
index 2a411a5..235394c 100644
--- a/merkle/merkleize.go
+++ b/merkle/merkleize.go
@@ -151,9 +151,9 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		for j = 0; ; j++ {
 			// TODO: better than full tree allocation, but style/efficiency can be improved.
 			// if i is a sibling of index at the given depth,
-			// and i is the last index of the subtree to that depth,
+			// and i is the last index of the subtree to that depth (or the rest of the subtree is padding),
 			// then put h into the branch
-			if (i>>j)^1 == (index>>j) && (((1<<j)-1)&i) == ((1<<j)-1) {
+			if (i>>j)^1 == (index>>j) && (i == count || (((1<<j)-1)&i) == ((1<<j)-1)) {
 				// insert sibling into the proof
 				branch[j] = hArr
 			}
@@ -188,5 +188,14 @@ func ConstructProof(hasher MerkleFn, count uint64, limit uint64, leaf func(i uin
 		merge(count)
 	}
 
+	// the index may be outside of the subtree that covers the leafs,
+	// the branch then goes through the root of that subtree, extended with zero-hashes.
+	for j := depth; j < limitDepth; j++ {
+		if (index >> j) == 1 {
+			branch[j] = tmp[j]
+		}
+		tmp[j+1] = hasher.Combi(tmp[j], ZeroHashes[j])
+	}
+
 	return
 }
-- 
2.43.0


From 34c43dc62c0d9b27f8258765d6db062ea5e6fa9d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/23] fix: decode as many elements as the basic vector has,
 not bytes, on big-endian hosts

---
 types/ssz_vector_basic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_vector_basic.go b/types/ssz_vector_basic.go
index 92faf44..a3f31d2 100644
--- a/types/ssz_vector_basic.go
+++ b/types/ssz_vector_basic.go
@@ -85,7 +85,7 @@ func (v *SSZBasicVector) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		return LittleEndianBasicSeriesDecode(dr, p, v.byteLen, v.byteLen, v.elemKind == reflect.Bool)
 	} else {
-		return DecodeFixedSeries(v.elemSSZ.Decode, v.byteLen, uintptr(v.elemSSZ.FixedLen()), dr, p)
+		return DecodeFixedSeries(v.elemSSZ.Decode, v.length, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
 }
 
-- 
2.43.0


From 5b077a896592d42b7e0c4b1f09170790c0c95713 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 10/23] fix: count the offsets in the maximum length of lists
 with variable-size elements

---
 types/ssz_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/ssz_list.go b/types/ssz_list.go
index d4c0c35..da6c6a6 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -43,7 +43,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		byteLimit = limit * elemSSZ.FixedLen()
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * elemSSZ.MaxLen()
+		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
-- 
2.43.0


From 7f42b41c978bca7c9b64a8369247b898f998b9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 11/23] fix: check the limit of basic lists and bitlists before
 allocating the announced length

---
 types/ssz_bitlist.go    | 4 ++++
 types/ssz_list_basic.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 0cd7ee0..6852b1f 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -104,6 +104,10 @@ func (v *SSZBitlist) Decode(dr *DecodingReader, p unsafe.Pointer) error {
 		byteLen += 1
 	} else {
 		byteLen = dr.GetBytesSpan()
+		// check the length before allocating space for it
+		if err := bitfields.BitlistCheckByteLen(byteLen, v.bitLimit); err != nil {
+			return err
+		}
 	}
 	ptrutil.BytesAllocFn(p, byteLen)
 	data := *(*[]byte)(p)
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index f0e36cb..febef06 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -122,6 +122,10 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 		return fmt.Errorf("cannot decode basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
 
+	if bytesLen > v.byteLimit {
+		return fmt.Errorf("got %d bytes, expected no more than %d bytes", bytesLen, v.byteLimit)
+	}
+
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
 		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-- 
2.43.0


From fafc4ad05b56985826463c9154e8d86bec41867e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 12/23] fix: never leave invalid bool values in the destination
 when decoding a bool series fails

---
 types/basic_series.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 8de9e60..0c24a32 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -35,6 +35,12 @@ func LittleEndianBasicSeriesEncode(eb *EncodingWriter, p unsafe.Pointer, bytesLe
 	return eb.Write(data)
 }
 
+func zeroBytes(data []byte) {
+	for i := range data {
+		data[i] = 0
+	}
+}
+
 // WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
 func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64, isBoolElem bool) error {
 	if bytesLen > bytesLimit {
@@ -43,6 +49,10 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 	if _, err := dr.Read(data); err != nil {
+		if isBoolElem {
+			// don't leave unchecked bytes behind as bools
+			zeroBytes(data)
+		}
 		return err
 	}
 	if isBoolElem {
@@ -55,8 +65,10 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 			}
 		} else {
 			for i := 0; i < len(data); i++ {
-				if data[i] > 1 {
-					return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, data[i])
+				if v := data[i]; v > 1 {
+					// don't leave invalid bools behind
+					zeroBytes(data)
+					return fmt.Errorf("byte %d in bool list is not a valid bool value: %d", i, v)
 				}
 			}
 		}
-- 
2.43.0


From f7ff234de31ffa308a6b1e14a58ddf756f3460e1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 13/23] fix: basic lists with a limit whose size in bytes
 exceeds 64 bits

limit * element size wrapped around: such lists refused valid input, and
their roots panicked or had the wrong depth.
---
 types/basic_series.go   | 12 ++++++++++--
 types/ssz_list_basic.go | 29 +++++++++++++++++++----------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/types/basic_series.go b/types/basic_series.go
index 0c24a32..ec1976b 100644
--- a/types/basic_series.go
+++ b/types/basic_series.go
@@ -78,6 +78,11 @@ func LittleEndianBasicSeriesDecode(dr *DecodingReader, p unsafe.Pointer, bytesLe
 
 // WARNING: for little-endian architectures only, or the elem-length has to be 1 byte
 func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64) [32]byte {
+	return littleEndianLeavesHTR(h, p, bytesLen, (bytesLimit+31)>>5)
+}
+
+// like LittleEndianBasicSeriesHTR, but limited by the number of leaves.
+func littleEndianLeavesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -93,7 +98,6 @@ func LittleEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, b
 		return data[s:e]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
@@ -114,6 +118,11 @@ func BigToLittleEndianChunk(data [32]byte, elemSize uint8) (out [32]byte) {
 
 // counter-part of LittleEndianBasicSeriesHTR
 func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, bytesLimit uint64, elemSize uint8) [32]byte {
+	return bigEndianLeavesHTR(h, p, bytesLen, (bytesLimit+31)>>5, elemSize)
+}
+
+// counter-part of littleEndianLeavesHTR
+func bigEndianLeavesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, leafLimit uint64, elemSize uint8) [32]byte {
 	bytesSh := ptrutil.GetSliceHeader(p, bytesLen)
 	data := *(*[]byte)(unsafe.Pointer(bytesSh))
 
@@ -130,7 +139,6 @@ func BigEndianBasicSeriesHTR(h MerkleFn, p unsafe.Pointer, bytesLen uint64, byte
 		return d[:]
 	}
 	leafCount := (bytesLen + 31) >> 5
-	leafLimit := (bytesLimit + 31) >> 5
 	return merkle.Merkleize(h, leafCount, leafLimit, leaf)
 }
 
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index febef06..2a78a14 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -8,6 +8,7 @@ import (
 	. "github.com/protolambda/zssz/pretty"
 	"github.com/protolambda/zssz/util/endianness"
 	"github.com/protolambda/zssz/util/ptrutil"
+	"math"
 	"reflect"
 	"unsafe"
 )
@@ -18,6 +19,7 @@ type SSZBasicList struct {
 	elemSSZ   SSZ
 	limit     uint64
 	byteLimit uint64
+	leafLimit uint64
 }
 
 func NewSSZBasicList(typ reflect.Type) (*SSZBasicList, error) {
@@ -39,12 +41,23 @@ func NewSSZBasicList(typ reflect.Type) (*SSZBasicList, error) {
 		return nil, fmt.Errorf("basic element type has different size than SSZ type unexpectedly, ssz: %d, go: %d", elemSSZ.FixedLen(), elemTyp.Size())
 	}
 
+	byteLimit := limit * elemSSZ.FixedLen()
+	if limit > math.MaxUint64/elemSSZ.FixedLen() {
+		// more than what can be addressed: not limiting
+		byteLimit = math.MaxUint64
+	}
+	elemsPerLeaf := 32 / elemSSZ.FixedLen()
+	leafLimit := limit / elemsPerLeaf
+	if limit%elemsPerLeaf != 0 {
+		leafLimit++
+	}
 	res := &SSZBasicList{
 		alloc:     ptrutil.MakeSliceAllocFn(typ),
 		elemKind:  elemKind,
 		elemSSZ:   elemSSZ,
 		limit:     limit,
-		byteLimit: limit * elemSSZ.FixedLen(),
+		byteLimit: byteLimit,
+		leafLimit: leafLimit,
 	}
 	return res, nil
 }
@@ -109,8 +122,7 @@ func (v *SSZBasicList) decodeFuzzmode(dr *DecodingReader, p unsafe.Pointer) erro
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
@@ -128,8 +140,7 @@ func (v *SSZBasicList) decode(dr *DecodingReader, p unsafe.Pointer) error {
 
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
 		contentsPtr := v.alloc.MutateLenOrAllocNew(p, bytesLen/v.elemSSZ.FixedLen())
-		bytesLimit := v.limit * v.elemSSZ.FixedLen()
-		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+		return LittleEndianBasicSeriesDecode(dr, contentsPtr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 	} else {
 		return DecodeFixedSlice(v.elemSSZ.Decode, v.elemSSZ.FixedLen(), bytesLen, v.limit, v.alloc, uintptr(v.elemSSZ.FixedLen()), dr, p)
 	}
@@ -148,19 +159,17 @@ func (v *SSZBasicList) DryCheck(dr *DecodingReader) error {
 	if bytesLen%v.elemSSZ.FixedLen() != 0 {
 		return fmt.Errorf("invalid basic type array, input has length %d, not compatible with element length %d", bytesLen, v.elemSSZ.FixedLen())
 	}
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
-	return BasicSeriesDryCheck(dr, bytesLen, bytesLimit, v.elemKind == reflect.Bool)
+	return BasicSeriesDryCheck(dr, bytesLen, v.byteLimit, v.elemKind == reflect.Bool)
 }
 
 func (v *SSZBasicList) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	sh := ptrutil.ReadSliceHeader(p)
 
 	bytesLen := uint64(sh.Len) * v.elemSSZ.FixedLen()
-	bytesLimit := v.limit * v.elemSSZ.FixedLen()
 	if endianness.IsLittleEndian || v.elemSSZ.FixedLen() == 1 {
-		return h.MixIn(LittleEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit), uint64(sh.Len))
+		return h.MixIn(littleEndianLeavesHTR(h, sh.Data, bytesLen, v.leafLimit), uint64(sh.Len))
 	} else {
-		return h.MixIn(BigEndianBasicSeriesHTR(h, sh.Data, bytesLen, bytesLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
+		return h.MixIn(bigEndianLeavesHTR(h, sh.Data, bytesLen, v.leafLimit, uint8(v.elemSSZ.FixedLen())), uint64(sh.Len))
 	}
 }
 
-- 
2.43.0


From a11b7ca641c6c62b43776763c71977e95a602a78 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 14/23] fix: leaf limit of byte lists and bitlists with a limit
 close to 2^64

Rounding up wrapped around, the root of a non-empty list panicked.
---
 types/ssz_bitlist.go | 5 ++++-
 types/ssz_bytes.go   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 6852b1f..6ec96a8 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -32,7 +32,10 @@ func NewSSZBitlist(typ reflect.Type) (*SSZBitlist, error) {
 	if err != nil {
 		return nil, err
 	}
-	byteLimit := (bitLimit + 7) >> 3
+	byteLimit := bitLimit >> 3
+	if bitLimit&7 != 0 {
+		byteLimit++
+	}
 	res := &SSZBitlist{
 		bitLimit:  bitLimit,
 		byteLimit: byteLimit,
diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index ba5bac2..49f8e62 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -105,7 +105,10 @@ func (v *SSZBytes) HashTreeRoot(h MerkleFn, p unsafe.Pointer) [32]byte {
 	data := *(*[]byte)(unsafe.Pointer(sh))
 	dataLen := uint64(len(data))
 	leafCount := (dataLen + 31) >> 5
-	leafLimit := (v.limit + 31) >> 5
+	leafLimit := v.limit >> 5
+	if v.limit&31 != 0 {
+		leafLimit++
+	}
 	leaf := func(i uint64) []byte {
 		s := i << 5
 		e := (i + 1) << 5
-- 
2.43.0


From 97bd9e633aa276a46b2638ba755163e85176bdb1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 15/23] fix: report recursive types instead of recursing
 without end

---
 types/factory.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/types/factory.go b/types/factory.go
index 815ae23..368459f 100644
--- a/types/factory.go
+++ b/types/factory.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"fmt"
+	"github.com/protolambda/zssz/util/tags"
 	"reflect"
 )
 
@@ -9,7 +10,40 @@ type SSZFactoryFn func(typ reflect.Type) (SSZ, error)
 
 // The default SSZ factory
 func SSZFactory(typ reflect.Type) (SSZ, error) {
-	return DefaultSSZFactory(SSZFactory, typ)
+	if err := checkNotRecursive(typ, make(map[reflect.Type]bool)); err != nil {
+		return nil, err
+	}
+	return uncheckedSSZFactory(typ)
+}
+
+func uncheckedSSZFactory(typ reflect.Type) (SSZ, error) {
+	return DefaultSSZFactory(uncheckedSSZFactory, typ)
+}
+
+// Recursive types have no finite SSZ definition.
+// The parents are the types that contain the given type, they may not be part of it.
+func checkNotRecursive(typ reflect.Type, parents map[reflect.Type]bool) error {
+	switch typ.Kind() {
+	case reflect.Ptr, reflect.Array, reflect.Slice, reflect.Struct:
+	default:
+		return nil
+	}
+	if parents[typ] {
+		return fmt.Errorf("ssz: type %s is recursive", typ.String())
+	}
+	parents[typ] = true
+	defer delete(parents, typ)
+	if typ.Kind() != reflect.Struct {
+		return checkNotRecursive(typ.Elem(), parents)
+	}
+	for i, c := 0, typ.NumField(); i < c; i++ {
+		if f := typ.Field(i); !tags.HasFlag(&f, SSZ_TAG, OMIT_FLAG) {
+			if err := checkNotRecursive(f.Type, parents); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
 }
 
 func DefaultSSZFactory(factory SSZFactoryFn, typ reflect.Type) (SSZ, error) {
-- 
2.43.0


From c8ec46d0b4c605461ac36cea4c8c31938095a9db Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:46:46 +0000
Subject: [PATCH 16/23] fix: do not let length bounds of types with huge limits
 wrap around

---
 types/limit.go          | 17 +++++++++++++++++
 types/ssz_bytes.go      |  2 +-
 types/ssz_container.go  |  6 +++---
 types/ssz_list.go       |  6 +++---
 types/ssz_list_basic.go |  2 +-
 types/ssz_vector.go     |  6 +++---
 6 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/types/limit.go b/types/limit.go
index 4d02c8c..1b3af35 100644
--- a/types/limit.go
+++ b/types/limit.go
@@ -3,6 +3,7 @@ package types
 import (
 	"fmt"
 	"github.com/protolambda/zssz/lists"
+	"math"
 	"reflect"
 )
 
@@ -16,3 +17,19 @@ func ReadListLimit(typ reflect.Type) (uint64, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(lists.List)
 	return typedNil.Limit(), nil
 }
+
+// Adds two length bounds. A bound that does not fit in 64 bits becomes the maximum uint64.
+func addLenBounds(a uint64, b uint64) uint64 {
+	if a > math.MaxUint64-b {
+		return math.MaxUint64
+	}
+	return a + b
+}
+
+// Length bound of the given count of elements. A bound that does not fit in 64 bits becomes the maximum uint64.
+func mulLenBound(count uint64, bound uint64) uint64 {
+	if bound != 0 && count > math.MaxUint64/bound {
+		return math.MaxUint64
+	}
+	return count * bound
+}
diff --git a/types/ssz_bytes.go b/types/ssz_bytes.go
index 49f8e62..7e48402 100644
--- a/types/ssz_bytes.go
+++ b/types/ssz_bytes.go
@@ -35,7 +35,7 @@ func (v *SSZBytes) FuzzMinLen() uint64 {
 }
 
 func (v *SSZBytes) FuzzMaxLen() uint64 {
-	return 8 + v.limit
+	return addLenBounds(8, v.limit)
 }
 
 func (v *SSZBytes) MinLen() uint64 {
diff --git a/types/ssz_container.go b/types/ssz_container.go
index 1abafdc..598c9bf 100644
--- a/types/ssz_container.go
+++ b/types/ssz_container.go
@@ -125,15 +125,15 @@ func NewSSZContainer(factory SSZFactoryFn, typ reflect.Type) (*SSZContainer, err
 			}
 			res.fixedLen += fixed
 			res.minLen += fixed
-			res.maxLen += fixed
+			res.maxLen = addLenBounds(res.maxLen, fixed)
 		} else {
 			res.fixedLen += BYTES_PER_LENGTH_OFFSET
 			res.minLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MinLen()
-			res.maxLen += BYTES_PER_LENGTH_OFFSET + field.ssz.MaxLen()
+			res.maxLen = addLenBounds(res.maxLen, addLenBounds(BYTES_PER_LENGTH_OFFSET, field.ssz.MaxLen()))
 			res.offsetCount++
 		}
 		res.fuzzMinLen += field.ssz.FuzzMinLen()
-		res.fuzzMaxLen += field.ssz.FuzzMaxLen()
+		res.fuzzMaxLen = addLenBounds(res.fuzzMaxLen, field.ssz.FuzzMaxLen())
 	}
 	res.isFixedLen = res.offsetCount == 0
 	return res, nil
diff --git a/types/ssz_list.go b/types/ssz_list.go
index da6c6a6..e1c3dff 100644
--- a/types/ssz_list.go
+++ b/types/ssz_list.go
@@ -40,10 +40,10 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 	var fixedElemSize, byteLimit uint64
 	if elemSSZ.IsFixed() {
 		fixedElemSize = elemSSZ.FixedLen()
-		byteLimit = limit * elemSSZ.FixedLen()
+		byteLimit = mulLenBound(limit, elemSSZ.FixedLen())
 	} else {
 		fixedElemSize = BYTES_PER_LENGTH_OFFSET
-		byteLimit = limit * (BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen())
+		byteLimit = mulLenBound(limit, addLenBounds(BYTES_PER_LENGTH_OFFSET, elemSSZ.MaxLen()))
 	}
 	res := &SSZList{
 		alloc:         ptrutil.MakeSliceAllocFn(typ),
@@ -52,7 +52,7 @@ func NewSSZList(factory SSZFactoryFn, typ reflect.Type) (*SSZList, error) {
 		fixedElemSize: fixedElemSize,
 		limit:         limit,
 		byteLimit:     byteLimit,
-		maxFuzzLen:    8 + (limit * elemSSZ.FuzzMaxLen()),
+		maxFuzzLen:    addLenBounds(8, mulLenBound(limit, elemSSZ.FuzzMaxLen())),
 	}
 	return res, nil
 }
diff --git a/types/ssz_list_basic.go b/types/ssz_list_basic.go
index 2a78a14..48790f6 100644
--- a/types/ssz_list_basic.go
+++ b/types/ssz_list_basic.go
@@ -67,7 +67,7 @@ func (v *SSZBasicList) FuzzMinLen() uint64 {
 }
 
 func (v *SSZBasicList) FuzzMaxLen() uint64 {
-	return 8 + v.byteLimit
+	return addLenBounds(8, v.byteLimit)
 }
 
 func (v *SSZBasicList) MinLen() uint64 {
diff --git a/types/ssz_vector.go b/types/ssz_vector.go
index 6925624..d786fbd 100644
--- a/types/ssz_vector.go
+++ b/types/ssz_vector.go
@@ -46,7 +46,7 @@ func NewSSZVector(factory SSZFactoryFn, typ reflect.Type) (*SSZVector, error) {
 	} else {
 		fixedElemLen = BYTES_PER_LENGTH_OFFSET
 		minElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MinLen()
-		maxElemLen = BYTES_PER_LENGTH_OFFSET + elemSSZ.MaxLen()
+		maxElemLen = addLenBounds(BYTES_PER_LENGTH_OFFSET, elemSSZ.MaxLen())
 	}
 	res := &SSZVector{
 		length:      length,
@@ -55,9 +55,9 @@ func NewSSZVector(factory SSZFactoryFn, typ reflect.Type) (*SSZVector, error) {
 		isFixedLen:  elemSSZ.IsFixed(),
 		fixedLen:    fixedElemLen * length,
 		minLen:      minElemLen * length,
-		maxLen:      maxElemLen * length,
+		maxLen:      mulLenBound(length, maxElemLen),
 		fuzzMinLen:  elemSSZ.FuzzMinLen() * length,
-		fuzzMaxLen:  elemSSZ.FuzzMaxLen() * length,
+		fuzzMaxLen:  mulLenBound(length, elemSSZ.FuzzMaxLen()),
 	}
 	return res, nil
 }
-- 
2.43.0


From 7d27397dbfd6063fda866624ae3bf63440ade8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 03:57:22 +0000
Subject: [PATCH 17/23] fix: the fuzz-mode maximum of bitlists limited to 0
 bits did not count the byte with the delimiting bit

---
 types/ssz_bitlist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/types/ssz_bitlist.go b/types/ssz_bitlist.go
index 6ec96a8..cb7a925 100644
--- a/types/ssz_bitlist.go
+++ b/types/ssz_bitlist.go
@@ -52,7 +52,10 @@ func (v *SSZBitlist) FuzzMinLen() uint64 {
 
 // in bytes (rounded up), not bits
 func (v *SSZBitlist) FuzzMaxLen() uint64 {
-	// 8 for a random byte count, limit for maximum fill
+	// 8 for a random byte count, limit for maximum fill. There is always a byte with the delimiting bit.
+	if v.byteLimit == 0 {
+		return 8 + 1
+	}
 	return 8 + v.byteLimit
 }
 
-- 
2.43.0


From 2175d80051d5b6ea67cd38eb4d613626681921d0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 04:08:16 +0000
Subject: [PATCH 18/23] fix: bitvectors of close to 2^64 bits do not fit in 0
 bytes

---
 bitfields/bitvector.go | 7 ++++++-
 types/ssz_bitvector.go | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bitfields/bitvector.go b/bitfields/bitvector.go
index 8cde0a6..63a8f84 100644
--- a/bitfields/bitvector.go
+++ b/bitfields/bitvector.go
@@ -30,7 +30,12 @@ func BitvectorCheck(b []byte, n uint64) error {
 }
 
 func BitvectorCheckByteLen(byteLen uint64, bitLength uint64) error {
-	if expected := (bitLength + 7) >> 3; byteLen != expected {
+	// rounded up, without adding to the bit length: that would wrap around for lengths close to 2^64
+	expected := bitLength >> 3
+	if bitLength&7 != 0 {
+		expected++
+	}
+	if byteLen != expected {
 		return fmt.Errorf("bitvector of %d bytes has not expected length in bytes %d", byteLen, expected)
 	}
 	return nil
diff --git a/types/ssz_bitvector.go b/types/ssz_bitvector.go
index e2bff2b..256cd10 100644
--- a/types/ssz_bitvector.go
+++ b/types/ssz_bitvector.go
@@ -34,7 +34,7 @@ func NewSSZBitvector(typ reflect.Type) (*SSZBitvector, error) {
 	typedNil := reflect.New(ptrTyp).Elem().Interface().(bitfields.BitvectorMeta)
 	bitLen := typedNil.BitLen()
 	byteLen := uint64(typ.Len())
-	if (bitLen+7)>>3 != byteLen {
+	if bitfields.BitvectorCheckByteLen(byteLen, bitLen) != nil {
 		return nil, fmt.Errorf("bitvector type has not the expected %d bytes to cover %d bits", byteLen, bitLen)
 	}
 	res := &SSZBitvector{bitLen: bitLen, byteLen: byteLen}
-- 
2.43.0


From 7d2b476172108ed6d815b08cef8d8d98a067534e Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:19:37 +0000
Subject: [PATCH 19/23] fix: dec: do not let the scope check of a reader wrap
 around 64 bits

---
 dec/decoder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 1bfbf22..0692086 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -52,11 +52,11 @@ func (dr *DecodingReader) Max() uint64 {
 }
 
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
-	v := dr.i + x
-	if v > dr.max {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, v-dr.max)
+	// compare with what is left: the sum of index and count can exceed 64 bits
+	if span := dr.max - dr.i; x > span {
+		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
-	dr.i = v
+	dr.i += x
 	return int(x), nil
 }
 
-- 
2.43.0


From b92f902c780d30f0fae99fdcd68cffdb662e498d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:19:55 +0000
Subject: [PATCH 20/23] fix: dec: skipping in a seekable input went beyond its
 end, and returned the position

---
 dec/decoder.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 0692086..4e22510 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -66,8 +66,17 @@ func (dr *DecodingReader) Skip(count uint64) (int, error) {
 	}
 	switch r := dr.input.(type) {
 	case io.Seeker:
-		n, err := r.Seek(int64(count), io.SeekCurrent)
-		return int(n), err
+		if count == 0 {
+			return 0, nil
+		}
+		// seeking can go beyond the end of the input, reading the last byte cannot.
+		if _, err := r.Seek(int64(count-1), io.SeekCurrent); err != nil {
+			return 0, err
+		}
+		if _, err := io.ReadFull(dr.input, dr.scratch[0:1]); err != nil {
+			return 0, err
+		}
+		return int(count), nil
 	default:
 		n, err := io.CopyN(ioutil.Discard, dr.input, int64(count))
 		return int(n), err
-- 
2.43.0


From 46fec326a01af7adb0613b8fa1903a9ae65d8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:19:55 +0000
Subject: [PATCH 21/23] fix: dec: skipping 2^63 bytes or more succeeded without
 taking any

---
 dec/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dec/decoder.go b/dec/decoder.go
index 4e22510..81b189f 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"unsafe"
 )
 
@@ -61,6 +62,9 @@ func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
 }
 
 func (dr *DecodingReader) Skip(count uint64) (int, error) {
+	if count > math.MaxInt64 {
+		return 0, fmt.Errorf("cannot skip %d bytes, no input is that long", count)
+	}
 	if n, err := dr.checkedIndexUpdate(count); err != nil {
 		return n, err
 	}
-- 
2.43.0


From ac3ce613545b8498068e19bc3760b1ff587d92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:19:55 +0000
Subject: [PATCH 22/23] fix: dec: a refused read returned the index as the
 number of bytes it read

---
 dec/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 81b189f..02436b3 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -55,7 +55,7 @@ func (dr *DecodingReader) Max() uint64 {
 func (dr *DecodingReader) checkedIndexUpdate(x uint64) (n int, err error) {
 	// compare with what is left: the sum of index and count can exceed 64 bits
 	if span := dr.max - dr.i; x > span {
-		return int(dr.i), fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
+		return 0, fmt.Errorf("cannot read %d bytes, %d beyond scope", x, x-span)
 	}
 	dr.i += x
 	return int(x), nil
-- 
2.43.0


From c766168371fa60c5dfa728c8e60abe146e395987 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 05:21:14 +0000
Subject: [PATCH 23/23] fix: dec: nothing could be read in a scope of 2^63
 bytes or more

---
 dec/decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dec/decoder.go b/dec/decoder.go
index 02436b3..dbe10a4 100644
--- a/dec/decoder.go
+++ b/dec/decoder.go
@@ -29,7 +29,11 @@ func (dr *DecodingReader) Scope(count uint64) (*DecodingReader, error) {
 	if span := dr.GetBytesSpan(); span < count {
 		return nil, fmt.Errorf("cannot create scoped decoding reader, scope of %d bytes is bigger than parent scope has available space %d", count, span)
 	}
-	return &DecodingReader{input: io.LimitReader(dr.input, int64(count)), i: 0, max: count}, nil
+	limit := int64(math.MaxInt64)
+	if count < math.MaxInt64 {
+		limit = int64(count)
+	}
+	return &DecodingReader{input: io.LimitReader(dr.input, limit), i: 0, max: count}, nil
 }
 
 func (dr *DecodingReader) EnableFuzzMode() {
-- 
2.43.0

