From 5d931e002100e9b149aed975afcdeec9ac97aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:41 +0000
Subject: [PATCH 01/69] fix: tuple set operations must not share summaries with
 their inputs or results

---
 tuple/arrayofnumbers_intersection.go | 2 +-
 tuple/arrayofnumbers_union.go        | 7 ++++++-
 tuple/compact_sketch.go              | 7 ++++++-
 tuple/intersection.go                | 2 +-
 tuple/union.go                       | 7 ++++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..c92fa12 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -176,6 +176,11 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 		slices.SortFunc(entries, u.entryLessFunc)
 	}
 
+	// The result must not share summaries with the state of the union.
+	for i := range entries {
+		entries[i].Summary = entries[i].Summary.Clone().(*ArrayOfNumbersSummary[V])
+	}
+
 	seedHash, err := internal.ComputeSeedHash(int64(u.hashtable.seed))
 	if err != nil {
 		return nil, err
diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..43cc753 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -103,9 +103,14 @@ func NewCompactSketchFromThetaSketch[S Summary](
 
 	entries := make([]entry[S], 0, sketch.NumRetained())
 	for hash := range sketch.All() {
+		cloned, ok := summary.Clone().(S)
+		if !ok {
+			return nil, fmt.Errorf("cloned summary is not S")
+		}
+
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: cloned,
 		})
 	}
 
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..5e03d12 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -268,6 +268,11 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 		slices.SortFunc(entries, u.entryLessFunc)
 	}
 
+	// The result must not share summaries with the state of the union.
+	for i := range entries {
+		entries[i].Summary = entries[i].Summary.Clone().(S)
+	}
+
 	seedHash, err := internal.ComputeSeedHash(int64(u.hashtable.seed))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b791cc0a390d1b85b0940e3381127ef255756fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 02/69] fix: kll level capacity overflowed for k >= 32768

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..c3dede4 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1021,7 +1021,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From db147fb05ee850fb178b6624ac81bac944655e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 03/69] fix: kll GetPartitionBoundaries must not alter the
 sketch's cached sorted view

---
 kll/items_sketch_sorted_view.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..106aa71 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,10 +182,14 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
-	s.cumWeights[0] = 1
-	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
-	s.quantiles[0] = s.minItem
-	s.quantiles[len(s.quantiles)-1] = s.maxItem
+	// The ends are adjusted on a copy, because this view is cached by the sketch.
+	view := *s
+	view.cumWeights = slices.Clone(s.cumWeights)
+	view.quantiles = slices.Clone(s.quantiles)
+	view.cumWeights[0] = 1
+	view.cumWeights[len(view.cumWeights)-1] = int64(view.totalN)
+	view.quantiles[0] = view.minItem
+	view.quantiles[len(view.quantiles)-1] = view.maxItem
 
 	evSpNormRanks, err := evenlySpacedDoubles(0, 1.0, numEquallySized+1)
 	if err != nil {
@@ -193,13 +198,13 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	evSpQuantiles := make([]C, len(evSpNormRanks))
 	evSpNatRanks := make([]int64, len(evSpNormRanks))
 	for i := 0; i < len(evSpNormRanks); i++ {
-		index, err := s.getQuantileIndex(evSpNormRanks[i], inclusive)
+		index, err := view.getQuantileIndex(evSpNormRanks[i], inclusive)
 		if err != nil {
 			return nil, err
 		}
 
-		evSpQuantiles[i] = s.quantiles[index]
-		evSpNatRanks[i] = s.cumWeights[index]
+		evSpQuantiles[i] = view.quantiles[index]
+		evSpNatRanks[i] = view.cumWeights[index]
 	}
 	return newItemsSketchPartitionBoundaries[C](s.totalN, evSpQuantiles, evSpNatRanks, evSpNormRanks, s.maxItem, s.minItem, inclusive)
 }
-- 
2.43.0


From 6f528c207d728bb260f5dda3594fbf17be878444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 04/69] fix: kll serialization of an empty string as the
 minimum or maximum item

---
 kll/items_sketch.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index c3dede4..61b22c8 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -641,12 +641,7 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
-- 
2.43.0


From fee2f864e4dbedeed682e84156e12d9e935f5aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 05/69] fix: kll Reset restores minK

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 61b22c8..21efaec 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -476,6 +476,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 // Reset this sketch to the empty state.
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
+	s.minK = s.k
 	s.isLevelZeroSorted = false
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
-- 
2.43.0


From 185c953ff4c42854d678247804792e9564018a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 06/69] fix: kll decoding must reject malformed images instead
 of panicking

---
 common/item_sketch_double.go |  4 +++
 common/item_sketch_float.go  |  4 +++
 common/item_sketch_long.go   |  4 +++
 common/item_sketch_string.go |  8 +++---
 kll/items_sketch.go          | 10 +++++---
 kll/items_sketch_validate.go | 50 +++++++++++++++++++++++++++++-------
 kll/sketch_structure.go      | 14 +++++-----
 7 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..5eea98f 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 
 	"github.com/twmb/murmur3"
@@ -74,6 +75,9 @@ func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems == 0 {
 		return []float64{}, nil
 	}
+	if numItems < 0 || offsetBytes < 0 || offsetBytes > len(mem) || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..736b2a7 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 	"math"
 )
 
@@ -67,6 +68,9 @@ func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes i
 		return []float32{}, nil
 	}
 
+	if numItems < 0 || offsetBytes < 0 || offsetBytes > len(mem) || numItems > (len(mem)-offsetBytes)/4 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float32frombits(binary.LittleEndian.Uint32(mem[offsetBytes:])))
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..4b1df6f 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -19,6 +19,7 @@ package common
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/twmb/murmur3"
 )
@@ -73,6 +74,9 @@ func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes in
 	if numItems == 0 {
 		return []int64{}, nil
 	}
+	if numItems < 0 || offsetBytes < 0 || offsetBytes > len(mem) || numItems > (len(mem)-offsetBytes)/8 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..4d9dfe9 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,6 +117,10 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
+	// every string takes at least its length prefix
+	if offsetBytes < 0 || offsetBytes > len(mem) || numItems > (len(mem)-offsetBytes)/4 {
+		return nil, errors.New("offset out of bounds")
+	}
 	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
@@ -127,13 +131,11 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
-		copy(utf8Bytes, mem[offset:offset+strLength])
+		array[i] = string(mem[offset : offset+strLength])
 		offset += strLength
-		array[i] = string(utf8Bytes)
 	}
 	return array, nil
 }
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 21efaec..a28683d 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -66,6 +66,8 @@ const (
 	_MAX_K     = (1 << 16) - 1
 	_MIN_M     = 2 //The minimum M
 	_MAX_M     = 8 //The maximum M
+
+	_MAX_NUM_LEVELS = 61 //The maximum number of levels for which a level capacity is defined
 )
 
 var (
@@ -155,7 +157,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -563,10 +565,10 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
 	for i := uint8(0); i < numLevels; i++ {
-		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
+		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+int(i)*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4:], minMaxByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..e54e8d0 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,13 +57,15 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
-	if capa < 8 {
-		return nil, fmt.Errorf("Memory too small: %d", capa)
+	if len(srcMem) < _DATA_START_ADR_SINGLE_ITEM {
+		return nil, fmt.Errorf("Memory too small: %d", len(srcMem))
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
-	sketchStructure := getSketchStructure(preInts, serVer)
+	sketchStructure, err := getSketchStructure(preInts, serVer)
+	if err != nil {
+		return nil, err
+	}
 	familyID := getFamilyID(srcMem)
 	if familyID != internal.FamilyEnum.Kll.Id {
 		return nil, fmt.Errorf("Source not KLL: %d", familyID)
@@ -71,7 +73,7 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 	flags := getFlags(srcMem)
 	k := getK(srcMem)
 	m := getM(srcMem)
-	err := checkM(m)
+	err = checkM(m)
 	if err != nil {
 		return nil, err
 	}
@@ -107,16 +109,27 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
-		// Get Levels Arr and add the last element
-		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
-		for i := uint8(0); i < vlid.numLevels; i++ {
-			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
+		if vlid.numLevels < 1 || int(vlid.numLevels) > _MAX_NUM_LEVELS {
+			return fmt.Errorf("Invalid number of levels: %d", vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
+		vlid.levelsArr = make([]uint32, int(vlid.numLevels)+1)
+		for i := 0; i < int(vlid.numLevels); i++ {
+			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4:])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		if err := checkLevels(vlid.levelsArr, vlid.n); err != nil {
+			return err
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
@@ -151,6 +164,25 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 	return nil
 }
 
+// checkLevels checks that the levels are in order and that the weights of the items they hold sum to n.
+func checkLevels(levelsArr []uint32, n uint64) error {
+	remaining := n
+	for i := 0; i < len(levelsArr)-1; i++ {
+		if levelsArr[i] > levelsArr[i+1] {
+			return fmt.Errorf("Levels out of order: %d, %d", levelsArr[i], levelsArr[i+1])
+		}
+		pop := uint64(levelsArr[i+1] - levelsArr[i])
+		if pop > remaining>>i {
+			return fmt.Errorf("Levels hold more weight than n: %d", n)
+		}
+		remaining -= pop << i
+	}
+	if n == 0 || remaining != 0 {
+		return fmt.Errorf("Levels do not hold the weight n: %d", n)
+	}
+	return nil
+}
+
 func computeSketchBytes[C comparable](srcMem []byte, levelsArr []uint32, typeBytes int, serde common.ItemSketchSerde[C]) (int, error) {
 	numLevels := len(levelsArr) - 1
 	retainedItems := levelsArr[numLevels] - levelsArr[0]
diff --git a/kll/sketch_structure.go b/kll/sketch_structure.go
index 78a39c0..a875e08 100644
--- a/kll/sketch_structure.go
+++ b/kll/sketch_structure.go
@@ -17,6 +17,8 @@
 
 package kll
 
+import "errors"
+
 type sketchStructure struct {
 	preInts int
 	serVer  int
@@ -33,19 +35,19 @@ func (s sketchStructure) getPreInts() int { return s.preInts }
 
 func (s sketchStructure) getSerVer() int { return s.serVer }
 
-func getSketchStructure(preInts, serVer int) sketchStructure {
+func getSketchStructure(preInts, serVer int) (sketchStructure, error) {
 	if preInts == _PREAMBLE_INTS_EMPTY_SINGLE {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_EMPTY
+			return _COMPACT_EMPTY, nil
 		} else if serVer == _SERIAL_VERSION_SINGLE {
-			return _COMPACT_SINGLE
+			return _COMPACT_SINGLE, nil
 		}
 	} else if preInts == _PREAMBLE_INTS_FULL {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_FULL
+			return _COMPACT_FULL, nil
 		} else if serVer == _SERIAL_VERSION_UPDATABLE {
-			return _UPDATABLE
+			return _UPDATABLE, nil
 		}
 	}
-	panic("Invalid preamble ints and serial version combo")
+	return sketchStructure{}, errors.New("Invalid preamble ints and serial version combo")
 }
-- 
2.43.0


From 0cd4f745f98f87558f28f5fc49926691db2a4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 07/69] fix: req merge into a new sketch must take the other
 sketch's extremes

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..b53a983 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -74,6 +74,8 @@ func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 	}
 	for _, option := range options {
 		option(sk)
-- 
2.43.0


From 36c42578a33a711ec0e64c1bd455cba42e9c7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 08/69] fix: req quantile bounds of a valid rank must not fail
 when the rank bound leaves [0,1]

---
 req/sketch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index b53a983..c7bcab0 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -379,6 +379,9 @@ func (s *Sketch) QuantileLowerBound(
 	if err != nil {
 		return 0, err
 	}
+	if rank >= 0 {
+		lb = max(lb, 0)
+	}
 	return s.Quantile(lb)
 }
 
@@ -422,6 +425,9 @@ func (s *Sketch) QuantileUpperBound(
 	if err != nil {
 		return 0, err
 	}
+	if rank <= 1 {
+		ub = min(ub, 1)
+	}
 	return s.Quantile(ub)
 }
 
-- 
2.43.0


From 4c98c00392d761fc23263df205f4dbf22845052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 09/69] fix: tdigest Quantile interpolated between centroids
 with the weights swapped

---
 tdigest/double.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..974a122 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -401,7 +401,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 			}
 			w1 := weight - weightSoFar - leftWeight
 			w2 := weightSoFar + dw - weight - rightWeight
-			return weightedAverage(d.centroids[i].mean, w1, d.centroids[i+1].mean, w2), nil
+			return weightedAverage(d.centroids[i].mean, w2, d.centroids[i+1].mean, w1), nil
 		}
 		weightSoFar += dw
 	}
-- 
2.43.0


From cd785ec3a332d889ea72fbf2eefd3284cf99f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 10/69] fix: tdigest Quantile exceeded the maximum in a heavy
 last centroid and accepted a NaN rank

---
 tdigest/double.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 974a122..d48e9a0 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -350,7 +350,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if math.IsNaN(rank) || rank < 0.0 || rank > 1.0 {
 		return 0, ErrInvalidRank
 	}
 
@@ -376,7 +376,10 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	lastWeight := float64(d.centroids[len(d.centroids)-1].weight)
 	if lastWeight > 1 && float64(d.centroidsWeight)-weight <= lastWeight/2.0 {
-		return d.max + (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
+		if lastWeight == 2 {
+			return d.max, nil
+		}
+		return d.max - (float64(d.centroidsWeight)-weight-1.0)/(lastWeight/2.0-1.0)*(d.max-d.centroids[len(d.centroids)-1].mean), nil
 	}
 
 	// interpolate between extremes
-- 
2.43.0


From 91a813eb8afb87a45c2f5ec715501685d9733705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 11/69] fix: tdigest Merge must keep the other digest's exact
 minimum and maximum

---
 tdigest/double.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index d48e9a0..e98a35a 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,8 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	d.min = min(d.min, other.min)
+	d.max = max(d.max, other.max)
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From f07df802ee206d7bd6d36d2c473a791f7e29f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 12/69] fix: tdigest decoding must validate images before
 trusting their counts and weights

---
 tdigest/double.go         |  2 +-
 tdigest/double_decoder.go | 55 +++++++++++++++++++++++++--------------
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index e98a35a..0549bee 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -188,7 +188,7 @@ func (d *Double) Update(value float64) error {
 		return ErrInfinity
 	}
 
-	if len(d.buffer) == d.centroidsCapacity*bufferMultiplier {
+	if len(d.buffer) >= d.centroidsCapacity*bufferMultiplier {
 		d.compress()
 	}
 	d.buffer = append(d.buffer, value)
diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..5ec49c4 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -34,6 +34,10 @@ var (
 	errUnexpectedPreamble    = errors.New("unexpected sketch preamble")
 )
 
+// maxDecoderPreallocation limits what a stream decoder reserves before reading
+// the elements, whatever number of elements the image claims.
+const maxDecoderPreallocation = 1024
+
 // DoubleDecoder decodes a Double from the given reader.
 type DoubleDecoder struct{}
 
@@ -140,13 +144,13 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxDecoderPreallocation))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var meanBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &meanBytes); err != nil {
 			return nil, err
@@ -158,8 +162,6 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		if err := validateInf(mean, "centroid mean"); err != nil {
 			return nil, err
 		}
-		centroids[i].mean = mean
-
 		var weightBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &weightBytes); err != nil {
 			return nil, err
@@ -169,12 +171,12 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids[i].weight = weight
+		centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: weight})
 		totalWeight += weight
 	}
 
-	buffer := make([]float64, numBuffered)
-	for i := range buffer {
+	buffer := make([]float64, 0, min(numBuffered, maxDecoderPreallocation))
+	for range numBuffered {
 		var dataBytes uint64
 		if err := binary.Read(r, binary.LittleEndian, &dataBytes); err != nil {
 			return nil, err
@@ -188,7 +190,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		buffer[i] = bufferedValue
+		buffer = append(buffer, bufferedValue)
 	}
 
 	return newDoubleFromInternalStates(reverseMerge, k, minVal, maxVal, centroids, totalWeight, buffer)
@@ -200,6 +202,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
+
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
 		if err := binary.Read(r, binary.BigEndian, &minValBytes); err != nil {
@@ -230,15 +236,15 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 			return nil, err
 		}
 
-		centroids := make([]doublePrecisionCentroid, numCentroids)
+		centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxDecoderPreallocation))
 		var totalWeight uint64
-		for i := range centroids {
+		for range numCentroids {
 			var weightBytes uint64
 			if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 				return nil, err
 			}
 			weight := math.Float64frombits(weightBytes)
-			if err := validateZero(weight, "centroid weight"); err != nil {
+			if err := validateCompatWeight(weight); err != nil {
 				return nil, err
 			}
 
@@ -254,7 +260,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 				return nil, err
 			}
 
-			centroids[i] = doublePrecisionCentroid{mean: mean, weight: uint64(weight)}
+			centroids = append(centroids, doublePrecisionCentroid{mean: mean, weight: uint64(weight)})
 			totalWeight += uint64(weight)
 		}
 
@@ -295,15 +301,15 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 
-	centroids := make([]doublePrecisionCentroid, numCentroids)
+	centroids := make([]doublePrecisionCentroid, 0, min(numCentroids, maxDecoderPreallocation))
 	var totalWeight uint64
-	for i := range centroids {
+	for range numCentroids {
 		var weightBytes uint32
 		if err := binary.Read(r, binary.BigEndian, &weightBytes); err != nil {
 			return nil, err
 		}
 		weight := math.Float32frombits(weightBytes)
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight)); err != nil {
 			return nil, err
 		}
 
@@ -315,11 +321,11 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
-		centroids[i] = doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)}
+		centroids = append(centroids, doublePrecisionCentroid{mean: float64(mean), weight: uint64(weight)})
 		totalWeight += uint64(weight)
 	}
 
@@ -504,7 +510,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		for i := range centroids {
 			weight := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
 			offset += 8
-			if err := validateZero(float64(weight), "centroid weight"); err != nil {
+			if err := validateCompatWeight(float64(weight)); err != nil {
 				return nil, err
 			}
 
@@ -559,7 +565,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	for i := range centroids {
 		weight := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
 		offset += 4
-		if err := validateZero(float64(weight), "centroid weight"); err != nil {
+		if err := validateCompatWeight(float64(weight)); err != nil {
 			return nil, err
 		}
 
@@ -599,3 +605,12 @@ func validateZero(v float64, name string) error {
 	}
 	return nil
 }
+
+// validateCompatWeight checks a centroid weight of the reference implementation's formats,
+// which store weights as floating point numbers.
+func validateCompatWeight(v float64) error {
+	if !(v >= 1 && v < 1<<63) {
+		return errors.New("centroid weight: out of range")
+	}
+	return nil
+}
-- 
2.43.0


From 245d59f79627177c405200155e9ec5bfd4177df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 13/69] fix: tdigest ranks and quantiles of a digest with one
 centroid of many values

---
 tdigest/double.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 0549bee..973b95d 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -277,7 +277,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 		return 1, nil
 	}
 	// one doublePrecisionCentroid and value == min == max
-	if len(d.centroids)+len(d.buffer) == 1 {
+	if d.isSingleValue() {
 		return 0.5, nil
 	}
 
@@ -358,7 +358,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 
 	d.compress() // side effect
 
-	if len(d.centroids) == 1 {
+	if d.isSingleValue() {
 		return d.centroids[0].mean, nil
 	}
 
-- 
2.43.0


From c57ede463120f6164b06c3b248611d5849bb6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 14/69] fix: tdigest Rank beyond a single-value end centroid
 must stay monotone

---
 tdigest/double.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 973b95d..4880ab0 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -287,7 +287,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	firstMean := d.centroids[0].mean
 	if value < firstMean {
 		if firstMean-d.min > 0 {
-			if value == d.min {
+			if value == d.min || d.centroids[0].weight == 1 {
 				return 0.5 / float64(d.centroidsWeight), nil
 			}
 			return (1.0 + (value-d.min)/(firstMean-d.min)*(float64(d.centroids[0].weight)/2.0-1.0)) / float64(d.centroidsWeight), nil
@@ -299,7 +299,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	lastMean := d.centroids[len(d.centroids)-1].mean
 	if value > lastMean {
 		if d.max-lastMean > 0 {
-			if value == d.max {
+			if value == d.max || d.centroids[len(d.centroids)-1].weight == 1 {
 				return 1.0 - 0.5/float64(d.centroidsWeight), nil
 			}
 			return 1.0 - ((1.0 + (d.max-value)/(d.max-lastMean)*(float64(d.centroids[len(d.centroids)-1].weight)/2.0-1.0)) / float64(d.centroidsWeight)), nil
-- 
2.43.0


From 544dc3c3eaf8616bcce36fb1037144be795089e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 15/69] fix: tdigest legacy float format size check let a
 truncated image panic

---
 tdigest/double_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 5ec49c4..7bf2b32 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -531,7 +531,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
 		return nil, errInsufficientData
 	}
 
-- 
2.43.0


From 40c417e51d0221681a20ca44788dc1c7ee14c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 16/69] fix: frequencies sketch purged of all items is not
 empty: merge and serialization lost its stream weight and error

---
 frequencies/items_sketch.go | 2 +-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..6362aeb 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -325,7 +325,7 @@ func (i *ItemsSketch[C]) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty.
 func (i *ItemsSketch[C]) IsEmpty() bool {
-	return i.GetNumActiveItems() == 0
+	return i.GetNumActiveItems() == 0 && i.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..5397f60 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -393,7 +393,7 @@ func (s *LongsSketch) GetStreamLength() int64 {
 
 // IsEmpty returns true if this sketch is empty
 func (s *LongsSketch) IsEmpty() bool {
-	return s.GetNumActiveItems() == 0
+	return s.GetNumActiveItems() == 0 && s.streamWeight == 0
 }
 
 // Update this sketch with an item and a frequency count of one.
-- 
2.43.0


From fff2ef06897bbc119d14ed7e04ca200b31172fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:40 +0000
Subject: [PATCH 17/69] fix: frequencies items sketch with a map size below the
 minimum panicked on its first purge

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 6362aeb..c4877f4 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From dfde90bdfa0af4ff64b102d2e0f1bc62b61f7cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 18/69] fix: frequencies decoding lost an empty items sketch's
 map size and rejected negative keys in strings

---
 frequencies/items_sketch.go                | 2 +-
 frequencies/reverse_purge_long_hash_map.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index c4877f4..ffe2b72 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -141,7 +141,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..5007fb0 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -288,7 +288,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
@@ -296,7 +296,7 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, int64(value))
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 907547bcc86ce8d7da594a532d75bb7898b667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 19/69] fix: frequencies decoding must validate an image before
 using its counts and map sizes

---
 frequencies/items_sketch.go | 18 +++++++++---------
 frequencies/longs_sketch.go | 23 ++++++++++++++---------
 frequencies/utils.go        | 11 +++++++++++
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ffe2b72..3737401 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -137,7 +137,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible corruption: familyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 { //Byte 5 and Byte 0
+	if empty != preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
@@ -149,22 +149,22 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		preArr[j] = int64(binary.LittleEndian.Uint64(slc[j<<3:]))
 	}
 
-	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, lgCurMapSize, hasher, serde)
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + activeItems*8 // count Arr only
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
+
+	fis, err := NewFrequencyItemsSketch[C](lgMaxMapSize, decodedLgMapSize(lgCurMapSize, activeItems), hasher, serde)
 	if err != nil {
 		return nil, err
 	}
 	fis.streamWeight = 0 // update after
 	fis.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + activeItems*8 // count Arr only
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 5397f60..ec7abbf 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -124,7 +124,7 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if familyID != actFamID {
 		return nil, fmt.Errorf("possible Corruption: FamilyID must be %d: %d", actFamID, familyID)
 	}
-	if empty && !preLongsEq1 {
+	if empty != preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
 	if empty {
@@ -135,22 +135,22 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	for i := 0; i < preLongs; i++ {
 		preArr[i] = int64(binary.LittleEndian.Uint64(slc[i<<3:]))
 	}
-	fls, err := NewLongsSketch(lgMaxMapSize, lgCurMapSize)
+	preBytes := preLongs << 3
+	activeItems := extractActiveItems(preArr[1])
+	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
+	if len(slc) < reqBytes {
+		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
+	}
+
+	fls, err := NewLongsSketch(lgMaxMapSize, decodedLgMapSize(lgCurMapSize, activeItems))
 	if err != nil {
 		return nil, err
 	}
 	fls.streamWeight = 0 //update after
 	fls.offset = preArr[3]
 
-	preBytes := preLongs << 3
-	activeItems := extractActiveItems(preArr[1])
-
 	// Get countArray
 	countArray := make([]int64, activeItems)
-	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
-	if len(slc) < reqBytes {
-		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
-	}
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
@@ -241,6 +241,11 @@ func NewLongsSketchFromString(str string) (*LongsSketch, error) {
 		return nil, fmt.Errorf("possible Corruption: Incorrect # of tokens: %d, numActive: %d", numTokens, numActive)
 	}
 	//    if ((2 * numActive) != (numTokens - STR_PREAMBLE_TOKENS - 2)) {
+	if !internal.IsPowerOf2(int(lgCurOrigin)) || lgCur < _LG_MIN_MAP_SIZE {
+		return nil, fmt.Errorf("possible Corruption: Bad map length: %d", lgCurOrigin)
+	}
+	lgCur = decodedLgMapSize(lgCur, int(numActive))
+	tokens[strPreambleTokens+1] = strconv.Itoa(1 << lgCur)
 	sk, err := NewLongsSketch(int(lgMax), int(lgCur))
 	if err != nil {
 		return nil, err
diff --git a/frequencies/utils.go b/frequencies/utils.go
index b7d648d..85c31d6 100644
--- a/frequencies/utils.go
+++ b/frequencies/utils.go
@@ -33,6 +33,17 @@ const (
 	_SAMPLE_SIZE = 1024
 )
 
+// decodedLgMapSize returns the log2 size of the map to start with when decoding a sketch of
+// activeItems items. A size above 2^16 is not taken from a serialized image that has few items:
+// the map grows on demand.
+func decodedLgMapSize(lgMapSize int, activeItems int) int {
+	const lgTrusted = 16
+	for lgMapSize > lgTrusted && activeItems < 1<<(min(lgMapSize, 40)-3) {
+		lgMapSize--
+	}
+	return lgMapSize
+}
+
 type errorType struct {
 	id   int
 	Name string
-- 
2.43.0


From 710881abd244f2eb08bea176f0d6d8cdac1e274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:19 +0000
Subject: [PATCH 20/69] fix: count-min shape overflow, zero hash functions and
 suggestions out of range

---
 count/count_min_sketch.go |  5 ++++-
 count/utils.go            | 13 +++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..3f89df1 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -43,11 +43,14 @@ type CountMinSketch struct {
 // The items inserted into the sketch can be arbitrary type, so long as they are hashable via murmurhash.
 // Only update and estimate methods are added for uint64 and string types.
 func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinSketch, error) {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
 	if numBuckets < 3 {
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
diff --git a/count/utils.go b/count/utils.go
index da7c25c..d6ebb5b 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -23,17 +23,22 @@ import (
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
-	if relativeError <= 0 {
+	if !(relativeError > 0) {
 		return 0, errors.New("relative error must be greater than 0.0")
 	}
-	return int32(math.Ceil(math.Exp(1.0) / relativeError)), nil
+	numBuckets := math.Ceil(math.Exp(1.0) / relativeError)
+	if numBuckets > math.MaxInt32 {
+		return 0, errors.New("relative error is too small")
+	}
+	return int32(numBuckets), nil
 }
 
 func SuggestNumHashes(confidence float64) (int8, error) {
-	if confidence < 0 || confidence > 1.0 {
+	if !(confidence >= 0 && confidence <= 1.0) {
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	numHashes := math.Ceil(math.Log(1.0 / (1.0 - confidence)))
+	return int8(max(1, min(numHashes, math.MaxInt8))), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0


From 2f559c45938a6bf69ab7b12b6c56e7acee7ff9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 21/69] fix: count-min Deserialize must check the header, the
 seed and the image size

---
 count/count_min_sketch.go | 21 ++++++++++++++-------
 count/utils.go            | 12 ++++++++++++
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 3f89df1..385c819 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -335,12 +335,23 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
-	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
 	if err != nil {
 		return nil, err
 	}
+	if seedHash != expectedSeedHash {
+		return nil, errors.New("incompatible seed hashes")
+	}
 
 	isEmpty := (flag & (1 << IsEmpty)) > 0
+	if !isEmpty && int64(r.Len()) < 8+8*int64(numBuckets)*int64(numHashes) {
+		return nil, errors.New("possible corruption: insufficient bytes for the counters")
+	}
+
+	cms, err := NewCountMinSketch(numHashes, numBuckets, seed)
+	if err != nil {
+		return nil, err
+	}
 	if isEmpty {
 		return cms, nil
 	}
@@ -352,15 +363,11 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	}
 	cms.totalWeight = totalWeight
 
-	var w int64
-	var i int
-	for r.Len() > 0 {
-		err = binary.Read(r, binary.LittleEndian, &w)
+	for i := range cms.sketchSlice {
+		err = binary.Read(r, binary.LittleEndian, &cms.sketchSlice[i])
 		if err != nil {
 			return nil, err
 		}
-		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
diff --git a/count/utils.go b/count/utils.go
index d6ebb5b..f2c5443 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -19,7 +19,10 @@ package count
 
 import (
 	"errors"
+	"fmt"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -42,6 +45,15 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+	if preamble != PreambleLongsShort {
+		return fmt.Errorf("possible corruption: preamble longs must be %d: %d", PreambleLongsShort, preamble)
+	}
+	if serVer != SerialVersion1 {
+		return fmt.Errorf("possible corruption: serial version must be %d: %d", SerialVersion1, serVer)
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return fmt.Errorf("possible corruption: family must be %d: %d", internal.FamilyEnum.CountMinSketch.Id, familyID)
+	}
 	return nil
 }
 
-- 
2.43.0


From 5ee90215542753039468bfa63b21af9b92fa39e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 22/69] fix: bloom filter with 65535 hash functions looped
 forever

---
 filters/bloom_filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/bloom_filter.go b/filters/bloom_filter.go
index 78a21cd..d6980da 100644
--- a/filters/bloom_filter.go
+++ b/filters/bloom_filter.go
@@ -196,13 +196,13 @@ func (bf *bloomFilterImpl) computeHashesForLong(value uint64) (h0, h1 uint64) {
 
 // getHashIndex computes the i-th hash index using double hashing.
 // Formula: g_i(x) = ((h0 + i * h1) >> 1) mod capacity
-func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint16) uint64 {
+func (bf *bloomFilterImpl) getHashIndex(h0, h1 uint64, i uint32) uint64 {
 	return ((h0 + uint64(i)*h1) >> 1) % bf.capacityBits
 }
 
 // internalUpdate updates the filter with pre-computed hash values.
 func (bf *bloomFilterImpl) internalUpdate(h0, h1 uint64) {
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		if !getBit(bf.bitArray, idx) {
 			setBit(bf.bitArray, idx)
@@ -217,7 +217,7 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 	if bf.IsEmpty() {
 		return false
 	}
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		if !getBit(bf.bitArray, idx) {
 			return false
@@ -231,7 +231,7 @@ func (bf *bloomFilterImpl) internalQuery(h0, h1 uint64) bool {
 func (bf *bloomFilterImpl) internalQueryAndUpdate(h0, h1 uint64) bool {
 	valueExists := true
 	newBitsSet := uint64(0)
-	for i := uint16(1); i <= bf.numHashes; i++ {
+	for i := uint32(1); i <= uint32(bf.numHashes); i++ {
 		idx := bf.getHashIndex(h0, h1, i)
 		wasSet := getAndSetBit(bf.bitArray, idx)
 		valueExists = valueExists && wasSet
-- 
2.43.0


From be48b44fba390a224de6e0149c5693c8a062470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 23/69] fix: bloom filter decoding must check the bit array
 length before using it

---
 filters/bloom_filter_builder.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..2899e73 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -218,6 +218,17 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 		return nil, fmt.Errorf("numHashes must be positive")
 	}
 
+	if bitArrayLength == 0 {
+		return nil, fmt.Errorf("bit array length must be positive")
+	}
+	expectedSize := preambleBytes + int(bitArrayLength)*8
+	if !isEmpty && len(bytes) != expectedSize {
+		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
+	}
+	if isEmpty && len(bytes) != preambleEmptyBytes {
+		return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
+	}
+
 	// Calculate capacity
 	capacityBits := uint64(bitArrayLength) * 64
 
@@ -233,18 +244,9 @@ func NewBloomFilterFromSlice(bytes []byte) (BloomFilter, error) {
 
 	// Handle empty filter
 	if isEmpty {
-		if len(bytes) != preambleEmptyBytes {
-			return nil, fmt.Errorf("empty filter size mismatch: got %d bytes, expected %d", len(bytes), preambleEmptyBytes)
-		}
 		return bf, nil
 	}
 
-	// Handle non-empty filter
-	expectedSize := preambleBytes + int(bitArrayLength)*8
-	if len(bytes) != expectedSize {
-		return nil, fmt.Errorf("non-empty filter size mismatch: got %d bytes, expected %d", len(bytes), expectedSize)
-	}
-
 	// Extract num bits set
 	numBitsSet := extractNumBitsSet(bytes)
 	if numBitsSet == dirtyBitsValue {
-- 
2.43.0


From 8d79b5816b0d3b13fa6a8bc4b3bc38501ea95b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 24/69] fix: reservoir union must reject a maxK below the
 minimum instead of panicking on its first update

---
 sampling/reservoir_items_union.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..24a8521 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("maxK must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
-- 
2.43.0


From 75303918c3833936e8169250e41931db87369bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 25/69] fix: reservoir union Reset panicked when unused and
 kept the smaller k of an earlier input

---
 sampling/reservoir_items_union.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 24a8521..b78aa70 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -269,7 +269,11 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget == nil {
+		return
+	}
+	// The gadget may have taken a smaller k from one of its inputs.
+	u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From a3ddad29ca18aabbf299cba78e1888525ece7b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 26/69] fix: reservoir union UpdateFromRaw kept and overwrote
 the caller's slice

---
 sampling/reservoir_items_union.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index b78aa70..918059b 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
+	"slices"
 	"strings"
 
 	"github.com/apache/datasketches-go/common"
@@ -124,8 +125,9 @@ func (u *ReservoirItemsUnion[T]) UpdateSketch(sketch *ReservoirItemsSketch[T]) e
 // cross-language compatibility, it is the caller's responsibility to ensure
 // that input strings are encoded as valid UTF-8.
 func (u *ReservoirItemsUnion[T]) UpdateFromRaw(n int64, k int, items []T) error {
+	// The union may keep the sketch as its own, so it must not share the caller's slice.
 	sketch, err := newReservoirItemsSketchFromStates(
-		items, n, ResizeX8, k,
+		slices.Clone(items), n, ResizeX8, k,
 	)
 	if err != nil {
 		return err
-- 
2.43.0


From e1f9b320c4a98cfddda2dd75a86dc48a7a6d7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 27/69] fix: reservoir decoding must check the image size and
 counts before using them

---
 sampling/reservoir_items_sketch.go | 41 +++++++++++++-----------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..4f25e8b 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -437,7 +437,14 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	isEmpty := (flags & flagEmpty) != 0
 	n := 0
 	if !isEmpty {
-		n = int(binary.LittleEndian.Uint64(data[8:]))
+		if preambleLong != internal.FamilyEnum.ReservoirItems.MaxPreLongs || len(data) < preambleLong*8 {
+			return nil, errors.New("data too short for a non-empty sketch")
+		}
+		itemsSeen := binary.LittleEndian.Uint64(data[8:])
+		if itemsSeen == 0 || itemsSeen > maxItemsSeen {
+			return nil, fmt.Errorf("possible corruption: invalid number of items seen: %d", itemsSeen)
+		}
+		n = int(itemsSeen)
 	}
 
 	k := int(binary.LittleEndian.Uint32(data[4:]))
@@ -456,37 +463,25 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	}
 
 	if isEmpty {
-		return NewReservoirItemsSketch[T](k, WithReservoirItemsSketchResizeFactor(rf))
+		if k < minK {
+			return nil, errors.New("k must be at least 2")
+		}
+		// The declared k must not decide how much memory an empty image costs.
+		return &ReservoirItemsSketch[T]{
+			k:    k,
+			rf:   rf,
+			data: make([]T, 0, min(k, 1<<minLgArrItems)),
+		}, nil
 	}
 
 	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
-	capacity := k
-	if n < k {
-		ceilingLgK, _ := internal.ExactLog2(common.CeilingPowerOf2(k))
-		minLgSize, _ := internal.ExactLog2(common.CeilingPowerOf2(n))
-		initialLgSize := startingSubMultiple(ceilingLgK, int(rf), max(minLgSize, minLgArrItems))
-		capacity = adjustedSamplingAllocationSize(k, 1<<initialLgSize)
-	}
-
 	numSamples := min(n, k)
 	items, err := serde.DeserializeManyFromSlice(data, preambleLongBytes, numSamples)
 	if err != nil {
 		return nil, err
 	}
 
-	sketch, err := newReservoirItemsSketchFromStates(items, int64(n), rf, k)
-	if err != nil {
-		return nil, err
-	}
-
-	sketch.data = slices.Grow(sketch.data, capacity)
-
-	return &ReservoirItemsSketch[T]{
-		k:    k,
-		n:    int64(n),
-		rf:   rf,
-		data: items,
-	}, nil
+	return newReservoirItemsSketchFromStates(items, int64(n), rf, k)
 }
 
 func newReservoirItemsSketchFromStates[T any](
-- 
2.43.0


From e13af50d9ab945cbf2a607dc86f4dac4f8747b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 28/69] fix: varopt Update rejected valid items when the
 lightest heavy item equals tau up to rounding

---
 sampling/varopt_items_sketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..90549e9 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -271,7 +271,8 @@ func (s *VarOptItemsSketch[T]) update(item T, weight float64, mark bool) error {
 			return err
 		}
 
-		if minWeight < s.tau() {
+		// tau is computed, so an item exactly at tau may seem lighter by a rounding error
+		if minWeight < s.tau()*(1-1e-10) {
 			return errors.New("sketch not in valid estimation mode")
 		}
 	}
-- 
2.43.0


From 1f93fd57171ff61a790b1147be33e8ed0939d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 29/69] fix: varopt EstimateSubsetSum in exact mode must report
 the total weight of the sketch, not of the subset

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 90549e9..f0c16ab 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -745,7 +745,7 @@ func (s *VarOptItemsSketch[T]) EstimateSubsetSum(predicate func(T) bool) (Sample
 			LowerBound:        trueWeightInH,
 			Estimate:          trueWeightInH,
 			UpperBound:        trueWeightInH,
-			TotalSketchWeight: trueWeightInH,
+			TotalSketchWeight: weightSumInH,
 		}, nil
 	}
 
-- 
2.43.0


From 55df62558dc529565148668aa1faeae02dd2c374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 30/69] fix: varopt sketch decoded in estimation mode could not
 be updated

---
 sampling/varopt_items_sketch_decoder.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..ac46fdf 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,12 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
+		m:            0, // the middle region is empty between updates
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From c6d7a65afb8cdb450f76a1c6f6ee666fdae79cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 31/69] fix: varopt union result of a reduced k kept extra
 slots and could not be serialized

---
 sampling/varopt_items_sketch.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index f0c16ab..0e1bcae 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -903,7 +903,11 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.k--
 		s.n-- // will be re-incremented with the update
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		s.truncateToK()
+
+		if err := s.update(pulledItem, pulledWeight, pulledMark); err != nil {
+			return err
+		}
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
@@ -917,8 +921,18 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 
 		s.k--
 		s.r--
+		s.truncateToK()
 	default:
 	}
 
 	return nil
 }
+
+// truncateToK drops what lies beyond the k+1 slots of a sketch in estimation mode.
+func (s *VarOptItemsSketch[T]) truncateToK() {
+	s.data = s.data[:s.k+1]
+	s.weights = s.weights[:s.k+1]
+	if s.marks != nil {
+		s.marks = s.marks[:s.k+1]
+	}
+}
-- 
2.43.0


From ce1171ef4f727124c4ca36ff63d8190f306c9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 32/69] fix: varopt union result could hold exact items lighter
 than its tau and reject updates

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..534ff5a 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -224,7 +224,7 @@ func (u *VarOptItemsUnion[T]) Result() (*VarOptItemsSketch[T], error) {
 
 	// explicitly enforce rule that items in H should not be lighter than the sketch's tau
 	for i := 0; i < u.gadget.h; i++ {
-		if u.gadget.weights[i] < u.gadget.tau() && !u.gadget.marks[i] {
+		if u.gadget.weights[i] < u.outerTau() && !u.gadget.marks[i] {
 			return u.migrateMarkedItemsByDecreasingK()
 		}
 	}
-- 
2.43.0


From 1fcb97ca7c5c7685bb02315417faa029586be8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:43 +0000
Subject: [PATCH 33/69] fix: varopt union result failed for large weights
 because of an absolute rounding tolerance

---
 sampling/varopt_items_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index 534ff5a..b1779b7 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -396,7 +396,7 @@ func (u *VarOptItemsUnion[T]) markMovingGadgetCoercer() (*VarOptItemsSketch[T],
 			resultK, resultH+resultR,
 		)
 	}
-	if math.Abs(transferredWeight-u.outerTauNumer) >= 1e-10 {
+	if math.Abs(transferredWeight-u.outerTauNumer) > 1e-10*math.Max(1, u.outerTauNumer) {
 		return nil, fmt.Errorf(
 			"invalid state after mark moving: expected transferredWeight=%g, outerTauNumer=%g",
 			transferredWeight, u.outerTauNumer,
-- 
2.43.0


From bb5325e3b9435fdd1b628be7383a5c6307a55008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 34/69] fix: varopt decoding must check counts, weights and the
 image size before allocating

---
 sampling/varopt_items_sketch_decoder.go | 103 +++++++++++++-----------
 1 file changed, 56 insertions(+), 47 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index ac46fdf..07ee1dd 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -70,7 +70,16 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	isGadget := (flags & gadgetFlagMask) != 0
 
 	if isEmpty {
-		return newVarOptItemsSketchFromState[T](int(k), ResizeFactor(rf), isGadget)
+		// The declared k must not decide how much memory an empty image costs.
+		sketch, err := newVarOptItemsSketchFromState[T](min(int(k), 1<<minLgArrItems), ResizeFactor(rf), isGadget)
+		if err != nil {
+			return nil, err
+		}
+		if k > varOptMaxK {
+			return nil, errors.New("k must be at least 1 and less than 2^31 - 1")
+		}
+		sketch.k = int(k)
+		return sketch, nil
 	}
 
 	if err := validateBuffer(buffer, index+8); err != nil {
@@ -91,10 +100,7 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 	r := binary.LittleEndian.Uint32(buffer[index:])
 	index += 4
 
-	allocSize, err := computeVarOptItemsSketchDataSize(
-		preambleLongs, k, n, h, r, ResizeFactor(rf),
-	)
-	if err != nil {
+	if err := validateVarOptItemsSketchCounts(preambleLongs, k, n, h, r); err != nil {
 		return nil, err
 	}
 
@@ -108,21 +114,20 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		totalWeightR = math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
 
-		if math.IsNaN(totalWeightR) || r == 0 || totalWeightR <= 0 {
+		if math.IsNaN(totalWeightR) || math.IsInf(totalWeightR, 0) || r == 0 || totalWeightR <= 0 {
 			return nil, fmt.Errorf("data is corrupt in full mode: invalid R region weight: %f", totalWeightR)
 		}
 	}
 
-	sliceLen := int(allocSize)
-	if r == 0 {
-		sliceLen = int(h)
+	sliceLen := int(h)
+	if r > 0 {
+		sliceLen = int(k) + 1
 	}
 
-	// read h weights, fill in rest of slice with -1.0
-	weights := make([]float64, sliceLen, allocSize)
 	if err := validateBuffer(buffer, index+int(h)*8); err != nil {
 		return nil, err
 	}
+	hWeights := make([]float64, h)
 	for i := 0; i < int(h); i++ {
 		w := math.Float64frombits(binary.LittleEndian.Uint64(buffer[index:]))
 		index += 8
@@ -130,19 +135,19 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if w <= 0 {
 			return nil, fmt.Errorf("non-positive weight: %f", w)
 		}
+		if math.IsNaN(w) || math.IsInf(w, 0) {
+			return nil, fmt.Errorf("invalid weight: %f", w)
+		}
 
-		weights[i] = w
-	}
-	for i := h; i < uint32(len(weights)); i++ {
-		weights[i] = -1
+		hWeights[i] = w
 	}
 
 	var (
-		marks       []bool
+		hMarks      []bool
 		numMarksInH uint32
 	)
 	if isGadget {
-		marks = make([]bool, sliceLen, allocSize)
+		hMarks = make([]bool, h)
 		val := uint8(0)
 		for i := 0; i < int(h); i++ {
 			if (i & 0x7) == 0 {
@@ -154,15 +159,13 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 				index++
 			}
 
-			marks[i] = (val>>(i&0x7))&0x1 == 1
-			if marks[i] {
+			hMarks[i] = (val>>(i&0x7))&0x1 == 1
+			if hMarks[i] {
 				numMarksInH++
 			}
 		}
 	}
 
-	data := make([]T, sliceLen, allocSize)
-
 	hBytes, err := serde.SizeOfMany(buffer, index, int(h))
 	if err != nil {
 		return nil, err
@@ -175,8 +178,8 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		return nil, err
 	}
 	index += hBytes
-	copy(data[:h], hRegionData)
 
+	var rRegionData []T
 	if r > 0 {
 		rBytes, err := serde.SizeOfMany(buffer, index, int(r))
 		if err != nil {
@@ -185,13 +188,27 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		if err := validateBuffer(buffer, index+rBytes); err != nil {
 			return nil, err
 		}
-		rData, err := serde.DeserializeManyFromSlice(buffer, index, int(r))
+		rRegionData, err = serde.DeserializeManyFromSlice(buffer, index, int(r))
 		if err != nil {
 			return nil, err
 		}
-		index += rBytes
+	}
 
-		copy(data[h+1:h+1+r], rData)
+	// Only now is it known that the image holds as many items as it declares.
+	data := make([]T, sliceLen)
+	weights := make([]float64, sliceLen)
+	copy(data, hRegionData)
+	copy(weights, hWeights)
+	if r > 0 {
+		copy(data[h+1:], rRegionData)
+		for i := int(h); i < sliceLen; i++ {
+			weights[i] = -1
+		}
+	}
+	var marks []bool
+	if isGadget {
+		marks = make([]bool, sliceLen)
+		copy(marks, hMarks)
 	}
 
 	return &VarOptItemsSketch[T]{
@@ -231,47 +248,39 @@ func validateVarOptItemsSketchFamilyAndSerVer(familyID, serVer uint8) error {
 	return fmt.Errorf("invalid family ID: expected %d, got %d", internal.FamilyEnum.VarOptItems.Id, familyID)
 }
 
-func computeVarOptItemsSketchDataSize(
-	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32, rf ResizeFactor,
-) (uint32, error) {
+func validateVarOptItemsSketchCounts(
+	preambleLongs uint8, k uint32, n uint64, h uint32, r uint32,
+) error {
 	if k == 0 || k > varOptMaxK {
-		return 0, errors.New("k must be at least 1 and less than 2^31 - 1")
+		return errors.New("k must be at least 1 and less than 2^31 - 1")
+	}
+	if n == 0 || n > math.MaxInt64 {
+		return fmt.Errorf("invalid number of items: %d", n)
 	}
 
-	allocSize := 0
 	if n <= uint64(k) {
 		if preambleLongs != preambleLongsWarmup {
-			return 0, fmt.Errorf("invalid preamble longs: expected warmup because n<=k, got %d", preambleLongs)
+			return fmt.Errorf("invalid preamble longs: expected warmup because n<=k, got %d", preambleLongs)
 		}
 
 		if n != uint64(h) {
-			return 0, fmt.Errorf("invalid state in warmup mode: expected n==h, got n=%d, h=%d", n, h)
+			return fmt.Errorf("invalid state in warmup mode: expected n==h, got n=%d, h=%d", n, h)
 		}
 
 		if r > 0 {
-			return 0, fmt.Errorf("invalid state in warmup mode: expected r==0, got r=%d", r)
-		}
-
-		ceilingLgK := math.Log2(float64(common.CeilingPowerOf2(int(k))))
-		minLgSize := math.Log2(float64(common.CeilingPowerOf2(int(h))))
-		initialLgSize := startingSubMultiple(int(ceilingLgK), int(rf), int(minLgSize))
-		allocSize = adjustedSamplingAllocationSize(int(k), 1<<initialLgSize)
-		if allocSize == int(k) {
-			allocSize++
+			return fmt.Errorf("invalid state in warmup mode: expected r==0, got r=%d", r)
 		}
 	} else {
 		if preambleLongs != preambleLongsFull {
-			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
+			return fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 		}
 
-		if h+r != k {
-			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
+		if uint64(h)+uint64(r) != uint64(k) {
+			return fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
 		}
-
-		allocSize = int(k) + 1
 	}
 
-	return uint32(allocSize), nil
+	return nil
 }
 
 func validateBuffer(buf []byte, endIndex int) error {
-- 
2.43.0


From f893be46c23574909b7aa3dcc481708ee2868f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:02 +0000
Subject: [PATCH 35/69] fix: reservoir union could not grow after taking an
 empty raw sample

---
 sampling/reservoir_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 4f25e8b..a7775de 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -131,7 +131,7 @@ func (s *ReservoirItemsSketch[T]) Update(item T) error {
 }
 
 func (s *ReservoirItemsSketch[T]) growReservoir() {
-	adjustedSize := adjustedSamplingAllocationSize(s.k, cap(s.data)<<int(s.rf))
+	adjustedSize := adjustedSamplingAllocationSize(s.k, max(cap(s.data), 1)<<int(s.rf))
 	s.data = slices.Grow(s.data, adjustedSize)
 }
 
-- 
2.43.0


From 93e46d8081c5b34ede455dd754feb50587c017ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:29 +0000
Subject: [PATCH 36/69] fix: hll union of HLL-mode sketches with different lgK
 gave wrong slots or failed

---
 hll/union.go | 68 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..6c4a029 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -242,7 +242,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
@@ -270,7 +270,12 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		// case 16: src >  max, src >= gdt, gdtList, gdtHeap
 		// case 18: src >  max, src >= gdt, gdtSet,  gdtHeap
 		{ //Action: downsample src to MaxLgK, reverse merge w/autofold, ooof=src
-			return nil, fmt.Errorf("not implemented cas 16,18")
+			srcHll8, err := downsample(sourceC, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			err = gadgetC.mergeTo(srcHll8)
+			return srcHll8.sketch, err
 		}
 	case 4, 20:
 		// case 4: src <= max, src >= gdt, gdtHLL, gdtHeap
@@ -286,7 +291,16 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 12: //src <= max, src <  gdt, gdtHLL, gdtHeap
 		{ //Action: downsample gdt to srcLgK, forward HLL merge w/autofold, ooof=True
-			return nil, fmt.Errorf("not implemented case 12")
+			gdgtHll8, err := downsample(gadgetC, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			err = mergeHlltoHLLmode(source, gdgtHll8, srcLgK, srcLgK)
+			if err != nil {
+				return nil, err
+			}
+			gdgtHll8.sketch.putOutOfOrder(true)
+			return gdgtHll8.sketch, nil
 		}
 	case 6, 14:
 		// case 6: src <= max, src >= gdt, gdtEmpty, gdtHeap
@@ -300,13 +314,45 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 		}
 	case 22: //src >  max, src >= gdt, gdtEmpty, gdtHeap
 		{ //Action: downsample src to lgMaxK, replace gdt, ooof=src
-			return nil, fmt.Errorf("not implemented")
+			srcHll8, err := downsample(sourceC, u.lgMaxK)
+			if err != nil {
+				return nil, err
+			}
+			return srcHll8.sketch, nil
 		}
 	default:
 		return nil, fmt.Errorf("impossible")
 	}
 }
 
+// downsample returns an HLL_8 sketch in HLL mode with the content of the given sketch,
+// which must be in HLL mode, folded to the given smaller lgK.
+func downsample(candidate *hllSketchState, tgtLgK int) (*hllSketchState, error) {
+	src := candidate.sketch.(hllArray)
+	tgt := newHll8Array(tgtLgK)
+	itr := src.iterator()
+	for itr.nextAll() {
+		v, err := itr.getValue()
+		if err != nil {
+			return nil, err
+		}
+		if v == empty {
+			continue
+		}
+		p, err := itr.getPair()
+		if err != nil {
+			return nil, err
+		}
+		if _, err = tgt.couponUpdate(p); err != nil { // rebuilds KxQ, etc.
+			return nil, err
+		}
+	}
+	tgt.putOutOfOrder(src.isOutOfOrder())
+	tgt.putHipAccum(src.getHipAccum()) // intentional overwrite
+	tgt.putRebuildCurMinNumKxQFlag(false)
+	return &hllSketchState{sketch: tgt}, nil
+}
+
 func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 	sketchImpl := sketch.(*hllSketchState).sketch
 	curMode := sketch.GetCurMode()
@@ -447,8 +493,18 @@ func mergeHlltoHLLmode(src HllSketch, tgt HllSketch, srcLgK int, tgtLgK int) err
 			}
 		}
 		// TODO continue implementing
-	default:
-		return fmt.Errorf("not implemented")
+	default: //srcLgK > tgtLgK: fold the source slots
+		{
+			tgtArr := tgt.(*hllSketchState).sketch.(*hll8ArrayImpl)
+			itr := src.iterator()
+			for itr.nextAll() {
+				v, err := itr.getValue()
+				if err != nil {
+					return err
+				}
+				tgtArr.updateSlotNoKxQ(itr.getIndex()&tgtArr.slotNoMask, v)
+			}
+		}
 	}
 	tgt.(*hllSketchState).sketch.putRebuildCurMinNumKxQFlag(true)
 	return nil
-- 
2.43.0


From e61da7e163d86553f9db74d2d0eb2c1438fc5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 37/69] fix: hll union estimates and bounds after a merge used
 stale registers until GetResult

---
 hll/union.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hll/union.go b/hll/union.go
index 6c4a029..5950015 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -68,10 +68,16 @@ func (u *unionImpl) iterator() pairIterator {
 //}
 
 func (u *unionImpl) GetUpperBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetUpperBound(numStdDev)
 }
 
 func (u *unionImpl) GetLowerBound(numStdDev int) (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetLowerBound(numStdDev)
 }
 
@@ -125,10 +131,16 @@ func NewUnionFromSlice(byteArray []byte) (Union, error) {
 }
 
 func (u *unionImpl) GetCompositeEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetCompositeEstimate()
 }
 
 func (u *unionImpl) GetEstimate() (float64, error) {
+	if err := checkRebuildCurMinNumKxQ(u.gadget); err != nil {
+		return 0, err
+	}
 	return u.gadget.GetEstimate()
 }
 
-- 
2.43.0


From 09c2b763ca75ce7db6bbca0fd40c9d7f5171c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:43 +0000
Subject: [PATCH 38/69] fix: hll union Reset kept the smaller lgK of an earlier
 source

---
 hll/union.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index 5950015..2a56634 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -206,7 +206,13 @@ func (u *unionImpl) GetUpdatableSerializationBytes() int {
 }
 
 func (u *unionImpl) Reset() error {
-	return u.gadget.Reset()
+	// the gadget may have been reduced to the lgK of a smaller source
+	gadget, err := NewHllSketch(u.lgMaxK, TgtHllTypeHll8)
+	if err != nil {
+		return err
+	}
+	u.gadget = gadget
+	return nil
 }
 
 func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
-- 
2.43.0


From 6c88465a9d4a83b7627f5531a0d5ae2c12abea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 39/69] fix: hll sketch decoded from a slice shared its
 registers with the caller's bytes

---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..8666a28 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From da529f203910118031e060700f7ed77ebe6af9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 40/69] fix: hll sketch accepted an unknown target type and
 panicked on promotion

---
 hll/coupon_hash_set.go | 3 +++
 hll/coupon_list.go     | 3 +++
 hll/hll_sketch.go      | 3 +++
 hll/utils.go           | 8 ++++++++
 4 files changed, 17 insertions(+)

diff --git a/hll/coupon_hash_set.go b/hll/coupon_hash_set.go
index 6608ded..b8cbadf 100644
--- a/hll/coupon_hash_set.go
+++ b/hll/coupon_hash_set.go
@@ -93,6 +93,9 @@ func (c *couponHashSetImpl) getPreInts() int {
 }
 
 func (c *couponHashSetImpl) copyAs(tgtHllType TgtHllType) (hllSketchStateI, error) {
+	if err := checkTgtHllType(tgtHllType); err != nil {
+		return nil, err
+	}
 	newC := &couponHashSetImpl{
 		hllSketchConfig: newHllSketchConfig(c.lgConfigK, tgtHllType, curModeSet),
 		hllCouponState:  newHllCouponState(c.lgCouponArrInts, c.couponCount, make([]int, len(c.couponIntArr))),
diff --git a/hll/coupon_list.go b/hll/coupon_list.go
index 95bea9f..c3458e1 100644
--- a/hll/coupon_list.go
+++ b/hll/coupon_list.go
@@ -99,6 +99,9 @@ func (c *couponListImpl) getPreInts() int {
 }
 
 func (c *couponListImpl) copyAs(tgtHllType TgtHllType) (hllSketchStateI, error) {
+	if err := checkTgtHllType(tgtHllType); err != nil {
+		return nil, err
+	}
 	newC := &couponListImpl{
 		hllSketchConfig: newHllSketchConfig(c.lgConfigK, tgtHllType, curModeList),
 		hllCouponState:  newHllCouponState(c.lgCouponArrInts, c.couponCount, make([]int, len(c.couponIntArr))),
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..e876d02 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -163,6 +163,9 @@ func NewHllSketch(lgConfigK int, tgtHllType TgtHllType) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err = checkTgtHllType(tgtHllType); err != nil {
+		return nil, err
+	}
 	couponList, err := newCouponList(lgK, tgtHllType, curModeList)
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..e331f12 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -113,6 +113,14 @@ func checkLgK(lgK int) (int, error) {
 	return 0, fmt.Errorf("log K must be between 4 and 21, inclusive: %d", lgK)
 }
 
+// checkTgtHllType returns an error if the given type is not one of HLL_4, HLL_6 or HLL_8
+func checkTgtHllType(tgtHllType TgtHllType) error {
+	if tgtHllType < TgtHllTypeHll4 || tgtHllType > TgtHllTypeHll8 {
+		return fmt.Errorf("unknown TgtHllType: %d", tgtHllType)
+	}
+	return nil
+}
+
 // pair returns a value where the lower 26 bits are the slotNo and the upper 6 bits are the value.
 func pair(slotNo int, value int) int {
 	return (value << keyBits26) | (slotNo & keyMask26)
-- 
2.43.0


From 0b009d6f901336decb180e30dfcc4d449d468935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 41/69] fix: hll_4 sketch of small lgK failed when many slots
 needed exceptions

---
 hll/aux_hash_map.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hll/aux_hash_map.go b/hll/aux_hash_map.go
index 75e0480..aacbe1b 100644
--- a/hll/aux_hash_map.go
+++ b/hll/aux_hash_map.go
@@ -195,9 +195,6 @@ func (a *auxHashMap) growAuxSpace() error {
 // Continues searching.
 // If the probe comes back to original index, return an error.
 func findAuxHashMap(auxArr []int, lgAuxArrInts int, lgConfigK int, slotNo int) (int, error) {
-	if lgAuxArrInts >= lgConfigK {
-		return 0, fmt.Errorf("lgAuxArrInts >= lgConfigK")
-	}
 	auxArrMask := (1 << lgAuxArrInts) - 1
 	configKMask := (1 << lgConfigK) - 1
 	probe := slotNo & auxArrMask
-- 
2.43.0


From 7bcb7ad326982db9d039d6df8b6fea1565e1da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 42/69] fix: hll union rebuild lost the precision of registers
 of 32 and more

---
 hll/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index 2a56634..7f2b029 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -403,7 +403,8 @@ func checkRebuildCurMinNumKxQ(sketch HllSketch) error {
 				if err != nil {
 					return err
 				}
-				kxq1 += inv - 1.0
+				kxq0 -= 1.0 // the sums stay exact only when kept apart
+				kxq1 += inv
 			}
 		}
 		if v > curMin {
-- 
2.43.0


From 1cd390878e598df2599490ea58378fd11813dcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 43/69] fix: hll decoding must validate an image before using
 its counts and sizes

---
 hll/coupon.go         |   4 +-
 hll/hll_sketch.go     |   8 +-
 hll/preamble_utils.go | 181 ++++++++++++++++++++++++++++++++++++++++++
 hll/union.go          |   7 +-
 4 files changed, 195 insertions(+), 5 deletions(-)

diff --git a/hll/coupon.go b/hll/coupon.go
index abdaca2..830b1b0 100644
--- a/hll/coupon.go
+++ b/hll/coupon.go
@@ -112,7 +112,9 @@ func mergeCouponTo(from hllCoupon, dest HllSketch) error {
 		pair := intArrFrom[i]
 		if pair != empty {
 			sk, err = dest.(*hllSketchState).sketch.couponUpdate(pair)
-			dest.(*hllSketchState).sketch = sk
+			if err == nil {
+				dest.(*hllSketchState).sketch = sk
+			}
 		}
 	}
 	return err
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index e876d02..d4317d3 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -189,6 +189,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err = checkImage(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
@@ -340,8 +343,11 @@ func (h *hllSketchState) couponUpdate(coupon int) (hllSketchStateI, error) {
 		return h.sketch, nil
 	}
 	sk, err := h.sketch.couponUpdate(coupon)
+	if err != nil {
+		return h.sketch, err
+	}
 	h.sketch = sk
-	return h.sketch, err
+	return h.sketch, nil
 }
 
 func (h *hllSketchState) putRebuildCurMinNumKxQFlag(rebuildCurMinNumKxQFlag bool) {
diff --git a/hll/preamble_utils.go b/hll/preamble_utils.go
index d8bfe01..c0228c3 100644
--- a/hll/preamble_utils.go
+++ b/hll/preamble_utils.go
@@ -19,6 +19,7 @@ package hll
 
 import (
 	"encoding/binary"
+	"fmt"
 	"math"
 
 	"github.com/apache/datasketches-go/internal"
@@ -183,6 +184,186 @@ func computeLgArr(byteArr []byte, couponCount int, lgConfigK int) (int, error) {
 
 }
 
+// checkImage verifies that the counts and sizes an image declares, and the content that
+// they describe, are consistent with each other and with the length of the image.
+// The preamble has been checked before.
+func checkImage(byteArr []byte, curMode curMode) error {
+	lgK, err := checkLgK(extractLgK(byteArr))
+	if err != nil {
+		return err
+	}
+	if err = checkTgtHllType(extractTgtHllType(byteArr)); err != nil {
+		return err
+	}
+	switch curMode {
+	case curModeList:
+		return checkCoupons(byteArr, listIntArrStart, extractListCount(byteArr), (1<<lgInitListSize)-1)
+	case curModeSet:
+		return checkSetImage(byteArr, lgK)
+	case curModeHll:
+		return checkHllImage(byteArr, lgK)
+	}
+	return fmt.Errorf("possible Corruption: Invalid Mode: %d", curMode)
+}
+
+// checkCoupons verifies that the image holds the given number of valid coupons and that there are not too many.
+func checkCoupons(byteArr []byte, start int, count int, maxCount int) error {
+	if count > maxCount {
+		return fmt.Errorf("possible Corruption: Invalid Coupon Count: %d", count)
+	}
+	if len(byteArr) < start+4*count {
+		return fmt.Errorf("input array too small for %d coupons: %d", count, len(byteArr))
+	}
+	for i := 0; i < count; i++ {
+		if getPairValue(int(binary.LittleEndian.Uint32(byteArr[start+4*i:]))) == empty {
+			return fmt.Errorf("possible Corruption: Invalid Coupon at %d", i)
+		}
+	}
+	return nil
+}
+
+func checkSetImage(byteArr []byte, lgK int) error {
+	if lgK <= 7 {
+		return fmt.Errorf("lgConfigK must be > 7 for SET mode")
+	}
+	count := extractHashSetCount(byteArr)
+	maxCount := (resizeNumber << (lgK - 3)) / resizeDenom
+	if extractCompactFlag(byteArr) {
+		return checkCoupons(byteArr, hashSetIntArrStart, count, maxCount)
+	}
+	if count > maxCount {
+		return fmt.Errorf("possible Corruption: Invalid Coupon Count: %d", count)
+	}
+	lgArr := extractLgArr(byteArr)
+	if lgArr < lgInitSetSize {
+		var err error
+		if lgArr, err = computeLgArr(byteArr, count, lgK); err != nil {
+			return err
+		}
+	}
+	if lgArr > lgK-3 || resizeDenom*count > resizeNumber<<lgArr {
+		return fmt.Errorf("possible Corruption: Invalid Array Size: 2^%d for %d coupons", lgArr, count)
+	}
+	if len(byteArr) < hashSetIntArrStart+(4<<lgArr) {
+		return fmt.Errorf("input array too small for 2^%d coupons: %d", lgArr, len(byteArr))
+	}
+	arr := make([]int, 1<<lgArr)
+	for i := range arr {
+		arr[i] = int(binary.LittleEndian.Uint32(byteArr[hashSetIntArrStart+4*i:]))
+	}
+	for i, coupon := range arr {
+		if coupon == empty {
+			continue
+		}
+		count--
+		index, err := findCoupon(arr, lgArr, coupon)
+		if err != nil {
+			return err
+		}
+		if getPairValue(coupon) == empty || index != i {
+			return fmt.Errorf("possible Corruption: Invalid Coupon at %d", i)
+		}
+	}
+	if count != 0 {
+		return fmt.Errorf("possible Corruption: Invalid Coupon Count: %d", extractHashSetCount(byteArr))
+	}
+	return nil
+}
+
+func checkHllImage(byteArr []byte, lgK int) error {
+	if len(byteArr) < hllByteArrStart {
+		return fmt.Errorf("input array too small: %d", len(byteArr))
+	}
+	k := 1 << lgK
+	for _, v := range []float64{extractHipAccum(byteArr), extractKxQ0(byteArr), extractKxQ1(byteArr)} {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return fmt.Errorf("possible Corruption: Invalid Register: %f", v)
+		}
+	}
+	if !(extractHipAccum(byteArr) >= 0) || !(extractKxQ0(byteArr)+extractKxQ1(byteArr) > 0) {
+		return fmt.Errorf("possible Corruption: Invalid Registers")
+	}
+	curMin := extractCurMin(byteArr)
+	if curMin > valMask6 || extractNumAtCurMin(byteArr) > k {
+		return fmt.Errorf("possible Corruption: Invalid CurMin or NumAtCurMin: %d, %d", curMin, extractNumAtCurMin(byteArr))
+	}
+	switch extractTgtHllType(byteArr) {
+	case TgtHllTypeHll4:
+		return checkHll4Image(byteArr, lgK, curMin)
+	case TgtHllTypeHll6:
+		if len(byteArr) < hllByteArrStart+((k*3)>>2)+1 {
+			return fmt.Errorf("input array too small: %d", len(byteArr))
+		}
+	default:
+		if len(byteArr) < hllByteArrStart+k {
+			return fmt.Errorf("input array too small: %d", len(byteArr))
+		}
+		for i, v := range byteArr[hllByteArrStart : hllByteArrStart+k] {
+			if v > valMask6 {
+				return fmt.Errorf("possible Corruption: Invalid Value in slot %d: %d", i, v)
+			}
+		}
+	}
+	return nil
+}
+
+func checkHll4Image(byteArr []byte, lgK int, curMin int) error {
+	k := 1 << lgK
+	auxStart := hllByteArrStart + k/2
+	if len(byteArr) < auxStart {
+		return fmt.Errorf("input array too small: %d", len(byteArr))
+	}
+	tokens, atCurMin := 0, 0
+	slot := func(i int) int {
+		return int(byteArr[hllByteArrStart+i>>1]) >> (4 * (i & 1)) & loNibbleMask
+	}
+	for i := 0; i < k; i++ {
+		switch v := slot(i); {
+		case v == auxToken:
+			tokens++
+		case v+curMin > valMask6:
+			return fmt.Errorf("possible Corruption: Invalid Value in slot %d: %d", i, v+curMin)
+		case v == 0:
+			atCurMin++
+		}
+	}
+	auxCount := extractAuxCount(byteArr)
+	if auxCount != tokens {
+		return fmt.Errorf("possible Corruption: Invalid Aux Count: %d", auxCount)
+	}
+	if extractNumAtCurMin(byteArr) != atCurMin {
+		return fmt.Errorf("possible Corruption: Invalid NumAtCurMin: %d", extractNumAtCurMin(byteArr))
+	}
+	if auxCount == 0 {
+		return nil
+	}
+	auxInts := auxCount
+	if !extractCompactFlag(byteArr) {
+		lgArr := extractLgArr(byteArr)
+		if lgArr > maxLogK || auxCount > 1<<lgArr {
+			return fmt.Errorf("possible Corruption: Invalid Aux Array Size: 2^%d", lgArr)
+		}
+		auxInts = 1 << lgArr
+	}
+	if len(byteArr) < auxStart+4*auxInts {
+		return fmt.Errorf("input array too small: %d", len(byteArr))
+	}
+	for i := 0; i < auxInts; i++ {
+		p := int(binary.LittleEndian.Uint32(byteArr[auxStart+4*i:]))
+		if p == empty && auxInts != auxCount {
+			continue
+		}
+		tokens-- // duplicates are rejected when they are added to the map
+		if getPairValue(p) < curMin+auxToken || slot(getPairLow26(p)&(k-1)) != auxToken {
+			return fmt.Errorf("possible Corruption: Invalid Aux Pair: %s", pairString(p))
+		}
+	}
+	if tokens != 0 {
+		return fmt.Errorf("possible Corruption: Invalid Aux Count: %d", auxCount)
+	}
+	return nil
+}
+
 func insertAuxCount(byteArr []byte, auxCount int) error {
 	binary.LittleEndian.PutUint32(byteArr[auxCountInt:auxCountInt+4], uint32(auxCount))
 	return nil
diff --git a/hll/union.go b/hll/union.go
index 7f2b029..e1fa1bd 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -85,9 +85,7 @@ func (u *unionImpl) couponUpdate(coupon int) (hllSketchStateI, error) {
 	if coupon == empty {
 		return u.gadget.(*hllSketchState).sketch, nil
 	}
-	sk, err := u.gadget.couponUpdate(coupon)
-	u.gadget.(*hllSketchState).sketch = sk
-	return sk, err
+	return u.gadget.couponUpdate(coupon)
 }
 
 func (u *unionImpl) GetResult(tgtHllType TgtHllType) (HllSketch, error) {
@@ -114,6 +112,9 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
+	if len(byteArray) < 8 {
+		return nil, fmt.Errorf("input array too small: %d", len(byteArray))
+	}
 	lgK, err := checkLgK(extractLgK(byteArray))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2607b9cef83483c6d3eb4f085eeb3f6f758dadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 44/69] fix: hash of an int32 slice ignored every second value

---
 internal/murmur3.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/murmur3.go b/internal/murmur3.go
index 9b00be2..794df0a 100644
--- a/internal/murmur3.go
+++ b/internal/murmur3.go
@@ -71,8 +71,8 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 
 	// Process the 128-bit blocks (the body) into the hash
 	for i := 0; i < nblocks; i++ {
-		k1 := uint64(key[offsetInts+(i<<2)])   //offsetInts + 0, 4, 8, ...
-		k2 := uint64(key[offsetInts+(i<<2)+2]) //offsetInts + 2, 6, 10, ...
+		k1 := packInts(key, offsetInts+(i<<2))   //offsetInts + 0, 4, 8, ...
+		k2 := packInts(key, offsetInts+(i<<2)+2) //offsetInts + 2, 6, 10, ...
 		hashState.blockMix128(k1, k2)
 	}
 
@@ -84,12 +84,12 @@ func HashInt32SliceMurmur3(key []int32, offsetInts int, lengthInts int, seed uin
 	k1 := uint64(0)
 	k2 := uint64(0)
 	if rem > 2 {
-		k1 = uint64(key[offsetInts+tail]) //k2 -> whole; k1 -> partial
+		k1 = packInts(key, offsetInts+tail) //k1 -> whole; k2 -> partial
 		k2 = uint64(key[offsetInts+tail+2])
-	} else {
-		if rem != 0 {
-			k1 = uint64(key[offsetInts+tail]) //k1 -> whole(2), partial(1) or 0; k2 == 0
-		}
+	} else if rem == 2 {
+		k1 = packInts(key, offsetInts+tail) //k1 -> whole; k2 == 0
+	} else if rem == 1 {
+		k1 = uint64(key[offsetInts+tail]) //k1 -> partial; k2 == 0
 	}
 
 	// Mix the tail into the hash and return
@@ -157,6 +157,11 @@ func HashByteArrMurmur3(key []byte, offsetBytes int, lengthBytes int, seed uint6
 	return hashState.finalMix128(k1, k2, uint64(lengthBytes))
 }
 
+// packInts returns two consecutive ints as one little-endian long.
+func packInts(key []int32, index int) uint64 {
+	return uint64(uint32(key[index])) | uint64(uint32(key[index+1]))<<32
+}
+
 func getUint64(bArr []byte, index int, rem int) uint64 {
 	var out uint64
 	for i := rem - 1; i >= 0; i-- { //i= 7,6,5,4,3,2,1,0
-- 
2.43.0


From 47016979d1d1d478dfd88fa28b78c7b9c4c8fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 45/69] fix: cpc sort of unordered pairs left the first ones
 unsorted

---
 cpc/pair_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..f163e50 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -213,7 +213,7 @@ func introspectiveInsertionSort(a []int, l, r int) {
 			for m := 0; m < len(a); m++ {
 				b[m] = a[m] & 0xFFFF_FFFF
 			}
-			slices.Sort(b[j : r+1])
+			slices.Sort(b[l : r+1])
 			for m := 0; m < len(a); m++ {
 				a[m] = b[m]
 			}
-- 
2.43.0


From 3a1e7518e6e6e4d28afbcab2c418d7525e603293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:57 +0000
Subject: [PATCH 46/69] fix: cpc pair table panicked when it outgrew the range
 of its items

---
 cpc/pair_table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index f163e50..237f685 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -62,7 +62,7 @@ func (p *pairTable) maybeInsert(item int) (bool, error) {
 	lgSizeInts := p.lgSizeInts
 	sizeInts := 1 << lgSizeInts
 	mask := sizeInts - 1
-	shift := p.validBits - lgSizeInts
+	shift := max(p.validBits-lgSizeInts, 0)
 	//rtAssert(shift > 0)
 	probe := item >> shift
 	//rtAssert((probe >= 0) && (probe <= mask))
@@ -91,7 +91,7 @@ func (p *pairTable) maybeDelete(item int) (bool, error) {
 	lgSizeInts := p.lgSizeInts
 	sizeInts := 1 << lgSizeInts
 	mask := sizeInts - 1
-	shift := p.validBits - lgSizeInts
+	shift := max(p.validBits-lgSizeInts, 0)
 	probe := item >> shift
 	arr := p.slotsArr
 	fetched := arr[probe]
@@ -144,7 +144,7 @@ func (p *pairTable) mustInsert(item int) error {
 	lgSizeInts := p.lgSizeInts
 	sizeInts := 1 << lgSizeInts
 	mask := sizeInts - 1
-	shift := p.validBits - lgSizeInts
+	shift := max(p.validBits-lgSizeInts, 0)
 	//rtAssert(shift > 0)
 	probe := item >> shift
 	//rtAssert((probe >= 0) && (probe <= mask))
-- 
2.43.0


From 7bd9ecc46fc5e0145658f9b3aa98e2b1282ed36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 47/69] fix: cpc decoding accepted an image written with
 another seed

---
 cpc/cpc_sketch.go | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..0e7fb86 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -97,21 +97,7 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 		return nil, err
 	}
 
-	sketch, err := NewCpcSketch(c.LgK, seed)
-	if err != nil {
-		return nil, err
-	}
-	sketch.numCoupons = c.NumCoupons
-	sketch.windowOffset = c.getWindowOffset()
-	sketch.fiCol = c.FiCol
-	sketch.mergeFlag = c.MergeFlag
-	sketch.kxp = c.Kxp
-	sketch.hipEstAccum = c.HipEstAccum
-	sketch.slidingWindow = nil
-	sketch.pairTable = nil
-
-	err = c.uncompress(sketch)
-	return sketch, err
+	return uncompressSketch(c, seed)
 }
 
 func NewCpcSketchFromSliceWithDefault(bytes []byte) (*CpcSketch, error) {
-- 
2.43.0


From 932972ed2a70cf1413169b3a7b154be6dd748d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 48/69] fix: cpc wrapper answered garbage for the image of an
 empty sketch

---
 cpc/utils.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..0ee36d6 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -331,7 +331,10 @@ func getKxP(mem []byte) float64 {
 }
 
 func getHipAccum(bytes []byte) float64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	if err != nil {
+		return 0 // an empty sketch does not store it
+	}
 	return math.Float64frombits(binary.LittleEndian.Uint64(bytes[offset : offset+8]))
 }
 
@@ -354,7 +357,10 @@ func getFlags(bytes []byte) int {
 }
 
 func getNumCoupons(bytes []byte) uint64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	if err != nil {
+		return 0 // an empty sketch does not store it
+	}
 	return uint64(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
-- 
2.43.0


From 6e489dfe5bad1ca1077893dee279cd299662bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:47 +0000
Subject: [PATCH 49/69] fix: cpc decoding must validate an image before using
 its counts and sizes

---
 cpc/cpc_compressed_state.go | 83 ++++++++++++++++++++++++++++++++++---
 cpc/utils.go                | 22 ++++++++--
 2 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index b77a646..82583d7 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -199,6 +199,9 @@ func uncompressSketch(source *CpcCompressedState, seed uint64) (*CpcSketch, erro
 	if err := source.uncompress(sketch); err != nil {
 		return nil, err
 	}
+	if err := source.checkUncompressed(sketch); err != nil {
+		return nil, err
+	}
 
 	return sketch, nil
 }
@@ -520,6 +523,9 @@ func (c *CpcCompressedState) uncompressSlidingFlavor(src *CpcSketch) error {
 			row := rowCol >> 6
 			col := rowCol & 63
 			// First, undo the permutation.
+			if col >= len(permutation) {
+				return fmt.Errorf("uncompressSlidingFlavor: invalid pair value %d at index %d", rowCol, i)
+			}
 			col = int(permutation[col])
 			// Then, undo the rotation: old = (new + (offset+8)) mod 64.
 			col = (col + (offset + 8)) & 63
@@ -561,7 +567,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.NumCoupons = getNumCoupons(bytes)
 		state.NumCsv = state.NumCoupons
 		state.CsvLengthInts = getSvLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CsvStream = getSvStream(bytes)
@@ -571,7 +577,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CsvLengthInts = getSvLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CsvStream = getSvStream(bytes)
@@ -579,7 +585,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
 		state.CwLengthInts = getWLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -589,7 +595,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CwLengthInts = getWLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -599,7 +605,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.NumCsv = getNumSV(bytes)
 		state.CsvLengthInts = getSvLengthInts(bytes)
 		state.CwLengthInts = getWLengthInts(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -612,7 +618,7 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		state.CwLengthInts = getWLengthInts(bytes)
 		state.Kxp = getKxP(bytes)
 		state.HipEstAccum = getHipAccum(bytes)
-		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
+		if err := checkCapacity(len(bytes), 4*(getDefinedPreInts(format)+state.CsvLengthInts+state.CwLengthInts)); err != nil {
 			return nil, err
 		}
 		state.CwStream = getWStream(bytes)
@@ -620,9 +626,66 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 	default:
 		return nil, fmt.Errorf("unknown format: %d", format)
 	}
+	if err := state.checkImage(); err != nil {
+		return nil, err
+	}
 	return state, nil
 }
 
+// checkImage verifies that the sizes read from an image agree with each other,
+// before anything is allocated in proportion to them.
+func (c *CpcCompressedState) checkImage() error {
+	flavor := determineFlavor(c.LgK, c.NumCoupons)
+	hasWindow := flavor == CpcFlavorPinned || flavor == CpcFlavorSliding
+	if c.WindowIsValid != hasWindow || (c.CwLengthInts > 0) != hasWindow {
+		return fmt.Errorf("possible corruption: window not as expected of %d coupons", c.NumCoupons)
+	}
+	hasCsv := c.NumCsv > 0
+	if c.CsvIsValid != hasCsv || (c.CsvLengthInts > 0) != hasCsv || (!hasCsv && !hasWindow && flavor != CpcFlavorEmpty) {
+		return fmt.Errorf("possible corruption: surprising values not as expected of %d coupons", c.NumCoupons)
+	}
+	if offset := c.getWindowOffset(); offset > 56 || c.FiCol > offset {
+		return fmt.Errorf("possible corruption: window offset %d, first interesting column %d", offset, c.FiCol)
+	}
+	// every byte of the window takes at least one bit
+	if hasWindow && c.CwLengthInts<<5 < 1<<c.LgK {
+		return fmt.Errorf("possible corruption: window stream of %d ints is too short", c.CwLengthInts)
+	}
+	// every surprising value takes at least two bits
+	if c.NumCsv > uint64(c.CsvLengthInts)<<4 {
+		return fmt.Errorf("possible corruption: %d surprising values in %d ints", c.NumCsv, c.CsvLengthInts)
+	}
+	return nil
+}
+
+// checkUncompressed verifies the coupon count and the first interesting column
+// of an uncompressed sketch against its contents.
+func (c *CpcCompressedState) checkUncompressed(sketch *CpcSketch) error {
+	if sketch.slidingWindow == nil {
+		return nil // sparse: the coupons are the pairs
+	}
+	numCoupons := sketch.windowOffset << c.LgK
+	for _, b := range sketch.slidingWindow {
+		numCoupons += bits.OnesCount8(b)
+	}
+	for _, rowCol := range sketch.pairTable.slotsArr {
+		if rowCol == -1 {
+			continue
+		}
+		if col := rowCol & 63; col >= sketch.windowOffset {
+			numCoupons++
+		} else if col >= sketch.fiCol {
+			numCoupons--
+		} else {
+			return fmt.Errorf("possible corruption: surprising value in column %d before the first interesting one", col)
+		}
+	}
+	if uint64(numCoupons) != sketch.numCoupons {
+		return fmt.Errorf("possible corruption: %d coupons, expected %d", numCoupons, sketch.numCoupons)
+	}
+	return nil
+}
+
 func (c *CpcCompressedState) exportToMemory() ([]byte, error) {
 	// Determine the total number of bytes required.
 	totalBytes := c.getRequiredSerializedBytes()
@@ -723,6 +786,11 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if err := lowLevelUncompressPairs(pairs, numPairs, numBaseBits, source.CsvStream, source.CsvLengthInts); err != nil {
 		return nil, err
 	}
+	for _, rowCol := range pairs {
+		if rowCol < 0 || rowCol>>6 >= srcK {
+			return nil, fmt.Errorf("uncompressTheSurprisingValues: row %d out of range", rowCol>>6)
+		}
+	}
 	return pairs, nil
 }
 
@@ -941,6 +1009,9 @@ func lowLevelUncompressPairs(pairArray []int, numPairsToDecode, numBaseBits int,
 		}
 		rowIndex := predictedRowIndex + int(yDelta)
 		colIndex := predictedColIndex + xDelta
+		if colIndex > 63 {
+			return fmt.Errorf("lowLevelUncompressPairs: column %d out of range", colIndex)
+		}
 		rowCol := (rowIndex << 6) | colIndex
 		pairArray[pairIndex] = rowCol
 		pairIndex++
diff --git a/cpc/utils.go b/cpc/utils.go
index 0ee36d6..afbddbf 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkBounds(0, int(preIntsDef)<<2, len(bytes)); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
@@ -854,6 +857,12 @@ func putFirst8(mem []byte, preInts, lgK, fiCol, flags byte, seedHash int16) erro
 func CpcSketchToString(mem []byte, detail bool) (string, error) {
 	LS := "\n"
 	capBytes := len(mem)
+	if err := checkCapacity(capBytes, 8); err != nil {
+		return "", err
+	}
+	if err := checkCapacity(capBytes, getDefinedPreInts(getFormat(mem))<<2); err != nil {
+		return "", err
+	}
 
 	// Low preamble fields (first 8 bytes)
 	preInts := int(mem[loFieldPreInts]) & 0xFF
@@ -1160,11 +1169,15 @@ func CpcSketchToString(mem []byte, detail bool) (string, error) {
 		sb.WriteString(LS + "### CPC SKETCH IMAGE - DATA" + LS)
 		if wLengthInts > 0 {
 			sb.WriteString(LS + "Window Stream:" + LS)
-			listData(mem, int(wStreamStart), int(wLengthInts), sb)
+			if err := listData(mem, int(wStreamStart), int(wLengthInts), sb); err != nil {
+				return "", err
+			}
 		}
 		if svLengthInts > 0 {
 			sb.WriteString(LS + "SV Stream:" + LS)
-			listData(mem, int(svStreamStart), int(svLengthInts), sb)
+			if err := listData(mem, int(svStreamStart), int(svLengthInts), sb); err != nil {
+				return "", err
+			}
 		}
 	}
 	sb.WriteString("### END CPC SKETCH IMAGE" + LS)
@@ -1194,11 +1207,11 @@ func characterPad(s string, fieldLength int, padChar rune, append bool) string {
 
 // listData reads lengthInts integers from mem starting at offsetBytes,
 // and appends each formatted value (using dataFmt) to the provided strings.Builder.
-func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) {
+func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) error {
 	memCap := len(mem)
 	expectedCap := offsetBytes + 4*lengthInts
 	if err := checkCapacity(memCap, expectedCap); err != nil {
-		panic(err)
+		return err
 	}
 	for i := 0; i < lengthInts; i++ {
 		start := offsetBytes + 4*i
@@ -1207,4 +1220,5 @@ func listData(mem []byte, offsetBytes, lengthInts int, sb *strings.Builder) {
 		sb.WriteString(fmt.Sprintf(dataFmt, i, value))
 		sb.WriteString("\n")
 	}
+	return nil
 }
-- 
2.43.0


From 48e26282985b629e1c02b088e1006be84b11e820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 50/69] fix: theta decoding read beyond truncated images and
 trusted the packed entry width

Serial versions 1 to 3 read the number of entries and theta before checking
that the image holds them and panicked on a truncated image; version 4
accepted an entry width of 0 bits (so a tiny image could declare 2^32
entries) and widths above 63 bits, which the unpacking cannot handle.
---
 theta/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..43f3f05 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -173,6 +173,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
 	}
 
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bytes of the number of entries: %d", numEntriesBytes)
+	}
 	if err := validateMemorySize(bytes, dataOffsetBytes+int(numEntriesBytes)); err != nil {
 		return compactSketchData{}, err
 	}
@@ -185,6 +188,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if numEntries > 0 && (entryBits == 0 || entryBits > 63) {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -254,6 +260,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +312,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +344,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +389,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From c92e04a8d300cee3019ca86404114c6be93e5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 51/69] fix: tuple decoding reserved memory for whatever counts
 an image claims

A 16-byte image could make the tuple and array-of-numbers decoders allocate
for 2^32 entries, and a string summary for a 4 GB string, before reading
any of it.
---
 tuple/arrayofnumbers_sketch_decoder.go |  4 ++--
 tuple/arrayofstrings_sketch.go         | 27 +++++++++++++++++++++++---
 tuple/decoder.go                       |  8 ++++++--
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..5533dfa 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -129,7 +129,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			return nil, err
 		}
 
-		hashes := make([]uint64, 0, numEntries)
+		hashes := make([]uint64, 0, min(numEntries, maxPreallocatedEntries))
 		for i := uint32(0); i < numEntries; i++ {
 			var hash uint64
 			if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -139,7 +139,7 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 			hashes = append(hashes, hash)
 		}
 
-		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, numEntries)
+		entries = make([]entry[*ArrayOfNumbersSummary[V]], 0, min(numEntries, maxPreallocatedEntries))
 		for i := uint32(0); i < numEntries; i++ {
 			summary, err := dec.read(r, numberOfValuesInSummary)
 			if err != nil {
diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f9134d4..f361995 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -159,17 +159,38 @@ func readStrings(r io.Reader) ([]string, error) {
 			return nil, err
 		}
 
-		bytes := make([]byte, length)
-		if _, err := io.ReadFull(r, bytes); err != nil {
+		value, err := readString(r, length)
+		if err != nil {
 			return nil, err
 		}
 
-		values = append(values, string(bytes))
+		values = append(values, value)
 	}
 
 	return values, nil
 }
 
+// readString reads length bytes without trusting a large length beyond what the reader delivers.
+func readString(r io.Reader, length uint32) (string, error) {
+	const maxPreallocatedBytes = 1 << 16
+	if length <= maxPreallocatedBytes {
+		bytes := make([]byte, length)
+		if _, err := io.ReadFull(r, bytes); err != nil {
+			return "", err
+		}
+		return string(bytes), nil
+	}
+
+	bytes, err := io.ReadAll(io.LimitReader(r, int64(length)))
+	if err != nil {
+		return "", err
+	}
+	if len(bytes) < int(length) {
+		return "", io.ErrUnexpectedEOF
+	}
+	return string(bytes), nil
+}
+
 // ArrayOfStringsInlineSummary stores a string-slice summary inline in the sketch entry
 // instead of behind a pointer to reduce per-entry allocations.
 type ArrayOfStringsInlineSummary struct {
diff --git a/tuple/decoder.go b/tuple/decoder.go
index 3ed4c9a..559dd59 100644
--- a/tuple/decoder.go
+++ b/tuple/decoder.go
@@ -27,6 +27,9 @@ import (
 	"github.com/apache/datasketches-go/theta"
 )
 
+// maxPreallocatedEntries limits the memory reserved for the number of entries an image claims.
+const maxPreallocatedEntries = 4096
+
 // SummaryReader reads and returns a summary from the reader.
 // Implementations should read the format written by a corresponding SummaryWriter.
 //
@@ -132,7 +135,8 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 		}
 	}
 
-	entries := make([]entry[S], numEntries)
+	// the number of entries is not trusted beyond what the reader delivers
+	entries := make([]entry[S], 0, min(numEntries, maxPreallocatedEntries))
 	for i := uint32(0); i < numEntries; i++ {
 		var hash uint64
 		if err := binary.Read(r, binary.LittleEndian, &hash); err != nil {
@@ -144,7 +148,7 @@ func (dec *Decoder[S]) Decode(r io.Reader) (*CompactSketch[S], error) {
 			return nil, err
 		}
 
-		entries[i] = entry[S]{Hash: hash, Summary: summary}
+		entries = append(entries, entry[S]{Hash: hash, Summary: summary})
 	}
 
 	isOrdered := (flags & (1 << flagIsOrdered)) != 0
-- 
2.43.0


From 6f4bae8bc0d03ef73618a35404b84cbd1ebcd0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 52/69] fix: hll decoding accepted a count of empty registers
 below the actual one

The estimator then indexed its tables with a negative number of empty
registers once a few more registers were filled.
---
 hll/preamble_utils.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hll/preamble_utils.go b/hll/preamble_utils.go
index c0228c3..a676136 100644
--- a/hll/preamble_utils.go
+++ b/hll/preamble_utils.go
@@ -287,6 +287,7 @@ func checkHllImage(byteArr []byte, lgK int) error {
 	if curMin > valMask6 || extractNumAtCurMin(byteArr) > k {
 		return fmt.Errorf("possible Corruption: Invalid CurMin or NumAtCurMin: %d, %d", curMin, extractNumAtCurMin(byteArr))
 	}
+	zeros := 0
 	switch extractTgtHllType(byteArr) {
 	case TgtHllTypeHll4:
 		return checkHll4Image(byteArr, lgK, curMin)
@@ -294,6 +295,11 @@ func checkHllImage(byteArr []byte, lgK int) error {
 		if len(byteArr) < hllByteArrStart+((k*3)>>2)+1 {
 			return fmt.Errorf("input array too small: %d", len(byteArr))
 		}
+		for i := 0; i < k; i++ {
+			if get6Bit(byteArr, hllByteArrStart, i) == 0 {
+				zeros++
+			}
+		}
 	default:
 		if len(byteArr) < hllByteArrStart+k {
 			return fmt.Errorf("input array too small: %d", len(byteArr))
@@ -302,8 +308,15 @@ func checkHllImage(byteArr []byte, lgK int) error {
 			if v > valMask6 {
 				return fmt.Errorf("possible Corruption: Invalid Value in slot %d: %d", i, v)
 			}
+			if v == 0 {
+				zeros++
+			}
 		}
 	}
+	// The count may be stale (too large) in an image that awaits a rebuild.
+	if curMin == 0 && extractNumAtCurMin(byteArr) < zeros {
+		return fmt.Errorf("possible Corruption: Invalid NumAtCurMin: %d", extractNumAtCurMin(byteArr))
+	}
 	return nil
 }
 
-- 
2.43.0


From 89dc71ff497d5bc61f1f8366e35967e36c480283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 53/69] fix: varopt union decoding accepted a sketch that is
 not a gadget

Such a union has no marks, and its result or next update panicked.
---
 sampling/varopt_items_union_decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampling/varopt_items_union_decoder.go b/sampling/varopt_items_union_decoder.go
index 363081d..58d764e 100644
--- a/sampling/varopt_items_union_decoder.go
+++ b/sampling/varopt_items_union_decoder.go
@@ -19,6 +19,7 @@ package sampling
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"math"
 
@@ -110,6 +111,9 @@ func DecodeVarOptItemsUnion[T any](buffer []byte, serde common.ItemSketchSerde[T
 	if err != nil {
 		return nil, err
 	}
+	if gadget.marks == nil {
+		return nil, errors.New("the sketch inside of a union must be a gadget")
+	}
 
 	return &VarOptItemsUnion[T]{
 		gadget:        gadget,
-- 
2.43.0


From 13696e7a5c9192764fbbfed2a26c5b6f8f892199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:41 +0000
Subject: [PATCH 54/69] fix: a-not-b rejected an empty subtrahend without seed
 hash

Java writes empty theta sketches without a seed hash. Union, intersection
and Jaccard ignore the seed hash of an empty sketch, a-not-b did so only
when the first sketch retained something.
---
 theta/a_not_b.go | 2 +-
 tuple/a_not_b.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/a_not_b.go b/theta/a_not_b.go
index 1224f96..9e82988 100644
--- a/theta/a_not_b.go
+++ b/theta/a_not_b.go
@@ -49,7 +49,7 @@ func ANotB(a, b Sketch, seed uint64, ordered bool) (*CompactSketch, error) {
 	if aSeedHash != uint16(seedHash) {
 		return nil, fmt.Errorf("sketch A seed hash mismatch: expected %d, got %d", seedHash, aSeedHash)
 	}
-	if bSeedHash != uint16(seedHash) {
+	if !b.IsEmpty() && bSeedHash != uint16(seedHash) {
 		return nil, fmt.Errorf("sketch B seed hash mismatch: expected %d, got %d", seedHash, bSeedHash)
 	}
 
diff --git a/tuple/a_not_b.go b/tuple/a_not_b.go
index 126dbb0..386dceb 100644
--- a/tuple/a_not_b.go
+++ b/tuple/a_not_b.go
@@ -185,7 +185,7 @@ func TupleANotThetaB[S Summary](a Sketch[S], b theta.Sketch, seed uint64, ordere
 	if aSeedHash != uint16(seedHash) {
 		return nil, fmt.Errorf("sketch A seed hash mismatch: expected %d, got %d", seedHash, aSeedHash)
 	}
-	if bSeedHash != uint16(seedHash) {
+	if !b.IsEmpty() && bSeedHash != uint16(seedHash) {
 		return nil, fmt.Errorf("sketch B seed hash mismatch: expected %d, got %d", seedHash, bSeedHash)
 	}
 
-- 
2.43.0


From 48e4d873640f0ed8f0ef3c97eee025aaf311fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 55/69] fix: array-of-strings summary kept the caller's slice

---
 tuple/arrayofstrings_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuple/arrayofstrings_sketch.go b/tuple/arrayofstrings_sketch.go
index f361995..67d9631 100644
--- a/tuple/arrayofstrings_sketch.go
+++ b/tuple/arrayofstrings_sketch.go
@@ -72,7 +72,7 @@ func (s *ArrayOfStringsSummary) Clone() Summary {
 
 // Update incorporates a new string value into the summary.
 func (s *ArrayOfStringsSummary) Update(values []string) {
-	s.values = values
+	s.values = append([]string{}, values...)
 }
 
 // ArrayOfStringsSummaryWriter writes an ArrayOfStringsSummary to the provided io.Writer in binary format.
-- 
2.43.0


From 6964fb271fb7d5cc05d53a8d3c08b274f0dc1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:29 +0000
Subject: [PATCH 56/69] fix: cpc union GetBitMatrix handed out the internal
 matrix

---
 cpc/cpc_union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..9785eeb 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -351,7 +351,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return append([]uint64(nil), u.bitMatrix...), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From 2ee2fdf5ae6eb03873266bdc1040d6f52798fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 57/69] fix: theta intersection refused a corrupted sketch only
 after changing its state

---
 theta/intersection.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/theta/intersection.go b/theta/intersection.go
index a329efb..05b0418 100644
--- a/theta/intersection.go
+++ b/theta/intersection.go
@@ -89,65 +89,67 @@ func (i *Intersection) Update(sketch Sketch) error {
 		return errors.New("seed hash mismatch")
 	}
 
-	i.hashtable.isEmpty = i.hashtable.isEmpty || sketch.IsEmpty()
-	if i.hashtable.isEmpty {
-		i.hashtable.theta = MaxTheta
-	} else {
-		i.hashtable.theta = min(i.hashtable.theta, sketch.Theta64())
+	// the state changes only after the incoming sketch has been found consistent
+	newIsEmpty := sketch.IsEmpty()
+	newTheta := min(i.hashtable.theta, sketch.Theta64())
+	if newIsEmpty {
+		newTheta = MaxTheta
 	}
 
 	if i.isValid && i.hashtable.numEntries == 0 {
+		i.hashtable.isEmpty = newIsEmpty
+		i.hashtable.theta = newTheta
 		return nil
 	}
 
 	if sketch.NumRetained() == 0 {
 		i.isValid = true
 		i.hashtable = NewHashtable(
-			0, 0, ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		return nil
 	}
 
 	if !i.isValid { // first update, copy or move incoming sketch
-		i.isValid = true
-
 		lgSize := internal.LgSizeFromCount(sketch.NumRetained(), rebuildThreshold)
-		i.hashtable = NewHashtable(lgSize, lgSize-1, ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty)
+		table := NewHashtable(lgSize, lgSize-1, ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty)
 
 		for entry := range sketch.All() {
-			idx, err := i.hashtable.Find(entry)
+			idx, err := table.Find(entry)
 			if err == nil {
 				return errors.New("duplicate key, possibly corrupted input sketch")
 			}
 
-			i.hashtable.Insert(idx, entry)
+			table.Insert(idx, entry)
 		}
 
-		if i.hashtable.numEntries != sketch.NumRetained() {
+		if table.numEntries != sketch.NumRetained() {
 			return errors.New("num entries mismatch, possibly corrupted input sketch")
 		}
 
+		i.hashtable = table
+		i.isValid = true
 		return nil
 	}
 
 	// intersection
 	var (
 		maxMatches     = min(i.hashtable.numEntries, sketch.NumRetained())
+		matchesKeys    = make([]int, 0, maxMatches)
 		matchesEntries = make([]uint64, 0, maxMatches)
 		matchCount     = 0
 		count          = 0
 	)
 	for entry := range sketch.All() {
-		if entry < i.hashtable.theta {
+		if entry < newTheta {
 			key, err := i.hashtable.Find(entry)
 			if err == nil {
 				if uint32(matchCount) == maxMatches {
 					return errors.New("max matches exceeded, possibly corrupted input sketch")
 				}
 
-				i.policy.Apply(&i.hashtable.entries[key], entry)
-
-				matchesEntries = append(matchesEntries, i.hashtable.entries[key])
+				matchesKeys = append(matchesKeys, key)
+				matchesEntries = append(matchesEntries, entry)
 				matchCount++
 			}
 		} else if sketch.IsOrdered() {
@@ -165,16 +167,21 @@ func (i *Intersection) Update(sketch Sketch) error {
 		return errors.New("fewer keys than expected, possibly corrupted input sketch")
 	}
 
+	for j, key := range matchesKeys {
+		i.policy.Apply(&i.hashtable.entries[key], matchesEntries[j])
+		matchesEntries[j] = i.hashtable.entries[key]
+	}
+
 	if matchCount == 0 {
 		i.hashtable = NewHashtable(
-			0, 0, ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		if i.hashtable.theta == MaxTheta {
 			i.hashtable.isEmpty = true
 		}
 	} else {
 		lgSize := internal.LgSizeFromCount(uint32(matchCount), rebuildThreshold)
-		i.hashtable = NewHashtable(lgSize, lgSize-1, ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty)
+		i.hashtable = NewHashtable(lgSize, lgSize-1, ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty)
 		for j := 0; j < matchCount; j++ {
 			key, err := i.hashtable.Find(matchesEntries[j])
 			if err != nil && err == ErrKeyNotFoundAndNoEmptySlots {
-- 
2.43.0


From be6cdd23b418cb4f106f8180ca9dfd558d172875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:56 +0000
Subject: [PATCH 58/69] fix: tuple intersection refused a corrupted sketch only
 after changing its state

---
 tuple/intersection.go | 51 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/tuple/intersection.go b/tuple/intersection.go
index 41d567d..1553e4a 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -124,72 +124,70 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 		return errors.New("seed hash mismatch")
 	}
 
-	i.hashtable.isEmpty = i.hashtable.isEmpty || sketch.IsEmpty()
-	if i.hashtable.isEmpty {
-		i.hashtable.theta = theta.MaxTheta
-	} else {
-		i.hashtable.theta = min(i.hashtable.theta, sketch.Theta64())
+	// the state changes only after the incoming sketch has been found consistent
+	newIsEmpty := sketch.IsEmpty()
+	newTheta := min(i.hashtable.theta, sketch.Theta64())
+	if newIsEmpty {
+		newTheta = theta.MaxTheta
 	}
 
 	if i.isValid && i.hashtable.numEntries == 0 {
+		i.hashtable.isEmpty = newIsEmpty
+		i.hashtable.theta = newTheta
 		return nil
 	}
 
 	if sketch.NumRetained() == 0 {
 		i.isValid = true
 		i.hashtable = newHashtable[S](
-			0, 0, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		return nil
 	}
 
 	if !i.isValid { // first update, copy or move incoming sketch
-		i.isValid = true
-
 		lgSize := internal.LgSizeFromCount(sketch.NumRetained(), rebuildThreshold)
-		i.hashtable = newHashtable[S](lgSize, lgSize-1, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty)
+		table := newHashtable[S](lgSize, lgSize-1, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty)
 
 		for hash, summary := range sketch.All() {
-			idx, err := i.hashtable.Find(hash)
+			idx, err := table.Find(hash)
 			if err == nil {
 				return errors.New("duplicate key, possibly corrupted input sketch")
 			}
 
-			i.hashtable.Insert(idx, entry[S]{
+			table.Insert(idx, entry[S]{
 				Hash:    hash,
 				Summary: summary.Clone().(S),
 			})
 		}
 
-		if i.hashtable.numEntries != sketch.NumRetained() {
+		if table.numEntries != sketch.NumRetained() {
 			return errors.New("num entries mismatch, possibly corrupted input sketch")
 		}
 
+		i.hashtable = table
+		i.isValid = true
 		return nil
 	}
 
 	// intersection
 	var (
 		maxMatches     = min(i.hashtable.numEntries, sketch.NumRetained())
+		matchesKeys    = make([]int, 0, maxMatches)
 		matchesEntries = make([]entry[S], 0, maxMatches)
 		matchCount     = 0
 		count          = 0
 	)
 	for hash, summary := range sketch.All() {
-		if hash < i.hashtable.theta {
+		if hash < newTheta {
 			key, err := i.hashtable.Find(hash)
 			if err == nil {
 				if uint32(matchCount) == maxMatches {
 					return errors.New("max matches exceeded, possibly corrupted input sketch")
 				}
 
-				if i.applyFunc != nil {
-					i.hashtable.entries[key].Summary = i.applyFunc(i.hashtable.entries[key].Summary, summary)
-				} else {
-					i.policy.Apply(i.hashtable.entries[key].Summary, summary)
-				}
-
-				matchesEntries = append(matchesEntries, i.hashtable.entries[key])
+				matchesKeys = append(matchesKeys, key)
+				matchesEntries = append(matchesEntries, entry[S]{Hash: hash, Summary: summary})
 				matchCount++
 			}
 		} else if sketch.IsOrdered() {
@@ -207,9 +205,18 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 		return errors.New("fewer keys than expected, possibly corrupted input sketch")
 	}
 
+	for j, key := range matchesKeys {
+		if i.applyFunc != nil {
+			i.hashtable.entries[key].Summary = i.applyFunc(i.hashtable.entries[key].Summary, matchesEntries[j].Summary)
+		} else {
+			i.policy.Apply(i.hashtable.entries[key].Summary, matchesEntries[j].Summary)
+		}
+		matchesEntries[j] = i.hashtable.entries[key]
+	}
+
 	if matchCount == 0 {
 		i.hashtable = newHashtable[S](
-			0, 0, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		if i.hashtable.theta == theta.MaxTheta {
 			i.hashtable.isEmpty = true
@@ -217,7 +224,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 	} else {
 		lgSize := internal.LgSizeFromCount(uint32(matchCount), rebuildThreshold)
 		i.hashtable = newHashtable[S](
-			lgSize, lgSize-1, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			lgSize, lgSize-1, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		for j := 0; j < matchCount; j++ {
 			key, err := i.hashtable.Find(matchesEntries[j].Hash)
-- 
2.43.0


From aeea78cf49d41866f1c6f7305a4623d9bc858142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 59/69] fix: theta and tuple accepted NaN as sampling
 probability

---
 theta/union.go                        | 2 +-
 theta/update_sketch.go                | 2 +-
 tuple/arrayofnumbers_union.go         | 2 +-
 tuple/arrayofnumbers_update_sketch.go | 2 +-
 tuple/union.go                        | 2 +-
 tuple/update_sketch.go                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b501639..9e799d9 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -93,7 +93,7 @@ func NewUnion(opts ...UnionOptionFunc) (*Union, error) {
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/theta/update_sketch.go b/theta/update_sketch.go
index 03a4028..99a856f 100644
--- a/theta/update_sketch.go
+++ b/theta/update_sketch.go
@@ -100,7 +100,7 @@ func NewQuickSelectUpdateSketch(opts ...UpdateSketchOptionFunc) (*QuickSelectUpd
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index c92fa12..1d77865 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -57,7 +57,7 @@ func NewArrayOfNumbersSketchUnion[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_update_sketch.go b/tuple/arrayofnumbers_update_sketch.go
index edb7df0..7bf50fc 100644
--- a/tuple/arrayofnumbers_update_sketch.go
+++ b/tuple/arrayofnumbers_update_sketch.go
@@ -56,7 +56,7 @@ func NewArrayOfNumbersUpdateSketch[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/union.go b/tuple/union.go
index 5e03d12..e72f1f6 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -51,7 +51,7 @@ func (o *unionOptions) Validate() error {
 	if o.lgK > theta.MaxLgK {
 		return fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, o.lgK)
 	}
-	if o.p <= 0 || o.p > 1 {
+	if !(o.p > 0 && o.p <= 1) {
 		return errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/update_sketch.go b/tuple/update_sketch.go
index 5a70201..e17d91f 100644
--- a/tuple/update_sketch.go
+++ b/tuple/update_sketch.go
@@ -111,7 +111,7 @@ func NewUpdateSketch[S UpdatableSummary[V], V any](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) {
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
-- 
2.43.0


From 14ee31b0035647657f22879ed2d2eccab1fea1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:34 +0000
Subject: [PATCH 60/69] fix: varopt union accepted a max k beyond the int range

---
 sampling/varopt_items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index 0e1bcae..8cd809b 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -127,7 +127,7 @@ func NewVarOptItemsSketch[T any](k uint, opts ...VarOptOption) (*VarOptItemsSket
 func newVarOptItemsSketchFromState[T any](
 	k int, rf ResizeFactor, isGadget bool,
 ) (*VarOptItemsSketch[T], error) {
-	if k == 0 || k > varOptMaxK {
+	if k < 1 || k > varOptMaxK {
 		return nil, errors.New("k must be at least 1 and less than 2^31 - 1")
 	}
 
-- 
2.43.0


From fe2c34c96ca37755dcfb56ca71f058177d0bf39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:48 +0000
Subject: [PATCH 61/69] fix: tdigest means and ranks overflowed for large
 values of large weight

---
 tdigest/double.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tdigest/double.go b/tdigest/double.go
index 4880ab0..c66abef 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -74,7 +74,7 @@ type doublePrecisionCentroid struct {
 
 func (c *doublePrecisionCentroid) add(other doublePrecisionCentroid) {
 	c.weight += other.weight
-	c.mean += (other.mean - c.mean) * float64(other.weight) / float64(c.weight)
+	c.mean += (other.mean - c.mean) * (float64(other.weight) / float64(c.weight)) // the ratio first: mean times weight can overflow
 }
 
 // scaleFunction is equivalent of K_2 (default) in the Java implementation mentioned below
@@ -342,7 +342,7 @@ func (d *Double) Rank(value float64) (float64, error) {
 	weightDelta += float64(d.centroids[upperIdx].weight) / 2.0
 
 	if d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean > 0 {
-		return (weightBelow + weightDelta*(value-d.centroids[lowerIdx].mean)/(d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean)) / float64(d.centroidsWeight), nil
+		return (weightBelow + weightDelta*((value-d.centroids[lowerIdx].mean)/(d.centroids[upperIdx].mean-d.centroids[lowerIdx].mean))) / float64(d.centroidsWeight), nil
 	}
 	return (weightBelow + weightDelta/2.0) / float64(d.centroidsWeight), nil
 }
@@ -566,5 +566,5 @@ func (d *Double) isSingleValue() bool {
 }
 
 func weightedAverage(x1, w1, x2, w2 float64) float64 {
-	return (x1*w1 + x2*w2) / (w1 + w2)
+	return x1 + (x2-x1)*(w2/(w1+w2)) // mean times weight can overflow
 }
-- 
2.43.0


From ad01d38f66c04e1f8a7b957aaadc3529efa66c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:45 +0000
Subject: [PATCH 62/69] fix: reservoir union changed its state, or accepted,
 when more items were seen than an image can hold

---
 sampling/reservoir_items_sketch.go | 3 +++
 sampling/reservoir_items_union.go  | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index a7775de..2d34cb2 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -493,6 +493,9 @@ func newReservoirItemsSketchFromStates[T any](
 	if k < len(items) {
 		return nil, fmt.Errorf("k must be at least as large as the number of items, got %d < %d", k, len(items))
 	}
+	if n < 0 || n > maxItemsSeen {
+		return nil, fmt.Errorf("items seen must be between 0 and %d, got %d", maxItemsSeen, n)
+	}
 	if (n >= int64(k) && len(items) < k) || (n < int64(k) && int64(len(items)) < n) {
 		return nil, fmt.Errorf("sketch with too few items. items seen: %d, max size: %d, current items count: %d", n, k, len(items))
 	}
diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 918059b..02500c9 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -177,6 +177,11 @@ func (u *ReservoirItemsUnion[T]) createNewGadget(
 func (u *ReservoirItemsUnion[T]) twoWayMergeInternal(
 	source *ReservoirItemsSketch[T], isModifiable bool,
 ) error {
+	// refuse before anything is changed
+	if source.N() > maxItemsSeen-u.gadget.N() {
+		return ErrSketchExceedsMaxCapacity
+	}
+
 	if source.N() <= int64(source.K()) {
 		if err := u.twoWayMergeInternalStandard(source); err != nil {
 			return err
-- 
2.43.0


From 4dd12bd5e52351d2d93e650c5f8e988b4fa2573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 63/69] fix: array-of-numbers intersection refused a corrupted
 sketch only after changing its state

---
 tuple/arrayofnumbers_intersection.go | 43 ++++++++++++++++------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index f84df63..7c6acd3 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -87,68 +87,70 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 		return errors.New("seed hash mismatch")
 	}
 
-	i.hashtable.isEmpty = i.hashtable.isEmpty || sketch.IsEmpty()
-	if i.hashtable.isEmpty {
-		i.hashtable.theta = theta.MaxTheta
-	} else {
-		i.hashtable.theta = min(i.hashtable.theta, sketch.Theta64())
+	// the state changes only after the incoming sketch has been found consistent
+	newIsEmpty := sketch.IsEmpty()
+	newTheta := min(i.hashtable.theta, sketch.Theta64())
+	if newIsEmpty {
+		newTheta = theta.MaxTheta
 	}
 
 	if i.isValid && i.hashtable.numEntries == 0 {
+		i.hashtable.isEmpty = newIsEmpty
+		i.hashtable.theta = newTheta
 		return nil
 	}
 
 	if sketch.NumRetained() == 0 {
 		i.isValid = true
 		i.hashtable = newHashtable[*ArrayOfNumbersSummary[V]](
-			0, 0, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		return nil
 	}
 
 	if !i.isValid { // first update, copy or move incoming sketch
-		i.isValid = true
-
 		lgSize := internal.LgSizeFromCount(sketch.NumRetained(), rebuildThreshold)
-		i.hashtable = newHashtable[*ArrayOfNumbersSummary[V]](lgSize, lgSize-1, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty)
+		table := newHashtable[*ArrayOfNumbersSummary[V]](lgSize, lgSize-1, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty)
 
 		for hash, summary := range sketch.All() {
-			idx, err := i.hashtable.Find(hash)
+			idx, err := table.Find(hash)
 			if err == nil {
 				return errors.New("duplicate key, possibly corrupted input sketch")
 			}
 
-			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
+			table.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
 				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
-		if i.hashtable.numEntries != sketch.NumRetained() {
+		if table.numEntries != sketch.NumRetained() {
 			return errors.New("num entries mismatch, possibly corrupted input sketch")
 		}
 
+		i.hashtable = table
+		i.isValid = true
 		return nil
 	}
 
 	// intersection
 	var (
 		maxMatches     = min(i.hashtable.numEntries, sketch.NumRetained())
+		matchesKeys    = make([]int, 0, maxMatches)
 		matchesEntries = make([]entry[*ArrayOfNumbersSummary[V]], 0, maxMatches)
 		matchCount     = 0
 		count          = 0
 	)
 	for hash, summary := range sketch.All() {
-		if hash < i.hashtable.theta {
+		if hash < newTheta {
 			key, err := i.hashtable.Find(hash)
 			if err == nil {
 				if uint32(matchCount) == maxMatches {
 					return errors.New("max matches exceeded, possibly corrupted input sketch")
 				}
 
-				i.policy.Apply(i.hashtable.entries[key].Summary, summary)
-
-				matchesEntries = append(matchesEntries, i.hashtable.entries[key])
+				matchesKeys = append(matchesKeys, key)
+				matchesEntries = append(matchesEntries, entry[*ArrayOfNumbersSummary[V]]{Hash: hash, Summary: summary})
 				matchCount++
 			}
 		} else if sketch.IsOrdered() {
@@ -166,9 +168,14 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 		return errors.New("fewer keys than expected, possibly corrupted input sketch")
 	}
 
+	for j, key := range matchesKeys {
+		i.policy.Apply(i.hashtable.entries[key].Summary, matchesEntries[j].Summary)
+		matchesEntries[j] = i.hashtable.entries[key]
+	}
+
 	if matchCount == 0 {
 		i.hashtable = newHashtable[*ArrayOfNumbersSummary[V]](
-			0, 0, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			0, 0, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		if i.hashtable.theta == theta.MaxTheta {
 			i.hashtable.isEmpty = true
@@ -176,7 +183,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 	} else {
 		lgSize := internal.LgSizeFromCount(uint32(matchCount), rebuildThreshold)
 		i.hashtable = newHashtable[*ArrayOfNumbersSummary[V]](
-			lgSize, lgSize-1, theta.ResizeX1, 1.0, i.hashtable.theta, i.hashtable.seed, i.hashtable.isEmpty,
+			lgSize, lgSize-1, theta.ResizeX1, 1.0, newTheta, i.hashtable.seed, newIsEmpty,
 		)
 		for j := 0; j < matchCount; j++ {
 			key, err := i.hashtable.Find(matchesEntries[j].Hash)
-- 
2.43.0


From a2b8e4ae5dea4c6922c80daaba050502bd6e77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:33 +0000
Subject: [PATCH 64/69] fix: the double item hasher gave the two zeros, which
 compare equal, different hashes

---
 common/item_sketch_double.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 5eea98f..a6bf8b9 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -40,6 +40,9 @@ var ItemSketchDoubleComparator = func(reverseOrder bool) CompareFn[float64] {
 }
 
 func (f ItemSketchDoubleHasher) Hash(item float64) uint64 {
+	if item == 0 {
+		item = 0 // the two zeros compare equal, so they must hash alike
+	}
 	binary.LittleEndian.PutUint64(f.scratch[:], math.Float64bits(item))
 	return murmur3.SeedSum64(defaultSerdeHashSeed, f.scratch[:])
 }
-- 
2.43.0


From 39b4242ef215397f31cca096e11750a64d7a45f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:44 +0000
Subject: [PATCH 65/69] fix: merge a KLL sketch with itself without losing
 track of its levels

---
 kll/items_sketch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index a28683d..a0cefed 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -751,8 +751,9 @@ func (s *ItemsSketch[C]) mergeItemsSketch(other *ItemsSketch[C]) {
 	finalN := s.n + other.n
 
 	// buffers that are referenced multiple times
+	// (other may be this very sketch, whose levels change during the level 0 update)
 	otherNumLevels := other.numLevels
-	otherLevelsArr := other.levels
+	otherLevelsArr := slices.Clone(other.levels)
 	var otherItemsArr []C
 
 	// MERGE: update this sketch with level0 items from the other sketch
-- 
2.43.0


From d59898742c23cb833884c90ad5d46d215ab8dc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:45 +0000
Subject: [PATCH 66/69] fix: serialize a frequent-items sketch in linear time

---
 frequencies/items_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 3737401..58f241d 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -477,8 +477,8 @@ func (i *ItemsSketch[C]) ToSlice() ([]byte, error) {
 			binary.LittleEndian.PutUint64(outArr[j<<3:], uint64(preArr[j]))
 		}
 		preBytes := preLongs << 3
-		for j := 0; j < activeItems; j++ {
-			binary.LittleEndian.PutUint64(outArr[preBytes+j<<3:], uint64(i.hashMap.getActiveValues()[j]))
+		for j, value := range i.hashMap.getActiveValues() {
+			binary.LittleEndian.PutUint64(outArr[preBytes+j<<3:], uint64(value))
 		}
 		copy(outArr[preBytes+(activeItems<<3):], bytes)
 	}
-- 
2.43.0


From 6d6dfde2fa7e84cdb80d2532423d63d88e4ecdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:39 +0000
Subject: [PATCH 67/69] fix: NaN was accepted as the normalized rank of a
 quantile by KLL, REQ and the numeric sorted view

---
 internal/quantiles/utils.go | 2 +-
 kll/items_sketch.go         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/quantiles/utils.go b/internal/quantiles/utils.go
index 0f28254..701cc7b 100644
--- a/internal/quantiles/utils.go
+++ b/internal/quantiles/utils.go
@@ -47,7 +47,7 @@ func ValidateSplitPoints[N Number](values []N) error {
 }
 
 func ValidateNormalizedRankBounds(rank float64) error {
-	if rank < 0 || rank > 1 {
+	if !(rank >= 0 && rank <= 1) { // also rejects NaN
 		return errors.New("rank must be between 0 and 1 inclusive")
 	}
 	return nil
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index a0cefed..367cedf 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -291,7 +291,7 @@ func (s *ItemsSketch[C]) GetQuantile(rank float64, inclusive bool) (C, error) {
 	if s.IsEmpty() {
 		return *new(C), fmt.Errorf("operation is undefined for an empty sketch")
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) { // also rejects NaN
 		return *new(C), fmt.Errorf("normalized rank cannot be less than zero or greater than 1.0: %f", rank)
 	}
 	err := s.setupSortedView()
-- 
2.43.0


From 1f1abfde043f827528dc1448081657ab7fc411f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:10 +0000
Subject: [PATCH 68/69] fix: KLL ranks with a comparator under which different
 items are equivalent

---
 internal/inequality_search.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/inequality_search.go b/internal/inequality_search.go
index 885c3a9..09a7dd5 100644
--- a/internal/inequality_search.go
+++ b/internal/inequality_search.go
@@ -73,15 +73,15 @@ func resolve[C comparable](arr []C, lo int, hi int, v C, crit Inequality, compar
 	switch crit {
 	case InequalityLT:
 		if lo == hi {
-			if compareFn(v, arr[hi]) == false && v != arr[hi] {
+			if compareFn(arr[hi], v) {
 				result = lo
 			} else {
 				result = -1
 			}
 		} else {
-			if compareFn(v, arr[hi]) == false && v != arr[hi] {
+			if compareFn(arr[hi], v) {
 				result = hi
-			} else if compareFn(v, arr[lo]) == false && v != arr[lo] {
+			} else if compareFn(arr[lo], v) {
 				result = lo
 			} else {
 				result = -1
@@ -106,15 +106,15 @@ func resolve[C comparable](arr []C, lo int, hi int, v C, crit Inequality, compar
 
 	case InequalityGE:
 		if lo == hi {
-			if compareFn(v, arr[lo]) || v == arr[lo] {
+			if !compareFn(arr[lo], v) {
 				result = lo
 			} else {
 				result = -1
 			}
 		} else {
-			if compareFn(v, arr[lo]) || v == arr[lo] {
+			if !compareFn(arr[lo], v) {
 				result = lo
-			} else if compareFn(v, arr[hi]) || v == arr[hi] {
+			} else if !compareFn(arr[hi], v) {
 				result = hi
 			} else {
 				result = -1
@@ -147,7 +147,7 @@ func compare[C comparable](arr []C, a int, b int, v C, crit Inequality, compareF
 	result := 0
 	switch crit {
 	case InequalityLT, InequalityGE:
-		if compareFn(v, arr[a]) || arr[a] == v {
+		if !compareFn(arr[a], v) {
 			result = -1
 		} else if compareFn(arr[b], v) {
 			result = 1
@@ -157,7 +157,7 @@ func compare[C comparable](arr []C, a int, b int, v C, crit Inequality, compareF
 	case InequalityLE, InequalityGT:
 		if compareFn(v, arr[a]) {
 			result = -1
-		} else if compareFn(arr[b], v) || arr[b] == v {
+		} else if !compareFn(v, arr[b]) {
 			result = 1
 		} else {
 			result = 0
-- 
2.43.0


From e002c3b10433f34e999c713a267b745f61beddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:52 +0000
Subject: [PATCH 69/69] fix: theta MaxSerializedSizeBytes overflowed its 8-bit
 result

---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0

