From db80259a5f015694e66c7c5e2d6ca719fb0dc047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 01/53] fix: tuple set operations keep their own copies of
 input summaries

---
 tuple/arrayofnumbers_intersection.go |  2 +-
 tuple/arrayofnumbers_union.go        | 12 +++++++++---
 tuple/intersection.go                |  2 +-
 tuple/union.go                       | 12 +++++++++---
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/tuple/arrayofnumbers_intersection.go b/tuple/arrayofnumbers_intersection.go
index 45f1668..f84df63 100644
--- a/tuple/arrayofnumbers_intersection.go
+++ b/tuple/arrayofnumbers_intersection.go
@@ -120,7 +120,7 @@ func (i *ArrayOfNumbersSketchIntersection[V]) Update(sketch ArrayOfNumbersSketch
 
 			i.hashtable.Insert(idx, entry[*ArrayOfNumbersSummary[V]]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 			})
 		}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index 8d5cc36..dd0e5db 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -115,7 +115,7 @@ func (u *ArrayOfNumbersSketchUnion[V]) Update(sketch ArrayOfNumbersSketch[V]) er
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[*ArrayOfNumbersSummary[V]]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(*ArrayOfNumbersSummary[V]),
 					})
 					continue
 				}
@@ -153,13 +153,19 @@ func (u *ArrayOfNumbersSketchUnion[V]) Result(ordered bool) (*ArrayOfNumbersComp
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[*ArrayOfNumbersSummary[V]]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(*ArrayOfNumbersSummary[V]),
+				})
 			}
 		}
 	}
diff --git a/tuple/intersection.go b/tuple/intersection.go
index d11360b..41d567d 100644
--- a/tuple/intersection.go
+++ b/tuple/intersection.go
@@ -157,7 +157,7 @@ func (i *Intersection[S]) Update(sketch Sketch[S]) error {
 
 			i.hashtable.Insert(idx, entry[S]{
 				Hash:    hash,
-				Summary: summary,
+				Summary: summary.Clone().(S),
 			})
 		}
 
diff --git a/tuple/union.go b/tuple/union.go
index b2468d4..778a4d3 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -203,7 +203,7 @@ func (u *Union[S]) Update(sketch Sketch[S]) error {
 				if err == ErrKeyNotFound {
 					u.hashtable.Insert(index, entry[S]{
 						Hash:    hash,
-						Summary: summary,
+						Summary: summary.Clone().(S),
 					})
 					continue
 				}
@@ -245,13 +245,19 @@ func (u *Union[S]) Result(ordered bool) (*CompactSketch[S], error) {
 	if u.theta >= u.hashtable.theta {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	} else {
 		for _, e := range u.hashtable.entries {
 			if e.Hash != 0 && e.Hash < thetaVal {
-				entries = append(entries, e)
+				entries = append(entries, entry[S]{
+					Hash:    e.Hash,
+					Summary: e.Summary.Clone().(S),
+				})
 			}
 		}
 	}
-- 
2.43.0


From 5e444ab5b20d4a3c65a13d858f3dc18e65200232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 02/53] fix: KLL partition boundaries no longer alter the
 cached sorted view

---
 kll/items_sketch_sorted_view.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kll/items_sketch_sorted_view.go b/kll/items_sketch_sorted_view.go
index 95fee90..faf4ec3 100644
--- a/kll/items_sketch_sorted_view.go
+++ b/kll/items_sketch_sorted_view.go
@@ -19,6 +19,7 @@ package kll
 
 import (
 	"errors"
+	"slices"
 	"sort"
 
 	"github.com/apache/datasketches-go/common"
@@ -181,6 +182,12 @@ func (s *ItemsSketchSortedView[C]) GetPartitionBoundaries(numEquallySized int, i
 	if s.totalN == 0 {
 		return nil, errors.New("empty sketch")
 	}
+	// work on a copy: the view may be cached by the sketch and used by later queries
+	view := *s
+	view.cumWeights = slices.Clone(s.cumWeights)
+	view.quantiles = slices.Clone(s.quantiles)
+	s = &view
+
 	s.cumWeights[0] = 1
 	s.cumWeights[len(s.cumWeights)-1] = int64(s.totalN)
 	s.quantiles[0] = s.minItem
-- 
2.43.0


From 9c80a044972a9f5476d8892db821f5bf96a50b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 03/53] fix: decoded HLL sketches own their register array

---
 hll/hll_array.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/hll_array.go b/hll/hll_array.go
index 521eb16..8666a28 100644
--- a/hll/hll_array.go
+++ b/hll/hll_array.go
@@ -317,5 +317,5 @@ func (a *hllArrayImpl) extractCommonHll(byteArr []byte) {
 	a.putNumAtCurMin(extractNumAtCurMin(byteArr))
 	a.putRebuildCurMinNumKxQFlag(extractRebuildCurMinNumKxQFlag(byteArr))
 
-	a.hllByteArr = byteArr[hllByteArrStart : hllByteArrStart+len(a.hllByteArr)]
+	copy(a.hllByteArr, byteArr[hllByteArrStart:hllByteArrStart+len(a.hllByteArr)])
 }
-- 
2.43.0


From ae1a2cbca3e06018f2b51820f1b06f04e2bf3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 04/53] fix: CPC union and bit matrix hand out copies of their
 bit matrix

---
 cpc/bit_matrix.go | 5 +++--
 cpc/cpc_union.go  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpc/bit_matrix.go b/cpc/bit_matrix.go
index c6b1710..d901b51 100644
--- a/cpc/bit_matrix.go
+++ b/cpc/bit_matrix.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"encoding/binary"
 	"math/bits"
+	"slices"
 
 	"github.com/twmb/murmur3"
 )
@@ -66,9 +67,9 @@ func (bm *BitMatrix) GetNumCoupons() uint64 {
 	return bm.numCoupons
 }
 
-// GetMatrix returns the underlying array of 64-bit words storing the bits.
+// GetMatrix returns a copy of the array of 64-bit words storing the bits.
 func (bm *BitMatrix) GetMatrix() []uint64 {
-	return bm.bitMatrix
+	return slices.Clone(bm.bitMatrix)
 }
 
 // Update hashes the given 64-bit datum and sets the corresponding bit
diff --git a/cpc/cpc_union.go b/cpc/cpc_union.go
index c7caa04..326fa0b 100644
--- a/cpc/cpc_union.go
+++ b/cpc/cpc_union.go
@@ -20,6 +20,7 @@ package cpc
 import (
 	"fmt"
 	"math/bits"
+	"slices"
 
 	"github.com/apache/datasketches-go/internal"
 )
@@ -351,7 +352,7 @@ func (u *CpcUnion) GetBitMatrix() ([]uint64, error) {
 	}
 
 	if u.bitMatrix != nil {
-		return u.bitMatrix, nil
+		return slices.Clone(u.bitMatrix), nil
 	}
 
 	if u.accumulator == nil {
-- 
2.43.0


From f3ac6496f5aaf4ebcdfe78189a858bd51631e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 05/53] fix: tuple compact sketches built from theta sketches
 own their summaries

---
 tuple/compact_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tuple/compact_sketch.go b/tuple/compact_sketch.go
index b7af325..f3658fd 100644
--- a/tuple/compact_sketch.go
+++ b/tuple/compact_sketch.go
@@ -105,7 +105,7 @@ func NewCompactSketchFromThetaSketch[S Summary](
 	for hash := range sketch.All() {
 		entries = append(entries, entry[S]{
 			Hash:    hash,
-			Summary: summary,
+			Summary: summary.Clone().(S),
 		})
 	}
 
-- 
2.43.0


From 9a9cce2a26b0e28f938763d5831d4ff0f2cbe1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 06/53] fix: theta and tuple builders reject a NaN sampling
 probability

---
 theta/union.go                        | 2 +-
 theta/update_sketch.go                | 2 +-
 tuple/arrayofnumbers_union.go         | 2 +-
 tuple/arrayofnumbers_update_sketch.go | 2 +-
 tuple/union.go                        | 2 +-
 tuple/update_sketch.go                | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/theta/union.go b/theta/union.go
index b501639..7e616d7 100644
--- a/theta/union.go
+++ b/theta/union.go
@@ -93,7 +93,7 @@ func NewUnion(opts ...UnionOptionFunc) (*Union, error) {
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/theta/update_sketch.go b/theta/update_sketch.go
index 03a4028..d31f0c3 100644
--- a/theta/update_sketch.go
+++ b/theta/update_sketch.go
@@ -100,7 +100,7 @@ func NewQuickSelectUpdateSketch(opts ...UpdateSketchOptionFunc) (*QuickSelectUpd
 	if options.lgK > MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_union.go b/tuple/arrayofnumbers_union.go
index dd0e5db..9c314e9 100644
--- a/tuple/arrayofnumbers_union.go
+++ b/tuple/arrayofnumbers_union.go
@@ -57,7 +57,7 @@ func NewArrayOfNumbersSketchUnion[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/arrayofnumbers_update_sketch.go b/tuple/arrayofnumbers_update_sketch.go
index edb7df0..da1350a 100644
--- a/tuple/arrayofnumbers_update_sketch.go
+++ b/tuple/arrayofnumbers_update_sketch.go
@@ -56,7 +56,7 @@ func NewArrayOfNumbersUpdateSketch[V Number](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/union.go b/tuple/union.go
index 778a4d3..f3f016b 100644
--- a/tuple/union.go
+++ b/tuple/union.go
@@ -51,7 +51,7 @@ func (o *unionOptions) Validate() error {
 	if o.lgK > theta.MaxLgK {
 		return fmt.Errorf("lgK must not be greater than %d: %d", theta.MaxLgK, o.lgK)
 	}
-	if o.p <= 0 || o.p > 1 {
+	if !(o.p > 0 && o.p <= 1) { // also rejects NaN
 		return errors.New("sampling probability must be between 0 and 1")
 	}
 
diff --git a/tuple/update_sketch.go b/tuple/update_sketch.go
index 5a70201..5b9263b 100644
--- a/tuple/update_sketch.go
+++ b/tuple/update_sketch.go
@@ -111,7 +111,7 @@ func NewUpdateSketch[S UpdatableSummary[V], V any](
 	if options.lgK > theta.MaxLgK {
 		return nil, fmt.Errorf("lg_k must not be greater than %d: %d", theta.MaxLgK, options.lgK)
 	}
-	if options.p <= 0 || options.p > 1 {
+	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
 
-- 
2.43.0


From 50c11c66d64d95ee25f8c29c9ddc95c0163fa170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 07/53] fix: count-min rejects parameters that are NaN,
 non-positive or overflow its size check

---
 count/count_min_sketch.go |  6 +++++-
 count/utils.go            | 12 ++++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 30dd99d..410ad39 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -47,7 +47,11 @@ func NewCountMinSketch(numHashes int8, numBuckets int32, seed int64) (*CountMinS
 		return nil, errors.New("using fewer than 3 buckets incurs relative error greater than 1.0")
 	}
 
-	if numBuckets*int32(numHashes) >= 1<<30 {
+	if numHashes < 1 {
+		return nil, errors.New("at least one hash function is required")
+	}
+
+	if int64(numBuckets)*int64(numHashes) >= 1<<30 {
 		return nil, errors.New("these parameters generate a sketch that exceeds 2^30 elements")
 	}
 
diff --git a/count/utils.go b/count/utils.go
index da7c25c..d0c51bb 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -23,17 +23,21 @@ import (
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
-	if relativeError <= 0 {
+	if !(relativeError > 0) { // also rejects NaN
 		return 0, errors.New("relative error must be greater than 0.0")
 	}
-	return int32(math.Ceil(math.Exp(1.0) / relativeError)), nil
+	numBuckets := math.Ceil(math.Exp(1.0) / relativeError)
+	if numBuckets > math.MaxInt32 {
+		return 0, errors.New("relative error is too small")
+	}
+	return int32(numBuckets), nil
 }
 
 func SuggestNumHashes(confidence float64) (int8, error) {
-	if confidence < 0 || confidence > 1.0 {
+	if !(confidence >= 0 && confidence <= 1.0) { // also rejects NaN
 		return 0, errors.New("confidence must be between 0 and 1.0 (inclusive)")
 	}
-	return min(int8(math.Ceil(math.Log(1.0/(1.0-confidence)))), int8(math.MaxInt8)), nil
+	return int8(math.Min(math.Ceil(math.Log(1.0/(1.0-confidence))), math.MaxInt8)), nil
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
-- 
2.43.0


From 33146d742587d3156198f96ebf20ead36df021ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 08/53] fix: Bloom filter builder rejects a NaN false positive
 probability

---
 filters/bloom_filter_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index 9eb0374..f352b9f 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -105,7 +105,7 @@ func NewBloomFilterByAccuracy(maxDistinctItems uint64, targetFpp float64, opts .
 	if maxDistinctItems == 0 {
 		return nil, fmt.Errorf("maxDistinctItems must be positive")
 	}
-	if targetFpp <= 0.0 || targetFpp >= 1.0 {
+	if !(targetFpp > 0.0 && targetFpp < 1.0) { // also rejects NaN
 		return nil, fmt.Errorf("targetFpp must be between 0 and 1")
 	}
 
-- 
2.43.0


From 8e721799ca7b9ee2f43288678d2ab70eccf854dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 09/53] fix: reservoir, VarOpt, KLL and HLL constructors reject
 out-of-range parameters

---
 hll/hll_sketch.go                 | 3 +++
 kll/items_sketch.go               | 3 +++
 sampling/reservoir_items_union.go | 4 ++++
 sampling/varopt_items_union.go    | 4 ++++
 4 files changed, 14 insertions(+)

diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index 278272a..a53d35d 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -163,6 +163,9 @@ func NewHllSketch(lgConfigK int, tgtHllType TgtHllType) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if tgtHllType < TgtHllTypeHll4 || tgtHllType > TgtHllTypeHll8 {
+		return nil, fmt.Errorf("unknown target HLL type: %d", tgtHllType)
+	}
 	couponList, err := newCouponList(lgK, tgtHllType, curModeList)
 	if err != nil {
 		return nil, err
diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index af96371..2ba9205 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -86,6 +86,9 @@ func NewKllItemsSketch[C comparable](k uint16, m uint8, compareFn common.Compare
 	if k < _MIN_K || k > _MAX_K {
 		return nil, fmt.Errorf("k must be >= %d and <= %d: %d", _MIN_K, _MAX_K, k)
 	}
+	if err := checkM(m); err != nil {
+		return nil, err
+	}
 	if compareFn == nil {
 		return nil, fmt.Errorf("no compare function provided")
 	}
diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index eb85ade..24a8521 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -50,6 +50,10 @@ type ReservoirItemsUnion[T any] struct {
 
 // NewReservoirItemsUnion creates a new union with the specified maximum k.
 func NewReservoirItemsUnion[T any](maxK int) (*ReservoirItemsUnion[T], error) {
+	if maxK < minK {
+		return nil, errors.New("maxK must be at least 2")
+	}
+
 	return &ReservoirItemsUnion[T]{
 		maxK:   maxK,
 		gadget: nil, // Start with nil gadget, will be initialized on first update
diff --git a/sampling/varopt_items_union.go b/sampling/varopt_items_union.go
index ab362f1..c23a98d 100644
--- a/sampling/varopt_items_union.go
+++ b/sampling/varopt_items_union.go
@@ -37,6 +37,10 @@ type VarOptItemsUnion[T any] struct {
 
 // NewVarOptItemsUnion creates a new union with the specified maximum k.
 func NewVarOptItemsUnion[T any](maxK uint) (*VarOptItemsUnion[T], error) {
+	if maxK < 1 || maxK > varOptMaxK {
+		return nil, errors.New("maxK must be at least 1 and less than 2^31 - 1")
+	}
+
 	gadget, err := newVarOptItemsSketchFromState[T](
 		int(maxK), defaultResizeFactor, true,
 	)
-- 
2.43.0


From de1223bf22e878011bf17f961783cccd3b57d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 10/53] fix: quantile queries reject a NaN rank

---
 internal/quantiles/utils.go | 2 +-
 tdigest/double.go           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/quantiles/utils.go b/internal/quantiles/utils.go
index 0f28254..701cc7b 100644
--- a/internal/quantiles/utils.go
+++ b/internal/quantiles/utils.go
@@ -47,7 +47,7 @@ func ValidateSplitPoints[N Number](values []N) error {
 }
 
 func ValidateNormalizedRankBounds(rank float64) error {
-	if rank < 0 || rank > 1 {
+	if !(rank >= 0 && rank <= 1) { // also rejects NaN
 		return errors.New("rank must be between 0 and 1 inclusive")
 	}
 	return nil
diff --git a/tdigest/double.go b/tdigest/double.go
index 30eaf7a..0519ed4 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -350,7 +350,7 @@ func (d *Double) Quantile(rank float64) (float64, error) {
 	if d.IsEmpty() {
 		return 0, ErrEmpty
 	}
-	if rank < 0.0 || rank > 1.0 {
+	if !(rank >= 0.0 && rank <= 1.0) { // also rejects NaN
 		return 0, ErrInvalidRank
 	}
 
-- 
2.43.0


From 96eebedf918728b4878ff545e54f02632a457679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 11/53] fix: REQ rank bounds reject an invalid rank or number
 of standard deviations

---
 req/sketch.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 8d5c866..d90ed0e 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -24,6 +24,7 @@ import (
 	"strings"
 
 	quantilecommon "github.com/apache/datasketches-go/common/quantiles"
+	"github.com/apache/datasketches-go/internal/quantiles"
 )
 
 const (
@@ -397,6 +398,13 @@ func (s *Sketch) RankLowerBound(
 		opt(options)
 	}
 
+	if err := quantiles.ValidateNormalizedRankBounds(rank); err != nil {
+		return 0, err
+	}
+	if options.numStdDev < 1 || options.numStdDev > 3 {
+		return 0, errors.New("number of standard deviations must be 1, 2 or 3")
+	}
+
 	return computeRankLowerBound(
 		s.k, s.numLevels(), rank, options.numStdDev, s.isHighRankAccuracyMode, s.n,
 	), nil
@@ -440,6 +448,13 @@ func (s *Sketch) RankUpperBound(
 		opt(options)
 	}
 
+	if err := quantiles.ValidateNormalizedRankBounds(rank); err != nil {
+		return 0, err
+	}
+	if options.numStdDev < 1 || options.numStdDev > 3 {
+		return 0, errors.New("number of standard deviations must be 1, 2 or 3")
+	}
+
 	return computeRankUpperBound(
 		s.k, s.numLevels(), rank, options.numStdDev, s.isHighRankAccuracyMode, s.n,
 	), nil
-- 
2.43.0


From 251e31694b9ee2261460810c64edf74411e59b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 12/53] fix: REQ rank bounds stay within [0, 1]

---
 req/sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req/sketch.go b/req/sketch.go
index d90ed0e..7f0f01a 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -759,7 +759,7 @@ func computeRankLowerBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank - (float64(numStdDev) * relative)
 	lbFix := rank - (float64(numStdDev) * fixed)
-	return max(lbRel, lbFix)
+	return max(lbRel, lbFix, 0)
 }
 
 func isExactRank(
@@ -795,7 +795,7 @@ func computeRankUpperBound(
 	fixed := fixRSEFactor / float64(k)
 	lbRel := rank + (float64(numStdDev) * relative)
 	lbFix := rank + (float64(numStdDev) * fixed)
-	return min(lbRel, lbFix)
+	return min(lbRel, lbFix, 1)
 }
 
 // Item represents a quantile value and its associated weight retained by the sketch.
-- 
2.43.0


From fc5325fbea23423d46aa9960ef31106d4394541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 13/53] fix: report failing pair table construction in CPC copy
 and promotion

---
 cpc/cpc_sketch.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index eeaec0c..5c4cf43 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -373,7 +373,10 @@ func (c *CpcSketch) updateHIP(rowCol int) {
 
 func (c *CpcSketch) promoteSparseToWindowed() error {
 	window := make([]byte, 1<<c.lgK)
-	newTable, _ := NewPairTable(2, 6+c.lgK)
+	newTable, err := NewPairTable(2, 6+c.lgK)
+	if err != nil {
+		return err
+	}
 	oldTable := c.pairTable
 
 	oldSlots := oldTable.slotsArr
@@ -602,7 +605,7 @@ func (c *CpcSketch) Copy() (*CpcSketch, error) {
 	if c.pairTable != nil {
 		copySketch.pairTable, err = c.pairTable.copy()
 		if err != nil {
-			copySketch.pairTable = nil
+			return nil, err
 		}
 	} else {
 		copySketch.pairTable = nil
-- 
2.43.0


From 3e6ce37dc38058259c7c6f8bb83d62f4ac0762a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:47 +0000
Subject: [PATCH 14/53] fix: treat fields a CPC image does not store as zero

---
 cpc/utils.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/cpc/utils.go b/cpc/utils.go
index b39ebd3..d146d48 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -326,12 +326,18 @@ func getLgK(bytes []byte) int {
 }
 
 func getKxP(mem []byte) float64 {
-	offset, _ := getHiFieldOffset(getFormat(mem), hiFieldKXP)
+	offset, err := getHiFieldOffset(getFormat(mem), hiFieldKXP)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return math.Float64frombits(binary.LittleEndian.Uint64(mem[offset:]))
 }
 
 func getHipAccum(bytes []byte) float64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldHipAccum)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return math.Float64frombits(binary.LittleEndian.Uint64(bytes[offset : offset+8]))
 }
 
@@ -354,17 +360,26 @@ func getFlags(bytes []byte) int {
 }
 
 func getNumCoupons(bytes []byte) uint64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldNumCoupons)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return uint64(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
 func getNumSV(bytes []byte) uint64 {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldNumSV)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldNumSV)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return uint64(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
 func getSvLengthInts(bytes []byte) int {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldSVLengthInts)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldSVLengthInts)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
@@ -451,7 +466,10 @@ func getSvStreamOffset(mem []byte) (int, error) {
 }
 
 func getWLengthInts(bytes []byte) int {
-	offset, _ := getHiFieldOffset(getFormat(bytes), hiFieldWLengthInts)
+	offset, err := getHiFieldOffset(getFormat(bytes), hiFieldWLengthInts)
+	if err != nil {
+		return 0 // the format does not store this field
+	}
 	return int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
-- 
2.43.0


From e6e8c42e51c71a490c99540d9d85369e3e3de7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:07 +0000
Subject: [PATCH 15/53] fix: reject CPC images whose stream lengths are zero or
 missing

---
 cpc/cpc_compressed_state.go | 48 ++++++++++++++++++++++++++++++-------
 cpc/utils.go                | 18 +++++++++-----
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index b77a646..878850e 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -564,7 +564,11 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CsvStream = getSvStream(bytes)
+		csvStream, err := getSvStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CsvStream = csvStream
 	case CpcFormatSparseHybridHip:
 		state.NumCoupons = getNumCoupons(bytes)
 		state.NumCsv = state.NumCoupons
@@ -574,7 +578,11 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CsvStream = getSvStream(bytes)
+		csvStream, err := getSvStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CsvStream = csvStream
 	case CpcFormatPinnedSlidingMergedNosv:
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
@@ -582,7 +590,11 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CwStream = getWStream(bytes)
+		cwStream, err := getWStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CwStream = cwStream
 	case CpcFormatPinnedSlidingHipNosv:
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
@@ -592,7 +604,11 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CwStream = getWStream(bytes)
+		cwStream, err := getWStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CwStream = cwStream
 	case CpcFormatPinnedSlidingMerged:
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
@@ -602,8 +618,16 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CwStream = getWStream(bytes)
-		state.CsvStream = getSvStream(bytes)
+		cwStream, err := getWStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CwStream = cwStream
+		csvStream, err := getSvStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CsvStream = csvStream
 	case CpcFormatPinnedSlidingHip:
 		state.FiCol = getFiCol(bytes)
 		state.NumCoupons = getNumCoupons(bytes)
@@ -615,8 +639,16 @@ func importFromMemory(bytes []byte) (*CpcCompressedState, error) {
 		if err := checkCapacity(len(bytes), state.getRequiredSerializedBytes()); err != nil {
 			return nil, err
 		}
-		state.CwStream = getWStream(bytes)
-		state.CsvStream = getSvStream(bytes)
+		cwStream, err := getWStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CwStream = cwStream
+		csvStream, err := getSvStream(bytes)
+		if err != nil {
+			return nil, err
+		}
+		state.CsvStream = csvStream
 	default:
 		return nil, fmt.Errorf("unknown format: %d", format)
 	}
diff --git a/cpc/utils.go b/cpc/utils.go
index d146d48..3050e76 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -383,15 +383,18 @@ func getSvLengthInts(bytes []byte) int {
 	return int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 }
 
-func getWStream(bytes []byte) []int {
-	offset, _ := getWStreamOffset(bytes)
+func getWStream(bytes []byte) ([]int, error) {
+	offset, err := getWStreamOffset(bytes)
+	if err != nil {
+		return nil, err
+	}
 	wLength := getWLengthInts(bytes)
 	wStream := make([]int, wLength)
 	for i := 0; i < wLength; i++ {
 		wStream[i] = int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 		offset += 4
 	}
-	return wStream
+	return wStream, nil
 }
 
 func getWStreamOffset(mem []byte) (int, error) {
@@ -417,15 +420,18 @@ func getWStreamOffset(mem []byte) (int, error) {
 	return preInts << 2, nil
 }
 
-func getSvStream(bytes []byte) []int {
-	offset, _ := getSvStreamOffset(bytes)
+func getSvStream(bytes []byte) ([]int, error) {
+	offset, err := getSvStreamOffset(bytes)
+	if err != nil {
+		return nil, err
+	}
 	svLengthInts := getSvLengthInts(bytes)
 	svStream := make([]int, svLengthInts)
 	for i := 0; i < svLengthInts; i++ {
 		svStream[i] = int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
 		offset += 4
 	}
-	return svStream
+	return svStream, nil
 }
 
 func getSvStreamOffset(mem []byte) (int, error) {
-- 
2.43.0


From 9f9552f40698916ef80526149f047f718d33b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 16/53] fix: report preamble, token and deletion failures in
 frequency sketches

---
 frequencies/items_sketch.go                |  3 +++
 frequencies/longs_sketch.go                |  6 ++++-
 frequencies/reverse_purge_long_hash_map.go | 30 ++++++++++++++++------
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index ee2c9c0..328b168 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -115,6 +115,9 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	}
 
 	pre0, err := checkPreambleSize(slc) //make sure preamble will fit
+	if err != nil {
+		return nil, err
+	}
 	maxPreLongs := internal.FamilyEnum.Frequency.MaxPreLongs
 
 	preLongs := extractPreLongs(pre0)                     //Byte 0
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index 7c0c924..f77136f 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -433,7 +433,11 @@ func (s *LongsSketch) UpdateMany(item int64, count int64) error {
 			s.curMapCap = s.hashMap.getCapacity()
 		} else {
 			// At tgt size, must purge
-			s.offset += s.hashMap.purge(s.sampleSize)
+			purged, err := s.hashMap.purge(s.sampleSize)
+			if err != nil {
+				return err
+			}
+			s.offset += purged
 			if s.GetNumActiveItems() > s.GetMaximumMapCapacity() {
 				return errors.New("purge did not reduce active items")
 			}
diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index dbf18f8..5ef5724 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -148,7 +148,7 @@ func (r *reversePurgeLongHashMap) resize(newSize int) error {
 	return err
 }
 
-func (r *reversePurgeLongHashMap) purge(sampleSize int) int64 {
+func (r *reversePurgeLongHashMap) purge(sampleSize int) (int64, error) {
 	limit := min(sampleSize, r.numActive)
 	numSamples := 0
 	i := 0
@@ -163,8 +163,10 @@ func (r *reversePurgeLongHashMap) purge(sampleSize int) int64 {
 
 	val := internal.QuickSelect(samples, 0, numSamples-1, limit/2)
 	r.adjustAllValuesBy(-1 * val)
-	r.keepOnlyPositiveCounts()
-	return val
+	if err := r.keepOnlyPositiveCounts(); err != nil {
+		return 0, err
+	}
+	return val, nil
 }
 
 func (r *reversePurgeLongHashMap) serializeToString() string {
@@ -187,7 +189,7 @@ func (r *reversePurgeLongHashMap) adjustAllValuesBy(adjustAmount int64) {
 	}
 }
 
-func (r *reversePurgeLongHashMap) keepOnlyPositiveCounts() {
+func (r *reversePurgeLongHashMap) keepOnlyPositiveCounts() error {
 	// Starting from the back, find the first empty cell, which marks a boundary between clusters.
 	firstProbe := len(r.keys) - 1
 	for r.states[firstProbe] > 0 {
@@ -199,7 +201,10 @@ func (r *reversePurgeLongHashMap) keepOnlyPositiveCounts() {
 		// When we find the next non-empty cell, we know we are at the high end of a cluster,
 		//  which is tracked by firstProbe.
 		if r.states[probe] > 0 && r.values[probe] <= 0 {
-			r.hashDelete(probe) //does the work of deletion and moving higher items towards the front.
+			//does the work of deletion and moving higher items towards the front.
+			if err := r.hashDelete(probe); err != nil {
+				return err
+			}
 			r.numActive--
 		}
 	}
@@ -207,10 +212,13 @@ func (r *reversePurgeLongHashMap) keepOnlyPositiveCounts() {
 	for probe := len(r.keys); probe-1 > firstProbe; {
 		probe--
 		if r.states[probe] > 0 && r.values[probe] <= 0 {
-			r.hashDelete(probe)
+			if err := r.hashDelete(probe); err != nil {
+				return err
+			}
 			r.numActive--
 		}
 	}
+	return nil
 }
 
 func (r *reversePurgeLongHashMap) hashDelete(deleteProbe int) error {
@@ -280,8 +288,14 @@ func deserializeReversePurgeLongHashMapFromString(string string) (*reversePurgeL
 
 func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, error) {
 	ignore := strPreambleTokens
-	numActive, _ := strconv.ParseUint(tokens[ignore], 10, 32)
-	length, _ := strconv.ParseUint(tokens[ignore+1], 10, 32)
+	numActive, err := strconv.ParseUint(tokens[ignore], 10, 32)
+	if err != nil {
+		return nil, err
+	}
+	length, err := strconv.ParseUint(tokens[ignore+1], 10, 32)
+	if err != nil {
+		return nil, err
+	}
 	hashMap, err := newReversePurgeLongHashMap(int(length))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 43424144125a11d7dd2805c75e27d3eb37ef6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 17/53] fix: decode negative items from longs sketch strings

---
 frequencies/reverse_purge_long_hash_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/frequencies/reverse_purge_long_hash_map.go b/frequencies/reverse_purge_long_hash_map.go
index 5ef5724..cfde71e 100644
--- a/frequencies/reverse_purge_long_hash_map.go
+++ b/frequencies/reverse_purge_long_hash_map.go
@@ -302,15 +302,15 @@ func deserializeFromStringArray(tokens []string) (*reversePurgeLongHashMap, erro
 	}
 	j := 2 + ignore
 	for i := 0; i < int(numActive); i++ {
-		key, err := strconv.ParseUint(tokens[j], 10, 64)
+		key, err := strconv.ParseInt(tokens[j], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		value, err := strconv.ParseUint(tokens[j+1], 10, 64)
+		value, err := strconv.ParseInt(tokens[j+1], 10, 64)
 		if err != nil {
 			return nil, err
 		}
-		err = hashMap.adjustOrPutValue(int64(key), int64(value))
+		err = hashMap.adjustOrPutValue(key, value)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 639430d8af8139616be3c2c3c355a8b74b705840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 18/53] fix: report unknown HLL types when promoting coupons

---
 hll/coupon_hash_set.go | 5 ++++-
 hll/coupon_list.go     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/hll/coupon_hash_set.go b/hll/coupon_hash_set.go
index 6608ded..a90fbd0 100644
--- a/hll/coupon_hash_set.go
+++ b/hll/coupon_hash_set.go
@@ -145,7 +145,10 @@ func growHashSet(couponIntArr []int, tgtLgCoupArrSize int) ([]int, error) {
 
 // promoteSetToHll move coupons to an hllArray from couponHashSetImpl
 func promoteSetToHll(src *couponHashSetImpl) (hllArray, error) {
-	tgtHllArr, _ := newHllArray(src.lgConfigK, src.tgtHllType)
+	tgtHllArr, err := newHllArray(src.lgConfigK, src.tgtHllType)
+	if err != nil {
+		return nil, err
+	}
 	srcIter := src.iterator()
 	tgtHllArr.putKxQ0(float64(uint64(1) << src.lgConfigK))
 
diff --git a/hll/coupon_list.go b/hll/coupon_list.go
index 95bea9f..8fc12d4 100644
--- a/hll/coupon_list.go
+++ b/hll/coupon_list.go
@@ -118,7 +118,10 @@ func (c *couponListImpl) mergeTo(dest HllSketch) error {
 
 // promoteListToHll move coupons to an hllArray from couponListImpl
 func promoteListToHll(src *couponListImpl) (hllArray, error) {
-	tgtHllArr, _ := newHllArray(src.lgConfigK, src.tgtHllType)
+	tgtHllArr, err := newHllArray(src.lgConfigK, src.tgtHllType)
+	if err != nil {
+		return nil, err
+	}
 	srcIter := src.iterator()
 	tgtHllArr.putKxQ0(float64(uint64(1) << src.lgConfigK))
 
-- 
2.43.0


From c26305d06ddfd2ac822f3fef77e527c50e87c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:59 +0000
Subject: [PATCH 19/53] fix: report failing inserts while merging sampling
 sketches

---
 sampling/reservoir_items_union.go | 10 ++++++++--
 sampling/varopt_items_sketch.go   |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 24a8521..cfe0885 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -71,7 +71,11 @@ func (u *ReservoirItemsUnion[T]) Update(item T) error {
 	}
 
 	if u.gadget == nil {
-		u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
+		gadget, err := NewReservoirItemsSketch[T](u.maxK)
+		if err != nil {
+			return err
+		}
+		u.gadget = gadget
 	}
 
 	if err := u.gadget.Update(item); err != nil {
@@ -243,7 +247,9 @@ func (u *ReservoirItemsUnion[T]) twoWayMergeInternalWeighted(source *ReservoirIt
 				return err
 			}
 
-			u.gadget.insertValueAtPosition(v, slotNo)
+			if err := u.gadget.insertValueAtPosition(v, slotNo); err != nil {
+				return err
+			}
 		}
 	}
 
diff --git a/sampling/varopt_items_sketch.go b/sampling/varopt_items_sketch.go
index c6a2860..12cc924 100644
--- a/sampling/varopt_items_sketch.go
+++ b/sampling/varopt_items_sketch.go
@@ -902,7 +902,9 @@ func (s *VarOptItemsSketch[T]) decreaseKBy1() error {
 		s.k--
 		s.n-- // will be re-incremented with the update
 
-		s.update(pulledItem, pulledWeight, pulledMark)
+		if err := s.update(pulledItem, pulledWeight, pulledMark); err != nil {
+			return err
+		}
 	case s.h == 0 && s.r > 0:
 		// pure reservoir mode, so can simply eject a randomly chosen sample from the reservoir
 		if s.r < 2 {
-- 
2.43.0


From f908f8d2deda13d634f4fa334b0da2eb97fe10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:15 +0000
Subject: [PATCH 20/53] fix: reject theta seeds without a usable seed hash

---
 theta/update_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theta/update_sketch.go b/theta/update_sketch.go
index d31f0c3..041126b 100644
--- a/theta/update_sketch.go
+++ b/theta/update_sketch.go
@@ -103,6 +103,9 @@ func NewQuickSelectUpdateSketch(opts ...UpdateSketchOptionFunc) (*QuickSelectUpd
 	if !(options.p > 0 && options.p <= 1) { // also rejects NaN
 		return nil, errors.New("sampling probability must be between 0 and 1")
 	}
+	if _, err := internal.ComputeSeedHash(int64(options.seed)); err != nil {
+		return nil, err
+	}
 
 	options.lgCurSize = startingSubMultiple(options.lgK+1, MinLgK, uint8(options.rf))
 	options.theta = startingThetaFromP(options.p)
-- 
2.43.0


From 8f3fb737869ad74be536891091893cb60a5e80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 21/53] fix: validate the maximum of a decoded t-digest

---
 tdigest/double_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index 4ab952a..a23dfe5 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -140,7 +140,7 @@ func (d *DoubleDecoder) Decode(r io.Reader) (*Double, error) {
 		return nil, err
 	}
 	maxVal := math.Float64frombits(maxValBytes)
-	if err := validateNaN(minVal, "max"); err != nil {
+	if err := validateNaN(maxVal, "max"); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 2d88e1426547ec163a55bbc20f99a1edcad30526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 22/53] fix: CPC images of a different seed are rejected

---
 cpc/cpc_sketch.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cpc/cpc_sketch.go b/cpc/cpc_sketch.go
index 5c4cf43..6d37134 100644
--- a/cpc/cpc_sketch.go
+++ b/cpc/cpc_sketch.go
@@ -97,6 +97,14 @@ func NewCpcSketchFromSlice(bytes []byte, seed uint64) (*CpcSketch, error) {
 		return nil, err
 	}
 
+	seedHash, err := internal.ComputeSeedHash(int64(seed))
+	if err != nil {
+		return nil, err
+	}
+	if seedHash != c.SeedHash {
+		return nil, fmt.Errorf("seed hash mismatch: computed %d != source %d", seedHash, c.SeedHash)
+	}
+
 	sketch, err := NewCpcSketch(c.LgK, seed)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 356eecf6b58c3918bbc49516e8cabdc3ad0221e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 23/53] fix: count-min images of a different seed are rejected

---
 count/count_min_sketch.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index 410ad39..e3eb744 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -21,6 +21,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"math/rand"
@@ -330,6 +331,14 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 		return nil, err
 	}
 
+	expectedSeedHash, err := internal.ComputeSeedHash(seed)
+	if err != nil {
+		return nil, err
+	}
+	if seedHash != expectedSeedHash {
+		return nil, fmt.Errorf("seed hash mismatch: expected %d, got %d", expectedSeedHash, seedHash)
+	}
+
 	var unused8 int8
 	err = binary.Read(r, binary.LittleEndian, &unused8)
 	if err != nil {
-- 
2.43.0


From 032cc8a632437c73ecb635d8c519aa44f4923d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 24/53] fix: array-of-numbers images without entries have their
 seed checked

---
 tuple/arrayofnumbers_sketch_decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tuple/arrayofnumbers_sketch_decoder.go b/tuple/arrayofnumbers_sketch_decoder.go
index 56fb292..e3e8ca2 100644
--- a/tuple/arrayofnumbers_sketch_decoder.go
+++ b/tuple/arrayofnumbers_sketch_decoder.go
@@ -101,8 +101,9 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 		return nil, err
 	}
 
+	isEmpty := (flags & (1 << arrayOfNumbersSketchFlagIsEmpty)) != 0
 	hasEntries := (flags & (1 << arrayOfNumbersSketchFlagHasEntries)) != 0
-	if hasEntries {
+	if hasEntries || !isEmpty {
 		expectedSeedHash, err := internal.ComputeSeedHash(int64(dec.seed))
 		if err != nil {
 			return nil, err
@@ -153,7 +154,6 @@ func (dec *ArrayOfNumbersSketchDecoder[V]) Decode(r io.Reader) (*ArrayOfNumbersC
 		}
 	}
 
-	isEmpty := (flags & (1 << arrayOfNumbersSketchFlagIsEmpty)) != 0
 	isOrdered := (flags & (1 << arrayOfNumbersSketchFlagIsOrdered)) != 0
 
 	return newArrayOfNumbersCompactSketch[V](
-- 
2.43.0


From 3dcc377f4beab130dedeea95b93632a985e5b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 25/53] fix: KLL level capacities are computed without wrapping
 for k of 32768 and more

---
 kll/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 2ba9205..fb73bd5 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -1024,7 +1024,7 @@ func intCapAux(k uint16, depth uint8) uint32 {
 }
 
 func intCapAuxAux(k uint16, depth uint8) uint32 {
-	twok := uint64(k << 1)                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
+	twok := uint64(k) << 1                        // for rounding at the end, pre-multiply by 2 here, divide by 2 during rounding.
 	tmp := (twok << depth) / powersOfThree[depth] //2k* (2/3)^depth. 2k also keeps the fraction larger.
 	result := (tmp + 1) >> 1                      // (tmp + 1)/2. If odd, round up. This guarantees an integer.
 	if result <= uint64(k) {
-- 
2.43.0


From 12ca9b2bf45b429f694085059f6decb07c10c865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 26/53] fix: count-min decoder rejects images of other families
 and versions

---
 count/utils.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/count/utils.go b/count/utils.go
index d0c51bb..9843922 100644
--- a/count/utils.go
+++ b/count/utils.go
@@ -19,7 +19,10 @@ package count
 
 import (
 	"errors"
+	"fmt"
 	"math"
+
+	"github.com/apache/datasketches-go/internal"
 )
 
 func SuggestNumBuckets(relativeError float64) (int32, error) {
@@ -41,6 +44,15 @@ func SuggestNumHashes(confidence float64) (int8, error) {
 }
 
 func checkHeaderValidity(preamble, serVer, familyID, flagsByte byte) error {
+	if preamble != PreambleLongsShort {
+		return fmt.Errorf("possible corruption: preamble longs must be %d: %d", PreambleLongsShort, preamble)
+	}
+	if serVer != SerialVersion1 {
+		return fmt.Errorf("possible corruption: serial version must be %d: %d", SerialVersion1, serVer)
+	}
+	if int(familyID) != internal.FamilyEnum.CountMinSketch.Id {
+		return fmt.Errorf("possible corruption: family ID must be %d: %d", internal.FamilyEnum.CountMinSketch.Id, familyID)
+	}
 	return nil
 }
 
-- 
2.43.0


From 1323422469bb911a7ef344c125cddb71ee0a1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:27 +0000
Subject: [PATCH 27/53] fix: KLL decoder returns an error for an unknown
 preamble and version combination

---
 kll/items_sketch_validate.go |  7 +++++--
 kll/sketch_structure.go      | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index e78ff77..a8a5743 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -63,7 +63,10 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 	}
 	preInts := getPreInts(srcMem)
 	serVer := getSerVer(srcMem)
-	sketchStructure := getSketchStructure(preInts, serVer)
+	sketchStructure, err := getSketchStructure(preInts, serVer)
+	if err != nil {
+		return nil, err
+	}
 	familyID := getFamilyID(srcMem)
 	if familyID != internal.FamilyEnum.Kll.Id {
 		return nil, fmt.Errorf("Source not KLL: %d", familyID)
@@ -71,7 +74,7 @@ func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.Item
 	flags := getFlags(srcMem)
 	k := getK(srcMem)
 	m := getM(srcMem)
-	err := checkM(m)
+	err = checkM(m)
 	if err != nil {
 		return nil, err
 	}
diff --git a/kll/sketch_structure.go b/kll/sketch_structure.go
index 78a39c0..a2cf5d1 100644
--- a/kll/sketch_structure.go
+++ b/kll/sketch_structure.go
@@ -17,6 +17,8 @@
 
 package kll
 
+import "fmt"
+
 type sketchStructure struct {
 	preInts int
 	serVer  int
@@ -33,19 +35,19 @@ func (s sketchStructure) getPreInts() int { return s.preInts }
 
 func (s sketchStructure) getSerVer() int { return s.serVer }
 
-func getSketchStructure(preInts, serVer int) sketchStructure {
+func getSketchStructure(preInts, serVer int) (sketchStructure, error) {
 	if preInts == _PREAMBLE_INTS_EMPTY_SINGLE {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_EMPTY
+			return _COMPACT_EMPTY, nil
 		} else if serVer == _SERIAL_VERSION_SINGLE {
-			return _COMPACT_SINGLE
+			return _COMPACT_SINGLE, nil
 		}
 	} else if preInts == _PREAMBLE_INTS_FULL {
 		if serVer == _SERIAL_VERSION_EMPTY_FULL {
-			return _COMPACT_FULL
+			return _COMPACT_FULL, nil
 		} else if serVer == _SERIAL_VERSION_UPDATABLE {
-			return _UPDATABLE
+			return _UPDATABLE, nil
 		}
 	}
-	panic("Invalid preamble ints and serial version combo")
+	return sketchStructure{}, fmt.Errorf("invalid preamble ints and serial version combo: %d, %d", preInts, serVer)
 }
-- 
2.43.0


From 6c023b217fb8c1cb5ca96259495ef6170c58bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 28/53] fix: reservoir decoder returns an error for a non-empty
 image without item count

---
 sampling/reservoir_items_sketch.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index e9b3711..87ce260 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -437,6 +437,9 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	isEmpty := (flags & flagEmpty) != 0
 	n := 0
 	if !isEmpty {
+		if len(data) < 16 {
+			return nil, errors.New("data too short for non-empty sketch")
+		}
 		n = int(binary.LittleEndian.Uint64(data[8:]))
 	}
 
-- 
2.43.0


From 27b386a541b8a6912eccd6995abe6ccf4437ce63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:17 +0000
Subject: [PATCH 29/53] fix: KLL image offsets are computed without wrapping
 for 59 levels and more

---
 kll/items_sketch.go          | 8 ++++----
 kll/items_sketch_validate.go | 5 +++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index fb73bd5..016569b 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -158,7 +158,7 @@ func NewKllItemsSketchFromSlice[C comparable](sl []byte, compareFn common.Compar
 		items = make([]C, k)
 		items[k-1] = deserItems[0]
 	case _COMPACT_FULL:
-		offset := int(_DATA_START_ADR + memVal.numLevels*4)
+		offset := _DATA_START_ADR + int(memVal.numLevels)*4
 		deserMinItems, err := serde.DeserializeManyFromSlice(sl, offset, 1)
 		if err != nil {
 			return nil, err
@@ -565,10 +565,10 @@ func (s *ItemsSketch[C]) ToSlice() ([]byte, error) {
 	binary.LittleEndian.PutUint16(bytesOut[16:18], minK)
 	bytesOut[18] = numLevels
 	for i := uint8(0); i < numLevels; i++ {
-		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+i*4:], lvlsArr[i])
+		binary.LittleEndian.PutUint32(bytesOut[_DATA_START_ADR+int(i)*4:], lvlsArr[i])
 	}
-	copy(bytesOut[_DATA_START_ADR+(numLevels*4):], minMaxByteArr)
-	copy(bytesOut[_DATA_START_ADR+int(numLevels*4)+len(minMaxByteArr):], itemsByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4:], minMaxByteArr)
+	copy(bytesOut[_DATA_START_ADR+int(numLevels)*4+len(minMaxByteArr):], itemsByteArr)
 	return bytesOut, nil
 }
 
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index a8a5743..f39c444 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -114,9 +114,10 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
 		// Get Levels Arr and add the last element
-		vlid.levelsArr = make([]uint32, vlid.numLevels+1)
+		vlid.levelsArr = make([]uint32, int(vlid.numLevels)+1)
 		for i := uint8(0); i < vlid.numLevels; i++ {
-			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[_DATA_START_ADR+i*4 : _DATA_START_ADR+i*4+4])
+			offset := _DATA_START_ADR + int(i)*4
+			vlid.levelsArr[i] = binary.LittleEndian.Uint32(vlid.srcMem[offset : offset+4])
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
-- 
2.43.0


From 72aac2b2675434c217d8232873ef593bdde8e5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 30/53] fix: write the empty string in KLL images of strings

---
 kll/items_sketch.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 016569b..3cec94b 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -644,12 +644,7 @@ func (s *ItemsSketch[C]) getMinMaxSizeBytes() int {
 }
 
 func (s *ItemsSketch[C]) getMinMaxByteArr() []byte {
-	minBytes := s.serde.SerializeOneToSlice(s.minItem)
-	maxBytes := s.serde.SerializeOneToSlice(s.maxItem)
-	minMaxBytes := make([]byte, len(minBytes)+len(maxBytes))
-	copy(minMaxBytes, minBytes)
-	copy(minMaxBytes[len(minBytes):], maxBytes)
-	return minMaxBytes
+	return s.serde.SerializeManyToSlice([]C{s.minItem, s.maxItem})
 }
 
 func (s *ItemsSketch[C]) getSingleItemSizeBytes() (int, error) {
@@ -665,7 +660,7 @@ func (s *ItemsSketch[C]) getSingleItemByteArr() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return s.serde.SerializeOneToSlice(v), nil
+	return s.serde.SerializeManyToSlice([]C{v}), nil
 }
 
 func (s *ItemsSketch[C]) getSingleItem() (C, error) {
-- 
2.43.0


From c597140552253acdbb0b46f16a45ed372fe3ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 31/53] fix: keep the maximum map size when decoding an empty
 items sketch

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 328b168..c32ce4d 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -144,7 +144,7 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
 	if empty {
-		return NewFrequencyItemsSketchWithMaxMapSize[C](1<<_LG_MIN_MAP_SIZE, hasher, serde)
+		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
 	// Get full preamble
 	preArr := make([]int64, preLongs)
-- 
2.43.0


From aa451394d3ea3515e18f66ad38687a8dc6593c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 32/53] fix: sample size of an items sketch follows the minimum
 map size

---
 frequencies/items_sketch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index c32ce4d..81cf752 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -70,7 +70,7 @@ func NewFrequencyItemsSketch[C comparable](lgMaxMapSize int, lgCurMapSize int, h
 		return nil, err
 	}
 	curMapCap := hashMap.getCapacity()
-	maxMapCap := int(float64(uint64(1)<<lgMaxMapSize) * reversePurgeItemHashMapLoadFactor)
+	maxMapCap := int(float64(uint64(1)<<lgMaxMapSz) * reversePurgeItemHashMapLoadFactor)
 	offset := int64(0)
 	sampleSize := min(_SAMPLE_SIZE, maxMapCap)
 
-- 
2.43.0


From 7569907a0586bc67c038fcac6d03d8d08ae2a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 33/53] fix: a decoded VarOpt sketch in sampling mode has an
 empty M region

---
 sampling/varopt_items_sketch_decoder.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 242ff7a..150903e 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -194,16 +194,11 @@ func DecodeVarOptItemsSketch[T any](buffer []byte, serde common.ItemSketchSerde[
 		copy(data[h+1:h+1+r], rData)
 	}
 
-	m := 0
-	if r > 0 {
-		m = 1
-	}
 	return &VarOptItemsSketch[T]{
 		data:         data,
 		weights:      weights,
 		k:            int(k),
 		h:            int(h),
-		m:            m,
 		r:            int(r),
 		n:            int64(n),
 		totalWeightR: totalWeightR,
-- 
2.43.0


From 86cb625f3fa5c262814577df18b93ffd48baf8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 34/53] fix: reset a reservoir union to its own maximum k, and
 allow it when unused

---
 sampling/reservoir_items_union.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index cfe0885..4464eff 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -275,7 +275,13 @@ func (u *ReservoirItemsUnion[T]) MaxK() int {
 
 // Reset clears the union.
 func (u *ReservoirItemsUnion[T]) Reset() {
-	u.gadget.Reset()
+	if u.gadget == nil {
+		return // never updated
+	}
+
+	// The gadget may have taken over the smaller k of a merged sketch, so it
+	// is replaced instead of being cleared. maxK was validated on construction.
+	u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From 50a1c5a595d993baea2641494ebd961d7f251cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 35/53] fix: restore minK when a KLL sketch is reset

---
 kll/items_sketch.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 3cec94b..39c291f 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -480,6 +480,7 @@ func (s *ItemsSketch[C]) Merge(other *ItemsSketch[C]) {
 func (s *ItemsSketch[C]) Reset() {
 	s.n = 0
 	s.isLevelZeroSorted = false
+	s.minK = s.k
 	s.numLevels = 1
 	s.levels = []uint32{uint32(s.k), uint32(s.k)}
 	s.hasMinMax = false
-- 
2.43.0


From 402da5415073dedc952ecbde4e88acf1643a727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 36/53] fix: start REQ sketches without a minimum and maximum

---
 req/sketch.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/req/sketch.go b/req/sketch.go
index 7f0f01a..284276b 100644
--- a/req/sketch.go
+++ b/req/sketch.go
@@ -73,6 +73,8 @@ type Sketch struct {
 
 func NewSketch(options ...SketchOptionFunc) (*Sketch, error) {
 	sk := &Sketch{
+		minItem:                float32(math.NaN()),
+		maxItem:                float32(math.NaN()),
 		k:                      defaultK,
 		isHighRankAccuracyMode: true,
 	}
-- 
2.43.0


From d96fd6d3cf010e5ca6af12f7e7f09c2ec24c1bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 37/53] fix: reset a reservoir union in place

---
 sampling/reservoir_items_union.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index 4464eff..b00c340 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -279,9 +279,10 @@ func (u *ReservoirItemsUnion[T]) Reset() {
 		return // never updated
 	}
 
-	// The gadget may have taken over the smaller k of a merged sketch, so it
-	// is replaced instead of being cleared. maxK was validated on construction.
-	u.gadget, _ = NewReservoirItemsSketch[T](u.maxK)
+	// The gadget may have taken over the smaller k of a merged sketch.
+	u.gadget.k = u.maxK
+	u.gadget.rf = defaultResizeFactor
+	u.gadget.Reset()
 }
 
 // String returns a human-readable summary of the union.
-- 
2.43.0


From 722cf509384cb32b7a932d20312696930b8bb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:39 +0000
Subject: [PATCH 38/53] fix: merging a fully purged frequency sketch keeps its
 error offset

---
 frequencies/items_sketch.go | 2 +-
 frequencies/longs_sketch.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 81cf752..0534b60 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -394,7 +394,7 @@ func (i *ItemsSketch[C]) UpdateMany(item C, count int64) error {
 // cross-language compatibility, it is the caller's responsibility to ensure
 // that string values in both sketches are encoded as valid UTF-8.
 func (i *ItemsSketch[C]) Merge(other *ItemsSketch[C]) (*ItemsSketch[C], error) {
-	if other == nil || other.IsEmpty() {
+	if other == nil || (other.IsEmpty() && other.offset == 0) {
 		return i, nil
 	}
 
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index f77136f..f8737a2 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -453,7 +453,7 @@ func (s *LongsSketch) UpdateMany(item int64, count int64) error {
 // return a sketch whose estimates are within the guarantees of the largest error tolerance
 // of the two merged sketches.
 func (s *LongsSketch) Merge(other *LongsSketch) (*LongsSketch, error) {
-	if other == nil || other.IsEmpty() {
+	if other == nil || (other.IsEmpty() && other.offset == 0) {
 		return s, nil
 	}
 	streamWt := s.streamWeight + other.streamWeight //capture before Merge
-- 
2.43.0


From 6758667a472d40ca320a5aa75bae609f5697b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:30 +0000
Subject: [PATCH 39/53] fix: notice when a source is smaller than the HLL union

---
 hll/union.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hll/union.go b/hll/union.go
index 24491c2..0a04c21 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -242,7 +242,7 @@ func (u *unionImpl) unionImpl(source HllSketch) (hllSketchStateI, error) {
 	}
 
 	if srcLgK < gdgtLgK {
-		bit3 = 0
+		bit3 = 8
 	}
 
 	if srcLgK > u.lgMaxK {
-- 
2.43.0


From 2931cba7bd2440e0136f06dad5ea7992c6eed1c0 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 40/53] fix: merging t-digests keeps the extremes of the source

---
 tdigest/double.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tdigest/double.go b/tdigest/double.go
index 0519ed4..a9756aa 100644
--- a/tdigest/double.go
+++ b/tdigest/double.go
@@ -213,6 +213,10 @@ func (d *Double) Merge(other *Double) error {
 	}
 	tmp = append(tmp, other.centroids...)
 
+	// The extremes need not be centroids of their own, as in digests of the reference implementation.
+	d.min = math.Min(d.min, other.min)
+	d.max = math.Max(d.max, other.max)
+
 	d.merge(tmp, uint64(len(d.buffer))+other.TotalWeight())
 
 	return nil
-- 
2.43.0


From 268aed0b6d91e465f535d982336e1f4a814b5eda Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 41/53] fix: refuse an overflowing reservoir union before
 changing it

---
 sampling/reservoir_items_union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampling/reservoir_items_union.go b/sampling/reservoir_items_union.go
index b00c340..c6e886f 100644
--- a/sampling/reservoir_items_union.go
+++ b/sampling/reservoir_items_union.go
@@ -179,6 +179,11 @@ func (u *ReservoirItemsUnion[T]) createNewGadget(
 func (u *ReservoirItemsUnion[T]) twoWayMergeInternal(
 	source *ReservoirItemsSketch[T], isModifiable bool,
 ) error {
+	// refuse before anything has been merged
+	if n := u.gadget.N() + source.N(); n > maxItemsSeen {
+		return fmt.Errorf("n (%d) exceeds maxItemsSeen (%d)", n, maxItemsSeen)
+	}
+
 	if source.N() <= int64(source.K()) {
 		if err := u.twoWayMergeInternalStandard(source); err != nil {
 			return err
-- 
2.43.0


From 8334dece3bb6fbb2f43cc48419e6404dc1b7e246 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 42/53] fix: the maximum size of a compact theta sketch does
 not fit in 8 bits

---
 theta/compact_sketch.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theta/compact_sketch.go b/theta/compact_sketch.go
index 82959bc..979c83d 100644
--- a/theta/compact_sketch.go
+++ b/theta/compact_sketch.go
@@ -272,9 +272,9 @@ func (s *CompactSketch) preambleLongs(compressed bool) uint8 {
 
 // MaxSerializedSizeBytes computes maximum serialized size in bytes
 // lgK is the nominal number of entries in the sketch
-func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) uint8 {
+func (s *CompactSketch) MaxSerializedSizeBytes(lgK uint8) int {
 	capacity := computeCapacity(lgK+1, lgK)
-	return uint8(8 * (3 + int(capacity)))
+	return 8 * (3 + int(capacity))
 }
 
 // SerializedSizeBytes computes the size in bytes required to serialize the current state of the sketch.
-- 
2.43.0


From 2a3a9b10fa1ad1214d646855b2e18f8f475eb13a Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:40 +0000
Subject: [PATCH 43/53] fix: suggested Bloom filter parameters no longer wrap
 around

---
 filters/bloom_filter_builder.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/filters/bloom_filter_builder.go b/filters/bloom_filter_builder.go
index f352b9f..0c42b5a 100644
--- a/filters/bloom_filter_builder.go
+++ b/filters/bloom_filter_builder.go
@@ -131,8 +131,11 @@ func SuggestNumFilterBits(maxDistinctItems uint64, targetFpp float64) uint64 {
 	p := targetFpp
 	ln2 := math.Ln2
 
-	bits := -n * math.Log(p) / (ln2 * ln2)
-	return uint64(math.Ceil(bits))
+	bits := math.Ceil(-n * math.Log(p) / (ln2 * ln2))
+	if bits >= math.MaxUint64 {
+		return math.MaxUint64
+	}
+	return uint64(bits)
 }
 
 // SuggestNumHashes calculates the optimal number of hash functions from target FPP.
@@ -153,12 +156,11 @@ func SuggestNumHashesFromSize(maxDistinctItems, numFilterBits uint64) uint16 {
 		return 1
 	}
 	ratio := float64(numFilterBits) / float64(maxDistinctItems)
-	k := ratio * math.Ln2
-	result := uint16(math.Ceil(k))
-	if result == 0 {
+	k := math.Ceil(ratio * math.Ln2)
+	if k < 1 {
 		return 1
 	}
-	return result
+	return uint16(math.Min(k, math.MaxUint16))
 }
 
 // GenerateRandomSeed generates a cryptographically random seed value.
-- 
2.43.0


From 52f83b2a93f4758afd9ccd39bdb28793fab84f1e Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:56 +0000
Subject: [PATCH 44/53] fix: theta decoder checks the preamble size before it
 reads and refuses impossible entry sizes

---
 theta/decoder.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/theta/decoder.go b/theta/decoder.go
index b24deca..b0882a5 100644
--- a/theta/decoder.go
+++ b/theta/decoder.go
@@ -168,6 +168,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	}
 
 	numEntriesBytes := bytes[compactSketchV4NumEntriesBytesByte]
+	if numEntriesBytes > 4 {
+		return compactSketchData{}, fmt.Errorf("invalid size of the number of entries: %d (expected at most 4)", numEntriesBytes)
+	}
 	dataOffsetBytes := compactSketchV4PackedDataExactByte
 	if hasTheta {
 		dataOffsetBytes = compactSketchV4PackedDataEstByte
@@ -185,6 +188,9 @@ func decodeVersion4(bytes []byte, seed uint64) (compactSketchData, error) {
 	dataOffsetBytes += int(numEntriesBytes)
 
 	entryBits := bytes[compactSketchV4EntryBitsByte]
+	if entryBits == 0 || entryBits > 63 {
+		return compactSketchData{}, fmt.Errorf("invalid number of bits per entry: %d (expected 1 to 63)", entryBits)
+	}
 	expectedBits := uint64(entryBits) * uint64(numEntries)
 	expectedSize := dataOffsetBytes + int(wholeBytesToHoldBits(expectedBits))
 
@@ -254,6 +260,9 @@ func decodeVersion3(bytes []byte, seed uint64) (compactSketchData, error) {
 		}, nil
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	entriesStartU64 := compactSketchEntriesExactU64
 	if hasTheta {
@@ -303,6 +312,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:      bytes,
 		}, nil
 	case 2:
+		if err := validateMemorySize(bytes, compactSketchEntriesExactU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		if numEntries == 0 {
 			return compactSketchData{
@@ -332,6 +344,9 @@ func decodeVersion2(bytes []byte, seed uint64) (compactSketchData, error) {
 			bytes:           bytes,
 		}, nil
 	case 3:
+		if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+			return compactSketchData{}, err
+		}
 		numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 		theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
@@ -374,6 +389,9 @@ func decodeVersion1(bytes []byte, seed uint64) (compactSketchData, error) {
 		return compactSketchData{}, err
 	}
 
+	if err := validateMemorySize(bytes, compactSketchEntriesEstimationU64*8); err != nil {
+		return compactSketchData{}, err
+	}
 	numEntries := binary.LittleEndian.Uint32(bytes[compactSketchNumEntriesU32*4:])
 	theta := binary.LittleEndian.Uint64(bytes[compactSketchThetaU64*8:])
 
-- 
2.43.0


From f811c1413b79e3d080f22cb8043b645e2c95bc76 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:36 +0000
Subject: [PATCH 45/53] fix: hll images are checked against their length and
 capacities before they are read

---
 hll/coupon.go     |  4 ++-
 hll/hll_4array.go |  3 ++
 hll/hll_sketch.go |  8 ++++-
 hll/union.go      | 13 +++++---
 hll/utils.go      | 77 +++++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 98 insertions(+), 7 deletions(-)

diff --git a/hll/coupon.go b/hll/coupon.go
index abdaca2..830b1b0 100644
--- a/hll/coupon.go
+++ b/hll/coupon.go
@@ -112,7 +112,9 @@ func mergeCouponTo(from hllCoupon, dest HllSketch) error {
 		pair := intArrFrom[i]
 		if pair != empty {
 			sk, err = dest.(*hllSketchState).sketch.couponUpdate(pair)
-			dest.(*hllSketchState).sketch = sk
+			if err == nil {
+				dest.(*hllSketchState).sketch = sk
+			}
 		}
 	}
 	return err
diff --git a/hll/hll_4array.go b/hll/hll_4array.go
index d8ab28d..177a083 100644
--- a/hll/hll_4array.go
+++ b/hll/hll_4array.go
@@ -30,6 +30,9 @@ func (h *hll4ArrayImpl) getSlotValue(slotNo int) (int, error) {
 	nib := h.getNibble(slotNo)
 	if nib == auxToken {
 		auxHashMap := h.getAuxHashMap()
+		if auxHashMap == nil {
+			return 0, fmt.Errorf("SlotNo not found: %d", slotNo)
+		}
 		return auxHashMap.mustFindValueFor(slotNo)
 	} else {
 		return nib + h.curMin, nil
diff --git a/hll/hll_sketch.go b/hll/hll_sketch.go
index a53d35d..f5fd9cf 100644
--- a/hll/hll_sketch.go
+++ b/hll/hll_sketch.go
@@ -189,6 +189,9 @@ func NewHllSketchFromSlice(bytes []byte, checkRebuild bool) (HllSketch, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := checkImage(bytes, curMode); err != nil {
+		return nil, err
+	}
 	if curMode == curModeHll {
 		tgtHllType := extractTgtHllType(bytes)
 		if tgtHllType == TgtHllTypeHll4 {
@@ -340,8 +343,11 @@ func (h *hllSketchState) couponUpdate(coupon int) (hllSketchStateI, error) {
 		return h.sketch, nil
 	}
 	sk, err := h.sketch.couponUpdate(coupon)
+	if err != nil {
+		return nil, err
+	}
 	h.sketch = sk
-	return h.sketch, err
+	return sk, nil
 }
 
 func (h *hllSketchState) putRebuildCurMinNumKxQFlag(rebuildCurMinNumKxQFlag bool) {
diff --git a/hll/union.go b/hll/union.go
index 0a04c21..f6c090b 100644
--- a/hll/union.go
+++ b/hll/union.go
@@ -80,8 +80,11 @@ func (u *unionImpl) couponUpdate(coupon int) (hllSketchStateI, error) {
 		return u.gadget.(*hllSketchState).sketch, nil
 	}
 	sk, err := u.gadget.couponUpdate(coupon)
+	if err != nil {
+		return nil, err
+	}
 	u.gadget.(*hllSketchState).sketch = sk
-	return sk, err
+	return sk, nil
 }
 
 func (u *unionImpl) GetResult(tgtHllType TgtHllType) (HllSketch, error) {
@@ -108,14 +111,14 @@ func NewUnion(lgMaxK int) (Union, error) {
 }
 
 func NewUnionFromSlice(byteArray []byte) (Union, error) {
-	lgK, err := checkLgK(extractLgK(byteArray))
-	if err != nil {
-		return nil, err
-	}
 	sk, e := NewHllSketchFromSlice(byteArray, false)
 	if e != nil {
 		return nil, e
 	}
+	lgK, err := checkLgK(extractLgK(byteArray))
+	if err != nil {
+		return nil, err
+	}
 	union, err := NewUnion(lgK)
 	if err != nil {
 		return nil, err
diff --git a/hll/utils.go b/hll/utils.go
index 92d910f..b87b872 100644
--- a/hll/utils.go
+++ b/hll/utils.go
@@ -165,6 +165,10 @@ func checkPreamble(preamble []byte) (curMode, error) {
 		return 0, fmt.Errorf("possible Corruption: Invalid Preamble Ints: %d", preInts)
 	}
 
+	if curMode != curModeList && curMode != curModeSet && curMode != curModeHll {
+		return 0, fmt.Errorf("possible Corruption: Invalid Mode: %d", curMode)
+	}
+
 	if curMode == curModeList && preInts != listPreInts {
 		return 0, fmt.Errorf("possible Corruption: Invalid Preamble Ints: %d", preInts)
 	}
@@ -180,6 +184,79 @@ func checkPreamble(preamble []byte) (curMode, error) {
 	return curMode, nil
 }
 
+// checkImage checks the fields that the size of an image follows from, and that the image is that long.
+// The preamble must have been checked.
+func checkImage(image []byte, mode curMode) error {
+	lgK, err := checkLgK(extractLgK(image))
+	if err != nil {
+		return err
+	}
+	tgtHllType := extractTgtHllType(image)
+	compact := extractCompactFlag(image)
+	size := 0
+
+	switch mode {
+	case curModeList:
+		count := extractListCount(image)
+		if count >= 1<<lgInitListSize {
+			return fmt.Errorf("possible Corruption: Invalid List Count: %d", count)
+		}
+		size = listIntArrStart + count<<2
+	case curModeSet:
+		if lgK <= 7 {
+			return fmt.Errorf("lgConfigK must be > 7 for SET mode")
+		}
+		count := extractHashSetCount(image)
+		if resizeDenom*count > resizeNumber<<(lgK-3) {
+			return fmt.Errorf("possible Corruption: Invalid Hash Set Count: %d", count)
+		}
+		if compact {
+			size = hashSetIntArrStart + count<<2
+			break
+		}
+		lgArr := extractLgArr(image)
+		if lgArr < lgInitSetSize {
+			if lgArr, err = computeLgArr(image, count, lgK); err != nil {
+				return err
+			}
+		}
+		if lgArr > lgK-3 || count >= 1<<lgArr {
+			return fmt.Errorf("possible Corruption: Invalid Hash Set Size: %d", lgArr)
+		}
+		size = hashSetIntArrStart + 4<<lgArr
+	default:
+		switch tgtHllType {
+		case TgtHllTypeHll4:
+			size = hllByteArrStart + 1<<(lgK-1)
+			auxCount := extractAuxCount(image)
+			if auxCount > 1<<lgK {
+				return fmt.Errorf("possible Corruption: Invalid Aux Count: %d", auxCount)
+			}
+			if compact {
+				size += auxCount << 2
+			} else if auxCount > 0 {
+				lgArr := extractLgArr(image)
+				if lgArr >= lgK {
+					return fmt.Errorf("possible Corruption: Invalid Aux Array Size: %d", lgArr)
+				}
+				size += 4 << lgArr
+			}
+		case TgtHllTypeHll6:
+			size = hllByteArrStart + (((1 << lgK) * 3) >> 2) + 1
+		case TgtHllTypeHll8:
+			size = hllByteArrStart + 1<<lgK
+		}
+	}
+
+	if tgtHllType != TgtHllTypeHll4 && tgtHllType != TgtHllTypeHll6 && tgtHllType != TgtHllTypeHll8 {
+		return fmt.Errorf("possible Corruption: Invalid Target Type: %d", tgtHllType)
+	}
+	if len(image) < size {
+		return fmt.Errorf("possible Corruption: Image of %d bytes is too short, %d expected", len(image), size)
+	}
+	return nil
+}
+
 func getMaxUpdatableSerializationBytes(lgConfigK int, tgtHllType TgtHllType) int {
 	var arrBytes int
 	if tgtHllType == TgtHllTypeHll4 {
-- 
2.43.0


From f07a1ce791e40d261aac292a3634312a404687c6 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:37 +0000
Subject: [PATCH 46/53] fix: cpc images are checked against their length and
 their pairs against the sketch size

---
 cpc/cpc_compressed_state.go | 12 ++++++++++++
 cpc/pair_table.go           |  3 +++
 cpc/utils.go                |  9 +++++++++
 3 files changed, 24 insertions(+)

diff --git a/cpc/cpc_compressed_state.go b/cpc/cpc_compressed_state.go
index 878850e..179f7ed 100644
--- a/cpc/cpc_compressed_state.go
+++ b/cpc/cpc_compressed_state.go
@@ -745,6 +745,10 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if numPairs <= 0 {
 		return nil, fmt.Errorf("uncompressTheSurprisingValues: numPairs must be > 0, got %d", numPairs)
 	}
+	// Every pair takes at least one bit.
+	if numPairs > 32*len(source.CsvStream) {
+		return nil, fmt.Errorf("uncompressTheSurprisingValues: %d pairs cannot be held by %d words", numPairs, len(source.CsvStream))
+	}
 	pairs := make([]int, numPairs)
 	// Determine the number of base bits using the Golomb code decision.
 	numBaseBits, err := golombChooseNumberOfBaseBits(srcK+numPairs, numPairs)
@@ -755,6 +759,11 @@ func uncompressTheSurprisingValues(source *CpcCompressedState) ([]int, error) {
 	if err := lowLevelUncompressPairs(pairs, numPairs, numBaseBits, source.CsvStream, source.CsvLengthInts); err != nil {
 		return nil, err
 	}
+	for i, rowCol := range pairs {
+		if rowCol < 0 || rowCol>>6 >= srcK {
+			return nil, fmt.Errorf("uncompressTheSurprisingValues: invalid pair value %d at index %d", rowCol, i)
+		}
+	}
 	return pairs, nil
 }
 
@@ -973,6 +982,9 @@ func lowLevelUncompressPairs(pairArray []int, numPairsToDecode, numBaseBits int,
 		}
 		rowIndex := predictedRowIndex + int(yDelta)
 		colIndex := predictedColIndex + xDelta
+		if colIndex > 63 {
+			return fmt.Errorf("lowLevelUncompressPairs: invalid column %d at index %d", colIndex, pairIndex)
+		}
 		rowCol := (rowIndex << 6) | colIndex
 		pairArray[pairIndex] = rowCol
 		pairIndex++
diff --git a/cpc/pair_table.go b/cpc/pair_table.go
index d4ae1c8..c20fb7b 100644
--- a/cpc/pair_table.go
+++ b/cpc/pair_table.go
@@ -320,6 +320,9 @@ func newInstanceFromPairsArray(pairs []int, numPairs, lgK int) (*pairTable, erro
 	for (upsizeDenom * numPairs) > (upsizeNumer * (1 << lgNumSlots)) {
 		lgNumSlots++
 	}
+	if lgNumSlots > 6+lgK {
+		return nil, fmt.Errorf("%d pairs are too many for lgK %d", numPairs, lgK)
+	}
 	// Create a new pairTable with validBits = 6 + lgK.
 	table, err := NewPairTable(lgNumSlots, 6+lgK)
 	if err != nil {
diff --git a/cpc/utils.go b/cpc/utils.go
index 3050e76..d7530ff 100644
--- a/cpc/utils.go
+++ b/cpc/utils.go
@@ -284,6 +284,9 @@ func checkLoPreamble(bytes []byte) error {
 	if bytes[loFieldPreInts] != preIntsDef {
 		return fmt.Errorf("preIntsDef: %d, bytes[loFieldPreInts]: %d", preIntsDef, bytes[loFieldPreInts])
 	}
+	if err := checkBounds(0, int(preIntsDef)*4, len(bytes)); err != nil {
+		return err
+	}
 	fam := getFamilyId(bytes)
 	if fam != internal.FamilyEnum.CPC.Id {
 		return fmt.Errorf("family: %d, bytes[loFieldFamily]: %d", internal.FamilyEnum.CPC.Id, fam)
@@ -389,6 +392,9 @@ func getWStream(bytes []byte) ([]int, error) {
 		return nil, err
 	}
 	wLength := getWLengthInts(bytes)
+	if err := checkBounds(offset, wLength<<2, len(bytes)); err != nil {
+		return nil, err
+	}
 	wStream := make([]int, wLength)
 	for i := 0; i < wLength; i++ {
 		wStream[i] = int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
@@ -426,6 +432,9 @@ func getSvStream(bytes []byte) ([]int, error) {
 		return nil, err
 	}
 	svLengthInts := getSvLengthInts(bytes)
+	if err := checkBounds(offset, svLengthInts<<2, len(bytes)); err != nil {
+		return nil, err
+	}
 	svStream := make([]int, svLengthInts)
 	for i := 0; i < svLengthInts; i++ {
 		svStream[i] = int(binary.LittleEndian.Uint32(bytes[offset : offset+4]))
-- 
2.43.0


From b0b96125cb219ab44f2d7e960c36a95785a8efb4 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:25 +0000
Subject: [PATCH 47/53] fix: items are only read when they fit in the memory

---
 common/item_sketch_double.go | 3 +++
 common/item_sketch_float.go  | 3 +++
 common/item_sketch_long.go   | 3 +++
 common/item_sketch_string.go | 7 +++++--
 common/utils.go              | 9 +++++++++
 5 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/common/item_sketch_double.go b/common/item_sketch_double.go
index 8462fb6..249f55e 100644
--- a/common/item_sketch_double.go
+++ b/common/item_sketch_double.go
@@ -74,6 +74,9 @@ func (f ItemSketchDoubleSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems == 0 {
 		return []float64{}, nil
 	}
+	if err := checkItems(offsetBytes, numItems, 8, len(mem)); err != nil {
+		return nil, err
+	}
 	array := make([]float64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, math.Float64frombits(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_float.go b/common/item_sketch_float.go
index eae77a9..a8cacb2 100644
--- a/common/item_sketch_float.go
+++ b/common/item_sketch_float.go
@@ -66,6 +66,9 @@ func (s ItemSketchFloatSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes i
 	if numItems == 0 {
 		return []float32{}, nil
 	}
+	if err := checkItems(offsetBytes, numItems, 4, len(mem)); err != nil {
+		return nil, err
+	}
 
 	array := make([]float32, 0, numItems)
 	for i := 0; i < numItems; i++ {
diff --git a/common/item_sketch_long.go b/common/item_sketch_long.go
index c4c5d11..ba2a42b 100644
--- a/common/item_sketch_long.go
+++ b/common/item_sketch_long.go
@@ -73,6 +73,9 @@ func (f ItemSketchLongSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes in
 	if numItems == 0 {
 		return []int64{}, nil
 	}
+	if err := checkItems(offsetBytes, numItems, 8, len(mem)); err != nil {
+		return nil, err
+	}
 	array := make([]int64, 0, numItems)
 	for i := 0; i < numItems; i++ {
 		array = append(array, int64(binary.LittleEndian.Uint64(mem[offsetBytes:])))
diff --git a/common/item_sketch_string.go b/common/item_sketch_string.go
index 19a5539..ad4ea65 100644
--- a/common/item_sketch_string.go
+++ b/common/item_sketch_string.go
@@ -117,20 +117,23 @@ func (f ItemSketchStringSerDe) DeserializeManyFromSlice(mem []byte, offsetBytes
 	if numItems <= 0 {
 		return []string{}, nil
 	}
-	array := make([]string, numItems)
 	offset := offsetBytes
 	intSize := 4
 	memCap := len(mem)
+	if err := checkItems(offset, numItems, intSize, memCap); err != nil {
+		return nil, err
+	}
+	array := make([]string, numItems)
 	for i := 0; i < numItems; i++ {
 		if !checkBounds(offset, intSize, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
 		strLength := int(binary.LittleEndian.Uint32(mem[offset:]))
 		offset += intSize
-		utf8Bytes := make([]byte, strLength)
 		if !checkBounds(offset, strLength, memCap) {
 			return nil, errors.New("offset out of bounds")
 		}
+		utf8Bytes := make([]byte, strLength)
 		copy(utf8Bytes, mem[offset:offset+strLength])
 		offset += strLength
 		array[i] = string(utf8Bytes)
diff --git a/common/utils.go b/common/utils.go
index 2269654..b3f0a1d 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -18,6 +18,7 @@
 package common
 
 import (
+	"errors"
 	"math"
 	"math/bits"
 )
@@ -31,6 +32,14 @@ func checkBounds(offset int, reqLen int, memCap int) bool {
 	return !((offset | reqLen | (offset + reqLen) | (memCap - (offset + reqLen))) < 0)
 }
 
+// checkItems checks that a number of items of at least itemSize bytes each fit in the memory at an offset.
+func checkItems(offset, numItems, itemSize, memCap int) error {
+	if offset < 0 || offset > memCap || numItems < 0 || numItems > (memCap-offset)/itemSize {
+		return errors.New("offset out of bounds")
+	}
+	return nil
+}
+
 func PowerSeriesNextDouble(ppb int, curPoint float64, roundToLong bool, logBase float64) float64 {
 	// If curPoint < 1.0, force cur to 1.0
 	cur := curPoint
-- 
2.43.0


From 369bbdeda1abe2c15bd225fcbbc33fbecb9e2a64 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:45 +0000
Subject: [PATCH 48/53] fix: KLL images are checked against their length and
 their levels

---
 kll/items_sketch.go          | 13 +++++++------
 kll/items_sketch_validate.go | 16 +++++++++++++++-
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/kll/items_sketch.go b/kll/items_sketch.go
index 39c291f..3395b38 100644
--- a/kll/items_sketch.go
+++ b/kll/items_sketch.go
@@ -60,12 +60,13 @@ type ItemsSketch[C comparable] struct {
 }
 
 const (
-	_DEFAULT_K = uint16(200)
-	_DEFAULT_M = uint8(8)
-	_MIN_K     = uint16(_DEFAULT_M)
-	_MAX_K     = (1 << 16) - 1
-	_MIN_M     = 2 //The minimum M
-	_MAX_M     = 8 //The maximum M
+	_DEFAULT_K      = uint16(200)
+	_DEFAULT_M      = uint8(8)
+	_MIN_K          = uint16(_DEFAULT_M)
+	_MAX_K          = (1 << 16) - 1
+	_MIN_M          = 2  //The minimum M
+	_MAX_M          = 8  //The maximum M
+	_MAX_NUM_LEVELS = 61 //The maximum number of levels
 )
 
 var (
diff --git a/kll/items_sketch_validate.go b/kll/items_sketch_validate.go
index f39c444..869be94 100644
--- a/kll/items_sketch_validate.go
+++ b/kll/items_sketch_validate.go
@@ -57,7 +57,7 @@ type itemsSketchMemoryValidate[C comparable] struct {
 }
 
 func newItemsSketchMemoryValidate[C comparable](srcMem []byte, serde common.ItemSketchSerde[C]) (*itemsSketchMemoryValidate[C], error) {
-	capa := cap(srcMem)
+	capa := len(srcMem)
 	if capa < 8 {
 		return nil, fmt.Errorf("Memory too small: %d", capa)
 	}
@@ -110,9 +110,18 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		if vlid.emptyFlag {
 			return fmt.Errorf("Empty flag and compact full")
 		}
+		if len(vlid.srcMem) < _DATA_START_ADR {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		vlid.n = getN(vlid.srcMem)
 		vlid.minK = getMinK(vlid.srcMem)
 		vlid.numLevels = getNumLevels(vlid.srcMem)
+		if vlid.numLevels < 1 || vlid.numLevels > _MAX_NUM_LEVELS {
+			return fmt.Errorf("Number of levels must be >= 1 and <= %d: %d", _MAX_NUM_LEVELS, vlid.numLevels)
+		}
+		if len(vlid.srcMem) < _DATA_START_ADR+int(vlid.numLevels)*4 {
+			return fmt.Errorf("Memory too small: %d", len(vlid.srcMem))
+		}
 		// Get Levels Arr and add the last element
 		vlid.levelsArr = make([]uint32, int(vlid.numLevels)+1)
 		for i := uint8(0); i < vlid.numLevels; i++ {
@@ -121,6 +130,11 @@ func (vlid *itemsSketchMemoryValidate[C]) validate() error {
 		}
 		capacityItems := computeTotalItemCapacity(uint16(vlid.k), uint8(vlid.m), uint8(vlid.numLevels))
 		vlid.levelsArr[vlid.numLevels] = capacityItems //load the last one
+		for i := uint8(0); i < vlid.numLevels; i++ {
+			if vlid.levelsArr[i] > vlid.levelsArr[i+1] {
+				return fmt.Errorf("Level %d starts at %d, beyond its end at %d", i, vlid.levelsArr[i], vlid.levelsArr[i+1])
+			}
+		}
 		sb, err := computeSketchBytes(vlid.srcMem, vlid.levelsArr, vlid.typeBytes, vlid.serde)
 		if err != nil {
 			return err
-- 
2.43.0


From ad02bde97fc806537d42db0c7d25e0bb28ebe118 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:22 +0000
Subject: [PATCH 49/53] fix: count-min images must hold exactly the counters of
 the sketch

---
 count/count_min_sketch.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/count/count_min_sketch.go b/count/count_min_sketch.go
index e3eb744..015dd3f 100644
--- a/count/count_min_sketch.go
+++ b/count/count_min_sketch.go
@@ -363,14 +363,12 @@ func (c *CountMinSketch) Deserialize(b []byte, seed int64) (*CountMinSketch, err
 	cms.totalWeight = totalWeight
 
 	var w int64
-	var i int
-	for r.Len() > 0 {
+	for i := range cms.sketchSlice {
 		err = binary.Read(r, binary.LittleEndian, &w)
 		if err != nil {
 			return nil, err
 		}
 		cms.sketchSlice[i] = w
-		i++
 	}
 
 	return cms, nil
-- 
2.43.0


From 82d5270960d166baf1934818e71ebbb3707d73f5 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:22 +0000
Subject: [PATCH 50/53] fix: frequency images are checked before their preamble
 and counts are read

---
 frequencies/items_sketch.go   |  8 +++++++-
 frequencies/longs_sketch.go   |  8 +++++++-
 frequencies/preamble_utils.go | 12 ++++++++++++
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/frequencies/items_sketch.go b/frequencies/items_sketch.go
index 0534b60..3adc993 100644
--- a/frequencies/items_sketch.go
+++ b/frequencies/items_sketch.go
@@ -143,6 +143,12 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	if empty && !preLongsEq1 { //Byte 5 and Byte 0
 		return nil, fmt.Errorf("(preLongs == 1) ^ empty == true")
 	}
+	if !empty && preLongsEq1 {
+		return nil, fmt.Errorf("possible corruption: preLongs must be %d when not empty: %d", maxPreLongs, preLongs)
+	}
+	if err := checkLgMapSizes(lgMaxMapSize, lgCurMapSize); err != nil { //Bytes 3 and 4
+		return nil, err
+	}
 	if empty {
 		return NewFrequencyItemsSketch[C](lgMaxMapSize, _LG_MIN_MAP_SIZE, hasher, serde)
 	}
@@ -163,11 +169,11 @@ func NewFrequencyItemsSketchFromSlice[C comparable](slc []byte, hasher common.It
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + activeItems*8 // count Arr only
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	countArray := make([]int64, activeItems)
 	for j := 0; j < activeItems; j++ {
 		countArray[j] = int64(binary.LittleEndian.Uint64(slc[preBytes+j<<3:]))
 	}
diff --git a/frequencies/longs_sketch.go b/frequencies/longs_sketch.go
index f8737a2..db42f00 100644
--- a/frequencies/longs_sketch.go
+++ b/frequencies/longs_sketch.go
@@ -127,6 +127,12 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	if empty && !preLongsEq1 {
 		return nil, fmt.Errorf("possible Corruption: Empty Flag set incorrectly: %t", preLongsEq1)
 	}
+	if !empty && preLongsEq1 {
+		return nil, fmt.Errorf("possible corruption: preLongs must be %d when not empty: %d", maxPreLongs, preLongs)
+	}
+	if err := checkLgMapSizes(lgMaxMapSize, lgCurMapSize); err != nil { //Bytes 3 and 4
+		return nil, err
+	}
 	if empty {
 		return NewLongsSketch(lgMaxMapSize, _LG_MIN_MAP_SIZE)
 	}
@@ -146,11 +152,11 @@ func NewLongsSketchFromSlice(slc []byte) (*LongsSketch, error) {
 	activeItems := extractActiveItems(preArr[1])
 
 	// Get countArray
-	countArray := make([]int64, activeItems)
 	reqBytes := preBytes + 2*activeItems*8 //count Arr + Items Arr
 	if len(slc) < reqBytes {
 		return nil, fmt.Errorf("possible Corruption: Insufficient bytes in array: %d, %d", len(slc), reqBytes)
 	}
+	countArray := make([]int64, activeItems)
 	for i := 0; i < activeItems; i++ {
 		countArray[i] = int64(binary.LittleEndian.Uint64(slc[preBytes+(i<<3):]))
 	}
diff --git a/frequencies/preamble_utils.go b/frequencies/preamble_utils.go
index 3a2b0fd..00d7e0c 100644
--- a/frequencies/preamble_utils.go
+++ b/frequencies/preamble_utils.go
@@ -20,6 +20,7 @@ package frequencies
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 )
 
 const (
@@ -53,6 +54,17 @@ func checkPreambleSize(preamble []byte) (int64, error) {
 	return pre0, nil
 }
 
+// checkLgMapSizes checks the sizes of the hash map found in a preamble.
+func checkLgMapSizes(lgMaxMapSize, lgCurMapSize int) error {
+	if lgMaxMapSize > 62 {
+		return fmt.Errorf("possible corruption: the maximum map size is too large: 2^%d", lgMaxMapSize)
+	}
+	if lgCurMapSize > 30 {
+		return fmt.Errorf("possible corruption: the map size is too large: 2^%d", lgCurMapSize)
+	}
+	return nil
+}
+
 func insertPreLongs(preLongs, pre0 int64) int64 {
 	mask := int64(0x3F)
 	return (preLongs & mask) | (^mask & pre0)
-- 
2.43.0


From 56b2b91e76a4e0000dc74e94d530e2bc28e0c260 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:12 +0000
Subject: [PATCH 51/53] fix: t-digest images of the reference implementation
 are checked against their length and k

---
 tdigest/double_decoder.go | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/tdigest/double_decoder.go b/tdigest/double_decoder.go
index a23dfe5..3bcb021 100644
--- a/tdigest/double_decoder.go
+++ b/tdigest/double_decoder.go
@@ -199,6 +199,9 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &typeFlag); err != nil {
 		return nil, err
 	}
+	if typeFlag != compatTypeDouble && typeFlag != compatTypeFloat {
+		return nil, errUnexpectedPreamble
+	}
 
 	if typeFlag == compatTypeDouble { // compatibility with asBytes()
 		var minValBytes uint64
@@ -223,7 +226,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 			return nil, err
 		}
-		k := uint16(math.Float64frombits(kBytes))
+		k, err := compatK(math.Float64frombits(kBytes))
+		if err != nil {
+			return nil, err
+		}
 
 		var numCentroids uint32
 		if err := binary.Read(r, binary.BigEndian, &numCentroids); err != nil {
@@ -283,7 +289,10 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 	if err := binary.Read(r, binary.BigEndian, &kBytes); err != nil {
 		return nil, err
 	}
-	k := uint16(math.Float32frombits(kBytes))
+	k, err := compatK(float64(math.Float32frombits(kBytes)))
+	if err != nil {
+		return nil, err
+	}
 
 	var unused uint32
 	if err := binary.Read(r, binary.BigEndian, &unused); err != nil {
@@ -315,7 +324,7 @@ func (d *DoubleDecoder) decodeCompat(r io.Reader) (*Double, error) {
 		if err := validateInf(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
-		if err := validateNaN(float64(weight), "centroid mean"); err != nil {
+		if err := validateNaN(float64(mean), "centroid mean"); err != nil {
 			return nil, err
 		}
 
@@ -489,7 +498,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 		}
 
 		kDouble := math.Float64frombits(binary.BigEndian.Uint64(data[offset:]))
-		k := uint16(kDouble)
+		k, err := compatK(kDouble)
+		if err != nil {
+			return nil, err
+		}
 		offset += 8
 
 		numCentroids := binary.BigEndian.Uint32(data[offset:])
@@ -525,7 +537,7 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	// compatFloat: compatibility with asSmallBytes()
-	if len(data) < offset+24 { // 2 doubles + 1 float + 2 uint16 + 1 uint16
+	if len(data) < offset+26 { // 2 doubles + 1 float + 1 unused uint32 + 1 uint16
 		return nil, errInsufficientData
 	}
 
@@ -542,7 +554,10 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	}
 
 	kFloat := math.Float32frombits(binary.BigEndian.Uint32(data[offset:]))
-	k := uint16(kFloat)
+	k, err := compatK(float64(kFloat))
+	if err != nil {
+		return nil, err
+	}
 	offset += 4
 
 	offset += 4 // unused
@@ -579,6 +594,15 @@ func decodeDoubleCompat(data []byte) (*Double, error) {
 	return newDoubleFromInternalStates(false, k, minVal, maxVal, centroids, totalWeight, nil)
 }
 
+// compatK returns the k that an image of the reference implementation stores as
+// a floating point number.
+func compatK(k float64) (uint16, error) {
+	if !(k >= 10 && k <= math.MaxUint16) {
+		return 0, ErrInvalidK
+	}
+	return uint16(k), nil
+}
+
 func validateNaN(v float64, name string) error {
 	if math.IsNaN(v) {
 		return errors.New(name + ": NaN")
-- 
2.43.0


From e7c9dff6dea859d1886bedcd01f2ca6c0c8711ae Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:12 +0000
Subject: [PATCH 52/53] fix: a reservoir image makes no room for more items
 than it holds

---
 sampling/reservoir_items_sketch.go | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/sampling/reservoir_items_sketch.go b/sampling/reservoir_items_sketch.go
index 87ce260..3ed383f 100644
--- a/sampling/reservoir_items_sketch.go
+++ b/sampling/reservoir_items_sketch.go
@@ -463,33 +463,13 @@ func NewReservoirItemsSketchFromSlice[T any](data []byte, serde common.ItemSketc
 	}
 
 	preambleLongBytes := internal.FamilyEnum.ReservoirItems.MaxPreLongs * 8
-	capacity := k
-	if n < k {
-		ceilingLgK, _ := internal.ExactLog2(common.CeilingPowerOf2(k))
-		minLgSize, _ := internal.ExactLog2(common.CeilingPowerOf2(n))
-		initialLgSize := startingSubMultiple(ceilingLgK, int(rf), max(minLgSize, minLgArrItems))
-		capacity = adjustedSamplingAllocationSize(k, 1<<initialLgSize)
-	}
-
 	numSamples := min(n, k)
 	items, err := serde.DeserializeManyFromSlice(data, preambleLongBytes, numSamples)
 	if err != nil {
 		return nil, err
 	}
 
-	sketch, err := newReservoirItemsSketchFromStates(items, int64(n), rf, k)
-	if err != nil {
-		return nil, err
-	}
-
-	sketch.data = slices.Grow(sketch.data, capacity)
-
-	return &ReservoirItemsSketch[T]{
-		k:    k,
-		n:    int64(n),
-		rf:   rf,
-		data: items,
-	}, nil
+	return newReservoirItemsSketchFromStates(items, int64(n), rf, k)
 }
 
 func newReservoirItemsSketchFromStates[T any](
-- 
2.43.0


From f8f21ce5f764f7231bc7d396a175a74183d3e969 Mon Sep 17 00:00:00 2001
From: x <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:41 +0000
Subject: [PATCH 53/53] fix: VarOpt region sizes whose sum wraps around are
 refused

---
 sampling/varopt_items_sketch_decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampling/varopt_items_sketch_decoder.go b/sampling/varopt_items_sketch_decoder.go
index 150903e..e767658 100644
--- a/sampling/varopt_items_sketch_decoder.go
+++ b/sampling/varopt_items_sketch_decoder.go
@@ -263,7 +263,7 @@ func computeVarOptItemsSketchDataSize(
 			return 0, fmt.Errorf("invalid preamble longs: expected full because n>k, got %d", preambleLongs)
 		}
 
-		if h+r != k {
+		if uint64(h)+uint64(r) != uint64(k) {
 			return 0, fmt.Errorf("invalid state in full mode: expected h+r==k, got h=%d, r=%d, k=%d", h, r, k)
 		}
 
-- 
2.43.0

