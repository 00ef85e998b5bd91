From 63de92b138557caff3989efc0a1e445cbc8d857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 01/53] fix: SliceView(from > to) returned rows counted from
 the wrong end

---
 dataframe/view.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..f9eaa5c 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -51,8 +51,7 @@ func (df *DataFrame) SliceView(from int, to int) *DataFrame {
     to += len(df.indices) + 1
   }
   if from > to {
-    to, from = from, to
-    df = df.ReverseView()
+    return df.View().cut(to, from).ReverseView()
   }
   result := df.View().cut(from, to)
 
-- 
2.43.0


From 91e2146a8a6ac1637b41bbc138744783541b7ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 02/53] fix: SplitNView returned one part for empty dataframes
 and parts without columns

---
 dataframe/view.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index f9eaa5c..79e89a6 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -169,7 +169,7 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
@@ -178,14 +178,16 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if nRows % n != 0 {
     batchSize++
   }
+  if batchSize == 0 {  // no rows
+    batchSize = 1
+  }
   result := df.SplitView(batchSize)
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
     // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
+      emptyDFs[i] = df.SliceView(nRows, nRows)
     }
     result = append(result, emptyDFs...)
   }
-- 
2.43.0


From 7c98b88e3275d8c462b0b6c7d86f5ffa7dd5aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 03/53] fix: SortedView and TopView confused large integers

---
 dataframe/view.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 79e89a6..c763a3a 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -269,9 +269,12 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
         cpy[j] = vals[i]
       }
     } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
+      // large integers would lose precision if they were converted to floats
+      indices = utils.MakeRange(0, len(df.indices), 1)
+      sort.SliceStable(indices, func(a, b int) bool {
+        return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+      })
+      return df.IndexView(indices)
     } else {
       panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
     }
-- 
2.43.0


From 63a0462e1aa3a65a09a7854a2094261011571812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 04/53] fix: NaNs left the other values of FloatArgSort and
 SortedView unsorted

---
 utils/utils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..4148de0 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,6 +3,7 @@
 package utils
 
 import (
+  "math"
   "gonum.org/v1/gonum/floats"
 )
 
@@ -22,6 +23,11 @@ func FloatArgSort(values []float64, readonly bool) []int {
     copy(cpy, values)
     values = cpy
   }
+  for i, v := range values {
+    if math.IsNaN(v) {
+      values[i] = math.Inf(1)  // NaNs cannot be compared
+    }
+  }
   inds := make([]int, len(values))
   floats.Argsort(values, inds)
 
-- 
2.43.0


From 33da968324dedba8d35d7d057d91444aa0543ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 05/53] fix: TopView returned the dataframe itself instead of a
 view

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index c763a3a..77c0419 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -297,7 +297,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From 8c0372453350e812efd643957254868c708c8af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:01 +0000
Subject: [PATCH 06/53] fix: dropping columns from a view dropped them from its
 parent

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..e9a1610 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
-- 
2.43.0


From 37eeeda2a35663766eede3933e798a67c7ed2c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:02 +0000
Subject: [PATCH 07/53] fix: restructuring a view altered the string header of
 its parent

---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index e9a1610..e89ca56 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -485,6 +485,7 @@ func (data *RawData) reallocateMaps() {
   data.floats = tmp.floats
   data.objects = tmp.objects
   data.shared = tmp.shared  // all columns
+  data.stringHeader = tmp.stringHeader
   data.sharedMaps = false
 }
 
-- 
2.43.0


From ab7f7e8869681db3e2fbcb3a0f20d8ddcaa02a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 08/53] fix: ColumnView altered the set of shared columns of
 its parent

---
 dataframe/view.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index 77c0419..4b0cb4e 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -96,6 +96,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
+  result.shared = ColumnHeader{}  // not the one of df
   result.shared.add(columns...)
 
   // select the given subset
-- 
2.43.0


From 6cb25707aaaed73969db89bbd56462f2ab52dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 09/53] fix: HashStringsView on all the columns wrote into the
 input dataframe

---
 dataframe/view.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index 4b0cb4e..1f3cd31 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -370,6 +370,9 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
   // allocate the new columns and exclude the string columns
   otherColumns := df.Header().Except(columns...).NameList()
   result := df.ColumnView(otherColumns...)
+  if len(otherColumns) == 0 {
+    result.Drop(columns...)  // ColumnView() without argument keeps everything
+  }
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From 9af8314bfb43ed7362c11704e2133022a972ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 10/53] fix: Unshare detached columns that were not named

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index e89ca56..fcd60cf 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -184,7 +184,7 @@ func (data *RawData) Unshare(columns...string) {
     data.reallocateMaps()
   }
   var colSet map[string]bool
-  if len(columns) == 0 || len(columns) == data.NumColumns() {
+  if len(columns) == 0 {
     colSet = data.Header().NameSet()
     data.dataUID = generateDataUID()
   } else {
-- 
2.43.0


From ae21c1933d5d63a276afc5ebee773bd41941b73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 11/53] fix: Rename dropped the column when the name did not
 change and kept a column of the same name

---
 dataframe/raw_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index fcd60cf..593b70b 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -251,6 +251,12 @@ func (data *RawData) Rename(oldName string, newName string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  if data.Header().NameSet()[oldName] {
+    if oldName == newName {
+      return
+    }
+    data.Drop(newName)  // it may be of another type
+  }
   if vals, ok := data.floats[oldName]; ok {
     data.floats[newName] = vals
     delete(data.floats, oldName)
-- 
2.43.0


From 8e7f48869639b3d2795ef7b5937280c667a66b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 12/53] fix: columns added to a dataframe without columns had
 no rows

---
 dataframe/dataframe.go | 2 ++
 dataframe/inplace.go   | 1 +
 dataframe/raw_data.go  | 6 +++++-
 dataframe/view.go      | 1 +
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..3d2d4ae 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -32,6 +32,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   // stringHeader is not pre-allocated
 
   if nRows > 0 {
+    result.allocRows = nRows
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
   }
@@ -113,6 +114,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.allocRows = df.NumAllocatedRows()
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..9d815f2 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -221,6 +221,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.allocRows = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 593b70b..04aa35c 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -33,6 +33,8 @@ type RawData struct {
   // for debugging
   structureUID uint16
   dataUID uint64
+  // number of rows to allocate as long as there are no columns
+  allocRows int
   // whether an object is a string or not
   stringHeader ColumnHeader
   // later we'll switch to:
@@ -98,7 +100,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.allocRows
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -141,6 +143,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
   result.textEncoding = data.textEncoding
+  result.allocRows = nRows
   result.resetStructureUID()
 
   return result
@@ -232,6 +235,7 @@ func (data *RawData) Drop(columns ...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  data.allocRows = data.NumAllocatedRows()
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
diff --git a/dataframe/view.go b/dataframe/view.go
index 1f3cd31..590ac3e 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -93,6 +93,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
   result := df.View()
   result.allocateEmptyMaps()
   result.dataUID = df.dataUID
+  result.allocRows = df.NumAllocatedRows()
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
-- 
2.43.0


From 491567d07597e3249ba9034d735487a1e2d65807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 13/53] fix: BoolToFloats left the bool column next to the
 float column

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 04aa35c..8390a5a 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -472,7 +472,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 0651e5fcf31e5dc7f56e68f2aabdb918ca9292ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 14/53] fix: allocating a column kept the column of the same
 name and another type

---
 dataframe/raw_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 8390a5a..32e1e8a 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -292,6 +292,7 @@ func (data *RawData) AllocInts(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they may be of another type
   for _, col := range columns {
     data.ints[col] = make([]int, nRows)
   }
@@ -303,6 +304,7 @@ func (data *RawData) AllocFloats(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they may be of another type
   for _, col := range columns {
     data.floats[col] = make([]float64, nRows)
   }
@@ -314,6 +316,7 @@ func (data *RawData) AllocBools(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they may be of another type
   for _, col := range columns {
     data.bools[col] = make([]bool, nRows)
   }
@@ -325,6 +328,7 @@ func (data *RawData) AllocObjects(columns ...string) {
     data.reallocateMaps()
   }
   nRows := data.NumAllocatedRows()
+  data.Drop(columns...)  // they may be of another type
   for _, col := range columns {
     data.objects[col] = make([]interface{}, nRows)
   }
-- 
2.43.0


From ee61f197e59ea96672dc7ca808d194d9fa87835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 15/53] fix: RowConcat ignored the columns that the first
 dataframe does not have

---
 dataframe/concat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..6dce7b2 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -37,6 +37,10 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   offset := 0
   for k, df := range dfs {
     result.stringHeader = result.stringHeader.And(df.stringHeader)
+    if df.NumColumns() != result.NumColumns() {
+      return nil, fmt.Errorf("%dth dataframe has %d columns instead of %d",
+                             k, df.NumColumns(), result.NumColumns())
+    }
     // TODO: optimize this when !df.indexViewed
     for col, vals := range result.floats {
       if from, ok := df.floats[col]; ok {
-- 
2.43.0


From eb1ec3e8e9e50721d4e334e663ebc8d9399f0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 16/53] fix: column concatenations of no dataframes panicked

---
 dataframe/concat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 6dce7b2..0c68f18 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -111,6 +111,9 @@ func ColumnSmartConcat(dfs ...*DataFrame) (*DataFrame, error) {
 // so changing the input dataframes will also change the returned dataframe.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnConcatView requires at least one dataframe")
+  }
   err := CheckNoColumnOverlap(dfs)
   if err != nil {
     return nil, err
@@ -163,6 +166,9 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
 // so the returned dataframe is safe to change.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnCopyConcat(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnCopyConcat requires at least one dataframe")
+  }
   // check the number of rows match
   ref := dfs[0].NumRows()
   for _, df := range dfs[1:] {
-- 
2.43.0


From d835c90dec68e70a566ea494e49de50e5a5f84c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 17/53] fix: ColumnConcatView paired dataframes of different
 row counts or indices

---
 dataframe/concat.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 0c68f18..4e27f2e 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -126,16 +125,23 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
-  if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
-    for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+  ref := dfs[0].indices
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(ref) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             len(ref), len(df.indices))
+    }
+    if views {
+      for j, i := range df.indices {
+        if i != ref[j] {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+        }
       }
     }
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
-- 
2.43.0


From ad4060c625a2a260f1ecfd80f76c76938221ad7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 18/53] fix: column concatenations lost the string marking of
 columns

---
 dataframe/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 4e27f2e..1d441e9 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -159,7 +159,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From 56720d686dfde8cc9115ea7d07a482effcf0cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 19/53] fix: copies and concatenations lost the text encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 1d441e9..a811deb 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -20,6 +20,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 3d2d4ae..2d3b777 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -115,6 +115,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.mask = df.mask
   result.indexViewed = df.indexViewed
   result.allocRows = df.NumAllocatedRows()
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.debugPrint("ShallowCopy() returns")
 
@@ -130,6 +131,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result := EmptyDataFrame(len(df.indices), df.maxCPU)
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
+  result.textEncoding = df.textEncoding
   result.stringHeader = df.stringHeader.Copy()
 
   if df.indexViewed {
-- 
2.43.0


From 3cf8563132a556883f89d66ede98ff17796d3790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 20/53] fix: MergeRawDataRows lost the string marking, encoding
 and CPU limit

---
 dataframe/raw_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 32e1e8a..9f2a2ce 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -405,6 +405,11 @@ func MergeRawDataRows(list []*RawData) *RawData {
   if len(list) == 0 {
     return result
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
+  for _, data := range list {
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
+  }
   // pre-allocate the rows to avoid new allocations by append(arr, ...values)
   size := 0
   for _, data := range list {
-- 
2.43.0


From 9fa6a7e68ee2c8827c9e30fe6f8dd10a54698d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:04 +0000
Subject: [PATCH 21/53] fix: transferring a column kept the column of the same
 name and another type

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 9f2a2ce..6316ec9 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -359,6 +359,9 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
   } else {
     data.dataUID |= from.dataUID
   }
+  if data != from {
+    data.Drop(from.Header().NameList()...)  // they may be of another type
+  }
   for col, vals := range from.bools {
     data.bools[col] = vals
     data.shared.add(col)
-- 
2.43.0


From 60344dc5503d863e50ea78913d3a2719ef45f53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 22/53] fix: EmptyDataFrame ignored that 0 or -1 means all the
 CPUs

---
 dataframe/dataframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 2d3b777..5169b5d 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,7 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
-- 
2.43.0


From 3d7670eb56a143fad046ede74cf38f81df193fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 23/53] fix: DenseMatrix panicked on empty dataframes and grew
 its buffer wrongly

---
 dataframe/dense_gonum_batching.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..04ed9fe 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,10 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  if dim * nRows == 0 {
+    return (&mat.Dense{}).T()  // gonum refuses to allocate empty matrices
+  }
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From abe75024dc1ce70246c3a49f179a54e5a0a071f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 24/53] fix: PrintRecords used column names as format strings

---
 dataframe/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..77f80b8 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
-- 
2.43.0


From a6c862ea4c52f3ef1dbc1f3526b10561374a68b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 25/53] fix: GoodShortNames gave a column the full name of
 another one

---
 dataframe/print.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index 77f80b8..a4af4e2 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -182,10 +182,12 @@ func (df *DataFrame) GoodShortNames(minLength int) map[string]string {
     minLength = 3
   }
   invResult := make(map[string]string)
-  for col := range df.Header().NameSet() {
+  names := df.Header().NameSet()
+  for col := range names {
     for length := minLength; length <= len(col); length++ {
       candidate := col[:length]
-      if _, existing := invResult[candidate]; !existing {
+      // full names are reserved to the columns that bear them
+      if _, existing := invResult[candidate]; !existing && (candidate == col || !names[candidate]) {
         invResult[candidate] = col
         break
       }
-- 
2.43.0


From 975610e7a3eb1009d400b0e3780ceefed56a04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 26/53] fix: VecDense panicked on empty dataframes

---
 dataframe/column_access.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataframe/column_access.go b/dataframe/column_access.go
index d2b6337..321ebcb 100644
--- a/dataframe/column_access.go
+++ b/dataframe/column_access.go
@@ -122,6 +122,9 @@ func (access ColumnAccess) SharedIndex(localIndex int) int {
 // It always copies the data, so you can change the returned VecDense without
 // changing the dataframe.
 func (access FloatAccess) VecDenseCopy() *mat.VecDense {
+  if len(access.indices) == 0 {
+    return new(mat.VecDense)  // gonum refuses to allocate empty vectors
+  }
   data := make([]float64, len(access.indices))
   for j, i := range access.indices {
     data[j] = access.rawData[i]
@@ -135,7 +138,7 @@ func (access FloatAccess) VecDenseCopy() *mat.VecDense {
 // Use this function if you are not going to change the returned VecDense and
 // want to avoid an unnecessary copy.
 func (access FloatAccess) VecDense() *mat.VecDense {
-  if access.contiguous {
+  if access.contiguous && len(access.rawData) > 0 {
     return mat.NewVecDense(len(access.rawData), access.rawData)
   }
   return access.VecDenseCopy()
-- 
2.43.0


From c9ba1bd9798798270dacaa6ccee11eaec7d26dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 27/53] fix: Encode converted repeated rows twice and did not
 restore all the strings on error

---
 dataframe/inplace.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 9d815f2..fb1f79d 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,10 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+// convertEncoding returns the converted values without changing the column.
+func convertEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
+                     encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +16,20 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
-      // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -50,27 +51,21 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
     encoder = newEncoding.NewEncoder()
   }
   colNames := df.stringHeader.NameList()
+  // convert everything before writing anything because rows can be repeated and
+  // because converting back doesn't always yield the original strings
+  converted := make([][]interface{}, len(colNames))
   for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+    values, err := convertEncoding(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    converted[i] = values
+  }
+  for i, col := range colNames {
+    values := df.objects[col]
+    for j, k := range df.indices {
+      values[k] = converted[i][j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From 6e2a3376732c153477bdae951fced1220a23fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 28/53] fix: columns with an empty name blocked the worker
 pools

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 8 +++-----
 6 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..c0c4de6 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index 590ac3e..26be4f8 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -336,7 +336,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..c2e1f3d 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -58,12 +58,10 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns the next key, and false if there is no more key.
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From cbe56f0068d3b5a41bc64d2b79d02b0898db0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 29/53] fix: BoolAsFloat and BinaryAsFloat did not convert the
 columns to floats

---
 dataframe/csv_parsing.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index c0c4de6..bf14e76 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -134,10 +134,19 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
-      data.bools[colName] = toBool(records, col)
+    if isBool(records, col) {
+      values := toBool(records, col)
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        floats := make([]float64, len(values))
+        for row, v := range values {
+          if v {
+            floats[row] = 1.0
+          }
+        }
+        data.floats[colName] = floats
+      } else {
+        data.bools[colName] = values
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From 2beb9d9a618d963e18578f848d7420fedf25d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 30/53] fix: CSV headers longer than the records crashed the
 reader

---
 dataframe/csv_parsing.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index bf14e76..234fb30 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "fmt"
   "runtime"
   "encoding/csv"
   "math"
@@ -218,6 +219,10 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, fmt.Errorf("the records have %d fields but the header has %d columns",
+                           len(records[0]), len(header))
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From 4857a9a2aea1c335d780f9844b2770fb8c4e3932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 31/53] fix: reading fewer files than CPUs could block for want
 of workers

---
 dataframe/csv_parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 234fb30..a1beedc 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -306,7 +306,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
-- 
2.43.0


From 94501cf0a048b7268247a038fbfbcd88a766c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 32/53] fix: data read from several files did not inherit from
 MaxCPU

---
 dataframe/csv_parsing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index a1beedc..e68d836 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -305,6 +305,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if cpuPerFile == 0 {
     cpuPerFile = 1
   }
+  maxCPU := options.MaxCPU
   options.MaxCPU = cpuPerFile
   maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
@@ -319,7 +320,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(maxCPU)
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-- 
2.43.0


From 109f08754802d64c547fea580eb0076af0cb04bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 33/53] fix: writing a view in any order wrote its first row
 over and over

---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From e7b2428df454ad83d30c94fc98db7bbc1e72c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 34/53] fix: write errors were ignored when the dataframe has
 no rows

---
 dataframe/csv_writing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..b9c6abd 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()  // only useful when there are no rows
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 772c95f857f6af1a02610b79bfb08ac387a93649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:47 +0000
Subject: [PATCH 35/53] fix: files without rows spoiled the data read from the
 other files

---
 dataframe/csv_parsing.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index e68d836..2f7aa66 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -312,12 +312,21 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
   }
-  data := make([]*RawData, len(paths))
-  for i, result := range fileQ.Results() {
+  data := make([]*RawData, 0, len(paths))
+  var empty *RawData
+  for _, result := range fileQ.Results() {
     if result.Error != nil {
       return nil, result.Error
     }
-    data[i] = result.Result.(*RawData)
+    part := result.Result.(*RawData)
+    if part.NumAllocatedRows() == 0 {
+      empty = part  // it has no values to infer the types from
+    } else {
+      data = append(data, part)
+    }
+  }
+  if len(data) == 0 {
+    data = append(data, empty)
   }
   // concatenate everything
   result := MergeRawDataRows(data)
-- 
2.43.0


From 587346fe7affaf154949532c90dacc8cdbf8eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 36/53] fix: min-max scaling divides by the range of the column
 instead of multiplying by it

---
 preprocessing/scaler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..343bff6 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -55,7 +55,10 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
         }
       }
       shift := -min
-      scale := max - min
+      scale := 1.0
+      if max > min {
+        scale = 1 / (max - min)
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From c048aabd0773421bc6a81c3827916c2de775f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 37/53] fix: scaling in place transforms the rows that a view
 repeats only once

---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 343bff6..e5e5c32 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -126,8 +126,13 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
-    for i := 0; i < access.Size(); i++ {
-      access.Set(i, (access.Get(i) + shift) * scale)
+    // compute everything first because views can repeat rows
+    values := make([]float64, access.Size())
+    for i := range values {
+      values[i] = (access.Get(i) + shift) * scale
+    }
+    for i, val := range values {
+      access.Set(i, val)
     }
   }
 }
-- 
2.43.0


From 4f37a82df59010a97014b703cdcc8923fd7f7dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 38/53] fix: scaling does not blow up the rounding error of a
 constant column's mean

---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index e5e5c32..23380ca 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -79,14 +79,19 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
       }
       if opt.Scaling {
         squaresum := 0.0
+        min := math.Inf(1)
+        max := math.Inf(-1)
         for i := 0; i < access.Size(); i++ {
           val := access.Get(i)
           if !math.IsNaN(val) {
             squaresum += (val - mean) * (val - mean)
+            min = math.Min(min, val)
+            max = math.Max(max, val)
           }
         }
-        if squaresum == 0 {
-          squaresum += 1
+        // the mean of a constant column is not always exact
+        if squaresum == 0 || min == max {
+          squaresum = 1
           n++
         }
         scale := math.Sqrt(float64(n) / squaresum)
-- 
2.43.0


From 29cd900029bde8dbb3c42312f7eba25b42cdb983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 39/53] fix: FitTransform does not use the components that its
 options left out

---
 preprocessing/auto_preprocessor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..c42d5ab 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -130,8 +130,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   start := time.Now()
   df = df.View()
   df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if opt.Imputing {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if opt.Scaling {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
-- 
2.43.0


From c763e9b730114c30f612a3d391830f059e5cacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 40/53] fix: the automatic preprocessor leaves excluded floats
 alone when there is no other float

---
 preprocessing/auto_preprocessor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index c42d5ab..8170302 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -67,6 +67,11 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
+  if len(floatCols) == 0 {
+    // to ColumnView() and Unshare(), no column at all means every column
+    opt.Imputing = false
+    opt.Scaling = false
+  }
   if opt.Imputing || opt.Scaling {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
@@ -124,11 +129,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
     if err != nil {
       return nil, err
     }
-  } else if !opt.Imputing && !opt.Scaling {
+  }
+  df = df.View()
+  if !opt.Imputing && !opt.Scaling {
     return df, nil
   }
   start := time.Now()
-  df = df.View()
   df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
   if opt.Imputing {
     preproc.Imputer.TransformInplace(df)
@@ -153,6 +159,8 @@ func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*datafr
     df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
   } else if preproc.Scaler != nil {
     df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+  } else {
+    df = df.View()
   }
   // transformations
   if preproc.Imputer != nil {
-- 
2.43.0


From 7da9ab79a6a70718b6ab5942320772ee6e8bd6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 41/53] fix: the automatic preprocessor does not encode the
 categorical columns that are excluded

---
 preprocessing/auto_preprocessor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 8170302..6db7cc2 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -90,10 +90,10 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  if strCols := df.StringHeader().Except(opt.Exclude...).NameList(); len(strCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(strCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -104,7 +104,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
-- 
2.43.0


From c8e526605004d4f0584b58e5ed5fd116798a543c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 42/53] fix: the automatic preprocessor reports its transformed
 columns whatever its options

---
 preprocessing/auto_preprocessor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 6db7cc2..438be1b 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,16 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string
+  if preproc.Imputer != nil {
+    cols = preproc.Imputer.TransformedColumns()  // can be safely changed
+  } else if preproc.Scaler != nil {
+    cols = preproc.Scaler.TransformedColumns()  // can be safely changed
+  }
+  if preproc.IntToBool != nil {
+    // includes the columns of StringToInt
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
-- 
2.43.0


From 7f76accfcefc250b4e63d090da81f8484eef3b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 43/53] fix: fitting the automatic preprocessor again forgets
 the previous training

---
 preprocessing/auto_preprocessor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 438be1b..c7f5111 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -74,6 +74,11 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // forget the previous training
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
   if len(floatCols) == 0 {
     // to ColumnView() and Unshare(), no column at all means every column
-- 
2.43.0


From 8f756d30040c797aab4d5453b8e7aaeab28ca670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 44/53] fix: predicting on a dataframe without rows does not
 panic

---
 algorithms/linear_regression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..edbdb5e 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -161,6 +161,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
+    if len(yData) == 0 {
+      continue // gonum refuses to allocate empty vectors
+    }
     yVec := mat.NewVecDense(len(yData), yData)
     yVec.MulVec(rows, weights)
   }
-- 
2.43.0


From c92f2dc6c4ca5598489117964834f97e6be7eb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 45/53] fix: predicting neither alters nor loses a column of
 the dataframe called _target or like the result

---
 algorithms/linear_regression.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index edbdb5e..f05d895 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -168,11 +168,14 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
-  // write the result in the dataframe
+  // reverse the scaling away from df, which may have a column named _target
+  builder := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
+  reg.TargetScaler.InverseTransformInplace(builder.SetFloats("_target", pred).ToDataFrame())
+
+  // write the result in a new column
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.Drop(resultColumn)
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From 8173691b0c27bc34bbc7b1b74a56124e72f8eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 46/53] fix: a regressor can be trained on a feature called
 _target

---
 algorithms/linear_regression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index f05d895..f8b35b7 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -62,12 +62,12 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   // copy the target to another column before scaling it in-place
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(targetColumn) // shares its data with df
+  targetDF.Rename(targetColumn, "_target")
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
-  reg.TargetScaler.TransformInplace(df)
+  reg.TargetScaler.TransformInplace(targetDF)
   if params.Verbose {
     log.Printf("training+running Target Scaler took: %s", time.Since(start))
   }
@@ -105,7 +105,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(targetColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0


From 80efc12c9b24903897cadad4b3084dc4433fd5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 47/53] fix: the training parameters left to 0 get a default
 value

---
 algorithms/linear_regression.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index f8b35b7..5967dfb 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -55,6 +55,16 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  // default values
+  if params.Epochs == 0 {
+    params.Epochs = 1
+  }
+  if params.LR == 0 {
+    params.LR = 0.0001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From e89b724b0fef5018e6e21566be7c73b6fb74a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 48/53] fix: larger index views do not write to memory shared
 with other views

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 26be4f8..fc995a9 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -31,7 +31,7 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
     // we extend the mask slice because it's smaller than NumRows
     // (a rare case)
     diff := len(indices) - len(df.indices)
-    result.mask = append(result.mask, make([]bool, diff)...)
+    result.mask = append(result.mask[:len(result.mask):len(result.mask)], make([]bool, diff)...)
   }
   result.indexViewed = true
 
-- 
2.43.0


From fe8c1400c7125ffb0cb7a5ba2808a646eb339a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 49/53] fix: GroupIndexer.Initialize starts over when the
 indexer is reused

---
 utils/group_indexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 71c0a09..fda8dc8 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -29,6 +29,8 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
     indexer.groupSize++
   }
   indexer.end = nElements
+  indexer.elementIdx = 0
+  indexer.groupIdx = 0
 }
 
 func (indexer GroupIndexer) HasNext() bool {
-- 
2.43.0


From 7a0569f79e27102b50a990775caee5d69eabd77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 50/53] fix: GroupIndexer accepts zero elements

---
 utils/group_indexer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index fda8dc8..7656a06 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -24,13 +24,16 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
     nGroups = nElements
   }
   indexer.NGroups = nGroups
+  indexer.end = nElements
+  indexer.elementIdx = 0
+  indexer.groupIdx = 0
+  if nElements == 0 {
+    return  // nothing to divide
+  }
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
   }
-  indexer.end = nElements
-  indexer.elementIdx = 0
-  indexer.groupIdx = 0
 }
 
 func (indexer GroupIndexer) HasNext() bool {
-- 
2.43.0


From 007ca632b8bac4d20afd49c24dc8c398134befbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:57 +0000
Subject: [PATCH 51/53] fix: TopView rejects a column that is not float, int or
 bool, also when it returns every row unsorted

---
 dataframe/view.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index fc995a9..2f21de0 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -297,6 +297,9 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 // Missing values in integer columns will be treated as '-1'.
 // If called on a bool column, false will be treated as lower than true.
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
+  if !df.FloatHeader().And(df.IntHeader(), df.BoolHeader()).NameSet()[byColumn] {
+    panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
+  }
   if n >= len(df.indices) {
     if !sorted {
       return df.View()
-- 
2.43.0


From eff0cceb99ab0e1bde3df1e4e90d157cfe2b969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 52/53] fix: MakeRange panics if the interval does not divide
 the range

---
 utils/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 4148de0..f265504 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -8,7 +8,8 @@ import (
 )
 
 func MakeRange(from int, to int, interval int) []int {
-  result := make([]int, (to - from) / interval)
+  // rounded up: the last interval may be cut short by the end
+  result := make([]int, (to - from + interval - 1) / interval)
   for n, j := from, 0; n < to; n, j = n + interval, j+1 {
     result[j] = n
   }
-- 
2.43.0


From 624404183052e474b97a1cfab5d8887ddb70e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:36 +0000
Subject: [PATCH 53/53] fix: float assertions accept anything when one side is
 NaN and report false for slices they accept

---
 utils/asserts.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 1bd4239..7316ce5 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+  "math"
   "testing"
   "reflect"
 )
@@ -38,7 +39,10 @@ func AssertIntNotEquals(name string, actual int, notExpected int, t *testing.T)
 }
 
 func AssertFloatEquals(name string, actual float64, expected float64, t *testing.T) bool {
-  if actual < expected-0.01 || actual > expected+0.01 {
+  if actual == expected || (math.IsNaN(actual) && math.IsNaN(expected)) {
+    return true  // infinite values and NaN have no neighbours
+  }
+  if !(math.Abs(actual - expected) <= 0.01) {
     t.Errorf("%s = %.4f; expected: %.4f", name, actual, expected)
     return false
   }
@@ -104,12 +108,15 @@ func AssertFloatSliceEquals(name string, actual []float64, expected []float64, t
   if !reflect.DeepEqual(actual, expected) {
     if len(actual) != len(expected) {
       t.Errorf("%s = %v; expected: %v", name, actual, expected)
-    } else {
-        for i, v := range actual {
-          AssertFloatEquals(name, v, expected[i], t)
-        }
+      return false
     }
-    return false
+    equal := true
+    for i, v := range actual {
+      if !AssertFloatEquals(name, v, expected[i], t) {
+        equal = false
+      }
+    }
+    return equal
   }
   return true
 }
-- 
2.43.0

