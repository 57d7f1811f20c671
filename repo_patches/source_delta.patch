From 9584ac20426b05886d8a37a8d2154042c23f6bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 01/51] fix: changing the string columns of a view no longer
 alters its parent's

reallocateMaps gave the view its own maps but left it with the parent's
string header, so Rename/AllocStrings/OverwriteStrings on a view re-tagged
the parent's columns.
---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..5e4a92a 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -482,6 +482,7 @@ func (data *RawData) reallocateMaps() {
   data.floats = tmp.floats
   data.objects = tmp.objects
   data.shared = tmp.shared  // all columns
+  data.stringHeader = tmp.stringHeader  // not shared with the parent anymore
   data.sharedMaps = false
 }
 
-- 
2.43.0


From 4c8d2a121a12abfc4247eec68ba0ad3779e64c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 02/51] fix: Drop on a view no longer drops the columns of its
 parent

---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 5e4a92a..3412ab3 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
-- 
2.43.0


From 3f66a5020946c765a443aeeb6960d55600613285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 03/51] fix: ColumnView no longer writes to the parent's list
 of shared columns

It marked the selected columns as shared in the parent's own header, so the
parent's Unshare copied data it owned and broke the link with its views, and
concurrent ColumnViews raced on the map.
---
 dataframe/view.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..0fe2519 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -93,6 +93,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
   }
   result := df.View()
   result.allocateEmptyMaps()
+  result.shared = ColumnHeader{}  // the parent's header must not be changed
   result.dataUID = df.dataUID
 
   // set of column to select
-- 
2.43.0


From 18aff29d605a7576f71e7341a9dd2670b8079d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 04/51] fix: BoolToFloats removes the boolean column it
 converts

It deleted the name from the int columns instead, leaving the column with two
types.
---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 3412ab3..8567b26 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -462,7 +462,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From f1e5ed5940505b152e25103c741c2ff1283a5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 05/51] fix: columns can be added to a dataframe that has rows
 but no columns

EmptyDataFrame(n, cpu) followed by OverwriteFloats64 or AllocFloats panicked
(or allocated no row), since the number of rows to allocate was only ever
read off an existing column.
---
 dataframe/dataframe.go | 1 +
 dataframe/inplace.go   | 1 +
 dataframe/raw_data.go  | 7 ++++++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..41d8e63 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -32,6 +32,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   // stringHeader is not pre-allocated
 
   if nRows > 0 {
+    result.emptyRows = nRows
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
   }
diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..55d7f8e 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -221,6 +221,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.emptyRows = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 8567b26..6dcbea3 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -35,6 +35,8 @@ type RawData struct {
   dataUID uint64
   // whether an object is a string or not
   stringHeader ColumnHeader
+  // number of rows to allocate for a new column when there is no column yet
+  emptyRows int
   // later we'll switch to:
   // special types of []interface{}. strings: 1
   // objectColTypes map[string]ObjectType
@@ -98,7 +100,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.emptyRows
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -232,6 +234,7 @@ func (data *RawData) Drop(columns ...string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  data.emptyRows = data.NumAllocatedRows()  // in case no column is left
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -342,6 +345,7 @@ func (data *RawData) TransferRawDataFrom(from *RawData) {
   }
   if data.NumColumns() == 0 {
     data.dataUID = from.dataUID
+    data.emptyRows = from.NumAllocatedRows()
   } else {
     data.dataUID |= from.dataUID
   }
@@ -490,6 +494,7 @@ func (data *RawData) reallocateMaps() {
 }
 
 func (data *RawData) allocateEmptyMaps() {
+  data.emptyRows = data.NumAllocatedRows()
   data.floats = make(map[string][]float64)
   data.objects = make(map[string][]interface{})
   data.bools = make(map[string][]bool)
-- 
2.43.0


From 78f5b55e9f75ba25a7b3c4e3c7f4f09954aea476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 06/51] fix: SliceView with from > to returns the rows of the
 slice

The dataframe was reversed before it was cut, so the rows were those at the
mirrored position: SliceView(6, 2) on rows 0..9 gave rows 7, 6, 5, 4, which
are not between 2 and 6.
---
 dataframe/view.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 0fe2519..25d8eea 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -51,12 +51,9 @@ func (df *DataFrame) SliceView(from int, to int) *DataFrame {
     to += len(df.indices) + 1
   }
   if from > to {
-    to, from = from, to
-    df = df.ReverseView()
+    return df.View().cut(to, from).ReverseView()
   }
-  result := df.View().cut(from, to)
-
-  return result
+  return df.View().cut(from, to)
 }
 
 // MaskView builds a view by masking some rows of the dataframe.
-- 
2.43.0


From cc1a50df4c994e8ffe6b8ae57ee26cae103f9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 07/51] fix: Rename keeps exactly one column of the new name

Renaming a column to its own name deleted it. Renaming it to the name of a
column of another type left two columns of that name, and renaming an object
column to the name of a string column left it tagged as string.
---
 dataframe/raw_data.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 6dcbea3..7ac3e84 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -254,22 +254,25 @@ func (data *RawData) Rename(oldName string, newName string) {
   if data.sharedMaps {
     data.reallocateMaps()
   }
+  if oldName != newName && data.Header().contains(oldName) {
+    data.Drop(newName)  // the new column replaces it, whatever its type
+  }
   if vals, ok := data.floats[oldName]; ok {
-    data.floats[newName] = vals
     delete(data.floats, oldName)
+    data.floats[newName] = vals
   } else if vals, ok := data.objects[oldName]; ok {
-    data.objects[newName] = vals
     delete(data.objects, oldName)
+    data.objects[newName] = vals
     if data.stringHeader.contains(oldName) {
       data.stringHeader.remove(oldName)
       data.stringHeader.add(newName)
     }
   } else if vals, ok := data.ints[oldName]; ok {
-    data.ints[newName] = vals
     delete(data.ints, oldName)
+    data.ints[newName] = vals
   } else if vals, ok := data.bools[oldName]; ok {
-    data.bools[newName] = vals
     delete(data.bools, oldName)
+    data.bools[newName] = vals
   } else {
     panic(fmt.Sprintf("%s is not a column", oldName))
   }
-- 
2.43.0


From 1343545a0afc34ff006e52978a9a1a3899e17456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 08/51] fix: RowConcat returns an error if a dataframe has
 additional columns

Only the columns missing from the 2nd, 3rd... dataframes were detected. Extra
columns were silently discarded, and extra string columns were still listed in
the string header of the result, which made the result unusable.
---
 dataframe/concat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..f1e6234 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -38,6 +38,10 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   for k, df := range dfs {
     result.stringHeader = result.stringHeader.And(df.stringHeader)
     // TODO: optimize this when !df.indexViewed
+    if df.NumColumns() != result.NumColumns() {
+      return nil, fmt.Errorf("%dth dataframe has %d columns. Expected: %d",
+                             k, df.NumColumns(), result.NumColumns())
+    }
     for col, vals := range result.floats {
       if from, ok := df.floats[col]; ok {
         for j, i := range df.indices {
-- 
2.43.0


From c1e3fbe0e3e9114b0a43b07dfa2c4054551c7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 09/51] fix: ColumnConcatView no longer misaligns rows

Indices were compared through a hash that collides easily, e.g. [0, 7] and
[1, 0], in which case the rows of one dataframe were attached to the wrong
rows of the other. Dataframes of different sizes were not rejected unless one
of them was a row view.
---
 dataframe/concat.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f1e6234..ff89a63 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -123,11 +122,18 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       break
     }
   }
+  for _, df := range dfs[1:] {
+    if df.NumRows() != dfs[0].NumRows() {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             dfs[0].NumRows(), df.NumRows())
+    }
+  }
   if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
     for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+      for j, index := range df.indices {
+        if index != dfs[0].indices[j] {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+        }
       }
     }
   }
-- 
2.43.0


From fe668e56357b711678c7bbf65ee3f1039d3df7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 10/51] fix: column concatenation keeps the string columns

The string header of the 2nd, 3rd... dataframes was lost if the first
dataframe had no string column.
---
 dataframe/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index ff89a63..b0f86d4 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -156,7 +156,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From 6558444458d1aed20f205870adc6ae7fcf1a20e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 11/51] fix: a column concatenation of views is a view

If the first dataframe was contiguous but not the others, the result was
considered contiguous: Copy and VecDense then ignored its indices.
---
 dataframe/concat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index b0f86d4..a76357b 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -139,6 +139,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
-- 
2.43.0


From c3814070cb0f9b574692d3bfce6b547a3e0e8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 12/51] fix: copies and concatenations keep the text encoding

Copy, ShallowCopy, RowConcat and the column concatenations returned a
dataframe that claimed to be UTF8-encoded, whatever its strings were encoded
in. Encoding it later corrupted the strings.
---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index a76357b..b6fb51d 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -20,6 +20,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 41d8e63..0759960 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -110,6 +110,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   df.debugPrint("shallow-copying")
   result := EmptyDataFrame(-1, df.maxCPU)
   result.debug = df.debug
+  result.textEncoding = df.textEncoding
   result.mThreadSafe = df.mThreadSafe
   result.indices = df.indices
   result.mask = df.mask
@@ -130,6 +131,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From ee279dc7a47dce7240aa083031ab344dc2ff21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 13/51] fix: SplitNView always returns n dataframes that have
 the columns of df

An empty dataframe was split into a single part, which made ToCSVs panic, and
the parts added to get to n had no columns and no text encoding, so that
ToCSVs wrote files without header.
---
 dataframe/view.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 25d8eea..f3dcb84 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -168,23 +168,22 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
+  if n == 1 {
     return []*DataFrame{df.View()}
   }
   // batchSize for the first n-1 batches
   nRows := df.NumRows()
   batchSize := nRows / n
-  if nRows % n != 0 {
+  if nRows % n != 0 || nRows == 0 {
     batchSize++
   }
   result := df.SplitView(batchSize)
   missing := n - len(result)
   if missing > 0 {  // expected to happen when batchSize = 1
     // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
     emptyDFs := make([]*DataFrame, missing)
     for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
+      emptyDFs[i] = df.View().cut(nRows, nRows)
     }
     result = append(result, emptyDFs...)
   }
-- 
2.43.0


From 7716968bd80e667dea4ff9df860e2f0bb4998a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 14/51] fix: SortedView and TopView compare integers as
 integers

They were compared as float64, so integers above 2^53 (e.g. hashed strings)
were not sorted.
---
 dataframe/view.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index f3dcb84..fcbd166 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -258,20 +258,19 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
       }
     }
     indices = append(first, last...)
-  } else {
+  } else if vals, ok := df.ints[byColumn]; ok {
+    indices = utils.MakeRange(0, len(df.indices), 1)
+    sort.Slice(indices, func(a, b int) bool {
+      return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+    })
+  } else if vals, ok := df.floats[byColumn]; ok {
     cpy := make([]float64, len(df.indices))
-    if vals, ok := df.floats[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = vals[i]
-      }
-    } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
-    } else {
-      panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
+    for j, i := range df.indices {
+      cpy[j] = vals[i]
     }
     indices = utils.FloatArgSort(cpy, false) // readonly=false: ok to change cpy
+  } else {
+    panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
   }
   return df.IndexView(indices)
 }
-- 
2.43.0


From cc4c18bf0a5c91a901eb8622c34fa92f3c358278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 15/51] fix: missing values no longer disturb the order of the
 other rows

FloatArgSort compared NaNs with <, which is not an order: SortedView and
TopView returned unsorted rows as soon as the column had missing values.
---
 utils/utils.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index aa8c630..d2725d8 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -3,7 +3,8 @@
 package utils
 
 import (
-  "gonum.org/v1/gonum/floats"
+  "math"
+  "sort"
 )
 
 func MakeRange(from int, to int, interval int) []int {
@@ -15,16 +16,12 @@ func MakeRange(from int, to int, interval int) []int {
 }
 
 func FloatArgSort(values []float64, readonly bool) []int {
-  // unlike gonum, this doesn't change the input vector
-  // TODO: find a better way than using gonum
-  if readonly {
-    cpy := make([]float64, len(values))
-    copy(cpy, values)
-    values = cpy
-  }
-  inds := make([]int, len(values))
-  floats.Argsort(values, inds)
-
+  // missing values come last
+  inds := MakeRange(0, len(values), 1)
+  sort.Slice(inds, func(i, j int) bool {
+    a, b := values[inds[i]], values[inds[j]]
+    return a < b || (math.IsNaN(b) && !math.IsNaN(a))
+  })
   return inds
 }
 
-- 
2.43.0


From c72f4b1fe2c69ddb4b5c2e65ae4c76d02706b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 16/51] fix: TopView returns a view even if n exceeds the
 number of rows

It returned the dataframe itself, so renaming or dropping columns of the
result changed the original.
---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index fcbd166..a8b978b 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -289,7 +289,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From eadbfcef5c41ca7f1716eaaf3fd22974ca133f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 17/51] fix: Encode converts each string once and leaves
 nothing behind on error

If a row was repeated in the view, its strings were encoded as many times.
On error, the strings already converted were converted back, which is lossy
if the data was not valid to start with (decoders replace invalid bytes).
---
 dataframe/inplace.go | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 55d7f8e..d62a9a6 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,9 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+func convertEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
+                     encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +15,20 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
-      // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -49,28 +49,21 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
   if newEncoding != nil {
     encoder = newEncoding.NewEncoder()
   }
+  // convert everything before changing anything, in case of an error
   colNames := df.stringHeader.NameList()
-  for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+  converted := make([][]interface{}, len(colNames))
+  for k, col := range colNames {
+    values, err := convertEncoding(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    converted[k] = values
+  }
+  for k, col := range colNames {
+    values := df.objects[col]
+    for j, i := range df.indices {
+      values[i] = converted[k][j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From fae947d04710c36482f584c2cd2aa410da8785bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:50 +0000
Subject: [PATCH 18/51] fix: MakeRange accepts an interval that does not divide
 the range

MakeRange(0, 5, 2) panicked.
---
 utils/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index d2725d8..7813e87 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -8,7 +8,7 @@ import (
 )
 
 func MakeRange(from int, to int, interval int) []int {
-  result := make([]int, (to - from) / interval)
+  result := make([]int, (to - from + interval - 1) / interval)
   for n, j := from, 0; n < to; n, j = n + interval, j+1 {
     result[j] = n
   }
-- 
2.43.0


From e03ebe72713fac2554906885e850b9977cfefc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 19/51] fix: views are written to CSV with their own rows

Unless MaintainOrder was set, the sorted copy of the indices was never
filled in: every line of the CSV was the first allocated row.
---
 dataframe/csv_writing.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..d665621 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -197,6 +197,7 @@ func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
     result.indices = make([]int, len(df.indices))
+    copy(result.indices, df.indices)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From 8bdad3209f6635c272cf74dfd3e44ffdb9633676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 20/51] fix: To1CSV reports a failure to write the header of an
 empty dataframe

The header was flushed by a deferred call whose error was ignored.
---
 dataframe/csv_writing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index d665621..618b639 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,9 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  // the header has yet to be flushed if there is no row
+  writer.Flush()
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
-- 
2.43.0


From 88ef3c304be53c4aba159b1da82bc32ed66fd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 21/51] fix: FromCSVFilePattern always starts at least one
 worker

With more than one CPU per file the number of workers was the number of
files divided by the number of CPUs per file, which is zero, e.g. for 2 files
and 8 CPUs: it waited forever for a result.
---
 dataframe/csv_parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..d2ae326 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -292,7 +292,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
-- 
2.43.0


From 007cafd0eba2d443e59a82ef84cf76cc10440baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 22/51] fix: a column without a name no longer blocks the
 workers

The workers took an empty name for the end of the queue, and the caller waited
forever for the remaining columns. CSV files with an unnamed first column are
common (pandas writes its index that way).
---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d2ae326..0ae27c2 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName := range q.Keys {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path := range q.Keys {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index a8b978b..85f8a5e 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -326,7 +326,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col := range columnQ.Keys {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..b84d8ad 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..4598e23 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol := range q.Keys {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..1155ce3 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col := range q.Keys {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
-- 
2.43.0


From cea066b442ff4d47498b5e6d259a6550ff0ec5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 23/51] fix: FromCSV returns an error if the given header has
 too many columns

It panicked in a worker, which the caller cannot recover from.
---
 dataframe/csv_parsing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 0ae27c2..2170fed 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -209,6 +209,9 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, csv.ErrFieldCount
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From f5cb07b972a1bda2b77806d5ce824624fc777c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 24/51] fix: BoolAsFloat and BinaryAsFloat convert to floats

With BoolAsFloat, 'true' and 'false' became strings, and '0' and '1' became
bools. With BinaryAsFloat, '0' and '1' became ints (unless IntAsFloat was set
as well), and 'true' and 'false' became strings. The documentation of the
options says that they are converted to 0.0 and 1.0.
---
 dataframe/csv_parsing.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 2170fed..7bb8938 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -134,10 +134,15 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName := range q.Keys {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
+    if isBool(records, col) {
+      asFloat := spec.BoolAsFloat
+      if spec.BinaryAsFloat && isBinary(records, col) {
+        asFloat = true
+      }
       data.bools[colName] = toBool(records, col)
+      if asFloat {
+        data.BoolToFloats(colName)
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From 2e4b4643b32388e30c2230e40644848398e3782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 25/51] fix: ActualMaxCPU is never zero or negative

EmptyDataFrame stores its argument as it is, and a RawData that was not
created by NewRawData has no limit. ActualMaxCPU returned 0 or -1, with which
the multi-threaded functions start no worker and wait forever, and ToCSVDir
panics.
---
 dataframe/raw_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 7ac3e84..fb2ba0a 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -172,6 +172,9 @@ func (data *RawData) SetMaxCPU(maxCPU int) {
 // number higher than the number of CPU cores on your machine, it will return
 // the number of CPU cores on your machine.
 func (data *RawData) ActualMaxCPU() int {
+  if nCPU := runtime.NumCPU(); data.maxCPU <= 0 || data.maxCPU > nCPU {
+    return nCPU
+  }
   return data.maxCPU
 }
 
-- 
2.43.0


From 14d9a56ad1ae014de4886bc80bfd20d66939591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 26/51] fix: MergeRawDataRows keeps the string columns, the
 encoding and maxCPU

The string columns of multiple CSV files became object columns, which are not
written back nor encoded, and the encoding of the strings was forgotten. A
file without rows, such as those ToCSVDir writes if there are few rows, has
columns of arbitrary types which made the merged data inconsistent.
---
 dataframe/csv_parsing.go |  4 +++-
 dataframe/raw_data.go    | 15 +++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 7bb8938..eb80212 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -313,7 +313,9 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(cpu)
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index fb2ba0a..da0fa89 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -401,6 +401,20 @@ func MergeRawDataRows(list []*RawData) *RawData {
   if len(list) == 0 {
     return result
   }
+  result.textEncoding = list[0].textEncoding
+  result.maxCPU = list[0].maxCPU
+  // the column types of an empty CSV are arbitrary: ignore them if possible
+  notEmpty := make([]*RawData, 0, len(list))
+  for _, data := range list {
+    if data.NumAllocatedRows() > 0 {
+      notEmpty = append(notEmpty, data)
+    }
+  }
+  if len(notEmpty) > 0 {
+    list = notEmpty
+  } else {
+    list = list[:1]
+  }
   // pre-allocate the rows to avoid new allocations by append(arr, ...values)
   size := 0
   for _, data := range list {
@@ -433,6 +447,7 @@ func MergeRawDataRows(list []*RawData) *RawData {
     for col, vals := range data.objects {
       result.objects[col] = append(result.objects[col], vals...)
     }
+    result.stringHeader = result.stringHeader.And(data.stringHeader)
   }
   return result
 }
-- 
2.43.0


From 0fa5e3cd5571e4fe410dc7f949851a9c6a8f068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:41 +0000
Subject: [PATCH 27/51] fix: HashStringsView works if all the columns are
 hashed

ColumnView without arguments returns all the columns, so the view kept the
string columns, and the hashes were added to the dataframe it is a view of.
---
 dataframe/view.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 85f8a5e..7684f14 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -359,8 +359,8 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
     return df.View()
   }
   // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
+  result := df.View()
+  result.Drop(columns...)
   nRows := df.NumAllocatedRows()
   for _, colName := range columns {
     result.ints[colName] = make([]int, nRows)
-- 
2.43.0


From d078d9c1bdbf487b1d138c5cddb1f0599ca0b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 28/51] fix: DenseMatrix allocates enough memory for a larger
 dataframe

The number of missing elements was computed as dim * (nRows - len(data)),
though len(data) is a number of elements, not of rows. DenseMatrix panicked
if the second dataframe is larger than the first one, but has fewer rows than
the first one has elements.
---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From 11ed2981f23bd53a0d08838c27ed3b9e14da2bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:34 +0000
Subject: [PATCH 29/51] fix: PrintRecords prints the column names as they are

They were used as a format, so that '%' in a column name garbled the line.
---
 dataframe/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index e14dd9e..77f80b8 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -150,9 +150,9 @@ func (df *DataFrame) PrintRecords(n int, floatFormat string, shorthands map[stri
       // print the column name
       fmt.Printf(" ")
       if shorthand, defined := shorthands[colName]; defined {
-        fmt.Printf(shorthand)
+        fmt.Print(shorthand)
       } else {
-        fmt.Printf(colName)
+        fmt.Print(colName)
       }
       fmt.Printf(":")
       // print the value
-- 
2.43.0


From 1419c7ba5b46637e8c5b570714cda55281d5fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 30/51] fix: GoodShortNames never shortens a name to that of
 another column

'abcd' could be shortened to 'abc' even if there is a column 'abc', which is
printed under its own name.
---
 dataframe/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataframe/print.go b/dataframe/print.go
index 77f80b8..9658b0f 100644
--- a/dataframe/print.go
+++ b/dataframe/print.go
@@ -182,9 +182,13 @@ func (df *DataFrame) GoodShortNames(minLength int) map[string]string {
     minLength = 3
   }
   invResult := make(map[string]string)
-  for col := range df.Header().NameSet() {
+  names := df.Header().NameSet()
+  for col := range names {
     for length := minLength; length <= len(col); length++ {
       candidate := col[:length]
+      if candidate != col && names[candidate] {
+        continue  // this is the name of another column
+      }
       if _, existing := invResult[candidate]; !existing {
         invResult[candidate] = col
         break
-- 
2.43.0


From 2d76dc407bc56d4f6e72bd9f32172972e61080d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 31/51] fix: columns can be added to a dataframe made of a
 RawData without columns

If all the columns of a RawData were dropped, ToDataFrame returned a dataframe
with rows, in which new columns were allocated without any row.
---
 dataframe/raw_data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index da0fa89..3187438 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -141,6 +141,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.stringHeader = data.stringHeader
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
+  result.emptyRows = nRows
   result.dataUID = data.dataUID
   result.textEncoding = data.textEncoding
   result.resetStructureUID()
-- 
2.43.0


From 52bc8f90c500dd2eb43a83a7c9866698be32266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:15 +0000
Subject: [PATCH 32/51] fix: min-max scaling divides by the range

The values were multiplied by max - min instead of being divided by it, so they
were only scaled to [0, 1] if the range is 1. Constant columns and columns
without any value have no range to divide by and are not scaled.
---
 preprocessing/scaler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 1155ce3..2f7ca37 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -55,7 +55,13 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
         }
       }
       shift := -min
-      scale := max - min
+      scale := 1 / (max - min)
+      if min >= max {  // constant column, or no value at all
+        scale = 1
+        if min > max {
+          shift = 0
+        }
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From 48e96a9f2b88cf63427631f8cc68b1baa255f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 33/51] fix: Scaler handles constant columns and columns
 without values

The mean of a column without any value was NaN, which turned every value
transformed later into NaN, and made the scaler impossible to serialize.
The mean of a constant column was off by rounding errors (e.g. ten times 0.1),
so that its standard deviation was not zero but about 1e-17, and the values were
scaled by 1e17.
---
 preprocessing/scaler.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 2f7ca37..fe73e65 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -68,14 +68,22 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
       // TODO: bessell correction?
       mean := 0.0
       n := 0
+      min := math.Inf(1)
+      max := math.Inf(-1)
       for i := 0; i < access.Size(); i++ {
         val := access.Get(i)
         if !math.IsNaN(val) {
           mean += val
           n++
+          min = math.Min(min, val)
+          max = math.Max(max, val)
         }
       }
-      mean /= float64(n)
+      if min == max {
+        mean = min  // sum / n would not be exact
+      } else if n > 0 {
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From b5ddde58ac0b172c3cad1a67c49c20f695a4308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:16 +0000
Subject: [PATCH 34/51] fix: Scaler transforms each row once

If a view refers to the same row more than once (e.g. a bootstrap sample), the
row was scaled as many times.
---
 preprocessing/scaler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index fe73e65..448bed1 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -137,8 +137,13 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
-    for i := 0; i < access.Size(); i++ {
-      access.Set(i, (access.Get(i) + shift) * scale)
+    // two passes because a view can refer to the same row more than once
+    values := make([]float64, access.Size())
+    for i := range values {
+      values[i] = (access.Get(i) + shift) * scale
+    }
+    for i, value := range values {
+      access.Set(i, value)
     }
   }
 }
-- 
2.43.0


From 2097926ab88d977ef266198fe75afee5d5d93121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:17 +0000
Subject: [PATCH 35/51] fix: FloatImputer imputes columns without any value

Their mean was NaN, so missing values remained missing after the
transformation, and the imputer could not be serialized in JSON.
---
 preprocessing/float_imputer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index b84d8ad..859c55a 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
-- 
2.43.0


From e181f5201b2af7d8602f35580c2e7b156e9b677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 36/51] fix: AutoPreprocessor never trains on excluded float
 columns

---
 preprocessing/auto_preprocessor.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..d9f49a1 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -66,21 +66,22 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
-  floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
+  included := df.View()
+  included.Drop(opt.Exclude...)
+  floatCols := included.FloatHeader().NameList()
   if opt.Imputing || opt.Scaling {
     start := time.Now()
-    floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
       preproc.Imputer = NewFloatImputer(FloatImputerOptions{})
-      preproc.Imputer.Fit(floatsOnly)
+      preproc.Imputer.Fit(included)
     }
     if opt.Scaling {
       preproc.Scaler = NewScaler(ScalerOptions{Centering: true, Scaling: true})
-      preproc.Scaler.Fit(floatsOnly)
+      preproc.Scaler.Fit(included)
     }
     if opt.Verbose {
       log.Printf("training Imputer+Scaler took %s with cpu=%d",
-                 time.Since(start), floatsOnly.ActualMaxCPU())
+                 time.Since(start), included.ActualMaxCPU())
     }
   }
   // category encoding
-- 
2.43.0


From 539ca981716feb34f40fe0b90dfd24b355f926a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 37/51] fix: AutoPreprocessor excludes string and integer
 columns as well

---
 preprocessing/auto_preprocessor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index d9f49a1..9e625cb 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -86,10 +86,10 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  if included.StringHeader().Num() > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(included)
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -100,7 +100,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = included.IntHeader().NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
-- 
2.43.0


From cfa838ae34b7a7a6ae33e0d19112f914872814da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 38/51] fix: AutoPreprocessor forgets its previous training

---
 preprocessing/auto_preprocessor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 9e625cb..5ff09df 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -66,6 +66,11 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // nothing must remain from a previous training
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   included := df.View()
   included.Drop(opt.Exclude...)
   floatCols := included.FloatHeader().NameList()
-- 
2.43.0


From 70c36b5c33d297e56afad9f5e6a0be18ddb9be9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 39/51] fix: FitTransform works without imputing or scaling and
 returns a view

---
 preprocessing/auto_preprocessor.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 5ff09df..1c9212c 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -131,13 +131,19 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       return nil, err
     }
   } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
+    return df.View(), nil
   }
   start := time.Now()
   df = df.View()
-  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if len(floatCols) > 0 {
+    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
+  }
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
-- 
2.43.0


From c44480a376355f092cfb0a185309f4dfcd389efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 40/51] fix: TransformView and TransformedColumns work without
 any float or string columns

---
 preprocessing/auto_preprocessor.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 1c9212c..443ff3d 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,11 +38,27 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  cols := preproc.floatColumns()  // can be safely changed
+  if preproc.StringToInt != nil {
+    cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  } else if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
+// floatColumns returns the columns that are imputed and/or scaled. They are the
+// same columns for the imputer and the scaler.
+func (preproc *AutoPreprocessor) floatColumns() []string {
+  if preproc.Imputer != nil {
+    return preproc.Imputer.TransformedColumns()
+  }
+  if preproc.Scaler != nil {
+    return preproc.Scaler.TransformedColumns()
+  }
+  return nil
+}
+
 // Fit trains the AutoPreprocessor on the given dataframe and returns an error
 // if an error occurred.
 func (preproc *AutoPreprocessor) Fit(df *dataframe.DataFrame) error {
@@ -157,10 +173,9 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
 // share their data with the columns of the original dataframe.
 func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*dataframe.DataFrame, error) {
   // prepare transformations in place
-  if preproc.Imputer != nil {
-    df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
-  } else if preproc.Scaler != nil {
-    df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+  df = df.View()
+  if cols := preproc.floatColumns(); len(cols) > 0 {
+    df.Unshare(cols...)
   }
   // transformations
   if preproc.Imputer != nil {
-- 
2.43.0


From 63815d22e51b1177bded3392c17fe751148aade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 41/51] fix: LinearRegressor has default values for Epochs, LR
 and BatchSize

---
 algorithms/linear_regression.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..60a6b82 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -33,6 +33,18 @@ type LinRegTrainParams struct {
   Verbose     bool
 }
 
+func (params *LinRegTrainParams) setDefaults() {
+  if params.Epochs == 0 {
+    params.Epochs = 1
+  }
+  if params.LR == 0 {
+    params.LR = 0.0001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
+}
+
 // LinearRegressor is a model that predicts a numerical target with a linear
 // combination of the input features.
 // LinearRegressor is serializable with json.
@@ -55,6 +67,7 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  params.setDefaults()
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From 1c06826dc5c5c2307b82e0e8e2cf178c72111720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 42/51] fix: Predict leaves a column called _target as it is

---
 algorithms/linear_regression.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 60a6b82..845e4cf 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -178,11 +178,20 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
+  // undo the scaling of the target, separately from df because df might have a
+  // column of the same name
+  target := dataframe.EmptyDataFrame(len(pred), df.ActualMaxCPU())
+  target.OverwriteFloats64("_target", pred)
+  reg.TargetScaler.InverseTransformInplace(target)
+  scaled := target.Floats("_target")
+  for i := range pred {
+    pred[i] = scaled.Get(i)
+  }
+
   // write the result in the dataframe
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.Drop(resultColumn) // the original data must not be overwritten
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From 458c512e14035d077ab5200f7df925fe9d292175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 43/51] fix: Predict returns an empty result for an empty
 dataframe

---
 algorithms/linear_regression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 845e4cf..5fb734c 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -157,6 +157,12 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
 // If resultColumn already exists, the previous data will be overwritten but it
 // will not change the data in the original dataframe.
 func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string) (*dataframe.DataFrame, error) {
+  if df.NumRows() == 0 {
+    result := df.View()
+    result.Drop(resultColumn)
+    result.AllocFloats(resultColumn)
+    return result, nil
+  }
   df = df.ResetIndexView() // makes batching.DenseMatrix faster
 
   // simple heuristic to maximize the batch size without blowing up the memory
-- 
2.43.0


From 1c2faa2239739bd30e2799b930b7433809a345c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 44/51] fix: LinearRegressor can be trained with a feature
 called _target

---
 algorithms/linear_regression.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 5fb734c..fd5111a 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -73,14 +73,20 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   df = df.ColumnView(floatsAndBools.NameList()...)
 
   // copy the target to another column before scaling it in-place
+  // (in a separate dataframe because there might be a feature called _target)
   start := time.Now()
-  df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(targetColumn).Copy()
+  targetDF.Rename(targetColumn, "_target")
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
-  reg.TargetScaler.TransformInplace(df)
+  reg.TargetScaler.TransformInplace(targetDF)
+  df = df.DetachedView(targetColumn)
+  scaled := targetDF.Floats("_target")
+  y := df.Floats(targetColumn)
+  for i := 0; i < y.Size(); i++ {
+    y.Set(i, scaled.Get(i))
+  }
   if params.Verbose {
     log.Printf("training+running Target Scaler took: %s", time.Since(start))
   }
@@ -118,7 +124,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     for _, batch := range batches {
       batchSize := batch.NumRows()
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(targetColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0


From 13b9429f07265afe94136bee42d8dbf3bcd84522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 45/51] fix: concurrent IndexViews longer than their dataframe
 wrote to the same mask

---
 dataframe/view.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 7684f14..6d994bc 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -29,9 +29,9 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
   }
   if len(df.indices) < len(indices) {
     // we extend the mask slice because it's smaller than NumRows
-    // (a rare case)
-    diff := len(indices) - len(df.indices)
-    result.mask = append(result.mask, make([]bool, diff)...)
+    // (a rare case). The mask is not extended in place because its spare
+    // capacity might be shared with other views.
+    result.mask = make([]bool, len(indices))
   }
   result.indexViewed = true
 
-- 
2.43.0


From e607dcc554676e13ea5c72962b3cc7d12c30b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:32 +0000
Subject: [PATCH 46/51] fix: Unshare detaches only the given columns, even if
 some are repeated or unknown

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 3187438..e9fda1c 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -190,7 +190,7 @@ func (data *RawData) Unshare(columns...string) {
     data.reallocateMaps()
   }
   var colSet map[string]bool
-  if len(columns) == 0 || len(columns) == data.NumColumns() {
+  if len(columns) == 0 {
     colSet = data.Header().NameSet()
     data.dataUID = generateDataUID()
   } else {
-- 
2.43.0


From 248462026066f59c0f6ea9ec3ec44b74fa602c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 47/51] fix: IntToFloats and BoolToFloats no longer empty float
 columns or create columns without rows

---
 dataframe/raw_data.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index e9fda1c..7bfd361 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -462,7 +462,13 @@ func (data *RawData) IntToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.ints[col]
+    olddata, ok := data.ints[col]
+    if !ok {
+      if _, converted := data.floats[col]; converted {
+        continue
+      }
+      panic(fmt.Sprintf("%s is not in the list of int columns", col))
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       newdata[i] = float64(v)
@@ -481,7 +487,13 @@ func (data *RawData) BoolToFloats(columns...string) {
     data.reallocateMaps()
   }
   for _, col := range columns {
-    olddata := data.bools[col]
+    olddata, ok := data.bools[col]
+    if !ok {
+      if _, converted := data.floats[col]; converted {
+        continue
+      }
+      panic(fmt.Sprintf("%s is not in the list of bool columns", col))
+    }
     newdata := make([]float64, len(olddata))
     for i, v := range olddata {
       if v {
-- 
2.43.0


From 51bb302db14c6f881a93da1c8928156c5c4f8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:42 +0000
Subject: [PATCH 48/51] fix: a GroupIndexer can be initialized again

---
 utils/group_indexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 71c0a09..9c75d74 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -24,6 +24,8 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
     nGroups = nElements
   }
   indexer.NGroups = nGroups
+  indexer.elementIdx = 0
+  indexer.groupIdx = 0
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
-- 
2.43.0


From 18235469cbe5e747a769ef1b73489a6d79ebb2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 49/51] fix: a GroupIndexer of no elements has no groups

---
 utils/group_indexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/group_indexer.go b/utils/group_indexer.go
index 9c75d74..e32e6d7 100644
--- a/utils/group_indexer.go
+++ b/utils/group_indexer.go
@@ -26,11 +26,14 @@ func (indexer *GroupIndexer) Initialize(nElements int, nGroups int) {
   indexer.NGroups = nGroups
   indexer.elementIdx = 0
   indexer.groupIdx = 0
+  indexer.end = nElements
+  if nElements == 0 {
+    return  // no group at all
+  }
   indexer.groupSize = nElements / nGroups
   if nElements % nGroups != 0 {
     indexer.groupSize++
   }
-  indexer.end = nElements
 }
 
 func (indexer GroupIndexer) HasNext() bool {
-- 
2.43.0


From b2d3090cca62fa2d5aa6b5e38a25893800662014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:55 +0000
Subject: [PATCH 50/51] fix: AssertFloatEquals accepts NaN in place of any
 number

---
 utils/asserts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 1bd4239..68aaec2 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -38,7 +38,8 @@ func AssertIntNotEquals(name string, actual int, notExpected int, t *testing.T)
 }
 
 func AssertFloatEquals(name string, actual float64, expected float64, t *testing.T) bool {
-  if actual < expected-0.01 || actual > expected+0.01 {
+  bothNaN := actual != actual && expected != expected
+  if !bothNaN && !(actual >= expected-0.01 && actual <= expected+0.01) {
     t.Errorf("%s = %.4f; expected: %.4f", name, actual, expected)
     return false
   }
-- 
2.43.0


From 00107df5fc932107facaeeb26b113e803aab877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:55 +0000
Subject: [PATCH 51/51] fix: AssertFloatSliceEquals returns false for slices
 that it accepts

---
 utils/asserts.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/asserts.go b/utils/asserts.go
index 68aaec2..c0499e1 100644
--- a/utils/asserts.go
+++ b/utils/asserts.go
@@ -102,17 +102,17 @@ func AssertIntSliceNotEquals(name string, actual []int, notExpected []int, t *te
 }
 
 func AssertFloatSliceEquals(name string, actual []float64, expected []float64, t *testing.T) bool {
-  if !reflect.DeepEqual(actual, expected) {
-    if len(actual) != len(expected) {
-      t.Errorf("%s = %v; expected: %v", name, actual, expected)
-    } else {
-        for i, v := range actual {
-          AssertFloatEquals(name, v, expected[i], t)
-        }
-    }
+  if len(actual) != len(expected) {
+    t.Errorf("%s = %v; expected: %v", name, actual, expected)
     return false
   }
-  return true
+  result := true
+  for i, v := range actual {
+    if !AssertFloatEquals(name, v, expected[i], t) {
+      result = false
+    }
+  }
+  return result
 }
 
 func AssertBoolSliceEquals(name string, actual []bool, expected []bool, t *testing.T) bool {
-- 
2.43.0

