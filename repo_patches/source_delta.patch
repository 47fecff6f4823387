From 67b84c1ef4da5b51ec5789e06a4c40a1cf319826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 1/8] fix: keep the empty string at index 0 of the string table

Adding the empty string incremented its frequency past MaxUint32 to 0, so it
was sorted to the end of the table. Index 0 is the delimiter of the dense
node keys and values, so the first real string was then read as a delimiter.
---
 internal/t/string_table_builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..c194842 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,6 +27,11 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
+	if s == "" {
+		// The empty string is always present, and its frequency is already the
+		// maximum. Incrementing it would overflow, and lose its place at index 0.
+		return
+	}
 	if _, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-- 
2.43.0


From 9757e709bcde9590a5fbcb8ba3c38054d2f60978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 2/8] fix: index the first node of a block when its id is 0 or
 1

The "not assigned" marker is MaxUint64, so lastId+1 and lastId+2 wrapped to 0
and 1 before any range was open: the range was never emitted, while its
locations were, which shifted the locations of every later range.
---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 7b81521ed4d248a7881d879f74c0d55046ed486f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 3/8] fix: cover every node index element with some pass

The slice size is rounded down, so the last pass stopped before the end of the
index, and ids in the tail were never found. A pass which starts after the last
element started over at the first one, and an empty index or an empty first
pass indexed element -1.
---
 internal/nodeindex/nodeindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..c12ffe4 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -73,7 +73,7 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 	endTarget := startTarget + sliceSize
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -83,7 +83,8 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
-	for i := startIndex; i < uint64(len(subIds)); i++ {
+	// The last pass takes everything which is left, sliceSize is rounded down.
+	for i := startIndex; i < uint64(len(subIds)) && curPass+1 < countPass; i++ {
 		if runningTotal >= endTarget {
 			endIndex = i
 			break
@@ -91,11 +92,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From 346706aa79aee03a3a7e393a643c6818a79098a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 4/8] fix: cover every way index entry with some pass

The targets are rounded down, so the last pass stopped before the end of the
index. A pass which starts after the last entry started over at the first one,
and an empty index or an empty first pass indexed entry -1.
---
 internal/wayindex/wayindex.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..8d53a05 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -69,7 +69,7 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	startTarget := int64((len(idx.Loc) / countPass) * curPass)
 	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
 
-	startIndex := 0
+	startIndex := len(subIds)
 
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
@@ -79,18 +79,24 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
-	for i := startIndex; i < len(subIds); i++ {
+	// The last pass takes everything which is left, the targets are rounded down.
+	for i := startIndex; i < len(subIds) && curPass+1 < countPass; i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= endTarget {
 			endIndex = i
 			break
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From 791d9d6e2ac3cbbbf89d02a9e1f8130cb52c4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 5/8] fix: refuse index entries which do not fit their bit
 fields

A count of 2^24, a way id of 2^31 or an offset of 2^33 was accepted and
corrupted the neighbouring field, and so did negative way ids and offsets.
---
 internal/nodeindex/count_offset.go | 2 +-
 internal/wayindex/indexdata.go     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..adfe281 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,11 +16,11 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
-		panic("wayID too large")
+	if wayID < 0 || wayID >= (1<<31) {
+		panic("wayID out of range")
 	}
-	if offset > (1 << 33) {
-		panic(fmt.Sprintf("offset too large: %d\n", offset))
+	if offset < 0 || offset >= (1<<33) {
+		panic(fmt.Sprintf("offset out of range: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
 }
-- 
2.43.0


From 1557cf24b67b48a0d34d290fde9ebdde6830dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 6/8] fix: refuse length-prefixed fields which run past the end
 of their message

Reading checked the length against the capacity, so a field of a nested
message could extend in to the outer message. Skipping did not check it at
all: a truncated field was accepted, and a negative length moved backwards.
---
 internal/pb/buffer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..d3f27b1 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -6,6 +6,11 @@ func DecodeBytes(buf []byte, next *int) []byte {
 
 func ReadBytes(buf []byte, next *int) []byte {
 	byteLength := int(DecodeVarInt(buf, next))
+	if byteLength < 0 || byteLength > len(buf)-*next {
+		// Slicing alone only checks against the capacity, which for a nested message
+		// extends in to the rest of the outer message.
+		panic("length out of range")
+	}
 	outputBuffer := buf[*next : *next+byteLength]
 	*next += byteLength
 	return outputBuffer
@@ -22,8 +27,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
-	*next += byteLength
+	_ = ReadBytes(buf, next)
 }
 
 func EncodeIdBuffer(bufOutput []byte, id uint64, bufInput []byte) []byte {
-- 
2.43.0


From 2def092ae4697458d5614d89de57ec376cd6547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 7/8] fix: write the raw data of a blob when it is present but
 empty

A decompressed empty blob was written without any data, and could not be read
back ("unexpected compression").
---
 internal/t/blob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..6f2483e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -44,7 +44,7 @@ func (b *Blob) Write(buf []byte) []byte {
 	// If RawFunc is provided, invoke it, otherwise use Raw
 	if b.RawFunc != nil {
 		buf = pb.Embed268435456(blobRaw, b.RawFunc, buf)
-	} else if len(b.Raw) > 0 {
+	} else if b.Raw != nil {
 		buf = pb.EncodeIdBuffer(buf, blobRaw, b.Raw)
 	}
 	if b.RawSize != nil {
-- 
2.43.0


From f3b94b3512ccbab7ac903e0eeb302b4d45c3b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 8/8] fix: allow empty files to be mapped

The relation index of a file without relations is empty, and mapping it for the
first pass stopped the program with EINVAL.
---
 internal/iio/wrappers.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/iio/wrappers.go b/internal/iio/wrappers.go
index 8cca215..f7e83ce 100644
--- a/internal/iio/wrappers.go
+++ b/internal/iio/wrappers.go
@@ -58,6 +58,10 @@ func MMapMapWrite(f *os.File) mmap.MMap {
 }
 
 func MMapMap(f *os.File) mmap.MMap {
+	if fi, err := f.Stat(); err == nil && fi.Mode().IsRegular() && fi.Size() == 0 {
+		// An empty file can not be mapped, but it is still a valid (empty) input.
+		return nil
+	}
 	if m, err := mmap.Map(f, mmap.RDONLY, 0); err != nil {
 		panic(err)
 	} else {
@@ -74,6 +78,9 @@ func MMapMapRegion(f *os.File, length, offset uint64) mmap.MMap {
 }
 
 func MMapUnmap(m mmap.MMap) {
+	if len(m) == 0 {
+		return
+	}
 	if err := m.Unmap(); err != nil {
 		panic(err)
 	}
-- 
2.43.0

