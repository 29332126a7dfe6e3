From d058f31645f988fe78b08325ad0c249cdf55024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 01/22] fix: reject a node count that does not fit its 24 bits

---
 internal/nodeindex/count_offset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/nodeindex/count_offset.go b/internal/nodeindex/count_offset.go
index 2413480..eb488bc 100644
--- a/internal/nodeindex/count_offset.go
+++ b/internal/nodeindex/count_offset.go
@@ -22,7 +22,7 @@ func NewCountOffset(count, offset uint64) CountOffset {
 	if offset >= OffsetMax {
 		panic("offset out of range")
 	}
-	if count > CountMax {
+	if count >= CountMax {
 		panic("too many items")
 	}
 	return CountOffset((offset << CountBits) | count)
-- 
2.43.0


From 3fa2d87edeca95c1fb4db656b7009ecc4b3c472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 02/22] fix: reject way ids and offsets that do not fit their
 fields

---
 internal/wayindex/indexdata.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/wayindex/indexdata.go b/internal/wayindex/indexdata.go
index e151500..adfe281 100644
--- a/internal/wayindex/indexdata.go
+++ b/internal/wayindex/indexdata.go
@@ -16,11 +16,11 @@ func (id WayIndexData) Offset() int64 {
 }
 
 func MakeIndexData(wayID int64, offset int64) WayIndexData {
-	if wayID > (1 << 31) {
-		panic("wayID too large")
+	if wayID < 0 || wayID >= (1<<31) {
+		panic("wayID out of range")
 	}
-	if offset > (1 << 33) {
-		panic(fmt.Sprintf("offset too large: %d\n", offset))
+	if offset < 0 || offset >= (1<<33) {
+		panic(fmt.Sprintf("offset out of range: %d\n", offset))
 	}
 	return WayIndexData(wayID<<33 | offset)
 }
-- 
2.43.0


From 83ce02d5f3b9ccba3ac227f23faf90f40a3880ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 03/22] fix: keep the empty string at index 0 when it is used
 as a tag or role

---
 internal/t/string_table_builder.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/t/string_table_builder.go b/internal/t/string_table_builder.go
index 2547a79..557dcdd 100644
--- a/internal/t/string_table_builder.go
+++ b/internal/t/string_table_builder.go
@@ -27,11 +27,12 @@ func (stb *stringTableBuilder) AddMap(m map[string]string) {
 }
 
 func (stb *stringTableBuilder) AddString(s string) {
-	if _, ok := stb.stringFrequency[s]; !ok {
+	if freq, ok := stb.stringFrequency[s]; !ok {
 		stb.stringFrequency[s] = 1
 		stb.stringList = append(stb.stringList, s)
-	} else {
-		stb.stringFrequency[s] = stb.stringFrequency[s] + 1
+	} else if freq != math.MaxUint32 {
+		// The empty string starts at the maximum, so that it stays at index 0
+		stb.stringFrequency[s] = freq + 1
 	}
 }
 
-- 
2.43.0


From f6bd23dd86ff736578be3db39f1e13c11012ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 04/22] fix: do not extend a node range before one has been
 started

---
 cmd/nodeindex/indexer/nodeindexer_worker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/nodeindex/indexer/nodeindexer_worker.go b/cmd/nodeindex/indexer/nodeindexer_worker.go
index 4e08c2d..43b5447 100644
--- a/cmd/nodeindex/indexer/nodeindexer_worker.go
+++ b/cmd/nodeindex/indexer/nodeindexer_worker.go
@@ -57,9 +57,9 @@ func (ni *NodeIndexer) Worker(ctx context.Context, chIn <-chan pbf.Block, chOut
 			}
 			for idx, id := range pg.Dense.Id {
 				uid := uint64(id)
-				if uid == lastId+1 { // extend current block
+				if firstId != notAssigned && uid == lastId+1 { // extend current block
 					lastId = uid
-				} else if uid == lastId+2 {
+				} else if firstId != notAssigned && uid == lastId+2 {
 					outputLoc = append(outputLoc, 0)
 					lastId = uid
 				} else {
-- 
2.43.0


From 1f3ebce9b595792a49d56634acf34dd4fbbb6092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 05/22] fix: cover every node index element by exactly one pass

---
 internal/nodeindex/nodeindex.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/nodeindex/nodeindex.go b/internal/nodeindex/nodeindex.go
index 7d15a5e..a43bb88 100644
--- a/internal/nodeindex/nodeindex.go
+++ b/internal/nodeindex/nodeindex.go
@@ -68,12 +68,11 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		&subIds,
 	)
 
-	sliceSize := uint64(len(idx.locations)) / countPass
-	startTarget := sliceSize * curPass
-	endTarget := startTarget + sliceSize
+	startTarget := uint64(len(idx.locations)) * curPass / countPass
+	endTarget := uint64(len(idx.locations)) * (curPass + 1) / countPass
 
 	runningTotal := uint64(0)
-	startIndex := uint64(0)
+	startIndex := uint64(len(subIds))
 	endIndex := uint64(len(subIds))
 	for i := uint64(0); i < uint64(len(subIds)); i++ {
 		if runningTotal >= startTarget {
@@ -91,11 +90,16 @@ func (idx *NodeIndex) SubIndex(curPass uint64, countPass uint64) *NodeSubIndex {
 		runningTotal += subIds[i].Count()
 	}
 
+	top := uint64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].LastID()
+	}
+
 	return &NodeSubIndex{
 		parent:    idx,
 		element:   subIds[startIndex:endIndex],
 		locations: idx.locations,
-		Top:       subIds[endIndex-1].LastID(),
+		Top:       top,
 	}
 }
 
-- 
2.43.0


From d217817df3b45df43dc4a83cdb382d536e703cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 06/22] fix: cover every way index entry by exactly one pass

---
 internal/wayindex/wayindex.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/wayindex/wayindex.go b/internal/wayindex/wayindex.go
index c1a435f..5fd9474 100644
--- a/internal/wayindex/wayindex.go
+++ b/internal/wayindex/wayindex.go
@@ -66,11 +66,10 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 	subIds := idx.Ids
 
 	// These targets are likely to be mid way, but that's fine
-	startTarget := int64((len(idx.Loc) / countPass) * curPass)
-	endTarget := int64((len(idx.Loc) / countPass) * (curPass + 1))
-
-	startIndex := 0
+	startTarget := int64(len(idx.Loc)) * int64(curPass) / int64(countPass)
+	endTarget := int64(len(idx.Loc)) * int64(curPass+1) / int64(countPass)
 
+	startIndex := len(subIds)
 	endIndex := len(subIds)
 	for i := 0; i < len(subIds); i++ {
 		if subIds[i].Offset()<<idx.AlignmentShift >= startTarget {
@@ -86,11 +85,16 @@ func (idx *WayIndex) SubIndexWithScaledPass(curPass int, countPass int) *SubWayI
 		}
 	}
 
+	top := int64(0)
+	if endIndex > 0 {
+		top = subIds[endIndex-1].WayID()
+	}
+
 	return &SubWayIndex{
 		parent: idx,
 		Ids:    subIds[startIndex:endIndex],
 		Loc:    idx.Loc,
-		Top:    int64(subIds[endIndex-1].WayID()),
+		Top:    top,
 	}
 }
 
-- 
2.43.0


From 24ca906d106525dc465ef80f247debd2e0759686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 07/22] fix: close the filtered output file

---
 cmd/tagfilter/tagfilterer/tagfilterer_writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
index cb69108..7cefbbd 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_writer.go
@@ -44,5 +44,7 @@ func (tf *TagFilterer) Writer(filename string) pbf.WriteFunc {
 
 			tf.writer.SetCurrentState(state.WriterReading)
 		}
+
+		iio.FClose(outputFile)
 	}
 }
-- 
2.43.0


From aee3134d7ce27258dbfe21f85a4f8ed8f31ed9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 08/22] fix: publish the input size atomically to the progress
 display

---
 internal/pbf/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pbf/process.go b/internal/pbf/process.go
index ec5da67..2849f0b 100644
--- a/internal/pbf/process.go
+++ b/internal/pbf/process.go
@@ -47,7 +47,7 @@ func (pfs *ProcessFileState) At() uint64 {
 }
 
 func (pfs *ProcessFileState) Max() uint64 {
-	return pfs.max
+	return atomic.LoadUint64(&pfs.max)
 }
 
 func (pfs *ProcessFileState) Wait() {
@@ -98,7 +98,7 @@ func (pfs *ProcessFileState) processFileWork(
 	}
 
 	atomic.StoreUint64(&pfs.at, 0)
-	pfs.max = uint64(len(inputBuffer))
+	atomic.StoreUint64(&pfs.max, uint64(len(inputBuffer)))
 
 	blobIndex := uint64(0)
 
-- 
2.43.0


From 598281acf86a1017257537dbbf53f8d35073be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 09/22] fix: verify the size and checksum of compressed blobs

---
 internal/t/blob.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index be938e4..4b1bc87 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"compress/zlib"
 	"fmt"
+	"io"
 
 	"github.com/squizzling/osmindex/internal/pb"
 	"github.com/squizzling/osmindex/internal/pool"
@@ -74,21 +75,16 @@ func (b *Blob) decodeZLib() pool.BorrowedBuffer {
 	}
 
 	borrowedBuffer := pool.ByteSlice.Get(uint64(*b.RawSize))
-	outBuf := borrowedBuffer.Buffer
+	if _, err := io.ReadFull(zlibReader, borrowedBuffer.Buffer); err != nil {
+		panic(err)
+	}
 
-	remaining := int(*b.RawSize)
-	start := 0
-	for remaining > 0 {
-		remainingBuffer := outBuf[start:cap(outBuf)]
-		read, err := zlibReader.Read(remainingBuffer)
-		remaining -= read
-		start += read
-		if remaining == 0 {
-			return borrowedBuffer
-		}
-		if err != nil {
-			panic(err)
-		}
+	// The data must end here, and the checksum is only verified when the end is reached.
+	var extra [1]byte
+	if _, err := io.ReadFull(zlibReader, extra[:]); err == nil {
+		panic("compressed data is larger than its declared size")
+	} else if err != io.EOF {
+		panic(err)
 	}
 
 	return borrowedBuffer
-- 
2.43.0


From 4bffd7d32fa599723df01d9e8b42911290af40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 10/22] fix: panic on a field length that exceeds its message

---
 internal/pb/buffer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/pb/buffer.go b/internal/pb/buffer.go
index 318835a..352b8e5 100644
--- a/internal/pb/buffer.go
+++ b/internal/pb/buffer.go
@@ -6,7 +6,7 @@ func DecodeBytes(buf []byte, next *int) []byte {
 
 func ReadBytes(buf []byte, next *int) []byte {
 	byteLength := int(DecodeVarInt(buf, next))
-	outputBuffer := buf[*next : *next+byteLength]
+	outputBuffer := buf[*next : *next+byteLength : len(buf)] // panics if it extends past the end of buf
 	*next += byteLength
 	return outputBuffer
 }
@@ -22,8 +22,7 @@ func EncodeBuffer(bufOutput []byte, bufInput []byte) []byte {
 }
 
 func SkipBytes(buf []byte, next *int) {
-	byteLength := int(DecodeVarInt(buf, next))
-	*next += byteLength
+	ReadBytes(buf, next)
 }
 
 func EncodeIdBuffer(bufOutput []byte, id uint64, bufInput []byte) []byte {
-- 
2.43.0


From 99fd9938bf541aab5db23809c8ed82683d01eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:48 +0000
Subject: [PATCH 11/22] fix: don't mark a node index as complete when indexing
 was cancelled

The version was written even if reading or copying the locations stopped early,
so that an index with missing data was accepted when opened.
---
 cmd/nodeindex/indexer/nodeindexer_writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/nodeindex/indexer/nodeindexer_writer.go b/cmd/nodeindex/indexer/nodeindexer_writer.go
index 06f6df0..bbea6a2 100644
--- a/cmd/nodeindex/indexer/nodeindexer_writer.go
+++ b/cmd/nodeindex/indexer/nodeindexer_writer.go
@@ -64,6 +64,12 @@ func (ni *NodeIndexer) Output(outputFileName string) func(ctx context.Context, c
 		iio.FClose(outputFileLoc)
 		iio.OsRemove(outputFileName + ".loc.tmp")
 
+		if icontext.IsCancelled(ctx) {
+			// The index is incomplete, leave the version as 0 so that it's not accepted.
+			iio.FClose(outputFileIdx)
+			return
+		}
+
 		// Put the index block count at the start of the index file
 		ni.writer.SetCurrentState(state.WriteFinalizing)
 		iio.FSeek(outputFileIdx, 0, io.SeekStart)
-- 
2.43.0


From 4af82c5fd085ee6ee0b20da22d14518d6976f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 12/22] fix: reject a worker count below 1, which hangs or
 panics the pipeline

---
 cmd/blockcount/args.go   | 4 ++++
 cmd/decompress/args.go   | 4 ++++
 cmd/entitycount/args.go  | 4 ++++
 cmd/entityfind/args.go   | 4 ++++
 cmd/nodeindex/args.go    | 4 ++++
 cmd/relindex/args.go     | 4 ++++
 cmd/rewritenodes/args.go | 4 ++++
 cmd/tagfilter/args.go    | 4 ++++
 cmd/wayindex/args.go     | 4 ++++
 9 files changed, 36 insertions(+)

diff --git a/cmd/blockcount/args.go b/cmd/blockcount/args.go
index 00fe500..fc53511 100644
--- a/cmd/blockcount/args.go
+++ b/cmd/blockcount/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/decompress/args.go b/cmd/decompress/args.go
index e804580..0e4d92f 100644
--- a/cmd/decompress/args.go
+++ b/cmd/decompress/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	// Validation results
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entitycount/args.go b/cmd/entitycount/args.go
index b6893f8..babf1cc 100644
--- a/cmd/entitycount/args.go
+++ b/cmd/entitycount/args.go
@@ -44,6 +44,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/entityfind/args.go b/cmd/entityfind/args.go
index a38623d..1a4216b 100644
--- a/cmd/entityfind/args.go
+++ b/cmd/entityfind/args.go
@@ -45,6 +45,10 @@ func parseArgs(commandLine []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/nodeindex/args.go b/cmd/nodeindex/args.go
index 992ace4..81d1518 100644
--- a/cmd/nodeindex/args.go
+++ b/cmd/nodeindex/args.go
@@ -48,6 +48,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index d9c1150..8d742f9 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -52,6 +52,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 6a12eb0..337b37d 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -49,6 +49,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index a257305..27386ff 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -46,6 +46,10 @@ func parseArgs(args []string) *Opts {
 
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
diff --git a/cmd/wayindex/args.go b/cmd/wayindex/args.go
index 7802d1c..469fc2f 100644
--- a/cmd/wayindex/args.go
+++ b/cmd/wayindex/args.go
@@ -49,6 +49,10 @@ func parseArgs(commandLine []string) *Opts {
 	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
+	if opts.Workers < 1 {
+		errors = append(errors, "workers must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From bf12fbd9f3247f984f740d583c6ebb86c2d3b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 13/22] fix: relindex: reject a pass count below 1, which
 writes no output and leaves a temporary file

---
 cmd/relindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/relindex/args.go b/cmd/relindex/args.go
index 8d742f9..a7b171c 100644
--- a/cmd/relindex/args.go
+++ b/cmd/relindex/args.go
@@ -56,6 +56,10 @@ func parseArgs(commandLine []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Passes < 1 {
+		errors = append(errors, "passes must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From c0df016127ad050b4dc32097ca0dd8d20abccf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:39 +0000
Subject: [PATCH 14/22] fix: dumpwayindex: reject a negative sub-index-index

---
 cmd/dumpwayindex/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/dumpwayindex/args.go b/cmd/dumpwayindex/args.go
index 7bb2938..5c2d3f5 100644
--- a/cmd/dumpwayindex/args.go
+++ b/cmd/dumpwayindex/args.go
@@ -53,6 +53,10 @@ This is mainly a scratch application for debugging the index.`
 		errors = append(errors, "sub-index-count and sub-index-index must be specified together")
 	}
 
+	if opts.SubIndexIndex != nil && *opts.SubIndexIndex < 0 {
+		errors = append(errors, "sub-index-index must not be negative")
+	}
+
 	if opts.SubIndexCount != nil && opts.SubIndexIndex != nil && *opts.SubIndexIndex >= *opts.SubIndexCount {
 		errors = append(errors, "sub-index-index must be below sub-index-count")
 	}
-- 
2.43.0


From 82a5b87cd35b75433d75c3e01e1f513bac282129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:39 +0000
Subject: [PATCH 15/22] fix: rewritenodes: reject --memory 0, which divides by
 zero after the index was opened

---
 cmd/rewritenodes/args.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 337b37d..980e2fb 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -53,6 +53,10 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "workers must be at least 1")
 	}
 
+	if opts.Memory != nil && *opts.Memory == 0 {
+		errors = append(errors, "memory must be at least 1")
+	}
+
 	if len(errors) > 0 {
 		parser.WriteHelp(os.Stderr)
 		_, _ = fmt.Fprintf(os.Stderr, "\n\n")
-- 
2.43.0


From b2b62ae4a4e982d9399763e6dc0e761843096d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:38 +0000
Subject: [PATCH 16/22] fix: reject a negative refresh interval, which made the
 display panic after the command had started

---
 cmd/rewritenodes/args.go | 1 +
 cmd/tagfilter/args.go    | 1 +
 internal/ui/args.go      | 6 +++++-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/rewritenodes/args.go b/cmd/rewritenodes/args.go
index 980e2fb..14d733d 100644
--- a/cmd/rewritenodes/args.go
+++ b/cmd/rewritenodes/args.go
@@ -47,6 +47,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if opts.Workers < 1 {
diff --git a/cmd/tagfilter/args.go b/cmd/tagfilter/args.go
index 27386ff..090809c 100644
--- a/cmd/tagfilter/args.go
+++ b/cmd/tagfilter/args.go
@@ -44,6 +44,7 @@ func parseArgs(args []string) *Opts {
 		errors = append(errors, "no positional arguments allowed")
 	}
 
+	errors = append(errors, opts.UIOpts.Validate()...)
 	errors = append(errors, opts.SystemOpts.Validate()...)
 
 	if opts.Workers < 1 {
diff --git a/internal/ui/args.go b/internal/ui/args.go
index f86dfa2..b7f752b 100644
--- a/internal/ui/args.go
+++ b/internal/ui/args.go
@@ -9,5 +9,9 @@ type UIOpts struct {
 }
 
 func (opts *UIOpts) Validate() []string {
-	return nil
+	var errors []string
+	if opts.Refresh < 0 {
+		errors = append(errors, "refresh interval must not be negative")
+	}
+	return errors
 }
-- 
2.43.0


From ff042980bdef09eed8e9ed0a9f64fe8590346772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:40 +0000
Subject: [PATCH 17/22] fix: stop with a message when compressed data lacks its
 declared size

---
 internal/t/blob.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/t/blob.go b/internal/t/blob.go
index 4b1bc87..f79351e 100644
--- a/internal/t/blob.go
+++ b/internal/t/blob.go
@@ -68,6 +68,10 @@ func (b *Blob) GetRawData() pool.BorrowedBuffer {
 }
 
 func (b *Blob) decodeZLib() pool.BorrowedBuffer {
+	if b.RawSize == nil {
+		panic("compressed data without a declared size")
+	}
+
 	buf := bytes.NewBuffer(b.ZLibData)
 	zlibReader, err := zlib.NewReader(buf)
 	if err != nil {
-- 
2.43.0


From be1cc5a2c9220cd44986bcf50ae43e9eaddfd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:23 +0000
Subject: [PATCH 18/22] fix: escape progress lines that are not split

MarkupAsProgress returned the text itself before the view had a width and
when the share reached 100%, and its callers hand the result to SetMarkup,
which takes a percent sign as the start of a style: the line lost its
percent sign exactly when the work was complete.
---
 internal/ui/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index 728663f..cc895f9 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -6,7 +6,7 @@ import (
 
 func MarkupAsProgress(s string, w int, pct float64) string {
 	if w == 0 {
-		return s
+		return EscapePercent(s)
 	}
 
 	if pct < 0 {
@@ -21,9 +21,9 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
-		return s
+		return EscapePercent(s)
 	} else if pre >= len(s) {
-		return s
+		return EscapePercent(s)
 	}
 	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
 }
-- 
2.43.0


From 24fcfec51da6dd1f9a3ebfb177ec6692053f1c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:45 +0000
Subject: [PATCH 19/22] fix: split progress lines between characters

The padding was computed from, and the highlighted part cut at, a number of
bytes: a line with a non-ASCII file name was padded short, and the character
at the end of the bar could be cut in two.
---
 internal/ui/format.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ui/format.go b/internal/ui/format.go
index cc895f9..2e673be 100644
--- a/internal/ui/format.go
+++ b/internal/ui/format.go
@@ -15,17 +15,19 @@ func MarkupAsProgress(s string, w int, pct float64) string {
 		pct = 1
 	}
 
-	pad := w - len(s)
+	chars := []rune(s)
+	pad := w - len(chars)
 	if pad > 0 {
 		s = s + strings.Repeat(" ", pad)
+		chars = []rune(s)
 	}
 	pre := int(float64(w) * pct)
 	if pre < 0 {
 		return EscapePercent(s)
-	} else if pre >= len(s) {
+	} else if pre >= len(chars) {
 		return EscapePercent(s)
 	}
-	return "%S" + EscapePercent(s[:pre]) + "%N" + EscapePercent(s[pre:])
+	return "%S" + EscapePercent(string(chars[:pre])) + "%N" + EscapePercent(string(chars[pre:]))
 }
 
 func EscapePercent(s string) string {
-- 
2.43.0


From 9a439f75f75be1c5f90c9ecf7f27300ab7b03629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:20 +0000
Subject: [PATCH 20/22] fix: stop timing a lookup at the last bucket of the
 histogram, which hung or panicked for a small factor

---
 internal/nodeindex/nodesubindex.go | 2 +-
 internal/wayindex/subindex.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/nodeindex/nodesubindex.go b/internal/nodeindex/nodesubindex.go
index d7f61ae..a80f970 100644
--- a/internal/nodeindex/nodesubindex.go
+++ b/internal/nodeindex/nodesubindex.go
@@ -89,7 +89,7 @@ func (si *NodeSubIndex) FindNode(id uint64, hint int) (int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			// TODO: something something log?
 			i++
 			delta /= si.parent.divFactor
diff --git a/internal/wayindex/subindex.go b/internal/wayindex/subindex.go
index fb7a983..aa2a443 100644
--- a/internal/wayindex/subindex.go
+++ b/internal/wayindex/subindex.go
@@ -77,7 +77,7 @@ func (si *SubWayIndex) FindLocations(id int64, hint int) ([]int64, int, bool) {
 		// A page fault should be serviced in under 2 seconds, so if the delta is higher then it's likely a core
 		// jump with a different timestamp, rather than a slow page fault.
 		i := 0
-		for delta > 1 {
+		for delta > 1 && i < len(si.parent.lookupTimingCount) {
 			i++
 			delta /= si.parent.divFactor
 		}
-- 
2.43.0


From 5da73f84bea4817be8de6738bb201680d3df84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:27 +0000
Subject: [PATCH 21/22] fix: tagfilter: show the block that is sent, not the
 last one decoded

---
 cmd/tagfilter/tagfilterer/state/state_worker.go | 5 +++++
 cmd/tagfilter/tagfilterer/tagfilterer_worker.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/tagfilter/tagfilterer/state/state_worker.go b/cmd/tagfilter/tagfilterer/state/state_worker.go
index 8729ddb..9e7e168 100644
--- a/cmd/tagfilter/tagfilterer/state/state_worker.go
+++ b/cmd/tagfilter/tagfilterer/state/state_worker.go
@@ -35,6 +35,11 @@ func (w *Worker) SetStateDecoding(block uint64) {
 	atomic.StoreUint64(&w.currentState, WorkerDecoding)
 }
 
+func (w *Worker) SetStateWriting(block uint64) {
+	atomic.StoreUint64(&w.currentBlock, block)
+	atomic.StoreUint64(&w.currentState, WorkerWriting)
+}
+
 func (w *Worker) AddKept(amount uint64) {
 	atomic.AddUint64(&w.kept, amount)
 }
diff --git a/cmd/tagfilter/tagfilterer/tagfilterer_worker.go b/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
index 265c947..c3c8ab5 100644
--- a/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
+++ b/cmd/tagfilter/tagfilterer/tagfilterer_worker.go
@@ -97,7 +97,7 @@ func keepTag(s string) bool {
 }
 
 func sendBlock(sw *state.Worker, out chan<- pbf.Block, msg pbf.Block) {
-	sw.SetCurrentState(state.WorkerWriting)
+	sw.SetStateWriting(msg.Index)
 	out <- msg
 	sw.SetCurrentState(state.WorkerReading)
 }
-- 
2.43.0


From 17febc8f5c4fd69c533045eed15a3b2357e044ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:53 +0000
Subject: [PATCH 22/22] fix: rewritenodes: don't overflow when the number of
 passes is computed from a large --memory

---
 cmd/rewritenodes/rewritenodes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/rewritenodes/rewritenodes.go b/cmd/rewritenodes/rewritenodes.go
index a09073c..2f91b6f 100644
--- a/cmd/rewritenodes/rewritenodes.go
+++ b/cmd/rewritenodes/rewritenodes.go
@@ -36,9 +36,8 @@ func main() {
 	passes := uint64(1)
 
 	if opts.Memory != nil {
-		memTarget := *opts.Memory * 1048576
-		memRequired := ix.LocationCount() * 8
-		passes = (memRequired / memTarget) + 1
+		memRequired := ix.LocationCount() * 8 / 1048576
+		passes = (memRequired / *opts.Memory) + 1
 	}
 
 	nr := &rewriter.NodeRewriter{}
-- 
2.43.0

