From 00d8150d12029e0ddbe54b4eb5bb50d0b71b47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 01/73] fix: DecompressRLERecursive was a copy of the
 compressor

---
 utilities/compression/rle8.go | 77 +++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/utilities/compression/rle8.go b/utilities/compression/rle8.go
index c9d20c6..306fc58 100644
--- a/utilities/compression/rle8.go
+++ b/utilities/compression/rle8.go
@@ -176,51 +176,60 @@ func CompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
 
 // DecompressRLERecursive is the decompression counterpart to CompressRLERecursive.
 func DecompressRLERecursive(input io.Reader, output io.Writer) (int64, error) {
-	grouper := NewRLEGrouperFromReader(input)
-
+	source := bufio.NewReader(input)
+	lastByteRead := -1
 	totalBytesWritten := int64(0)
+
 	for {
-		run, getRunErr := grouper.GetNextRun()
-		if getRunErr != nil && !errors.Is(getRunErr, io.EOF) {
-			// An error was encountered and it's *not* EOF.
-			return totalBytesWritten, getRunErr
+		currentByte, err := source.ReadByte()
+		if err != nil {
+			if errors.Is(err, io.EOF) {
+				return totalBytesWritten, nil
+			}
+			return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 		}
 
-		if run.RunLength == 1 {
-			_, err := output.Write([]byte{run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten++
-		} else if run.RunLength >= 2 {
-			_, err := output.Write([]byte{run.Byte, run.Byte})
-			if err != nil {
-				return totalBytesWritten, err
-			}
-			totalBytesWritten += 2
+		// The first byte of a run was already written out by the previous
+		// iteration of the loop.
+		currentOutput := []byte{currentByte}
 
-			num255Repetitions := (run.RunLength - 2) / 255
-			remainder := (run.RunLength - 2) % 255
-
-			_, err = output.Write(bytes.Repeat([]byte{255}, num255Repetitions))
+		if int(currentByte) != lastByteRead {
+			lastByteRead = int(currentByte)
+		} else {
+			// Got two bytes in a row that are the same. They're followed by the
+			// number of additional repetitions, which is the sum of all bytes up
+			// to and including the first one that isn't 255.
+			repeatCount, err := readRecursiveRepeatCount(source)
 			if err != nil {
-				return totalBytesWritten, err
+				return totalBytesWritten, fmt.Errorf("error reading input: %w", err)
 			}
-			totalBytesWritten += int64(num255Repetitions)
+			currentOutput = bytes.Repeat(currentOutput, repeatCount+1)
+			lastByteRead = -1
+		}
 
-			_, err = output.Write([]byte{byte(remainder)})
-			if err != nil {
-				return totalBytesWritten, err
-			}
+		n, err := output.Write(currentOutput)
+		totalBytesWritten += int64(n)
+		if err != nil {
+			return totalBytesWritten, fmt.Errorf("failed to write to output: %w", err)
+		}
+	}
+}
 
-			totalBytesWritten++
+// readRecursiveRepeatCount reads the repeat count following a doubled byte in a
+// stream created by [CompressRLERecursive].
+func readRecursiveRepeatCount(source io.ByteReader) (int, error) {
+	repeatCount := 0
+	for {
+		countByte, err := source.ReadByte()
+		if errors.Is(err, io.EOF) {
+			return 0, fmt.Errorf("%w: missing end of repeat count", io.ErrUnexpectedEOF)
+		} else if err != nil {
+			return 0, err
 		}
 
-		// We bail at the beginning of the loop if an error occurred and it's
-		// *not* EOF, so if the error here is non-nil then that means it *must*
-		// be EOF. That means we finished without errors.
-		if getRunErr != nil {
-			return totalBytesWritten, nil
+		repeatCount += int(countByte)
+		if countByte != 255 {
+			return repeatCount, nil
 		}
 	}
 }
-- 
2.43.0


From 3c8711e53082b328367d64f7e14a7ce758dfa047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 02/73] fix: block cache bounds checks overflowed

---
 file_systems/common/blockcache/blockcache.go | 32 +++++++++++++++++---
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index bdcb43a..669d933 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -220,7 +220,11 @@ func (cache *BlockCache) Size() int64 {
 // GetMinBlocksForSize gives the minimum number of blocks required to hold the
 // given number of bytes.
 func (cache *BlockCache) GetMinBlocksForSize(size uint) uint {
-	return (size + cache.bytesPerBlock - 1) / cache.bytesPerBlock
+	numBlocks := size / cache.bytesPerBlock
+	if size%cache.bytesPerBlock != 0 {
+		numBlocks++
+	}
+	return numBlocks
 }
 
 // CheckBounds verifies that `bufferSize` bytes can be accessed in the cache
@@ -234,7 +238,7 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 			fmt.Sprintf("block %d not in range [0, %d)", start, cache.totalBlocks),
 		)
 	}
-	if uint(start)+numBlocks > cache.totalBlocks {
+	if numBlocks > cache.totalBlocks-uint(start) {
 		return disko.ErrArgumentOutOfRange.WithMessage(
 			fmt.Sprintf(
 				"can't access %d bytes (%d blocks) starting at block %d; requested"+
@@ -249,6 +253,24 @@ func (cache *BlockCache) CheckBounds(start c.LogicalBlock, bufferSize uint) erro
 	return nil
 }
 
+// checkBlockRange is like [CheckBounds] but takes the number of blocks instead of
+// the number of bytes.
+func (cache *BlockCache) checkBlockRange(start c.LogicalBlock, count uint) error {
+	if count > cache.totalBlocks {
+		// The size in bytes could overflow, so don't even try to calculate it.
+		return disko.ErrArgumentOutOfRange.WithMessage(
+			fmt.Sprintf(
+				"can't access %d blocks starting at block %d; requested range not"+
+					" in [0, %d)",
+				count,
+				start,
+				cache.totalBlocks,
+			),
+		)
+	}
+	return cache.CheckBounds(start, count*cache.bytesPerBlock)
+}
+
 // GetSlice returns a slice pointing to the cache's storage, beginning at block
 // `start` and continuing for `count` blocks.
 //
@@ -285,7 +307,7 @@ func (cache *BlockCache) Data() ([]byte, error) {
 // loadBlockRange ensures that all blocks in the range [start, start + count) are
 // present in the cache, and loads any missing ones from storage.
 func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -322,7 +344,7 @@ func (cache *BlockCache) loadBlockRange(start c.LogicalBlock, count uint) error
 // flushBlockRange writes out all dirty blocks (and only dirty blocks) to the
 // underlying storage and marks them as clean.
 func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
@@ -472,7 +494,7 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.CheckBounds(start, count*cache.bytesPerBlock)
+	err := cache.checkBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From b23df2b0a192ceb45aad34ebebeecb3017628890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 03/73] fix: BlockCache.ReadAt returned more bytes than it read

---
 file_systems/common/blockcache/blockcache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 669d933..a435669 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -411,8 +411,7 @@ func (cache *BlockCache) ReadAt(buffer []byte, start c.LogicalBlock) (int, error
 		return 0, err
 	}
 
-	copy(buffer, sourceData)
-	return len(sourceData), nil
+	return copy(buffer, sourceData), nil
 }
 
 // WriteAt copies data into the cache from `buffer`, beginning at block `start`.
-- 
2.43.0


From 234ac4b83d74a8544985eb3671fce22bab73a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 04/73] fix: marking an unloaded block dirty zeroed it

---
 file_systems/common/blockcache/blockcache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index a435669..f13c5e1 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -493,7 +493,9 @@ func (cache *BlockCache) MarkBlockRangeDirty(
 	start c.LogicalBlock,
 	count uint,
 ) error {
-	err := cache.checkBlockRange(start, count)
+	// A block that's never been loaded must be loaded now. Otherwise we'd flush
+	// null bytes over the data in the backing storage.
+	err := cache.loadBlockRange(start, count)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1aea6956c9a018512a15fc36d66e0c6b7e9f9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 05/73] fix: flushing or loading an empty block cache failed

---
 file_systems/common/blockcache/blockcache.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index f13c5e1..c5e69ee 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -378,12 +378,18 @@ func (cache *BlockCache) flushBlockRange(start c.LogicalBlock, count uint) error
 
 // LoadAll ensures all missing blocks are loaded from storage into the cache.
 func (cache *BlockCache) LoadAll() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.loadBlockRange(0, cache.totalBlocks)
 }
 
 // Flush flushes all dirty blocks from the cache into storage, and marks them
 // as clean.
 func (cache *BlockCache) Flush() error {
+	if cache.totalBlocks == 0 {
+		return nil
+	}
 	return cache.flushBlockRange(0, cache.totalBlocks)
 }
 
-- 
2.43.0


From c52d348704744194912156c8b0c40f2f58236ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 06/73] fix: a resized block cache over a stream could not
 access the new blocks

---
 file_systems/common/blockcache/blockcache.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index c5e69ee..0083863 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -150,7 +150,11 @@ func WrapStream(
 		// Resizing the stream is allowed.
 		resizeCb = func(newTotalBlocks c.LogicalBlock) error {
 			truncator := stream.(c.Truncator)
-			return truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			err := truncator.Truncate(int64(newTotalBlocks) * int64(bytesPerBlock))
+			if err == nil {
+				totalBlocks = uint(newTotalBlocks)
+			}
+			return err
 		}
 	} else if allowResize {
 		// The caller allows resizing but the stream doesn't support Truncate().
-- 
2.43.0


From a9585a494b7f47628221a795798fa85a221937b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/73] fix: block cache over a stream ignored short reads and
 writes

---
 file_systems/common/blockcache/blockcache.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 0083863..4ba9e94 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -123,16 +123,22 @@ func WrapStream(
 			return err
 		}
 
-		if read {
-			_, err = stream.Read(buffer)
-		} else {
-			_, err = stream.Write(buffer)
+		var n int
+		if !read {
+			n, err = stream.Write(buffer)
+			if err == nil && n < len(buffer) {
+				err = io.ErrShortWrite
+			}
+			return err
 		}
 
-		if err != nil && err != io.EOF {
-			return err
+		n, err = io.ReadFull(stream, buffer)
+		if err == io.EOF || err == io.ErrUnexpectedEOF {
+			// Anything past the end of the stream is null bytes.
+			clear(buffer[n:])
+			err = nil
 		}
-		return nil
+		return err
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From e760c5401ef31ddefb2fdcb4a49e05b892db4cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:22 +0000
Subject: [PATCH 08/73] fix: BasicStream.Read did not move past the last bytes
 of the stream

---
 file_systems/common/basicstream/basicstream.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e555f38..be2b2b8 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -78,9 +78,7 @@ func (stream *BasicStream) Close() error {
 // Read implements [io.Reader].
 func (stream *BasicStream) Read(buffer []byte) (int, error) {
 	totalRead, err := stream.ReadAt(buffer, stream.position)
-	if err == nil {
-		stream.position += int64(totalRead)
-	}
+	stream.position += int64(totalRead)
 	return totalRead, err
 }
 
-- 
2.43.0


From 07de116aa7af7280fe51ca0282961ae1511d46a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/73] fix: BasicStream.ReadAt crashed on negative offsets

---
 file_systems/common/basicstream/basicstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index be2b2b8..f87108b 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -88,6 +88,12 @@ func (stream *BasicStream) ReadAt(buffer []byte, offset int64) (int, error) {
 		return 0, disko.ErrNotPermitted
 	}
 
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't read from negative offset %d", offset),
+		)
+	}
+
 	// The address computations below assume we're reading at least one byte. If
 	// the target buffer is empty, we have nothing further to do.
 	bufLen := int64(len(buffer))
-- 
2.43.0


From 5673b675e7cb5860b4a4d85d1fe37463d7c6e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 10/73] fix: writes to a BasicStream were lost or out of range

---
 .../common/basicstream/basicstream.go         | 29 +++++++++++++++----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index f87108b..6885c4c 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -282,24 +282,43 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	}
 
 	bufLen := int64(len(buffer))
+	if offset < 0 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("can't write to negative offset %d", offset),
+		)
+	} else if offset > math.MaxInt64-bufLen {
+		return 0, disko.ErrFileTooLarge
+	} else if bufLen == 0 {
+		return 0, nil
+	}
+
 	startBlock, startOffset := stream.convertLinearAddr(offset)
-	lastBlock, _ := stream.convertLinearAddr(offset + bufLen)
+	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
 
-	// If we're going to end up writing past the end of the stream we need to
-	// grow the file first.
+	// If we're going to end up writing past the end of the storage we need to
+	// grow it first.
 	if uint(lastBlock) >= stream.data.TotalBlocks() {
-		err := stream.Truncate(offset + bufLen)
+		err := stream.data.Resize(uint(lastBlock) + 1)
 		if err != nil {
 			return 0, err
 		}
 	}
 
-	targetSlice, err := stream.data.GetSlice(startBlock, uint(lastBlock)+1)
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
 	if err != nil {
 		return 0, err
 	}
 
 	copy(targetSlice[startOffset:], buffer)
+	err = stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+	if err != nil {
+		return 0, err
+	}
+
+	if offset+bufLen > stream.size {
+		stream.size = offset + bufLen
+	}
 
 	if stream.ioFlags.Synchronous() {
 		return len(buffer), stream.Sync()
-- 
2.43.0


From 4cb97cafc67647e23963c22769ce0823d6400328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 11/73] fix: growing a BasicStream exposed stale bytes

---
 .../common/basicstream/basicstream.go         | 42 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 6885c4c..61e7683 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -238,7 +238,12 @@ func (stream *BasicStream) Truncate(size int64) error {
 	}
 	newTotalBlocks := stream.data.GetMinBlocksForSize(uint(size))
 
-	err := stream.data.Resize(newTotalBlocks)
+	err := stream.zeroFillTo(size)
+	if err != nil {
+		return err
+	}
+
+	err = stream.data.Resize(newTotalBlocks)
 	if err != nil {
 		return err
 	}
@@ -251,6 +256,32 @@ func (stream *BasicStream) Truncate(size int64) error {
 	return nil
 }
 
+// zeroFillTo clears everything between the current end of the stream and `offset`
+// that's already in the backing storage. It must be called before the stream's
+// size is increased, since the storage past the end can contain anything.
+func (stream *BasicStream) zeroFillTo(offset int64) error {
+	if offset > stream.data.Size() {
+		// The storage doesn't go that far. When it's resized later, the new
+		// blocks will be filled with null bytes.
+		offset = stream.data.Size()
+	}
+	if offset <= stream.size {
+		return nil
+	}
+
+	startBlock, startOffset := stream.convertLinearAddr(stream.size)
+	lastBlock, _ := stream.convertLinearAddr(offset - 1)
+	numBlocks := uint(lastBlock-startBlock) + 1
+
+	targetSlice, err := stream.data.GetSlice(startBlock, numBlocks)
+	if err != nil {
+		return err
+	}
+
+	clear(targetSlice[startOffset : int64(startOffset)+offset-stream.size])
+	return stream.data.MarkBlockRangeDirty(startBlock, numBlocks)
+}
+
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
 	var err error
@@ -296,10 +327,17 @@ func (stream *BasicStream) implWriteAt(buffer []byte, offset int64) (int, error)
 	lastBlock, _ := stream.convertLinearAddr(offset + bufLen - 1)
 	numBlocks := uint(lastBlock-startBlock) + 1
 
+	// If there's a gap between the end of the stream and where we're writing, it
+	// must be null bytes.
+	err := stream.zeroFillTo(offset)
+	if err != nil {
+		return 0, err
+	}
+
 	// If we're going to end up writing past the end of the storage we need to
 	// grow it first.
 	if uint(lastBlock) >= stream.data.TotalBlocks() {
-		err := stream.data.Resize(uint(lastBlock) + 1)
+		err = stream.data.Resize(uint(lastBlock) + 1)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 8152c55e411f7ac8a06fad577433dcf27d7b15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:26 +0000
Subject: [PATCH 12/73] fix: BasicStream.ReadFrom lost write errors

---
 file_systems/common/basicstream/basicstream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 61e7683..16acb34 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -152,15 +152,16 @@ func (stream *BasicStream) ReadFrom(r io.Reader) (n int64, err error) {
 	totalBytesRead := int64(0)
 	for {
 		lastReadSize, readErr := r.Read(buffer)
-		totalBytesRead += int64(lastReadSize)
 
-		_, writeErr := stream.Write(buffer[:lastReadSize])
-		if readErr == io.EOF {
+		numWritten, writeErr := stream.Write(buffer[:lastReadSize])
+		totalBytesRead += int64(numWritten)
+
+		if writeErr != nil {
+			return totalBytesRead, writeErr
+		} else if readErr == io.EOF {
 			return totalBytesRead, nil
 		} else if readErr != nil {
 			return totalBytesRead, readErr
-		} else if writeErr != nil {
-			return totalBytesRead, writeErr
 		}
 	}
 }
-- 
2.43.0


From 65273656dbadee0cabc5e57fff4e8383efaf57cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 13/73] fix: BasicStream.WriteTo ignored write errors

---
 file_systems/common/basicstream/basicstream.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index 16acb34..e944bfb 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -390,8 +390,15 @@ func (stream *BasicStream) WriteTo(w io.Writer) (n int64, err error) {
 		// Always write the data we've read in regardless of whether an error
 		// occurred or not.
 		if blockSize > 0 {
-			w.Write(buffer[:blockSize])
-			totalWritten += int64(blockSize)
+			n, writeErr := w.Write(buffer[:blockSize])
+			totalWritten += int64(n)
+
+			if writeErr == nil && n < blockSize {
+				writeErr = io.ErrShortWrite
+			}
+			if writeErr != nil {
+				return totalWritten, writeErr
+			}
 		}
 
 		// If we hit EOF, we're done. Any other error is fatal.
-- 
2.43.0


From 26243b845c1cb5d1b28a9082866eba2a0490a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 14/73] fix: a failed append moved the stream position

---
 file_systems/common/basicstream/basicstream.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/file_systems/common/basicstream/basicstream.go b/file_systems/common/basicstream/basicstream.go
index e944bfb..8be590e 100644
--- a/file_systems/common/basicstream/basicstream.go
+++ b/file_systems/common/basicstream/basicstream.go
@@ -285,24 +285,22 @@ func (stream *BasicStream) zeroFillTo(offset int64) error {
 
 // Write implements [io.Writer].
 func (stream *BasicStream) Write(buffer []byte) (int, error) {
-	var err error
-
 	if !stream.ioFlags.Write() {
 		return 0, disko.ErrNotPermitted
 	}
 
-	// Force the stream pointer to the end of the file if O_APPEND was set.
+	// Force writing at the end of the file if O_APPEND was set.
+	position := stream.position
 	if stream.ioFlags.Append() {
-		_, err = stream.Seek(0, io.SeekEnd)
-		if err != nil {
-			return 0, err
-		}
+		position = stream.size
 	}
 
 	// NB we must call implWriteAt, not WriteAt, since WriteAt fails if the
 	// O_APPEND flag is set.
-	totalWritten, err := stream.implWriteAt(buffer, stream.position)
-	stream.position += int64(totalWritten)
+	totalWritten, err := stream.implWriteAt(buffer, position)
+	if totalWritten > 0 {
+		stream.position = position + int64(totalWritten)
+	}
 	return totalWritten, err
 }
 
-- 
2.43.0


From c3df6a0f829747e4d0360114d2c078c517fc7d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:40 +0000
Subject: [PATCH 15/73] fix: the driver dropped the handles of the file system
 implementation

---
 driver/driver.go   | 40 ++++++++++++++++++++++++++--------------
 driver/file.go     |  4 ++--
 driver/fsobject.go | 21 +++++++++++++++++----
 3 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 114a5ba..923aadd 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -201,7 +201,8 @@ func (driver *BaseDriver) getContentsOfObject(
 func (driver *BaseDriver) getExtObjectInDir(
 	baseName string, parentObject extObjectHandle,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.implementation.GetObject(baseName, parentObject)
+	object, err := driver.implementation.GetObject(
+		baseName, unwrapObjectHandle(parentObject))
 	if err != nil {
 		return nil, err
 	}
@@ -217,7 +218,7 @@ func (driver *BaseDriver) createExtObject(
 ) (extObjectHandle, disko.DriverError) {
 	rawObject, err := driver.implementation.CreateObject(
 		baseName,
-		parentObject,
+		unwrapObjectHandle(parentObject),
 		perm,
 	)
 	if err != nil {
@@ -328,7 +329,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 		return err
 	}
 
-	chmodObject, ok := object.(disko.SupportsChmodHandle)
+	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -342,7 +343,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -359,7 +360,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChownHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -373,7 +374,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 		return err
 	}
 
-	chmownObject, ok := object.(disko.SupportsChtimesHandle)
+	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
 		return disko.ErrNotImplemented
 	}
@@ -445,11 +446,20 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 	return driver.readDir(directory)
 }
 
+// listDir gives the names of all entries in a directory object.
+func listDir(directory extObjectHandle) ([]string, disko.DriverError) {
+	lister, ok := unwrapObjectHandle(directory).(disko.SupportsListDirHandle)
+	if !ok {
+		return nil, disko.ErrNotADirectory.WithMessage(directory.AbsolutePath())
+	}
+	return lister.ListDir()
+}
+
 // readDir implements [ReadDir] for any directory object handle.
 func (driver *BaseDriver) readDir(
 	directory extObjectHandle,
 ) ([]disko.DirectoryEntry, error) {
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return nil, err
 	}
@@ -461,7 +471,8 @@ func (driver *BaseDriver) readDir(
 			continue
 		}
 
-		direntObject, err := driver.implementation.GetObject(name, directory)
+		direntObject, err := driver.implementation.GetObject(
+			name, unwrapObjectHandle(directory))
 		if err != nil {
 			return output, err
 		}
@@ -502,7 +513,8 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return err
 	}
 
-	_, err = linker.CreateHardLink(oldHandle, parentHandle, targetName)
+	_, err = linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	return err
 }
 
@@ -601,7 +613,7 @@ func (driver *BaseDriver) Remove(path string) error {
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
 		// must at most only contain the "." and ".." entries.
-		names, err := object.(disko.SupportsListDirHandle).ListDir()
+		names, err := listDir(object)
 		if err != nil {
 			return err
 		}
@@ -688,7 +700,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -716,7 +728,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	}
 	defer parentObject.Close()
 
-	object, err := driver.implementation.CreateObject(baseName, parentObject, perm)
+	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
 	}
@@ -738,7 +750,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
-	if root.SameAs(directory) {
+	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
 		)
@@ -754,7 +766,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 func (driver *BaseDriver) removeDirectory(directory extObjectHandle) error {
 	var err error
 
-	direntNames, err := directory.(disko.SupportsListDirHandle).ListDir()
+	direntNames, err := listDir(directory)
 	if err != nil {
 		return err
 	}
diff --git a/driver/file.go b/driver/file.go
index c6d7dff..0fa601a 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -144,7 +144,7 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
-	chmodHandle, ok := file.objectHandle.(disko.SupportsChmodHandle)
+	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
 	}
@@ -152,7 +152,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
-	chownHandle, ok := file.objectHandle.(disko.SupportsChownHandle)
+	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
 	}
diff --git a/driver/fsobject.go b/driver/fsobject.go
index 65f008c..e6c3951 100644
--- a/driver/fsobject.go
+++ b/driver/fsobject.go
@@ -8,19 +8,32 @@ type extObjectHandle interface {
 }
 
 type tExtObjectHandle struct {
-	extObjectHandle
+	disko.ObjectHandle
 	absolutePath string
 }
 
-// wrapObjectHandle combines
+// wrapObjectHandle combines a file system implementation's object handle with the
+// absolute path it was found at. Use [unwrapObjectHandle] to get it back.
 func wrapObjectHandle(handle disko.ObjectHandle, absolutePath string) extObjectHandle {
 	return &tExtObjectHandle{
-		// FIXME (dargueta): This is hella wrong
-		//extObjectHandle.ObjectHandle: handle,
+		ObjectHandle: handle,
 		absolutePath: absolutePath,
 	}
 }
 
+// unwrapObjectHandle gives the handle as it was created by the file system
+// implementation. This must be used for passing handles to the implementation,
+// and to check if a handle supports an optional interface.
+func unwrapObjectHandle(handle disko.ObjectHandle) disko.ObjectHandle {
+	for {
+		wrapper, ok := handle.(*tExtObjectHandle)
+		if !ok {
+			return handle
+		}
+		handle = wrapper.ObjectHandle
+	}
+}
+
 func (xh tExtObjectHandle) AbsolutePath() string {
 	return xh.absolutePath
 }
-- 
2.43.0


From 7ba9b133280f1e584e5e751277428880c54c281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 16/73] fix: looking up anything below the root directory never
 terminated

---
 driver/driver.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 923aadd..41de613 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -125,10 +125,10 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 ) (extObjectHandle, disko.DriverError) {
 	if path == "/" || path == "" {
 		root := driver.implementation.GetRootDirectory()
-		return wrapObjectHandle(root, path), nil
+		return wrapObjectHandle(root, "/"), nil
 	}
 
-	parentPath, baseName := posixpath.Split(path)
+	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
 	if err != nil {
 		return nil, err
@@ -262,7 +262,7 @@ func (driver *BaseDriver) OpenFile(
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
-				parentDir, baseName := posixpath.Split(absPath)
+				parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 				parentObject, err = driver.getObjectAtPathFollowingLink(parentDir)
 				if err != nil {
 					// Parent directory doesn't exist
@@ -507,7 +507,7 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
 	}
 
-	targetParentPath, targetName := posixpath.Split(absNew)
+	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
 		return err
@@ -681,7 +681,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
 	if err != nil {
@@ -709,7 +709,7 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Split(absPath)
+	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	// Force the permissions flags to indicate this is a directory so that the
 	// caller doesn't have to remember to do it themselves.
-- 
2.43.0


From 2a403845a3f3695f0b041febb37be1cdc1fcfc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 17/73] fix: NormalizePath resolved "." to the root directory

---
 driver/driver.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 41de613..60aa782 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -41,9 +41,6 @@ func New(
 // from the current working directory (see [Getwd] for more).
 func (driver *BaseDriver) NormalizePath(path string) string {
 	path = posixpath.Clean(filepath.ToSlash(path))
-	if path == "." {
-		path = "/"
-	}
 	if posixpath.IsAbs(path) {
 		return path
 	}
-- 
2.43.0


From 470822a7d916fa47998e6093d75a9e13622b8ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 18/73] fix: symbolic links were resolved against the working
 directory and could recurse forever

---
 driver/driver.go | 108 +++++++++++++++++++++++++++--------------------
 1 file changed, 63 insertions(+), 45 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 60aa782..b6856e7 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	posixpath "path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -47,27 +48,24 @@ func (driver *BaseDriver) NormalizePath(path string) string {
 	return posixpath.Join(driver.workingDirPath, path)
 }
 
+// maxSymlinksFollowed is the number of symbolic links we'll follow for resolving
+// a single path before we consider it to be a cycle.
+const maxSymlinksFollowed = 40
+
 // resolveSymlink dereferences `object` (if it's a symlink), following multiple
 // levels of indirection if needed to get to a file system object. If `object`
 // isn't a symlink, this becomes a no-op and returns the handle unmodified.
+//
+// `linksLeft` is the number of symbolic links we can still follow.
 func (driver *BaseDriver) resolveSymlink(
 	object extObjectHandle,
+	linksLeft *int,
 ) (extObjectHandle, disko.DriverError) {
 	stat := object.Stat()
-	if !stat.IsSymlink() {
-		return object, nil
-	}
-
-	// Symbolic links can result in cycles, so we need to keep track of all the
-	// paths we visit. If we resolve a symlink to a path that's already in the
-	// dictionary, we found a loop and must fail.
-	pathCache := make(map[string]bool)
-
 	originalPath := object.AbsolutePath()
-	currentPath := originalPath
-	pathCache[currentPath] = true
 
 	for stat.IsSymlink() {
+		currentPath := object.AbsolutePath()
 		symlinkText, err := driver.getContentsOfObject(object)
 		object.Close()
 
@@ -83,30 +81,38 @@ func (driver *BaseDriver) resolveSymlink(
 				)
 		}
 
-		// Compute the next path in this chain; if it's already in the cache
-		// then we hit a cycle.
-		nextPath := driver.NormalizePath(string(symlinkText))
-		_, exists := pathCache[nextPath]
-		if exists {
+		// Symbolic links can result in cycles that don't ever hit the same path
+		// twice (e.g. `/a` -> `/a/b`), so we limit the number of links.
+		if *linksLeft <= 0 {
 			return nil,
 				disko.ErrLinkCycleDetected.WithMessage(
-					fmt.Sprintf(
-						"found cycle resolving symlink %q: hit %q twice",
-						originalPath,
-						nextPath,
-					),
+					fmt.Sprintf("too many levels of symlinks at %q", originalPath),
 				)
 		}
+		*linksLeft--
+
+		nextPath := string(symlinkText)
+		if nextPath == "" {
+			return nil,
+				disko.ErrNotFound.WithMessage(
+					fmt.Sprintf("symlink %q is empty", currentPath),
+				)
+		}
+		if !posixpath.IsAbs(nextPath) {
+			// Relative targets start from the directory the link is in. This
+			// must not be cleaned, since `..` after a symlink is relative to
+			// where that link points to.
+			nextPath = posixpath.Dir(currentPath) + "/" + nextPath
+		}
 
 		// Get the object at the next path but don't dereference it.
-		object, err = driver.getObjectAtPathNoFollow(nextPath)
+		object, err = driver.walkToObject(nextPath, linksLeft)
 		if err != nil {
 			return nil, err
 		}
 
-		// Update the latest path and file stats for the next loop iteration.
+		// Update the file stats for the next loop iteration.
 		stat = object.Stat()
-		currentPath = nextPath
 	}
 
 	return object, nil
@@ -120,20 +126,36 @@ func (driver *BaseDriver) resolveSymlink(
 func (driver *BaseDriver) getObjectAtPathNoFollow(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	if path == "/" || path == "" {
+	linksLeft := maxSymlinksFollowed
+	return driver.walkToObject(path, &linksLeft)
+}
+
+// walkToObject implements [getObjectAtPathNoFollow] for absolute paths that aren't
+// necessarily normalized.
+func (driver *BaseDriver) walkToObject(
+	path string,
+	linksLeft *int,
+) (extObjectHandle, disko.DriverError) {
+	parentPath, baseName := posixpath.Split(path)
+	parentPath = strings.TrimRight(parentPath, "/")
+
+	if parentPath == "" && (baseName == "" || baseName == "." || baseName == "..") {
 		root := driver.implementation.GetRootDirectory()
 		return wrapObjectHandle(root, "/"), nil
 	}
 
-	parentPath, baseName := posixpath.Dir(path), posixpath.Base(path)
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentPath)
+	parentObject, err := driver.walkToObject(parentPath, linksLeft)
+	if err != nil {
+		return nil, err
+	}
+	parentObject, err = driver.resolveSymlink(parentObject, linksLeft)
 	if err != nil {
 		return nil, err
 	}
-	defer parentObject.Close()
 
 	parentStat := parentObject.Stat()
 	if !parentStat.IsDir() {
+		parentObject.Close()
 		return nil,
 			disko.ErrNotADirectory.WithMessage(
 				fmt.Sprintf(
@@ -144,6 +166,14 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 			)
 	}
 
+	if baseName == "" || baseName == "." {
+		return parentObject, nil
+	}
+	defer parentObject.Close()
+
+	if baseName == ".." {
+		return driver.walkToObject(posixpath.Dir(parentObject.AbsolutePath()), linksLeft)
+	}
 	return driver.getExtObjectInDir(baseName, parentObject)
 }
 
@@ -152,23 +182,12 @@ func (driver *BaseDriver) getObjectAtPathNoFollow(
 func (driver *BaseDriver) getObjectAtPathFollowingLink(
 	path string,
 ) (extObjectHandle, disko.DriverError) {
-	object, err := driver.getObjectAtPathNoFollow(path)
+	linksLeft := maxSymlinksFollowed
+	object, err := driver.walkToObject(path, &linksLeft)
 	if err != nil {
 		return nil, err
 	}
-
-	stat := object.Stat()
-	for stat.IsSymlink() {
-		nextObject, err := driver.resolveSymlink(object)
-		object.Close()
-		if err != nil {
-			return nil, err
-		}
-		stat = nextObject.Stat()
-		object = nextObject
-	}
-
-	return object, nil
+	return driver.resolveSymlink(object, &linksLeft)
 }
 
 // getContentsOfObject returns the contents of an object as it exists on the
@@ -549,9 +568,8 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	// Unconditionally try to resolve `object` as a symlink. If it isn't one,
-	// nothing happens and we get `object` back.
-	realObject, err := driver.resolveSymlink(object)
+	linksLeft := maxSymlinksFollowed
+	realObject, err := driver.resolveSymlink(object, &linksLeft)
 	if err != nil {
 		return disko.FileStat{}, err
 	}
-- 
2.43.0


From 23cc441504b97b872ecd9ade09642390bc5a4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 19/73] fix: Lstat followed symbolic links

---
 driver/driver.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index b6856e7..18259c9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -568,14 +568,7 @@ func (driver *BaseDriver) Lstat(path string) (disko.FileStat, error) {
 	}
 	defer object.Close()
 
-	linksLeft := maxSymlinksFollowed
-	realObject, err := driver.resolveSymlink(object, &linksLeft)
-	if err != nil {
-		return disko.FileStat{}, err
-	}
-	defer realObject.Close()
-
-	return realObject.Stat(), nil
+	return object.Stat(), nil
 }
 
 // Create creates a file and opens it for reading and writing. It fails if the
-- 
2.43.0


From fda3950390d89c0035bd214f25bd60aafb383f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 20/73] fix: exclusive creation opened existing files

---
 driver/driver.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 18259c9..4616da9 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -268,7 +268,18 @@ func (driver *BaseDriver) OpenFile(
 	var parentObject extObjectHandle
 	var err error
 
-	object, err = driver.getObjectAtPathFollowingLink(absPath)
+	if ioFlags.Create() && ioFlags.Exclusive() {
+		// The file must not exist. If the path is a symbolic link then it fails
+		// regardless of what it points to.
+		object, err = driver.getObjectAtPathNoFollow(absPath)
+		if err == nil {
+			object.Close()
+			return File{}, disko.ErrExists.WithMessage(absPath)
+		}
+	} else {
+		object, err = driver.getObjectAtPathFollowingLink(absPath)
+	}
+
 	if err != nil {
 		// An error occurred. If the file is missing we may be able to create it
 		// and proceed.
-- 
2.43.0


From 0a02b5f4ed20ea39675d694d9a811bc3ee98bee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 21/73] fix: opening a dangling symbolic link created a second
 object of that name

---
 driver/driver.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 4616da9..ae7aff1 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -296,6 +296,20 @@ func (driver *BaseDriver) OpenFile(
 					return File{}, err
 				}
 
+				// If there's something with that name anyway, then it's a
+				// symbolic link to a file that doesn't exist.
+				linkObject, linkErr := driver.getExtObjectInDir(baseName, parentObject)
+				if linkErr == nil {
+					linkObject.Close()
+					parentObject.Close()
+					return File{}, disko.ErrNotFound.WithMessage(
+						fmt.Sprintf("%q is a dangling symlink", absPath),
+					)
+				} else if !errors.Is(linkErr, disko.ErrNotFound) {
+					parentObject.Close()
+					return File{}, linkErr
+				}
+
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-- 
2.43.0


From 25e1f1d8902734b761a341d82b21a7f62825b653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 22/73] fix: files were resized to a number of blocks instead
 of bytes

---
 driver/file.go | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/driver/file.go b/driver/file.go
index 0fa601a..c94aad5 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -92,6 +92,10 @@ type File struct {
 	fileInfo     FileInfo
 	ioFlags      disko.IOFlags
 
+	// objectSize is the size of the object as this handle left it on the file
+	// system. It can differ from the size of the stream until [Sync] is called.
+	objectSize *int64
+
 	lastReadDirResult    []disko.DirectoryEntry
 	readDirResultPointer int
 }
@@ -109,11 +113,19 @@ func NewFileFromObjectHandle(
 	flushCb := func(index common.LogicalBlock, buffer []byte) error {
 		return object.WriteBlocks(index, buffer)
 	}
-	resizeCb := func(newSize common.LogicalBlock) error {
-		return object.Resize(uint64(newSize))
-	}
-
 	stat := object.Stat()
+	objectSize := stat.Size
+
+	// The cache deals in blocks, but objects are resized to a number of bytes.
+	resizeCb := func(newTotalBlocks common.LogicalBlock) error {
+		newSize := int64(newTotalBlocks) * stat.BlockSize
+		err := object.Resize(uint64(newSize))
+		if err != nil {
+			return err
+		}
+		objectSize = newSize
+		return nil
+	}
 	blockCache := blockcache.New(
 		uint(stat.BlockSize),
 		uint(stat.NumBlocks),
@@ -132,6 +144,7 @@ func NewFileFromObjectHandle(
 		objectHandle: object,
 		ioFlags:      ioFlags,
 		BasicStream:  stream,
+		objectSize:   &objectSize,
 		fileInfo: FileInfo{
 			FileStat:     stat,
 			absolutePath: object.AbsolutePath(),
@@ -160,7 +173,27 @@ func (file *File) Chown(uid, gid int) error {
 }
 
 func (file *File) Close() error {
-	return file.BasicStream.Close()
+	return file.Sync()
+}
+
+// Sync writes out all pending changes, including the exact size of the file.
+func (file *File) Sync() error {
+	err := file.BasicStream.Sync()
+	if err != nil {
+		return err
+	}
+
+	newSize := file.BasicStream.Size()
+	if newSize == *file.objectSize {
+		return nil
+	}
+
+	resizeErr := file.objectHandle.Resize(uint64(newSize))
+	if resizeErr != nil {
+		return resizeErr
+	}
+	*file.objectSize = newSize
+	return nil
 }
 
 func (file *File) Name() string {
-- 
2.43.0


From a32c224dc68378b50dd25df596696b39a6ec3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 23/73] fix: File.Stat gave the information from when the file
 was opened

---
 driver/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/driver/file.go b/driver/file.go
index c94aad5..60b9db2 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -287,5 +287,8 @@ func (file *File) Readdirnames(n int) ([]string, error) {
 }
 
 func (file *File) Stat() (os.FileInfo, error) {
-	return file.fileInfo.Info()
+	info := file.fileInfo
+	info.FileStat = file.objectHandle.Stat()
+	info.FileStat.Size = file.BasicStream.Size()
+	return info.Info()
 }
-- 
2.43.0


From 10a735c87bf945769cb30300e6e8c4353f83dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 24/73] fix: WriteFile ignored errors writing out the data

---
 driver/driver.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index ae7aff1..8df83b2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -701,10 +701,13 @@ func (driver *BaseDriver) WriteFile(
 	if err != nil {
 		return err
 	}
-	defer handle.Close()
 
 	_, err = handle.Write(data)
-	return err
+	closeErr := handle.Close()
+	if err != nil {
+		return err
+	}
+	return closeErr
 }
 
 func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
-- 
2.43.0


From 8695f58859c7f8d4c8a578bbaca06001bbce4d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 25/73] fix: ReadFile read directories as files

---
 driver/driver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 8df83b2..d76c139 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -454,6 +454,10 @@ func (driver *BaseDriver) ReadFile(path string) ([]byte, error) {
 	}
 	defer object.Close()
 
+	stat := object.Stat()
+	if stat.IsDir() {
+		return nil, disko.ErrIsADirectory.WithMessage(path)
+	}
 	return driver.getContentsOfObject(object)
 }
 
-- 
2.43.0


From 9ffcd42e1047f1dd92d5486c4f5756635ce43048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 26/73] fix: Mkdir created directories over existing names

---
 driver/driver.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index d76c139..404463d 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -740,6 +740,15 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 		)
 	}
 
+	// Nothing with this name must exist, not even a dangling symbolic link.
+	existingObject, err := driver.getObjectAtPathNoFollow(absPath)
+	if err == nil {
+		existingObject.Close()
+		return disko.ErrExists.WithMessage(absPath)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
+	}
+
 	object, err := driver.createExtObject(baseName, parentObject, perm)
 	if err == nil {
 		object.Close()
-- 
2.43.0


From 099c2265762d79a48cd0a60cd9c54755754edefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:00 +0000
Subject: [PATCH 27/73] fix: MkdirAll crashed if a parent directory was missing

---
 driver/driver.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 404463d..14e2eb2 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -758,30 +758,25 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 	absPath := driver.NormalizePath(path)
-	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
-
-	// Force the permissions flags to indicate this is a directory so that the
-	// caller doesn't have to remember to do it themselves.
-	perm &^= os.ModeType
-	perm |= os.ModeDir
 
-	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
-	if err != nil {
-		if errors.Is(err, disko.ErrNotFound) {
-			// Parent directory doesn't exist, create it.
-			driver.MkdirAll(parentDir, perm)
-		} else {
-			// Different error, we won't handle it.
-			return err
+	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	if err == nil {
+		// Already exists. That's fine as long as it's a directory.
+		defer object.Close()
+		stat := object.Stat()
+		if !stat.IsDir() {
+			return disko.ErrNotADirectory.WithMessage(absPath)
 		}
+		return nil
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
-	defer parentObject.Close()
 
-	object, err := driver.createExtObject(baseName, parentObject, perm)
-	if err == nil {
-		object.Close()
+	mkdirErr := driver.MkdirAll(posixpath.Dir(absPath), perm)
+	if mkdirErr != nil {
+		return mkdirErr
 	}
-	return err
+	return driver.Mkdir(absPath, perm)
 }
 
 func (driver *BaseDriver) RemoveAll(path string) error {
-- 
2.43.0


From f22ccf4a4b208d1150c70941df4cf76e1747a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 28/73] fix: RemoveAll left the directory itself behind

---
 driver/driver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 14e2eb2..4d5c553 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -800,7 +800,11 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 		)
 	}
 
-	return driver.removeDirectory(directory)
+	rmErr := driver.removeDirectory(directory)
+	if rmErr != nil {
+		return rmErr
+	}
+	return directory.Unlink()
 }
 
 // removeDirectory is equivalent to `rm -rf` for a directory handle.
-- 
2.43.0


From e872951dc9965353a66883b3c2cad61621393cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 29/73] fix: removing a symbolic link removed what it points to

---
 driver/driver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 4d5c553..48e3562 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -640,12 +640,19 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
-	object, err := driver.getObjectAtPathFollowingLink(absPath)
+	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
 	}
 	defer object.Close()
 
+	root := driver.implementation.GetRootDirectory()
+	if root.SameAs(unwrapObjectHandle(object)) {
+		return disko.ErrPermissionDenied.WithMessage(
+			"you can't remove the root directory",
+		)
+	}
+
 	stat := object.Stat()
 	if stat.IsDir() {
 		// Caller wants to remove a directory. The directory must be empty, i.e.
@@ -665,7 +672,7 @@ func (driver *BaseDriver) Remove(path string) error {
 				fmt.Sprintf("can't remove %q: directory not empty", absPath),
 			)
 		}
-	} else if !stat.IsFile() {
+	} else if !stat.IsFile() && !stat.IsSymlink() {
 		return disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("can't remove %q: not a file or directory", absPath),
 		)
@@ -781,7 +788,7 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
-	directory, err := driver.getObjectAtPathFollowingLink(path)
+	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c18072085ef7732a2cbc81c377c1d6d9833f0e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 30/73] fix: Link accepted directories and existing targets

---
 driver/driver.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 48e3562..956605a 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -541,26 +541,46 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	if err != nil {
 		return err
 	}
+	defer oldHandle.Close()
+
+	oldStat := oldHandle.Stat()
+	if oldStat.IsDir() {
+		return disko.ErrIsADirectory.WithMessage(
+			"can't create a hard link to a directory: " + absOld)
+	}
 
 	absNew := driver.NormalizePath(newname)
+	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
+	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
+	if err != nil {
+		return err
+	}
+	defer parentHandle.Close()
+
+	parentStat := parentHandle.Stat()
+	if !parentStat.IsDir() {
+		return disko.ErrNotADirectory.WithMessage(targetParentPath)
+	}
+
 	// Technically checking to see if the file exists before attempting the link
 	// can result in a TOCTOU bug. If this were a more serious project, we would
 	// do some sort of locking or push the check into the underlying implementation.
 	// This is supposed to be a fun little thing, so I'm ignoring that edge case.
-	_, err = driver.getObjectAtPathFollowingLink(absNew)
+	newHandle, err := driver.getObjectAtPathNoFollow(absNew)
 	if err == nil {
+		newHandle.Close()
 		return disko.ErrExists.WithMessage("hard link target already exists: " + absNew)
+	} else if !errors.Is(err, disko.ErrNotFound) {
+		return err
 	}
 
-	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
-	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
+	linkHandle, err := linker.CreateHardLink(
+		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
 	if err != nil {
 		return err
 	}
-
-	_, err = linker.CreateHardLink(
-		unwrapObjectHandle(oldHandle), unwrapObjectHandle(parentHandle), targetName)
-	return err
+	linkHandle.Close()
+	return nil
 }
 
 func (driver *BaseDriver) Readlink(path string) (string, error) {
-- 
2.43.0


From e33fb7daba4a37bd53252404929ed925d9badcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 31/73] fix: ReadDir asked files for their entries

---
 driver/driver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/driver/driver.go b/driver/driver.go
index 956605a..f779c0b 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -488,6 +488,10 @@ func (driver *BaseDriver) ReadDir(path string) ([]disko.DirectoryEntry, error) {
 	}
 	defer directory.Close()
 
+	stat := directory.Stat()
+	if !stat.IsDir() {
+		return nil, disko.ErrNotADirectory.WithMessage(absPath)
+	}
 	return driver.readDir(directory)
 }
 
-- 
2.43.0


From 0f96ac31a886cb67f0ad763d317bf7072b13f487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 32/73] fix: DirectoryEntry.Stat crashed

---
 driver/dirent.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/driver/dirent.go b/driver/dirent.go
index 7579a01..dfe8ef3 100644
--- a/driver/dirent.go
+++ b/driver/dirent.go
@@ -51,6 +51,11 @@ func (dirent DirectoryEntry) ModTime() time.Time {
 	return dirent.stat.LastModified
 }
 
+// Stat implements [disko.DirectoryEntry].
+func (dirent DirectoryEntry) Stat() disko.FileStat {
+	return dirent.stat
+}
+
 func (dirent DirectoryEntry) Sys() any {
 	return dirent.stat
 }
-- 
2.43.0


From 04fefc300f78badbe9973121f9aa5be95a3210be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 33/73] fix: most operations ignored the mount permissions

---
 driver/driver.go | 72 ++++++++++++++++++++++++++++++++++++++++++------
 driver/file.go   | 12 ++++++++
 2 files changed, 75 insertions(+), 9 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index f779c0b..70d7c6e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -246,6 +246,20 @@ func (driver *BaseDriver) createExtObject(
 	return object, nil
 }
 
+// requireMountFlag gives an error if the volume wasn't mounted with the given
+// permission.
+func (driver *BaseDriver) requireMountFlag(
+	flag disko.MountFlags, path string,
+) disko.DriverError {
+	if driver.mountFlags&flag != 0 {
+		return nil
+	}
+	if flag == disko.MountFlagsAllowWrite {
+		return disko.ErrReadOnlyFileSystem.WithMessage(path)
+	}
+	return disko.ErrNotPermitted.WithMessage(path)
+}
+
 // OpenFile opens a file for I/O.
 func (driver *BaseDriver) OpenFile(
 	path string,
@@ -255,15 +269,6 @@ func (driver *BaseDriver) OpenFile(
 	absPath := driver.NormalizePath(path)
 	ioFlags := disko.IOFlags(flags)
 
-	if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
-		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
-			fmt.Sprintf(
-				"can't open %q for writing: image is mounted read-only",
-				absPath,
-			),
-		)
-	}
-
 	var object extObjectHandle
 	var parentObject extObjectHandle
 	var err error
@@ -286,6 +291,11 @@ func (driver *BaseDriver) OpenFile(
 		if errors.Is(err, disko.ErrNotFound) {
 			// File does not exist, can we create it?
 			if ioFlags.Create() {
+				permErr := driver.requireMountFlag(disko.MountFlagsAllowInsert, absPath)
+				if permErr != nil {
+					return File{}, permErr
+				}
+
 				// To create the missing file, we need to get a handle for its
 				// parent directory, then call CreateObject() for the file in
 				// that directory.
@@ -329,6 +339,14 @@ func (driver *BaseDriver) OpenFile(
 		if err != nil {
 			return File{}, err
 		}
+	} else if ioFlags.RequiresWritePerm() && !driver.mountFlags.CanWrite() {
+		object.Close()
+		return File{}, disko.ErrReadOnlyFileSystem.WithMessage(
+			fmt.Sprintf(
+				"can't open %q for writing: image is mounted read-only",
+				absPath,
+			),
+		)
 	}
 
 	stat := object.Stat()
@@ -365,6 +383,10 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowAdminister, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -379,6 +401,10 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowAdminister, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -396,6 +422,10 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 // Surely there's a cleaner way to do this.
 func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowAdminister, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -410,6 +440,10 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 
 func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time) error {
 	absPath := driver.NormalizePath(name)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowWrite, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -554,6 +588,10 @@ func (driver *BaseDriver) Link(oldname, newname string) error {
 	}
 
 	absNew := driver.NormalizePath(newname)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowInsert, absNew); err != nil {
+		return err
+	}
+
 	targetParentPath, targetName := posixpath.Dir(absNew), posixpath.Base(absNew)
 	parentHandle, err := driver.getObjectAtPathFollowingLink(targetParentPath)
 	if err != nil {
@@ -664,6 +702,10 @@ func removeDotsFromSlice(arr []string) []string {
 
 func (driver *BaseDriver) Remove(path string) error {
 	absPath := driver.NormalizePath(path)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowDelete, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathNoFollow(absPath)
 	if err != nil {
 		return err
@@ -708,6 +750,10 @@ func (driver *BaseDriver) Remove(path string) error {
 // Truncate sets the size of a file to 0.
 func (driver *BaseDriver) Truncate(path string) error {
 	absPath := driver.NormalizePath(path)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowWrite, absPath); err != nil {
+		return err
+	}
+
 	object, err := driver.getObjectAtPathFollowingLink(absPath)
 	if err != nil {
 		return err
@@ -752,6 +798,10 @@ func (driver *BaseDriver) Mkdir(path string, perm os.FileMode) error {
 	perm |= os.ModeDir
 
 	absPath := driver.NormalizePath(path)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowInsert, absPath); err != nil {
+		return err
+	}
+
 	parentDir, baseName := posixpath.Dir(absPath), posixpath.Base(absPath)
 
 	parentObject, err := driver.getObjectAtPathFollowingLink(parentDir)
@@ -812,6 +862,10 @@ func (driver *BaseDriver) MkdirAll(path string, perm os.FileMode) error {
 
 func (driver *BaseDriver) RemoveAll(path string) error {
 	path = driver.NormalizePath(path)
+	if err := driver.requireMountFlag(disko.MountFlagsAllowDelete, path); err != nil {
+		return err
+	}
+
 	directory, err := driver.getObjectAtPathNoFollow(path)
 	if err != nil {
 		return err
diff --git a/driver/file.go b/driver/file.go
index 60b9db2..a4d1460 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -157,6 +157,12 @@ func (file *File) Chdir() error {
 }
 
 func (file *File) Chmod(mode os.FileMode) error {
+	err := file.owningDriver.requireMountFlag(
+		disko.MountFlagsAllowAdminister, file.fileInfo.absolutePath)
+	if err != nil {
+		return err
+	}
+
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
 		return chmodHandle.Chmod(mode)
@@ -165,6 +171,12 @@ func (file *File) Chmod(mode os.FileMode) error {
 }
 
 func (file *File) Chown(uid, gid int) error {
+	err := file.owningDriver.requireMountFlag(
+		disko.MountFlagsAllowAdminister, file.fileInfo.absolutePath)
+	if err != nil {
+		return err
+	}
+
 	chownHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChownHandle)
 	if ok {
 		return chownHandle.Chown(uid, gid)
-- 
2.43.0


From e9aeb189f3e5afe4f607e91468f4380b1e982c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:22 +0000
Subject: [PATCH 34/73] fix: inode sizes had the wrong byte order

---
 file_systems/unixv6/dirents.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index cdcaa12..425a3f3 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -123,9 +123,11 @@ func RawInodeToStat(inumber Inumber, inode RawInode) (disko.FileStat, error) {
 		return disko.FileStat{}, err
 	}
 
-	size := uint(inode.Size[0]) |
-		(uint(inode.Size[1]) << 8) |
-		(uint(inode.Size[2]) << 16)
+	// The most significant byte comes first (size0), followed by the low word
+	// (size1) which is little-endian.
+	size := (uint(inode.Size[0]) << 16) |
+		uint(inode.Size[1]) |
+		(uint(inode.Size[2]) << 8)
 
 	blocks := size / 512
 	if size%512 != 0 {
-- 
2.43.0


From 62e7c056aa726813c30204cf02882b110d109d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:23 +0000
Subject: [PATCH 35/73] fix: character devices were not a standard file mode

---
 file_systems/unixv6/dirents.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/unixv6/dirents.go b/file_systems/unixv6/dirents.go
index 425a3f3..c535af3 100644
--- a/file_systems/unixv6/dirents.go
+++ b/file_systems/unixv6/dirents.go
@@ -69,7 +69,7 @@ func ConvertFSFlagsToStandard(flags uint16) (os.FileMode, error) {
 	case FileTypeBlockDevice:
 		mode |= os.ModeDevice
 	case FileTypeCharDevice:
-		mode |= os.ModeCharDevice
+		mode |= os.ModeDevice | os.ModeCharDevice
 	case FileTypeDirectory:
 		mode |= os.ModeDir
 	}
@@ -89,7 +89,7 @@ func ConvertStandardFlagsToFS(flags os.FileMode) (uint16, error) {
 	mode := uint16(flags&os.ModePerm) | FlagIsAllocated
 
 	switch flags & os.ModeType {
-	case os.ModeCharDevice:
+	case os.ModeCharDevice, os.ModeDevice | os.ModeCharDevice:
 		mode |= FileTypeCharDevice
 	case os.ModeDevice:
 		mode |= FileTypeBlockDevice
-- 
2.43.0


From d5f0ea46f04db64e225d13ccc362d9e7b0c0170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:18 +0000
Subject: [PATCH 36/73] fix: messages added to a new error lost its text

---
 errors.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/errors.go b/errors.go
index b4fe158..61e859d 100644
--- a/errors.go
+++ b/errors.go
@@ -70,6 +70,9 @@ func (e baseDiskoError) RootCause() DriverError {
 }
 
 func (e baseDiskoError) WithMessage(message string) DriverError {
+	if e != rootError {
+		message = fmt.Sprintf("%s: %s", e.Error(), message)
+	}
 	return customDriverError{
 		message:       message,
 		originalError: e,
-- 
2.43.0


From 9053833b7f033aa40bbda3c91205f23f9d5de73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 37/73] fix: wrapped multierrors lost their identity

---
 errors.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/errors.go b/errors.go
index 61e859d..5c98ba2 100644
--- a/errors.go
+++ b/errors.go
@@ -82,7 +82,7 @@ func (e baseDiskoError) WithMessage(message string) DriverError {
 func (e baseDiskoError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: &multierror.Error{Errors: []error{e, err}},
 	}
 }
 
@@ -114,7 +114,7 @@ func (e customDriverError) WithMessage(message string) DriverError {
 func (e customDriverError) Wrap(err error) DriverError {
 	return customDriverError{
 		message:       fmt.Sprintf("%s: %s", e.Error(), err.Error()),
-		originalError: multierror.Append(e, err),
+		originalError: &multierror.Error{Errors: []error{e, err}},
 	}
 }
 
-- 
2.43.0


From 562556432a5c84916cbcea521cc457985d251ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:16 +0000
Subject: [PATCH 38/73] fix: FAT8 could not read the last block

---
 file_systems/fat8/iobase.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index d9dab62..3774baf 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -10,11 +10,12 @@ import (
 // BLOCK-LEVEL ACCESS ==========================================================
 
 func (driver *FAT8Driver) ReadDiskBlocks(start PhysicalBlock, count uint) ([]byte, error) {
-	if (uint(start) + count) >= uint(driver.stat.TotalBlocks) {
+	totalBlocks := uint(driver.stat.TotalBlocks)
+	if count > totalBlocks || uint(start) > totalBlocks-count {
 		return nil, fmt.Errorf(
 			"refusing to read past end of image: %d blocks at %d exceeds limit of %d",
-			start,
 			count,
+			start,
 			driver.stat.TotalBlocks,
 		)
 	}
-- 
2.43.0


From 505e6c4d28d243b0337198628137d258eba36353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 39/73] fix: FAT8 wrote clusters to the wrong sectors

---
 file_systems/fat8/iobase.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 3774baf..2047bae 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -89,7 +89,7 @@ func (driver *FAT8Driver) WriteAbsoluteCluster(clusterID PhysicalCluster, data [
 			len(data))
 	}
 
-	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerTrack
+	physicalBlock := uint(clusterID-1) * driver.geometry.SectorsPerCluster
 	return driver.WriteDiskBlocks(PhysicalBlock(physicalBlock), data)
 }
 
-- 
2.43.0


From fcc96a84a1c145c017f6173e71fa4099cf67906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 40/73] fix: FAT8 read the wrong cluster of a file

---
 file_systems/fat8/iobase.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/file_systems/fat8/iobase.go b/file_systems/fat8/iobase.go
index 2047bae..e5b3630 100644
--- a/file_systems/fat8/iobase.go
+++ b/file_systems/fat8/iobase.go
@@ -137,7 +137,7 @@ func (driver *FAT8Driver) writeFAT() error {
 func (driver *FAT8Driver) ReadFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster,
 ) ([]byte, error) {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return nil, fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
@@ -146,14 +146,13 @@ func (driver *FAT8Driver) ReadFileCluster(
 	}
 
 	physicalCluster := dirent.clusters[cluster]
-	physicalBlock := PhysicalBlock(uint(physicalCluster) * driver.geometry.SectorsPerCluster)
-	return driver.ReadDiskBlocks(physicalBlock, driver.geometry.SectorsPerCluster)
+	return driver.ReadAbsoluteCluster(physicalCluster)
 }
 
 func (driver *FAT8Driver) WriteFileCluster(
 	dirent *DirectoryEntry, cluster LogicalCluster, data []byte,
 ) error {
-	if int(cluster) >= len(dirent.clusters) {
+	if uint(cluster) >= uint(len(dirent.clusters)) {
 		return fmt.Errorf(
 			"cluster index out of bounds: %d not in [0, %d)",
 			cluster,
-- 
2.43.0


From 542be0ff549f3c8c73708e6aef3b7c0392f01589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 41/73] fix: FAT8 images could not be mounted

---
 file_systems/fat8/driver.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 1fae1ba..45f6982 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -1,6 +1,7 @@
 package fat8
 
 import (
+	"fmt"
 	"io"
 	"os"
 
@@ -62,11 +63,21 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 		return err
 	}
 
+	if offset%128 != 0 {
+		return disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf("disk image must be a multiple of 128 bytes, got %d", offset))
+	}
+
 	geo, err := GetGeometry(uint(offset) / 128)
 	if err != nil {
 		return disko.ErrFileSystemCorrupted.Wrap(err)
 	}
 	driver.geometry = geo
+	driver.stat = disko.FSStat{
+		BlockSize:     128,
+		TotalBlocks:   uint64(offset) / 128,
+		MaxNameLength: 10,
+	}
 
 	// All FATs are identical on a clean volume, so we only need to store the
 	// first one. We might add dirty volume checking later.
-- 
2.43.0


From a13702acd1ad98df567c543d1c253960696c7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 42/73] fix: FAT8 listed padding as free clusters

---
 file_systems/fat8/driver.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat8/driver.go b/file_systems/fat8/driver.go
index 45f6982..62e92e6 100644
--- a/file_systems/fat8/driver.go
+++ b/file_systems/fat8/driver.go
@@ -87,8 +87,10 @@ func (driver *FAT8Driver) Mount(flags disko.MountFlags) error {
 	}
 	driver.fat = fat
 
-	// Build a list of all currently free clusters.
-	for i, clusterNumber := range fat {
+	// Build a list of all currently free clusters. Entries past the last cluster
+	// are padding.
+	driver.freeClusters = nil
+	for i, clusterNumber := range fat[:geo.TotalClusters] {
 		if clusterNumber == 0xff {
 			driver.freeClusters = append(driver.freeClusters, uint8(i+1))
 		}
-- 
2.43.0


From 693d089f72bc389502c8ad516bd7858c65be1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 43/73] fix: FAT8 formatting kept old contents

---
 file_systems/fat8/formattingdriver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index 6ea1815..e889a00 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -60,7 +60,14 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 
 	// Create a blank image filled with null bytes
 	fileSize := 128 * geo.TrueTotalTracks * geo.SectorsPerTrack
-	driver.image.Truncate(int64(fileSize))
+	err = driver.image.Truncate(0)
+	if err != nil {
+		return err
+	}
+	err = driver.image.Truncate(int64(fileSize))
+	if err != nil {
+		return err
+	}
 
 	// According to the documentation, a newly formatted image must have the
 	// directory entries filled with 0xFF. Write out FF to all the dirents, up
-- 
2.43.0


From 0b939f5dd3ffab03e8d535cdc9f3b095ee5f956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:22 +0000
Subject: [PATCH 44/73] fix: FAT8 formatting reserved the wrong clusters

---
 file_systems/fat8/formattingdriver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat8/formattingdriver.go b/file_systems/fat8/formattingdriver.go
index e889a00..817479e 100644
--- a/file_systems/fat8/formattingdriver.go
+++ b/file_systems/fat8/formattingdriver.go
@@ -93,9 +93,9 @@ func (driver *FAT8Driver) FormatImage(options disks.BasicFormatterOptions) error
 	// reserved by putting 0xFE in its cluster entry. (It's always the middle
 	// track.)
 	fat := bytes.Repeat([]byte{0xff}, int(geo.SectorsPerFAT)*128)
-	directoryClusterNumber := uint(geo.DirectoryTrackStart) / geo.SectorsPerTrack
-	fat[directoryClusterNumber] = 0xfe
-	fat[directoryClusterNumber+1] = 0xfe
+	directoryCluster := uint(geo.DirectoryTrackStart) / geo.SectorsPerCluster
+	fat[directoryCluster] = 0xfe
+	fat[directoryCluster+1] = 0xfe
 
 	// Write all three copies of the FATs
 	allFATs := bytes.Repeat(fat, 3)
-- 
2.43.0


From 56b304da238f8c2d917a322483db306c54b58e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 45/73] fix: FAT8 names could be longer than nine bytes

---
 file_systems/fat8/common.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/file_systems/fat8/common.go b/file_systems/fat8/common.go
index 13eac3f..61f4629 100644
--- a/file_systems/fat8/common.go
+++ b/file_systems/fat8/common.go
@@ -92,6 +92,14 @@ func FilenameToBytes(name string) ([]byte, error) {
 		return nil, disko.ErrInvalidArgument.WithMessage("filename must not be empty")
 	}
 
+	// Names are stored one byte per character.
+	for i := 0; i < len(name); i++ {
+		if name[i] >= 0x80 {
+			message := fmt.Sprintf("filename must be ASCII: %q", name)
+			return nil, disko.ErrInvalidArgument.WithMessage(message)
+		}
+	}
+
 	parts := strings.SplitN(name, ".", 2)
 
 	// Unless we got an empty string, this will always have at least one element,
-- 
2.43.0


From d80ad6d5d265a303f9c66275a26f2396a7faff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:04 +0000
Subject: [PATCH 46/73] fix: parsing a FAT boot sector always crashed

---
 file_systems/fat/common.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 43e7195..1c015ff 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -25,13 +25,13 @@ type RawFATBootSectorWithBPB struct {
 	ReservedSectors   uint16
 	NumFATs           uint8
 	RootEntryCount    uint16
-	totalSectors16    uint16
+	TotalSectors16    uint16
 	Media             uint8
-	sectorsPerFAT16   uint16
+	SectorsPerFAT16   uint16
 	SectorsPerTrack   uint16
 	NumHeads          uint16
 	HiddenSectors     uint32
-	totalSectors32    uint32
+	TotalSectors32    uint32
 }
 
 // FATBootSector extends RawFATBootSectorWithBPB with precomputed fields useful in other
@@ -83,17 +83,17 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	}
 
 	var sectorsPerFAT uint
-	if rawHeader.sectorsPerFAT16 != 0 {
-		sectorsPerFAT = uint(rawHeader.sectorsPerFAT16)
+	if rawHeader.SectorsPerFAT16 != 0 {
+		sectorsPerFAT = uint(rawHeader.SectorsPerFAT16)
 	} else {
 		sectorsPerFAT = uint(sectorsPerFAT32)
 	}
 
 	var totalSectors uint
-	if rawHeader.totalSectors16 != 0 {
-		totalSectors = uint(rawHeader.totalSectors16)
+	if rawHeader.TotalSectors16 != 0 {
+		totalSectors = uint(rawHeader.TotalSectors16)
 	} else {
-		totalSectors = uint(rawHeader.totalSectors32)
+		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
@@ -163,13 +163,13 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 			ReservedSectors:   rawHeader.ReservedSectors,
 			NumFATs:           rawHeader.NumFATs,
 			RootEntryCount:    rawHeader.RootEntryCount,
-			totalSectors16:    rawHeader.totalSectors16,
+			TotalSectors16:    rawHeader.TotalSectors16,
 			Media:             rawHeader.Media,
-			sectorsPerFAT16:   rawHeader.sectorsPerFAT16,
+			SectorsPerFAT16:   rawHeader.SectorsPerFAT16,
 			SectorsPerTrack:   rawHeader.SectorsPerTrack,
 			NumHeads:          rawHeader.NumHeads,
 			HiddenSectors:     rawHeader.HiddenSectors,
-			totalSectors32:    rawHeader.totalSectors32,
+			TotalSectors32:    rawHeader.TotalSectors32,
 		},
 		SectorsPerFAT:     sectorsPerFAT,
 		TotalFATSectors:   totalFATSectors,
-- 
2.43.0


From d017ddddb39cee9dbe313332d51f07a562363b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 47/73] fix: FAT boot sectors with zero sizes crashed

---
 file_systems/fat/common.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 1c015ff..26e3e9a 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -96,15 +96,6 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		totalSectors = uint(rawHeader.TotalSectors32)
 	}
 
-	// The number of sectors taken up by the root directory. On FAT32 systems, this will
-	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
-
-	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
-
 	// BytesPerSector must be 512, 1024, 2048, or 4096.
 	switch rawHeader.BytesPerSector {
 	case 512:
@@ -135,6 +126,15 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
 	}
 
+	// The number of sectors taken up by the root directory. On FAT32 systems, this will
+	// be 0.
+	rootDirSectors := uint(
+		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
+
+	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
+	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
+
 	fatVersion := DetermineFATVersion(totalClusters)
 	if fatVersion == 32 && rootDirSectors != 0 {
 		message := fmt.Sprintf(
-- 
2.43.0


From 0c57b4d5d09d9b87e6f675fe5650d3fa8ac31df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 48/73] fix: FAT root directory sizes overflowed

---
 file_systems/fat/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 26e3e9a..55afbd0 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -128,8 +128,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 
 	// The number of sectors taken up by the root directory. On FAT32 systems, this will
 	// be 0.
-	rootDirSectors := uint(
-		((rawHeader.RootEntryCount * 32) + (rawHeader.BytesPerSector - 1)) / rawHeader.BytesPerSector)
+	bytesPerSector := uint(rawHeader.BytesPerSector)
+	rootDirSectors := (uint(rawHeader.RootEntryCount)*DirentSize + bytesPerSector - 1) / bytesPerSector
 
 	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
 	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
-- 
2.43.0


From 67cb3da93cda8dee6302036c06c04e1fc74af4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:07 +0000
Subject: [PATCH 49/73] fix: FAT data areas were computed wrongly

---
 file_systems/fat/common.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/common.go b/file_systems/fat/common.go
index 55afbd0..64d9f03 100644
--- a/file_systems/fat/common.go
+++ b/file_systems/fat/common.go
@@ -132,7 +132,16 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 	rootDirSectors := (uint(rawHeader.RootEntryCount)*DirentSize + bytesPerSector - 1) / bytesPerSector
 
 	totalFATSectors := uint(rawHeader.NumFATs) * sectorsPerFAT
-	dataSectors := totalSectors - uint(rawHeader.ReservedSectors) + totalFATSectors + uint(rootDirSectors)
+	firstDataSector := uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors
+	if firstDataSector > totalSectors {
+		message := fmt.Sprintf(
+			"corruption detected: %d sectors before the data but the volume has only %d",
+			firstDataSector,
+			totalSectors)
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(message)
+	}
+
+	dataSectors := totalSectors - firstDataSector
 	totalClusters := dataSectors / uint(rawHeader.SectorsPerCluster)
 
 	fatVersion := DetermineFATVersion(totalClusters)
@@ -176,8 +185,8 @@ func NewFATBootSectorFromStream(reader io.Reader) (*FATBootSector, error) {
 		RootDirSectors:    rootDirSectors,
 		BytesPerCluster:   bytesPerCluster,
 		TotalClusters:     totalClusters,
-		TotalDataSectors:  totalSectors - (uint(rawHeader.ReservedSectors) + totalFATSectors + rootDirSectors),
-		FirstDataSector:   SectorID(uint(rawHeader.ReservedSectors) + rootDirSectors),
+		TotalDataSectors:  dataSectors,
+		FirstDataSector:   SectorID(firstDataSector),
 		FATVersion:        fatVersion,
 		DirentsPerCluster: int(bytesPerCluster) / DirentSize,
 	}
-- 
2.43.0


From 767c9a2af6c9e9df6dd5bc6c16857cd169916b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 50/73] fix: FAT directory entries were decoded at the wrong
 offsets

---
 file_systems/fat/dirent.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index aff9323..f5616a4 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -3,6 +3,7 @@ package fat
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"os"
 	"strings"
 	"syscall"
@@ -225,18 +226,23 @@ func AttrFlagsToFileMode(flags uint8) os.FileMode {
 // NewRawDirentFromBytes deserializes 32 bytes into a RawDirent struct for further
 // processing.
 func NewRawDirentFromBytes(data []byte) (RawDirent, error) {
+	if len(data) < DirentSize {
+		return RawDirent{}, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("a directory entry has %d bytes, got %d", DirentSize, len(data)))
+	}
+
 	dirent := RawDirent{
-		AttributeFlags:    data[12],
-		NTReserved:        data[13],
-		CreatedTimeMillis: data[14],
-		CreatedTime:       binary.LittleEndian.Uint16(data[15:17]),
-		CreatedDate:       binary.LittleEndian.Uint16(data[17:19]),
-		LastAccessedDate:  binary.LittleEndian.Uint16(data[19:21]),
-		FirstClusterHigh:  binary.LittleEndian.Uint16(data[21:23]),
-		LastModifiedTime:  binary.LittleEndian.Uint16(data[23:25]),
-		LastModifiedDate:  binary.LittleEndian.Uint16(data[25:27]),
-		FirstClusterLow:   binary.LittleEndian.Uint16(data[27:29]),
-		FileSize:          binary.LittleEndian.Uint32(data[29:32]),
+		AttributeFlags:    data[11],
+		NTReserved:        data[12],
+		CreatedTimeMillis: data[13],
+		CreatedTime:       binary.LittleEndian.Uint16(data[14:16]),
+		CreatedDate:       binary.LittleEndian.Uint16(data[16:18]),
+		LastAccessedDate:  binary.LittleEndian.Uint16(data[18:20]),
+		FirstClusterHigh:  binary.LittleEndian.Uint16(data[20:22]),
+		LastModifiedTime:  binary.LittleEndian.Uint16(data[22:24]),
+		LastModifiedDate:  binary.LittleEndian.Uint16(data[24:26]),
+		FirstClusterLow:   binary.LittleEndian.Uint16(data[26:28]),
+		FileSize:          binary.LittleEndian.Uint32(data[28:32]),
 	}
 
 	copy(dirent.Name[:], data[:8])
-- 
2.43.0


From 21a6530b3b9192b4dca1ae7ae88207b0102b98a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 51/73] fix: FAT dates crashed

---
 file_systems/fat/dirent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index f5616a4..ba2d421 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -176,7 +176,7 @@ func DateFromInt(value uint16) time.Time {
 	createMonth := time.Month((value >> 5) & 0x000f)
 	createYear := int(1980 + (value >> 9))
 
-	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, nil)
+	return time.Date(createYear, createMonth, createDay, 0, 0, 0, 0, time.Local)
 }
 
 // TimestampFromParts converts a FAT timestamp into a [time.Time] object.
@@ -196,7 +196,7 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 	nanoseconds := int(timePart * 10000)
 
 	return time.Date(
-		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, nil)
+		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
 // AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-- 
2.43.0


From 04c7c337b6b46f54a62d2b734d1489b5bd3a6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 52/73] fix: FAT creation times had a wrong fraction

---
 file_systems/fat/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index ba2d421..a0181ae 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -193,7 +193,7 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 
 	minutes := int((timePart >> 5) & 0x003f)
 	hours := int(timePart >> 11)
-	nanoseconds := int(timePart * 10000)
+	nanoseconds := int(hundredths) * 10_000_000
 
 	return time.Date(
 		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
-- 
2.43.0


From 98d358357e7571eb71f326feee1830c2b0d9da40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 53/73] fix: FAT attributes gave no usable file modes

---
 file_systems/fat/dirent.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index a0181ae..0068b1f 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -199,25 +199,22 @@ func TimestampFromParts(datePart uint16, timePart uint16, hundredths uint8) time
 		dateDt.Year(), dateDt.Month(), dateDt.Day(), hours, minutes, seconds, nanoseconds, time.Local)
 }
 
-// AttrFlagsToFileMode converts FAT attribute flags into the mode flags used by
-// [syscall.Stat_t.Mode].
+// AttrFlagsToFileMode converts FAT attribute flags into file mode flags.
 func AttrFlagsToFileMode(flags uint8) os.FileMode {
 	var mode os.FileMode
 
 	// FAT has no way to mark files as executable or not, so the executable bit
 	// is always set.
 	if (flags & AttrReadOnly) != 0 {
-		mode = 0o755
+		mode = 0o555
 	} else {
 		mode = 0o777
 	}
 
 	if (flags & AttrDirectory) != 0 {
-		mode |= syscall.S_IFDIR
+		mode |= os.ModeDir
 	} else if (flags & AttrDevice) != 0 {
-		mode |= syscall.S_IFCHR
-	} else {
-		mode |= syscall.S_IFREG
+		mode |= os.ModeDevice | os.ModeCharDevice
 	}
 
 	return mode
-- 
2.43.0


From a74390961370176a535a1c4132c634e6f75ff972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:34 +0000
Subject: [PATCH 54/73] fix: blank FAT names crashed

---
 file_systems/fat/dirent.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 0068b1f..b681687 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -305,14 +305,14 @@ func NewDirentFromRaw(bootSector *FATBootSector, rawDirent *RawDirent) (Dirent,
 	trimmedName := strings.TrimRight(string(rawDirent.Name[:]), " ")
 	trimmedExt := strings.TrimRight(string(rawDirent.Extension[:]), " ")
 
-	if trimmedName[0] == 0xE5 {
+	if isDeleted {
 		// Represents a deleted file. The real first character of the filename is in
 		// CreatedTimeMillis.
 		trimmedName = string([]byte{rawDirent.CreatedTimeMillis}) + trimmedName[1:]
-	} else if trimmedName[0] == 0x05 {
+	} else if rawDirent.Name[0] == 0x05 {
 		// First character of the filename is E5.
 		trimmedName = "\xe5" + trimmedName[1:]
-	} else if trimmedName[0] == 0 {
+	} else if rawDirent.Name[0] == 0 {
 		// This directory entry is free and thus invalid.
 		return Dirent{}, disko.ErrNotFound
 	}
-- 
2.43.0


From b74b802e92ce394bcbf8f373edcb5de93c432750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 55/73] fix: FAT entries could not be marked deleted

---
 file_systems/fat/dirent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index b681687..6bf8e4f 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -163,7 +163,8 @@ func (d *Dirent) SetDeletedAt(t time.Time) error {
 		return disko.ErrArgumentOutOfRange
 	}
 	d.isDeleted = true
-	return d.SetCreatedAt(t)
+	d.stat.DeletedAt = t
+	return nil
 }
 
 // DirentSize is the size of a single raw directory entry, in bytes.
-- 
2.43.0


From f8282a21af25febb041028b743cb4dace24c2ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 56/73] fix: FAT clusters are numbered from 2

---
 file_systems/fat/driverbase.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index c250927..034d02b 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -34,9 +34,15 @@ type FATDriver struct {
 }
 
 func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, error) {
+	// The first two entries in the FAT are reserved, so clusters are numbered from 2.
+	if cluster < 2 {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("invalid cluster 0x%x has no sectors", cluster))
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	return bootSector.FirstDataSector + SectorID(
-		uint32(bootSector.SectorsPerCluster)*uint32(cluster)), nil
+		uint32(bootSector.SectorsPerCluster)*uint32(cluster-2)), nil
 }
 
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
-- 
2.43.0


From 77e11de47958c4754628de97ffc2463b1efca316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 57/73] fix: FAT sectors were read from the wrong place

---
 file_systems/fat/driverbase.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 034d02b..339cdf0 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -48,16 +48,19 @@ func (drv *FATDriver) getFirstSectorOfCluster(cluster ClusterID) (SectorID, erro
 func (drv *FATDriver) readAbsoluteSectors(sector SectorID, numSectors uint) ([]byte, error) {
 	bootSector := drv.fs.GetBootSector()
 
-	buffer := make([]byte, bootSector.BytesPerSector)
+	buffer := make([]byte, uint(bootSector.BytesPerSector)*numSectors)
 	diskFile := drv.diskFile.(io.ReaderAt)
 
-	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector)*int64(numSectors))
+	nRead, err := diskFile.ReadAt(buffer, int64(bootSector.BytesPerSector)*int64(sector))
 
-	if err != nil {
-		return buffer, err
-	} else if nRead < int(bootSector.BytesPerSector) {
+	// A reader may return io.EOF along with the last bytes of the image.
+	if nRead == len(buffer) && err == io.EOF {
+		return buffer, nil
+	} else if err != nil {
+		return nil, err
+	} else if nRead < len(buffer) {
 		return nil, fmt.Errorf(
-			"unexpected short read. Wanted %d bytes, got %d", bootSector.BytesPerSector, nRead)
+			"unexpected short read. Wanted %d bytes, got %d", len(buffer), nRead)
 	}
 
 	return buffer, nil
-- 
2.43.0


From da3d65b8e3445bf52e989f2012f058bf0e6b0916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 58/73] fix: FAT cluster chains were rejected at their end and
 could loop

---
 file_systems/fat/driverbase.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 339cdf0..6d76821 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -82,16 +82,26 @@ func (drv *FATDriver) readCluster(cluster ClusterID) ([]byte, error) {
 // The returned list will always have chainStart as its first member, unless chainStart
 // is an EOF marker (e.g. 0xFFF on FAT12 systems). In this case, the list is empty.
 func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
-	if !drv.fs.IsValidCluster(chainStart) {
+	if !drv.fs.IsEndOfChain(chainStart) && !drv.fs.IsValidCluster(chainStart) {
 		return nil, disko.ErrInvalidArgument.WithMessage(
 			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", chainStart))
 	}
 
 	chain := []ClusterID{}
+	seen := map[ClusterID]bool{}
 	currentCluster := chainStart
 	i := 0
 
 	for !drv.fs.IsEndOfChain(currentCluster) {
+		if seen[currentCluster] {
+			return chain, disko.ErrFileSystemCorrupted.WithMessage(
+				fmt.Sprintf(
+					"cluster %d occurs again at index %d in chain from %d",
+					currentCluster,
+					i,
+					chainStart))
+		}
+		seen[currentCluster] = true
 		chain = append(chain, currentCluster)
 
 		nextCluster, err := drv.fs.GetClusterAtIndex(uint(currentCluster))
@@ -99,7 +109,7 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 			return nil, err
 		}
 
-		if !drv.fs.IsValidCluster(nextCluster) {
+		if !drv.fs.IsEndOfChain(nextCluster) && !drv.fs.IsValidCluster(nextCluster) {
 			// Hit an invalid cluster. This is not the same as EOF, and usually indicates
 			// corruption of some sort.
 			return chain, disko.ErrFileSystemCorrupted.WithMessage(
-- 
2.43.0


From fa4c0d356525abe21308c2b775cdb08521c7c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 59/73] fix: full FAT directories could not be listed

---
 file_systems/fat/driverbase.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 6d76821..94efd27 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -133,6 +133,11 @@ func (drv *FATDriver) listClusters(chainStart ClusterID) ([]ClusterID, error) {
 // `firstCluster`. Indexing begins at 0. A cluster ID of 0 indicates an error occurred,
 // and the Error object in the second return value will indicate what went wrong.
 func (drv *FATDriver) getClusterInChain(firstCluster ClusterID, index uint) (ClusterID, error) {
+	if !drv.fs.IsValidCluster(firstCluster) || drv.fs.IsEndOfChain(firstCluster) {
+		return 0, disko.ErrInvalidArgument.WithMessage(
+			fmt.Sprintf("invalid cluster 0x%x cannot start a cluster chain", firstCluster))
+	}
+
 	currentCluster := firstCluster
 
 	for i := uint(0); i < index; i++ {
@@ -223,12 +228,17 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	allClusters, err := drv.listClusters(directoryDirent.FirstCluster)
+	if err != nil {
+		return nil, err
+	}
+
 	bootSector := drv.fs.GetBootSector()
 	allDirents := []Dirent{}
 
-	i := uint(0)
-	for {
-		clusterData, err := drv.readClusterOfDirent(directoryDirent, i)
+	// The entries end at the first free one or, in a full directory, with the chain.
+	for _, cluster := range allClusters {
+		clusterData, err := drv.readCluster(cluster)
 		if err != nil {
 			return nil, err
 		}
@@ -242,8 +252,6 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		if len(clusterDirents) < bootSector.DirentsPerCluster {
 			break
 		}
-
-		i++
 	}
 
 	return allDirents, nil
-- 
2.43.0


From cc3f9e593a4288898c86a08a1956f67495f66e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:31 +0000
Subject: [PATCH 60/73] fix: FAT paths were not resolved

---
 file_systems/fat/dirent.go     |  1 +
 file_systems/fat/driverbase.go | 65 +++++++++++++++++++++++-----------
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/file_systems/fat/dirent.go b/file_systems/fat/dirent.go
index 6bf8e4f..590f549 100644
--- a/file_systems/fat/dirent.go
+++ b/file_systems/fat/dirent.go
@@ -89,6 +89,7 @@ type Dirent struct {
 	NTReserved     int
 	FirstCluster   ClusterID
 	isDeleted      bool
+	isRoot         bool
 	size           int64
 	mode           os.FileMode
 	stat           disko.FileStat
diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 94efd27..ab6f959 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/dargueta/disko"
@@ -187,40 +188,55 @@ func (drv *FATDriver) readClusterOfDirent(dirent *Dirent, index uint) ([]byte, e
 // path. If an error occurs, the second return value is an Error object indicating what
 // went wrong.
 func (drv *FATDriver) resolvePathToDirent(path string) (Dirent, error) {
-	cleanedPath := filepath.Clean(path)
-	pathParts := filepath.SplitList(cleanedPath)
-
-	if len(pathParts) == 0 {
-		// Caller gave us an empty path after components were resolved.
-		return Dirent{}, disko.ErrInvalidArgument.WithMessage(
-			fmt.Sprintf("file path %q resolves to empty path", path))
+	if path == "" {
+		return Dirent{}, disko.ErrInvalidArgument.WithMessage("file path is empty")
 	}
 
-	// Get a listing for the root directory. We need to call a separate function because
-	// unlike FAT 32, FAT 12/16 have fixed-size root directories that aren't actually files.
-	// Drivers must give us a list of directory entries in the root directory.
-	currentDirContents, err := drv.fs.ListRootDirectory()
-	if err != nil {
-		return Dirent{}, nil
-	}
+	// All paths are relative to the root directory.
+	cleanedPath := filepath.ToSlash(filepath.Clean("/" + path))
+	currentDirent := newRootDirent()
 
-	var currentDirent Dirent
+	for _, component := range strings.Split(cleanedPath, "/") {
+		if component == "" {
+			continue
+		}
+
+		// This fails if we have path components left but aren't in a directory.
+		currentDirContents, err := drv.readDirFromDirent(&currentDirent)
+		if err != nil {
+			return Dirent{}, err
+		}
 
-	for _, component := range pathParts {
+		found := false
 		for _, entry := range currentDirContents {
-			if entry.name == component {
+			if entry.name == component && !entry.isDeleted {
 				currentDirent = entry
-				currentDirContents, err = drv.readDirFromDirent(&entry)
-				if err != nil {
-					return Dirent{}, err
-				}
+				found = true
+				break
 			}
 		}
+
+		if !found {
+			return Dirent{}, disko.ErrNotFound.WithMessage(path)
+		}
 	}
 
 	return currentDirent, nil
 }
 
+// newRootDirent creates a directory entry representing the root directory. There is no
+// such entry on the disk.
+func newRootDirent() Dirent {
+	mode := AttrFlagsToFileMode(AttrDirectory)
+	return Dirent{
+		name:           "/",
+		AttributeFlags: AttrDirectory,
+		isRoot:         true,
+		mode:           mode,
+		stat:           disko.FileStat{Nlinks: 1, ModeFlags: mode},
+	}
+}
+
 // readDirFromDirent returns a list of the directory entries found in directoryDirent,
 // including the `.` and `..` entries.
 func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, error) {
@@ -228,6 +244,13 @@ func (drv *FATDriver) readDirFromDirent(directoryDirent *Dirent) ([]Dirent, erro
 		return nil, disko.ErrNotADirectory
 	}
 
+	// We need to call a separate function for the root directory because unlike FAT 32,
+	// FAT 12/16 have fixed-size root directories that aren't actually files. Drivers must
+	// give us a list of directory entries in the root directory.
+	if directoryDirent.isRoot {
+		return drv.fs.ListRootDirectory()
+	}
+
 	allClusters, err := drv.listClusters(directoryDirent.FirstCluster)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 888a093d3e522eb1210880f1084d634bf5803484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 61/73] fix: FAT files of unexpected length were misread

---
 file_systems/fat/driverbase.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index ab6f959..42ea8d8 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -339,6 +339,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		return nil, disko.ErrIsADirectory
 	}
 
+	// Empty files have no clusters.
+	if dirent.size == 0 {
+		return []byte{}, nil
+	}
+
 	allClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return nil, err
@@ -352,6 +357,11 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 	// used.
 	buffer := new(bytes.Buffer)
 	for _, clusterID := range allClusters {
+		if bytesRemaining <= 0 {
+			// More clusters are allocated than the file needs.
+			break
+		}
+
 		clusterContents, err := drv.readCluster(clusterID)
 		if err != nil {
 			return nil, err
@@ -375,6 +385,15 @@ func (drv *FATDriver) ReadFile(path string) ([]byte, error) {
 		bytesRemaining -= int64(bs.BytesPerCluster)
 	}
 
+	if bytesRemaining > 0 {
+		return nil, disko.ErrFileSystemCorrupted.WithMessage(
+			fmt.Sprintf(
+				"%s is %d bytes long but has only %d clusters",
+				path,
+				dirent.size,
+				len(allClusters)))
+	}
+
 	return buffer.Bytes(), nil
 }
 
-- 
2.43.0


From 6612a0c480de93eec4c5d3619b10c1492616503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:55 +0000
Subject: [PATCH 62/73] fix: removing a FAT file freed the wrong clusters

---
 file_systems/fat/driverbase.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 42ea8d8..d563145 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -499,17 +499,22 @@ func (drv *FATDriver) Remove(path string) error {
 		return err
 	}
 
-	// Successfully deleted the directory entry. Now we release its clusters.
+	// Successfully deleted the directory entry. Now we release its clusters. Empty files
+	// have none.
+	if dirent.FirstCluster == 0 {
+		return nil
+	}
+
 	fileClusters, err := drv.listClusters(dirent.FirstCluster)
 	if err != nil {
 		return err
 	}
 
 	// Release clusters starting from the end of the chain, not the beginning. This way,
-	// if we hit an error then the dirent still points to the beginning of the cluster
-	// chain and we don't end up with an orphaned chain that would take up disk space.
+	// if we hit an error then what's left is still a chain from its first cluster, and no
+	// cluster we've freed is followed by one that's still in use.
 	for i := len(fileClusters) - 1; i >= 0; i-- {
-		err = drv.fs.FreeCluster(ClusterID(i))
+		err = drv.fs.FreeCluster(fileClusters[i])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 436cd966356e72d4f9eb658036cb6691add32258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 63/73] fix: Chmod did not change the FAT read-only attribute

---
 file_systems/fat/driverbase.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index d563145..95eca16 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -433,11 +433,14 @@ func (drv *FATDriver) Chmod(path string, mode os.FileMode) error {
 	// anything beyond that.
 	if (mode & 0b010010010) == 0 {
 		// No one has write access
-		dirent.stat.ModeFlags &= ^os.FileMode(0b010010010)
+		dirent.AttributeFlags |= AttrReadOnly
 	} else {
-		dirent.stat.ModeFlags |= 0b010010010
+		dirent.AttributeFlags &^= AttrReadOnly
 	}
 
+	dirent.mode = AttrFlagsToFileMode(uint8(dirent.AttributeFlags))
+	dirent.stat.ModeFlags = dirent.mode
+
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From c7f354c1c94271f22d11aee876d3e664a634b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:58 +0000
Subject: [PATCH 64/73] fix: Chtimes ignored timestamps FAT cannot represent

---
 file_systems/fat/driverbase.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 95eca16..cda1960 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -457,8 +457,16 @@ func (drv *FATDriver) Chtimes(path string, atime, mtime time.Time) error {
 		return err
 	}
 
-	dirent.SetLastAccessedAt(atime)
-	dirent.SetLastModifiedAt(mtime)
+	err = dirent.SetLastAccessedAt(atime)
+	if err != nil {
+		return err
+	}
+
+	err = dirent.SetLastModifiedAt(mtime)
+	if err != nil {
+		return err
+	}
+
 	return drv.fs.UpdateDirent(&dirent)
 }
 
-- 
2.43.0


From 1250c2181cd84e80a05564813a3364cb1e728087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 65/73] fix: SameFile crashed on FAT entries

---
 file_systems/fat/driverbase.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index cda1960..7ab49b6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -295,10 +295,11 @@ func (drv *FATDriver) Readlink(path string) (string, error) {
 
 // SameFile determines if two FileInfos reference the same file.
 func (drv *FATDriver) SameFile(fi1, fi2 os.FileInfo) bool {
-	dirLeft := fi1.Sys().(Dirent)
-	dirRight := fi2.Sys().(Dirent)
+	statLeft, leftOK := fi1.Sys().(disko.FileStat)
+	statRight, rightOK := fi2.Sys().(disko.FileStat)
 
-	return dirLeft.FirstCluster == dirRight.FirstCluster
+	// The inode number of a FAT file is its first cluster.
+	return leftOK && rightOK && statLeft.InodeNumber == statRight.InodeNumber
 }
 
 // TODO: Open
-- 
2.43.0


From e2bc4785fd030c79f6bf3a22c18598d763eced82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:10 +0000
Subject: [PATCH 66/73] fix: zipimage/unzipimage: report failure to close the
 output

---
 cmd/unzipimage/main.go | 8 ++++++++
 cmd/zipimage/main.go   | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cmd/unzipimage/main.go b/cmd/unzipimage/main.go
index b5a88d7..44eb657 100644
--- a/cmd/unzipimage/main.go
+++ b/cmd/unzipimage/main.go
@@ -41,5 +41,13 @@ func main() {
 		os.Exit(2)
 	}
 
+	// The output isn't safely stored until it's been closed successfully.
+	err = outFile.Close()
+	if err != nil {
+		fmt.Fprintf(
+			os.Stderr, "Failed to close output file: `%v`: %s\n", outputFilePath, err)
+		os.Exit(2)
+	}
+
 	fmt.Printf("Uncompressed input file to %d bytes.\n", nWritten)
 }
diff --git a/cmd/zipimage/main.go b/cmd/zipimage/main.go
index c26bea7..051a65a 100644
--- a/cmd/zipimage/main.go
+++ b/cmd/zipimage/main.go
@@ -41,5 +41,13 @@ func main() {
 		os.Exit(2)
 	}
 
+	// The output isn't safely stored until it's been closed successfully.
+	err = outFile.Close()
+	if err != nil {
+		fmt.Fprintf(
+			os.Stderr, "failed to close output file: `%v`: %s\n", outputFilePath, err)
+		os.Exit(2)
+	}
+
 	fmt.Printf("Compressed input file to %d bytes.\n", nWritten)
 }
-- 
2.43.0


From 5fca4c0f286d798141044319acb4d847bdcb8775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:22 +0000
Subject: [PATCH 67/73] fix: block cache took a failing stream for the end of
 the stream

---
 file_systems/common/blockcache/blockcache.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/file_systems/common/blockcache/blockcache.go b/file_systems/common/blockcache/blockcache.go
index 4ba9e94..4484d3c 100644
--- a/file_systems/common/blockcache/blockcache.go
+++ b/file_systems/common/blockcache/blockcache.go
@@ -132,13 +132,19 @@ func WrapStream(
 			return err
 		}
 
-		n, err = io.ReadFull(stream, buffer)
-		if err == io.EOF || err == io.ErrUnexpectedEOF {
-			// Anything past the end of the stream is null bytes.
-			clear(buffer[n:])
-			err = nil
+		for filled := 0; filled < len(buffer); {
+			n, err = stream.Read(buffer[filled:])
+			filled += n
+			if err == io.EOF {
+				// Anything past the end of the stream is null bytes.
+				clear(buffer[filled:])
+				return nil
+			}
+			if err != nil && filled < len(buffer) {
+				return err
+			}
 		}
-		return err
+		return nil
 	}
 
 	fetchCb := func(block c.LogicalBlock, buffer []byte) error {
-- 
2.43.0


From ce4c74252cffaebaf68b80942c12e3c9bf284919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:21 +0000
Subject: [PATCH 68/73] fix: the driver left object handles open

---
 driver/driver.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 70d7c6e..7ce95a6 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -351,10 +351,16 @@ func (driver *BaseDriver) OpenFile(
 
 	stat := object.Stat()
 	if !stat.IsFile() {
+		object.Close()
 		return File{}, disko.ErrIsADirectory.WithMessage(absPath)
 	}
 
-	return NewFileFromObjectHandle(driver, object, flags)
+	file, err := NewFileFromObjectHandle(driver, object, flags)
+	if err != nil {
+		object.Close()
+		return File{}, err
+	}
+	return file, nil
 }
 
 func (driver *BaseDriver) Chdir(path string) error {
@@ -391,6 +397,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmodObject, ok := unwrapObjectHandle(object).(disko.SupportsChmodHandle)
 	if !ok {
@@ -409,6 +416,7 @@ func (driver *BaseDriver) Chown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -430,6 +438,7 @@ func (driver *BaseDriver) Lchown(name string, uid, gid int) error {
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChownHandle)
 	if !ok {
@@ -448,6 +457,7 @@ func (driver *BaseDriver) Chtimes(name string, atime time.Time, mtime time.Time)
 	if err != nil {
 		return err
 	}
+	defer object.Close()
 
 	chmownObject, ok := unwrapObjectHandle(object).(disko.SupportsChtimesHandle)
 	if !ok {
@@ -713,6 +723,7 @@ func (driver *BaseDriver) Remove(path string) error {
 	defer object.Close()
 
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(object)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
@@ -879,6 +890,7 @@ func (driver *BaseDriver) RemoveAll(path string) error {
 
 	// Block an attempt at `rm -rf /`, because some clown is gonna try it.
 	root := driver.implementation.GetRootDirectory()
+	defer root.Close()
 	if root.SameAs(unwrapObjectHandle(directory)) {
 		return disko.ErrPermissionDenied.WithMessage(
 			"you can't remove the root directory",
-- 
2.43.0


From 69045b6bbd934b7a18965ba94acb05b39a0ad7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 69/73] fix: closing a file left its object open

---
 driver/driver.go | 1 -
 driver/file.go   | 9 ++++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 7ce95a6..6542d39 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -200,7 +200,6 @@ func (driver *BaseDriver) getContentsOfObject(
 	if err != nil {
 		return nil, disko.ErrIOFailed.Wrap(err)
 	}
-	defer handle.Close()
 
 	stat := object.Stat()
 	buffer := make([]byte, int(stat.Size))
diff --git a/driver/file.go b/driver/file.go
index a4d1460..032e9f8 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -184,8 +184,15 @@ func (file *File) Chown(uid, gid int) error {
 	return disko.ErrNotSupported
 }
 
+// Close writes out all pending changes and releases the underlying object. If the
+// changes can't be written out the file remains open, so that closing it can be
+// tried again.
 func (file *File) Close() error {
-	return file.Sync()
+	err := file.Sync()
+	if err != nil {
+		return err
+	}
+	return file.objectHandle.Close()
 }
 
 // Sync writes out all pending changes, including the exact size of the file.
-- 
2.43.0


From e7c4a3e7f43333cecbe1010cb8ad0b9d9fe28737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:22 +0000
Subject: [PATCH 70/73] fix: Chmod passed on more than permission bits

---
 driver/driver.go | 5 ++++-
 driver/file.go   | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/driver/driver.go b/driver/driver.go
index 6542d39..0e28262 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -386,6 +386,9 @@ func (driver *BaseDriver) chdirToObject(object extObjectHandle) error {
 	return nil
 }
 
+// modePermissionBits are the mode flags that can be changed on existing objects.
+const modePermissionBits = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky
+
 func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	absPath := driver.NormalizePath(name)
 	if err := driver.requireMountFlag(disko.MountFlagsAllowAdminister, absPath); err != nil {
@@ -402,7 +405,7 @@ func (driver *BaseDriver) Chmod(name string, mode os.FileMode) error {
 	if !ok {
 		return disko.ErrNotImplemented
 	}
-	return chmodObject.Chmod(mode)
+	return chmodObject.Chmod(mode & modePermissionBits)
 }
 
 func (driver *BaseDriver) Chown(name string, uid, gid int) error {
diff --git a/driver/file.go b/driver/file.go
index 032e9f8..fac5cd7 100644
--- a/driver/file.go
+++ b/driver/file.go
@@ -165,7 +165,7 @@ func (file *File) Chmod(mode os.FileMode) error {
 
 	chmodHandle, ok := unwrapObjectHandle(file.objectHandle).(disko.SupportsChmodHandle)
 	if ok {
-		return chmodHandle.Chmod(mode)
+		return chmodHandle.Chmod(mode & modePermissionBits)
 	}
 	return disko.ErrNotSupported
 }
-- 
2.43.0


From e6f110cfa3dbb7bb58c1bf9f4c6615652404c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:23 +0000
Subject: [PATCH 71/73] fix: OpenFile could create things that are not files

---
 driver/driver.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/driver/driver.go b/driver/driver.go
index 0e28262..313e08e 100644
--- a/driver/driver.go
+++ b/driver/driver.go
@@ -319,10 +319,12 @@ func (driver *BaseDriver) OpenFile(
 					return File{}, linkErr
 				}
 
+				// Only files can be created this way, so ignore any flags that
+				// say otherwise.
 				object, err = driver.createExtObject(
 					baseName,
 					parentObject,
-					perm,
+					perm&^os.ModeType,
 				)
 				parentObject.Close()
 
-- 
2.43.0


From 822b811d293405256a2e5bc5055382c86e3bd0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:23 +0000
Subject: [PATCH 72/73] fix: NopObjectHandle crashed on Close and SameAs

---
 driver/nopobject.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/driver/nopobject.go b/driver/nopobject.go
index 2c34e6f..9650d7a 100644
--- a/driver/nopobject.go
+++ b/driver/nopobject.go
@@ -69,7 +69,7 @@ func (obj NopObjectHandle) Chtimes(
 	lastModified,
 	lastChanged,
 	deletedAt time.Time,
-) error {
+) disko.DriverError {
 	return disko.ErrNotImplemented
 }
 
@@ -87,3 +87,13 @@ func (obj NopObjectHandle) Name() string {
 func (obj NopObjectHandle) AbsolutePath() string {
 	return ""
 }
+
+// SameAs always returns false.
+func (obj NopObjectHandle) SameAs(other disko.ObjectHandle) bool {
+	return false
+}
+
+// Close does nothing.
+func (obj NopObjectHandle) Close() error {
+	return disko.ErrNotImplemented
+}
-- 
2.43.0


From 32120585ab49104805816990efe509f4c869b323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:41 +0000
Subject: [PATCH 73/73] fix: Remove took the file itself for its directory with
 some path spellings

---
 file_systems/fat/driverbase.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file_systems/fat/driverbase.go b/file_systems/fat/driverbase.go
index 7ab49b6..cb10ee6 100644
--- a/file_systems/fat/driverbase.go
+++ b/file_systems/fat/driverbase.go
@@ -497,7 +497,8 @@ func (drv *FATDriver) Remove(path string) error {
 		return disko.ErrIsADirectory
 	}
 
-	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(path))
+	// The path must be cleaned first, or the parent of "/file/" would be the file.
+	parentDirent, err := drv.resolvePathToDirent(filepath.Dir(filepath.Clean("/" + path)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0

