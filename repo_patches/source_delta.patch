From d492372ceef5bbab03e96ce7d292c36cb77b703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 01/95] fix: writeToFile() crashed when compression threads
 were requested

---
 vrs/RecordFileWriter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..1d3f87d 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1159,10 +1159,13 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    // (there is no background thread when we're called by writeToFile())
+    if (writerThreadData_ != nullptr) {
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From e203f6c1d9e9cab7967605a901d30b24227e1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 02/95] fix: limit memory allocated reading a corrupt
 description record to the file's size

---
 vrs/DescriptionRecord.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..6d9da97 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -314,6 +314,11 @@ int DescriptionRecord::readDescriptionRecord(
     return NOT_ENOUGH_DATA;
   }
   uint32_t dataSizeLeft = outDescriptionRecordSize - static_cast<uint32_t>(recordHeaderSize);
+  // The record size might be corrupt: never trust sizes that would go beyond the end of the file.
+  const int64_t fileSizeLeft = max<int64_t>(file.getTotalSize() - file.getPos(), 0);
+  if (fileSizeLeft < static_cast<int64_t>(dataSizeLeft)) {
+    dataSizeLeft = static_cast<uint32_t>(fileSizeLeft);
+  }
   switch (recordHeader->formatVersion) {
     case kLegacyDescriptionFormatVersion: {
       map<StreamId, string> descriptions;
-- 
2.43.0


From 8329ae153dccf9d7c938361d8abd3ddafbbf740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 03/95] fix: description record: don't read stream ids past the
 end of the record

---
 vrs/DescriptionRecord.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 6d9da97..f0b63de 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -223,6 +223,9 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -257,6 +260,9 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
-- 
2.43.0


From 3e27171eaf2f21c3d610a2ffe1a4c07f943745b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 04/95] fix: don't write to a file chunk after buffered data
 was lost

---
 vrs/DiskFileChunk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..0b1d00e 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -98,6 +98,11 @@ class DiskFileChunk {
     return bufferSize == outReadSize ? SUCCESS : ::ferror(file_) ? errno : DISKFILE_NOT_ENOUGH_DATA;
   }
   int write(const void* data, size_t dataSize, size_t& outWrittenSize) const {
+    if (::ferror(file_) != 0) {
+      // Buffered data was lost, maybe when adding a chunk: don't write anything past that hole
+      outWrittenSize = 0;
+      return DISKFILE_PARTIAL_WRITE_ERROR;
+    }
     outWrittenSize = ::fwrite(data, 1, dataSize, file_);
     return dataSize == outWrittenSize ? SUCCESS
         : ::ferror(file_)             ? errno
-- 
2.43.0


From 55a27cef4148e8e23dd9db2cb77a14ba12643831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 05/95] fix: report errors writing a preallocated index, when
 records might have been lost

---
 vrs/IndexRecord.cpp | 51 +++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..882be0c 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1056,31 +1056,32 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     // It's OK to possibly iterate, because copies are not real-time/capture operations.
     size_t retryIndex = firstCompressionPresetIndex(writtenRecords_.size());
     do {
-      if (file.setPos(fileHeader_.indexRecordOffset) == 0) {
-        uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
-        if (writeClassicIndexRecord(
-                file,
-                streamIds_,
-                writtenRecords_,
-                lastRecordSize,
-                compressor_,
-                kCompressionLevels[retryIndex],
-                preallocatedIndexRecordSize_) == 0) {
-          indexRecordWritten = true;
-          outLastRecordSize = lastRecordSize;
-        } else {
-          if (kLogStats) {
-            MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
-                streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
-                writtenRecords_.size() * sizeof(DiskRecordInfo);
-            XR_LOGW(
-                "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
-                "{:.2f}% estimated.",
-                preallocatedIndexRecordSize_,
-                totalSize,
-                preallocatedIndexRecordSize_ * 100.f / totalSize);
-          }
-        }
+      // moving flushes buffers, and might fail, in which case records have been lost
+      IF_ERROR_LOG_AND_RETURN(file.setPos(fileHeader_.indexRecordOffset));
+      uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
+      int status = writeClassicIndexRecord(
+          file,
+          streamIds_,
+          writtenRecords_,
+          lastRecordSize,
+          compressor_,
+          kCompressionLevels[retryIndex],
+          preallocatedIndexRecordSize_);
+      if (status == SUCCESS) {
+        indexRecordWritten = true;
+        outLastRecordSize = lastRecordSize;
+      } else if (status != TOO_MUCH_DATA) {
+        return status;
+      } else if (kLogStats) {
+        MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
+            streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
+            writtenRecords_.size() * sizeof(DiskRecordInfo);
+        XR_LOGW(
+            "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
+            "{:.2f}% estimated.",
+            preallocatedIndexRecordSize_,
+            totalSize,
+            preallocatedIndexRecordSize_ * 100.f / totalSize);
       }
     } while (!indexRecordWritten && ++retryIndex < kCompressionLevels.size());
   }
-- 
2.43.0


From 44308ec60a837643c38f9a0bf8eef41548cece6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 06/95] fix: reset the file header when a writer creates
 another file

---
 vrs/RecordFileWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 1d3f87d..205a677 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -888,6 +888,7 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     }
     return error;
   }
+  fileHeader_ = {}; // forget any previous file's offsets
   fileHeader_.init();
   fileHeader_.descriptionRecordOffset = sizeof(fileHeader_);
   IF_ERROR_LOG_CLOSE_AND_RETURN(head.write(fileHeader_))
-- 
2.43.0


From 5ef54f76abad4305dbd56c788fd90e7686bd9f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:49 +0000
Subject: [PATCH 07/95] fix: don't announce a chunk as complete when adding a
 chunk failed

---
 vrs/RecordFileWriter.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 205a677..10b39d3 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1033,13 +1033,14 @@ void RecordFileWriter::writeOneRecord(
   if (rwd.currentChunkSize > 0 && rwd.currentChunkSize + recordDiskSize >= maxChunkSize_) {
     NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
     // AddChunk() preserves the current chunk on error.
-    XR_VERIFY(
-        file_->addChunk() == 0,
-        "Add chunk failed: {}, {}",
-        file_->getLastError(),
-        errorCodeToMessage(file_->getLastError()));
+    if (XR_VERIFY(
+            file_->addChunk() == 0,
+            "Add chunk failed: {}, {}",
+            file_->getLastError(),
+            errorCodeToMessage(file_->getLastError()))) {
+      newChunkNotifier.notify(1); // offset chunk index by 1
+    }
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
-    newChunkNotifier.notify(1); // offset chunk index by 1
   }
   if (queueByteSize_) {
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
-- 
2.43.0


From 61c47a28bed4ca2bfbb2583468dc69399b382067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 08/95] fix: don't let a corrupt data layout definition or
 record allocate unbounded memory or break parsing

---
 vrs/ContentBlockReader.cpp       |  5 +++--
 vrs/DataLayout.cpp               | 22 ++++++++++++++++++----
 vrs/RecordFormatStreamPlayer.cpp |  2 +-
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..a50dfc1 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -440,7 +440,6 @@ bool DataLayoutBlockReader::readBlock(
   // the fixed size buffer first, extract the size of the var size data from the var size index,
   // so we can then read the var size buffer...
   const size_t kMaxFixedDataSize = 1024 * 1024 * 1024; // 1GB, arbitrary limit
-  const size_t kMaxRecordSize = 4 * 1024 * 1024 * 1024UL - sizeof(FileFormat::RecordHeader);
   DataLayout& layout = *blockLayout_;
   vector<int8_t>& fixedData = layout.getFixedData();
   size_t fixedDataSize = layout.getFixedDataSizeNeeded();
@@ -452,7 +451,9 @@ bool DataLayoutBlockReader::readBlock(
   int readBlockStatus = record.reader->read(fixedData);
   if (readBlockStatus == 0) {
     size_t varDataSize = layout.getVarDataSizeFromIndex();
-    if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize)) {
+    // don't trust the index to allocate memory: the data must fit in what's left of the record
+    if (!XR_VERIFY(varDataSize <= record.reader->getUnreadBytes())) {
+      varData.resize(0);
       return false;
     }
     varData.resize(varDataSize);
diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..978f77b 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -49,6 +49,9 @@ using namespace std;
 const size_t DataLayout::kNotFound = numeric_limits<size_t>::max();
 const size_t DataLayout::kVariableSize = numeric_limits<size_t>::max() - 1;
 
+// Arbitrary limit for the fixed-size part of a DataLayout, also enforced when reading records (1 GB)
+static const size_t kMaxFixedDataSize = 1024 * 1024 * 1024;
+
 DataLayout::~DataLayout() = default;
 
 size_t DataLayout::getVarDataSizeNeeded() const {
@@ -295,7 +298,8 @@ void DataLayout::initLayout() {
   // at the end of the fixed data buffer, we place the index for var size fields,
   // because we know how many we have and we want to read as much as possible in one read.
   fixedDataSizeNeeded_ = offset + varSizePieces_.size() * sizeof(IndexEntry);
-  fixedData_.resize(fixedDataSizeNeeded_);
+  // A definition read from a file might be bogus: don't try to allocate any amount of memory
+  fixedData_.resize(fixedDataSizeNeeded_ <= kMaxFixedDataSize ? fixedDataSizeNeeded_ : 0);
   // Var pieces do not get a buffer by default, their offset tells which OffsetAndLength to use
   offset = 0;
   for (auto* piece : varSizePieces_) {
@@ -371,7 +375,14 @@ size_t DataLayout::getVarDataSizeFromIndex() const {
 }
 
 unique_ptr<DataLayout> DataLayout::makeFromJson(const string& json) {
-  return unique_ptr<DataLayout>(new ManualDataLayout(json));
+  unique_ptr<DataLayout> layout = make_unique<ManualDataLayout>(json);
+  if (!XR_VERIFY(
+          layout->fixedDataSizeNeeded_ <= kMaxFixedDataSize,
+          "DataLayout definition too large: {} bytes",
+          layout->fixedDataSizeNeeded_)) {
+    return nullptr;
+  }
+  return layout;
 }
 
 bool DataLayout::isSame(const DataLayout& otherLayout) const {
@@ -1441,7 +1452,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    if ((vectorSize + size_t{1}) * sizeof(uint32_t) <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1456,7 +1467,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        (vectorSize + size_t{1}) * sizeof(uint32_t),
         byteCount);
   }
   outValues = defaultValues_;
@@ -1875,6 +1886,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
     if (XR_VERIFY(
             node != document.MemberEnd() && node->value.IsArray(), "Missing data_layout object")) {
       for (const JValue& piece : node->value.GetArray()) {
+        if (!XR_VERIFY(piece.IsObject(), "data_layout element isn't an object")) {
+          continue;
+        }
         JValue::ConstMemberIterator name = piece.FindMember("name");
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index 0d1140f..da3b0eb 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -31,7 +31,7 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
     const ContentBlock& contentBlock) {
   // read past the block, if we know its size
   size_t blockSize = contentBlock.getBlockSize();
-  if (blockSize != ContentBlock::kSizeUnknown) {
+  if (blockSize != ContentBlock::kSizeUnknown && blockSize <= record.reader->getUnreadBytes()) {
     vector<uint8_t> data(blockSize);
     record.reader->read(data);
     return true;
-- 
2.43.0


From 21dc2ef1b688b85968b0263615b126b9b236a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 09/95] fix: don't look for the reader of a block that was
 never read

---
 vrs/ContentBlockReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index a50dfc1..c851e98 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,10 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  // block readers are created as blocks are read, and reading might have stopped before that block
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false;
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From 52a0d755bca33bea544acd3f4730e91c47439389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 10/95] fix: don't use the index of variable size fields when
 it couldn't be read

---
 vrs/DataLayout.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..b4967b1 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -509,7 +509,8 @@ class VRS_API DataLayout {
     if (mappedDataLayout_ != nullptr) {
       return mappedDataLayout_->getVarData<T>(varPieceIndex, outCount);
     }
-    if (varPieceIndex < varSizePieces_.size()) {
+    // the index is part of the fixed-size data, which might be incomplete if a read failed
+    if (varPieceIndex < varSizePieces_.size() && fixedData_.size() == fixedDataSizeNeeded_) {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-- 
2.43.0


From f2615e55eb437ade795d40c14b2fb7e31b3e302d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:34 +0000
Subject: [PATCH 11/95] fix: don't read past the ends of short strings when
 printing a data layout in compact form

---
 vrs/DataLayout.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 978f77b..dac8758 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -868,6 +868,11 @@ void printStringFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  if (str.size() <= frontSize + tailSize) {
+    // too short to be truncated
+    os << prefix << '"' << helpers::make_printable(str) << '"' << suffix << '\n';
+    return;
+  }
   string front = printable(str.c_str(), frontSize, true);
   string tail = printable(str.c_str() + str.size() - tailSize, tailSize, false);
   os << prefix << '"' << front << kTruncated << tail << '"' << suffix << '\n';
@@ -895,6 +900,11 @@ void printTextFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  if (text.size() <= frontSize + tailSize) {
+    // too short to be truncated
+    os << prefix << text << suffix << '\n';
+    return;
+  }
   string front(text.c_str(), frontSize);
   string tail(text.c_str() + text.size() - tailSize, tailSize);
   os << prefix << front << kTruncated << tail << suffix << '\n';
-- 
2.43.0


From 35a7c12cab03c6ef5276f23762d194a9a4db213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 12/95] fix: don't read records whose size goes past the end of
 the file

---
 vrs/RecordFileReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..548f1a8 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1232,6 +1232,11 @@ int RecordFileReader::readRecord(
     return INVALID_DISK_DATA;
   }
   uint32_t dataSize = recordSize - recordHeaderSize_;
+  // don't let a corrupt size have buffers allocated for data that can't possibly be in the file
+  if (static_cast<int64_t>(dataSize) > file_->getTotalSize() - file_->getPos()) {
+    XR_LOGE("Record size invalid: {} goes past the end of the file", recordSize);
+    return DISKFILE_NOT_ENOUGH_DATA;
+  }
   uint32_t uncompressedDataSize = 0;
   RecordReader* reader = nullptr;
   CompressionType compressionType = recordHeader.getCompressionType();
-- 
2.43.0


From adb09c31856c887354a63ec8d6f291fc8fc611d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:30 +0000
Subject: [PATCH 13/95] fix: check the size of the stream list of an index
 record before allocating memory

---
 vrs/IndexRecord.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 882be0c..8b4f615 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -643,7 +643,8 @@ int IndexRecord::Reader::determineClassicIndexLayout(
   }
   if (typeCount > 0) {
     const size_t readSize = sizeof(DiskStreamId) * typeCount;
-    if (readSize > indexRecordPayloadSize - preludeSize) {
+    if (readSize > indexRecordPayloadSize - preludeSize ||
+        static_cast<int64_t>(readSize) > totalFileSize_ - file_.getPos()) {
       XR_LOGE("Index record too small. Corrupt file or index?");
       return INDEX_RECORD_ERROR;
     }
-- 
2.43.0


From ac19723576fc512e6ae28c9b16fa6384b7305a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 14/95] fix: don't overflow when the offset of the first record
 is corrupt

---
 vrs/IndexRecord.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 8b4f615..ba5303d 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -609,8 +609,9 @@ bool IndexRecord::Reader::processSplitIndexRecords(
           timestamp);
       return false;
     }
-    int64_t followingRecordOffset = outUsedFileSize + recordSize;
-    if (droppedRecordCount_ > 0 || followingRecordOffset > totalFileSize_) {
+    // watch for overflows: offsets might be corrupt
+    if (droppedRecordCount_ > 0 || outUsedFileSize < 0 ||
+        static_cast<int64_t>(recordSize) > totalFileSize_ - outUsedFileSize) {
       droppedRecordCount_++;
     } else {
       index_.emplace_back(timestamp, outUsedFileSize, streamId, recordType);
@@ -621,7 +622,7 @@ bool IndexRecord::Reader::processSplitIndexRecords(
         diskIndex_->emplace_back(timestamp, recordSize, streamId, recordType);
       }
       streamIds_.insert(streamId);
-      outUsedFileSize = followingRecordOffset;
+      outUsedFileSize += recordSize;
     }
   }
   return true;
@@ -715,8 +716,8 @@ bool IndexRecord::Reader::processClassicIndexRecords(
           timestamp);
       return false;
     }
-    int64_t nextFileOffset = fileOffset + recordSize;
-    if (nextFileOffset > totalFileSize_) {
+    // watch for overflows: offsets might be corrupt
+    if (fileOffset < 0 || static_cast<int64_t>(recordSize) > totalFileSize_ - fileOffset) {
       droppedRecordCount_ = static_cast<int32_t>(records.size() - index_.size());
       break;
     }
@@ -724,7 +725,7 @@ bool IndexRecord::Reader::processClassicIndexRecords(
     if (index_.size() > 1 && index_.back() < index_[index_.size() - 2]) {
       sortErrorCount_++;
     }
-    fileOffset = nextFileOffset;
+    fileOffset += recordSize;
   }
   outUsedFileSize = fileOffset;
   return true;
-- 
2.43.0


From 08d807b59620b7034abde43bb45c42d88877a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 15/95] fix: an empty string, vector or map read back as the
 default value when all of a layout's variable size fields were empty

---
 vrs/DataLayout.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index b4967b1..0be247f 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -514,6 +514,10 @@ class VRS_API DataLayout {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
+        if (varData_.empty()) {
+          // an empty value is a value, even if the buffer was never allocated
+          return reinterpret_cast<T*>(fixedData_.data());
+        }
         return reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
       }
     }
-- 
2.43.0


From 5ba6703bf1a6bbb8bc41894cf3933a953178f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 16/95] fix: the maximum of an array field was its minimum

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From c56404d7d130f2d229bc231c876e5b02f85afef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:21 +0000
Subject: [PATCH 17/95] fix: copying the values of a cloned data layout
 corrupted the fields added to it, and failed when it was mapped

---
 vrs/DataLayout.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index dac8758..bc83745 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -339,16 +339,16 @@ bool DataLayout::copyClonedDataPieceValues(const DataLayout& originalLayout) {
           fixedDataSizeNeeded_ >= originalLayout.fixedDataSizeNeeded_)) {
     return false;
   }
-  const vector<int8_t>& originalFixedData = originalLayout.mappedDataLayout_ != nullptr
-      ? originalLayout.mappedDataLayout_->fixedData_
-      : originalLayout.fixedData_;
-  if (!XR_VERIFY(fixedData_.size() >= originalFixedData.size())) {
-    return false;
-  }
-  // If the layout was cloned from clonedLayout, then the first fixed size pieces are the same,
-  // in the same order, and we can use a raw memory copy to copy all these values at once.
-  if (!originalFixedData.empty()) {
-    memcpy(fixedData_.data(), originalFixedData.data(), originalFixedData.size());
+  // The pieces of the original come first, but the original's data may be followed by its var data
+  // index, and may have another layout entirely when it is mapped, so we must copy field by field.
+  for (size_t k = 0; k < originalLayout.fixedSizePieces_.size(); k++) {
+    DataPiece* original = originalLayout.fixedSizePieces_[k];
+    DataPiece* copy = fixedSizePieces_[k];
+    if (!XR_VERIFY(copy->getPieceType() == original->getPieceType()) ||
+        !XR_VERIFY(copy->getFixedSize() == original->getFixedSize())) {
+      return false;
+    }
+    copy->copyFrom(original);
   }
   for (size_t k = 0; k < originalLayout.varSizePieces_.size(); k++) {
     DataPiece* original = originalLayout.varSizePieces_[k];
-- 
2.43.0


From 055fb302634cdbc3a9e2445a4f5b4ec0810caf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:50 +0000
Subject: [PATCH 18/95] fix: don't trust the size of a compressed index record
 larger than the file when allocating memory

---
 vrs/IndexRecord.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index ba5303d..63c5e71 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -107,6 +107,14 @@ bool validateClassicIndexAllocation(
           uncompressedSize);
       return false;
     }
+    // indexSize is the on-disk size claimed by the index record, compare ratios with a plausible one.
+    if (totalFileSize < 0 || indexSize > static_cast<size_t>(totalFileSize)) {
+      XR_LOGE(
+          "Index byte size {} exceeds total file size {}. Corrupt index?",
+          indexSize,
+          totalFileSize);
+      return false;
+    }
     // Division avoids uint64_t overflow and works on 32-bit targets where size_t is 32 bits.
     if (expectedDataSize / kMaxCompressionRatio > indexSize) {
       XR_LOGE(
-- 
2.43.0


From e4d73dae26fde358d516186c7acc214d6b6b0496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 19/95] fix: points and matrices of doubles read from JSON lost
 precision

---
 vrs/helpers/Rapidjson.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e3e7898..755cc49 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -238,8 +238,7 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
     return false;
   }
   for (size_t n = 0; n < N; ++n) {
-    if (!getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
+    if (!getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
         !getJValueAs<int32_t, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
       return false;
     }
@@ -250,11 +249,12 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
 template <typename T, size_t N>
 inline bool getFromJValue(const JValue& value, MatrixND<T, N>& outMatrix) {
   using vrs_rapidjson::SizeType;
-  if (value.IsArray() && value.Size() == N) {
-    for (size_t n = 0; n < N; ++n) {
-      if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
-        return false;
-      }
+  if (!value.IsArray() || value.Size() != N) {
+    return false;
+  }
+  for (size_t n = 0; n < N; ++n) {
+    if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 160608c35d246d520f217a260c10117fe8d4bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:57 +0000
Subject: [PATCH 20/95] fix: infinity was compared as the same as any other
 value, but not as the same as itself

---
 vrs/helpers/Rapidjson.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 755cc49..23d7471 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -352,12 +352,12 @@ template <>
 inline bool isSame<float>(const float& left, const float& right) {
   double dleft = static_cast<double>(left);
   double dright = static_cast<double>(right);
-  return fabs(dleft - dright) <= max<double>(fabs(dleft), fabs(dright)) / 10000;
+  return left == right || fabs(dleft - dright) < max<double>(fabs(dleft), fabs(dright)) / 10000;
 }
 
 template <>
 inline bool isSame<double>(const double& left, const double& right) {
-  return fabs(left - right) <= max<double>(fabs(left), fabs(right)) / 10000;
+  return left == right || fabs(left - right) < max<double>(fabs(left), fabs(right)) / 10000;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 2d8f383332cc67146bff8418ab94e02608528df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:30 +0000
Subject: [PATCH 21/95] fix: the sizes of images larger than 4 GB wrapped
 around

---
 vrs/RecordFormat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..d7a5535 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -637,7 +637,7 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
+      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
     }
     if (size > 0) {
       return size;
-- 
2.43.0


From 1e82a99749075527745dc4177bbe60e281440359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:03 +0000
Subject: [PATCH 22/95] fix: PCM audio blocks without a sample count lost their
 stereo pair count, and their size when empty

---
 vrs/ContentBlockReader.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index c851e98..e5f9d33 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -180,12 +180,15 @@ bool AudioBlockReader::readAudioContentBlock(
             record,
             blockIndex_,
             ContentBlock(
-                AudioFormat::PCM,
-                spec.getSampleFormat(),
-                spec.getChannelCount(),
-                spec.getSampleFrameStride(),
-                spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride)));
+                AudioContentBlockSpec(
+                    AudioFormat::PCM,
+                    spec.getSampleFormat(),
+                    spec.getChannelCount(),
+                    spec.getSampleFrameStride(),
+                    spec.getSampleRate(),
+                    static_cast<uint32_t>(contentBlockSize / sampleFrameStride),
+                    spec.getStereoPairCount()),
+                contentBlockSize));
       }
     }
   } else {
-- 
2.43.0


From 95d531e379a56b7fbdf431c6d3440564e2851d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 23/95] fix: find the audio description of a configuration
 whatever data layouts follow it

---
 vrs/ContentBlockReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index e5f9d33..820e2c7 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -249,8 +249,9 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      if (mapToBlockLayout(reader, index, audioSpec_) &&
+          tryCurrentAudioSpec(record, player, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From e239bf900752b3f081a9a5d673001592400b7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:21 +0000
Subject: [PATCH 24/95] fix: a record written directly could be written by the
 background thread before its data was attached

---
 vrs/RecordManager.cpp | 17 ++++++++++++++---
 vrs/RecordManager.h   |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..6224488 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -57,6 +57,15 @@ Record* RecordManager::createRecord(
     Record::Type recordType,
     uint32_t formatVersion,
     const DataSource& data) {
+  return addRecord(timestamp, recordType, formatVersion, data, nullptr);
+}
+
+Record* RecordManager::addRecord(
+    double timestamp,
+    Record::Type recordType,
+    uint32_t formatVersion,
+    const DataSource& data,
+    std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
   // Step 1: find a record to reuse, if there is any
   Record* record = nullptr;
   unique_lock<mutex> guard{mutex_};
@@ -90,6 +99,10 @@ Record* RecordManager::createRecord(
     record = new Record(*this);
   }
   record->set(timestamp, recordType, formatVersion, data, creationOrder);
+  // The record must be complete before it's inserted: it might be collected & written right after!
+  if (directWriteData) {
+    record->addDirectWriteRecordData(std::move(directWriteData));
+  }
   if (largeData) {
     guard.lock();
   }
@@ -119,9 +132,7 @@ Record* RecordManager::createUncompressedRecord(
     uint32_t formatVersion,
     const DataSource& data,
     std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
-  Record* record = createRecord(timestamp, type, formatVersion, data);
-  record->addDirectWriteRecordData(std::move(directWriteData));
-  return record;
+  return addRecord(timestamp, type, formatVersion, data, std::move(directWriteData));
 }
 
 uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuffers) {
diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..5676c2f 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -119,6 +119,12 @@ class VRS_API RecordManager {
   }
 
  private:
+  Record* addRecord(
+      double timestamp,
+      Record::Type type,
+      uint32_t formatVersion,
+      const DataSource& data,
+      std::unique_ptr<DirectWriteRecordData>&& directWriteData);
   static size_t getAcceptableOverCapacity(size_t capacity);
   void recycle(Record* record);
 
-- 
2.43.0


From 41c6861a86b9ac1025e6082a24ca725934327660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 25/95] fix: data races when a stream's activation or
 compression changes while recording

---
 vrs/RecordManager.h | 3 ++-
 vrs/Recordable.h    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index 5676c2f..988d5ab 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -132,7 +133,7 @@ class VRS_API RecordManager {
   list<Record*> activeRecords_; // Records ready to be written
   list<Record*> cache_; // Written/recycled records available for reuse
 
-  CompressionPreset compression_;
+  std::atomic<CompressionPreset> compression_; // may be changed while recording
   size_t maxCacheSize_;
   uint64_t creationOrder_;
 };
diff --git a/vrs/Recordable.h b/vrs/Recordable.h
index ea54397..259b67a 100644
--- a/vrs/Recordable.h
+++ b/vrs/Recordable.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -323,7 +324,7 @@ class VRS_API Recordable {
   StreamTags tags_;
   RecordManager recordManager_;
   CreateRecordDelegate createRecordDelegate_;
-  bool isActive_;
+  std::atomic<bool> isActive_; // may be changed while the background thread is recording
 
   friend class RecordFileWriter;
 
-- 
2.43.0


From 28edc4c0613f59a6171b9dfb224a5cb1aa331f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 26/95] fix: data race adding a stream to the index while
 records are collected from two threads

---
 vrs/IndexRecord.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index ea2fdf9..29340fe 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -17,6 +17,7 @@
 #pragma once
 
 #include <deque>
+#include <mutex>
 #include <set>
 
 #include <vrs/Compressor.h>
@@ -159,7 +160,9 @@ class VRS_API Writer {
     return splitHeadFile_;
   }
 
+  /// Streams might be added while collecting records from different threads.
   void addStream(StreamId id) {
+    std::unique_lock<std::mutex> guard{streamIdsMutex_};
     streamIds_.insert(id);
   }
 
@@ -190,6 +193,7 @@ class VRS_API Writer {
   FileFormat::RecordHeader splitIndexRecordHeader_;
   uint32_t preallocatedIndexRecordSize_{};
   Compressor compressor_;
+  std::mutex streamIdsMutex_; // to add streams
   set<StreamId> streamIds_;
   deque<IndexRecord::DiskRecordInfo> writtenRecords_;
   size_t writtenBytesCount_{}; // how many bytes have been written in a partial index
-- 
2.43.0


From d5ef5728ce82191983e54a7e4566d37abbd43a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 27/95] fix: purging old records changed their order, and
 didn't keep the newest of the state or configuration records with the same
 timestamp

---
 vrs/RecordManager.cpp | 53 +++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 6224488..81bd2b3 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -139,44 +139,33 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   uint32_t count = 0;
   unique_lock<mutex> guard{mutex_};
   // we purge everything "old", but we keep the newest state & configuration records,
-  // and all TagsRecords
+  // and all TagsRecords, without changing the order of the records
   Record* lastState = nullptr;
   Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
+  auto end = activeRecords_.begin();
+  while (end != activeRecords_.end() && (*end)->timestamp_ < oldestTimestamp) {
+    Record* record = *end++;
+    if (record->getRecordType() == Record::Type::STATE) {
+      lastState = record;
+    } else if (record->getRecordType() == Record::Type::CONFIGURATION) {
+      lastConfiguration = record;
+    }
+  }
   auto iter = activeRecords_.begin();
-  while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
+  while (iter != end) {
     Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
-      record = nullptr;
+    if (record == lastState || record == lastConfiguration ||
+        record->getRecordType() == Record::Type::TAGS) {
+      ++iter;
+      continue;
     }
-    if (record != nullptr) {
-      if (recycleBuffers && cache_.size() < maxCacheSize_) {
-        cache_.emplace_back(record);
-      } else {
-        delete record;
-      }
-      ++count;
+    iter = activeRecords_.erase(iter);
+    if (recycleBuffers && cache_.size() < maxCacheSize_) {
+      cache_.emplace_back(record);
+    } else {
+      delete record;
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
+    ++count;
   }
   return count;
 }
-- 
2.43.0


From 0a872037d7ebede308a2e1b4d287768dcb1e418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 28/95] fix: don't read past the end of the numeric name of a
 stream, and refuse numbers out of range

---
 vrs/StreamId.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..27df6ed 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/StreamId.h>
 
+#include <limits>
 #include <string>
 #include <unordered_map>
 
@@ -181,28 +182,31 @@ const unordered_map<RecordableTypeId, const char*>& getRecordableTypeIdRegistry(
   return sRegistry;
 }
 
+// Parse an unsigned number that fits in a uint16_t, without ever reading at or past the end.
+bool parseNumber(const uint8_t*& s, const uint8_t* end, uint16_t& outNumber) {
+  if (s >= end || *s < '0' || *s > '9') {
+    return false; // must start with a digit
+  }
+  uint32_t number = 0;
+  for (; s < end && *s >= '0' && *s <= '9'; ++s) {
+    number = 10 * number + (*s - '0');
+    if (number > numeric_limits<uint16_t>::max()) {
+      return false;
+    }
+  }
+  outNumber = static_cast<uint16_t>(number);
+  return true;
+}
+
 StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator) {
   // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
   const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
   const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
-    return {}; // must start with a digit
-  }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
-    recordableTypeId = 10 * recordableTypeId + (*s - '0');
-  }
-  if (*s++ == separator) {
-    if (s >= end || *s < '0' || *s > '9') {
-      return {}; // instance id must start with a digit
-    }
-    uint16_t index = 0;
-    while (s < end && *s >= '0' && *s <= '9') {
-      index = 10 * index + (*s++ - '0');
-    }
-    if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
-    }
+  uint16_t recordableTypeId = 0;
+  uint16_t instanceId = 0;
+  if (parseNumber(s, end, recordableTypeId) && s < end && *s++ == separator &&
+      parseNumber(s, end, instanceId) && s == end) {
+    return {static_cast<RecordableTypeId>(recordableTypeId), instanceId};
   }
   return {};
 }
-- 
2.43.0


From a97b0b14b1e98171ac6253b197a8fc0190578ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:33 +0000
Subject: [PATCH 29/95] fix: don't write the suspicious record discarded from a
 rebuilt index in the patched index

---
 vrs/IndexRecord.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 63c5e71..988e4c4 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -960,6 +960,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
     XR_LOGW(
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
+    if (diskIndex_ && !diskIndex_->empty()) {
+      diskIndex_->pop_back(); // don't write it in the patched index either!
+    }
     absolutePosition -= previousRecordSize;
   }
 
-- 
2.43.0


From aa6db74b0bda001194b7ef64804d5704a07c0528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 30/95] fix: the size of a record included the tags record or
 the incomplete record following it

---
 vrs/IndexRecord.cpp      |  4 ++++
 vrs/IndexRecord.h        |  7 +++++++
 vrs/RecordFileReader.cpp | 21 +++++++++++++++++----
 vrs/RecordFileReader.h   |  2 ++
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 988e4c4..ae675a3 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -808,6 +808,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   }
   streamIds_.clear();
   index_.clear();
+  endOfRecords_ = 0;
   sortErrorCount_ = 0;
   diskIndex_ = writeFixedIndex ? make_unique<deque<IndexRecord::DiskRecordInfo>>() : nullptr;
   const size_t kFirstAllocation = 10000; // arbitrary start
@@ -872,6 +873,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
         // we can skip all the records found in the index
         absolutePosition = std::max(fileSizeUsed, minNextPosition);
         previousRecordSize = static_cast<uint32_t>(absolutePosition - index_.back().fileOffset);
+        endOfRecords_ = fileSizeUsed;
       } else {
         // reading the split index failed: reindex from scratch
         streamIds_.clear();
@@ -911,6 +913,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       if (isValid(recordType)) {
         streamIds_.insert(streamId);
         index_.emplace_back(timestamp, absolutePosition, streamId, recordType);
+        endOfRecords_ = absolutePosition + recordSize;
         if (index_.size() > 1 && index_.back() < index_[index_.size() - 2]) {
           sortErrorCount_++;
         }
@@ -964,6 +967,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       diskIndex_->pop_back(); // don't write it in the patched index either!
     }
     absolutePosition -= previousRecordSize;
+    endOfRecords_ = absolutePosition;
   }
 
   sort(index_.begin(), index_.end());
diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index 29340fe..8bb6409 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -222,6 +222,12 @@ class VRS_API Reader {
   /// @return 0 on success, or a non-zero error code.
   int rebuildIndex(bool writeFixedIndex);
 
+  /// Get the offset of the end of the last complete record, when the index was rebuilt.
+  /// @return The offset past the last record of the rebuilt index, or 0.
+  int64_t getEndOfRecords() const {
+    return endOfRecords_;
+  }
+
  private:
   int readRecord(
       int64_t indexRecordOffset,
@@ -271,6 +277,7 @@ class VRS_API Reader {
   bool hasSplitHeadChunk_{};
   int32_t sortErrorCount_{};
   int32_t droppedRecordCount_{};
+  int64_t endOfRecords_{}; // end of the last record, when the index was rebuilt
 };
 
 /// This is used to count records to different kinds
diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 548f1a8..a3aca3a 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -325,6 +325,9 @@ int RecordFileReader::doOpenFile(
   }
   openProgressLogger_->logDuration("File open", os::getTimestampSec() - beforeTime);
   endOfUserRecordsOffset_ = fileHeader.getEndOfUserRecordsOffset(file_->getTotalSize());
+  if (endOfRecords_ > 0 && endOfRecords_ < endOfUserRecordsOffset_) {
+    endOfUserRecordsOffset_ = endOfRecords_; // there is probably an incomplete record
+  }
   if (error == 0) {
     // count the records of each stream & type
     streamRecordCounts_.clear();
@@ -420,6 +423,7 @@ int RecordFileReader::readFileDetails(
   if (fileHasAnIndex_) {
     if (usedFileSize > 0) {
       file_->forgetFurtherChunks(usedFileSize);
+      endOfRecords_ = usedFileSize;
     }
     if (autoWriteFixedIndex) {
       XR_LOGI("The file's index seems fine, so the file won't be modified.");
@@ -434,6 +438,7 @@ int RecordFileReader::readFileDetails(
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
     indexReader.rebuildIndex(autoWriteFixedIndex);
+    endOfRecords_ = indexReader.getEndOfRecords();
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
       return doOpenFile(fileSpec, /* autoWriteFixedIndex */ false, /* checkSignatureOnly */ false);
@@ -461,8 +466,12 @@ int RecordFileReader::readFileDetails(
         remove_if(
             recordIndex_.begin(),
             recordIndex_.end(),
-            [](const IndexRecord::RecordInfo& record) {
-              return record.recordType == Record::Type::TAGS;
+            [this](const IndexRecord::RecordInfo& record) {
+              if (record.recordType != Record::Type::TAGS) {
+                return false;
+              }
+              tagsRecordOffsets_.emplace_back(record.fileOffset);
+              return true;
             }),
         recordIndex_.end());
     XR_LOGD("Deleted {} TagsRecords from the index.", sizeBefore - recordIndex_.size());
@@ -491,6 +500,8 @@ int RecordFileReader::closeFile() {
   streamRecordCounts_.clear();
   recordBoundaries_.clear();
   recordLimits_.clear();
+  tagsRecordOffsets_.clear();
+  endOfRecords_ = 0;
   lastRequest_.clear();
   fileHasAnIndex_ = false;
   return result;
@@ -514,15 +525,17 @@ void RecordFileReader::buildRecordBoundaries(bool boundariesAndLimits) const {
     }
     lastOffset = r.fileOffset;
   }
-  if (sortErrors == 0 && !boundariesAndLimits) {
+  if (sortErrors == 0 && tagsRecordOffsets_.empty() && !boundariesAndLimits) {
     // files are usually fully sorted, and we don't need much
     recordLimits_[recordIndex_.size() - 1] = endOfUserRecordsOffset_;
   } else {
     vector<int64_t> boundaries;
-    boundaries.reserve(recordIndex_.size() + 1);
+    boundaries.reserve(recordIndex_.size() + tagsRecordOffsets_.size() + 1);
     for (const auto& r : recordIndex_) {
       boundaries.emplace_back(r.fileOffset);
     }
+    // tags records aren't in the index, but they are not part of the record before them
+    boundaries.insert(boundaries.end(), tagsRecordOffsets_.begin(), tagsRecordOffsets_.end());
     boundaries.emplace_back(endOfUserRecordsOffset_);
     sort(boundaries.begin(), boundaries.end());
 
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e8cba60..af584d4 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -595,6 +595,8 @@ class VRS_API RecordFileReader {
   int64_t getFollowingRecordOffset(uint32_t recordIndex, bool useBoundaries) const; ///< private
   mutable vector<int64_t> recordBoundaries_; ///< private
   mutable map<uint32_t, int64_t> recordLimits_; ///< private
+  vector<int64_t> tagsRecordOffsets_; ///< private
+  int64_t endOfRecords_{}; ///< private
 
   // Members to read an open VRS file
   std::unique_ptr<FileHandler> file_;
-- 
2.43.0


From 5ab5c8a8f274eea44d2cc9b038d09a7d6b43eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 31/95] fix: data read from a compressed record rejected later
 was used to read the next record

---
 vrs/RecordFileReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index a3aca3a..ad5db7c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1303,6 +1303,10 @@ int RecordFileReader::readRecord(
     reader->finish();
     return streamPlayer->recordReadComplete(*this, recordInfo);
   }
+  if (reader != nullptr) {
+    // some data may have been read already: don't let it be mistaken for the next record's data
+    reader->finish();
+  }
   return 0;
 }
 
-- 
2.43.0


From 3832ee86ef460eb0610c8349dc8307b156e1cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 32/95] fix: invalid json numbers like NaNe1 made the json
 parser read before its buffer

---
 vrs/DescriptionRecord.cpp | 18 +++++++++---------
 vrs/helpers/Rapidjson.hpp | 13 +++++++++++++
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index f0b63de..aa1448b 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -29,7 +29,7 @@
 #include <vrs/IndexRecord.h>
 #include <vrs/Recordable.h>
 #include <vrs/helpers/FileMacros.h>
-#include <vrs/helpers/Serialization.h>
+#include <vrs/helpers/Rapidjson.hpp>
 #include <vrs/utils/xxhash/xxhash.h>
 
 namespace vrs {
@@ -109,10 +109,10 @@ constexpr const char* kTagsLabel = "tags";
 void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
   using namespace vrs_rapidjson;
   outTags.clear();
-  Document document;
-  document.Parse(jsonTags.c_str(), jsonTags.size());
+  JDocument document;
+  jParse(document, jsonTags);
   if (XR_VERIFY(document.IsObject(), "Improper tags: '{}'", jsonTags)) {
-    for (Value::ConstMemberIterator itr = document.MemberBegin(); itr != document.MemberEnd();
+    for (JValue::ConstMemberIterator itr = document.MemberBegin(); itr != document.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
         outTags[itr->name.GetString()] = itr->value.GetString();
@@ -123,19 +123,19 @@ void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
 
 bool jsonToNameAndTags(const string& jsonStr, string& outName, map<string, string>& outTags) {
   using namespace vrs_rapidjson;
-  Document document;
-  document.Parse(jsonStr.c_str(), jsonStr.size());
+  JDocument document;
+  jParse(document, jsonStr);
   if (!XR_VERIFY(document.IsObject(), "Improper name & tags")) {
     return false;
   }
-  Value::ConstMemberIterator name = document.FindMember(kNameLabel);
+  JValue::ConstMemberIterator name = document.FindMember(kNameLabel);
   if (XR_VERIFY(
           name != document.MemberEnd() && name->value.IsString(), "missing name in description")) {
     outName = name->value.GetString();
   }
-  Value::ConstMemberIterator tags = document.FindMember(kTagsLabel);
+  JValue::ConstMemberIterator tags = document.FindMember(kTagsLabel);
   if (tags != document.MemberEnd() && tags->value.IsObject()) {
-    for (Value::ConstMemberIterator itr = tags->value.MemberBegin(); itr != tags->value.MemberEnd();
+    for (JValue::ConstMemberIterator itr = tags->value.MemberBegin(); itr != tags->value.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
         outTags[itr->name.GetString()] = itr->value.GetString();
diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 23d7471..372615d 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -55,6 +55,19 @@ inline JValue jStringCopy(string_view str, JDocument::AllocatorType& allocator)
   return JValue(str.data(), str.size(), allocator);
 }
 inline void jParse(JDocument& document, string_view str) {
+  // RapidJson reads before its buffer when NaN or Infinity is followed by an exponent, as in "NaNe1",
+  // which isn't valid json: parse only what's before, so that parsing fails.
+  bool inString = false;
+  for (size_t k = 0; k < str.size(); k++) {
+    const char c = str[k];
+    if (c == '"') {
+      inString = !inString;
+    } else if (inString) {
+      k += (c == '\\') ? 1 : 0; // skip the escaped character
+    } else if ((c == 'e' || c == 'E') && k > 0 && strchr("Nfy", str[k - 1]) != nullptr) {
+      str = str.substr(0, k);
+    }
+  }
   document.Parse(str.data(), str.size());
 }
 
-- 
2.43.0


From 9d93ad8918a42afe9d4cae64d61b4be4e05afda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 33/95] fix: data truncated from a chunk could still be read
 from the stream's buffer

---
 vrs/DiskFileChunk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 0b1d00e..0240c21 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -109,7 +109,8 @@ class DiskFileChunk {
                                       : DISKFILE_PARTIAL_WRITE_ERROR;
   }
   int truncate(int64_t newSize) {
-    if (os::fileSetSize(file_, newSize) == 0) {
+    // flush, so that data beyond the new end can't be read from the stream's buffer
+    if (::fflush(file_) == 0 && os::fileSetSize(file_, newSize) == 0) {
       size_ = newSize;
       return SUCCESS;
     }
-- 
2.43.0


From 3ba0d02014f4fd84a9838dc8f41c3a749a0938d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:53 +0000
Subject: [PATCH 34/95] fix: an atomic file reused for another file renamed
 that other file, or used its name

---
 vrs/DiskFile.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..9f2315d 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -632,8 +632,13 @@ AtomicDiskFile::~AtomicDiskFile() {
 }
 
 int AtomicDiskFile::create(const string& newFilePath, const FileSpec::Extras& options) {
+  IF_ERROR_LOG(close()); // rename a file being written using its own name
   finalName_ = newFilePath;
-  return DiskFile::create(os::getUniquePath(finalName_, 10), options);
+  int error = DiskFile::create(os::getUniquePath(finalName_, 10), options);
+  if (error != 0) {
+    finalName_.clear();
+  }
+  return error;
 }
 
 int AtomicDiskFile::close() {
@@ -641,12 +646,14 @@ int AtomicDiskFile::close() {
     return DiskFile::close();
   }
   string currentName = chunks_->front().getPath();
+  string finalName;
+  finalName.swap(finalName_); // never rename the next file
   IF_ERROR_RETURN(DiskFile::close());
   int retry = 3;
   int status = 0;
-  while ((status = os::rename(currentName, finalName_)) != 0 && os::isFile(currentName) &&
+  while ((status = os::rename(currentName, finalName)) != 0 && os::isFile(currentName) &&
          retry-- > 0) {
-    os::remove(finalName_); // if there was a collision, make room
+    os::remove(finalName); // if there was a collision, make room
   }
   return status;
 }
@@ -659,6 +666,7 @@ void AtomicDiskFile::abort() {
       chunkPaths.emplace_back(chunk.getPath());
     }
     DiskFile::close();
+    finalName_.clear();
     for (const string& path : chunkPaths) {
       os::remove(path);
     }
-- 
2.43.0


From d9c8854ecd2add81bb699f8a1bb3fd84e261432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:30 +0000
Subject: [PATCH 35/95] fix: reading an empty compressed file as an object of
 another size succeeded

---
 vrs/DiskFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9f2315d..2641d0c 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -548,7 +548,7 @@ int DiskFileT<FileChunk>::readZstdFile(const string& path, void* data, size_t da
   IF_ERROR_LOG_AND_RETURN(file.open(path));
   int64_t fileSize = file.getTotalSize();
   if (fileSize <= 0) {
-    return (fileSize < 0) ? FAILURE : 0;
+    return (fileSize < 0 || dataSize != 0) ? FAILURE : 0;
   }
   Decompressor decompressor;
   size_t frameSize = 0;
-- 
2.43.0


From 61bc6d2c5b752b3ffe238a4b43636cf44a022409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 36/95] fix: don't trust the size of corrupt compressed files
 when allocating memory

---
 vrs/DiskFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 2641d0c..69cb5be 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -525,6 +525,11 @@ int readZstdFileTemplate(const string& path, T& outContent) {
   size_t frameSize = 0;
   size_t maxReadSize = static_cast<size_t>(fileSize);
   IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, maxReadSize));
+  // a block of up to 128 KB takes at least 4 bytes: larger sizes can only be corrupt
+  const size_t kMaxCompressionRatio = 32 * 1024;
+  if (frameSize / kMaxCompressionRatio > static_cast<size_t>(fileSize)) {
+    return FAILURE;
+  }
   outContent.resize(frameSize / sizeof(typename T::value_type));
   IF_ERROR_LOG_AND_RETURN(
       decompressor.readFrame(file, &outContent.front(), frameSize, maxReadSize));
-- 
2.43.0


From 1f9dc8165a3b4f03ee33a7620bba2eb9560c5607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 37/95] fix: an asynchronous disk write that couldn't be
 started deadlocked

---
 vrs/AsyncDiskFileChunk.cpp | 37 +++++++++++++++++++++----------------
 vrs/AsyncDiskFileChunk.h   |  3 ++-
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..0a6d5f4 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -478,11 +478,9 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the write wasn't queued, the completion callback won't be called: the caller, which holds
+  // the lock that the callback would need, must free the buffer.
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -751,7 +749,7 @@ int AsyncDiskFileChunk::write(const void* buffer, size_t count, size_t& outWritt
               });
           current_buffer_ = nullptr;
           file_position_ += towrite;
-          pump_buffers_locked();
+          pump_buffers_locked(lock);
 
           if (count != 0) {
             current_buffer_ = get_free_buffer_locked(lock);
@@ -968,17 +966,20 @@ void AsyncDiskFileChunk::complete_write(AsyncBuffer* buffer, ssize_t io_return,
   }
 
   if (io_errno != SUCCESS) {
-    int current_error = async_error_.load();
-    while (current_error == SUCCESS &&
-           !async_error_.compare_exchange_weak(current_error, io_errno)) {
-    }
+    set_async_error(io_errno);
   }
 
   {
     std::unique_lock lock{buffers_mutex_};
     free_buffer_locked(lock, buffer);
     buffers_writing_ -= 1;
-    pump_buffers_locked();
+    pump_buffers_locked(lock);
+  }
+}
+
+void AsyncDiskFileChunk::set_async_error(int error) {
+  int current_error = async_error_.load();
+  while (current_error == SUCCESS && !async_error_.compare_exchange_weak(current_error, error)) {
   }
 }
 
@@ -1015,26 +1016,30 @@ void AsyncDiskFileChunk::free_buffer_locked(
 
 void AsyncDiskFileChunk::pump_buffers() {
   std::unique_lock lock{buffers_mutex_};
-  pump_buffers_locked();
+  pump_buffers_locked(lock);
 }
 
-void AsyncDiskFileChunk::pump_buffers_locked() {
+void AsyncDiskFileChunk::pump_buffers_locked(std::unique_lock<std::mutex>& lock) {
   // You must own a lock on buffers_mutex_ to call this
 
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = nullptr;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
       auto& item = buffers_queued_.front();
-      result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
+      buffer = item.buffer_;
+      result = buffer->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // the completion routine won't be called
+      set_async_error(result);
+      free_buffer_locked(lock, buffer);
     }
   }
 }
diff --git a/vrs/AsyncDiskFileChunk.h b/vrs/AsyncDiskFileChunk.h
index 87964e6..f3f74bb 100644
--- a/vrs/AsyncDiskFileChunk.h
+++ b/vrs/AsyncDiskFileChunk.h
@@ -250,12 +250,13 @@ class VRS_API AsyncDiskFileChunk {
   int ensureOpenDirect();
   int ensureOpen_(int requested_flags);
   void complete_write(AsyncBuffer* buffer, ssize_t io_return, int io_errno);
+  void set_async_error(int error);
   AsyncBuffer* get_free_buffer_locked(std::unique_lock<std::mutex>& lock);
   AsyncBuffer* get_free_buffer();
   void free_buffer(AsyncBuffer*& buffer);
   void free_buffer_locked(std::unique_lock<std::mutex>& lock, AsyncBuffer*& buffer);
   void pump_buffers();
-  void pump_buffers_locked();
+  void pump_buffers_locked(std::unique_lock<std::mutex>& lock);
   int alloc_write_buffers();
   int free_write_buffers();
   int init_parameters(const FileSpec::Extras& options);
-- 
2.43.0


From 47cd57738694904718e1beee355af8946a1ecd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 38/95] fix: adding a chunk moved a chunk being written, and
 its writes completed in freed memory

---
 vrs/AsyncDiskFileChunk.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 0a6d5f4..8cef735 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -542,6 +542,14 @@ void AsyncBuffer::SigEvNotifyFunction(union sigval val) {
 #endif // IS_WINDOWS_PLATFORM / POSIX_AIO_SUPPORTED
 
 AsyncDiskFileChunk::AsyncDiskFileChunk(AsyncDiskFileChunk&& other) noexcept {
+  {
+    // The buffers being written or queued refer to the chunk that created them: let them complete
+    std::unique_lock lock{other.buffers_mutex_};
+    other.buffer_freed_cv_.wait(lock, [&other] {
+      return other.buffers_writing_ == 0 && other.buffers_queued_.empty();
+    });
+  }
+
   file_ = std::move(other.file_);
   path_ = std::move(other.path_);
   offset_ = other.offset_;
-- 
2.43.0


From 4a2656483b6c1bcc93bb866c3bdfe91d99ecb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:33 +0000
Subject: [PATCH 39/95] fix: an invalid memory alignment for asynchronous
 writes threw an exception instead of returning an error

---
 vrs/AsyncDiskFileChunk.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 8cef735..7a09d00 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -1169,8 +1169,9 @@ int AsyncDiskFileChunk::init_parameters(const FileSpec::Extras& options) {
   }
 #endif
 
-  // Allow overrides, but don't bother checking that they are powers of two or anything, on
-  // the assumption that the underlying write() calls will fail if they're bad values.
+  // Allow overrides, but don't bother checking that the offset alignment is a power of two or
+  // anything, on the assumption that the underlying write() calls will fail if it's a bad value.
+  // Buffers can't be allocated if the memory alignment isn't valid.
 
   uint64_t temp_u64 = 0;
   mem_align_ = helpers::getByteSize(options, "mem_align", temp_u64) ? temp_u64 : mem_align_;
@@ -1212,6 +1213,13 @@ int AsyncDiskFileChunk::init_parameters(const FileSpec::Extras& options) {
         helpers::humanReadableFileSize(mem_align_));
     return DISKFILE_INVALID_STATE;
   }
+  if (mem_align_ % sizeof(void*) != 0 || (mem_align_ & (mem_align_ - 1)) != 0) {
+    XR_LOGCE(
+        VRS_DISKFILECHUNK,
+        "mem_align={} isn't a power of two, or it is too small",
+        helpers::humanReadableFileSize(mem_align_));
+    return DISKFILE_INVALID_STATE;
+  }
   XR_LOGCI(
       VRS_DISKFILECHUNK,
       "asyncdiskfile configuration: IOEngine={} DirectIO={} iodepth={} buffer_count={} "
-- 
2.43.0


From c6a12150e88a2a5e458498455d99ebcd83826838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 40/95] fix: uris with non-ASCII characters were refused where
 char is signed

---
 vrs/FileSpec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..88c95c0 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -507,7 +507,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) {
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From 22df8feee96e3b07750759a8c1bc78d2c9dcfb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 41/95] fix: getting the location of a uri without a host read
 past its end

---
 vrs/FileSpec.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 88c95c0..fc76776 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -309,12 +309,16 @@ string FileSpec::getSourceLocation() const {
     if (colon != string::npos) {
       auto end = colon;
       unsigned char c = 0;
+      // Note that uri[uri.size()] is a valid null character, not to be read past
       do {
         c = static_cast<unsigned char>(uri[++end]);
       } while (c == '/');
-      do {
+      while (c != 0) {
         c = static_cast<unsigned char>(uri[++end]);
-      } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+        if (isalnum(c) == 0 && c != '.' && c != '-' && c != '_') {
+          break;
+        }
+      }
       return uri.substr(0, end);
     }
     return uri;
-- 
2.43.0


From a1c3c17b9a3f7eff5b78a72ef17d849b3ee27fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 42/95] fix: a path ending with a question mark was read past
 its end

---
 vrs/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index fc76776..7d3d91f 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
-- 
2.43.0


From a7a604d020bd0076d208c0850738a56ae8103e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 43/95] fix: a path with parameters lost the default file
 handler

---
 vrs/FileSpec.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 7d3d91f..bae98e0 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -186,14 +186,20 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
         uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
-    fileHandlerName =
+    const string defaultName =
         defaultFileHandlerName.empty() ? DiskFile::staticName() : string(defaultFileHandlerName);
+    fileHandlerName = defaultName;
     if (hasParams) {
       uri = pathJsonUri;
       if (FileHandlerFactory::getInstance().parseUri(*this, 0) == SUCCESS) {
+        if (fileHandlerName.empty()) {
+          // the uri doesn't name a file handler
+          fileHandlerName = defaultName;
+        }
         return SUCCESS;
       }
-      uri.clear();
+      clear();
+      fileHandlerName = defaultName;
     }
     chunks = {string(pathJsonUri)};
     return SUCCESS;
-- 
2.43.0


From f45d2fcb68c58e68581014b7c849a48dd2dfb9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 44/95] fix: details read from a damaged cache file were added
 to the details of the file

---
 vrs/RecordFileReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index ad5db7c..8b6e6fc 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -297,6 +297,11 @@ int RecordFileReader::doOpenFile(
           streamTags_,
           recordIndex_,
           fileHasAnIndex_) != 0) {
+    // reading an invalid cache may have failed after reading some details
+    streamIds_.clear();
+    fileTags_.clear();
+    streamTags_.clear();
+    recordIndex_.clear();
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
     // Maybe write the file's details to disk
     if (tryToUseCache && !detailsCacheFilePath.empty()) {
-- 
2.43.0


From a6fe2213945693115991ea3ce92b55f2035423ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 45/95] fix: the details of a file that couldn't be opened were
 saved in the cache and trusted later

---
 vrs/RecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 8b6e6fc..57ef433 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -304,7 +304,7 @@ int RecordFileReader::doOpenFile(
     recordIndex_.clear();
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
     // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    if (error == 0 && tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
-- 
2.43.0


From e2cd0cee32a0427b79cff0e623f1ce7e734e3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 46/95] fix: sorting the records of a file while saving its
 details in the cache saved them partly sorted

---
 vrs/RecordFileReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 57ef433..30485c8 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -345,6 +345,11 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) {
+      // the index can't be modified while it's being saved
+      detailsSaveThread_->join();
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
-- 
2.43.0


From 7b558ad85e79bc282bc1ada321772626f21b91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 47/95] fix: don't trust the sizes of a damaged cache file when
 allocating memory

---
 vrs/FileDetailsCache.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..e3d463a 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -16,6 +16,8 @@
 
 #include <vrs/FileDetailsCache.h>
 
+#include <algorithm>
+
 #define DEFAULT_LOG_CHANNEL "FileDetailsCache"
 #include <logging/Log.h>
 #include <logging/Verify.h>
@@ -193,7 +195,8 @@ int readIndexData(
   }
   IF_ERROR_LOG_AND_RETURN(file.read(diskIndexSize));
   outIndex.resize(0);
-  outIndex.reserve(diskIndexSize);
+  // don't trust the size of the index to allocate memory until its records have been read
+  outIndex.reserve(std::min<size_t>(diskIndexSize, kMaxBatchSize));
   Decompressor decompressor;
   vector<DiskRecordInfo> diskRecords;
   size_t indexByteSize = indexSize - sizeof(recordableCount) -
@@ -201,7 +204,9 @@ int readIndexData(
   while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
-    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0)) {
+    if (!XR_VERIFY(
+            frameSize % sizeof(DiskRecordInfo) == 0 &&
+            frameSize <= kMaxBatchSize * sizeof(DiskRecordInfo))) {
       return FAILURE;
     }
     diskRecords.resize(frameSize / sizeof(DiskRecordInfo));
-- 
2.43.0


From a6d01ea739a730074dda95be7e60bf8bc40e1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 48/95] fix: details that couldn't be read reliably were saved
 in the cache, and a file error stopping the reconstruction of an index
 truncated the file

---
 vrs/IndexRecord.cpp      |  9 +++++++++
 vrs/RecordFileReader.cpp | 23 ++++++++++++++++++-----
 vrs/RecordFileReader.h   |  3 ++-
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index ae675a3..1d31bd9 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -820,6 +820,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   uint32_t previousRecordSize = 0;
   bool distrustLastRecord = false;
   int error = 0;
+  int fileError = 0; // an error accessing the file, rather than a problem with its content
   do {
     if (file_.read(recordHeader, recordHeaderSize) != 0) {
       if (file_.getLastRWSize() == 0 && file_.isEof()) {
@@ -831,6 +832,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
           index_.size(),
           file_.getLastRWSize(),
           previousRecordSize);
+      if (!file_.isEof() && file_.getLastError() != 0) {
+        fileError = file_.getLastError();
+      }
       error = REINDEXING_ERROR;
       break;
     }
@@ -896,6 +900,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       }
       if (file_.skipForward(dataSize) != 0) {
         error = file_.getLastError();
+        fileError = error;
         XR_LOGW(
             "Reindexing: record #{}. Can't skip {} bytes of record data: {}",
             index_.size(),
@@ -976,6 +981,10 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       os::getTimestampSec() - beforeIndexing,
       index_.size(),
       streamIds_.size());
+  if (fileError != 0) {
+    XR_LOGE("Reindexing stopped by a file error: {}", errorCodeToMessage(fileError));
+    return fileError; // we don't know what follows: don't modify the file!
+  }
   if (!writeFixedIndex) {
     file_.forgetFurtherChunks(absolutePosition);
     return error;
diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 30485c8..fd5bf0e 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -302,9 +302,10 @@ int RecordFileReader::doOpenFile(
     fileTags_.clear();
     streamTags_.clear();
     recordIndex_.clear();
-    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
-    // Maybe write the file's details to disk
-    if (error == 0 && tryToUseCache && !detailsCacheFilePath.empty()) {
+    bool detailsReliable = true;
+    error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader, detailsReliable);
+    // Maybe write the file's details to disk, unless we might read them better next time
+    if (error == 0 && detailsReliable && tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
@@ -385,7 +386,8 @@ int RecordFileReader::readFileHeader(
 int RecordFileReader::readFileDetails(
     const FileSpec& fileSpec,
     bool autoWriteFixedIndex,
-    FileFormat::FileHeader& fileHeader) {
+    FileFormat::FileHeader& fileHeader,
+    bool& outDetailsReliable) {
   int error = 0;
   int64_t firstUserRecordOffset = fileHeader.firstUserRecordOffset;
   if (autoPrefetch_) {
@@ -407,6 +409,7 @@ int RecordFileReader::readFileDetails(
           []() { return "Read description record"; });
       if (error != 0) {
         XR_LOGW("Error reading the file description record: {}", errorCodeToMessageWithCode(error));
+        outDetailsReliable = false;
       }
       // In early files, the first user record comes after the description record, if any.
       if (descriptionRecordOffset == firstUserRecordOffset) {
@@ -414,6 +417,7 @@ int RecordFileReader::readFileDetails(
       }
     } else {
       XR_LOGW("Error accessing the file description record.");
+      outDetailsReliable = false;
     }
   } else {
     XR_LOGW("No description record.");
@@ -428,6 +432,9 @@ int RecordFileReader::readFileDetails(
   });
   if (error != 0) {
     XR_LOGW("Could not read index record: {}", errorCodeToMessageWithCode(error));
+    if (error != INDEX_RECORD_ERROR && error != DISKFILE_NOT_ENOUGH_DATA) {
+      outDetailsReliable = false;
+    }
   }
   fileHasAnIndex_ = (error == 0 && indexReader.isIndexComplete());
   if (fileHasAnIndex_) {
@@ -447,7 +454,13 @@ int RecordFileReader::readFileDetails(
       return INDEX_RECORD_ERROR;
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
-    indexReader.rebuildIndex(autoWriteFixedIndex);
+    int rebuildError = indexReader.rebuildIndex(autoWriteFixedIndex);
+    if (rebuildError == OPERATION_CANCELLED) {
+      return rebuildError;
+    }
+    if (rebuildError != 0 && rebuildError != REINDEXING_ERROR) {
+      outDetailsReliable = false;
+    }
     endOfRecords_ = indexReader.getEndOfRecords();
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index af584d4..bf59911 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -584,7 +584,8 @@ class VRS_API RecordFileReader {
   int readFileDetails(
       const FileSpec& fileSpec,
       bool autoWriteFixedIndex,
-      FileFormat::FileHeader& fileHeader);
+      FileFormat::FileHeader& fileHeader,
+      bool& outDetailsReliable);
   bool readConfigRecords(
       const set<const IndexRecord::RecordInfo*>& configRecords,
       StreamPlayer* streamPlayer);
-- 
2.43.0


From 02d426566e28a23e965b37a1887a19bf44efca61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 49/95] fix: invalid record types in a damaged cache file were
 used to count records

---
 vrs/FileDetailsCache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index e3d463a..7901773 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -213,6 +213,9 @@ int readIndexData(
     IF_ERROR_LOG_AND_RETURN(
         decompressor.readFrame(file, diskRecords.data(), frameSize, indexByteSize));
     for (auto& diskRecord : diskRecords) {
+      if (!XR_VERIFY(enumIsValid<Record::Type>(diskRecord.getRecordType()))) {
+        return FAILURE;
+      }
       double timestamp = diskRecord.timestamp;
       int64_t recordOffset = diskRecord.recordOffset;
       outIndex.emplace_back(
-- 
2.43.0


From 6a38ea7693e1b513a00f6a811e71a01228c7609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:01 +0000
Subject: [PATCH 50/95] fix: the details of a file were cached when part of its
 tags or split index couldn't be read

---
 vrs/RecordFileReader.cpp | 9 ++++++++-
 vrs/TagsRecord.cpp       | 1 +
 vrs/TagsRecord.h         | 6 ++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index fd5bf0e..e91ded1 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -437,6 +437,10 @@ int RecordFileReader::readFileDetails(
     }
   }
   fileHasAnIndex_ = (error == 0 && indexReader.isIndexComplete());
+  if (!fileHasAnIndex_ && file_->getLastError() != 0 &&
+      file_->getLastError() != DISKFILE_NOT_ENOUGH_DATA) {
+    outDetailsReliable = false;
+  }
   if (fileHasAnIndex_) {
     if (usedFileSize > 0) {
       file_->forgetFurtherChunks(usedFileSize);
@@ -478,7 +482,10 @@ int RecordFileReader::readFileDetails(
       }
       XR_LOGD("Reading TagsRecord for {}", iter->streamId.getName());
       tagsPlayer->prepareToReadTagsFor(iter->streamId);
-      readRecord(*iter, tagsPlayer.get());
+      const size_t readCount = tagsPlayer->getReadCount();
+      if (readRecord(*iter, tagsPlayer.get()) != 0 || tagsPlayer->getReadCount() == readCount) {
+        outDetailsReliable = false; // the tags weren't read
+      }
     }
   }
   // If there was any, remove all the TagsRecords from the index.
diff --git a/vrs/TagsRecord.cpp b/vrs/TagsRecord.cpp
index 6dd08b1..8a70d7a 100644
--- a/vrs/TagsRecord.cpp
+++ b/vrs/TagsRecord.cpp
@@ -60,6 +60,7 @@ bool TagsRecordPlayer::onDataLayoutRead(const CurrentRecord& record, size_t, Dat
         thisRecordableTags.user.size(),
         record.streamId.getName());
     DescriptionRecord::upgradeStreamTags(thisRecordableTags.vrs);
+    readCount_++;
   }
   return true;
 }
diff --git a/vrs/TagsRecord.h b/vrs/TagsRecord.h
index 8ac7717..480251f 100644
--- a/vrs/TagsRecord.h
+++ b/vrs/TagsRecord.h
@@ -45,8 +45,14 @@ class VRS_API TagsRecordPlayer : public RecordFormatStreamPlayer {
 
   bool onDataLayoutRead(const CurrentRecord& record, size_t blockIndex, DataLayout&) override;
 
+  /// Number of tags records successfully read.
+  size_t getReadCount() const {
+    return readCount_;
+  }
+
  private:
   map<StreamId, StreamTags>& streamTags_;
+  size_t readCount_{0};
   TagsRecord tags_;
 };
 
-- 
2.43.0


From 28770df87a007db7e20f3a8423db324f96b9849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 51/95] fix: the index of a record of several files opened with
 sort_records wasn't found

---
 vrs/MultiRecordFileReader.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 5a18e67..f32281e 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -326,18 +326,15 @@ uint32_t MultiRecordFileReader::getRecordIndex(const IndexRecord::RecordInfo* re
     // Weeding out illegal records (which don't belong to any of the underlying readers)
     return getRecordCount();
   }
-  auto lowerIt = lower_bound(
-      recordIndex_->begin(),
-      recordIndex_->end(),
-      record,
-      [this](const IndexRecord::RecordInfo* lhs, const IndexRecord::RecordInfo* rhs) {
-        return this->timeLessThan(lhs, rhs);
-      });
-  if (lowerIt != recordIndex_->end() && *lowerIt == record) {
-    return lowerIt - recordIndex_->begin();
-  } else {
-    return getRecordCount();
+  // Records with the same timestamp might be in a different order (sort_records option)
+  auto iter =
+      lower_bound(recordIndex_->begin(), recordIndex_->end(), record->timestamp, timestampLT);
+  for (; iter != recordIndex_->end() && (*iter)->timestamp == record->timestamp; ++iter) {
+    if (*iter == record) {
+      return static_cast<uint32_t>(iter - recordIndex_->begin());
+    }
   }
+  return getRecordCount();
 }
 
 const IndexRecord::RecordInfo* MultiRecordFileReader::getRecord(uint32_t globalIndex) const {
-- 
2.43.0


From a156ccc8dd812669ec26fbbd64d203978aaa2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 52/95] fix: relative stream names designate the nth stream of
 their type in several files, as in a single one

---
 vrs/MultiRecordFileReader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index f32281e..8188464 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -244,8 +244,13 @@ MultiRecordFileReader::UniqueStreamId MultiRecordFileReader::getStreamForName(
   }
   StreamId id = StreamId::fromNumericName(name);
   if (!id.isValid()) {
-    // relative IDs match unique stream IDs directly
-    id = StreamId::fromNumericNamePlus(name);
+    // relative IDs designate the nth unique stream ID of that type
+    StreamId relativeId = StreamId::fromNumericNamePlus(name);
+    if (relativeId.isValid()) {
+      const auto streamIds = getStreams(relativeId.getTypeId());
+      const size_t index = relativeId.getInstanceId() - 1;
+      id = index < streamIds.size() ? streamIds[index] : StreamId{};
+    }
   }
   return id.isValid() && uniqueStreamIds_.find(id) != uniqueStreamIds_.end()
       ? id
-- 
2.43.0


From d5db045ea289778e8674ab6ac9b641b4428acc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:15 +0000
Subject: [PATCH 53/95] fix: bucket decimation kept the records the farthest
 from their bucket, and dropped the record ending a bucket

The candidate of a bucket was replaced when the new record was farther from the
bucket's timestamp, instead of closer. The record found to be past the limit of
a bucket was never considered for the next bucket, and after a gap, the buckets
were too far behind to ever catch up, so that most records were dropped.
---
 vrs/utils/cli/DefaultDecimator.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index ecaed27..5fd4037 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -152,18 +152,20 @@ bool DefaultDecimator::decimate(
       bucketCurrentTimestamp_ = record.timestamp;
     }
     // are we past the limit for the current bucket?
-    if (record.timestamp - bucketCurrentTimestamp_ > bucketMaxTimestampDelta_) {
+    double overtime = record.timestamp - bucketCurrentTimestamp_ - bucketMaxTimestampDelta_;
+    if (overtime > 0) {
       // no chance of finding better candidates, we need to "submit" this bucket
       inOutKeepGoing = submitBucket(recordReaderFunc, throttledWriter);
-      bucketCurrentTimestamp_ += bucketInterval_;
+      // move to the first bucket which limit isn't past
+      bucketCurrentTimestamp_ += ceil(overtime / bucketInterval_) * bucketInterval_;
     }
     // does this frame qualify for the bucket?
-    else if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
+    if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-          fabs(it->second->timestamp - bucketCurrentTimestamp_) <
-              fabs(record.timestamp - bucketCurrentTimestamp_)) {
+          fabs(record.timestamp - bucketCurrentTimestamp_) <
+              fabs(it->second->timestamp - bucketCurrentTimestamp_)) {
         bucketCandidates_[record.streamId] = &record;
       }
     }
-- 
2.43.0


From b887325474a6c346e8cf8726c6fa780b99418cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 54/95] fix: copies of CopyOptions lost the compression preset,
 the index and the misc options

---
 vrs/utils/FilterCopyHelpers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 0d138cb..371969f 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -68,7 +68,11 @@ CopyOptions::CopyOptions(const CopyOptions& rhs)
       graceWindow{rhs.graceWindow},
       jsonOutput{rhs.jsonOutput},
       maxChunkSizeMB{rhs.maxChunkSizeMB},
-      mergeStreams{rhs.mergeStreams} {
+      mergeStreams{rhs.mergeStreams},
+      preallocateIndex{rhs.preallocateIndex},
+      miscParams{rhs.miscParams},
+      userCompressionPreset{rhs.userCompressionPreset},
+      defaultCompressionPreset{rhs.defaultCompressionPreset} {
   if (rhs.tagOverrider) {
     TagOverrider& thisTagOverrider = getTagOverrider();
     thisTagOverrider.fileTags = rhs.tagOverrider->fileTags;
@@ -84,6 +88,10 @@ CopyOptions& CopyOptions::operator=(const CopyOptions& rhs) {
     jsonOutput = rhs.jsonOutput;
     maxChunkSizeMB = rhs.maxChunkSizeMB;
     mergeStreams = rhs.mergeStreams;
+    preallocateIndex = rhs.preallocateIndex;
+    miscParams = rhs.miscParams;
+    userCompressionPreset = rhs.userCompressionPreset;
+    defaultCompressionPreset = rhs.defaultCompressionPreset;
     tagOverrider.reset();
     if (rhs.tagOverrider) {
       TagOverrider& thisTagOverrider = getTagOverrider();
-- 
2.43.0


From b3c58209fec4c55f0e93f9ed020d337086f6d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 55/95] fix: copying a stream of a recordable class which
 flavor was lost by a truncation aborted

---
 vrs/utils/FilterCopyHelpers.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 371969f..f47d694 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -35,6 +35,12 @@ utils::Throttler& getThrottler() {
   return sThrottler;
 }
 
+// Recordable classes require a flavor, but it might be lost when a file was truncated
+string getCopyFlavor(const RecordFileReader& fileReader, StreamId id, RecordableTypeId typeId) {
+  const string& flavor = fileReader.getFlavor(id);
+  return flavor.empty() && isARecordableClass(typeId) ? "unknown" : flavor;
+}
+
 } // namespace
 
 namespace vrs::utils {
@@ -126,7 +132,7 @@ Copier::Copier(
     RecordFileWriter& fileWriter,
     StreamId id,
     const CopyOptions& copyOptions)
-    : writer_(id.getTypeId(), fileReader.getFlavor(id)),
+    : writer_(id.getTypeId(), getCopyFlavor(fileReader, id, id.getTypeId())),
       fileWriter_{fileWriter},
       options_{copyOptions} {
   fileReader.setStreamPlayer(id, this);
@@ -193,7 +199,7 @@ RecordFilterCopier::RecordFilterCopier(
     StreamId id,
     RecordableTypeId copyRecordableTypeId,
     const CopyOptions& copyOptions)
-    : writer_(copyRecordableTypeId, fileReader.getFlavor(id)),
+    : writer_(copyRecordableTypeId, getCopyFlavor(fileReader, id, copyRecordableTypeId)),
       fileWriter_{fileWriter},
       options_{copyOptions} {
   fileReader.setStreamPlayer(id, this);
-- 
2.43.0


From 73d09b0d677853325cf2b68c0c8aad36e81b1d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 56/95] fix: removing content blocks left the layouts which
 followed them with the index of another block

---
 vrs/utils/cli/MakeZeroFilterCopier.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vrs/utils/cli/MakeZeroFilterCopier.cpp b/vrs/utils/cli/MakeZeroFilterCopier.cpp
index 5cb6fb3..533aa6e 100644
--- a/vrs/utils/cli/MakeZeroFilterCopier.cpp
+++ b/vrs/utils/cli/MakeZeroFilterCopier.cpp
@@ -46,6 +46,7 @@ class ZeroFilter : public RecordFilterCopier {
     for (const auto& iter : recordFormats) {
       RecordFormat updatedRecordFormat;
       bool removedBlock = false;
+      size_t updatedBlockCount = 0;
       const auto& recordFormat = iter.second;
       for (size_t contentBlockIndex = 0; contentBlockIndex < recordFormat.getUsedBlocksCount();
            contentBlockIndex++) {
@@ -54,7 +55,18 @@ class ZeroFilter : public RecordFilterCopier {
             cb.getContentType() == ContentType::AUDIO) {
           removedBlock = true;
         } else {
+          if (removedBlock && cb.getContentType() == ContentType::DATA_LAYOUT) {
+            // the index of this block changes: its layout's definition must follow
+            auto layoutTag = vrsTags.extract(RecordFormat::getDataLayoutTagName(
+                iter.first.first, iter.first.second, contentBlockIndex));
+            if (layoutTag) {
+              layoutTag.key() = RecordFormat::getDataLayoutTagName(
+                  iter.first.first, iter.first.second, updatedBlockCount);
+              vrsTags.insert(std::move(layoutTag));
+            }
+          }
           updatedRecordFormat + cb;
+          updatedBlockCount++;
         }
       }
       if (removedBlock) {
-- 
2.43.0


From 6ba94e6dd025dac883a247601c55fa27855326c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:49 +0000
Subject: [PATCH 57/95] fix: comparing the last line of different buffers read
 beyond their end

---
 vrs/utils/Validation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 7501f8c..205e31b 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -556,8 +556,8 @@ buildIdMap(FilteredFileReader& first, FilteredFileReader& second, map<StreamId,
 
 static bool
 isSameLine(const vector<char>& first, const vector<char>& second, size_t offset, size_t lineSize) {
-  if (offset + lineSize < first.size()) {
-    size_t endOffset = offset + lineSize;
+  if (offset + lineSize > first.size()) {
+    size_t endOffset = first.size(); // incomplete last line
     for (size_t idx = offset; idx < endOffset; idx++) {
       if (first[idx] != second[idx]) {
         return false;
-- 
2.43.0


From d66705e4cc885f258676c0c29d524e48f336313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 58/95] fix: comparing files missed missing or extra records,
 format versions, repeated timestamps, and filters of the second file

---
 vrs/utils/Validation.cpp | 79 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 8 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 205e31b..f677f41 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -658,18 +658,23 @@ class RecordHolder : public StreamPlayer {
     outDataReference.useVector(buffer_);
     return true;
   }
-  void processRecord(const CurrentRecord& /*record*/, uint32_t /*readSize*/) override {
+  void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
     readCounter_++;
+    formatVersion_ = record.formatVersion;
   }
   const vector<char>& getBuffer() const {
     return buffer_;
   }
+  uint32_t getFormatVersion() const {
+    return formatVersion_;
+  }
   size_t getReadCounter() const {
     return readCounter_;
   }
 
  private:
   size_t readCounter_ = 0;
+  uint32_t formatVersion_ = 0;
   vector<char> buffer_;
 };
 
@@ -680,13 +685,15 @@ class RecordMaster : public StreamPlayer {
       bool& noError,
       StreamId matchingId,
       RecordFileReader& matchingReader,
+      const vector<const IndexRecord::RecordInfo*>& matchingRecords,
       RecordHolder* holder)
       : diffCounter_{diffCounter},
         noError_{noError},
         id_{matchingId},
         reader_{matchingReader},
         holder_{holder},
-        index_{reader_.getIndex(id_)} {}
+        index_{matchingRecords},
+        matched_(index_.size(), false) {}
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
@@ -698,18 +705,21 @@ class RecordMaster : public StreamPlayer {
       lastRecord_++;
     }
     if (lastRecord_ >= index_.size() || index_[lastRecord_]->timestamp > record.timestamp) {
-      diffCounter_++;
+      recordMissing(record);
       return;
     }
     // we have the first record with the same timestamp, but is the type the right one?
     size_t typeIndex = lastRecord_;
     while (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-           index_[typeIndex]->recordType != record.recordType) {
+           (matched_[typeIndex] || index_[typeIndex]->recordType != record.recordType)) {
       typeIndex++;
     }
-    if (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-        index_[typeIndex]->recordType == record.recordType) {
+    if (typeIndex >= index_.size() || index_[typeIndex]->timestamp > record.timestamp) {
+      recordMissing(record);
+    } else {
       // found a match, read that record & compare the buffers
+      matched_[typeIndex] = true;
+      matchCounter_++;
       if (reader_.readRecord(*index_[typeIndex]) != 0) {
         noError_ = false;
         cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
@@ -719,6 +729,11 @@ class RecordMaster : public StreamPlayer {
         if (holder_->getReadCounter() != readCounter_) {
           cerr << "Record counter is different.\n";
           diffCounter_++;
+        } else if (holder_->getFormatVersion() != record.formatVersion) {
+          diffCounter_++;
+          cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
+               << setprecision(3) << record.timestamp << " " << toString(record.recordType)
+               << " format version mismatch.\n";
         } else if (holder_->getBuffer() != buffer_) {
           diffCounter_++;
           cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
@@ -737,14 +752,30 @@ class RecordMaster : public StreamPlayer {
       }
     }
   }
+  /// After reading every record, count the records of the matching stream that weren't matched.
+  void countUnmatchedRecords() {
+    if (matchCounter_ < index_.size()) {
+      diffCounter_++;
+      cerr << index_.size() - matchCounter_ << " record(s) of the matching stream "
+           << id_.getNumericName() << " have no equivalent.\n";
+    }
+  }
 
  private:
+  void recordMissing(const CurrentRecord& record) {
+    diffCounter_++;
+    cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+         << record.timestamp << " " << toString(record.recordType) << " has no equivalent.\n";
+  }
+
   atomic<int>& diffCounter_;
   bool& noError_;
   StreamId id_;
   RecordFileReader& reader_;
   RecordHolder* holder_;
   const vector<const IndexRecord::RecordInfo*>& index_;
+  vector<bool> matched_;
+  size_t matchCounter_{};
   size_t lastRecord_{};
   size_t readCounter_{};
   vector<char> buffer_;
@@ -757,8 +788,9 @@ bool compareVRSfiles(
     FilteredFileReader& second,
     const CopyOptions& copyOptions) {
   double startTimestamp{}, endTimestamp{};
+  // apply the time constraints of both files
+  second.getConstrainedTimeRange(startTimestamp, endTimestamp);
   first.getConstrainedTimeRange(startTimestamp, endTimestamp);
-  first.preRollConfigAndState(); // make sure to copy most recent config & state records
 
   ThrottledWriter throttledWriter(copyOptions);
   throttledWriter.initTimeRange(startTimestamp, endTimestamp, &first.reader);
@@ -794,6 +826,19 @@ bool compareVRSfiles(
   second.reader.clearStreamPlayers();
   atomic<int> diffCounter{0};
   bool noError = true;
+  if (!second.timeRangeValid()) {
+    cerr << "Time Range invalid: " << second.getTimeConstraintDescription() << "\n";
+    return false;
+  }
+  // records of the second file selected by its filters
+  map<StreamId, vector<const IndexRecord::RecordInfo*>> secondRecords;
+  RecordReaderFunc collectRecord = [&secondRecords](
+                                       RecordFileReader&, const IndexRecord::RecordInfo& record) {
+    secondRecords[record.streamId].push_back(&record);
+    return true;
+  };
+  second.preRollConfigAndState(collectRecord);
+  second.iterateAdvanced(collectRecord);
   vector<unique_ptr<RecordHolder>> holders;
   vector<unique_ptr<RecordMaster>> checkers;
   for (const auto& iter : idMap) {
@@ -801,15 +846,33 @@ bool compareVRSfiles(
     second.reader.setStreamPlayer(iter.second, holders.back().get());
     checkers.emplace_back(
         make_unique<RecordMaster>(
-            diffCounter, noError, iter.second, second.reader, holders.back().get()));
+            diffCounter,
+            noError,
+            iter.second,
+            second.reader,
+            secondRecords[iter.second],
+            holders.back().get()));
     first.reader.setStreamPlayer(iter.first, checkers.back().get());
   }
+  // make sure to compare the most recent config & state records
+  bool preRollNoError = true;
+  first.preRollConfigAndState(
+      [&preRollNoError](RecordFileReader& reader, const IndexRecord::RecordInfo& record) {
+        preRollNoError &= (reader.readRecord(record) == 0);
+        return true;
+      });
+  preRollNoError &= noError;
   size_t decodedCount = 0;
   double timeSpent = 0;
   double cpuTime = 0;
   if (!iterateChecker(first, decodedCount, noError, &throttledWriter, timeSpent, cpuTime)) {
     return false;
   }
+  second.reader.clearStreamPlayers();
+  for (auto& checker : checkers) {
+    checker->countUnmatchedRecords();
+  }
+  noError &= preRollNoError;
   if (!noError) {
     cerr << "Errors happened while reading the files\n";
   }
-- 
2.43.0


From cb33dce946d734e0a0d603c0366ba060624e288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 59/95] fix: the last pixels of GREY10PACKED rows were not
 scaled to 16 bits

---
 vrs/utils/converters/Grey10PackedConverters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index b8514ce..8d9733c 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -174,11 +174,11 @@ bool convertGrey10PackedToGrey16(
     // copy leftover pixels, if any
     uint32_t w = total_quadruplets_in_row * 4;
     if (w < width) {
-      grey10[0] = grey10packed->p1();
+      grey10[0] = grey10packed->p1() << 6;
       if (++w < width) {
-        grey10[1] = grey10packed->p2();
+        grey10[1] = grey10packed->p2() << 6;
         if (++w < width) {
-          grey10[2] = grey10packed->p3();
+          grey10[2] = grey10packed->p3() << 6;
         }
       }
     }
-- 
2.43.0


From 6f1b2f7511508c9a6d869e1ec7aedb5793c4041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 60/95] fix: the last pixel of YUY2 rows of odd width was not
 converted

---
 vrs/utils/PixelConversions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vrs/utils/PixelConversions.cpp b/vrs/utils/PixelConversions.cpp
index 97ea422..0b6ddbf 100644
--- a/vrs/utils/PixelConversions.cpp
+++ b/vrs/utils/PixelConversions.cpp
@@ -295,6 +295,15 @@ void convertYuy2ToRgb8(
       lineOutPtr[4] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
       lineOutPtr[5] = clipToUint8((298 * c + 516 * d + 128) >> 8);
     }
+    if (width % 2 != 0) {
+      // last pixel of an odd line
+      const int c = lineSrcPtr[0] - 16;
+      const int d = lineSrcPtr[1] - 128;
+      const int e = lineSrcPtr[3] - 128;
+      lineOutPtr[0] = clipToUint8((298 * c + 409 * e + 128) >> 8);
+      lineOutPtr[1] = clipToUint8((298 * c - 100 * d - 208 * e + 128) >> 8);
+      lineOutPtr[2] = clipToUint8((298 * c + 516 * d + 128) >> 8);
+    }
   }
 }
 
-- 
2.43.0


From 5b03a2159ac5754dc9bfa453c55deb80de598eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 61/95] fix: swapping frames of the same size mixed up their
 image formats

---
 vrs/utils/PixelFrame.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 797518b..5e6a7d7 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -124,11 +124,7 @@ void PixelFrame::init(PixelFormat pf, uint32_t w, uint32_t h, uint32_t stride, u
 }
 
 void PixelFrame::swap(PixelFrame& other) noexcept {
-  if (!hasSamePixels(other.imageSpec_)) {
-    ImageContentBlockSpec tempSpec = other.imageSpec_;
-    other.imageSpec_ = imageSpec_;
-    imageSpec_ = tempSpec;
-  }
+  std::swap(imageSpec_, other.imageSpec_);
   frameBytes_.swap(other.frameBytes_);
 }
 
-- 
2.43.0


From 3b1594564f16c6915cf93348d155f63755db5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 62/95] fix: normalizing images with a stride shifted their
 pixels or produced a blank image, and images smaller than their spec were
 read out of bounds

---
 vrs/utils/PixelFrame.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 5e6a7d7..346b8c1 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -448,6 +448,22 @@ bool PixelFrame::normalizeFrame(
   if (normalizedPixelFormat == PixelFormat::UNDEFINED) {
     normalizedPixelFormat = getNormalizedPixelFormat(srcFormat, grey16supported, options);
   }
+  const uint32_t defaultStride = getDefaultStride();
+  if (getStride() < defaultStride || size() < imageSpec_.getRawImageSize()) {
+    return false; // invalid image: not enough pixels
+  }
+  if (imageSpec_.getPlaneCount() == 1 && getStride() > defaultStride) {
+    // Not all the conversions support strides: remove it
+    PixelFrame packedFrame(srcFormat, getWidth(), getHeight());
+    for (uint32_t line = 0; line < getHeight(); line++) {
+      memcpy(
+          packedFrame.wdata() + static_cast<size_t>(line) * defaultStride,
+          rdata() + static_cast<size_t>(line) * getStride(),
+          defaultStride);
+    }
+    return packedFrame.normalizeFrame(
+        outNormalizedFrame, grey16supported, options, normalizedPixelFormat);
+  }
   if (options.semantic == ImageSemantic::Depth && getPixelFormat() == PixelFormat::DEPTH32F &&
       normalizedPixelFormat == PixelFormat::GREY8) {
     if (options.min < options.max) {
-- 
2.43.0


From eb410da62aadf570ee888003efa0b2af7711ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 63/95] fix: converting RGBA images smaller than their spec
 read out of bounds

---
 vrs/utils/PixelFrame.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 346b8c1..ee80a1c 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -398,7 +398,8 @@ PixelFormat PixelFrame::getNormalizedPixelFormat(
 }
 
 bool PixelFrame::inplaceRgbaToRgb() {
-  if (getPixelFormat() != PixelFormat::RGBA8) {
+  if (getPixelFormat() != PixelFormat::RGBA8 || getStride() < getDefaultStride() ||
+      size() < imageSpec_.getRawImageSize()) {
     return false;
   }
   uint32_t width = getWidth();
@@ -412,7 +413,8 @@ bool PixelFrame::inplaceRgbaToRgb() {
 }
 
 bool PixelFrame::convertRgbaToRgb(std::shared_ptr<PixelFrame>& outRgbFrame) const {
-  if (getPixelFormat() != PixelFormat::RGBA8) {
+  if (getPixelFormat() != PixelFormat::RGBA8 || getStride() < getDefaultStride() ||
+      size() < imageSpec_.getRawImageSize()) {
     return false;
   }
   uint32_t width = getWidth();
-- 
2.43.0


From dae391e7d001fe858ea891e701f705e7d16facd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 64/95] fix: the stride of very wide images overflowed to a
 small value

---
 vrs/RecordFormat.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index d7a5535..7dd6196 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -659,11 +659,16 @@ uint32_t ImageContentBlockSpec::getStride() const {
   return stride_ > 0 ? stride_ : getDefaultStride();
 }
 
+// Lines too large for a 32 bit stride aren't supported
+static uint32_t checkStride(uint64_t stride) {
+  return stride <= numeric_limits<uint32_t>::max() ? static_cast<uint32_t>(stride) : 0;
+}
+
 uint32_t ImageContentBlockSpec::getDefaultStride() const {
   // Try to compute the stride using the bytes per pixel.
   size_t bytesPerPixel = getBytesPerPixel();
   if (bytesPerPixel != ContentBlock::kSizeUnknown) {
-    return getWidth() * static_cast<uint32_t>(bytesPerPixel);
+    return checkStride(static_cast<uint64_t>(getWidth()) * bytesPerPixel);
   }
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
@@ -675,13 +680,13 @@ uint32_t ImageContentBlockSpec::getDefaultStride() const {
     case PixelFormat::RAW10_BAYER_BGGR:
     case PixelFormat::GREY10PACKED: {
       // groups of 4 pixels use 5 bytes, sharing the 5th for their last two bits
-      uint32_t fourPixelsGroupCount = (getWidth() + 3) / 4;
-      return fourPixelsGroupCount * 5;
+      uint64_t fourPixelsGroupCount = (static_cast<uint64_t>(getWidth()) + 3) / 4;
+      return checkStride(fourPixelsGroupCount * 5);
     }
     case PixelFormat::YUY2: {
       // groups of 2 pixels store their data in 4 bytes
-      uint32_t twoPixelsGroupCount = (getWidth() + 1) / 2;
-      return twoPixelsGroupCount * 4;
+      uint64_t twoPixelsGroupCount = (static_cast<uint64_t>(getWidth()) + 1) / 2;
+      return checkStride(twoPixelsGroupCount * 4);
     }
     case PixelFormat::UNDEFINED: {
       return 0;
-- 
2.43.0


From 18e81bd70da36f738804c8476958388298cbc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 65/95] fix: the vectorized RAW10 conversion read past the end
 of the image

---
 .../converters/Raw10ToGrey10Converter.cpp     | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/vrs/utils/converters/Raw10ToGrey10Converter.cpp b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
index b359c66..b7c8c34 100644
--- a/vrs/utils/converters/Raw10ToGrey10Converter.cpp
+++ b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
@@ -68,9 +68,9 @@ void convertVectorized(
   constexpr int kDstIncrement = 8;
 
   if (contiguous) {
-    const int numFullOperations = (heightInPixels * widthInPixels) / 8;
-    // The width must be a multiple of 4, so there is at most one leftover pixel group.
-    bool hasLeftover = (heightInPixels * widthInPixels) % 8;
+    const size_t pixelCount = heightInPixels * widthInPixels;
+    // Each operation reads 16 bytes but uses only 10: don't read past the end of the source.
+    const int numFullOperations = pixelCount * 10 / 8 >= 16 ? (pixelCount * 10 / 8 - 16) / 10 + 1 : 0;
     for (int op = 0; op < numFullOperations; ++op) {
       const uint8x16_t encoded = vld1q_u8(src);
       const uint8x16_t r = vqtbl1q_u8(encoded, rshuf);
@@ -82,14 +82,18 @@ void convertVectorized(
       src += kSrcIncrement;
       dst += kDstIncrement;
     }
-    if (hasLeftover) {
+    // The width must be a multiple of 4: convert the leftover pixel groups.
+    for (size_t pixel = numFullOperations * 8; pixel < pixelCount; pixel += 4, src += 5, dst += 4) {
       convertPixelGroup(src, dst);
     }
   } else {
     const int numOperationsPerRow = widthInPixels / 8;
+    // Each operation reads 16 bytes but uses only 10: don't read past the end of the last row.
+    const int lastRow = static_cast<int>(heightInPixels) - 1;
     for (int row = 0; row < heightInPixels; ++row) {
       const uint8_t* RESTRICT srcPtr = src;
-      for (int op = 0; op < numOperationsPerRow; ++op) {
+      const int vectorizedCount = row < lastRow ? numOperationsPerRow : numOperationsPerRow - 1;
+      for (int op = 0; op < vectorizedCount; ++op) {
         const uint8x16_t encoded = vld1q_u8(srcPtr);
         const uint8x16_t r = vqtbl1q_u8(encoded, rshuf);
         const uint8x16_t mIn = vqtbl1q_u8(encoded, pshuf);
@@ -100,6 +104,10 @@ void convertVectorized(
         srcPtr += kSrcIncrement;
         dst += kDstIncrement;
       } // col loop
+      if (vectorizedCount < numOperationsPerRow) {
+        convertPixelGroup(srcPtr, dst);
+        convertPixelGroup(srcPtr + 5, dst + 4);
+      }
       src += strideInBytes;
     } // row loop
   } // !contiguous
@@ -125,10 +133,9 @@ void convertVectorized(
   constexpr int kDstIncrement = 8;
 
   if (contiguous) {
-    const int numFullOperations = (heightInPixels * widthInPixels) / 8;
-    // The width must be a multiple of 4, so there is at most one leftover pixel group.
-    bool hasLeftover = (heightInPixels * widthInPixels) % 8 ? true : false;
-
+    const size_t pixelCount = heightInPixels * widthInPixels;
+    // Each operation reads 16 bytes but uses only 10: don't read past the end of the source.
+    const int numFullOperations = pixelCount * 10 / 8 >= 16 ? (pixelCount * 10 / 8 - 16) / 10 + 1 : 0;
     for (int op = 0; op < numFullOperations; ++op) {
       // load 8 pixels plus two fractional
       const __m128i encoded = _mm_lddqu_si128((__m128i*)(src));
@@ -144,15 +151,18 @@ void convertVectorized(
       src += kSrcIncrement;
       dst += kDstIncrement;
     }
-    if (hasLeftover) {
+    // The width must be a multiple of 4: convert the leftover pixel groups.
+    for (size_t pixel = numFullOperations * 8; pixel < pixelCount; pixel += 4, src += 5, dst += 4) {
       convertPixelGroup(src, dst);
     }
   } else {
     const int numOperationsPerRow = widthInPixels / 8;
+    // Each operation reads 16 bytes but uses only 10: don't read past the end of the last row.
+    const int lastRow = static_cast<int>(heightInPixels) - 1;
     for (int row = 0; row < heightInPixels; ++row) {
       const uint8_t* RESTRICT srcPtr = src;
-
-      for (int op = 0; op < numOperationsPerRow; ++op) {
+      const int vectorizedCount = row < lastRow ? numOperationsPerRow : numOperationsPerRow - 1;
+      for (int op = 0; op < vectorizedCount; ++op) {
         // load 8 pixels plus two fractional
         const __m128i encoded = _mm_lddqu_si128((__m128i*)(srcPtr));
         const __m128i r = _mm_shuffle_epi8(encoded, rshuf);
@@ -167,6 +177,10 @@ void convertVectorized(
         srcPtr += kSrcIncrement;
         dst += kDstIncrement;
       } // col loop
+      if (vectorizedCount < numOperationsPerRow) {
+        convertPixelGroup(srcPtr, dst);
+        convertPixelGroup(srcPtr + 5, dst + 4);
+      }
       src += strideInBytes;
     } // row loop
   } // !contiguous
-- 
2.43.0


From dce8a85303ef08b678bdd1d8a404bb1f620cb5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:30 +0000
Subject: [PATCH 66/95] fix: cancelling queued jobs cleaned up the wrong jobs

---
 vrs/helpers/JobQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..b56925e 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,8 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From 06c822f67e05a24a373aae9ca340148eeded98ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 67/95] fix: timed waits on semaphores returned at once

---
 vrs/os/Semaphore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/os/Semaphore.cpp b/vrs/os/Semaphore.cpp
index 2118c42..1f9e932 100644
--- a/vrs/os/Semaphore.cpp
+++ b/vrs/os/Semaphore.cpp
@@ -22,8 +22,8 @@ namespace vrs {
 namespace os {
 
 bool Semaphore::timedWait(double timeSec) {
-  auto timeout = std::chrono::steady_clock::now() +
-      std::chrono::duration_cast<std::chrono::steady_clock::duration>(
+  auto timeout = std::chrono::system_clock::now() +
+      std::chrono::duration_cast<std::chrono::system_clock::duration>(
                      std::chrono::duration<double>(timeSec));
   return interprocess_semaphore::timed_wait(timeout);
 }
-- 
2.43.0


From 9172be88897f10372c06ce0924429994176d5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 68/95] fix: event channels were destroyed before the threads
 waiting for them could leave

---
 vrs/os/Event.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..8161139 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -43,8 +43,8 @@ EventChannel::EventChannel(string name, NotificationMode notificationMode)
 EventChannel::~EventChannel() {
   unique_lock<mutex> lock(mutex_);
   inDestruction_ = true;
-  // NOTE: waiting 3 times should be long enough
-  int maxLoopCount = 3;
+  // NOTE: waiting a second should be long enough
+  int maxLoopCount = 1000;
   while ((numEntering_ + numListeners_ > 0) && XR_VERIFY(maxLoopCount-- > 0)) {
     // It's not safe to call waitForEvent on an EventChannel that can be concurrently
     // destroyed; we might be really unlucky and it doesn't enter waitForEvent
@@ -52,7 +52,10 @@ EventChannel::~EventChannel() {
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    // The threads waiting can't leave without the lock
+    lock.unlock();
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
@@ -83,7 +86,7 @@ EventChannel::waitForEvent(Event& event, double timeoutSec, double lookBackSec)
   // New listener should not enter critical section before all pre-existing listeners have waked up.
   if (pendingWakeupsCount_ > 0) {
     numEntering_++;
-    enterCondition_.wait(lock, [this] { return pendingWakeupsCount_ == 0; });
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
     numEntering_--;
     if (inDestruction_) {
       // This EventChannel is already being destructed, exit ASAP.
-- 
2.43.0


From 094fca2f2233b426dcfb16711a85ec4d0f3d81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 69/95] fix: a compressed frame could not be started after one
 which was not completed

---
 vrs/Compressor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/Compressor.cpp b/vrs/Compressor.cpp
index 4ac3882..4920bfa 100644
--- a/vrs/Compressor.cpp
+++ b/vrs/Compressor.cpp
@@ -206,6 +206,8 @@ class Compressor::CompressorImpl {
       zstdContext_ = ZSTD_createCCtx();
     }
     size_t zresult = 0;
+    // the previous frame might not have been completed
+    IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_reset(zstdContext_, ZSTD_reset_session_only));
     IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_setParameter(
         zstdContext_, ZSTD_c_compressionLevel, zstdPresetToCompressionLevel(zstdPreset)));
     IF_ZCOMP_ERROR_LOG_AND_RETURN(ZSTD_CCtx_setPledgedSrcSize(zstdContext_, dataSize));
-- 
2.43.0


From d93a3ba955a262e7ec8997a8e1c920c1e256e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 70/95] fix: file names with non-ASCII characters could each be
 sorted before the other

---
 vrs/helpers/Strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/helpers/Strings.cpp b/vrs/helpers/Strings.cpp
index 19b5dd4..18179f3 100644
--- a/vrs/helpers/Strings.cpp
+++ b/vrs/helpers/Strings.cpp
@@ -120,7 +120,7 @@ bool beforeFileName(const char* left, const char* right) {
   if (left[leftPos] == 0) {
     return right[rightPos] != 0;
   }
-  return left[leftPos] < right[rightPos];
+  return static_cast<uint8_t>(left[leftPos]) < static_cast<uint8_t>(right[rightPos]);
 }
 
 string humanReadableFileSize(int64_t bytes) {
-- 
2.43.0


From 1f40b8938f4b826c98362d9e36b121ed51f2a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 71/95] fix: a MemBuffer adopted the previous content of the
 vector receiving its data

---
 vrs/helpers/MemBuffer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/helpers/MemBuffer.cpp b/vrs/helpers/MemBuffer.cpp
index 5faa4f7..33d996b 100644
--- a/vrs/helpers/MemBuffer.cpp
+++ b/vrs/helpers/MemBuffer.cpp
@@ -59,6 +59,7 @@ size_t MemBuffer::getSize() const {
 void MemBuffer::getData(vector<uint8_t>& outData) {
   if (buffers_.size() == 1) {
     outData.swap(reinterpret_cast<vector<uint8_t>&>(buffers_.front()));
+    buffers_.clear(); // the content of outData on entry isn't ours to keep
   } else {
     size_t totalSize = getSize();
     outData.resize(totalSize);
-- 
2.43.0


From e58084baa8c3a61946dd51c40efd5873e9926209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 72/95] fix: byte sizes too large for 64 bits were silently
 wrapped, or left set on failure

---
 vrs/helpers/Strings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/Strings.cpp b/vrs/helpers/Strings.cpp
index 18179f3..b6ce728 100644
--- a/vrs/helpers/Strings.cpp
+++ b/vrs/helpers/Strings.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <sstream>
 
 #include <fmt/format.h>
@@ -438,7 +439,9 @@ bool readByteSize(string_view strSize, uint64_t& outByteSize) {
     default:
       break;
   }
-  if (factor == 1 || next + 2 != end || safetolower(next[1]) != 'b') {
+  if (factor == 1 || next + 2 != end || safetolower(next[1]) != 'b' ||
+      outByteSize > numeric_limits<uint64_t>::max() / factor) {
+    outByteSize = 0;
     return false;
   }
   outByteSize *= factor;
-- 
2.43.0


From fdd56a375fd7cce53cc727e25b330118da75c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 73/95] fix: printing a file's overview crashed when its
 capture time tag wasn't a valid time

---
 vrs/utils/RecordFileInfo.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index bd49570..9d3bcb4 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -16,6 +16,9 @@
 
 #include <vrs/utils/RecordFileInfo.h>
 
+#include <cstdlib>
+#include <ctime>
+
 #include <iomanip>
 #include <sstream>
 
@@ -102,11 +105,15 @@ void printTags(ostream& out, string_view prefix, const map<string, string>& tags
     line.append(prefix).append(iter.first).append(" = ");
     appendTruncated(line, iter.second, details, width);
     if (iter.first == tag_conventions::kCaptureTimeEpoch) {
-      time_t creationTimeSec = static_cast<time_t>(stoul(iter.second));
+      // the tag's value might not be a number, or not be a plausible time
+      time_t creationTimeSec = static_cast<time_t>(strtoull(iter.second.c_str(), nullptr, 10));
       if (creationTimeSec > 1000000) {
-        stringstream ss;
-        ss << put_time(localtime(&creationTimeSec), " -- %c %Z");
-        appendTruncated(line, ss.str(), details, width);
+        const tm* creationTime = localtime(&creationTimeSec);
+        if (creationTime != nullptr) {
+          stringstream ss;
+          ss << put_time(creationTime, " -- %c %Z");
+          appendTruncated(line, ss.str(), details, width);
+        }
       }
     }
     string printable = make_printable(line);
-- 
2.43.0


From 0cf06b09610d75be82ddc58c92bce9e4629d2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:48 +0000
Subject: [PATCH 74/95] fix: the overview of some streams of a file counted the
 data records of all its streams

---
 vrs/utils/RecordFileInfo.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index 9d3bcb4..b7c3a51 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -275,25 +275,21 @@ void printOverview(
     printCountedName(out, recordCounter.recordCount, "record");
 
     // considering only data records, calculate a data record range and data record per second
-    uint32_t first = 0; // count of non-data records before the first data record
-    while (first < index.size() && index[first].recordType != Record::Type::DATA) {
-      ++first;
-    }
-    if (first < index.size()) {
-      uint32_t last = 0;
-      uint32_t recordCount = 0;
-      for (uint32_t k = first; k < index.size(); ++k) {
-        if (index[k].recordType == Record::Type::DATA) {
-          last = k;
-          ++recordCount;
-        }
+    RecordCounter dataCounter;
+    for (const auto& record : index) {
+      if (record.recordType == Record::Type::DATA &&
+          streamIds.find(record.streamId) != streamIds.end()) {
+        dataCounter.count(&record);
       }
-      if (recordCount == 1) {
+    }
+    if (dataCounter.recordCount > 0) {
+      if (dataCounter.recordCount == 1) {
         out << ", 1 data record ";
       } else {
-        out << ", " << recordCount << " data records ";
+        out << ", " << dataCounter.recordCount << " data records ";
       }
-      printTime(out, &index[first], &index[last], recordCount, true);
+      printTime(
+          out, dataCounter.firstRecord, dataCounter.lastRecord, dataCounter.recordCount, true);
     } else {
       out << ", no data records";
     }
-- 
2.43.0


From bf027013cd0ca0f769d974b19d3f2ce8c6c49c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 75/95] fix: errors completing a png file were not reported

---
 vrs/utils/PixelFramePng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 24352e7..abdeb99 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -500,8 +500,9 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_destroy_write_struct(&pngStruct, &pngInfo);
 
   if (outBuffer == nullptr) {
-    if (file != nullptr) {
-      os::fileClose(file);
+    if (file != nullptr && os::fileClose(file) != 0) {
+      XR_LOGE("Can't finish writing file '{}'", filename);
+      return errno != 0 ? errno : FAILURE;
     }
   } else {
     memBuffer.getData(*outBuffer);
-- 
2.43.0


From a033e6b38f90b73951c5b4cb7c7e853b8ad8d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 76/95] fix: png images with 16 bit colors overflowed the
 frame, palette images were not converted

---
 vrs/utils/PixelFramePng.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index abdeb99..1ae84ab 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -364,6 +364,14 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
       // And the bitdepth info
       bitdepth = 8;
     }
+    if (colorType == PNG_COLOR_TYPE_PALETTE) {
+      // Get 3 bytes per pixel, even if the palette's colors have transparency
+      png_set_palette_to_rgb(pngPtr);
+      png_set_strip_alpha(pngPtr);
+    } else if (bitdepth == 16 && colorType != PNG_COLOR_TYPE_GRAY) {
+      // RGB8 and RGBA8 frames have 8 bits per channel
+      png_set_strip_16(pngPtr);
+    }
 
     // Update the information structs with the transformations we requested:
     png_read_update_info(pngPtr, infoPtr);
-- 
2.43.0


From 487dad8f719daac5ff8f141119d9fd4f8409a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:29 +0000
Subject: [PATCH 77/95] fix: reading a png image in a buffer smaller than a
 signature read past the buffer

---
 vrs/utils/PixelFramePng.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 1ae84ab..d4a2e6c 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -284,7 +284,8 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
 #endif
   // Let LibPNG check the sig.
   SourceBuffer src(pngBuffer);
-  if (png_sig_cmp(src.buffer.data(), 0, kPngSigBytes) != 0) {
+  if (src.buffer.size() < kPngSigBytes ||
+      png_sig_cmp(src.buffer.data(), 0, kPngSigBytes) != 0) {
     XR_LOGE("Payload isn't PNG data");
     return false;
   }
-- 
2.43.0


From a7d0a12622fa3d1ebe8d711e3ceceb53357cc33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 78/95] fix: png images with damaged dimensions caused absurd
 allocations

---
 vrs/utils/PixelFramePng.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index d4a2e6c..ba7e435 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -45,6 +45,8 @@
 
 namespace {
 constexpr size_t kPngSigBytes = 8;
+// Deflate can't do better
+constexpr uint64_t kMaxCompressionRatio = 1032;
 }
 
 namespace vrs::utils {
@@ -330,6 +332,15 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
   // Color type. (GRAY, RGB, RGBA, Luminance, luminance alpha... palette... etc)
   png_uint_32 colorType = png_get_color_type(pngPtr, infoPtr);
 
+  // Don't try to allocate a frame for pixels that can't possibly be there
+  if (decodePixels &&
+      imgHeight * static_cast<uint64_t>(png_get_rowbytes(pngPtr, infoPtr)) / kMaxCompressionRatio >
+          pngBuffer.size()) {
+    png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
+    XR_LOGE("PNG data too small for a {}x{} image.", imgWidth, imgHeight);
+    return false;
+  }
+
   if (colorType == PNG_COLOR_TYPE_GRAY) {
     if (channels != 1) {
       XR_LOGE("Multi-channel grey images make no sense...");
-- 
2.43.0


From 84310ce6cec768a8144e44a4770ebab17d1fcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 79/95] fix: decoding a jpeg image from an empty buffer threw
 an exception

---
 vrs/utils/PixelFrameJpeg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 3a03ec7..8ddd21b 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -86,6 +86,9 @@ static void error_exit(j_common_ptr cinfo) {
 }
 
 bool PixelFrame::readJpegFrame(const vector<uint8_t>& jpegBuf, bool decodePixels) {
+  if (jpegBuf.empty()) {
+    return false; // empty image
+  }
   // setup libjpeg
   struct jpeg_decompress_struct cinfo{};
   struct jpeg_error_mgr jerr{};
-- 
2.43.0


From 333453b2cfd9121e26c2f7247c96569587eae24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 80/95] fix: images after well compressed data could not be
 loaded from their reference

---
 vrs/utils/ImageLoader.cpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/vrs/utils/ImageLoader.cpp b/vrs/utils/ImageLoader.cpp
index f2b084f..77da616 100644
--- a/vrs/utils/ImageLoader.cpp
+++ b/vrs/utils/ImageLoader.cpp
@@ -14,6 +14,9 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+#include <limits>
+
 #define DEFAULT_LOG_CHANNEL "ImageLoader"
 #include <logging/Log.h>
 
@@ -57,14 +60,15 @@ bool loadImage(
     return false;
   }
 
-  if (imageRef.compressionType != CompressionType::None) {
-    if (imageRef.compressedOffset >= imageRef.dataSize) {
-      XR_LOGE(
-          "Invalid compressed offset: {} (data size: {})",
-          imageRef.compressedOffset,
-          imageRef.dataSize);
-      return false;
-    }
+  // compressedOffset & compressedLength are in uncompressed bytes: don't compare them with dataSize
+  if (imageRef.compressionType != CompressionType::None &&
+      imageRef.compressedLength >
+          numeric_limits<uint32_t>::max() - imageRef.compressedOffset) {
+    XR_LOGE(
+        "Invalid compressed offset & length: {} + {}",
+        imageRef.compressedOffset,
+        imageRef.compressedLength);
+    return false;
   }
 
   file.setPos(imageRef.dataOffset);
@@ -83,14 +87,14 @@ bool loadImage(
       reader = compressedRecordReader.init(
           file, imageRef.dataSize, imageRef.compressedOffset + imageRef.compressedLength);
       compressedRecordReader.initCompressionType(imageRef.compressionType);
-      if (imageRef.compressedOffset > 0) {
-        uint32_t readSize = imageRef.compressedOffset;
-        vector<uint8_t> compressedBuffer(readSize);
-        DataReference dataReference(compressedBuffer);
-        if (compressedRecordReader.read(dataReference, readSize) != 0) {
+      vector<uint8_t> skipBuffer(min<uint32_t>(imageRef.compressedOffset, 256 * 1024));
+      for (uint32_t skipLeft = imageRef.compressedOffset; skipLeft > 0;) {
+        uint32_t readSize = min<uint32_t>(skipLeft, skipBuffer.size());
+        if (reader->read(skipBuffer.data(), readSize) != 0) {
           XR_LOGE("Failed to read compressed offset data");
           return false;
         }
+        skipLeft -= readSize;
       }
     } break;
     default:
-- 
2.43.0


From 407f539c107560fe34d2347bbd70d86b7f3a1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:59 +0000
Subject: [PATCH 81/95] fix: images after an image which can't be read were not
 indexed at their location

---
 vrs/utils/ImageIndexer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vrs/utils/ImageIndexer.cpp b/vrs/utils/ImageIndexer.cpp
index 045923e..01cb51a 100644
--- a/vrs/utils/ImageIndexer.cpp
+++ b/vrs/utils/ImageIndexer.cpp
@@ -71,8 +71,19 @@ class ImageOffsetWriter : public utils::VideoRecordFormatStreamPlayer {
             cb.getBlockSize());
         counter_++, compressed_++;
       }
+      const uint32_t unreadBytes = r.reader->getUnreadBytes();
       utils::PixelFrame frame;
       XR_VERIFY(readFrame(frame, r, cb));
+      // When reading fails, the image might not be consumed: skip it to find the images after it
+      const size_t bytesRead = unreadBytes - r.reader->getUnreadBytes();
+      if (bytesRead < cb.getBlockSize()) {
+        const size_t skipBytes = cb.getBlockSize() - bytesRead;
+        if (skipBytes > r.reader->getUnreadBytes()) {
+          return false;
+        }
+        vector<uint8_t> skippedData(skipBytes);
+        return r.reader->read(skippedData) == 0;
+      }
     }
     return true;
   }
-- 
2.43.0


From fa120ccc5c346cfe5622d120a3cf5ec625cc9389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 82/95] fix: image and audio blocks larger than their record
 caused absurd allocations

---
 vrs/utils/AudioBlock.cpp     | 3 +++
 vrs/utils/PixelFrame.cpp     | 9 +++++++++
 vrs/utils/PixelFrameJpeg.cpp | 4 ++--
 vrs/utils/PixelFrameJxl.cpp  | 4 ++--
 vrs/utils/PixelFramePng.cpp  | 4 ++--
 5 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/vrs/utils/AudioBlock.cpp b/vrs/utils/AudioBlock.cpp
index 6f2ac35..98f35c2 100644
--- a/vrs/utils/AudioBlock.cpp
+++ b/vrs/utils/AudioBlock.cpp
@@ -86,6 +86,9 @@ bool AudioBlock::readBlock(RecordReader* reader, const ContentBlock& cb) {
   }
   const auto& spec = cb.audio();
   size_t blockSize = cb.getBlockSize();
+  if (!THROTTLED_VERIFY(reader->getRef(), blockSize <= reader->getUnreadBytes())) {
+    return false;
+  }
   audioSpec_ = spec;
   audioBytes_.resize(blockSize);
   return THROTTLED_VERIFY(reader->getRef(), reader->read(audioBytes_.data(), blockSize) == 0);
diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index ee80a1c..6bd43f0 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -183,6 +183,15 @@ bool PixelFrame::readDiskImageData(RecordReader* reader, const ContentBlock& cb)
   if (spec.getImageFormat() == ImageFormat::RAW) {
     return readRawFrame(reader, spec);
   }
+  if (blockSize > reader->getUnreadBytes()) {
+    THROTTLED_LOGE(
+        reader->getRef(),
+        "Image {} needs {} bytes, only {} available. Recording bug?",
+        spec.asString(),
+        blockSize,
+        reader->getUnreadBytes());
+    return false;
+  }
   imageSpec_ = spec;
   frameBytes_.resize(blockSize);
   return VERIFY_SUCCESS(reader->read(frameBytes_.data(), blockSize));
diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 8ddd21b..71ec3e3 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -37,8 +37,8 @@ namespace vrs::utils {
 using namespace std;
 
 bool PixelFrame::readJpegFrame(RecordReader* reader, uint32_t sizeBytes) {
-  if (sizeBytes == 0) {
-    return false; // empty image
+  if (sizeBytes == 0 || sizeBytes > reader->getUnreadBytes()) {
+    return false; // empty image, or missing data
   }
   // read JPEG data
   vector<uint8_t> jpegBuf;
diff --git a/vrs/utils/PixelFrameJxl.cpp b/vrs/utils/PixelFrameJxl.cpp
index f73e4dd..0fd18ce 100644
--- a/vrs/utils/PixelFrameJxl.cpp
+++ b/vrs/utils/PixelFrameJxl.cpp
@@ -94,8 +94,8 @@ inline float percent_to_butteraugli_distance(float quality) {
 namespace vrs::utils {
 
 bool PixelFrame::readJxlFrame(RecordReader* reader, uint32_t sizeBytes) {
-  if (sizeBytes == 0) {
-    return false; // empty image
+  if (sizeBytes == 0 || sizeBytes > reader->getUnreadBytes()) {
+    return false; // empty image, or missing data
   }
   // read JPEG-XL data
   vector<uint8_t> jxlBuf;
diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index ba7e435..5dfedcf 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -257,8 +257,8 @@ struct SourceBuffer {
 } // namespace
 
 bool PixelFrame::readPngFrame(RecordReader* reader, uint32_t sizeBytes) {
-  if (sizeBytes < kPngSigBytes) {
-    return false; // empty image
+  if (sizeBytes < kPngSigBytes || sizeBytes > reader->getUnreadBytes()) {
+    return false; // empty image, or missing data
   }
   // read PNG data
   vector<uint8_t> buffer(sizeBytes);
-- 
2.43.0


From 81650c800fd92b880f7f797d1fd36af6186dd0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 83/95] fix: opus audio was decoded using a decoder for other
 stereo pairs

---
 vrs/utils/AudioBlockOpus.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index 07ab991..88626ba 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -50,7 +50,9 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
       !supportedSampleRate(getSampleRate())) {
     return false;
   }
-  if (handler.decoder != nullptr && !handler.decoderSpec.isCompatibleWith(audioSpec_)) {
+  if (handler.decoder != nullptr &&
+      (!handler.decoderSpec.isCompatibleWith(audioSpec_) ||
+       handler.decoderSpec.getStereoPairCount() != audioSpec_.getStereoPairCount())) {
     opus_multistream_decoder_destroy(handler.decoder);
     handler.decoder = nullptr;
   }
-- 
2.43.0


From efcc60e972150a9f0291886dd913024774458fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:30 +0000
Subject: [PATCH 84/95] fix: decoding opus audio overflowed the samples' buffer
 with 128 channels or more

---
 vrs/utils/AudioBlockOpus.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/AudioBlockOpus.cpp b/vrs/utils/AudioBlockOpus.cpp
index 88626ba..438ecc1 100644
--- a/vrs/utils/AudioBlockOpus.cpp
+++ b/vrs/utils/AudioBlockOpus.cpp
@@ -100,8 +100,9 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
 
   uint32_t sampleCount = getSampleCount();
   // if we don't know the sample count, use the maximum possible according to the Opus spec: 120 ms
-  if (sampleCount == 0) {
-    sampleCount = getSampleRate() * 120 / 1000;
+  const uint32_t maxSampleCount = getSampleRate() * 120 / 1000;
+  if (sampleCount == 0 || sampleCount > maxSampleCount) {
+    sampleCount = maxSampleCount;
   }
 
   outAudioBlock.init(
@@ -111,6 +112,12 @@ bool AudioBlock::opusDecompress(AudioDecompressionHandler& handler, AudioBlock&
       0,
       getSampleRate(),
       sampleCount);
+  // the size of sample frames is limited
+  if (outAudioBlock.size() < sampleCount * getChannelCount() * sizeof(opus_int16)) {
+    XR_LOGW("Can't decode Opus data with {} channels", getChannelCount());
+    outAudioBlock.setSampleCount(0);
+    return false;
+  }
   opus_int32 result = opus_multistream_decode(
       handler.decoder,
       data<unsigned char>(),
-- 
2.43.0


From e230ce3824b4235c1aab7101a2abd9bc2e0d7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 85/95] fix: the vrs tool's --first-records option was ignored
 for files other than the first

---
 tools/vrs/VrsCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 55bd86a..43af6ae 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -393,6 +393,7 @@ bool VrsCommand::openOtherVrsFile(
       return false;
     }
     otherReader.filter.copyTimeConstraints(filteredReader.filter);
+    otherReader.firstRecordsOnly = filteredReader.firstRecordsOnly;
     applyFilters(otherReader);
     if (details != Details::None) {
       RecordFileInfo::printOverview(cout, otherReader.reader, otherReader.filter.streams, details);
-- 
2.43.0


From 979c94f24a7c3578012c45d729810808c732708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 86/95] fix: the vrs tool's help command printed nothing

---
 tools/vrs/VrsCommand.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 43af6ae..768675a 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -289,6 +289,7 @@ VrsCommand::VrsCommand() {
 bool VrsCommand::parseCommand(const string& appName, const char* cmdName) {
   cmd = CommandConverter::toEnum(cmdName);
   if (cmd != Command::None) {
+    showHelp = (cmd == Command::Help);
     return XR_VERIFY(getCommandSpec(cmd).cmd == cmd);
   }
   if (processUnrecognizedArgument(appName, cmdName)) {
-- 
2.43.0


From b2190db5fe27e4ee4eae1178b37fd063b9070eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 87/95] fix: copying or merging recordings onto one of them
 destroyed it

---
 tools/vrs/VrsCommand.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 768675a..7dd444b 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -19,6 +19,7 @@
 #include <cstdlib>
 #include <cstring>
 
+#include <filesystem>
 #include <iostream>
 #include <string>
 
@@ -132,6 +133,18 @@ const CommandSpec& getCommandSpec(Command cmd) {
   return sCommandSpecs[static_cast<size_t>(cmd)];
 }
 
+/// Tell if a path is that of one of the files being read, which must not be overwritten.
+bool isSourceFile(const string& path, const FilteredFileReader& source) {
+  for (const auto& chunk : source.reader.getFileChunks()) {
+    error_code error;
+    if (filesystem::equivalent(path, chunk.first, error)) {
+      cerr << "Error: '" << path << "' is a source file, it can't be overwritten.\n";
+      return true;
+    }
+  }
+  return false;
+}
+
 } // namespace
 
 #define CMD(H, C) H ":\n  " << appName << " " C "\n"
@@ -557,6 +570,9 @@ int VrsCommand::doCopyMerge() {
         stderr, "Error: Need a local path to do {} operation.\n", CommandConverter::toString(cmd));
     return EXIT_FAILURE;
   }
+  if (isSourceFile(targetPath, filteredReader)) {
+    return EXIT_FAILURE;
+  }
   double timeBefore = os::getTimestampSec();
   string commandName = otherFilteredReaders.empty() ? "Copy" : "Merge";
   if (otherFilteredReaders.empty()) {
@@ -566,6 +582,11 @@ int VrsCommand::doCopyMerge() {
     if (!openOtherVrsFiles(kCopyOpsDetails)) {
       return EXIT_FAILURE;
     }
+    for (const FilteredFileReader& otherReader : otherFilteredReaders) {
+      if (isSourceFile(targetPath, otherReader)) {
+        return EXIT_FAILURE;
+      }
+    }
     statusCode = filterMerge(filteredReader, otherFilteredReaders, targetPath, copyOptions);
   }
   if (statusCode != 0) {
-- 
2.43.0


From 6c16972391859d307b7f23d070cfc73671ee97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 88/95] fix: the vrs tool succeeded when it couldn't open a
 file to compare, or extract audio or all

---
 tools/vrs/VrsCommand.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 7dd444b..f1849e4 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -487,6 +487,8 @@ int VrsCommand::runCommands() {
         if (openOtherVrsFile(otherFile, cmdSpec.fileDetails)) {
           bool areSame = compareVRSfiles(filteredReader, otherFile, copyOptions);
           cout << (areSame ? "Files are equivalent." : "Files differ.") << "\n";
+        } else {
+          statusCode = EXIT_FAILURE;
         }
       }
       break;
@@ -533,10 +535,10 @@ int VrsCommand::runCommands() {
       extractImages(targetPath.empty() ? "." : targetPath, filteredReader, extractImagesRaw);
       break;
     case Command::ExtractAudio:
-      extractAudio(targetPath.empty() ? "." : targetPath, filteredReader);
+      statusCode = extractAudio(targetPath.empty() ? "." : targetPath, filteredReader);
       break;
     case Command::ExtractAll:
-      extractAll(targetPath.empty() ? "." : targetPath, filteredReader);
+      statusCode = extractAll(targetPath.empty() ? "." : targetPath, filteredReader);
       break;
     case Command::JsonDescription:
       cout << RecordFileInfo::jsonOverview(
-- 
2.43.0


From b929feff777a5c1564475104905e7114f18d09fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 89/95] fix: images extracted after a first extraction were
 lost, or the extraction hung

---
 vrs/utils/ImageExtractor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index bdc2477..8cead05 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -142,6 +142,9 @@ class ImageProcessor {
 
   void startThreadPool() {
     unique_lock<mutex> locker(mutex_);
+    if (threadPool_.empty()) {
+      imageQueue_.reset(); // it was ended, if threads were used before
+    }
     while (threadPool_.size() < thread::hardware_concurrency()) {
       threadPool_.emplace_back(&ImageProcessor::saveImagesThreadActivity, this);
     }
-- 
2.43.0


From c50492787d075b404da1677d5f29a3fab3c411df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 90/95] fix: images and audio following blocks of other types
 in a record were not extracted

---
 vrs/utils/AudioExtractor.cpp | 4 ++--
 vrs/utils/ImageExtractor.cpp | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 89fe980..15bfd75 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -240,7 +240,7 @@ bool AudioExtractor::onAudioRead(const CurrentRecord& record, size_t, const Cont
 
 bool AudioExtractor::onUnsupportedBlock(
     const CurrentRecord& record,
-    size_t,
+    size_t idx,
     const ContentBlock& cb) {
   // the audio was not decoded ... not sure why?
   if (cb.getContentType() == ContentType::AUDIO) {
@@ -250,7 +250,7 @@ bool AudioExtractor::onUnsupportedBlock(
         record.streamId.getName(),
         cb.asString());
   }
-  return false;
+  return RecordFormatStreamPlayer::onUnsupportedBlock(record, idx, cb); // skip it, if possible
 }
 
 } // namespace vrs::utils
diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index 8cead05..885fc91 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -260,14 +260,17 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
   return false;
 }
 
-bool ImageExtractor::onUnsupportedBlock(const CurrentRecord& rec, size_t, const ContentBlock& cb) {
+bool ImageExtractor::onUnsupportedBlock(
+    const CurrentRecord& rec,
+    size_t idx,
+    const ContentBlock& cb) {
   // the image was not decoded, probably because the image spec are incomplete
   if (cb.getContentType() == ContentType::IMAGE) {
     imageCounter_++;
     THROTTLED_LOGW(
         rec.fileReader, "Image skipped for {}, content: {}", rec.streamId.getName(), cb.asString());
   }
-  return false;
+  return VideoRecordFormatStreamPlayer::onUnsupportedBlock(rec, idx, cb); // skip it, if possible
 }
 
 } // namespace vrs::utils
-- 
2.43.0


From 08f27d76fe724e903f51571e909ab0507a32db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:48 +0000
Subject: [PATCH 91/95] fix: data extracted after an unsupported block was read
 from the block's data

---
 vrs/utils/DataExtractor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index b93005c..d658a0a 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -192,7 +192,7 @@ bool DataExtractor::DataExtractorStreamPlayer::onCustomBlockRead(
 
 bool DataExtractor::DataExtractorStreamPlayer::onUnsupportedBlock(
     const CurrentRecord& record,
-    size_t,
+    size_t blockIndex,
     const ContentBlock& contentBlock) {
   THROTTLED_LOGW(
       record.fileReader,
@@ -208,7 +208,8 @@ bool DataExtractor::DataExtractorStreamPlayer::onUnsupportedBlock(
   JsonWrapper json{doc};
   json.addMember("unsupported_block", contentBlock.asString());
   blocks_.emplace_back(jDocumentToJsonString(doc));
-  return true;
+  // skip the block to read what follows it, if possible
+  return VideoRecordFormatStreamPlayer::onUnsupportedBlock(record, blockIndex, contentBlock);
 }
 
 int DataExtractor::DataExtractorStreamPlayer::recordReadComplete(
-- 
2.43.0


From 5859b35a95310024cb10147eceb293a5d9f59ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 92/95] fix: no image was extracted to its stream's folder when
 the first one couldn't be decoded

---
 vrs/utils/DataExtractor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index d658a0a..f703837 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -89,7 +89,7 @@ bool DataExtractor::DataExtractorStreamPlayer::writeImage(
       break;
   }
 
-  if (imageCounter_ <= 1) {
+  if (!os::pathExists(outputFolder_)) {
     os::makeDirectories(outputFolder_);
   }
   string filename = fmt::format(
@@ -241,7 +241,7 @@ int DataExtractor::DataExtractorStreamPlayer::recordReadComplete(
 }
 
 void DataExtractor::DataExtractorStreamPlayer::writePngImage(const CurrentRecord& record) {
-  if (imageCounter_ <= 1) {
+  if (!os::pathExists(outputFolder_)) {
     os::makeDirectories(outputFolder_);
   }
   string filename = fmt::format(
-- 
2.43.0


From d16ba03291136a22f696c889a3def0e0f3f47538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:48 +0000
Subject: [PATCH 93/95] fix: writing part of a split index was attempted again
 with every record after it failed

---
 vrs/IndexRecord.cpp | 15 ++++++++++-----
 vrs/IndexRecord.h   |  2 ++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 1d31bd9..e85bc3b 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1146,11 +1146,13 @@ int Writer::createSplitIndexRecord(uint32_t& outLastRecordSize) {
 }
 
 int Writer::addRecord(double timestamp, uint32_t size, StreamId id, Record::Type recordType) {
-  writtenRecords_.emplace_back(timestamp, size, id, recordType);
-  if (splitHeadFile_ && writtenRecords_.size() >= kMaxBatchSize) {
-    return appendToSplitIndexRecord();
+  if (appendStatus_ == 0) {
+    writtenRecords_.emplace_back(timestamp, size, id, recordType);
+    if (splitHeadFile_ && writtenRecords_.size() >= kMaxBatchSize) {
+      appendStatus_ = appendToSplitIndexRecord();
+    }
   }
-  return 0;
+  return appendStatus_;
 }
 
 int Writer::appendToSplitIndexRecord() {
@@ -1177,7 +1179,10 @@ int Writer::appendToSplitIndexRecord() {
 int Writer::completeSplitIndexRecord() {
   DiskFile& file = *splitHeadFile_;
   int64_t offset = file.getPos();
-  int error = writtenRecords_.empty() ? 0 : appendToSplitIndexRecord();
+  int error = appendStatus_;
+  if (error == 0 && !writtenRecords_.empty()) {
+    error = appendToSplitIndexRecord();
+  }
   if (error != 0) {
     XR_LOGW("Failed to write index details, error #{}, {}", error, errorCodeToMessage(error));
     if (offset > 0) {
diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index 8bb6409..909632a 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -148,6 +148,7 @@ class VRS_API Writer {
     writtenRecords_.clear();
     writtenBytesCount_ = 0;
     writtenIndexCount_ = 0;
+    appendStatus_ = 0;
     splitHeadFile_.reset();
   }
 
@@ -198,6 +199,7 @@ class VRS_API Writer {
   deque<IndexRecord::DiskRecordInfo> writtenRecords_;
   size_t writtenBytesCount_{}; // how many bytes have been written in a partial index
   size_t writtenIndexCount_{}; // how many index entries have been written in the partial index
+  int appendStatus_{}; // error writing the partial index, which can't be completed after that
 };
 
 /// \brief Helper class to read VRS index records.
-- 
2.43.0


From a1bf17f1c05f29f14484053dc2a1c5f7993504fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:08 +0000
Subject: [PATCH 94/95] fix: damaged files made tools allocate memory for
 absurd content blocks

---
 vrs/utils/AudioTrackExtractor.cpp          | 7 +++++--
 vrs/utils/DataExtractor.cpp                | 8 ++++----
 vrs/utils/FilterCopyHelpers.cpp            | 3 ++-
 vrs/utils/ImageExtractor.cpp               | 7 +++++--
 vrs/utils/PixelFrame.h                     | 6 +++---
 vrs/utils/Validation.cpp                   | 3 +++
 vrs/utils/VideoFrameHandler.cpp            | 3 +++
 vrs/utils/cli/PrintRecordFormatRecords.cpp | 7 +++++--
 8 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 65b475d..81fd4b4 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -123,8 +123,11 @@ bool AudioTrackExtractor::onAudioRead(
   lastRecordSampleCount_ = static_cast<int32_t>(audioBlockSpec.getSampleCount());
   audioSampleCount_ += audioBlock.audio().getSampleCount();
 
-  audio_.resize(audioBlock.getBlockSize());
-  int status = record.reader->read(audio_);
+  int status = NOT_ENOUGH_DATA;
+  if (audioBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
+    audio_.resize(audioBlock.getBlockSize());
+    status = record.reader->read(audio_);
+  }
   if (status != 0) {
     return stop(
         fmt::format(
diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index f703837..b2cb099 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -135,14 +135,14 @@ bool DataExtractor::DataExtractorStreamPlayer::onImageRead(
 
   if (format == vrs::ImageFormat::RAW || format == vrs::ImageFormat::VIDEO) {
     if (!inputFrame_) {
-      inputFrame_ = make_shared<PixelFrame>(imageBlock.image());
+      inputFrame_ = make_shared<PixelFrame>();
     }
     if (readFrame(*inputFrame_, record, imageBlock)) {
       PixelFrame::normalizeFrame(inputFrame_, processedFrame_, true);
       writePngImage(record);
       return true;
     }
-  } else {
+  } else if (imageBlock.getBlockSize() <= record.reader->getUnreadBytes()) {
     vector<uint8_t> imageData;
     imageData.resize(imageBlock.getBlockSize());
     if (VERIFY_SUCCESS(record.reader->read(imageData.data(), imageBlock.getBlockSize())) &&
@@ -174,8 +174,8 @@ bool DataExtractor::DataExtractorStreamPlayer::onCustomBlockRead(
     size_t /*blockIndex*/,
     const ContentBlock& contentBlock) {
   size_t size = contentBlock.getBlockSize();
-  vector<uint8_t> data(size);
-  if (size > 0 && size != ContentBlock::kSizeUnknown) {
+  if (size > 0 && size <= record.reader->getUnreadBytes()) {
+    vector<uint8_t> data(size);
     VERIFY_SUCCESS(record.reader->read(data));
   }
   using namespace vrs_rapidjson;
diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index f47d694..4c7e792 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -295,7 +295,8 @@ bool RecordFilterCopier::onUnsupportedBlock(
     blockSize = record.reader->getUnreadBytes();
     readNext = false;
   }
-  unique_ptr<ContentChunk> bufferSourceChunk = make_unique<ContentChunk>(blockSize);
+  unique_ptr<ContentChunk> bufferSourceChunk =
+      make_unique<ContentChunk>(min<size_t>(blockSize, record.reader->getUnreadBytes()));
   int status = record.reader->read(bufferSourceChunk->getBuffer());
   if (status != 0) {
     THROTTLED_LOGW(
diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index 885fc91..dfcf805 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -238,8 +238,11 @@ bool ImageExtractor::onImageRead(const CurrentRecord& record, size_t, const Cont
     }
   } else {
     vector<uint8_t> imageData;
-    imageData.resize(ib.getBlockSize());
-    int readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    int readStatus = NOT_ENOUGH_DATA;
+    if (ib.getBlockSize() <= record.reader->getUnreadBytes()) {
+      imageData.resize(ib.getBlockSize());
+      readStatus = record.reader->read(imageData.data(), ib.getBlockSize());
+    }
     if (readStatus != 0) {
       THROTTLED_LOGW(
           record.fileReader,
diff --git a/vrs/utils/PixelFrame.h b/vrs/utils/PixelFrame.h
index 2f9c635..8c1bf85 100644
--- a/vrs/utils/PixelFrame.h
+++ b/vrs/utils/PixelFrame.h
@@ -151,7 +151,7 @@ class PixelFrame {
   /// @return True if the frame type is supported & the frame was read.
   template <class T>
   static inline bool readFrame(T& framePtr, RecordReader* reader, const ContentBlock& cb) {
-    return init(framePtr, cb.image()).readFrame(reader, cb);
+    return make(framePtr).readFrame(reader, cb);
   }
   bool readFrame(RecordReader* reader, const ContentBlock& cb);
 
@@ -159,7 +159,7 @@ class PixelFrame {
   /// The resulting PixelFrame will have an unmodified ImageFormat (raw, jpg, png, jxl, video).
   template <class T>
   static inline bool readDiskImageData(T& framePtr, RecordReader* reader, const ContentBlock& cb) {
-    return init(framePtr, cb.image()).readDiskImageData(reader, cb);
+    return make(framePtr).readDiskImageData(reader, cb);
   }
   bool readDiskImageData(RecordReader* reader, const ContentBlock& cb);
 
@@ -173,7 +173,7 @@ class PixelFrame {
   template <class T>
   static inline bool
   readRawFrame(T& framePtr, RecordReader* reader, const ImageContentBlockSpec& inputImageSpec) {
-    return init(framePtr, inputImageSpec).readRawFrame(reader, inputImageSpec);
+    return make(framePtr).readRawFrame(reader, inputImageSpec);
   }
   bool readRawFrame(
       RecordReader* reader,
diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index f677f41..38cd9e5 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -285,6 +285,9 @@ class DecodeChecker : public VideoRecordFormatStreamPlayer {
       THROTTLED_LOGW(rec.fileReader, "Block size for {} unknown.", cb.asString());
       return isSuccess(false);
     }
+    if (blockSize > rec.reader->getUnreadBytes()) {
+      return isSuccess(false);
+    }
     vector<char> data(blockSize);
     return isSuccess(rec.reader->read(data) == 0);
   }
diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 826472d..c492d8c 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -52,6 +52,9 @@ int VideoFrameHandler::tryToDecodeFrame(
     decodedKeyFrameTimestamp_ = requestedKeyFrameTimestamp_;
     decodedKeyFrameIndex_ = requestedKeyFrameIndex_;
     // XR_LOGI("Reading frame {}/{}", requestedKeyFrameTimestamp_, requestedKeyFrameIndex_);
+    if (contentBlock.getBlockSize() > reader->getUnreadBytes()) {
+      return NOT_ENOUGH_DATA;
+    }
     encodedFrame_.resize(contentBlock.getBlockSize());
     IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
     if (decoder_) {
diff --git a/vrs/utils/cli/PrintRecordFormatRecords.cpp b/vrs/utils/cli/PrintRecordFormatRecords.cpp
index e39081e..6fd49d8 100644
--- a/vrs/utils/cli/PrintRecordFormatRecords.cpp
+++ b/vrs/utils/cli/PrintRecordFormatRecords.cpp
@@ -152,8 +152,11 @@ class DataLayoutPrinter : public RecordFormatStreamPlayer {
       fmt::print(stderr, "  *** Content block size unknown! ***\n");
       return false;
     }
-    vector<char> data(blockSize);
-    int readStatus = record.reader->read(data);
+    int readStatus = NOT_ENOUGH_DATA;
+    if (blockSize <= record.reader->getUnreadBytes()) {
+      vector<char> data(blockSize);
+      readStatus = record.reader->read(data);
+    }
     if (readStatus == 0) {
       return true; // read next blocks, if any
     }
-- 
2.43.0


From 09ef46b9e5bdc00fa66b2d4cae73d1711ce5f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 95/95] fix: extracting audio read past the end of blocks with
 a stride smaller than their samples

---
 vrs/utils/AudioExtractor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/AudioExtractor.cpp b/vrs/utils/AudioExtractor.cpp
index 15bfd75..5ca509f 100644
--- a/vrs/utils/AudioExtractor.cpp
+++ b/vrs/utils/AudioExtractor.cpp
@@ -115,7 +115,7 @@ int AudioExtractor::writeWavAudioData(
   uint32_t srcStride = audioBlock.getSampleFrameStride();
   uint32_t totalSamples = audioBlock.getSampleCount();
   for (uint32_t i = 0; i < totalSamples; ++i) {
-    if (srcOffset >= (uint32_t)audio.size()) {
+    if (static_cast<size_t>(srcOffset) + bytesPerSampleBlock > audio.size()) {
       cout << "Malformed audio block encountered, read past end of audio block\n";
       break;
     }
-- 
2.43.0

