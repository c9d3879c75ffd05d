From 0de9a4a758e7c4d48faf35618718c085cfcc8312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:28 +0000
Subject: [PATCH 01/72] fix: do not overwrite the attachment directory entries
 when padding a reserved segment

The padding was positioned relative to the size of the last write instead of
the total number of bytes written, so a reserved attachment directory larger
than required had its entries overwritten with zeroes.
---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..3f2d5ec 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From f46eae4d2520f059ef005db8a52060b6e2a69f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:28 +0000
Subject: [PATCH 02/72] fix: compare the non-terminated content file type of
 attachments within its bounds

---
 Src/libCZI/CziReaderCommon.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..b5177c4 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -93,7 +93,8 @@ using namespace libCZI::detail;
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            // note that 'ae.ContentFileType' is not null-terminated if all its characters are used
+            if (contentFileType == nullptr || (strlen(contentFileType) <= sizeof(ae.ContentFileType) && strncmp(contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType)) == 0))
             {
                 if (name == nullptr || strcmp(name, ae.Name) == 0)
                 {
-- 
2.43.0


From 313fc3b479dc1a4108edcd1f6092b27b71810d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:21 +0000
Subject: [PATCH 03/72] fix: write all zeroes when padding more than 4096 bytes

---
 Src/libCZI/CziWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 3f2d5ec..b0935b2 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,7 +470,8 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    const std::uint64_t numberOfChunks = (count + sizeof(zeroes) - 1) / sizeof(zeroes);
+    for (std::uint64_t i = 0; i < numberOfChunks; ++i)
     {
         uint64_t bytesWritten;
         const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-- 
2.43.0


From 21d668b2c0bac5386d712442d549b573245c45de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 04/72] fix: account for the segment header when appending
 directory segments in the reader-writer

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..ce59474 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -285,7 +285,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -323,7 +323,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From 1690e7562437f9232752433aef8495fcbe013f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 05/72] fix: advance the position of the next segment after
 replacing an attachment at the end of the file

---
 Src/libCZI/CziReaderWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index ce59474..7cdf946 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -848,8 +848,8 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     this->attachmentDirectory.TryModifyAttachment(attchmntId, std::get<2>(allocatedSizeAndNewAttchmntEntry));
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
-        // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        // only advance the "nextSegmentInfo" in case we appended the attachment at the end (note that the size includes the segment-header)
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
@@ -892,7 +892,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From c0ab87f581e15eeeb2a25ba902c4ddaa09d7ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 06/72] fix: no gap after a sub-block replaced at the end of
 the file

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 7cdf946..aa0042a 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -176,8 +176,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     this->sbBlkDirectory.TryModifySubBlock(key, std::get<2>(allocatedSizeAndNewSbEntry));
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
-        // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        // only advance the "nextSegmentInfo" in case we appended the subblock at the end (note that the size includes the segment-header)
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
-- 
2.43.0


From 6900a86e0a5311e3d124c8b05ccba22517408812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 07/72] fix: do not read beyond the content file type in
 CCziReaderWriter::TryGetAttachmentInfo

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index aa0042a..272ab7c 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -789,7 +789,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         info->contentGuid = entry.ContentGuid;
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
+        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
         info->name = entry.Name;
     }
-- 
2.43.0


From 23b22f0f513fd200279469e359669da20335b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:31 +0000
Subject: [PATCH 08/72] fix: terminate the content file type in
 CCziReaderWriter::EnumerateAttachments

---
 Src/libCZI/CziReaderWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 272ab7c..a8a755c 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -806,6 +806,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
             libCZI::AttachmentInfo info;
             info.contentGuid = entry.ContentGuid;
             memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
+            info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
             info.name = entry.Name;
             bool b = funcEnum(index, info);
             return b;
-- 
2.43.0


From 2c67e88052727dd38f6e5b4caeafb36e93add3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:14 +0000
Subject: [PATCH 09/72] fix: write a sub-block directory even if no sub-block
 was added to a new file

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index a8a755c..18a7aa8 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -252,7 +252,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
 void CCziReaderWriter::Finish()
 {
-    if (this->sbBlkDirectory.IsModified())
+    // note: a CZI-file must have a subblock-directory (even if there are no subblocks), so we have to write it if it is not there yet
+    const bool writeSubBlockDirectory = this->sbBlkDirectory.IsModified() || !this->subBlockDirectorySegment.IsValid();
+    if (writeSubBlockDirectory)
     {
         this->EnsureNextSegmentInfo();
         CWriterUtils::SubBlkDirWriteInfo sbBlkDirWriteInfo;
@@ -328,7 +330,7 @@ void CCziReaderWriter::Finish()
     }
 
     if ((this->attachmentDirectory.IsModified() && this->hdrSegmentData.GetAttachmentDirectoryPosition() != this->attachmentDirectorySegment.GetFilePos()) ||
-        (this->sbBlkDirectory.IsModified() && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
+        (writeSubBlockDirectory && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
         this->hdrSegmentData.GetMetadataPosition() != this->metadataSegment.GetFilePos())
     {
         this->UpdateFileHeader();
-- 
2.43.0


From 1f2e54499c5d1fcda0eafc354a7a72b82ad9d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 10/72] fix: enforce the M-index bounds of the writer also if
 there are no dimension bounds, and avoid overflow in the bounds check

---
 Src/libCZI/CziWriter.cpp | 44 +++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index b0935b2..9a7ee28 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -1317,36 +1317,34 @@ void CCziWriter::ThrowIfCoordinateIsOutOfBounds(const libCZI::AddSubBlockInfo& a
 CCziWriter::SbBlkCoordinateCheckResult CCziWriter::CheckCoordinate(const libCZI::AddSubBlockInfo& addSbBlkInfo) const
 {
     const IDimBounds* dimBounds = this->info->GetDimBounds();
-    if (dimBounds == nullptr)
+    if (dimBounds != nullptr)
     {
-        return SbBlkCoordinateCheckResult::Ok;
-    }
-
-    int cntOfValidDimensionsInDimBounds = 0;
-    for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
-    {
-        int startIndex, sizeIndex;
-        if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
+        int cntOfValidDimensionsInDimBounds = 0;
+        for (auto i = static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MinDim); i <= static_cast<std::underlying_type<libCZI::DimensionIndex>::type>(libCZI::DimensionIndex::MaxDim); ++i)
         {
-            int coord;
-            bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
-            if (b == false)
+            int startIndex, sizeIndex;
+            if (dimBounds->TryGetInterval(static_cast<DimensionIndex>(i), &startIndex, &sizeIndex))
             {
-                return SbBlkCoordinateCheckResult::InsufficientCoordinate;
-            }
+                int coord;
+                bool b = addSbBlkInfo.coordinate.TryGetPosition(static_cast<DimensionIndex>(i), &coord);
+                if (b == false)
+                {
+                    return SbBlkCoordinateCheckResult::InsufficientCoordinate;
+                }
 
-            if (!(startIndex <= coord && (startIndex + sizeIndex) > coord))
-            {
-                return SbBlkCoordinateCheckResult::OutOfBounds;
-            }
+                if (!(startIndex <= coord && (static_cast<std::int64_t>(startIndex) + sizeIndex) > coord))
+                {
+                    return SbBlkCoordinateCheckResult::OutOfBounds;
+                }
 
-            ++cntOfValidDimensionsInDimBounds;
+                ++cntOfValidDimensionsInDimBounds;
+            }
         }
-    }
 
-    if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
-    {
-        return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        if (cntOfValidDimensionsInDimBounds != addSbBlkInfo.coordinate.GetNumberOfValidDimensions())
+        {
+            return SbBlkCoordinateCheckResult::UnexpectedCoordinate;
+        }
     }
 
     int mMin, mMax;
-- 
2.43.0


From f211139662ffdd45a73037ab704679e4d1a4fa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:34 +0000
Subject: [PATCH 11/72] fix: order of the sub-blocks without M-index in the
 writer is not a strict weak order for far apart positions

---
 Src/libCZI/CziSubBlockDirectory.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..9bf92d0 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -524,24 +524,14 @@ bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEnt
     // 4th check: the x-y-position
     if (a.IsMIndexValid() == false && b.IsMIndexValid() == false)
     {
-        int v = a.x - b.x;
-        if (v < 0)
+        if (a.x != b.x)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.x < b.x;
         }
 
-        v = a.y - b.y;
-        if (v < 0)
+        if (a.y != b.y)
         {
-            return true;
-        }
-        if (v > 0)
-        {
-            return false;
+            return a.y < b.y;
         }
     }
 
-- 
2.43.0


From efb96f968f835bd6a18f66455354ce35ffcbfc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 12/72] fix: check the range of DimensionCount in sub-block
 directory entries

---
 Src/libCZI/CziParse.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..a3f0a4b 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -288,7 +288,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -501,8 +501,12 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
-            int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                CCZIParse::ThrowIllegalData("'DimensionCount' in a directory-entry is out of range");
+            }
+
+            const int sizeToRead = static_cast<int>(dv.DimensionCount * sizeof(DimensionEntryDV));
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From 7bc8b637bc6e5e03c49ec6a57e4fbba6fae26561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:55 +0000
Subject: [PATCH 13/72] fix: throw if there is not enough memory for the
 directories

---
 Src/libCZI/CziParse.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index a3f0a4b..d59bf67 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -116,6 +116,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer && subBlkDirSize > 0)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +215,10 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
 
         // now read the attachment-entries
         try
-- 
2.43.0


From ba112b493d6c06a09b3b0d5e4fcb6e6de1d3162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:35 +0000
Subject: [PATCH 14/72] fix: initialize the information of a sub-block for
 which there is no dimension entry

---
 Src/libCZI/CziParse.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index d59bf67..a6e2a4c 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -289,12 +289,18 @@ using namespace libCZI::detail;
 
     uint32_t lengthSubblockSegmentData = 0;
     SubBlockData sbd;
+
+    // initialize the fields for which there may be no information in the sub-block (in the same way as with the sub-block-directory)
+    constexpr int not_given = (std::numeric_limits<int>::min)();
+    sbd.logicalRect = IntRect{ not_given, not_given, not_given, not_given };
+    sbd.physicalSize = IntSize{ static_cast<std::uint32_t>(not_given), static_cast<std::uint32_t>(not_given) };
+    sbd.mIndex = (std::numeric_limits<int>::max)();
+    memset(sbd.spare, 0, sizeof(sbd.spare));
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
     {
         ConvertToHostByteOrder::Convert(&subBlckSegment.data.entryDV);
         sbd.compression = subBlckSegment.data.entryDV.Compression;
         sbd.pixelType = subBlckSegment.data.entryDV.PixelType;
-        sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
         if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
-- 
2.43.0


From 7f78520da415c78e55193e0ff122edd36a913923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:35 +0000
Subject: [PATCH 15/72] fix: check the sizes in sub-block, attachment and
 metadata segments and whether memory for them is available

---
 Src/libCZI/CziParse.cpp | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index a6e2a4c..0dec5d9 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -383,12 +383,22 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in SubBlock-segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
 
+    if ((subBlckSegment.data.MetadataSize > 0 && !pMetadataBuffer) || (subBlckSegment.data.DataSize > 0 && !pDataBuffer) || (subBlckSegment.data.AttachmentSize > 0 && !pAttachmentBuffer))
+    {
+        throw std::bad_alloc();
+    }
+
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
     if (pMetadataBuffer)
@@ -402,7 +412,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -419,7 +429,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -436,7 +446,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -476,9 +486,18 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Attachment-segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    if (attchmntSegment.data.DataSize > 0 && !pAttchmntBuffer)
+    {
+        throw std::bad_alloc();
+    }
 
     if (pAttchmntBuffer)
     {
@@ -491,7 +510,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -689,10 +708,20 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Metadata-segment");
+    }
+
     // TODO: perform consistency checks...
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    if ((metadataSegment.data.XmlSize > 0 && !pXmlBuffer) || (metadataSegment.data.AttachmentSize > 0 && !pAttachmentBuffer))
+    {
+        throw std::bad_alloc();
+    }
+
     if (pXmlBuffer)
     {
         try
@@ -704,7 +733,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -721,7 +750,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From 46599af2ff92b8658e6aed627be8bb51585c14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:43 +0000
Subject: [PATCH 16/72] fix: read the source as bytes when converting from
 Bgr24 to Bgr48

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From b180bc890238878ec01ef3df8feb5deabb938840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:43 +0000
Subject: [PATCH 17/72] fix: do not shift the pixels when copying with a tile
 border, and cope with a width of one pixel

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From ae9d266c95ec6c51549464b2b001f191e64cd70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:43 +0000
Subject: [PATCH 18/72] fix: advance pixel by pixel when copying with a mask
 and converting the pixel type

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..5624313 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -713,10 +713,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From ec30fa510334854b307c6a379b866e972d8c18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:43 +0000
Subject: [PATCH 19/72] fix: clip the region correctly when filling a bitonal
 bitmap

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5624313..db477c7 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1043,8 +1043,8 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
+    const int x2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)));
+    const int y2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)));
     const int w = x2 - x1;
     const int h = y2 - y1;
 
-- 
2.43.0


From ea1ae8194080521a8113214eda2fdfc667c2a56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:43 +0000
Subject: [PATCH 20/72] fix: stay inside of source and destination when
 decimating a bitonal bitmap, and consider all rows of the neighborhood

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index db477c7..80d8572 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const std::uint8_t* ptrSrc, int x, int width, int strideSrc);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -191,11 +191,13 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            // we must not write beyond the end of the destination line
+            const int bytesRemainingDest = (std::min)((widthDest + 7) / 8 - 2 * numberOfDwords, bitsRemaining <= 16 ? 1 : 2);
+            if (bytesRemainingDest == 1)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
-            else
+            else if (bytesRemainingDest == 2)
             {
                 *reinterpret_cast<uint16_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = EndianessConv::BswapUSHORT(dest);
             }
@@ -203,11 +205,13 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const uint8_t* ptrSrc, int x, int width, int strideSrc)
     {
-        if (x < width)
+        const int bitsAvailable = width - x * 8;    // note: x is the index of the byte, width is in pixels
+        if (bitsAvailable > 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            // the same rows have to be considered here as for the DWORD itself, and the bits after the end of the line must be ignored
+            return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, ptrSrc + x, (std::min)(bitsAvailable, 8), strideSrc));
         }
 
         return 0xff;
@@ -301,7 +305,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From 8c91ec5e39a7afbb6ac699018000f2ba08b4737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:46 +0000
Subject: [PATCH 21/72] fix: clip the region correctly when filling a bitonal
 bitmap (regions with negative size)

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 80d8572..902a1b3 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1047,8 +1047,8 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)));
-    const int y2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)));
+    const int x2 = static_cast<int>((std::max)((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)), static_cast<int64_t>(0)));
+    const int y2 = static_cast<int>((std::max)((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)), static_cast<int64_t>(0)));
     const int w = x2 - x1;
     const int h = y2 - y1;
 
-- 
2.43.0


From edd27d3e0b55a877b3cd2554b352d644759333df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:17 +0000
Subject: [PATCH 22/72] fix: avoid an overflow when checking the lock
 information of a bitonal bitmap

---
 Src/libCZI/libCZI_Pixels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/libCZI_Pixels.cpp b/Src/libCZI/libCZI_Pixels.cpp
index 20d8f14..3df7393 100644
--- a/Src/libCZI/libCZI_Pixels.cpp
+++ b/Src/libCZI/libCZI_Pixels.cpp
@@ -25,7 +25,7 @@ namespace
             throw std::invalid_argument("extent must have non-zero width and height.");
         }
 
-        const size_t minimal_stride = (extent.w + 7) / 8;
+        const std::uint64_t minimal_stride = (static_cast<std::uint64_t>(extent.w) + 7) / 8;
         if (lockInfo.stride < minimal_stride)
         {
             throw std::invalid_argument("lockInfo.stride is too small for the specified stride.");
-- 
2.43.0


From 58a717cb2c0cb13063ed1d26577c7258d42cf590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:20 +0000
Subject: [PATCH 23/72] fix: do not access pixels of an empty source bitmap
 when resizing

---
 Src/libCZI/BitmapOperations.hpp        | 5 +++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 53ec555..c30584c 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -422,6 +422,11 @@ namespace libCZI
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+            if (resizeInfo.srcWidth <= 0 || resizeInfo.srcHeight <= 0)
+            {
+                return; // there is no source pixel at all
+            }
+
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
             const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 902a1b3..2aa4d11 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -438,6 +438,11 @@ namespace
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+        if (resize_info.srcWidth <= 0 || resize_info.srcHeight <= 0)
+        {
+            return; // there is no source pixel at all
+        }
+
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
         const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-- 
2.43.0


From d290cbd2c8df00c3ddfa7a0e1f84f2623272867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 24/72] fix: enumerate the chunks of a sub-block attachment at
 their actual positions

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..6b95437 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,30 +55,28 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    size_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
-        // is sufficient data available?
-        if (size_attachment_data < offset + 20 + chunk_info.size)
+        // is sufficient data available? (note that at least 21 bytes are available at this point)
+        if (size_attachment_data - offset - 20 < chunk_info.size)
         {
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,10 +85,10 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += static_cast<size_t>(20) + chunk_info.size;
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
-        if (size_attachment_data < offset + 21)
+        if (size_attachment_data - offset < 21)
         {
             break;
         }
-- 
2.43.0


From 1924bce7b1341e64177aa4c8182c10b4f1db2c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 25/72] fix: report a missing or truncated valid-pixel-mask
 chunk

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index 6b95437..bd9e74a 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,25 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found || chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("No valid pixel mask present in the chunk container or it is corrupted.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
-- 
2.43.0


From 667e229417ca3e422fe24ff117023f2e31b0feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:03 +0000
Subject: [PATCH 26/72] fix: do not announce more memory than available for a
 valid-pixel mask

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index bd9e74a..25ab793 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -179,7 +179,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = mask_info.width / 8 + (mask_info.width % 8 != 0 ? 1 : 0);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
@@ -191,6 +191,23 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Insufficient size of uncompressed bitonal bitmap pixel mask data.");
     }
     
+    if (mask_info.size_data < mask_info.height * static_cast<size_t>(mask_info.stride))
+    {
+        // The last row is not padded to the full stride, so the existing data buffer is smaller than what
+        //  the bitmap object would report - therefore, we create a copy.
+        auto bitonal_bitmap_copy = CStdBitonalBitmapData::Create(mask_info.width, mask_info.height);
+        const ScopedBitonalBitmapLockerSP locker{ bitonal_bitmap_copy };
+        for (uint32_t y = 0; y < mask_info.height; ++y)
+        {
+            memcpy(
+                static_cast<uint8_t*>(locker.ptrData) + y * static_cast<size_t>(locker.stride),
+                static_cast<const uint8_t*>(mask_info.data.get()) + y * static_cast<size_t>(mask_info.stride),
+                minimal_stride);
+        }
+
+        return bitonal_bitmap_copy;
+    }
+
     // Create a new bitonal bitmap data object (but using the existing data buffer!).
     CSharedPtrAllocator sharedPtrAllocator(mask_info.data); 
     auto bitonal_bitmap = CBitonalBitmapData<CSharedPtrAllocator>::Create(
-- 
2.43.0


From cbbab06ec8230667ae1fe33cf8125f9b79b8c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 27/72] fix: do not use the visibility check optimization in
 mask-aware mode

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..eacf916 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // note: in mask-aware mode a tile does not necessarily hide what is below it, so the optimization must not be used
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..b0214f2 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // note: in mask-aware mode a tile does not necessarily hide what is below it, so the optimization must not be used
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From 54773d538a37154e2b0e0b4efdf0812e7077ee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 28/72] fix: a mask found in the sub-block cache must only be
 used in mask-aware mode, and always be put into the cache

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..92b1e22 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,25 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            if (mask_aware_mode)
+            {
+                result.mask = bitmap_from_cache.mask;
+            }
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
+            if (mask_aware_mode)
+            {
+                result.mask = CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock);
+            }
+
             if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                // note: what is put into the cache must not depend on whether this request is mask-aware or not
+                cache->Add(sub_block_index, { result.bitmap, mask_aware_mode ? result.mask : CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) });
             }
         }
     }
-- 
2.43.0


From be8e8b9d19b121de1aa5b53e874feea3ca121b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 29/72] fix: honor the scene filter in the single-channel tile
 accessor

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 14 ++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index b0214f2..222a681 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -136,17 +136,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -162,11 +162,17 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            int indexS;
+            if (sceneFilter != nullptr && info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+            {
+                return true;
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From fb632ff2520827beed4d3e4852e013b3d1d6346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:58 +0000
Subject: [PATCH 30/72] fix: determine the LRU value of an added item inside of
 the critical section

---
 Src/libCZI/subblock_cache.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index 2229247..a817bf8 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -55,9 +55,10 @@ ISubBlockCacheOperation::CacheItem SubBlockCache::Get(int subblock_index)
 void SubBlockCache::Add(int subblock_index, const ISubBlockCacheOperation::CacheItem& cache_item)
 {
     const auto size_of_added_cache_item = SubBlockCache::CalculateSizeInBytes(cache_item.bitmap.get(), cache_item.mask.get());
-    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
 
+    // note: the LRU value must be determined inside of the critical section - otherwise it would not reflect the order in which the operations take effect
     lock_guard<mutex> lck(this->mutex_);
+    const auto entry_to_be_added = CacheEntry{ cache_item.bitmap, cache_item.mask, this->lru_counter_.fetch_add(1) };
     const auto result = this->cache_.insert({ subblock_index, entry_to_be_added });
     if (result.second)
     {
-- 
2.43.0


From 2c80fd86d3bd43e170d7b17cd887fddd458129c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:58 +0000
Subject: [PATCH 31/72] fix: sort the pyramid statistics only if they were
 changed

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 9bf92d0..bfda99c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -168,7 +168,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From 49093385ca64b76fc9a85bc864e200b9a77c9d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:08 +0000
Subject: [PATCH 32/72] fix: make the operational state of the reader safe for
 concurrent use

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..f53e487 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From 7b22fdab2e152641cd7ed3b5c561e98927c66cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:56 +0000
Subject: [PATCH 33/72] fix: clear also the pyramid statistics when recreating
 the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index bfda99c..a46826c 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From c2f5106d3905063e8fbbc44fc7f4bb3b38327288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:56 +0000
Subject: [PATCH 34/72] fix: consider the M-index of sub-blocks without any
 dimension in the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index a46826c..db8e2e3 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -82,22 +82,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 4d2ce10fa07e373ed3ae67cf563af5588474ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:43 +0000
Subject: [PATCH 35/72] fix: report a negative sub-block index as not existing

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index db8e2e3..f0e56b2 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From 3abb9c0184a244e1a9353b6a35eb1233e4609dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:43 +0000
Subject: [PATCH 36/72] fix: report a negative attachment index as not existing

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..912d4ca 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
-- 
2.43.0


From cf86ab853130b3fa56855e96705c3d1871c7ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 37/72] fix: do not truncate the size of large buffers when
 calculating an MD5 digest

---
 Src/libCZI/MD5Sum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/MD5Sum.cpp b/Src/libCZI/MD5Sum.cpp
index 63784ef..73b3d6d 100644
--- a/Src/libCZI/MD5Sum.cpp
+++ b/Src/libCZI/MD5Sum.cpp
@@ -50,7 +50,7 @@ void CMd5Sum::update(const void* buffer, size_t buffer_size)
 
     if (buffer_size >= 64) 
     {
-        buffer = md5_transform(&this->ctx_, buffer, buffer_size & ~static_cast<uint32_t>(0x3f));
+        buffer = md5_transform(&this->ctx_, buffer, buffer_size & ~static_cast<size_t>(0x3f));
         buffer_size = buffer_size % 64;
     }
 
-- 
2.43.0


From 261922d6066916a8f8f6367de60848465f0e1b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 38/72] fix: reject a sign without digits in an index-set
 string

---
 Src/libCZI/IndexSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..287a152 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -161,6 +161,10 @@ second_part_done:
     {
         v = (numeric_limits<int>::max)();
     }
+    else if (str.compare(L"-") == 0 || str.compare(L"+") == 0)
+    {
+        throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+    }
     else
     {
         long int liValue = wcstol(str.c_str(), nullptr, 10);
-- 
2.43.0


From eaf224149c0e445ef2381edf0688dc6c564f2c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:43 +0000
Subject: [PATCH 39/72] fix: do not wrap around when calculating the pitch of
 very wide bitmaps

---
 Src/libCZI/bitmapData.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..8a75e46 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,8 @@
 
 #include <memory>
 #include <atomic>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +123,15 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint64_t width)
             {
-                auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
-                stride = ((stride + 3) / 4) * 4;
-                return stride;
+                const std::uint64_t stride = ((CziUtils::GetBytesPerPel(pixeltype) * width + 3) / 4) * 4;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::out_of_range("The requested width of the bitmap is out-of-range.");
+                }
+
+                return static_cast<std::uint32_t>(stride);
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
@@ -149,7 +155,7 @@ namespace libCZI
         {
             if (pitch == 0)
             {
-                pitch = CalcDefaultPitch(pixeltype, width + 2 * extraColumns);
+                pitch = CalcDefaultPitch(pixeltype, width + 2ULL * extraColumns);
             }
 
             auto s = std::make_shared<CBitmapData<tAllocator>>(pixeltype, width, height, pitch, extraRows, extraColumns);
-- 
2.43.0


From 6d8970468bc782ec82ab77e6667bea209d0cf7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:55 +0000
Subject: [PATCH 40/72] fix: do not wrap around when calculating the pitch of
 very wide bitonal bitmaps

---
 Src/libCZI/bitmapData.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index 8a75e46..510dfd2 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -179,12 +179,17 @@ namespace libCZI
         private:
             std::uint32_t width_in_pixels_;
             CBitmapData<tAllocator> bitmapData_;
+
+            static std::uint32_t GetBytesPerLine(std::uint32_t width)
+            {
+                return width / 8 + (width % 8 != 0 ? 1 : 0); // (width + 7) / 8, without the risk of an overflow
+            }
         public:
             static std::shared_ptr<libCZI::IBitonalBitmapData> Create(std::uint32_t width, std::uint32_t height, std::uint32_t pitch = 0)
             {
                 if (pitch == 0)
                 {
-                    pitch = (width + 7) / 8; // 1 bit per pixel, so we need 1 byte for 8 pixels
+                    pitch = GetBytesPerLine(width); // 1 bit per pixel, so we need 1 byte for 8 pixels
                 }
 
                 return std::make_shared<CBitonalBitmapData>(width, height, pitch);
@@ -194,7 +199,7 @@ namespace libCZI
             {
                 if (pitch == 0)
                 {
-                    pitch = (width + 7) / 8; // 1 bit per pixel, so we need 1 byte for 8 pixels
+                    pitch = GetBytesPerLine(width); // 1 bit per pixel, so we need 1 byte for 8 pixels
                 }
 
                 return std::make_shared<CBitonalBitmapData<tAllocator>>(allocator, width, height, pitch);
@@ -202,13 +207,13 @@ namespace libCZI
 
             CBitonalBitmapData(tAllocator allocator, std::uint32_t width, std::uint32_t height, std::uint32_t pitch)
                 : width_in_pixels_(width),
-                bitmapData_(allocator, libCZI::PixelType::Gray8, (width + 7) / 8, height, pitch, 0, 0)
+                bitmapData_(allocator, libCZI::PixelType::Gray8, GetBytesPerLine(width), height, pitch, 0, 0)
             {
             }
 
             CBitonalBitmapData(std::uint32_t width, std::uint32_t height, std::uint32_t pitch)
                 : width_in_pixels_(width),
-                bitmapData_(libCZI::PixelType::Gray8, (width + 7) / 8, height, pitch, 0, 0)
+                bitmapData_(libCZI::PixelType::Gray8, GetBytesPerLine(width), height, pitch, 0, 0)
             {
             }
 
-- 
2.43.0


From fb610cfdbd24989843ee077e0074066bc2af10ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:15 +0000
Subject: [PATCH 41/72] fix: use the wide-character classification for wide
 characters when parsing a color

---
 Src/libCZI/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..8bd0537 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -234,7 +234,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From 6fe7891efafd3847acfdfc78c0ccf0e6dc0cbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 42/72] fix: reject a zstd1-header with an invalid size or with
 too little data

---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..92fe463 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -372,13 +372,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        if (*ptrData != 3 || size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            // any other value is not valid, and if we have a chunk, then the size must be at least 3
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From 00e5ce715671cdc70a8bd30f2d7c9db0f5a99fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 43/72] fix: decode all pixels of lo-hi-byte-packed Bgr48 data

---
 Src/libCZI/decoder_zstd.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 92fe463..d29a0e4 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -275,8 +275,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -292,7 +291,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, static_cast<uint32_t>(stride / 2), height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,8 +306,9 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+            const size_t packed_size = decompressed_size / 2 * 2;
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + packed_size, 0, expectedSize - packed_size);
             return bitmap;
         }
         else
@@ -331,7 +331,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From f398b52234a5f7a905ebc7a352ec712cf7178c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:09 +0000
Subject: [PATCH 44/72] fix: do not leave bitmaps locked if a JPGXR-compressed
 bitmap cannot be converted

---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..031f26e 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -43,8 +43,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock(adjusted_bitmap);
+            const ScopedBitmapLockerSP decoded_bitmap_lock(decoded_bitmap);
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -60,8 +60,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From 0281955a28d6eefa8f83438f23d1e235d7433c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 45/72] fix: do not wrap around when calculating the line size
 of a sub-block bitmap

---
 Src/libCZI/CreateBitmap.cpp | 10 +++++++++-
 Src/libCZI/decoder_zstd.cpp | 21 +++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 031f26e..eb74ae2 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -2,6 +2,8 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <limits>
+#include <stdexcept>
 #include "bitmapData.h"
 #include "Site.h"
 #include "libCZI.h"
@@ -102,7 +104,13 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_Uncompresse
     const auto& sub_block_info = subBlk->GetSubBlockInfo();
 
     // The stride with an uncompressed bitmap in CZI is exactly the line-size.
-    const std::uint32_t stride = sub_block_info.physicalSize.w * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    const std::uint64_t line_size = static_cast<std::uint64_t>(sub_block_info.physicalSize.w) * CziUtils::GetBytesPerPel(sub_block_info.pixelType);
+    if (line_size > (std::numeric_limits<std::uint32_t>::max)())
+    {
+        throw std::runtime_error("The width of the bitmap is too large.");
+    }
+
+    const std::uint32_t stride = static_cast<std::uint32_t>(line_size);
     const size_t expected_size = static_cast<size_t>(stride) * sub_block_info.physicalSize.h;
 
     size_t size;
diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index d29a0e4..e7ec2f4 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -13,6 +13,7 @@
 #include "libCZI_Utilities.h"
 #include "utilities.h"
 #include <cstring>
+#include <limits>
 
 using namespace std;
 using namespace libCZI;
@@ -79,6 +80,18 @@ namespace
         return false;
     }
 
+    size_t GetStrideOrThrow(libCZI::PixelType pixel_type, uint32_t width)
+    {
+        // the stride of a bitmap is a 32-bit integer, so we must not try to deal with a larger one
+        const uint64_t stride = static_cast<uint64_t>(width) * Utils::GetBytesPerPixel(pixel_type);
+        if (stride > (numeric_limits<uint32_t>::max)())
+        {
+            throw runtime_error("The width of the bitmap is too large.");
+        }
+
+        return static_cast<size_t>(stride);
+    }
+
     uint64_t GetZstdContentSizeOrThrow(const void* ptr_data, size_t size)
     {
         const auto zstd_frame_content_size = ZSTD_getFrameContentSize(ptr_data, size);
@@ -130,7 +143,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeRequireCorrectSize(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        const size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        const size_t stride = GetStrideOrThrow(pixel_type, width);
         const size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -165,7 +178,7 @@ namespace
     {
         // calculate the expected size of the uncompressed data
         const auto bytes_per_pel = Utils::GetBytesPerPixel(pixel_type);
-        size_t stride = width * static_cast<size_t>(bytes_per_pel);
+        size_t stride = GetStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
         if (zstd_frame_content_size != expected_size)
@@ -209,7 +222,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        size_t stride = GetStrideOrThrow(pixel_type, width);
         size_t expected_size = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
@@ -275,7 +288,7 @@ namespace
     shared_ptr<libCZI::IBitmapData> DecodeAndHiLoBytePackAndHandleSizeMismatch(const void* ptr_data, size_t size, libCZI::PixelType pixel_type, uint32_t width, uint32_t height)
     {
         // calculate the expected size of the uncompressed data
-        size_t stride = width * static_cast<size_t>(Utils::GetBytesPerPixel(pixel_type));
+        size_t stride = GetStrideOrThrow(pixel_type, width);
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
-- 
2.43.0


From f0cc0bddb05d02f8098df025160416742c73167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:27 +0000
Subject: [PATCH 46/72] fix: do not wrap around when checking the stride of a
 bitmap to be compressed

---
 Src/libCZI/zstdCompress.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..d68972d 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -103,11 +103,12 @@ static void CheckSourceBitmapArgumentsAndThrow(std::uint32_t sourceWidth, std::u
     }
 
     // note: GetBytesPerPixel will throw (an invalid_argument-exception) in case of an invalid enum value
-    if (sourceStride < sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype))
+    const std::uint64_t minimumStride = static_cast<std::uint64_t>(sourceWidth) * Utils::GetBytesPerPixel(sourcePixeltype);
+    if (sourceStride < minimumStride)
     {
         stringstream ss;
         ss << "stride is illegal, for width=" << sourceWidth << " and pixeltype=" << Utils::PixelTypeToInformalString(sourcePixeltype) << " the minimum stride is "
-            << sourceWidth * Utils::GetBytesPerPixel(sourcePixeltype) << " whereas " << sourceStride << " was specified.";
+            << minimumStride << " whereas " << sourceStride << " was specified.";
         throw invalid_argument(ss.str());
     }
 
-- 
2.43.0


From 5f64a8c3732a0ef22674c9ebbc517a50597b3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:53 +0000
Subject: [PATCH 47/72] fix: add an item to the directory of the writer only if
 it was written

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 11 ++++++++---
 Src/libCZI/CziAttachmentsDirectory.h   |  3 +++
 Src/libCZI/CziSubBlockDirectory.cpp    |  5 +++++
 Src/libCZI/CziSubBlockDirectory.h      |  3 +++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 912d4ca..21640ad 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -68,12 +68,17 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 //-----------------------------------------------------------------------------
 
-bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+bool CWriterCziAttachmentsDirectory::IsContained(const AttachmentEntry& entry) const
 {
-    if (std::find_if(
+    return std::find_if(
         this->attachments_.cbegin(),
         this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend();
+}
+
+bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
+{
+    if (this->IsContained(entry))
     {
         return false;
     }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..cf2b9f7 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -61,6 +61,9 @@ namespace libCZI
         {
         public:
             bool TryAddAttachment(const AttachmentEntry& entry);
+
+            /// Determines whether the specified entry cannot be added because an equivalent entry already exists.
+            bool IsContained(const AttachmentEntry& entry) const;
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
         private:
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index f0e56b2..20e85a6 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -463,6 +463,11 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
     return insert.second;
 }
 
+bool CWriterCziSubBlockDirectory::IsContained(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) != this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEntry& a, const SubBlkEntry& b) const
 {
     // returns true if the first argument goes before the second argument in the strict weak ordering it defines, 
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..c734df0 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -146,6 +146,9 @@ namespace libCZI
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
             bool TryAddSubBlock(const SubBlkEntry& entry);
 
+            /// Determines whether the specified entry cannot be added because an equivalent entry already exists.
+            bool IsContained(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics() const;
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 9a7ee28..6dd5239 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -967,13 +967,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (this->sbBlkDirectory.IsContained(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // note: the entry must only be added to the directory if the subblock was written successfully
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -985,13 +986,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (this->attachmentDirectory.IsContained(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // note: the entry must only be added to the directory if the attachment was written successfully
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From b7aa054c0c3d564eff5f51be332be01dbfc38a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:53 +0000
Subject: [PATCH 48/72] fix: remove an item from the directory of the
 reader-writer if it could not be written

---
 Src/libCZI/CziReaderWriter.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 18a7aa8..69564f2 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,7 +122,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
+    int key;
+    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, &key);
     if (b == false)
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
@@ -133,8 +134,17 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
-    const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
-    this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    try
+    {
+        const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
+        this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
+    }
+    catch (...)
+    {
+        // the subblock was not written, so it must not be in the directory
+        this->sbBlkDirectory.TryRemoveSubBlock(key, nullptr);
+        throw;
+    }
 }
 
 /*virtual*/void CCziReaderWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -147,7 +157,8 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
+    int key;
+    bool b = this->attachmentDirectory.TryAddAttachment(entry, &key);
     if (b == false)
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
@@ -158,8 +169,17 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
-    auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
-    this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    try
+    {
+        const auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
+        this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
+    }
+    catch (...)
+    {
+        // the attachment was not written, so it must not be in the directory
+        this->attachmentDirectory.TryRemoveAttachment(key, nullptr);
+        throw;
+    }
 }
 
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
-- 
2.43.0


From 3a0adbbd0887ca34ce5bdf6b06401bb07c7439ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:37 +0000
Subject: [PATCH 49/72] fix: CCziReaderWriter::TransformPoint crashed if called
 before Create

---
 Src/libCZI/CziReaderWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 69564f2..2cbc956 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -742,6 +742,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCziReaderWriter::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From 579392a40265cde57e62df1ef55466154dcb40dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:38 +0000
Subject: [PATCH 50/72] fix: pyramid-layer accessor threw out_of_range if the
 region contains sub-blocks of other layers only

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..d58babf 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto layer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (layer == byLayer.cend())
+    {	// there are no subblocks of the requested pyramid-layer in the requested plane/ROI, so there is nothing to do
+        return;
+    }
+
+    const auto& indices = layer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 8af9783ca88ffdd4d168f6a8c83416e44b49f071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:38 +0000
Subject: [PATCH 51/72] fix: pyramid-layer accessor hung for a minification
 factor below 2 and divided by zero for large layer numbers

---
 .../SingleChannelPyramidLevelTileAccessor.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index d58babf..208db5d 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -155,13 +155,22 @@ libCZI::IntRect CSingleChannelPyramidLevelTileAccessor::NormalizePyramidRect(int
 /// <returns>	The calculated size of pixel (in units of pixels on pyramid layer 0). </returns>
 /*static*/int CSingleChannelPyramidLevelTileAccessor::CalcSizeOfPixelOnLayer0(const PyramidLayerInfo& pyramidInfo)
 {
-    int f = 1;
+    if (pyramidInfo.pyramidLayerNo > 0 && pyramidInfo.minificationFactor < 2)
+    {
+        throw invalid_argument("The minification factor must be greater than 1.");
+    }
+
+    int64_t f = 1;
     for (int i = 0; i < pyramidInfo.pyramidLayerNo; ++i)
     {
         f *= pyramidInfo.minificationFactor;
+        if (f > (numeric_limits<int>::max)())
+        {
+            throw invalid_argument("The pyramid-layer number is out of range.");
+        }
     }
 
-    return f;
+    return static_cast<int>(f);
 }
 
 std::map<int, CSingleChannelPyramidLevelTileAccessor::SbByLayer> CSingleChannelPyramidLevelTileAccessor::CalcByLayer(const std::vector<SbInfo>& sbinfos, int minificationFactor)
@@ -190,7 +199,7 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
     }
 
     const int minFactorInt = static_cast<int>(round(minFactor));
-    int f = 1;
+    int64_t f = 1;
     int layerNo = -1;
     for (int layer = 0;; layer++)
     {
@@ -200,6 +209,12 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
             break;
         }
 
+        if (minificationFactorPerLayer < 2)
+        {
+            // layer 0 is denoted by a minification-factor of 0, and then there is no way to number the other layers
+            break;
+        }
+
         f *= minificationFactorPerLayer;
     }
 
-- 
2.43.0


From 7a7a898147f75df55eb5bb9d5852dc2f55ab29f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:19 +0000
Subject: [PATCH 52/72] fix: CCZIReader::TransformPoint gave meaningless
 results if no document is open

---
 Src/libCZI/CZIReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..b824d95 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -115,6 +115,7 @@ CCZIReader::CCZIReader() :
 
 /*virtual*/libCZI::IntPointAndFrameOfReference CCZIReader::TransformPoint(const libCZI::IntPointAndFrameOfReference& source_point, libCZI::CZIFrameOfReference destination_frame_of_reference)
 {
+    this->ThrowIfNotOperational();
     CZIFrameOfReference source_frame_of_reference_consolidated;
     switch (source_point.frame_of_reference)
     {
-- 
2.43.0


From 156351d4fe4962df24bd16b8e316a79243cb1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 53/72] fix: PreadFileInputStream::Read delivered too few bytes
 after a partial pread (always above 2 GB)

---
 .../StreamsLib/preadfileinputstream.cpp       | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/StreamsLib/preadfileinputstream.cpp b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
index 5959f10..2a7be7b 100644
--- a/Src/libCZI/StreamsLib/preadfileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/preadfileinputstream.cpp
@@ -42,13 +42,31 @@ PreadFileInputStream::~PreadFileInputStream()
 
 /*virtual*/void PreadFileInputStream::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // note that pread may deliver less than what was requested (and it always does so for sizes of 2 GB and above on Linux), so we
+    //  have to continue until we either got everything or arrived at the end of the file
+    std::uint64_t bytesRead = 0;
+    while (bytesRead < size)
     {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t r = pread(this->fileDescriptor, static_cast<char*>(pv) + bytesRead, size - bytesRead, offset + bytesRead);
+        if (r < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            std::stringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        if (r == 0)
+        {
+            break;
+        }
+
+        bytesRead += r;
     }
 
     if (ptrBytesRead != nullptr)
-- 
2.43.0


From f9274bc73f952fa4d8ffdef7147ed4e02cafebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:51 +0000
Subject: [PATCH 54/72] fix: pread/pwrite based streams transferred too few
 bytes after a partial pread or pwrite (always above 2 GB)

---
 Src/libCZI/StreamImpl.cpp | 88 +++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..5490ce0 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -55,13 +55,30 @@ COutputStreamImplPwrite::~COutputStreamImplPwrite()
 
 /*virtual*/void COutputStreamImplPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
+    // note that pwrite may write less than what was requested (and it always does so for sizes of 2 GB and above on Linux)
+    std::uint64_t bytesWritten = 0;
+    while (bytesWritten < size)
     {
-        auto err = errno;
-        std::stringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t r = pwrite(this->fileDescriptor, static_cast<const char*>(pv) + bytesWritten, size - bytesWritten, offset + bytesWritten);
+        if (r < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            std::stringstream ss;
+            ss << "Error writing to file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        if (r == 0)
+        {
+            break;
+        }
+
+        bytesWritten += r;
     }
 
     if (ptrBytesWritten != nullptr)
@@ -282,13 +299,31 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Read(std::uint64_t offset, void* pv, std::uint64_t size, std::uint64_t* ptrBytesRead)
 {
-    ssize_t bytesRead = pread(this->fileDescriptor, pv, size, offset);
-    if (bytesRead < 0)
+    // note that pread may deliver less than what was requested (and it always does so for sizes of 2 GB and above on Linux), so we
+    //  have to continue until we either got everything or arrived at the end of the file
+    std::uint64_t bytesRead = 0;
+    while (bytesRead < size)
     {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t r = pread(this->fileDescriptor, static_cast<char*>(pv) + bytesRead, size - bytesRead, offset + bytesRead);
+        if (r < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            ostringstream ss;
+            ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        if (r == 0)
+        {
+            break;
+        }
+
+        bytesRead += r;
     }
 
     if (ptrBytesRead != nullptr)
@@ -299,13 +334,30 @@ CInputOutputStreamImplPreadPwrite::~CInputOutputStreamImplPreadPwrite()
 
 /*virtual*/void CInputOutputStreamImplPreadPwrite::Write(std::uint64_t offset, const void* pv, std::uint64_t size, std::uint64_t* ptrBytesWritten)
 {
-    ssize_t bytesWritten = pwrite(this->fileDescriptor, pv, size, offset);
-    if (bytesWritten < 0)
+    // note that pwrite may write less than what was requested (and it always does so for sizes of 2 GB and above on Linux)
+    std::uint64_t bytesWritten = 0;
+    while (bytesWritten < size)
     {
-        auto err = errno;
-        ostringstream ss;
-        ss << "Error reading from file (errno=" << err << " -> " << strerror(err) << ")";
-        throw std::runtime_error(ss.str());
+        const ssize_t r = pwrite(this->fileDescriptor, static_cast<const char*>(pv) + bytesWritten, size - bytesWritten, offset + bytesWritten);
+        if (r < 0)
+        {
+            auto err = errno;
+            if (err == EINTR)
+            {
+                continue;
+            }
+
+            ostringstream ss;
+            ss << "Error writing to file (errno=" << err << " -> " << strerror(err) << ")";
+            throw std::runtime_error(ss.str());
+        }
+
+        if (r == 0)
+        {
+            break;
+        }
+
+        bytesWritten += r;
     }
 
     if (ptrBytesWritten != nullptr)
-- 
2.43.0


From 83c956b2627a853987894685453c18de4f13a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 55/72] fix: multi-channel composition: check for null bitmaps
 and for invalid look-up table sizes before using them

---
 Src/libCZI/MultiChannelCompositor.cpp | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..785ddd8 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1052,6 +1052,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1060,19 +1067,12 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
-            if (channelInfos[i].lookUpTableElementCount > 0)
+            if (IsUsingLut(&channelInfos[i]))
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
                 {
                     stringstream ss;
-                    ss << "index #" << i << " -> if lookUpTableElementCount>0, then ptrLookUpTable must be valid";
+                    ss << "index #" << i << " -> if lookUpTableElementCount<>0, then ptrLookUpTable must be valid";
                     throw std::invalid_argument(ss.str());
                 }
 
@@ -1266,6 +1266,20 @@ private:
         }
     }
 public:
+    /// Check the arguments from which the properties of a destination bitmap are to be determined.
+    static void CheckSourceBitmaps(int channelCount, libCZI::IBitmapData* const* srcBitmaps)
+    {
+        if (channelCount <= 0)
+        {
+            throw std::invalid_argument("channelCount must be >0");
+        }
+
+        if (srcBitmaps == nullptr || *srcBitmaps == nullptr)
+        {
+            throw std::invalid_argument("srcBitmaps==nullptr or srcBitmaps[0]==nullptr");
+        }
+    }
+
     static void ComposeMultiChannel_Bgr24(
         libCZI::IBitmapData* dest,
         int channelCount,
@@ -1312,6 +1326,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CMultiChannelCompositor2::CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgr24, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgr24(bmDest.get(), channelCount, srcBitmaps, channelInfos);
     return bmDest;
@@ -1323,6 +1338,7 @@ public:
     libCZI::IBitmapData* const* srcBitmaps,
     const ChannelInfo* channelInfos)
 {
+    CMultiChannelCompositor2::CheckSourceBitmaps(channelCount, srcBitmaps);
     auto bmDest = GetSite()->CreateBitmap(PixelType::Bgra32, (*srcBitmaps)->GetWidth(), (*srcBitmaps)->GetHeight());
     Compositors::ComposeMultiChannel_Bgra32(bmDest.get(), alphaVal, channelCount, srcBitmaps, channelInfos);
     return bmDest;
-- 
2.43.0


From e4794f64be7d62b9f8a9414fb1eedcc17449cc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 56/72] fix: multi-channel composition: black or white point
 outside of 0..1 must not wrap around

---
 Src/libCZI/MultiChannelCompositor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 785ddd8..895d660 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -478,8 +478,9 @@ private:
 
         CGetBlackWhitePtBase(float blackPt, float whitePt)
         {
-            this->blackPt = static_cast<tValue>(std::ceil(blackPt * maxValue));
-            this->whitePt = static_cast<tValue>(std::floor(whitePt * maxValue));
+            // values outside of the range 0..1 are treated like 0 or 1
+            this->blackPt = static_cast<tValue>(std::ceil((std::min)((std::max)(blackPt, 0.f), 1.f) * maxValue));
+            this->whitePt = static_cast<tValue>(std::floor((std::min)((std::max)(whitePt, 0.f), 1.f) * maxValue));
         };
     };
 
-- 
2.43.0


From 42c2bbb5a2eb1f340962bcb0d9a7ae3dc828d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 57/72] fix: C API: handles of attachments and of document
 infos must be distinguishable

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..fb8157e 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5C1E96B8u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From 3d7e070b57fa4166944b8ffa0f0faaf3becb02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 58/72] fix: C API: check for invalid handles and null output
 arguments

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..f021357 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1982,6 +1982,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From dd80696e754769a3b03db6d2c0b4eda8e2d06053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 59/72] fix: C API: reading empty XML-metadata must not access
 memory before the buffer

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index f021357..04ea19b 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1125,7 +1125,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
-- 
2.43.0


From 4c7f548556f9530c44e84abc6085a83d50690fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 60/72] fix: C API: report an error if the dimension info or
 the display settings are not available

---
 Src/libCZIAPI/src/libCZIApi.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 04ea19b..3d043e4 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1302,6 +1302,11 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
@@ -1370,6 +1375,8 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From 6a8d36970a2216f0ed508c19a834dc93b39dd372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 61/72] fix: C API: filling out the channel info for an unknown
 channel must report an error

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..64fd69f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1460,6 +1460,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::invalid_argument("There are no display-settings for the specified channel.");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
-- 
2.43.0


From b33fd3156a41a9d60500f6f7c2ff9ce5f34e9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 62/72] fix: C API: a pixel type argument outside of the range
 of the enumeration must not match

---
 Src/libCZIAPI/src/libCZIApi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 3d043e4..193e608 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1079,7 +1079,8 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
 
-    if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type))
+    if (shared_bitmap_wrapping_object->shared_ptr_->GetPixelType() != static_cast<PixelType>(pixel_type) ||
+        static_cast<std::int32_t>(static_cast<PixelType>(pixel_type)) != pixel_type)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
-- 
2.43.0


From 67e52fcb946be340f8ff2ed4ccaa28724d6d134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:54 +0000
Subject: [PATCH 63/72] fix: C API: write the specified compression mode for a
 compressed sub-block

---
 Src/libCZIAPI/src/libCZIApi.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 193e608..247eef1 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1748,6 +1748,7 @@ namespace
         add_sub_block_info_mem_ptr.Clear();
 
         FillOutAddSubBlockInfoBase(add_sub_block_info, add_sub_block_info_mem_ptr);
+        add_sub_block_info_mem_ptr.compressionModeRaw = add_sub_block_info->compression_mode_raw;
 
         add_sub_block_info_mem_ptr.ptrData = add_sub_block_info->data;
         add_sub_block_info_mem_ptr.dataSize = add_sub_block_info->size_data;
-- 
2.43.0


From 38e1cdcf21780854468af5e8c1c046d991dd888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:39 +0000
Subject: [PATCH 64/72] fix: C API: refuse a pixel type outside of the range of
 the enumeration when adding a sub-block

---
 Src/libCZIAPI/src/libCZIApi.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 247eef1..d8ea358 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1718,7 +1718,12 @@ namespace
         add_sub_block_info_base.logicalHeight = add_sub_block_info->logical_height;
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
-        add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
+        add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type);
+        if (static_cast<std::int32_t>(add_sub_block_info_base.PixelType) != add_sub_block_info->pixel_type)
+        {
+            throw std::invalid_argument("The pixel type is invalid.");
+        }
+
         add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
     }
 
-- 
2.43.0


From 1e5c39181981cad1f6fbae96c7e8142cc84baddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:28 +0000
Subject: [PATCH 65/72] fix: numeric XML values with trailing white space no
 longer hang, empty text is not a number

---
 Src/libCZI/CziMetadata.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..7300aa8 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -4,6 +4,7 @@
 
 #include "CziMetadata.h"
 #include "CziMetadataDocumentInfo.h"
+#include <cwctype>
 
 using namespace libCZI::detail::pugi;
 using namespace libCZI;
@@ -117,10 +118,12 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
             while (posFirstCharNotParsed < str.length())
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
+
+                ++posFirstCharNotParsed;
             }
         }
         catch (invalid_argument&)
@@ -152,6 +155,11 @@ bool IXmlNodeRead::TryGetValueAsDouble(double* p)
         {
             wchar_t* endPtr;
             auto d = wcstod(s.c_str(), &endPtr);
+            if (endPtr == s.c_str())
+            {
+                throw invalid_argument("no number found");
+            }
+
             *idx = endPtr - s.c_str();
             return d;
         }
-- 
2.43.0


From 1b295b1fe85acd20190074aca258f5f557bc568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 66/72] fix: channel ids and names with special characters in
 the prepared metadata

---
 Src/libCZI/CziMetadataBuilder.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..65f8e11 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -516,18 +516,15 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std:
     for (int ch = channelIdxStart; ch < channelIdxStart + channelIdxSize; ++ch)
     {
         auto idAndOptionalName = getIdAndName(ch);
-        string s{ "Metadata/Information/Image/Dimensions/Channels/Channel[Id=" };
-        s.append(get<0>(idAndOptionalName));
+        const auto channelNode = root->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels")->AppendChildNode("Channel");
+
+        // the id and the name may contain any character, so they must not be made part of a "path"
+        channelNode->SetAttribute("Id", get<0>(idAndOptionalName).c_str());
         if (get<0>(get<1>(idAndOptionalName)) == true)
         {
-            s.append(",Name=");
-            s.append(get<1>(get<1>(idAndOptionalName)));
+            channelNode->SetAttribute("Name", get<1>(get<1>(idAndOptionalName)).c_str());
         }
 
-        s.append("]");
-
-        const auto channelNode = root->GetOrCreateChildNode(s.c_str());
-
         auto pxlTypeIterator = pixelTypeForChannel.GetChannelIndexPixelTypeMap().find(ch);
         if (pxlTypeIterator != pixelTypeForChannel.GetChannelIndexPixelTypeMap().end())
         {
-- 
2.43.0


From 848515974e49a9cb8b515501aba92c7e47794aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 67/72] fix: WriteDimInfoZ_List writes the start position of Z

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 65f8e11..bed16d5 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -830,7 +830,7 @@ bool libCZI::XmlDateTime::IsValid() const
 {
     if (!isnan(startPos) && !isinf(startPos))
     {
-        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/StartTime")->SetValueDbl(startPos);
+        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/StartPosition")->SetValueDbl(startPos);
     }
 
     if (funcGetOffsets)
-- 
2.43.0


From 4fa1cf24961d7f9660bb0fdf5e6502cb2f9bf4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 68/72] fix: read the Z-drive mode from the node ZDriveMode

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..715d2d6 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -260,7 +260,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From 94956e86b645ab87c1aa516b7bd58435001d362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 69/72] fix: numbers out of range and wide characters in the
 XML metadata are treated as syntax errors

---
 Src/libCZI/CziDisplaySettings.cpp       | 10 +++++++---
 Src/libCZI/CziMetadataDocumentInfo.cpp  | 16 +++++++++++++---
 Src/libCZI/CziMetadataDocumentInfo2.cpp |  9 +++++----
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/Src/libCZI/CziDisplaySettings.cpp b/Src/libCZI/CziDisplaySettings.cpp
index 6661f86..6e3223c 100644
--- a/Src/libCZI/CziDisplaySettings.cpp
+++ b/Src/libCZI/CziDisplaySettings.cpp
@@ -2,7 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
-#include <cctype>
+#include <cwctype>
 #include "CziDisplaySettings.h"
 #include "splines.h"
 #include "utilities.h"
@@ -32,7 +32,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (std::iswspace(c))
                 {
                     ++szString;
                     continue;
@@ -55,7 +55,7 @@ public:
             for (;;)
             {
                 wchar_t c = *szString;
-                if (std::isspace(c))
+                if (std::iswspace(c))
                 {
                     ++szString;
                     continue;
@@ -367,6 +367,10 @@ bool CChannelDisplaySettingsOnPod::TryGetSplineData(std::vector<libCZI::IDisplay
                     {
                         GetSite()->Log(LOGLEVEL_WARNING, "Could not parse the content of the 'Point'-field");
                     }
+                    catch (out_of_range&)
+                    {
+                        GetSite()->Log(LOGLEVEL_WARNING, "Could not parse the content of the 'Point'-field");
+                    }
 
                     if (!chDsplSetting.splineCtrlPoints.empty())
                     {
diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 715d2d6..77bed43 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -5,6 +5,7 @@
 #include "CziMetadataDocumentInfo.h"
 
 #include <cstddef>
+#include <cwctype>
 #include <utility>
 #include "CziDimensionInfo.h"
 #include "CziDisplaySettings.h"
@@ -287,10 +288,13 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             catch (invalid_argument&)
             {
             }
+            catch (out_of_range&)
+            {
+            }
 
             if (parsedOk == true)
             {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                 {
                     parsedOk = false;
                 }
@@ -341,10 +345,13 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
                     catch (invalid_argument&)
                     {
                     }
+                    catch (out_of_range&)
+                    {
+                    }
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
@@ -425,10 +432,13 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
                     catch (invalid_argument&)
                     {
                     }
+                    catch (out_of_range&)
+                    {
+                    }
 
                     if (parsedOk == true)
                     {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
+                        if (charsParsed < str.length() && !iswspace(str[charsParsed]))
                         {
                             parsedOk = false;
                         }
diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 9b99814..7a4e82f 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -2,6 +2,7 @@
 //
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
+#include <cwctype>
 #include <limits>
 #include "CziMetadataDocumentInfo.h"
 #include "CziMetadataDocumentInfo2.h"
@@ -1815,12 +1816,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
@@ -1852,12 +1853,12 @@ void CDimensionChannelPolarizingSettings::ParseInformation(pugi::xml_node node)
                 break;
             }
 
-            if (!isspace(str[offset + s]))
+            if (!iswspace(str[offset + s]))
             {
                 break;
             }
 
-            for (++s; isspace(str[offset + s]); ++s) {}
+            for (++s; iswspace(str[offset + s]); ++s) {}
             offset += s;
             vec.push_back(d);
         }
-- 
2.43.0


From f87e358db00539720ed2c45171fb386283989d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:11 +0000
Subject: [PATCH 70/72] fix: XmlDateTime: negative years and time zone offsets,
 years with many digits

---
 Src/libCZI/CziMetadataBuilder.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index bed16d5..11f5772 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -607,7 +607,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
-    ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
+    ss << ((this->year < 0) ? "-" : "") << setfill('0') << setw(4) << ((this->year < 0) ? -this->year : this->year) << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
     {
@@ -615,7 +615,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? "+" : "-") << setw(2) << ((this->offsetHours >= 0) ? this->offsetHours : -this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
@@ -660,7 +660,14 @@ bool libCZI::XmlDateTime::IsValid() const
 
         if (pieces_match[1].matched)
         {
-            dateTime.year = std::stoi(pieces_match[1]);
+            try
+            {
+                dateTime.year = std::stoi(pieces_match[1]);
+            }
+            catch (const std::out_of_range&)
+            {
+                return false;
+            }
         }
 
         if (pieces_match[2].matched)
-- 
2.43.0


From f9c6bbc9f57d8733f610bde76b928c53495ca5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:25 +0000
Subject: [PATCH 71/72] fix: reject bounds-strings with extraneous characters
 before or between the dimensions

---
 Src/libCZI/DimCoordinate.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 7161769..1fb393d 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -43,7 +43,7 @@ public:
     static CDimBounds ParseBounds(const char* str)
     {
         string s(str);
-        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+|-]?[0-9]+):([\+|-]?[0-9]+))\s*))");
+        regex bounds_regex(R"((?:\s*([a-zA-Z])(?:([\+-]?[0-9]+):([\+-]?[0-9]+))\s*))");
 
         std::regex_iterator<std::string::iterator> it(s.begin(), s.end(), bounds_regex);
         std::regex_iterator<std::string::iterator> end;
@@ -53,6 +53,11 @@ public:
         bool lastMatchHasNoSuffix = false;
         for (; it != std::regex_iterator<std::string::iterator>(); ++it)
         {
+            if (it->prefix().length() != 0)
+            {
+                throw LibCZIStringParseException("Invalid characters in bounds-string", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+            }
+
             if (it->size() == 4)
             {
                 auto dimMatch = it->operator[](1);
-- 
2.43.0


From 243c284c95588c2049eefcbc1c2e301b1f713b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:18 +0000
Subject: [PATCH 72/72] fix: do not take negative numbers as end of an
 exposure-time range

---
 Src/libCZI/CziMetadataDocumentInfo2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo2.cpp b/Src/libCZI/CziMetadataDocumentInfo2.cpp
index 7a4e82f..72e31ce 100644
--- a/Src/libCZI/CziMetadataDocumentInfo2.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo2.cpp
@@ -861,7 +861,7 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
         {
             size_t s;
             uint64_t end = std::stoull(str.c_str() + 1, &s, 10);
-            if (1 + s == str.length())
+            if (str[1] != L'-' && 1 + s == str.length())
             {
                 rangeOrSingleValue->singleValue = false;
                 rangeOrSingleValue->startOrSingleValue = (std::numeric_limits<uint64_t>::min)();;
@@ -891,7 +891,7 @@ void CDimensionChannelInfo::ParseInformation(pugi::xml_node node)
                 {
                     size_t s2;
                     uint64_t end = std::stoull(str.c_str() + s + 1, &s2, 10);
-                    if (1 + s + s2 == str.length())
+                    if (str[s + 1] != L'-' && 1 + s + s2 == str.length())
                     {
                         rangeOrSingleValue->singleValue = false;
                         rangeOrSingleValue->startOrSingleValue = start;
-- 
2.43.0

