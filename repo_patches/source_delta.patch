From 17d3b4682d0ddd2147051010bb1f00bccc615e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 01/32] fix: size of a rebatched wire must not require its
 sources to be executed

GateKeeper::batchingUp summed the sizes of the source values; on the lazy
scheduler a source that has not been executed yet has no value, so the size
(and everything derived from it) was wrong. Use the recorded batch size.
---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From c4f4be173fff2b7b8507a9f936137b4834e44f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 02/32] fix: empty batches have no scheduled AND or
 multiplication to collect

compute() of the lazily evaluated batch gates skips scheduling when the batch
is empty, but collectScheduledResult() still fetched a result with an
uninitialised index and threw.
---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 5 +++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6676ac3 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,11 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchIntegerValue(wireID_, std::vector<uint64_t>());
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..1de25b9 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,11 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchBooleanValue(wireID_, std::vector<bool>());
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From 58d5caf1160a76d394d2377b6e2b21e5569b394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 03/32] fix: assigning a frontend bit to itself must not
 release its wire

The copy assignment dropped the old reference before taking the new one, so
a = a on the only handle freed the wire and left the handle dangling.
---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..350705f 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // the source may be this very bit: its wire must not be released in between
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From 0044c7a1296379dec8bb1bd9135fc8d09c015d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:28 +0000
Subject: [PATCH 04/32] fix: a partial in-memory receive must consume what it
 returns

The number of bytes to drop from the front message was recomputed after the
result had grown, so nothing was dropped and the same bytes were received again.
---
 .../communication/InMemoryPartyCommunicationAgentHost.cpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
index 194fbbd..2cd5aa3 100644
--- a/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
+++ b/fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.cpp
@@ -64,9 +64,9 @@ std::vector<unsigned char> InMemoryPartyCommunicationAgentHost::receive(
       result.insert(result.end(), buf.begin(), buf.end());
       buffers_[1 - myId].pop();
     } else {
-      result.insert(
-          result.end(), buf.begin(), buf.begin() + size - result.size());
-      buf.erase(buf.begin(), buf.begin() + size - result.size());
+      auto taken = size - result.size();
+      result.insert(result.end(), buf.begin(), buf.begin() + taken);
+      buf.erase(buf.begin(), buf.begin() + taken);
     }
   }
   return result;
-- 
2.43.0


From 6a77f8b161049623aa3623991167194b2962cb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 05/32] fix: a failed read of the underlying reader must not be
 taken for data

---
 fbpcf/io/api/BufferedReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fbpcf/io/api/BufferedReader.cpp b/fbpcf/io/api/BufferedReader.cpp
index 05e5100..2c805dc 100644
--- a/fbpcf/io/api/BufferedReader.cpp
+++ b/fbpcf/io/api/BufferedReader.cpp
@@ -112,6 +112,10 @@ std::string BufferedReader::readLine() {
 
 void BufferedReader::loadNextChunk() {
   auto bytesRead = baseReader_->read(buffer_);
+  if (bytesRead == static_cast<size_t>(-1)) {
+    // IReader reports errors with -1
+    throw std::runtime_error("Failed to read from the underlying reader.");
+  }
 
   lastPosition_ = bytesRead;
   currentPosition_ = 0;
-- 
2.43.0


From c00394e8af8c6f7701be02ccf58ca8556d8d4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 06/32] fix: whole-file helpers must report that the
 destination could not be stored

---
 fbpcf/io/api/FileIOWrappers.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fbpcf/io/api/FileIOWrappers.cpp b/fbpcf/io/api/FileIOWrappers.cpp
index 346b732..e2c861d 100644
--- a/fbpcf/io/api/FileIOWrappers.cpp
+++ b/fbpcf/io/api/FileIOWrappers.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <cstddef>
+#include <stdexcept>
 #include <string>
 
 #include "fbpcf/io/api/BufferedReader.h"
@@ -38,7 +39,9 @@ void FileIOWrappers::writeFile(
   auto bufferedWriter =
       std::make_unique<fbpcf::io::BufferedWriter>(std::move(fileWriter));
   bufferedWriter->writeString(content);
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 void FileIOWrappers::transferFileInParts(
@@ -60,7 +63,9 @@ void FileIOWrappers::transferFileInParts(
   }
 
   bufferedReader->close();
-  bufferedWriter->close();
+  if (bufferedWriter->close() != 0) {
+    throw std::runtime_error("Failed to write file " + destPath);
+  }
 }
 
 bool FileIOWrappers::readCsv(
-- 
2.43.0


From ba5312bec4be3212315916d9ad81d60d589473cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 07/32] fix: writing a local file must accept a bare file name
 and report a failed write

---
 fbpcf/io/LocalFileManager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index f37e5c9..8b30a0a 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -42,13 +42,19 @@ void LocalFileManager::write(
     const std::string& fileName,
     const std::string& data) {
   std::filesystem::path filePath{fileName};
-  std::filesystem::create_directories(filePath.parent_path());
+  if (filePath.has_parent_path()) {
+    std::filesystem::create_directories(filePath.parent_path());
+  }
   std::ofstream os{fileName};
   if (!os.is_open()) {
     throw PcfException{folly::sformat("Failed to open file {}", fileName)};
   }
 
   os << data;
+  os.close();
+  if (os.fail()) {
+    throw PcfException{folly::sformat("Failed to write file {}", fileName)};
+  }
 }
 
 void LocalFileManager::copy(
-- 
2.43.0


From 4c41a75cd26c817708daba341cae82d2f39ef53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 08/32] fix: an S3 upload that lost a part must not be
 completed

---
 fbpcf/io/cloud_util/S3FileUploader.cpp | 9 +++++++++
 fbpcf/io/cloud_util/S3FileUploader.h   | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/fbpcf/io/cloud_util/S3FileUploader.cpp b/fbpcf/io/cloud_util/S3FileUploader.cpp
index 0a06185..fc65666 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.cpp
+++ b/fbpcf/io/cloud_util/S3FileUploader.cpp
@@ -46,6 +46,10 @@ void S3FileUploader::init() {
   }
 }
 int S3FileUploader::upload(std::vector<char>& buf) {
+  if (isAborted_) {
+    XLOG(ERR) << "A previous part of " << filePath_ << " failed to upload.";
+    return 0;
+  }
   XLOG(INFO) << "Start uploading part:" << "Part number: " << partNumber_
              << "\nBucket: " << bucket_ << "\nKey: " << key_;
   Aws::S3::Model::UploadPartRequest request;
@@ -78,11 +82,16 @@ int S3FileUploader::upload(std::vector<char>& buf) {
     return str.size();
   } else {
     XLOG(INFO) << "Upload part " << partNumber_ << " failed. Aborting...";
+    isAborted_ = true;
     abortUpload();
     return 0;
   }
 }
 int S3FileUploader::complete() {
+  if (isAborted_) {
+    XLOG(ERR) << "File " << filePath_ << " failed to upload.";
+    return -1;
+  }
   Aws::S3::Model::CompleteMultipartUploadRequest request;
   request.SetBucket(bucket_);
   request.SetKey(key_);
diff --git a/fbpcf/io/cloud_util/S3FileUploader.h b/fbpcf/io/cloud_util/S3FileUploader.h
index dbfadea..149fbe7 100644
--- a/fbpcf/io/cloud_util/S3FileUploader.h
+++ b/fbpcf/io/cloud_util/S3FileUploader.h
@@ -34,6 +34,8 @@ class S3FileUploader : public IFileUploader {
   std::string key_;
   std::string uploadId_;
   std::size_t partNumber_ = 1;
+  // set once a part could not be stored: the object must not be completed
+  bool isAborted_ = false;
   Aws::Vector<Aws::S3::Model::CompletedPart> completedParts_;
 };
 
-- 
2.43.0


From 9bff12cbbd217b9ecd984c1243a2930eca247706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 09/32] fix: copying a missing local file must not publish an
 empty object

---
 fbpcf/io/S3FileManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index a3899c6..0a7ed62 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -16,10 +16,13 @@
 #include <aws/s3/model/PutObjectRequest.h> // @manual
 #include <string>
 
+#include <folly/Format.h>
+
 #include "LocalFileManager.h"
 #include "S3InputStream.h"
 #include "fbpcf/aws/S3Util.h"
 #include "fbpcf/exception/AwsException.h"
+#include "fbpcf/exception/PcfException.h"
 
 namespace fbpcf {
 
@@ -86,6 +89,9 @@ void S3FileManager::copy(
     const std::string& destination) {
   std::shared_ptr<std::iostream> sourceData = std::make_shared<std::fstream>(
       sourceFile.c_str(), std::ios_base::in | std::ios_base::binary);
+  if (sourceData->fail()) {
+    throw PcfException{folly::sformat("Failed to open file {}", sourceFile)};
+  }
   writeDataStream(destination, sourceData);
 }
 
-- 
2.43.0


From f7011d823c8e3441e4ab068233633489b84b560f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 10/32] fix: s3:// and gs:// addresses are cloud files, not
 local names

---
 fbpcf/io/api/IOUtils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/IOUtils.h b/fbpcf/io/api/IOUtils.h
index 2914667..bb32769 100644
--- a/fbpcf/io/api/IOUtils.h
+++ b/fbpcf/io/api/IOUtils.h
@@ -35,7 +35,8 @@ constexpr size_t kLocalBufferedWriterChunkSize = 4096;
 class IOUtils {
  public:
   static bool isCloudFile(std::string filePath) {
-    return filePath.find("https://", 0) == 0;
+    return filePath.find("https://", 0) == 0 ||
+        filePath.find("s3://", 0) == 0 || filePath.find("gs://", 0) == 0;
   }
 
   static const std::vector<std::string> splitByComma(std::string& str) {
-- 
2.43.0


From 669a38f493b59da428b5fecef57ea33f0907a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 11/32] fix: bucket names with dots in virtual-host style GCS
 addresses

---
 fbpcf/gcp/GCSUtil.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/gcp/GCSUtil.cpp b/fbpcf/gcp/GCSUtil.cpp
index ee67b21..9eed4d5 100644
--- a/fbpcf/gcp/GCSUtil.cpp
+++ b/fbpcf/gcp/GCSUtil.cpp
@@ -40,7 +40,8 @@ GCSObjectReference uriToObjectReference(std::string url) {
   if (boost::iequals(scheme, "gs")) {
     bucket = host;
   } else if (host.find(".storage.googleapis.com") != std::string::npos) {
-    bucket = host.substr(0, host.find_first_of("."));
+    // bucket names may contain dots themselves
+    bucket = host.substr(0, host.rfind(".storage.googleapis.com"));
   } else {
     // Remove the first character '/' in path
     path = path.substr(1);
-- 
2.43.0


From 0ac1707cc777d14844ee1ecee08b8630dd714a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 12/32] fix: dots of cloud host names must match literally

---
 fbpcf/aws/S3Util.cpp                  |  2 +-
 fbpcf/io/cloud_util/CloudFileUtil.cpp | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fbpcf/aws/S3Util.cpp b/fbpcf/aws/S3Util.cpp
index 4f3c5ec..c55eb4f 100644
--- a/fbpcf/aws/S3Util.cpp
+++ b/fbpcf/aws/S3Util.cpp
@@ -54,7 +54,7 @@ S3ObjectReference uriToObjectReference(std::string url) {
     // Matches "bucket.s3.region.amazonaws.com" or
     // "bucket.s3-region.amazonaws.com"
     static const re2::RE2 endpoint_pattern(
-        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws.com");
+        "^(?i)(.+)\\.s3[.-]([a-z0-9-]+)\\.amazonaws\\.com");
 
     // Sub-match 1: (bucket).s3.region.amazonaws.com
     // Sub-match 2: bucket.s3.(region).amazonaws.com
diff --git a/fbpcf/io/cloud_util/CloudFileUtil.cpp b/fbpcf/io/cloud_util/CloudFileUtil.cpp
index 0d1e7eb..9b889f8 100644
--- a/fbpcf/io/cloud_util/CloudFileUtil.cpp
+++ b/fbpcf/io/cloud_util/CloudFileUtil.cpp
@@ -37,9 +37,9 @@ CloudFileType getCloudFileType(const std::string& filePath) {
    *   4. gs://bucket-name/key-name
    */
   static const re2::RE2 s3Regex1(
-      "https://[a-z0-9.-]+.s3.[a-z0-9-]+.amazonaws.com/.+");
+      "https://[a-z0-9.-]+\\.s3\\.[a-z0-9-]+\\.amazonaws\\.com/.+");
   static const re2::RE2 s3Regex2(
-      "https://[a-z0-9.-]+.s3-[a-z0-9-]+.amazonaws.com/.+");
+      "https://[a-z0-9.-]+\\.s3-[a-z0-9-]+\\.amazonaws\\.com/.+");
 
   bool isS3File = re2::RE2::FullMatch(filePath, s3Regex1) ||
       re2::RE2::FullMatch(filePath, s3Regex2) || filePath.find("s3://", 0) == 0;
@@ -47,10 +47,10 @@ CloudFileType getCloudFileType(const std::string& filePath) {
     return CloudFileType::S3;
   }
 
-  static const re2::RE2 gcsRegex1("https://storage.cloud.google.com/.*");
+  static const re2::RE2 gcsRegex1("https://storage\\.cloud\\.google\\.com/.*");
   static const re2::RE2 gcsRegex2(
-      "https://[a-z0-9.-]+.storage.googleapis.com/.+");
-  static const re2::RE2 gcsRegex3("https://storage.googleapis.com/.*");
+      "https://[a-z0-9.-]+\\.storage\\.googleapis\\.com/.+");
+  static const re2::RE2 gcsRegex3("https://storage\\.googleapis\\.com/.*");
   bool isGCSFile = re2::RE2::FullMatch(filePath, gcsRegex1) ||
       re2::RE2::FullMatch(filePath, gcsRegex2) ||
       re2::RE2::FullMatch(filePath, gcsRegex3) ||
-- 
2.43.0


From e06949a35ceca2a3c93a98129837c8b85f428ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 13/32] fix: empty or reversed S3 byte ranges must not fetch
 the whole object

---
 fbpcf/io/S3FileManager.cpp           | 9 +++++++++
 fbpcf/io/cloud_util/S3FileReader.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/fbpcf/io/S3FileManager.cpp b/fbpcf/io/S3FileManager.cpp
index 0a7ed62..3c36a74 100644
--- a/fbpcf/io/S3FileManager.cpp
+++ b/fbpcf/io/S3FileManager.cpp
@@ -46,6 +46,15 @@ std::string S3FileManager::readBytes(
     std::size_t start,
     std::size_t end) {
   const auto& ref = fbpcf::aws::uriToObjectReference(fileName);
+  if (start > end) {
+    throw AwsException{
+        "Start byte: " + std::to_string(start) +
+        " is larger than the end: " + std::to_string(end)};
+  }
+  if (start == end) {
+    // an empty range can't be expressed as a closed interval
+    return "";
+  }
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
   // NOTE: The AWS API uses a closed interval [a, b] to request a range while
diff --git a/fbpcf/io/cloud_util/S3FileReader.cpp b/fbpcf/io/cloud_util/S3FileReader.cpp
index e6f5ec1..a2a07d8 100644
--- a/fbpcf/io/cloud_util/S3FileReader.cpp
+++ b/fbpcf/io/cloud_util/S3FileReader.cpp
@@ -19,6 +19,15 @@ std::string S3FileReader::readBytes(
     std::size_t start,
     std::size_t end) {
   const auto& ref = fbpcf::aws::uriToObjectReference(filePath);
+  if (start > end) {
+    throw AwsException{
+        "Start byte: " + std::to_string(start) +
+        " is larger than the end: " + std::to_string(end)};
+  }
+  if (start == end) {
+    // an empty range can't be expressed as a closed interval
+    return "";
+  }
   Aws::S3::Model::GetObjectRequest request;
   std::stringstream ss;
   // NOTE: The AWS API uses a closed interval [a, b] to request a range while
-- 
2.43.0


From 59c87339336b433e41373a2a3a39259739dfb0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:21 +0000
Subject: [PATCH 14/32] fix: local range reads must return every byte of the
 range

---
 fbpcf/io/LocalFileManager.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/fbpcf/io/LocalFileManager.cpp b/fbpcf/io/LocalFileManager.cpp
index 8b30a0a..ad22c51 100644
--- a/fbpcf/io/LocalFileManager.cpp
+++ b/fbpcf/io/LocalFileManager.cpp
@@ -87,19 +87,16 @@ std::string LocalFileManager::readBytes(
   auto validatedEnd = std::min(length, end);
   size_t bufferLength = validatedEnd - start;
 
-  char buffer[bufferLength + 1];
+  std::string buffer(bufferLength, '\0');
 
   // read data as a block:
-  if (is.readsome(buffer, bufferLength) != bufferLength) {
+  if (is.readsome(buffer.data(), bufferLength) != bufferLength) {
     throw PcfException{
         folly::sformat(
             "Hit exception when trying to read bytes from {}", fileName),
     };
   }
 
-  buffer[bufferLength] = '\0';
-
-  std::string s{buffer};
-  return s;
+  return buffer;
 }
 } // namespace fbpcf
-- 
2.43.0


From 6f9f1fbbf15cbaf6c62d2e7396c919419b5c122a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 15/32] fix: sums and differences of one-bit integers have no
 carry coming in

---
 fbpcf/frontend/Int_impl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..2d12136 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -110,6 +110,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
   Int<isSigned, width, isSecret || isSecretOther, schedulerId, usingBatch> rst;
 
   rst.data_[0] = data_.at(0) ^ other.data_.at(0);
+  if constexpr (width == 1) {
+    // the only bit has no carry coming in
+    return rst;
+  }
   auto carry = data_.at(0) & other.data_.at(0);
 
   for (int8_t i = 1; i < width - 1; i++) {
@@ -164,6 +168,10 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
   Int<isSigned, width, isSecret || isSecretOther, schedulerId, usingBatch> rst;
 
   rst.data_[0] = data_.at(0) ^ other.data_.at(0);
+  if constexpr (width == 1) {
+    // the only bit has no carry coming in
+    return rst;
+  }
   auto carry = !data_.at(0) & other.data_.at(0);
 
   for (int8_t i = 1; i < width - 1; i++) {
-- 
2.43.0


From 7b40993292d6fc2f5ac439088c5881f3abb9b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 16/32] fix: empty batches executed alone must have an empty
 result

---
 fbpcf/engine/SecretShareEngine.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.cpp b/fbpcf/engine/SecretShareEngine.cpp
index a1cdf77..82932d6 100644
--- a/fbpcf/engine/SecretShareEngine.cpp
+++ b/fbpcf/engine/SecretShareEngine.cpp
@@ -526,13 +526,14 @@ SecretShareEngine::computeAllScheduledOperations(
 
     if (normalTupleCount == 0 && compositeTupleCount.empty() &&
         integerTupleCount == 0) {
+      // whatever is scheduled is empty, and so is its result
       return {
           std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
+          std::vector<std::vector<bool>>(batchAnds.size()),
           std::vector<std::vector<bool>>(),
           std::vector<std::vector<std::vector<bool>>>(),
           std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+          std::vector<std::vector<uint64_t>>(batchMults.size())};
     }
 
     auto [normalTuples, compositeTuples] =
@@ -592,13 +593,19 @@ SecretShareEngine::computeAllScheduledOperations(
     }
 
     if (normalTupleCount == 0 && integerTupleCount == 0) {
+      // whatever is scheduled is empty, and so is its result
+      std::vector<std::vector<std::vector<bool>>> batchCompositeResults;
+      for (auto& batchCompositeAnd : batchCompositeAnds) {
+        batchCompositeResults.push_back(std::vector<std::vector<bool>>(
+            batchCompositeAnd.getRights().size()));
+      }
       return {
           std::vector<bool>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<bool>>(),
-          std::vector<std::vector<std::vector<bool>>>(),
+          std::vector<std::vector<bool>>(batchAnds.size()),
+          std::vector<std::vector<bool>>(compositeAnds.size()),
+          std::move(batchCompositeResults),
           std::vector<uint64_t>(),
-          std::vector<std::vector<uint64_t>>()};
+          std::vector<std::vector<uint64_t>>(batchMults.size())};
     }
 
     auto tuples = tupleGenerator_->getBooleanTuple(normalTupleCount);
-- 
2.43.0


From 8e917d3b9e484abd55a8dada62c00c936ed7c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 17/32] fix: unsigned Intp subtraction and negation wrap at the
 width instead of rejecting values

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..33aae8f 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return Intp<isSigned, width>(subtract(0, v_));
     }
   }
 
@@ -83,14 +83,18 @@ class Intp {
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
   inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
+    if constexpr (isSigned) {
+      if (v > kMax) {
+        return v - kOffSet;
+      } else if (v < kMin) {
         return v + kOffSet;
       }
+      return v;
+    } else {
+      // v may be off by more than one offset, e.g. when a subtraction wrapped
+      // around in the native type.
+      return v & kMax;
     }
-    return v;
   }
 
  private:
-- 
2.43.0


From a403a0612bdad18f63ac89e2e33ecac1a33eaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 18/32] fix: Intp convertToBits does not write past its width
 for negative values

---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 33aae8f..7714c29 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -161,7 +161,8 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    // a negative value is sign-extended beyond its width
+    for (size_t t = 0; t < width && tmp > 0; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From df557311d8d01a3b8f97f4b0c7c6aec4433e8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 19/32] fix: S2V follows RFC 5297 (big-endian doubling, only
 for inputs shorter than a block)

---
 fbpcf/primitive/mac/S2v.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/fbpcf/primitive/mac/S2v.cpp b/fbpcf/primitive/mac/S2v.cpp
index 8d687b6..5a96450 100644
--- a/fbpcf/primitive/mac/S2v.cpp
+++ b/fbpcf/primitive/mac/S2v.cpp
@@ -15,22 +15,21 @@ __m128i S2v::getMacM128i(const std::vector<unsigned char>& text) const {
 
 std::vector<unsigned char> S2v::getMac128(
     const std::vector<unsigned char>& text) const {
-  __m128i rb = _mm_set_epi64x(0, rb_nonce);
   std::vector<unsigned char> textCopy(text);
   std::vector<unsigned char> initialBlock(16);
 
-  __m128i initalMac = mac_->getMacM128i(initialBlock);
+  initialBlock = mac_->getMac128(initialBlock);
 
-  // dbl
-  bool msb = engine::util::getMsb(initalMac);
-  engine::util::lShiftByBitsInPlace(initalMac, 1);
-  if (msb) {
-    initalMac = _mm_xor_si128(initalMac, rb);
-  }
-  _mm_storeu_si128((__m128i*)initialBlock.data(), initalMac);
-
-  // pad
+  // dbl and pad, only for inputs shorter than a block
   if (textCopy.size() < 16) {
+    // the block is a big-endian number: its first byte is the most significant
+    unsigned char carry = initialBlock.at(0) >> 7;
+    for (size_t i = 0; i < 15; ++i) {
+      initialBlock.at(i) =
+          (initialBlock.at(i) << 1) | (initialBlock.at(i + 1) >> 7);
+    }
+    initialBlock.at(15) = (initialBlock.at(15) << 1) ^ (carry ? rb_nonce : 0);
+
     textCopy.push_back(0x80);
     while (textCopy.size() < 16) {
       textCopy.push_back(0x00);
-- 
2.43.0


From b668cf974ef8a4663df7da2804edd515c524e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 20/32] fix: metric recorders registered under one name are all
 reported

---
 fbpcf/util/MetricCollector.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fbpcf/util/MetricCollector.h b/fbpcf/util/MetricCollector.h
index fce655d..18944a4 100644
--- a/fbpcf/util/MetricCollector.h
+++ b/fbpcf/util/MetricCollector.h
@@ -22,7 +22,13 @@ class MetricCollector {
   void addNewRecorder(
       std::string name,
       std::shared_ptr<IMetricRecorder> recorder) {
-    recorders_.emplace(name, recorder);
+    // several recorders may come under one name, e.g. one per peer; none of
+    // them may get lost.
+    auto key = name;
+    for (size_t i = 2; recorders_.count(key) != 0; i++) {
+      key = name + "_" + std::to_string(i);
+    }
+    recorders_.emplace(key, recorder);
   }
 
   folly::dynamic collectMetrics() const {
-- 
2.43.0


From bffbc2ffa4657595f89a5d696c61e6f112c82b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:12 +0000
Subject: [PATCH 21/32] fix: compaction with no labelled item gives an empty
 batch

---
 fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
index 596f58c..2e75cd1 100644
--- a/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
+++ b/fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h
@@ -89,6 +89,19 @@ class ShuffleBasedCompactor final
       }
     }
 
+    if (compactifiedSrc.empty()) {
+      // no item is labeled as 1, the result is an empty batch.
+      auto emptyPrefix = std::make_shared<std::vector<uint32_t>>(
+          std::vector<uint32_t>{0, size});
+      compactifiedSrc.push_back(util::MpcAdapters<T, schedulerId>::unbatching(
+                                    shuffledSrc, emptyPrefix)
+                                    .at(0));
+      compactifiedLabel.push_back(
+          util::MpcAdapters<LabelT, schedulerId>::unbatching(
+              shuffledLabel, emptyPrefix)
+              .at(0));
+    }
+
     // rebatch
     auto rstLabel = util::MpcAdapters<LabelT, schedulerId>::batchingWith(
         compactifiedLabel.at(0),
-- 
2.43.0


From fbbdb0ab4b92f4b73421dce3c427cbd66c66d2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 22/32] fix: ORAM mappings holding a tuple without values can
 be decoded

---
 fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
index 3efe5b1..34b0b56 100644
--- a/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
+++ b/fbpcf/mpc_std_lib/oram/encoder/OramDecoder.cpp
@@ -16,7 +16,10 @@ OramDecoder::OramDecoder(std::unique_ptr<OramMappingConfig> config) {
   for (const auto& singleMapping : config->getBreakdownMapping()) {
     // parse the key into a vector of uint values
     std::vector<std::string> tuple(0);
-    folly::split(',', singleMapping.first, tuple);
+    // the key of a tuple without any values is empty and has nothing to parse
+    if (!singleMapping.first.empty()) {
+      folly::split(',', singleMapping.first, tuple);
+    }
     std::vector<uint32_t> converted(tuple.size());
     std::transform(
         tuple.begin(), tuple.end(), converted.begin(), [](std::string str) {
-- 
2.43.0


From 5dcd3306982f9b08f2e83f2e3c829333a66935bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 23/32] fix: rows with 64-bit indexes must not be taken for one
 another

---
 .../unified_data_process/data_processor/UdpEncryption.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
index d6bb054..f76d6fd 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpEncryption.h
@@ -84,7 +84,7 @@ class UdpEncryption final : public IUdpEncryption {
   // this map records the index-to-order map, the i-th row in peer's input
   // should be indexToOrderMap_.at(i)-th in the encryption result, if i is in
   // this map.
-  std::map<int32_t, int32_t> indexToOrderMap_;
+  std::map<uint64_t, size_t> indexToOrderMap_;
 
   // the vector of cherry-picked data of matched user, the three vectors
   // consists of ciphertext, nonce, and index, respectively. We need to save the
-- 
2.43.0


From 411fb5f6f8c3beff07d81015a63f710efac4e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:04 +0000
Subject: [PATCH 24/32] fix: rows encrypted from an index offset must be
 numbered from it

---
 .../mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
index f40eac5..5b91b09 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
+++ b/fbpcf/mpc_std_lib/unified_data_process/data_processor/UdpUtil.cpp
@@ -35,7 +35,7 @@ UdpUtil::localEncryption(
     __m128i prgKey,
     uint64_t indexOffset) {
   std::vector<uint64_t> indexes(plaintextData.size());
-  std::iota(indexes.begin(), indexes.end(), 0);
+  std::iota(indexes.begin(), indexes.end(), indexOffset);
   return localEncryption(plaintextData, prgKey, indexes);
 }
 
-- 
2.43.0


From 66a43fc52222eb4b6031c2cd183c3576c9fe8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 25/32] fix: packed bit columns must reject data that does not
 fit them

---
 .../serialization/PackedBitFieldColumn.h        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
index be82105..d75e066 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/serialization/PackedBitFieldColumn.h
@@ -60,7 +60,24 @@ class PackedBitFieldColumn : public IColumnDefinition<schedulerId> {
         std::get<std::reference_wrapper<std::vector<NativeType>>>(inputData)
             .get();
 
+    if (bitPack.size() != writeBuffers.size()) {
+      std::string err = folly::sformat(
+          "Invalid number of values for column {}. Got {} values but number of rows should be {} ",
+          columnName_,
+          bitPack.size(),
+          writeBuffers.size());
+      throw std::runtime_error(err);
+    }
+
     for (size_t i = 0; i < writeBuffers.size(); i++) {
+      if (bitPack[i].size() != subColumnNames_.size()) {
+        std::string err = folly::sformat(
+            "Invalid number of bits at index {}. Got {} bits but number of sub columns is {}",
+            i,
+            bitPack[i].size(),
+            subColumnNames_.size());
+        throw std::runtime_error(err);
+      }
       unsigned char toWrite = 0;
       for (size_t j = 0; j < bitPack[i].size(); j++) {
         toWrite |= (bitPack[i][j] << j);
-- 
2.43.0


From 6066075b32cdc3c11d7dd0266bdd7a1122ecc631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:33 +0000
Subject: [PATCH 26/32] fix: secret rows of another width than the row
 structure must be rejected

---
 .../serialization/RowStructureDefinition.h                  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h b/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
index 9985551..de31144 100644
--- a/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
+++ b/fbpcf/mpc_std_lib/unified_data_process/serialization/RowStructureDefinition.h
@@ -193,6 +193,12 @@ class RowStructureDefinition : public IRowStructureDefinition<schedulerId> {
       const SecString& secretSharedData) const override {
     std::vector<std::vector<bool>> secretSharedBits =
         secretSharedData.extractStringShare().getValue();
+    if (secretSharedBits.size() != getRowSizeBytes() * 8) {
+      throw std::runtime_error(folly::sformat(
+          "Mismatch between the row size. Got {} bits but the row structure has {} bytes",
+          secretSharedBits.size(),
+          getRowSizeBytes()));
+    }
     secretSharedBits = transpose(secretSharedBits);
     std::vector<std::vector<unsigned char>> secretSharedBytes(0);
     secretSharedBytes.reserve(secretSharedBits.size());
-- 
2.43.0


From 7eee472efef5e93dc85050f1c7741ee3255213ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:35 +0000
Subject: [PATCH 27/32] fix: feature columns of different lengths must be
 rejected

---
 .../walr_multiplication/OTBasedMatrixMultiplication_impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
index efa1987..6a94c18 100644
--- a/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
+++ b/fbpcf/mpc_std_lib/walr_multiplication/OTBasedMatrixMultiplication_impl.h
@@ -44,6 +44,13 @@ std::vector<double> OTBasedMatrixMultiplication<schedulerId, FixedPointType>::
         std::to_string(std::numeric_limits<uint32_t>::max()) + " rows.");
   }
 
+  for (const auto& column : features) {
+    if (column.size() != nFeatures) {
+      throw std::invalid_argument(
+          "Columns of the feature matrix have different sizes.");
+    }
+  }
+
   // Extracting label before running COTwRM to help the other party
   // extract its label share, which will be used as choice bit
   auto extractedLabels = labels.extractBit().getValue();
-- 
2.43.0


From 0988455350632d53661ffcdb6f1a0e71d3f779a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 28/32] fix: incomplete transfers over a socket must fail, not
 be taken as data

---
 .../SocketPartyCommunicationAgent.cpp         | 35 ++++++++++++-------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..018327d 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -122,17 +122,19 @@ SocketPartyCommunicationAgent::~SocketPartyCommunicationAgent() {
 }
 
 void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
-  size_t bytesWritten;
-  if (!ssl_) {
-    bytesWritten = fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_);
-  } else {
-    bytesWritten = SSL_write(ssl_, data, nBytes);
-  }
-  assert(bytesWritten == nBytes);
-  recorder_->addSentData(bytesWritten);
-  if (!ssl_) {
-    fflush(outgoingPort_);
+  // an empty message needs no transfer
+  if (nBytes > 0) {
+    if (!ssl_) {
+      if (fwrite(data, sizeof(unsigned char), nBytes, outgoingPort_) !=
+              static_cast<size_t>(nBytes) ||
+          fflush(outgoingPort_) != 0) {
+        throw std::runtime_error("error on sending data");
+      }
+    } else if (SSL_write(ssl_, data, nBytes) != nBytes) {
+      throw std::runtime_error("error on sending data");
+    }
   }
+  recorder_->addSentData(nBytes);
 }
 
 void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
@@ -145,14 +147,21 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
     // can cause issues at the application level. We need to make sure that
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
-    while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+    while (bytesRead < static_cast<size_t>(nBytes)) {
+      auto result = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (result <= 0) {
+        // the connection is closed or broken, no more data will arrive
+        break;
+      }
+      bytesRead += result;
     }
   }
-  assert(bytesRead == nBytes);
+  if (bytesRead != static_cast<size_t>(nBytes)) {
+    throw std::runtime_error("error on receiving data");
+  }
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From 509bd2708d3c5aeb6d9ddc76f4caa9fb108fdd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 29/32] fix: destroying an AsyncBuffer whose generation failed
 must not end the process

---
 fbpcf/engine/util/AsyncBuffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fbpcf/engine/util/AsyncBuffer.h b/fbpcf/engine/util/AsyncBuffer.h
index b8927f8..50d6314 100644
--- a/fbpcf/engine/util/AsyncBuffer.h
+++ b/fbpcf/engine/util/AsyncBuffer.h
@@ -31,7 +31,11 @@ class AsyncBuffer {
   }
 
   ~AsyncBuffer() {
-    futureBuffer_.get();
+    // Only wait for work in progress: a failed generation has nobody left to be
+    // reported to, and throwing from here would end the process.
+    if (futureBuffer_.valid()) {
+      futureBuffer_.wait();
+    }
   }
 
   std::vector<T> getData(uint64_t size) {
-- 
2.43.0


From d73190d5f5dfbda2cfc96fc7da1c512e2eb77a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 30/32] fix: the hex form of a received curve point must be
 zero-terminated

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..1954a08 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -76,7 +76,7 @@ NpBaseObliviousTransfer::PointPointer NpBaseObliviousTransfer::receivePoint()
   size_t size = agent_->receiveSingleT<size_t>();
   auto tmp = agent_->receiveT<char>(size);
   tmp.resize(size + 1);
-  tmp[size] = ('\n');
+  tmp[size] = '\0';
   // Create a CTX variable. CTX variables are used as temporary variable for
   // many Openssl functions.
   std::unique_ptr<BN_CTX, std::function<void(BN_CTX*)>> ctx(
-- 
2.43.0


From bfe19af237394f740f9df5bbab4115636bf4c140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 31/32] fix: a failed tuple generation step must not leave the
 other kind waiting forever

---
 .../TwoPartyTupleGenerator.cpp                | 38 +++++++++++++++++--
 .../tuple_generator/TwoPartyTupleGenerator.h  |  2 +
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
index ddef570..2cde324 100644
--- a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
+++ b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.cpp
@@ -34,7 +34,14 @@ TwoPartyTupleGenerator::TwoPartyTupleGenerator(
               toGenerate_.push_back(Boolean);
             }
             return std::async(
-                [this](uint64_t size) { return generateNormalTuples(size); },
+                [this](uint64_t size) {
+                  try {
+                    return generateNormalTuples(size);
+                  } catch (...) {
+                    failSchedule();
+                    throw;
+                  }
+                },
                 size);
           }},
       rcotBuffer_{bufferSize, [this](uint64_t size) {
@@ -44,7 +51,12 @@ TwoPartyTupleGenerator::TwoPartyTupleGenerator(
                     }
                     return std::async(
                         [this](uint64_t size) {
-                          return generateRcotResults(size);
+                          try {
+                            return generateRcotResults(size);
+                          } catch (...) {
+                            failSchedule();
+                            throw;
+                          }
                         },
                         size);
                   }} {}
@@ -97,11 +109,24 @@ TwoPartyTupleGenerator::getNormalAndCompositeBooleanTuples(
   return std::make_pair(std::move(normalTuples), std::move(compositeTuples));
 }
 
+void TwoPartyTupleGenerator::failSchedule() {
+  // The steps queued behind a failed one must not wait for it forever, nor use
+  // correlations that may no longer match those of the other party.
+  std::lock_guard<std::mutex> lock(scheduleMutex_);
+  scheduleFailed_ = true;
+  cv_.notify_all();
+}
+
 std::vector<ITupleGenerator::BooleanTuple>
 TwoPartyTupleGenerator::generateNormalTuples(uint64_t size) {
   {
     std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
-    cv_.wait(scheduleLock, [this] { return toGenerate_.front() == Boolean; });
+    cv_.wait(scheduleLock, [this] {
+      return scheduleFailed_ || toGenerate_.front() == Boolean;
+    });
+    if (scheduleFailed_) {
+      throw std::runtime_error("An earlier tuple generation step has failed.");
+    }
   }
 
   auto receiverMessagesFuture =
@@ -125,7 +150,12 @@ std::vector<std::pair<__m128i, __m128i>>
 TwoPartyTupleGenerator::generateRcotResults(uint64_t size) {
   {
     std::unique_lock<std::mutex> scheduleLock(scheduleMutex_);
-    cv_.wait(scheduleLock, [this] { return toGenerate_.front() == Composite; });
+    cv_.wait(scheduleLock, [this] {
+      return scheduleFailed_ || toGenerate_.front() == Composite;
+    });
+    if (scheduleFailed_) {
+      throw std::runtime_error("An earlier tuple generation step has failed.");
+    }
   }
   auto receiverMessagesFuture =
       std::async([size, this]() { return receiverRcot_->rcot(size); });
diff --git a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
index 4c43730..07c3248 100644
--- a/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h
@@ -62,6 +62,7 @@ class TwoPartyTupleGenerator final : public ITupleGenerator {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override;
 
  private:
+  void failSchedule();
   inline std::vector<BooleanTuple> generateNormalTuples(uint64_t size);
   inline std::vector<std::pair<__m128i, __m128i>> generateRcotResults(
       uint64_t size);
@@ -95,6 +96,7 @@ class TwoPartyTupleGenerator final : public ITupleGenerator {
   std::mutex scheduleMutex_;
   std::condition_variable cv_;
   std::deque<ScheduledTupleType> toGenerate_;
+  bool scheduleFailed_ = false;
 
   util::AsyncBuffer<BooleanTuple> booleanTupleBuffer_;
   util::AsyncBuffer<std::pair<__m128i, __m128i>> rcotBuffer_;
-- 
2.43.0


From 9444989a089fa09e8d6a2899802abb7aaf85b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 32/32] fix: an engine's traffic statistics must include its
 integer tuples and must not throw without boolean ones

---
 fbpcf/engine/SecretShareEngine.h                  | 6 ++++--
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..faf9d26 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0

