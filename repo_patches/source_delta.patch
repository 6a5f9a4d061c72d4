From 1af8f940ed258bf092848563c24fcb97a7d2dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:13 +0000
Subject: [PATCH 01/18] fix: stop using a previous delta's custom code table
 when a decoder is reused

---
 src/decodetable.cc | 4 ++++
 src/decodetable.h  | 5 +++++
 src/vcdecoder.cc   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/decodetable.cc b/src/decodetable.cc
index 486c6ed..aa17fa1 100644
--- a/src/decodetable.cc
+++ b/src/decodetable.cc
@@ -44,6 +44,10 @@ bool VCDiffCodeTableReader::UseCodeTable(
   return true;
 }
 
+void VCDiffCodeTableReader::UseDefaultCodeTable() {
+  code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+}
+
 VCDiffInstructionType VCDiffCodeTableReader::GetNextInstruction(
     int32_t* size,
     unsigned char* mode) {
diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..bd9dadf 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -51,6 +51,11 @@ class VCDiffCodeTableReader {
   bool UseCodeTable(const VCDiffCodeTableData& code_table_data,
                     unsigned char max_mode);
 
+  // Undoes the effect of UseCodeTable(): goes back to interpreting opcodes
+  // using the default code table.
+  //
+  void UseDefaultCodeTable();
+
   // Defines the buffer containing the instructions and sizes.
   // This method must be called before GetNextInstruction() may be used.
   // Init() may be called any number of times to reset the state of
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..0c36325 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,8 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  // A custom code table applies only to the delta file that defined it.
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From 8e7cbe244f7d2f416e40a92c774c071c9db05e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:52 +0000
Subject: [PATCH 02/18] fix: reject custom cache sizes that exceed the number
 of COPY modes

---
 src/vcdecoder.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 0c36325..f519061 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -790,8 +790,13 @@ int VCDiffStreamingDecoderImpl::InitCustomCodeTable(const char* data_start,
   addr_cache_.reset(new VCDiffAddressCache(
       static_cast<unsigned char>(near_cache_size),
       static_cast<unsigned char>(same_cache_size)));
-  // addr_cache_->Init() will be called
-  // from VCDiffStreamingDecoderImpl::DecodeChunk()
+  // addr_cache_->Init() will be called again for each window
+  // from VCDiffStreamingDecoderImpl::DecodeChunk(); calling it here verifies
+  // that the combination of cache sizes is valid before it is used.
+  if (!addr_cache_->Init()) {
+    VCD_DFATAL << "Error initializing address cache" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
 
   // If we reach this point (the start of the custom code table)
   // without encountering a RESULT_END_OF_DATA condition, then we won't call
-- 
2.43.0


From c914c1875835fe08eacb720d9930a63085b08a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:55 +0000
Subject: [PATCH 03/18] fix: reject a delta whose custom code table is invalid

---
 src/vcdecoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index f519061..8a03858 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -852,7 +852,11 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    VCD_ERROR << "Custom code table is invalid" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 2545090d48f74fcc7d16b759032ecaa33e846dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:58 +0000
Subject: [PATCH 04/18] fix: detect excess interleaved instructions that arrive
 in a later chunk

---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 8a03858..1fa8d4c 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1345,6 +1345,13 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (interleaved_bytes_expected_ > 0) {
+      // The rest of the instructions section has not been received yet,
+      // but there is no more target data to be decoded from it.
+      VCD_ERROR << "Excess instructions and sizes expected "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From e7b009aaab39ec21c258c452f3db2f04814bd6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:01 +0000
Subject: [PATCH 05/18] fix: do not nest custom code tables without limit

---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 1fa8d4c..86f2d56 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -741,6 +741,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This decoder is already being used to decode a custom code table, which
+      // must be encoded using the default code table.  Do not allow input data
+      // to nest decoders inside each other without limit.
+      VCD_ERROR << "Custom code table is itself encoded using "
+                   "a custom code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From b615100a037f76257629322e489cf556544b19a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:04 +0000
Subject: [PATCH 06/18] fix: reject a window that ends in the middle of a
 two-instruction opcode

---
 src/decodetable.h | 7 +++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index bd9dadf..67a6de8 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -103,6 +103,13 @@ class VCDiffCodeTableReader {
   //
   VCDiffInstructionType GetNextInstruction(int32_t* size, unsigned char* mode);
 
+  // Returns true if the most recently read opcode contained a second
+  // instruction which has not yet been returned by GetNextInstruction().
+  //
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
   // Puts a single instruction back onto the front of the
   // instruction stream.  The next call to GetNextInstruction()
   // will return the same value that was returned by the last
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 86f2d56..c2c6f3c 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1329,7 +1329,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (!instructions_and_sizes_.Empty() || reader_.HasPendingInstruction()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From 06e1f934e4a9394429310c0e7817c2fcbd0dfa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:58 +0000
Subject: [PATCH 07/18] fix: avoid signed overflow when decoding a NEAR address

---
 src/addrcache.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..c7f7c38 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -21,6 +21,7 @@
 #define OPEN_VCDIFF_ADDRCACHE_H_
 
 #include <config.h>
+#include <stdint.h>  // INT32_MAX
 #include <vector>
 #include "vcdiff_defs.h"  // VCDAddress
 
@@ -121,7 +122,12 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    const VCDAddress near_address = NearAddress(mode - FirstNearMode());
+    // The sum of two (non-negative) addresses might not be representable.
+    if (encoded_address > (INT32_MAX - near_address)) {
+      return RESULT_ERROR;
+    }
+    return near_address + encoded_address;
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From 55a282b1d7ef952ec69e6ec4b63d9eac94085e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:01 +0000
Subject: [PATCH 08/18] fix: size the first instruction map for (NOOP,
 instruction) opcodes

---
 src/instruction_map.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..9c1031d 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include "instruction_map.h"
 #include <string.h>  // memset
+#include <algorithm>  // std::max
 #include "addrcache.h"
 #include "vcdiff_defs.h"
 
@@ -151,7 +152,9 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // If inst1 is NOOP, then size2 is used instead.
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From 6129329d03f4a98657ab9e4c0ab010242cef3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:05 +0000
Subject: [PATCH 09/18] fix: create the default instruction map in a
 thread-safe way

---
 src/instruction_map.cc | 11 ++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 9c1031d..8064d9d 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -23,14 +23,11 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // The initialization of a function-local static object is thread-safe.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From e73e4d3d0937e821b62d68d0dd249b5b1cd9b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:09 +0000
Subject: [PATCH 10/18] fix: do not close a JSON array that was opened by an
 earlier encoding

---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From 129d801916f1e754d3e4272c91b214bc7f50f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:11 +0000
Subject: [PATCH 11/18] fix: escape the data of a RUN in JSON output

---
 src/jsonwriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..df15665 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From ceca2ff4e01384248086574885d0e9b9451b0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:16 +0000
Subject: [PATCH 12/18] fix: make JSON offsets of target data relative to the
 whole target

---
 src/google/jsonwriter.h |  9 +++++++++
 src/jsonwriter.cc       | 25 ++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/google/jsonwriter.h b/src/google/jsonwriter.h
index 54a2019..acad3b1 100644
--- a/src/google/jsonwriter.h
+++ b/src/google/jsonwriter.h
@@ -86,6 +86,15 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
   // Stores the JSON data before it is sent to the OutputString.
   string output_;
 
+  // The size of the dictionary, as given to Init().
+  size_t dictionary_size_;
+
+  // The total size of the target data encoded since Init() was called.
+  size_t target_length_;
+
+  // The value of target_length_ at the start of the current window.
+  size_t window_start_;
+
   // Set if some data has been output.
   bool output_called_;
 
diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index df15665..c8e0b0d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -24,10 +24,17 @@
 namespace open_vcdiff {
 
 JSONCodeTableWriter::JSONCodeTableWriter()
-  : output_called_(false), opcode_added_(false) {}
+  : dictionary_size_(0),
+    target_length_(0),
+    window_start_(0),
+    output_called_(false),
+    opcode_added_(false) {}
 JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
-bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
+bool JSONCodeTableWriter::Init(size_t dictionary_size) {
+  dictionary_size_ = dictionary_size;
+  target_length_ = 0;
+  window_start_ = 0;
   output_ = "[";
   output_called_ = false;
   opcode_added_ = false;
@@ -38,6 +45,8 @@ void JSONCodeTableWriter::Output(OutputStringInterface* out) {
   output_called_ = true;
   out->append(output_.data(), output_.size());
   output_ = "";
+  // Anything that follows belongs to the next window.
+  window_start_ = target_length_;
 }
 
 void JSONCodeTableWriter::FinishEncoding(OutputStringInterface* out) {
@@ -81,6 +90,7 @@ void JSONCodeTableWriter::Add(const char* data, size_t size) {
   JSONEscape(data, size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
@@ -88,10 +98,18 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
+  // If the offset refers to target data, it is relative to the start of the
+  // current window.  The JSON output is not divided into windows, so make it
+  // relative to the start of the entire target.
+  size_t json_offset = static_cast<size_t>(offset);
+  if (json_offset >= dictionary_size_) {
+    json_offset += window_start_;
+  }
   std::ostringstream copy_code;
-  copy_code << offset << "," << size;
+  copy_code << json_offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
@@ -103,6 +121,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
   JSONEscape(string(size, byte).data(), size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_length_ += size;
 }
 
 void JSONCodeTableWriter::WriteHeader(OutputStringInterface *,
-- 
2.43.0


From 12141d904fd0cef37fe2c5ec5d039ff6d73791ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 13/18] fix: handle empty target and delta files in vcdiff

---
 src/vcdiff_main.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..acb3013 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -278,8 +278,9 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
     }
     buffer_size = static_cast<size_t>(FLAGS_buffersize);
     if (file_size < buffer_size) {
-      // Allocate just enough memory to store the entire file
-      buffer_size = file_size;
+      // Allocate just enough memory to store the entire file, but never an
+      // empty buffer: the end of an empty file has to be read to be noticed.
+      buffer_size = (file_size > 0) ? file_size : 1;
     }
   }
   buffer->resize(buffer_size);
-- 
2.43.0


From f5ffc5c7a72f04774a0b181c00464c841087bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 14/18] fix: report errors that occur when vcdiff flushes its
 output

---
 src/vcdiff_main.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index acb3013..fd716a0 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that all the data passed to WriteOutput() has really been
+  // written to output_file_.  If successful, returns true.  If an error occurs,
+  // writes an error log message and returns false.
+  bool FlushOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -337,6 +342,15 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FlushOutput() {
+  if (fflush(output_file_) != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -434,7 +448,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
@@ -498,7 +512,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From 83b1c14dd4b40d6a1b561d82cfbe7ec46389d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:51 +0000
Subject: [PATCH 15/18] fix: StartEncoding that fails no longer leaves an
 earlier stream open

If a writer refused the dictionary (or failed to initialise) while an
earlier stream of the same encoder had not been finished, EncodeChunk and
FinishEncoding still succeeded although vcencoder.h documents that they
return false after a failed StartEncoding.
---
 src/vcencoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 7fe5a6a..da2d79a 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -118,6 +118,9 @@ inline VCDiffStreamingEncoderImpl::VCDiffStreamingEncoderImpl(
 
 inline bool VCDiffStreamingEncoderImpl::StartEncoding(
     OutputStringInterface* out) {
+  // If this fails, EncodeChunk() and FinishEncoding() must not be allowed,
+  // even if a previous stream was left unfinished.
+  encode_chunk_allowed_ = false;
   if (!coder_->Init(engine_->dictionary_size())) {
     VCD_DFATAL << "Internal error: "
                   "Initialization of code table writer failed" << VCD_ENDL;
-- 
2.43.0


From ec45f52c28f67725cacbecfdcb4533567657b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 16/18] fix: JSON offsets and lengths must not depend on the
 global locale

---
 src/jsonwriter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index c8e0b0d..b5188c8 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include <stdio.h>
 #include <string.h>
+#include <locale>
 #include <sstream>
 #include <string>
 #include "logging.h"
@@ -106,6 +107,8 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
     json_offset += window_start_;
   }
   std::ostringstream copy_code;
+  // Do not let a global locale that groups digits alter the numbers.
+  copy_code.imbue(std::locale::classic());
   copy_code << json_offset << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
-- 
2.43.0


From 7106500f1b0310cd9f406f362799e2fd05b058d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:49 +0000
Subject: [PATCH 17/18] fix: refuse dictionaries and chunks too large for
 32-bit addresses

Sizes and addresses are 32-bit signed integers, so a dictionary, or a
dictionary plus a target chunk, of 2 GiB or more gave a success result
and a delta file that could not be decoded.
---
 src/vcdiffengine.cc | 6 ++++++
 src/vcdiffengine.h  | 6 ++++++
 src/vcencoder.cc    | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/vcdiffengine.cc b/src/vcdiffengine.cc
index 0060867..cdd8622 100644
--- a/src/vcdiffengine.cc
+++ b/src/vcdiffengine.cc
@@ -47,6 +47,12 @@ bool VCDiffEngine::Init() {
                << VCD_ENDL;
     return false;
   }
+  if (dictionary_size() > kMaxWindowSize) {
+    VCD_ERROR << "Dictionary size (" << dictionary_size()
+              << ") is larger than the maximum of " << kMaxWindowSize
+              << VCD_ENDL;
+    return false;
+  }
   hashed_dictionary_ = BlockHash::CreateDictionaryHash(dictionary_,
                                                        dictionary_size());
   if (!hashed_dictionary_) {
diff --git a/src/vcdiffengine.h b/src/vcdiffengine.h
index 02ede2a..50f27d6 100644
--- a/src/vcdiffengine.h
+++ b/src/vcdiffengine.h
@@ -37,6 +37,12 @@ class VCDiffEngine {
   // aligned on block boundaries in the dictionary text.
   static const size_t kMinimumMatchSize = 32;
 
+  // The maximum sum of the sizes of the dictionary and of a target window.
+  // Addresses and sizes are expressed as 32-bit signed integers; this includes
+  // the size of the encoded window, which can be slightly larger than the
+  // target window if no matches are found.
+  static const size_t kMaxWindowSize = 0x7FFFFFFF - 1024;
+
   VCDiffEngine(const char* dictionary, size_t dictionary_size);
 
   ~VCDiffEngine();
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index da2d79a..cd5ece0 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -144,6 +144,13 @@ inline bool VCDiffStreamingEncoderImpl::EncodeChunk(
     VCD_ERROR << "EncodeChunk called before StartEncoding" << VCD_ENDL;
     return false;
   }
+  if ((engine_->dictionary_size() > VCDiffEngine::kMaxWindowSize) ||
+      (len > VCDiffEngine::kMaxWindowSize - engine_->dictionary_size())) {
+    VCD_ERROR << "Target chunk size (" << len << ") plus dictionary size ("
+              << engine_->dictionary_size() << ") is larger than the maximum of "
+              << VCDiffEngine::kMaxWindowSize << VCD_ENDL;
+    return false;
+  }
   if (!coder_->VerifyChunk(data, len)) {
     VCD_ERROR << "Target chunk not valid for writer" << VCD_ENDL;
     return false;
-- 
2.43.0


From 9733f73e1565126a26ac85c58437532ff452c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:45 +0000
Subject: [PATCH 18/18] fix: apply VCDiffEncoder settings that are changed
 after a call to Encode()

SetFormatFlags() and SetTargetMatching() were silently ignored once the
encoder had been used: the streaming encoder created by the first Encode()
call kept the old settings.
---
 src/google/vcencoder.h | 14 +++++++++++++-
 src/vcencoder.cc       |  5 ++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/google/vcencoder.h b/src/google/vcencoder.h
index 37d6fd6..18eeac4 100644
--- a/src/google/vcencoder.h
+++ b/src/google/vcencoder.h
@@ -219,6 +219,7 @@ class VCDiffEncoder {
   VCDiffEncoder(const char* dictionary_contents, size_t dictionary_size)
       : dictionary_(dictionary_contents, dictionary_size),
         encoder_(NULL),
+        dictionary_initialized_(false),
         flags_(VCD_STANDARD_FORMAT),
         look_for_target_matches_(true) { }
 
@@ -229,7 +230,10 @@ class VCDiffEncoder {
   // By default, VCDiffEncoder uses standard VCDIFF format.  This function
   // can be used before calling Encode(), to specify that interleaved format
   // and/or checksum format should be used.
-  void SetFormatFlags(VCDiffFormatExtensionFlags flags) { flags_ = flags; }
+  void SetFormatFlags(VCDiffFormatExtensionFlags flags) {
+    flags_ = flags;
+    DiscardEncoder();
+  }
 
   // By default, VCDiffEncoder looks for matches in the dictionary and also in
   // the previously encoded target data.  This function can be used before
@@ -237,6 +241,7 @@ class VCDiffEncoder {
   // enabled.
   void SetTargetMatching(bool look_for_target_matches) {
     look_for_target_matches_ = look_for_target_matches;
+    DiscardEncoder();
   }
 
   // Replaces old contents of output_string with the encoded form of
@@ -254,8 +259,15 @@ class VCDiffEncoder {
                          size_t target_len,
                          OutputStringInterface* output_string);
 
+  // The next call to Encode() will create an encoder using the current settings.
+  void DiscardEncoder() {
+    delete encoder_;
+    encoder_ = NULL;
+  }
+
   HashedDictionary dictionary_;
   VCDiffStreamingEncoder* encoder_;
+  bool dictionary_initialized_;
   VCDiffFormatExtensionFlags flags_;
   bool look_for_target_matches_;
 
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index cd5ece0..4d797b5 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -216,11 +216,14 @@ bool VCDiffEncoder::EncodeToInterface(const char* target_data,
                                       size_t target_len,
                                       OutputStringInterface* out) {
   out->clear();
-  if (!encoder_) {
+  if (!dictionary_initialized_) {
     if (!dictionary_.Init()) {
       VCD_ERROR << "Error initializing HashedDictionary" << VCD_ENDL;
       return false;
     }
+    dictionary_initialized_ = true;
+  }
+  if (!encoder_) {
     encoder_ = new VCDiffStreamingEncoder(&dictionary_,
                                           flags_,
                                           look_for_target_matches_);
-- 
2.43.0

