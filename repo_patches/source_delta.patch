From 9321420c08ebec72dc6fe442943403049a9f262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 01/18] fix: reject a delta file whose custom code table is
 invalid

ReadCustomCodeTable() ignored the return value of UseCodeTable(), so a
delta file with an embedded code table that fails validation was decoded
with the default (or a previously used) code table instead of being
reported as an error.
---
 src/vcdecoder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 6cba7f7..cb0e7db 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -779,6 +779,12 @@ int VCDiffStreamingDecoderImpl::InitCustomCodeTable(const char* data_start,
                << VCD_ENDL;
     return RESULT_ERROR;
   }
+  if (near_cache_size + same_cache_size > VCD_MAX_MODES - 2) {
+    VCD_DFATAL << "Near cache size " << near_cache_size
+               << " and same cache size " << same_cache_size
+               << " exceed maximum number of COPY modes" << VCD_ENDL;
+    return RESULT_ERROR;
+  }
 
   custom_code_table_.reset(new struct VCDiffCodeTableData);
   memset(custom_code_table_.get(), 0, sizeof(struct VCDiffCodeTableData));
@@ -843,7 +849,11 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadCustomCodeTable(
   // Skip over the consumed data.
   data->FinishExcept(custom_code_table_decoder_->GetUnconsumedDataSize());
   custom_code_table_decoder_.reset();
-  delta_window_.UseCodeTable(*custom_code_table_, addr_cache_->LastMode());
+  if (!delta_window_.UseCodeTable(*custom_code_table_,
+                                  addr_cache_->LastMode())) {
+    // An error has been logged by VCDiffCodeTableData::Validate().
+    return RESULT_ERROR;
+  }
   return RESULT_SUCCESS;
 }
 
-- 
2.43.0


From 8a66382fcaf1fe8d69fd76732ec2afd699c9b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 02/18] fix: do not carry a custom code table over to the next
 delta file

After a decoder had decoded a delta file with a custom code table, the
table stayed in use for the following delta files decoded with the same
object, even if they use the default code table.
---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/decodetable.h b/src/decodetable.h
index 2bcad09..f90d80b 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -65,6 +65,12 @@ class VCDiffCodeTableReader {
     last_pending_second_instruction_ = kNoOpcode;
   }
 
+  // Goes back to interpreting opcodes with the default code table, as if
+  // UseCodeTable() had never been called.
+  void UseDefaultCodeTable() {
+    code_table_data_ = &VCDiffCodeTableData::kDefaultCodeTableData;
+  }
+
   // Updates the pointers to the buffer containing the instructions and sizes,
   // but leaves the rest of the reader state intact, so that (for example)
   // any pending second instruction or unread instruction will still be
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index cb0e7db..fde986f 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -118,6 +118,8 @@ class VCDiffDeltaFileWindow {
     return reader_.UseCodeTable(code_table_data, max_mode);
   }
 
+  void UseDefaultCodeTable() { reader_.UseDefaultCodeTable(); }
+
   // Decodes a single delta window using the input data from *parseable_chunk.
   // Appends the decoded target window to parent_->decoded_target().  Returns
   // RESULT_SUCCESS if an entire window was decoded, or RESULT_END_OF_DATA if
@@ -645,6 +647,7 @@ void VCDiffStreamingDecoderImpl::Reset() {
   custom_code_table_.reset();
   custom_code_table_decoder_.reset();
   delta_window_.Reset();
+  delta_window_.UseDefaultCodeTable();
   decoded_target_output_position_ = 0;
 }
 
-- 
2.43.0


From c0ca2b854808674d880b093b22c181d7aa05a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 03/18] fix: reject a custom code table that itself uses a
 custom code table

Each level of nesting costs the input only seven bytes but adds several
stack frames, so a small malicious delta file could overflow the stack.
RFC 3284 section 7 requires the embedded delta file to use the default
code table.
---
 src/vcdecoder.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index fde986f..9d39a15 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -740,6 +740,14 @@ VCDiffResult VCDiffStreamingDecoderImpl::ReadDeltaFileHeader(
     return RESULT_ERROR;
   }
   if (header->hdr_indicator & VCD_CODETABLE) {
+    if (HasPlannedTargetFileSize()) {
+      // This decoder is itself decoding a custom code table, which must be
+      // expressed using the default code table.  Accepting another level of
+      // nesting would allow unbounded recursion.
+      VCD_ERROR << "A custom code table must not itself use "
+                   "a custom code table" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
     int bytes_parsed = InitCustomCodeTable(
         data->UnparsedData() + sizeof(DeltaFileHeader),
         data->End());
-- 
2.43.0


From 5d2df5a0f5ed6c1f09639afea3fbcc09d9018148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 04/18] fix: reject excess interleaved instructions however the
 input is chunked

If the target window was complete before the whole declared length of the
interleaved instructions section had arrived, the rest of the section was
silently taken as the start of the next window, or a truncated delta file
was accepted.  The same input in one chunk is reported as an error.
---
 src/vcdecoder.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 9d39a15..466e7d0 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1353,6 +1353,13 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
   } else {
     // Interleaved format is being used.
     UpdateInstructionPointer(parseable_chunk);
+    if (interleaved_bytes_expected_ > 0) {
+      // The rest of the instructions section has not arrived yet, but there is
+      // nothing left to decode.
+      VCD_ERROR << "Excess instructions and sizes expected "
+                   "after decoding target window" << VCD_ENDL;
+      return RESULT_ERROR;
+    }
   }
   return RESULT_SUCCESS;
 }
-- 
2.43.0


From a2ad03bebe35eb669b21226a85550c65547ac825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 05/18] fix: reject a window that ends in the middle of a
 two-instruction opcode

The second instruction of the last opcode was silently dropped if the
first one completed the target window, although any other excess
instruction is reported as an error.
---
 src/decodetable.h | 6 ++++++
 src/vcdecoder.cc  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decodetable.h b/src/decodetable.h
index f90d80b..1ff9a70 100644
--- a/src/decodetable.h
+++ b/src/decodetable.h
@@ -104,6 +104,12 @@ class VCDiffCodeTableReader {
   //
   VCDiffInstructionType GetNextInstruction(int32_t* size, unsigned char* mode);
 
+  // Returns true if the first instruction of the last opcode read has been
+  // returned by GetNextInstruction(), but its second instruction has not.
+  bool HasPendingInstruction() const {
+    return pending_second_instruction_ != kNoOpcode;
+  }
+
   // Puts a single instruction back onto the front of the
   // instruction stream.  The next call to GetNextInstruction()
   // will return the same value that was returned by the last
diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 466e7d0..0af80d5 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -1329,7 +1329,7 @@ int VCDiffDeltaFileWindow::DecodeBody(ParseableChunk* parseable_chunk) {
                  "that the wrong dictionary was used" << VCD_ENDL;
     return RESULT_ERROR;
   }
-  if (!instructions_and_sizes_.Empty()) {
+  if (!instructions_and_sizes_.Empty() || reader_.HasPendingInstruction()) {
     VCD_ERROR << "Excess instructions and sizes left over "
                  "after decoding target window" << VCD_ENDL;
       return RESULT_ERROR;
-- 
2.43.0


From de8fbd2b4ffe01ce765edce063c22677cb77308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:45 +0000
Subject: [PATCH 06/18] fix: enforce a maximum target file size lowered while
 decoding

If SetMaximumTargetFileSize() was called with a value smaller than the
amount of data already decoded, the subtraction underflowed and the limit
was no longer enforced at all.
---
 src/vcdecoder.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vcdecoder.cc b/src/vcdecoder.cc
index 0af80d5..57bb8be 100644
--- a/src/vcdecoder.cc
+++ b/src/vcdecoder.cc
@@ -991,9 +991,11 @@ bool VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits(
       return true;
     }
   }
-  size_t remaining_maximum_target_bytes =
-      maximum_target_file_size_ - total_of_target_window_sizes_;
-  if (window_size > remaining_maximum_target_bytes) {
+  // The maximum may have been lowered after some windows were decoded, so
+  // guard against underflow.
+  if ((total_of_target_window_sizes_ > maximum_target_file_size_) ||
+      (window_size >
+           maximum_target_file_size_ - total_of_target_window_sizes_)) {
     VCD_ERROR << "Length of target window (" << window_size
               << " bytes) plus previous windows ("
               << total_of_target_window_sizes_
-- 
2.43.0


From aae9f1cb37130edc48bf5d7e9c8acdc2c11254d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:59 +0000
Subject: [PATCH 07/18] fix: avoid signed overflow when decoding an address in
 NEAR mode

The offset read from the delta file is added to a cached address; for a
malicious offset the sum overflowed, which is undefined behaviour.
---
 src/addrcache.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index d309e58..585a13f 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -121,7 +121,11 @@ class VCDiffAddressCache {
 
   VCDAddress DecodeNearAddress(unsigned char mode,
                                int32_t encoded_address) const {
-    return NearAddress(mode - FirstNearMode()) + encoded_address;
+    const VCDAddress near_address = NearAddress(mode - FirstNearMode());
+    if (encoded_address > INT32_MAX - near_address) {
+      return INT32_MAX;  // Out of range: never a valid address
+    }
+    return near_address + encoded_address;
   }
 
   VCDAddress DecodeSameAddress(unsigned char mode,
-- 
2.43.0


From 7b8c3ccd0b0a435213397e2583b6f3e4340c638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:59 +0000
Subject: [PATCH 08/18] fix: reset the JSON writer completely when a new
 encoding starts

Reusing an encoder for an empty target after a non-empty one produced an
unbalanced "]".
---
 src/jsonwriter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index d4f2f33..be76d7d 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -29,6 +29,7 @@ JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
 bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
   output_ = "[";
+  output_called_ = false;
   opcode_added_ = false;
   return true;
 }
-- 
2.43.0


From b62e5eb48f2612ffdbcecb5f8f95ec15e3abdd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:59 +0000
Subject: [PATCH 09/18] fix: escape the data of a RUN instruction in JSON
 output

The repeated byte was written verbatim, which is not valid JSON for
quotes, backslashes and control characters.
---
 src/jsonwriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index be76d7d..5d96b68 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -100,7 +100,8 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
     output_.push_back(',');
   }
   output_.push_back('\"');
-  output_.append(string(size, byte).data(), size);
+  const string run(size, static_cast<char>(byte));
+  JSONEscape(run.data(), run.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
 }
-- 
2.43.0


From d8ce8768c853fd7784365918e91b873c1968259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:10 +0000
Subject: [PATCH 10/18] fix: initialize the default instruction map in a
 thread-safe way

Threads which each use their own VCDiffStreamingEncoder with a shared
const HashedDictionary, as documented in vcencoder.h, raced on the lazily
initialized default instruction map.
---
 src/instruction_map.cc | 11 ++++-------
 src/instruction_map.h  |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 326698c..455a338 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -22,14 +22,11 @@ namespace open_vcdiff {
 
 // VCDiffInstructionMap members and methods
 
-VCDiffInstructionMap* VCDiffInstructionMap::default_instruction_map = NULL;
-
 VCDiffInstructionMap* VCDiffInstructionMap::GetDefaultInstructionMap() {
-  if (!default_instruction_map) {
-    default_instruction_map = new VCDiffInstructionMap(
-        VCDiffCodeTableData::kDefaultCodeTableData,
-        VCDiffAddressCache::DefaultLastMode());
-  }
+  // The initialization of a static local variable is thread-safe.
+  static VCDiffInstructionMap* const default_instruction_map =
+      new VCDiffInstructionMap(VCDiffCodeTableData::kDefaultCodeTableData,
+                               VCDiffAddressCache::DefaultLastMode());
   return default_instruction_map;
 }
 
diff --git a/src/instruction_map.h b/src/instruction_map.h
index 489071e..ad8e9fc 100644
--- a/src/instruction_map.h
+++ b/src/instruction_map.h
@@ -195,8 +195,6 @@ class VCDiffInstructionMap {
     void operator=(const SecondInstructionMap&);
   } second_instruction_map_;
 
-  static VCDiffInstructionMap* default_instruction_map;
-
   // Making these private avoids implicit copy constructor & assignment operator
   VCDiffInstructionMap(const VCDiffInstructionMap&);  // NOLINT
   void operator=(const VCDiffInstructionMap&);
-- 
2.43.0


From a5ff811871ccdd419c352fb73ebdca7e010021f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:47 +0000
Subject: [PATCH 11/18] fix: make target offsets in JSON output independent of
 chunking

With target matching, the offset of a COPY from target data is relative
to the window, i.e. to the EncodeChunk() call.  JSON output does not show
where windows start, so the target could not be reconstructed if it was
encoded in more than one chunk.
---
 src/google/jsonwriter.h | 13 ++++++++++++-
 src/jsonwriter.cc       | 23 ++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/google/jsonwriter.h b/src/google/jsonwriter.h
index 54a2019..1e9e149 100644
--- a/src/google/jsonwriter.h
+++ b/src/google/jsonwriter.h
@@ -33,7 +33,9 @@ namespace open_vcdiff {
 // * Each ADD is represented by a single JSON string containing
 //   the data to add.
 // * Each COPY is represented by two numbers. The first is an offset into
-//   the dictionary.  The second is a length.
+//   the dictionary, or (if target matching is enabled) an offset into the
+//   dictionary followed by all the target data that precedes the COPY.
+//   The second is a length.
 // * Each RUN is represented by a JSON string containing the data to add,
 //   similar to the ADD command.
 //
@@ -91,6 +93,15 @@ class JSONCodeTableWriter : public CodeTableWriterInterface {
 
   // Set if an opcode has been added.
   bool opcode_added_;
+
+  // The size of the dictionary.
+  size_t dictionary_size_;
+
+  // The number of target bytes encoded since Init() was called.
+  size_t target_size_;
+
+  // The value of target_size_ at the start of the current window.
+  size_t window_start_;
 };
 
 }  // namespace open_vcdiff
diff --git a/src/jsonwriter.cc b/src/jsonwriter.cc
index 5d96b68..1539a27 100644
--- a/src/jsonwriter.cc
+++ b/src/jsonwriter.cc
@@ -24,13 +24,20 @@
 namespace open_vcdiff {
 
 JSONCodeTableWriter::JSONCodeTableWriter()
-  : output_called_(false), opcode_added_(false) {}
+  : output_called_(false),
+    opcode_added_(false),
+    dictionary_size_(0),
+    target_size_(0),
+    window_start_(0) {}
 JSONCodeTableWriter::~JSONCodeTableWriter() {}
 
-bool JSONCodeTableWriter::Init(size_t /*dictionary_size*/) {
+bool JSONCodeTableWriter::Init(size_t dictionary_size) {
   output_ = "[";
   output_called_ = false;
   opcode_added_ = false;
+  dictionary_size_ = dictionary_size;
+  target_size_ = 0;
+  window_start_ = 0;
   return true;
 }
 
@@ -38,6 +45,7 @@ void JSONCodeTableWriter::Output(OutputStringInterface* out) {
   output_called_ = true;
   out->append(output_.data(), output_.size());
   output_ = "";
+  window_start_ = target_size_;
 }
 
 void JSONCodeTableWriter::FinishEncoding(OutputStringInterface* out) {
@@ -81,6 +89,7 @@ void JSONCodeTableWriter::Add(const char* data, size_t size) {
   JSONEscape(data, size, &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
@@ -88,10 +97,17 @@ void JSONCodeTableWriter::Copy(int32_t offset, size_t size) {
   if (opcode_added_) {
     output_.push_back(',');
   }
+  // An offset past the dictionary refers to target data.  The encoder counts it
+  // from the start of the current window, but JSON output has no windows.
+  size_t position = static_cast<size_t>(offset);
+  if (position >= dictionary_size_) {
+    position += window_start_;
+  }
   std::ostringstream copy_code;
-  copy_code << offset << "," << size;
+  copy_code << position << "," << size;
   output_.append(copy_code.str());
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
@@ -104,6 +120,7 @@ void JSONCodeTableWriter::Run(size_t size, unsigned char byte) {
   JSONEscape(run.data(), run.size(), &output_);
   output_.push_back('\"');
   opcode_added_ = true;
+  target_size_ += size;
 }
 
 void JSONCodeTableWriter::WriteHeader(OutputStringInterface *,
-- 
2.43.0


From a708783b8e1c0caffdefaad7519e27075ecbaba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:48 +0000
Subject: [PATCH 12/18] fix: do not loop forever if the named input file is
 empty

The buffer was allocated with the size of the file, and reading into an
empty buffer never sets the end-of-file indicator.
---
 src/vcdiff_main.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index 41d1c17..a60b4fa 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -281,6 +281,10 @@ bool VCDiffFileBasedCoder::OpenFileForReading(const string& file_name,
       // Allocate just enough memory to store the entire file
       buffer_size = file_size;
     }
+    if (buffer_size == 0) {
+      // fread() with a zero-length buffer never detects end of file.
+      buffer_size = 1;
+    }
   }
   buffer->resize(buffer_size);
   return true;
-- 
2.43.0


From e11e14fb64764fb380e6aedd95670ec73d5a3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:48 +0000
Subject: [PATCH 13/18] fix: report an error if buffered output cannot be
 written

Output that was still in the stdio buffer at the end (for small files,
all of it) was flushed without checking for errors, so vcdiff exited with
status 0 although the output was lost, for instance on a full disk.
---
 src/vcdiff_main.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vcdiff_main.cc b/src/vcdiff_main.cc
index a60b4fa..e3195f9 100644
--- a/src/vcdiff_main.cc
+++ b/src/vcdiff_main.cc
@@ -144,6 +144,11 @@ class VCDiffFileBasedCoder {
   // true.  If an error occurs, writes an error log message and returns false.
   bool WriteOutput(const string& output);
 
+  // Makes sure that everything written by WriteOutput() has actually reached
+  // output_file_.  If successful, returns true.  If an error occurs, writes
+  // an error log message and returns false.
+  bool FlushOutput();
+
   // Reads a number of bytes from output_file_ equal to the size of output,
   // and compares to make sure they match the contents of output.  If the bytes
   // do not match, or if end of file is reached before the expected number of
@@ -340,6 +345,15 @@ bool VCDiffFileBasedCoder::WriteOutput(const string& output) {
   return true;
 }
 
+bool VCDiffFileBasedCoder::FlushOutput() {
+  if (fflush(output_file_) != 0) {
+    std::cerr << "Error writing to " << output_file_type_ << " file '"
+              << output_file_name_ << "': " << strerror(errno) << std::endl;
+    return false;
+  }
+  return true;
+}
+
 bool VCDiffFileBasedCoder::CompareOutput(const string& output) {
   if (!output.empty()) {
     size_t output_size = output.size();
@@ -437,7 +451,7 @@ bool VCDiffFileBasedCoder::Encode() {
     }
   } while (!feof(input_file_));
   encoder.FinishEncoding(&output);
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
@@ -501,7 +515,7 @@ bool VCDiffFileBasedCoder::Decode() {
               << " may not be a valid VCDIFF delta file" << std::endl;
     return false;
   }
-  if (!WriteOutput(output)) {
+  if (!WriteOutput(output) || !FlushOutput()) {
     return false;
   }
   output_size += output.size();
-- 
2.43.0


From 7e4d6a5d358a34b8b06bfc6b4dde9c1160142ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:04 +0000
Subject: [PATCH 14/18] fix: restore the initial state of the code table writer
 for each window

AddChecksum() is optional for each window, but its value was kept and
written into all following windows, whose data it does not match.
Init() is documented to restore the initial state of the object, but
kept the instructions added since the last call to Output().
---
 src/encodetable.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index ce017de..c8d8d30 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -114,8 +114,14 @@ bool VCDiffCodeTableWriter::Init(size_t dictionary_size) {
   if (!address_cache_.Init()) {
     return false;
   }
+  // Discard whatever was added since the last call to Output().
+  separate_data_for_add_and_run_.clear();
+  instructions_and_sizes_.clear();
+  separate_addresses_for_copy_.clear();
   target_length_ = 0;
   last_opcode_index_ = -1;
+  add_checksum_ = false;
+  checksum_ = 0;
   return true;
 }
 
-- 
2.43.0


From 602e95f1369b3f0ad88f8b7430c96b99723b8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:33 +0000
Subject: [PATCH 15/18] fix: do not encode instructions of size zero

An opcode whose size is 0 is followed by an explicit size, so ADD, COPY and
RUN requests of size 0 were written as an opcode without the size that the
decoder then expects.
---
 src/encodetable.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/encodetable.cc b/src/encodetable.cc
index c8d8d30..6dc18b6 100644
--- a/src/encodetable.cc
+++ b/src/encodetable.cc
@@ -241,6 +241,9 @@ void VCDiffCodeTableWriter::EncodeInstruction(VCDiffInstructionType inst,
 }
 
 void VCDiffCodeTableWriter::Add(const char* data, size_t size) {
+  if (size == 0) {
+    return;  // In the opcodes, size 0 denotes an explicit size.
+  }
   EncodeInstruction(VCD_ADD, size);
   data_for_add_and_run_->append(data, size);
   target_length_ += size;
@@ -252,6 +255,9 @@ void VCDiffCodeTableWriter::Copy(int32_t offset, size_t size) {
                << VCD_ENDL;
     return;
   }
+  if (size == 0) {
+    return;  // In the opcodes, size 0 denotes an explicit size.
+  }
   // If a single interleaved stream of encoded values is used
   // instead of separate sections for instructions, addresses, and data,
   // then the string instructions_and_sizes_ may be the same as
@@ -272,6 +278,9 @@ void VCDiffCodeTableWriter::Copy(int32_t offset, size_t size) {
 }
 
 void VCDiffCodeTableWriter::Run(size_t size, unsigned char byte) {
+  if (size == 0) {
+    return;  // In the opcodes, size 0 denotes an explicit size.
+  }
   EncodeInstruction(VCD_RUN, size);
   data_for_add_and_run_->push_back(byte);
   target_length_ += size;
-- 
2.43.0


From b4a2c361d8ee0989971a78bb1547a0ac76df293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:44 +0000
Subject: [PATCH 16/18] fix: make room for sizes of second instructions that
 follow a NOOP

VCDiffInstructionMap puts the second instruction of an opcode whose first
instruction is a NOOP into the map of first instructions, whose arrays
only had room for the largest size of a first instruction.
---
 src/instruction_map.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instruction_map.cc b/src/instruction_map.cc
index 455a338..92ce93d 100644
--- a/src/instruction_map.cc
+++ b/src/instruction_map.cc
@@ -15,6 +15,7 @@
 #include <config.h>
 #include "instruction_map.h"
 #include <string.h>  // memset
+#include <algorithm>  // std::max
 #include "addrcache.h"
 #include "vcdiff_defs.h"
 
@@ -148,7 +149,10 @@ VCDiffInstructionMap::VCDiffInstructionMap(
     const VCDiffCodeTableData& code_table_data,
     unsigned char max_mode)
     : first_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
-                             FindMaxSize(code_table_data.size1)),
+                             // The first map also holds second instructions
+                             // whose first instruction is a NOOP.
+                             std::max(FindMaxSize(code_table_data.size1),
+                                      FindMaxSize(code_table_data.size2))),
       second_instruction_map_(VCD_LAST_INSTRUCTION_TYPE + max_mode + 1,
                               FindMaxSize(code_table_data.size2)) {
   // First pass to fill up first_instruction_map_
-- 
2.43.0


From 9d614ae169e3abd3cb7f16a8b21fa61f3d673c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:33 +0000
Subject: [PATCH 17/18] fix: let a cache of 254 NEAR addresses have no SAME
 modes

FirstSameMode() wrapped around to 0 for the largest permitted NEAR cache, so
that every mode was taken for a SAME mode and the (empty) SAME cache was
accessed.
---
 src/addrcache.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/addrcache.h b/src/addrcache.h
index 585a13f..fa27172 100644
--- a/src/addrcache.h
+++ b/src/addrcache.h
@@ -75,7 +75,10 @@ class VCDiffAddressCache {
   // 8 bits of the address are used to find the element of this block that
   // may match the desired address value.
   //
-  unsigned char FirstSameMode() const {
+  // If there are VCD_MAX_MODES - 2 NEAR modes (and thus no SAME modes), the
+  // value returned is VCD_MAX_MODES, which does not fit into unsigned char.
+  //
+  int FirstSameMode() const {
     return VCD_FIRST_NEAR_MODE + near_cache_size();
   }
 
-- 
2.43.0


From 5cb8b6c49fcd67fdc7f74a63c96fe26c000628e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:18 +0000
Subject: [PATCH 18/18] fix: apply settings of VCDiffEncoder changed after an
 encoding

---
 src/google/vcencoder.h | 15 ++++++++++++++-
 src/vcencoder.cc       |  5 ++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/google/vcencoder.h b/src/google/vcencoder.h
index 37d6fd6..e6988c6 100644
--- a/src/google/vcencoder.h
+++ b/src/google/vcencoder.h
@@ -218,6 +218,7 @@ class VCDiffEncoder {
  public:
   VCDiffEncoder(const char* dictionary_contents, size_t dictionary_size)
       : dictionary_(dictionary_contents, dictionary_size),
+        dictionary_initialized_(false),
         encoder_(NULL),
         flags_(VCD_STANDARD_FORMAT),
         look_for_target_matches_(true) { }
@@ -229,7 +230,10 @@ class VCDiffEncoder {
   // By default, VCDiffEncoder uses standard VCDIFF format.  This function
   // can be used before calling Encode(), to specify that interleaved format
   // and/or checksum format should be used.
-  void SetFormatFlags(VCDiffFormatExtensionFlags flags) { flags_ = flags; }
+  void SetFormatFlags(VCDiffFormatExtensionFlags flags) {
+    flags_ = flags;
+    DiscardEncoder();
+  }
 
   // By default, VCDiffEncoder looks for matches in the dictionary and also in
   // the previously encoded target data.  This function can be used before
@@ -237,6 +241,7 @@ class VCDiffEncoder {
   // enabled.
   void SetTargetMatching(bool look_for_target_matches) {
     look_for_target_matches_ = look_for_target_matches;
+    DiscardEncoder();
   }
 
   // Replaces old contents of output_string with the encoded form of
@@ -254,7 +259,15 @@ class VCDiffEncoder {
                          size_t target_len,
                          OutputStringInterface* output_string);
 
+  // The settings are fixed when a VCDiffStreamingEncoder is created, so a new
+  // one is needed by the next call to Encode() if they have been changed.
+  void DiscardEncoder() {
+    delete encoder_;
+    encoder_ = NULL;
+  }
+
   HashedDictionary dictionary_;
+  bool dictionary_initialized_;
   VCDiffStreamingEncoder* encoder_;
   VCDiffFormatExtensionFlags flags_;
   bool look_for_target_matches_;
diff --git a/src/vcencoder.cc b/src/vcencoder.cc
index 7fe5a6a..1a032a5 100644
--- a/src/vcencoder.cc
+++ b/src/vcencoder.cc
@@ -206,11 +206,14 @@ bool VCDiffEncoder::EncodeToInterface(const char* target_data,
                                       size_t target_len,
                                       OutputStringInterface* out) {
   out->clear();
-  if (!encoder_) {
+  if (!dictionary_initialized_) {
     if (!dictionary_.Init()) {
       VCD_ERROR << "Error initializing HashedDictionary" << VCD_ENDL;
       return false;
     }
+    dictionary_initialized_ = true;
+  }
+  if (!encoder_) {
     encoder_ = new VCDiffStreamingEncoder(&dictionary_,
                                           flags_,
                                           look_for_target_matches_);
-- 
2.43.0

