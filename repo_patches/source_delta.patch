From 6ac6f6add99539aff1de2ffe0ee82942abbdb384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 01/34] fix: an empty ChainedStream yields no fragment

When nothing was written, num_fragments() was 0, but iteration still yielded
one fragment, whose size was read from an uninitialized block.
---
 src/common/chained_stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..7a2f7ce 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,8 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  // Nothing was written, or everything was cleared.
+  if (num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From 136c4744435ff9ef4d6fb8b4c7090f5bb4c37df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 02/34] fix: free long fragment streams without recursion

A span's blocks, and the spans linked into one report, were freed by nested
destructors: a span of some ten megabytes, or a report of tens of thousands of
spans, overflowed the stack.
---
 src/common/chained_stream.cpp                   | 12 ++++++++++++
 src/common/chained_stream.h                     |  2 ++
 src/common/composable_fragment_input_stream.cpp | 12 ++++++++++++
 src/common/composable_fragment_input_stream.h   |  4 ++++
 4 files changed, 30 insertions(+)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 7a2f7ce..69bb6f4 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -8,6 +8,18 @@ namespace lightstep {
 //--------------------------------------------------------------------------------------------------
 ChainedStream::ChainedStream() noexcept : current_block_{&head_} {}
 
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ChainedStream::~ChainedStream() noexcept {
+  // Free the blocks one after another: leaving it to the members' destructors
+  // would recurse once for each block.
+  auto block = std::move(head_.next);
+  while (block != nullptr) {
+    block = std::move(block->next);
+  }
+}
+
 //--------------------------------------------------------------------------------------------------
 // CloseOutput
 //--------------------------------------------------------------------------------------------------
diff --git a/src/common/chained_stream.h b/src/common/chained_stream.h
index 5e921c0..6edcdae 100644
--- a/src/common/chained_stream.h
+++ b/src/common/chained_stream.h
@@ -23,6 +23,8 @@ class ChainedStream final : public google::protobuf::io::ZeroCopyOutputStream,
 
   ChainedStream() noexcept;
 
+  ~ChainedStream() noexcept override;
+
   /**
    * Close the stream for output. After calling this, we can no longer write to
    * the stream, but we can interact with it as a FragmentInputStream.
diff --git a/src/common/composable_fragment_input_stream.cpp b/src/common/composable_fragment_input_stream.cpp
index 91c11cc..665dd80 100644
--- a/src/common/composable_fragment_input_stream.cpp
+++ b/src/common/composable_fragment_input_stream.cpp
@@ -3,6 +3,18 @@
 #include <cassert>
 
 namespace lightstep {
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ComposableFragmentInputStream::~ComposableFragmentInputStream() noexcept {
+  // Free the linked streams one after another: leaving it to next_'s destructor
+  // would recurse once for each stream.
+  auto stream = std::move(next_);
+  while (stream != nullptr) {
+    stream = std::move(stream->next_);
+  }
+}
+
 //--------------------------------------------------------------------------------------------------
 // Append
 //--------------------------------------------------------------------------------------------------
diff --git a/src/common/composable_fragment_input_stream.h b/src/common/composable_fragment_input_stream.h
index 99b7a10..d1d5d50 100644
--- a/src/common/composable_fragment_input_stream.h
+++ b/src/common/composable_fragment_input_stream.h
@@ -10,6 +10,10 @@ namespace lightstep {
  */
 class ComposableFragmentInputStream : public FragmentInputStream {
  public:
+  ComposableFragmentInputStream() noexcept = default;
+
+  ~ComposableFragmentInputStream() noexcept override;
+
   /**
    * Append a ComposableFragmentInputStream.
    * @param stream the ComposableFragmentInputStream to append
-- 
2.43.0


From e9a164b0c60a6221b5dd382d19454e7b50fadbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 03/34] fix: count a report's header and metrics among its
 fragments

num_fragments() counted the spans' fragments only, while ForEachFragment also
yields the header and, if spans were dropped, the metrics: a transporter that
sizes an array by num_fragments() overran it.
---
 src/recorder/serialization/report_request.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..3e80096 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -8,6 +8,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
                              int num_dropped_spans)
     : header_{std::move(header)} {
   num_bytes_ = static_cast<int>(header_->size());
+  num_fragments_ = 1;
   if (num_dropped_spans == 0) {
     return;
   }
@@ -16,6 +17,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 73680cbbfc0da11f886832925c1aa0e30abbf5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 04/34] fix: keep JSON numbers decimal after an escaped control
 character

std::hex stuck to the stream, so integers following a control character in the
same document were written in hexadecimal.
---
 src/common/utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index dda85bc..a9c8039 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -77,7 +77,7 @@ static void WriteEscapedString(std::ostringstream& writer,
             c <= static_cast<signed char>('\x1f')) {
           writer << R"(\u)";
           writer << std::hex << std::setw(4) << std::setfill('0')
-                 << static_cast<int>(c);
+                 << static_cast<int>(c) << std::dec;
         } else {
           writer << c;
         }
-- 
2.43.0


From 20b26820e2429fee82b345998ffb60f4a5bb2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 05/34] fix: index the hex table with unsigned characters

---
 src/common/hex_conversion.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..7e32833 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
@@ -56,12 +56,14 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
 static void RemoveSurroundingWhitespace(const char*& i,
                                         const char*& last) noexcept {
   // Remove any leading spaces
-  while (i != last && static_cast<bool>(std::isspace(*i))) {
+  while (i != last &&
+         static_cast<bool>(std::isspace(static_cast<unsigned char>(*i)))) {
     ++i;
   }
 
   // Remove any trailing spaces
-  while (i != last && static_cast<bool>(std::isspace(*(last - 1)))) {
+  while (i != last && static_cast<bool>(std::isspace(
+                          static_cast<unsigned char>(*(last - 1))))) {
     --last;
   }
 }
-- 
2.43.0


From bb53f30f4b61806250b37d610ae16876064d4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 06/34] fix: index the base64 table with unsigned characters

---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From bb44ae2b22addf8701faa63602dd9e9da4c0c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 07/34] fix: JSON numbers don't depend on the global locale

---
 src/common/utility.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/utility.cpp b/src/common/utility.cpp
index a9c8039..fb439ca 100644
--- a/src/common/utility.cpp
+++ b/src/common/utility.cpp
@@ -4,6 +4,7 @@
 #include <cctype>
 #include <cmath>
 #include <iomanip>
+#include <locale>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -163,6 +164,8 @@ static void ToJson(std::ostringstream& writer,
 
 std::string ToJson(const opentracing::Value& value) {
   std::ostringstream writer;
+  // JSON numbers don't depend on the global locale
+  writer.imbue(std::locale::classic());
   writer.exceptions(std::ios::badbit | std::ios::failbit);
   ToJson(writer, value);
   return writer.str();
-- 
2.43.0


From 5c325315799092b1e2593848b69110d3db2f7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 08/34] fix: keep the cut span with its connection when a write
 fails midway

---
 .../stream_recorder/connection_stream.cpp     | 46 +++++++++++++------
 .../stream_recorder/connection_stream.h       |  2 +
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index 5567598..e4f03da 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -76,16 +76,19 @@ bool ConnectionStream::Flush(Writer writer) {
     return FlushShutdown(writer);
   }
   span_stream_.Allot();
-  if (span_remnant_ == nullptr) {
-    auto result = writer({&header_stream_, &span_stream_});
-    span_remnant_ = span_stream_.ConsumeRemnant();
-    return result;
-  }
-  auto result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_ = span_stream_.ConsumeRemnant();
+  bool result;
+  try {
+    if (span_remnant_ == nullptr) {
+      result = writer({&header_stream_, &span_stream_});
+    } else {
+      result = writer({&header_stream_, span_remnant_.get(), &span_stream_});
+    }
+  } catch (...) {
+    // The writer may have consumed part of the data before it failed.
+    UpdateSpanRemnant();
+    throw;
   }
+  UpdateSpanRemnant();
   return result;
 }
 
@@ -129,12 +132,27 @@ bool ConnectionStream::FlushShutdown(Writer writer) {
   if (span_remnant_ == nullptr) {
     return writer({&header_stream_, &terminal_stream_});
   }
-  auto result =
-      writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
-  if (span_remnant_->empty()) {
-    span_stream_.metrics().OnSpansSent(1);
-    span_remnant_.reset();
+  bool result;
+  try {
+    result = writer({&header_stream_, span_remnant_.get(), &terminal_stream_});
+  } catch (...) {
+    UpdateSpanRemnant();
+    throw;
   }
+  UpdateSpanRemnant();
   return result;
 }
+
+//--------------------------------------------------------------------------------------------------
+// UpdateSpanRemnant
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::UpdateSpanRemnant() noexcept {
+  if (span_remnant_ != nullptr) {
+    if (!span_remnant_->empty()) {
+      return;
+    }
+    span_stream_.metrics().OnSpansSent(1);
+  }
+  span_remnant_ = span_stream_.ConsumeRemnant();
+}
 }  // namespace lightstep
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index 4e80b4c..a04c023 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -79,5 +79,7 @@ class ConnectionStream {
   void InitializeStream();
 
   bool FlushShutdown(Writer writer);
+
+  void UpdateSpanRemnant() noexcept;
 };
 }  // namespace lightstep
-- 
2.43.0


From de724fa124f23c8b89bf6179bc50a2b9ad3f6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 09/34] fix: a connection closed by its peer raises no SIGPIPE

---
 src/common/platform/network_unix.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/platform/network_unix.cpp b/src/common/platform/network_unix.cpp
index 4d3e32b..ca5b8b1 100644
--- a/src/common/platform/network_unix.cpp
+++ b/src/common/platform/network_unix.cpp
@@ -32,7 +32,16 @@ int Read(FileDescriptor socket, void* data, size_t size) noexcept {
 // WriteV
 //--------------------------------------------------------------------------------------------------
 int WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {
+#ifdef MSG_NOSIGNAL
+  // Like writev, but a connection closed by the peer is reported as an error
+  // and doesn't raise SIGPIPE in the host process.
+  msghdr message{};
+  message.msg_iov = const_cast<IoVec*>(iov);
+  message.msg_iovlen = static_cast<decltype(message.msg_iovlen)>(iovcnt);
+  return static_cast<int>(::sendmsg(socket, &message, MSG_NOSIGNAL));
+#else
   return ::writev(socket, iov, iovcnt);
+#endif
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3adba9db3c0daf6b9d9ade3cb0b8e45082d013f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:57 +0000
Subject: [PATCH 10/34] fix: let go of a span's stream before handing it to the
 recorder

protobuf's CodedOutputStream calls BackUp on its stream when destroyed, by
which time the span's stream belongs to the recorder and may be freed.
---
 src/tracer/span.cpp | 27 ++++++++++++++-------------
 src/tracer/span.h   |  5 ++++-
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/tracer/span.cpp b/src/tracer/span.cpp
index 8396c5d..997a45e 100644
--- a/src/tracer/span.cpp
+++ b/src/tracer/span.cpp
@@ -24,16 +24,17 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
            const opentracing::StartSpanOptions& options)
     : chained_stream_{new ChainedStream{}},
       header_fragment_{tracer->recorder().ReserveHeaderSpace(*chained_stream_)},
-      coded_stream_{chained_stream_.get()},
+      coded_stream_{new google::protobuf::io::CodedOutputStream{
+          chained_stream_.get()}},
       tracer_{std::move(tracer)} {
-  WriteOperationName(coded_stream_, operation_name);
+  WriteOperationName(*coded_stream_, operation_name);
 
   // Set the start timestamps.
   std::chrono::system_clock::time_point start_timestamp;
   std::tie(start_timestamp, start_steady_) = ComputeStartTimestamps(
       tracer_->recorder(), options.start_system_timestamp,
       options.start_steady_timestamp);
-  WriteStartTimestamp(coded_stream_, start_timestamp);
+  WriteStartTimestamp(*coded_stream_, start_timestamp);
 
   // Set any span references.
   trace_flags_ = 0;
@@ -63,7 +64,7 @@ Span::Span(std::shared_ptr<const TracerImpl>&& tracer,
 
   // Set tags.
   for (auto& tag : options.tags) {
-    WriteTag(coded_stream_, tag.first, tag.second);
+    WriteTag(*coded_stream_, tag.first, tag.second);
 
     // If sampling_priority is set, it overrides whatever sampling decision was
     // derived from the referenced spans.
@@ -101,7 +102,7 @@ void Span::SetOperationName(opentracing::string_view name) noexcept try {
   if (is_finished_) {
     return;
   }
-  WriteOperationName(coded_stream_, name);
+  WriteOperationName(*coded_stream_, name);
 } catch (const std::exception& e) {
   tracer_->logger().Error("SetOperationName failed: ", e.what());
 }
@@ -115,7 +116,7 @@ void Span::SetTag(opentracing::string_view key,
   if (is_finished_) {
     return;
   }
-  WriteTag(coded_stream_, key, value);
+  WriteTag(*coded_stream_, key, value);
   if (key == SamplingPriorityKey) {
     trace_flags_ =
         SetTraceFlag<SampledFlagMask>(trace_flags_, is_sampled(value));
@@ -168,7 +169,7 @@ void Span::Log(std::initializer_list<
   if (is_finished_) {
     return;
   }
-  WriteLog(coded_stream_, timestamp, fields.begin(), fields.end());
+  WriteLog(*coded_stream_, timestamp, fields.begin(), fields.end());
 } catch (const std::exception& e) {
   tracer_->logger().Error("Log failed: ", e.what());
 }
@@ -214,7 +215,7 @@ bool Span::SetSpanReference(
   }
   trace_id_high = referenced_context->trace_id_high();
   trace_id = referenced_context->trace_id_low();
-  WriteSpanReference(coded_stream_, reference.first, trace_id,
+  WriteSpanReference(*coded_stream_, reference.first, trace_id,
                      referenced_context->span_id());
   trace_flags_ |= referenced_context->trace_flags();
   AppendTraceState(trace_state_, referenced_context->trace_state());
@@ -247,23 +248,23 @@ void Span::FinishImpl(
 
   // Set timing information.
   auto duration = finish_timestamp - start_steady_;
-  WriteDuration(coded_stream_, duration);
+  WriteDuration(*coded_stream_, duration);
 
   // Set logs
   for (auto& log_record : options.log_records) {
     try {
-      WriteLog(coded_stream_, log_record.timestamp, log_record.fields.data(),
+      WriteLog(*coded_stream_, log_record.timestamp, log_record.fields.data(),
                log_record.fields.data() + log_record.fields.size());
     } catch (const std::exception& e) {
       tracer_->logger().Error("Dropping log record: ", e.what());
     }
   }
 
-  WriteSpanContext(coded_stream_, trace_id_, span_id_, baggage_.as_vector());
+  WriteSpanContext(*coded_stream_, trace_id_, span_id_, baggage_.as_vector());
 
   // Record the span
-  tracer_->recorder().WriteFooter(coded_stream_);
-  coded_stream_.Trim();
+  tracer_->recorder().WriteFooter(*coded_stream_);
+  coded_stream_.reset();
   tracer_->recorder().RecordSpan(header_fragment_, std::move(chained_stream_));
 } catch (const std::exception& e) {
   tracer_->logger().Error("FinishWithOptions failed: ", e.what());
diff --git a/src/tracer/span.h b/src/tracer/span.h
index 476d163..057a30f 100644
--- a/src/tracer/span.h
+++ b/src/tracer/span.h
@@ -100,7 +100,10 @@ class Span final : public opentracing::Span, public LightStepSpanContext {
 
   std::unique_ptr<ChainedStream> chained_stream_;
   Fragment header_fragment_;
-  google::protobuf::io::CodedOutputStream coded_stream_;
+
+  // Destroyed before the stream is handed to the recorder, since even its
+  // destructor accesses the stream.
+  std::unique_ptr<google::protobuf::io::CodedOutputStream> coded_stream_;
 
   std::chrono::steady_clock::time_point start_steady_;
   std::atomic<bool> is_finished_{false};
-- 
2.43.0


From a8843a1ab297dc2a031528841e43707ba04b626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 11/34] fix: setting a baggage item again replaces its value

Map::insert leaves the present value of a legacy span's item in place.
---
 src/tracer/legacy/legacy_span.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/legacy/legacy_span.cpp b/src/tracer/legacy/legacy_span.cpp
index 4f07c32..2c6e93b 100644
--- a/src/tracer/legacy/legacy_span.cpp
+++ b/src/tracer/legacy/legacy_span.cpp
@@ -163,8 +163,7 @@ void LegacySpan::SetBaggageItem(opentracing::string_view restricted_key,
   auto lowercase_key = ToLower(restricted_key);
   std::lock_guard<std::mutex> lock_guard{mutex_};
   auto& baggage = *span_.mutable_span_context()->mutable_baggage();
-  baggage.insert(
-      BaggageProtobufMap::value_type(std::move(lowercase_key), value));
+  baggage[lowercase_key] = std::string{value};
 } catch (const std::exception& e) {
   logger_.Error("SetBaggageItem failed: ", e.what());
 }
-- 
2.43.0


From a3b891c96e101eae5da7b5eb539cdfa8ef95f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 12/34] fix: two trace id headers aren't a trace id and a span
 id

Counting headers took a repeated one for a complete context with a made-up id.
---
 src/tracer/propagation/multiheader_propagator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index 12632e1..cca81d5 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -3,7 +3,6 @@
 #include "common/hex_conversion.h"
 #include "common/utility.h"
 
-const int FieldCount = 2;
 const opentracing::string_view FalseStr = "false";
 const opentracing::string_view OneStr = "1";
 const opentracing::string_view ZeroStr = "0";
@@ -117,7 +116,8 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
     uint64_t& trace_id_low, uint64_t& span_id, bool& sampled,
     BaggageProtobufMap& baggage, const KeyCompare& key_compare) const {
   sampled = true;
-  int count = 0;
+  bool trace_id_found = false;
+  bool span_id_found = false;
   auto result =
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
@@ -128,7 +128,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
               return opentracing::make_unexpected(
                   opentracing::span_context_corrupted_error);
             }
-            ++count;
+            trace_id_found = true;
           } else if (key_compare(key, span_id_key_)) {
             auto span_id_maybe = HexToUint64(value);
             if (!span_id_maybe) {
@@ -136,7 +136,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
                   opentracing::span_context_corrupted_error);
             }
             span_id = *span_id_maybe;
-            ++count;
+            span_id_found = true;
           } else if (key_compare(key, sampled_key_)) {
             sampled = !(value == FalseStr || value == ZeroStr);
           } else if (key.length() > baggage_prefix_.size() &&
@@ -159,10 +159,10 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
-  if (count == 0) {
+  if (!trace_id_found && !span_id_found) {
     return false;
   }
-  if (count > 0 && count != FieldCount) {
+  if (!trace_id_found || !span_id_found) {
     return opentracing::make_unexpected(
         opentracing::span_context_corrupted_error);
   }
-- 
2.43.0


From e61346d0f4fc85140e442aedbae6345ef3e9be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 13/34] fix: a cloud trace span id is one header's whole number

An overlong or missing number was cut to a made-up id, and a short header kept the id of an earlier one.
---
 src/tracer/propagation/cloud_trace_propagator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 1daecd6..3a86798 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -126,6 +126,7 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
   offset += Num128BitHexDigits;
   if (s.size() - offset < 2) {
     // only a short form trace ID has been given (not a "trace id/span id")
+    trace_context.parent_id = 0;
     return {};
   }
 
@@ -145,6 +146,15 @@ opentracing::expected<void> CloudTracePropagator::ParseCloudTrace(
     ++offset;
   }
   parent_id[i] = '\0';
+  if (i == 0) {
+    // there's a separator, but no span ID
+    return opentracing::make_unexpected(
+        std::make_error_code(std::errc::invalid_argument));
+  }
+  if (offset < s.length() && std::isdigit(s[offset]) != 0) {
+    return opentracing::make_unexpected(
+        std::make_error_code(std::errc::result_out_of_range));
+  }
 
   // parent-id
   errno = 0;
-- 
2.43.0


From ae57cc06318bb416f6c57b22260e886987f9d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 14/34] fix: a legacy transport that throws fails its report

---
 src/recorder/legacy_manual_recorder.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/recorder/legacy_manual_recorder.cpp b/src/recorder/legacy_manual_recorder.cpp
index be696b4..38ff551 100644
--- a/src/recorder/legacy_manual_recorder.cpp
+++ b/src/recorder/legacy_manual_recorder.cpp
@@ -81,13 +81,18 @@ bool LegacyManualRecorder::FlushOne() noexcept try {
   dropped_spans_ = 0;
   std::swap(builder_.pending(), active_request_);
   ++encoding_seqno_;
-  transporter_->Send(active_request_, active_response_, *this);
+  try {
+    transporter_->Send(active_request_, active_response_, *this);
+  } catch (const std::exception&) {
+    // Without a callback, the report would stay in flight forever.
+    if (IsReportInProgress()) {
+      OnFailure(std::make_error_code(std::errc::io_error));
+    }
+    throw;
+  }
   return true;
 } catch (const std::exception& e) {
   logger_.Error("Failed to Flush: ", e.what());
-  options_.metrics_observer->OnSpansDropped(saved_pending_spans_);
-  dropped_spans_ += saved_pending_spans_;
-  active_request_.Clear();
   return false;
 }
 
-- 
2.43.0


From f562ab9a6cc80cb133b1be5bc894e188ac96d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 15/34] fix: count the spans of a report whose transport throws
 as dropped

---
 src/recorder/auto_recorder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index 94e3c20..ead5657 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -159,7 +159,15 @@ void AutoRecorder::FlushOne() {
     std::swap(builder_.pending(), inflight_);
     ++encoding_seqno_;
   }
-  bool success = WriteReport(inflight_);
+  bool success = false;
+  try {
+    success = WriteReport(inflight_);
+  } catch (const std::exception&) {
+    std::lock_guard<std::mutex> lock_guard{write_mutex_};
+    options_.metrics_observer->OnSpansDropped(static_cast<int>(save_pending));
+    dropped_spans_ += save_dropped + save_pending;
+    throw;
+  }
   {
     std::lock_guard<std::mutex> lock_guard{write_mutex_};
     ++flushed_seqno_;
-- 
2.43.0


From 55fe58dc485a418bf203afb573c0b1d6fb037395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 16/34] fix: a reporting period of zero stands for the default

As documented; it made the background thread spin instead.
---
 src/tracer/tracer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracer/tracer.cpp b/src/tracer/tracer.cpp
index a79a7f5..a9b2b55 100644
--- a/src/tracer/tracer.cpp
+++ b/src/tracer/tracer.cpp
@@ -214,6 +214,11 @@ std::shared_ptr<LightStepTracer> MakeLightStepTracer(
       options.tags.emplace(component_name_key, options.component_name);
     }
 
+    // A reporting period of zero stands for the default.
+    if (options.reporting_period == std::chrono::steady_clock::duration{0}) {
+      options.reporting_period = LightStepTracerOptions{}.reporting_period;
+    }
+
     if (options.ssl_root_certificates.empty()) {
       // If default ssl root certificates were embedded in the library, then
       // default_ssl_roots_pem will be set to them; otherwise, it will be the
-- 
2.43.0


From 7c640f6abe5e7d19d2a231b4fae587e6269951f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 17/34] fix: a failed flush leaves no timer behind to kill the
 next connection

---
 src/recorder/stream_recorder/satellite_connection.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..ad1a614 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -170,11 +170,13 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
     return;
   }
   connection_stream_.Shutdown();
+  // Note: Start the timer before flushing. If the flush fails, the connection is
+  // freed along with the timer, which must not expire on the next connection.
+  graceful_shutdown_timeout_.Add(
+      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
   if (writable_) {
     Flush();
   }
-  graceful_shutdown_timeout_.Add(
-      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
   streamer_.logger().Error("InitiateReconnect failed: ", e.what());
   return HandleFailure();
-- 
2.43.0


From c09a9da963641cb055cf670c7e9b10a184ad5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 18/34] fix: what a destroyed connection leaves unsent is
 counted as dropped

---
 .../stream_recorder/connection_stream.cpp        | 16 ++++++++++++++--
 src/recorder/stream_recorder/connection_stream.h |  4 ++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/recorder/stream_recorder/connection_stream.cpp b/src/recorder/stream_recorder/connection_stream.cpp
index e4f03da..e2a5c0c 100644
--- a/src/recorder/stream_recorder/connection_stream.cpp
+++ b/src/recorder/stream_recorder/connection_stream.cpp
@@ -47,10 +47,24 @@ ConnectionStream::ConnectionStream(Fragment host_header_fragment,
   InitializeStream();
 }
 
+//--------------------------------------------------------------------------------------------------
+// destructor
+//--------------------------------------------------------------------------------------------------
+ConnectionStream::~ConnectionStream() noexcept { AccountForUnsent(); }
+
 //--------------------------------------------------------------------------------------------------
 // Reset
 //--------------------------------------------------------------------------------------------------
 void ConnectionStream::Reset() {
+  AccountForUnsent();
+  span_remnant_.reset();
+  InitializeStream();
+}
+
+//--------------------------------------------------------------------------------------------------
+// AccountForUnsent
+//--------------------------------------------------------------------------------------------------
+void ConnectionStream::AccountForUnsent() noexcept {
   if (!header_stream_.empty()) {
     // We weren't able to upload the metrics so add the counters back
     span_stream_.metrics().UnconsumeDroppedSpans(
@@ -59,8 +73,6 @@ void ConnectionStream::Reset() {
   if (span_remnant_ != nullptr && !span_remnant_->empty()) {
     span_stream_.metrics().OnSpansDropped(1);
   }
-  span_remnant_.reset();
-  InitializeStream();
 }
 
 //--------------------------------------------------------------------------------------------------
diff --git a/src/recorder/stream_recorder/connection_stream.h b/src/recorder/stream_recorder/connection_stream.h
index a04c023..7334317 100644
--- a/src/recorder/stream_recorder/connection_stream.h
+++ b/src/recorder/stream_recorder/connection_stream.h
@@ -27,6 +27,8 @@ class ConnectionStream {
   ConnectionStream(Fragment host_header_fragment,
                    Fragment header_common_fragment, SpanStream& span_stream);
 
+  ~ConnectionStream() noexcept;
+
   /**
    * Reset so as to begin a new streaming session.
    */
@@ -78,6 +80,8 @@ class ConnectionStream {
 
   void InitializeStream();
 
+  void AccountForUnsent() noexcept;
+
   bool FlushShutdown(Writer writer);
 
   void UpdateSpanRemnant() noexcept;
-- 
2.43.0


From 773845c4de30c1cfd05645b34e1cff42a7571b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:14 +0000
Subject: [PATCH 19/34] fix: a flush or shutdown may be given any timeout

---
 src/recorder/auto_recorder.cpp                   |  7 ++++---
 src/recorder/recorder.h                          | 13 +++++++++++++
 src/recorder/stream_recorder/stream_recorder.cpp | 12 +++++++-----
 3 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/recorder/auto_recorder.cpp b/src/recorder/auto_recorder.cpp
index ead5657..1fbd942 100644
--- a/src/recorder/auto_recorder.cpp
+++ b/src/recorder/auto_recorder.cpp
@@ -76,9 +76,10 @@ bool AutoRecorder::FlushWithTimeout(
 
   size_t wait_seq = encoding_seqno_ - (has_encoded ? 0 : 1);
 
-  auto result = write_cond_->WaitFor(lock, timeout, [this, wait_seq]() {
-    return write_exit_ || this->flushed_seqno_ >= wait_seq;
-  });
+  auto result =
+      write_cond_->WaitFor(lock, LimitTimeout(timeout), [this, wait_seq]() {
+        return write_exit_ || this->flushed_seqno_ >= wait_seq;
+      });
   if (!result) {
     return false;
   }
diff --git a/src/recorder/recorder.h b/src/recorder/recorder.h
index d973886..3c7fbe4 100644
--- a/src/recorder/recorder.h
+++ b/src/recorder/recorder.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <chrono>
 #include <memory>
 
@@ -96,5 +97,17 @@ class Recorder {
   virtual const MetricsObserver* metrics_observer() const noexcept {
     return nullptr;
   }
+
+ protected:
+  /**
+   * Bound a timeout so that a deadline computed from it can't overflow.
+   * @param timeout the maximum amount of time to block.
+   * @return a timeout that can be added to a clock's current time
+   */
+  static std::chrono::system_clock::duration LimitTimeout(
+      std::chrono::system_clock::duration timeout) noexcept {
+    return std::min<std::chrono::system_clock::duration>(
+        timeout, std::chrono::hours{24 * 365});
+  }
 };
 }  // namespace lightstep
diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..d9052c7 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -119,9 +119,10 @@ bool StreamRecorder::FlushWithTimeout(
     return true;
   }
   ++pending_flush_counter_;
-  flush_condition_variable_.wait_for(lock, timeout, [this, num_spans_produced] {
-    return exit_ || num_spans_consumed_ >= num_spans_produced;
-  });
+  flush_condition_variable_.wait_for(
+      lock, LimitTimeout(timeout), [this, num_spans_produced] {
+        return exit_ || num_spans_consumed_ >= num_spans_produced;
+      });
   return num_spans_consumed_ >= num_spans_produced;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
@@ -135,8 +136,9 @@ bool StreamRecorder::ShutdownWithTimeout(
     std::chrono::system_clock::duration timeout) noexcept try {
   std::unique_lock<std::mutex> lock{shutdown_mutex_};
   ++shutdown_counter_;
-  shutdown_condition_variable_.wait_for(
-      lock, timeout, [this] { return exit_ || !last_is_active_; });
+  shutdown_condition_variable_.wait_for(lock, LimitTimeout(timeout), [this] {
+    return exit_ || !last_is_active_;
+  });
   return !last_is_active_;
 } catch (const std::exception& e) {
   logger_.Error("StreamRecorder::FlushWithTimeout failed: ", e.what());
-- 
2.43.0


From 49fd46a06c1d1788e34a23c5ad6e645f02f00a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 20/34] fix: a connection that fails during shutdown isn't
 reopened

---
 src/recorder/stream_recorder/satellite_connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index ad1a614..2e98eb5 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -94,6 +94,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (is_shutting_down_) {
+    // whatever ended the last connection, shutting down doesn't open another
+    was_shutdown_ = true;
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
-- 
2.43.0


From 2724dfdd1c3a7340b5ee12a764e12a1cdf22d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 21/34] fix: a socket's events are removed before it is closed

---
 src/recorder/stream_recorder/satellite_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 2e98eb5..1c33b01 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -127,9 +127,11 @@ void SatelliteConnection::Connect() noexcept try {
 // FreeSocket
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::FreeSocket() {
-  socket_ = Socket{InvalidSocket};
+  // Note: The events go first. Once the socket is closed, its descriptor may
+  // belong to something else in this process.
   read_event_ = Event{};
   write_event_ = Event{};
+  socket_ = Socket{InvalidSocket};
   reconnect_timer_.Remove();
   graceful_shutdown_timeout_.Remove();
   writable_ = false;
-- 
2.43.0


From 16b29a2196b3e6db0dc367e2db21bc4aae5a51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 22/34] fix: a forked child's recorder draws a reporter id of
 its own

---
 src/recorder/BUILD                   | 1 +
 src/recorder/fork_aware_recorder.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/recorder/BUILD b/src/recorder/BUILD
index 8e9a453..caecd1f 100644
--- a/src/recorder/BUILD
+++ b/src/recorder/BUILD
@@ -54,6 +54,7 @@ lightstep_cc_library(
         "fork_aware_recorder.cpp",
     ],
     deps = [
+        "//src/common:random_lib",
         "//src/common/platform:fork_lib",
         ":recorder_interface",
     ],
diff --git a/src/recorder/fork_aware_recorder.cpp b/src/recorder/fork_aware_recorder.cpp
index ddae90f..fdda6b4 100644
--- a/src/recorder/fork_aware_recorder.cpp
+++ b/src/recorder/fork_aware_recorder.cpp
@@ -3,6 +3,7 @@
 #include <cassert>
 
 #include "common/platform/fork.h"
+#include "common/random.h"
 
 namespace lightstep {
 std::mutex ForkAwareRecorder::mutex_;
@@ -90,6 +91,10 @@ void ForkAwareRecorder::ChildForkHandler() noexcept {
 //--------------------------------------------------------------------------------------------------
 void ForkAwareRecorder::SetupForkHandlers() noexcept {
   static bool once = [] {
+    // Note: Handlers in the child run in the order they were set up, so make
+    // sure that the random number generator is seeded anew before recorders use
+    // it.
+    GetRandomNumberGenerator();
     AtFork(PrepareForkHandler, ParentForkHandler, ChildForkHandler);
     return true;
   }();
-- 
2.43.0


From 673f627aa339e8e9e8efcb92b4b240da527c4044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 23/34] fix: a dns request that no server answers times out

---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..9f09d51 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,12 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up ares timer: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From b68018bb0913eba0fdbf0ee8b4781efa57a51c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:53 +0000
Subject: [PATCH 24/34] fix: dns sockets are watched until they are closed

---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 9f09d51..199809f 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -140,7 +140,7 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From 2fc2d1905c771e9afeac5f2b048aa340a26a45cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 25/34] fix: use the root certificates given in a tracer
 configuration

---
 src/tracer/json_options.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 1702dd7..2ccc4ec 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -95,6 +95,8 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
         std::chrono::microseconds{tracer_configuration.report_timeout()};
   }
 
+  options.ssl_root_certificates = tracer_configuration.ssl_root_certificates();
+
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
   options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
-- 
2.43.0


From b5c7a6af4b576222c72adb60bc67b1b74993ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 26/34] fix: keep the default satellite endpoints if a
 configuration gives none

---
 src/tracer/json_options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 2ccc4ec..8bb8b23 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -99,7 +99,9 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
-  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  if (tracer_configuration.satellite_endpoints_size() != 0) {
+    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  }
 
   options.verbose = tracer_configuration.verbose();
 
-- 
2.43.0


From a1a509775e4a2c67747a62e2457e6a9ebd4fd126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 27/34] fix: explain semantic errors of a configuration in the
 error message

They were written to std::cerr instead, which may also throw.
---
 src/tracer/json_options.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 8bb8b23..cdff2f2 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -1,6 +1,5 @@
 #include "tracer/json_options.h"
 
-#include <iostream>
 #include <limits>
 #include <sstream>
 #include <stdexcept>
@@ -117,7 +116,7 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   return options;
 } catch (const std::exception& e) {
-  std::cerr << "Invalid options: " << e.what() << "\n";
+  error_message = e.what();
   return opentracing::make_unexpected(
       std::make_error_code(std::errc::invalid_argument));
 }
-- 
2.43.0


From ee20103c1f0cf695ca50cc75a9f602338bf71862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:56 +0000
Subject: [PATCH 28/34] fix: explain why no tracer was made from a
 configuration

---
 src/tracer/lightstep_tracer_factory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracer/lightstep_tracer_factory.cpp b/src/tracer/lightstep_tracer_factory.cpp
index a9982ef..ef08677 100644
--- a/src/tracer/lightstep_tracer_factory.cpp
+++ b/src/tracer/lightstep_tracer_factory.cpp
@@ -24,6 +24,7 @@ LightStepTracerFactory::MakeTracer(const char* configuration,
   auto result = std::shared_ptr<opentracing::Tracer>{
       MakeLightStepTracer(std::move(*options_maybe))};
   if (result == nullptr) {
+    error_message = "failed to construct a tracer from the configuration";
     return opentracing::make_unexpected(
         opentracing::invalid_configuration_error);
   }
-- 
2.43.0


From d4f04687c764887b03fb73f84454edaad8527130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 29/34] fix: try every address of a host for each of its ports

With an address index shared by the ports of a host, as many ports as
addresses (or a common divisor of both) tied each port to the same few
addresses for good.
---
 .../stream_recorder/satellite_endpoint_manager.cpp    | 11 +++++++----
 .../stream_recorder/satellite_endpoint_manager.h      |  1 -
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_endpoint_manager.cpp b/src/recorder/stream_recorder/satellite_endpoint_manager.cpp
index a3f7b1e..3ad6b7e 100644
--- a/src/recorder/stream_recorder/satellite_endpoint_manager.cpp
+++ b/src/recorder/stream_recorder/satellite_endpoint_manager.cpp
@@ -59,8 +59,10 @@ SatelliteEndpointManager::RequestEndpoint() noexcept {
 
     int host_index;
     uint16_t port;
-    std::tie(host_index, port) =
-        endpoints_[endpoint_index_++ % endpoints_.size()];
+    auto turn = endpoint_index_ / endpoints_.size();
+    auto position = endpoint_index_ % endpoints_.size();
+    ++endpoint_index_;
+    std::tie(host_index, port) = endpoints_[position];
     auto& host_manager = host_managers_[host_index];
 
     auto& ip_addresses = !host_manager.ipv4_resolutions->ip_addresses().empty()
@@ -69,8 +71,9 @@ SatelliteEndpointManager::RequestEndpoint() noexcept {
     if (ip_addresses.empty()) {
       continue;
     }
-    auto result =
-        ip_addresses[host_manager.address_index++ % ip_addresses.size()];
+    // Note: Each endpoint goes through all addresses by itself: with an index
+    // shared by the ports of a host, a port might always get the same address.
+    auto result = ip_addresses[(turn + position) % ip_addresses.size()];
     result.set_port(port);
     return std::make_pair(result, host_manager.ipv4_resolutions->name());
   }
diff --git a/src/recorder/stream_recorder/satellite_endpoint_manager.h b/src/recorder/stream_recorder/satellite_endpoint_manager.h
index 756d662..bc2be33 100644
--- a/src/recorder/stream_recorder/satellite_endpoint_manager.h
+++ b/src/recorder/stream_recorder/satellite_endpoint_manager.h
@@ -17,7 +17,6 @@ class SatelliteEndpointManager : private Noncopyable {
   struct SatelliteHostManager {
     std::unique_ptr<SatelliteDnsResolutionManager> ipv4_resolutions;
     std::unique_ptr<SatelliteDnsResolutionManager> ipv6_resolutions;
-    uint32_t address_index{0};
   };
 
  public:
-- 
2.43.0


From 64eff4c7d7a417b338fc3750ad0774d27e330a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 30/34] fix: register the fork handler of the random number
 generators once

Every thread that drew an identifier added a handler of its own, which can't be
removed again, so that a process that keeps starting threads grew by one handler
for each and ran all of them at every fork.
---
 src/common/random.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index bd0375e..6ee0c2b 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -18,7 +18,12 @@ class TlsRandomNumberGenerator {
  public:
   TlsRandomNumberGenerator() {
     Seed();
-    AtFork(nullptr, nullptr, OnFork);
+
+    // The handler reseeds the generator of whichever thread forks, so it's
+    // registered only once: handlers can't be removed, and adding one for every
+    // thread would make them accumulate for as long as a process runs.
+    static const int registered = AtFork(nullptr, nullptr, OnFork);
+    (void)registered;
   }
 
   static FastRandomNumberGenerator& engine() noexcept { return engine_; }
-- 
2.43.0


From 3cfa1c223713d60d113d9425bb5393dbe3349ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 31/34] fix: report a binary carrier that can't be read as an
 error

A stream whose very first read fails was taken for one without a span context.
---
 src/tracer/propagation/binary_propagation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracer/propagation/binary_propagation.cpp b/src/tracer/propagation/binary_propagation.cpp
index 9b41386..941dcef 100644
--- a/src/tracer/propagation/binary_propagation.cpp
+++ b/src/tracer/propagation/binary_propagation.cpp
@@ -107,6 +107,11 @@ opentracing::expected<bool> ExtractSpanContext(
 
   // Check for the case when no span is encoded.
   if (carrier.peek() == EOF) {
+    // A stream that couldn't be read doesn't tell whether there's a span.
+    if (carrier.bad()) {
+      return opentracing::make_unexpected(
+          std::make_error_code(std::errc::io_error));
+    }
     return false;
   }
 
-- 
2.43.0


From 4ede049ba664d542fe8299522363a37669b37b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:26 +0000
Subject: [PATCH 32/34] fix: let a binary carrier that throws on writing throw
 to the caller

Protobuf wrote to the stream from a destructor, so that a stream with exceptions
enabled terminated the process when it failed.
---
 src/tracer/propagation/binary_propagation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tracer/propagation/binary_propagation.cpp b/src/tracer/propagation/binary_propagation.cpp
index 941dcef..75d1048 100644
--- a/src/tracer/propagation/binary_propagation.cpp
+++ b/src/tracer/propagation/binary_propagation.cpp
@@ -54,10 +54,16 @@ opentracing::expected<void> InjectSpanContext(std::ostream& carrier,
   if (!result) {
     return result;
   }
-  if (!binary_carrier.SerializeToOstream(&carrier)) {
+
+  // Serialize into a string first: protobuf's own stream adapter writes from its
+  // destructor, where a stream that throws would terminate the process.
+  std::string serialization;
+  if (!binary_carrier.SerializeToString(&serialization)) {
     return opentracing::make_unexpected(
         std::make_error_code(std::errc::io_error));
   }
+  carrier.write(serialization.data(),
+                static_cast<std::streamsize>(serialization.size()));
 
   // Flush so that when we call carrier.good(), we'll get an accurate view of
   // the error state.
-- 
2.43.0


From bea8d38588dce4e96d81b85d787cc9770de25cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:26 +0000
Subject: [PATCH 33/34] fix: drop a tracestate left by a format that found no
 span context

---
 src/tracer/propagation/propagation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tracer/propagation/propagation.cpp b/src/tracer/propagation/propagation.cpp
index 57fa67f..14eb1eb 100644
--- a/src/tracer/propagation/propagation.cpp
+++ b/src/tracer/propagation/propagation.cpp
@@ -23,6 +23,7 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
     BaggageProtobufMap& baggage) {
   for (auto& propagator : propagation_options.extract_propagators) {
     baggage.clear();
+    trace_state.clear();
     auto result = propagator->ExtractSpanContext(
         carrier, case_sensitive, trace_context, trace_state, baggage);
     if (!result) {
-- 
2.43.0


From 40bb7dfc1244faca45c61d6e642af0063389de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:14 +0000
Subject: [PATCH 34/34] fix: don't size the stack by the number of a log's
 fields

---
 src/tracer/serialization.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tracer/serialization.cpp b/src/tracer/serialization.cpp
index f82fec3..95c5068 100644
--- a/src/tracer/serialization.cpp
+++ b/src/tracer/serialization.cpp
@@ -2,7 +2,6 @@
 
 #include <iterator>
 
-#include "common/platform/memory.h"
 #include "common/serialization.h"
 #include "common/utility.h"
 
@@ -116,8 +115,9 @@ static void WriteLogImpl(google::protobuf::io::CodedOutputStream& stream,
                          Iterator last) {
   auto num_key_values = std::distance(first, last);
 
-  auto field_serialization_sizes =
-      static_cast<size_t*>(alloca(num_key_values * sizeof(size_t)));
+  // Note: The number of fields is up to the caller, so they can't go on the
+  // stack.
+  std::vector<size_t> field_serialization_sizes(num_key_values);
   std::vector<std::string> json_values;
   std::string json;
   int json_counter = 0;
-- 
2.43.0

