From 2a174fc03eeeb56172be99696c8b44a3135fd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 01/35] fix: index the Huffman code table with an unsigned
 octet

Octets above 0x7f in a header value were sign-extended and read outside the
table.
---
 lib/hpack/header_block_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index fe0dcfa..bc76312 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -23,7 +23,7 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
         // use huffman coding
         BitWriter bw{};
         for (const char c : str) {
-            auto huffman_code = HUFFMAN_CODES[c];
+            auto huffman_code = HUFFMAN_CODES[static_cast<uint8_t>(c)];
             bw.write_bits(huffman_code.lsb_aligned_code, huffman_code.code_len);
         }
         auto bitstream = bw.finalize();
-- 
2.43.0


From 9cda8e82cb6e052bef039d267972f2c85a6d060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 02/35] fix: encode HPACK table indices as prefix integers

A name index of 63 or above and a full-match index of 127 or above do not fit in
the first octet; they were truncated into a different representation.
---
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index bc76312..85f767c 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -50,6 +50,13 @@ std::vector<uint8_t> HeaderBlockEncoder::write_length_and_string(const std::stri
     return bytes;
 }
 
+static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t prefix_bits,
+                        uint8_t pattern) {
+    auto encoded_index = IntegerEncoder::encode(index, prefix_bits);
+    encoded_index[0] |= pattern;
+    bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
     for (auto& hdr : headers) {
@@ -63,14 +70,14 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
             // found static header
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 7, 0x80);
             continue;
         }
 
         // check dynamic headers too
         if (auto dyn_table_index = dynamic_table_.find(hdr)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x80));
+            write_index(bytes, index, 7, 0x80);
             continue;
         }
 
@@ -82,7 +89,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         if (st_name_it != STATIC_TABLE.end()) {
             const size_t table_index = std::distance(STATIC_TABLE.begin(), st_name_it);
             const size_t index = table_index + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
@@ -96,7 +103,7 @@ std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& h
         // is dynamic field header name?
         if (auto dyn_table_index = dynamic_table_.find_name(hdr.name)) {
             const size_t index = STATIC_TABLE.size() + dyn_table_index.value() + 1;
-            bytes.push_back(static_cast<uint8_t>(index | 0x40));
+            write_index(bytes, index, 6, 0x40);
 
             // encode string
             const auto len_and_str_bytes = write_length_and_string(hdr.value);
-- 
2.43.0


From 6f344f0cc25e41f2e1f0837a26339d042ab44d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 03/35] fix: reject a header block whose index integer cannot
 be decoded

The error was logged and the value of the failed result used anyway.
---
 lib/hpack/header_block_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 58de481..69cc6f1 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -134,6 +134,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_indexed_field(B
     const auto index = IntegerDecoder::decode(reader, 7);
     if (!index.has_value()) {
         spdlog::error("failed to decode indexed header index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     if (*index < 1) {
@@ -148,6 +149,7 @@ std::expected<HttpHeader, FrameError> HeaderBlockDecoder::decode_literal_field(
     const auto index = IntegerDecoder::decode(reader, idx_prefix_bits);
     if (!index.has_value()) {
         spdlog::error("failed to decode literal field index (not enough bytes)");
+        return std::unexpected(FrameError::ProtocolError);
     }
 
     bool is_new_name = *index == 0;
-- 
2.43.0


From d89a2c627691b9a6ccd791ff06d80bb3e6a3fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 04/35] fix: reject Huffman strings with EOS or invalid padding

RFC 7541 section 5.2: padding longer than 7 bits, padding that is not all ones
and the EOS symbol are decoding errors.
---
 lib/hpack/huffman_tree.cpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/lib/hpack/huffman_tree.cpp b/lib/hpack/huffman_tree.cpp
index 8375752..e4cdf62 100644
--- a/lib/hpack/huffman_tree.cpp
+++ b/lib/hpack/huffman_tree.cpp
@@ -7,6 +7,8 @@
 
 namespace ion {
 
+static constexpr size_t MAX_PADDING_BITS = 7;
+
 void HuffmanTree::insert_symbol(int16_t symbol, uint32_t lsb_aligned_code, uint8_t code_len) {
     if (code_len == 0 || code_len > 31) {
         throw std::runtime_error("Invalid code length: " + std::to_string(code_len));
@@ -41,32 +43,32 @@ std::expected<std::vector<uint8_t>, HuffmanDecodeError> HuffmanTree::decode(
     BitReader br{data};
     const HuffmanNode* current = root_.get();
     size_t bits_processed = 0;
+    // bits read since the last complete symbol: they may only be padding
+    size_t trailing_bits = 0;
+    bool trailing_all_ones = true;
     while (br.has_more()) {
-        if (!br.read_bit()) {
-            current = current->left.get();
-        } else {
-            current = current->right.get();
-        }
+        const bool bit = br.read_bit();
         bits_processed++;
+        trailing_bits++;
+        trailing_all_ones = trailing_all_ones && bit;
 
-        if (!current) {
-            while (br.has_more()) {
-                if (!br.read_bit()) {
-                    spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
-                                  bits_processed);
-                    return std::unexpected{HuffmanDecodeError::InvalidCode};
-                }
-                bits_processed++;
-            }
-            return result;
+        if (current) {
+            current = bit ? current->right.get() : current->left.get();
         }
 
-        if (current->is_terminal()) {
+        if (current && current->is_terminal()) {
             result.push_back(*current->symbol);
             current = root_.get();
+            trailing_bits = 0;
+            trailing_all_ones = true;
         }
     }
 
+    if (trailing_bits > MAX_PADDING_BITS || !trailing_all_ones) {
+        spdlog::error("remaining unmatched Huffman code is not padding: (bit pos = {})",
+                      bits_processed);
+        return std::unexpected{HuffmanDecodeError::InvalidCode};
+    }
     return result;
 }
 
-- 
2.43.0


From 1a9b39f4928f267658019235206ca2432e334836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 05/35] fix: reject WINDOW_UPDATE frames of the wrong length

---
 lib/http2_conn.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ea5cb5..f7fd407 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -283,6 +283,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
+            if (frame.length() != Http2WindowUpdate::wire_size) {
+                spdlog::error("invalid WINDOW_UPDATE frame length: {}", frame.length());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
-- 
2.43.0


From 15c78bb68f45584cfcced941030cd5a70bb1653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 06/35] fix: honour padding and check bounds in HEADERS frames

---
 lib/http2_conn.cpp       |  9 ++++++++-
 lib/http2_frame_reader.h | 22 ++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index f7fd407..ca49bd2 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -253,8 +253,15 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
                           frame.is_end_stream(), frame.length());
 
+            const auto block = frame.read_headers_block();
+            if (!block) {
+                spdlog::error("HEADERS frame too short for its padding or priority fields");
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+
             log_dynamic_tables();
-            auto hdrs = decoder_.decode(frame.headers_block());
+            auto hdrs = decoder_.decode(*block);
             if (!hdrs) {
                 update_state(Http2ConnectionState::ProtocolError);
                 return;
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 948f9af..48e10d4 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -1,5 +1,6 @@
 #pragma once
 #include <expected>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -58,11 +59,24 @@ class Http2FrameReader {
     Http2WindowUpdate read_window_update() const;
     Http2GoAwayPayload read_goaway() const;
 
-    std::span<const uint8_t> headers_block() const {
-        if (priority()) {
-            return payload_.subspan(5);  // skip exclusive (1), stream dependency (31) & weight (8)
+    // header block fragment, or nullopt if too short for its padding or priority fields
+    std::optional<std::span<const uint8_t>> read_headers_block() const {
+        const size_t priority_length =
+            priority() ? 5 : 0;  // exclusive (1), stream dependency (31) & weight (8)
+        const size_t pad_length_field = padded() ? 1 : 0;
+        if (payload_.size() < pad_length_field + priority_length) {
+            return std::nullopt;
         }
-        return payload_;
+        const size_t pad_length = padded() ? payload_[0] : 0;
+        auto block = payload_.subspan(pad_length_field + priority_length);
+        if (block.size() < pad_length) {
+            return std::nullopt;
+        }
+        return block.first(block.size() - pad_length);
+    }
+
+    std::span<const uint8_t> headers_block() const {
+        return read_headers_block().value_or(std::span<const uint8_t>{});
     }
 
    private:
-- 
2.43.0


From 44033faf0a3163749c70e1577a9f14cd9c58c87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 07/35] fix: reassemble header blocks from CONTINUATION frames

---
 lib/http2_conn.cpp       | 41 ++++++++++++++++++++++++++++++++++++++++
 lib/http2_conn.h         |  4 ++++
 lib/http2_frame_reader.h |  4 ++++
 3 files changed, 49 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index ca49bd2..7944ae9 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -20,12 +20,14 @@ static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
+static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
+static constexpr size_t MAX_HEADER_BLOCK_SIZE = 256 * 1024;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
@@ -226,7 +228,35 @@ bool Http2Connection::try_read_frame() {
     return true;
 }
 
+void Http2Connection::process_continuation(const Http2FrameReader& frame) {
+    if (frame.type() != FRAME_TYPE_CONTINUATION ||
+        frame.stream_id() != partial_headers_->stream_id ||
+        partial_block_.size() + frame.length() > MAX_HEADER_BLOCK_SIZE) {
+        spdlog::error("expected CONTINUATION frame for stream {}", partial_headers_->stream_id);
+        update_state(Http2ConnectionState::ProtocolError);
+        return;
+    }
+    partial_block_.insert(partial_block_.end(), frame.payload().begin(), frame.payload().end());
+    if (!frame.is_end_headers()) {
+        return;
+    }
+
+    // process the reassembled block as if it had arrived in a single HEADERS frame
+    auto header = *partial_headers_;
+    header.length = static_cast<uint32_t>(partial_block_.size());
+    header.flags = FLAG_END_HEADERS | (header.flags & FLAG_END_STREAM);
+    const auto block = std::move(partial_block_);
+    partial_headers_.reset();
+    partial_block_.clear();
+    process_frame(Http2FrameReader{header, block});
+}
+
 void Http2Connection::process_frame(const Http2FrameReader& frame) {
+    if (partial_headers_) {
+        process_continuation(frame);
+        return;
+    }
+
     switch (frame.type()) {
         case FRAME_TYPE_SETTINGS: {
             spdlog::debug("received SETTINGS frame (stream={} flags={})", frame.stream_id(),
@@ -260,6 +290,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 return;
             }
 
+            if (!frame.is_end_headers()) {
+                partial_headers_ = frame.header();
+                partial_block_.assign(block->begin(), block->end());
+                return;
+            }
+
             log_dynamic_tables();
             auto hdrs = decoder_.decode(*block);
             if (!hdrs) {
@@ -299,6 +335,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
         }
+        case FRAME_TYPE_CONTINUATION: {
+            spdlog::error("unexpected CONTINUATION frame for stream {}", frame.stream_id());
+            update_state(Http2ConnectionState::ProtocolError);
+            return;
+        }
         case FRAME_TYPE_GOAWAY: {
             spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
             update_state(Http2ConnectionState::ClientClosed);
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 59f16bf..3c87448 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -2,6 +2,7 @@
 #include <opentelemetry/trace/span.h>
 
 #include <chrono>
+#include <optional>
 #include <span>
 #include <vector>
 
@@ -52,6 +53,8 @@ class Http2Connection {
     const Router& router_;
     std::vector<uint8_t> read_buffer_;
     std::vector<uint8_t> write_buffer_;
+    std::optional<Http2FrameHeader> partial_headers_;  // HEADERS awaiting CONTINUATION
+    std::vector<uint8_t> partial_block_;
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{};
@@ -74,6 +77,7 @@ class Http2Connection {
     void write_goaway(uint32_t last_stream_id, ErrorCode error_code);
     void write_settings();
     void process_frame(const Http2FrameReader& frame);
+    void process_continuation(const Http2FrameReader& frame);
     void update_state(Http2ConnectionState new_state);
     void log_dynamic_tables();
     HttpResponse process_request(const std::vector<HttpHeader>& req_hdrs, SpanPtr span);
diff --git a/lib/http2_frame_reader.h b/lib/http2_frame_reader.h
index 48e10d4..bd417aa 100644
--- a/lib/http2_frame_reader.h
+++ b/lib/http2_frame_reader.h
@@ -14,6 +14,10 @@ class Http2FrameReader {
     explicit Http2FrameReader(const Http2FrameHeader& header, std::span<const uint8_t> payload)
         : header_(header), payload_(payload) {}
 
+    const Http2FrameHeader& header() const {
+        return header_;
+    }
+
     uint8_t type() const {
         return header_.type;
     }
-- 
2.43.0


From ec1985632f27f97ca94a5673950cf07644ab8338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 08/35] fix: reject HEADERS on invalid streams and answer each
 stream once

---
 lib/http2_conn.cpp | 12 ++++++++++++
 lib/http2_conn.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7944ae9..662523e 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -290,6 +290,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 return;
             }
 
+            if (frame.stream_id() % 2 == 0) {
+                spdlog::error("HEADERS frame on invalid stream {}", frame.stream_id());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+
             if (!frame.is_end_headers()) {
                 partial_headers_ = frame.header();
                 partial_block_.assign(block->begin(), block->end());
@@ -303,6 +309,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 return;
             }
 
+            if (frame.stream_id() <= last_stream_id_) {
+                spdlog::debug("ignoring HEADERS on already answered stream {}", frame.stream_id());
+                break;
+            }
+            last_stream_id_ = frame.stream_id();
+
             for (const auto& hdr : *hdrs) {
                 spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 3c87448..fdaa6f3 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -55,6 +55,7 @@ class Http2Connection {
     std::vector<uint8_t> write_buffer_;
     std::optional<Http2FrameHeader> partial_headers_;  // HEADERS awaiting CONTINUATION
     std::vector<uint8_t> partial_block_;
+    uint32_t last_stream_id_ = 0;  // highest stream id a request was processed on
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{};
-- 
2.43.0


From db4b8be1c82170c919e0af5d9adcd5a47adfab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/35] fix: send GOAWAY with the last stream id before closing
 on protocol errors

---
 lib/http2_conn.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 662523e..0c1d902 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -428,7 +428,10 @@ Http2ProcessResult Http2Connection::internal_process() {
             return Http2ProcessResult::WantWrite;
         }
 
-        fill_read_buffer();
+        if (state_ == Http2ConnectionState::AwaitingPreface ||
+            state_ == Http2ConnectionState::AwaitingFrame) {
+            fill_read_buffer();
+        }
 
         switch (state_) {
             case Http2ConnectionState::AwaitingPreface: {
@@ -457,7 +460,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::ProtocolError: {
                 spdlog::error("protocol error. closing connection");
                 close();
-                return Http2ProcessResult::DiscardConnection;
+                break;  // flush GOAWAY first
             }
             case Http2ConnectionState::ClientClosed: {
                 return Http2ProcessResult::DiscardConnection;
@@ -474,8 +477,9 @@ void Http2Connection::close() {
         spdlog::error("attempting to close connection in closing state");
         return;
     }
-    write_goaway(1, (state_ != Http2ConnectionState::ProtocolError) ? ErrorCode::no_error
-                                                                    : ErrorCode::protocol_error);
+    write_goaway(last_stream_id_, (state_ != Http2ConnectionState::ProtocolError)
+                                      ? ErrorCode::no_error
+                                      : ErrorCode::protocol_error);
     spdlog::debug("GOAWAY frame enqueued");
     update_state(Http2ConnectionState::Closing);
 }
@@ -563,7 +567,8 @@ void Http2Connection::flush_write_buffer() {
         } else {
             spdlog::error("failed to flush write buffer: error: {}",
                           static_cast<int>(result.error()));
-            update_state(Http2ConnectionState::ProtocolError);
+            write_buffer_.clear();  // nothing more can be sent on this transport
+            update_state(Http2ConnectionState::ClientClosed);
         }
         return;
     }
-- 
2.43.0


From 255b63dd49e6b064a13229186b12660d5fffa9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 10/35] fix: answer requests received together with the end of
 the stream

---
 lib/http2_conn.cpp | 11 ++++++++---
 lib/http2_conn.h   |  1 +
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 0c1d902..0c87d85 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -134,7 +134,7 @@ void Http2Connection::write_settings() {
 }
 
 void Http2Connection::fill_read_buffer() {
-    while (true) {
+    while (!read_closed_) {
         if (read_buffer_.size() + TEMP_READ_BUFFER_SIZE >= MAX_READ_BUFFER_SIZE) {
             spdlog::debug("read buffer full");
             return;
@@ -150,7 +150,7 @@ void Http2Connection::fill_read_buffer() {
                     break;
                 case TransportError::ConnectionClosed:
                     spdlog::debug("transport connection closed");
-                    update_state(Http2ConnectionState::ClientClosed);
+                    read_closed_ = true;  // frames already buffered are still processed
                     break;
                 case TransportError::ProtocolError:
                     spdlog::error("transport protocol error");
@@ -439,7 +439,8 @@ Http2ProcessResult Http2Connection::internal_process() {
                     case ReadPrefaceResult::Success:
                         break;
                     case ReadPrefaceResult::NotEnoughData:
-                        return Http2ProcessResult::WantRead;
+                        return read_closed_ ? Http2ProcessResult::DiscardConnection
+                                            : Http2ProcessResult::WantRead;
                     case ReadPrefaceResult::ProtocolError:
                         return Http2ProcessResult::DiscardConnection;
                 }
@@ -449,6 +450,10 @@ Http2ProcessResult Http2Connection::internal_process() {
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
+                if (read_closed_) {
+                    update_state(Http2ConnectionState::ClientClosed);
+                    break;
+                }
                 return Http2ProcessResult::WantRead;
             }
             case Http2ConnectionState::Closing: {
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index fdaa6f3..c204ff8 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -56,6 +56,7 @@ class Http2Connection {
     std::optional<Http2FrameHeader> partial_headers_;  // HEADERS awaiting CONTINUATION
     std::vector<uint8_t> partial_block_;
     uint32_t last_stream_id_ = 0;  // highest stream id a request was processed on
+    bool read_closed_ = false;  // client has closed its sending side
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
     DynamicTable encoder_dynamic_table_{};
-- 
2.43.0


From 167b61f01863a00af6c2f1fae875d273d44e1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 11/35] fix: answer PING frames

---
 lib/http2_conn.cpp | 24 ++++++++++++++++++++++++
 lib/http2_conn.h   |  1 +
 2 files changed, 25 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 0c87d85..7ca1d5a 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -18,12 +18,15 @@ static constexpr std::string_view CLIENT_PREFACE{"PRI * HTTP/2.0\r\n\r\nSM\r\n\r
 static constexpr uint8_t FRAME_TYPE_DATA = 0x00;
 static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
+static constexpr uint8_t FRAME_TYPE_PING = 0x06;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
+static constexpr uint8_t FLAG_ACK = 0x01;
+static constexpr size_t PING_PAYLOAD_SIZE = 8;
 
 static constexpr size_t MAX_READ_BUFFER_SIZE = 64 * 1024;
 static constexpr size_t MAX_FRAME_SIZE = 16384;
@@ -73,6 +76,15 @@ void Http2Connection::write_settings_ack() {
     write_frame_header(header);
 }
 
+void Http2Connection::write_ping_ack(std::span<const uint8_t> payload) {
+    const Http2FrameHeader header{.length = static_cast<uint32_t>(payload.size()),
+                                  .type = FRAME_TYPE_PING,
+                                  .flags = FLAG_ACK,
+                                  .stream_id = 0};
+    write_frame_header(header);
+    enqueue_write(payload);
+}
+
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
     const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
@@ -347,6 +359,18 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             spdlog::debug("window size increment = {}", window_size_increment);
             break;
         }
+        case FRAME_TYPE_PING: {
+            spdlog::debug("received PING frame (flags={})", frame.flags());
+            if (frame.length() != PING_PAYLOAD_SIZE) {
+                spdlog::error("invalid PING frame length: {}", frame.length());
+                update_state(Http2ConnectionState::ProtocolError);
+                return;
+            }
+            if (!frame.has_flag(FLAG_ACK)) {
+                write_ping_ack(frame.payload());
+            }
+            break;
+        }
         case FRAME_TYPE_CONTINUATION: {
             spdlog::error("unexpected CONTINUATION frame for stream {}", frame.stream_id());
             update_state(Http2ConnectionState::ProtocolError);
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index c204ff8..86b586b 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -73,6 +73,7 @@ class Http2Connection {
     void write_frame_header(const Http2FrameHeader& header);
     void write_settings(const std::vector<Http2Setting>& settings);
     void write_settings_ack();
+    void write_ping_ack(std::span<const uint8_t> payload);
     void write_headers_response(uint32_t stream_id, std::span<const uint8_t> headers_data,
                                 uint8_t flags);
     void write_data_response(uint32_t uint32, const std::vector<uint8_t>& body);
-- 
2.43.0


From e9158e3ffddbe805b71a98101ac2fb3bc1600c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 12/35] fix: send a complete 400 response when :path or :method
 is missing

---
 lib/http2_conn.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 7ca1d5a..6e58bb3 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -543,24 +543,24 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
     auto path = get_header(headers, ":path");
     auto method = get_header(headers, ":method");
 
+    HttpResponse resp;
     if (!path || !method) {
         spdlog::error("invalid request: missing path or method");
-        return HttpResponse{.status_code = 400};
-    }
-
-    span->SetAttribute("http.method", *method);
-    span->SetAttribute("http.target", *path);
-    span->SetAttribute("ion.client_ip", client_ip_);
-
-    auto handler = router_.get_handler(path.value(), method.value());
-    HttpRequest req{.method = *method, .path = *path, .headers = headers};
-
-    HttpResponse resp;
-    try {
-        resp = handler(req);
-    } catch (const std::exception& e) {
-        spdlog::error("error processing request: {}", e.what());
-        resp = HttpResponse{.status_code = 500};
+        resp = HttpResponse{.status_code = 400};
+    } else {
+        span->SetAttribute("http.method", *method);
+        span->SetAttribute("http.target", *path);
+        span->SetAttribute("ion.client_ip", client_ip_);
+
+        auto handler = router_.get_handler(path.value(), method.value());
+        HttpRequest req{.method = *method, .path = *path, .headers = headers};
+
+        try {
+            resp = handler(req);
+        } catch (const std::exception& e) {
+            spdlog::error("error processing request: {}", e.what());
+            resp = HttpResponse{.status_code = 500};
+        }
     }
 
     span->SetAttribute("http.status_code", resp.status_code);
-- 
2.43.0


From 386a86ec35eca607eca186b55035e39f54b1a75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 13/35] fix: answer 500 whatever a handler or middleware throws

---
 lib/http2_conn.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 6e58bb3..bb248b7 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -552,14 +552,17 @@ HttpResponse Http2Connection::process_request(const std::vector<HttpHeader>& hea
         span->SetAttribute("http.target", *path);
         span->SetAttribute("ion.client_ip", client_ip_);
 
-        auto handler = router_.get_handler(path.value(), method.value());
         HttpRequest req{.method = *method, .path = *path, .headers = headers};
 
         try {
+            auto handler = router_.get_handler(path.value(), method.value());
             resp = handler(req);
         } catch (const std::exception& e) {
             spdlog::error("error processing request: {}", e.what());
             resp = HttpResponse{.status_code = 500};
+        } catch (...) {
+            spdlog::error("error processing request: unknown exception");
+            resp = HttpResponse{.status_code = 500};
         }
     }
 
-- 
2.43.0


From a4cb5b06168341139687b8a5ee32404a959027cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 14/35] fix: split response header blocks above the maximum
 frame size

---
 lib/http2_conn.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index bb248b7..4a2c543 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -87,13 +87,29 @@ void Http2Connection::write_ping_ack(std::span<const uint8_t> payload) {
 
 void Http2Connection::write_headers_response(uint32_t stream_id,
                                              std::span<const uint8_t> headers_data, uint8_t flags) {
-    const Http2FrameHeader header{.length = static_cast<uint32_t>(headers_data.size()),
-                                  .type = FRAME_TYPE_HEADERS,
-                                  .flags = flags,
-                                  .stream_id = stream_id};
+    const bool fits = headers_data.size() <= MAX_FRAME_SIZE;
+    auto fragment = headers_data.first(fits ? headers_data.size() : MAX_FRAME_SIZE);
+    const Http2FrameHeader header{
+        .length = static_cast<uint32_t>(fragment.size()),
+        .type = FRAME_TYPE_HEADERS,
+        .flags = fits ? flags : static_cast<uint8_t>(flags & ~FLAG_END_HEADERS),
+        .stream_id = stream_id};
 
     write_frame_header(header);
-    enqueue_write(headers_data);
+    enqueue_write(fragment);
+
+    // the rest of a block above the maximum frame size goes into CONTINUATION frames
+    for (auto rest = headers_data.subspan(fragment.size()); !rest.empty();
+         rest = rest.subspan(fragment.size())) {
+        fragment = rest.first(std::min(rest.size(), MAX_FRAME_SIZE));
+        const Http2FrameHeader continuation_header{
+            .length = static_cast<uint32_t>(fragment.size()),
+            .type = FRAME_TYPE_CONTINUATION,
+            .flags = fragment.size() == rest.size() ? FLAG_END_HEADERS : static_cast<uint8_t>(0),
+            .stream_id = stream_id};
+        write_frame_header(continuation_header);
+        enqueue_write(fragment);
+    }
 }
 
 void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
-- 
2.43.0


From 765b8a0575ac50e75c7bad5da9e715cb051b5132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 15/35] fix: keep the encoder's dynamic table within the size
 the client allows

---
 lib/hpack/dynamic_table.h          |  1 +
 lib/hpack/header_block_encoder.cpp | 15 +++++++++++++++
 lib/hpack/header_block_encoder.h   |  5 +++++
 lib/http2_conn.cpp                 |  8 ++++++++
 lib/http2_conn.h                   |  2 +-
 5 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/hpack/dynamic_table.h b/lib/hpack/dynamic_table.h
index 0b0748e..f2b9687 100644
--- a/lib/hpack/dynamic_table.h
+++ b/lib/hpack/dynamic_table.h
@@ -10,6 +10,7 @@ namespace ion {
 
 constexpr size_t HARD_TABLE_SIZE_LIMIT = 64 * 1024;
 constexpr size_t DEFAULT_MAX_TABLE_SIZE = 64 * 1024;
+constexpr size_t PROTOCOL_DEFAULT_TABLE_SIZE = 4096;  // SETTINGS_HEADER_TABLE_SIZE default
 
 class DynamicTable {
    public:
diff --git a/lib/hpack/header_block_encoder.cpp b/lib/hpack/header_block_encoder.cpp
index 85f767c..fb50c4f 100644
--- a/lib/hpack/header_block_encoder.cpp
+++ b/lib/hpack/header_block_encoder.cpp
@@ -57,8 +57,23 @@ static void write_index(std::vector<uint8_t>& bytes, size_t index, uint8_t prefi
     bytes.insert(bytes.end(), encoded_index.begin(), encoded_index.end());
 }
 
+void HeaderBlockEncoder::set_max_table_size(size_t new_size) {
+    dynamic_table_.set_max_table_size(new_size);
+    smallest_pending_size_ = std::min(smallest_pending_size_.value_or(new_size), new_size);
+    pending_size_ = new_size;
+}
+
 std::vector<uint8_t> HeaderBlockEncoder::encode(const std::vector<HttpHeader>& headers) {
     std::vector<uint8_t> bytes{};
+    if (smallest_pending_size_) {
+        // dynamic table size updates
+        if (*smallest_pending_size_ < pending_size_) {
+            write_index(bytes, *smallest_pending_size_, 5, 0x20);
+        }
+        write_index(bytes, pending_size_, 5, 0x20);
+        smallest_pending_size_.reset();
+    }
+
     for (auto& hdr : headers) {
         // is static header?
         const auto st_it = std::find_if(
diff --git a/lib/hpack/header_block_encoder.h b/lib/hpack/header_block_encoder.h
index f53707f..c3e1476 100644
--- a/lib/hpack/header_block_encoder.h
+++ b/lib/hpack/header_block_encoder.h
@@ -11,10 +11,15 @@ class HeaderBlockEncoder {
     explicit HeaderBlockEncoder(DynamicTable& dynamic_table);
     std::vector<uint8_t> encode(const std::vector<HttpHeader>& headers);
 
+    // limits the dynamic table; signalled to the decoder at the start of the next header block
+    void set_max_table_size(size_t new_size);
+
    private:
     std::vector<uint8_t> write_length_and_string(const std::string& str);
 
     DynamicTable& dynamic_table_;
+    std::optional<size_t> smallest_pending_size_;  // since the last header block
+    size_t pending_size_{};
 };
 
 }  // namespace ion
diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 4a2c543..9b7e172 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -23,6 +23,8 @@ static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
 static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
+static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
+
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
 static constexpr uint8_t FLAG_ACK = 0x01;
@@ -297,6 +299,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     update_state(Http2ConnectionState::ProtocolError);
                     return;
                 }
+                for (const auto& setting : *settings) {
+                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+                        encoder_.set_max_table_size(
+                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
+                    }
+                }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
             }
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 86b586b..8aebf4d 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -59,7 +59,7 @@ class Http2Connection {
     bool read_closed_ = false;  // client has closed its sending side
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
-    DynamicTable encoder_dynamic_table_{};
+    DynamicTable encoder_dynamic_table_{PROTOCOL_DEFAULT_TABLE_SIZE};
     HeaderBlockDecoder decoder_{decoder_dynamic_table_};
     HeaderBlockEncoder encoder_{encoder_dynamic_table_};
     std::chrono::steady_clock::time_point last_activity_{std::chrono::steady_clock::now()};
-- 
2.43.0


From faa7ddfb9f8554261c623e68aecccc883d1332c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 16/35] fix: treat a partial TCP write as progress, not as an
 error

---
 lib/transports/tcp_transport.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lib/transports/tcp_transport.cpp b/lib/transports/tcp_transport.cpp
index f083125..14ac908 100644
--- a/lib/transports/tcp_transport.cpp
+++ b/lib/transports/tcp_transport.cpp
@@ -51,13 +51,7 @@ std::expected<ssize_t, TransportError> TcpTransport::write(std::span<const uint8
         spdlog::error("TCP write error: {}", strerror(errno));
         return std::unexpected(TransportError::WriteError);
     }
-    if (bytes_written != static_cast<ssize_t>(buffer.size())) {
-        spdlog::error("TCP partial write: wrote {} of {} bytes", bytes_written, buffer.size());
-        // For non-blocking sockets, partial writes can happen
-        // TODO: Fix this!
-        return std::unexpected(TransportError::WriteError);
-    }
-    spdlog::trace("successfully wrote {} bytes to TCP socket", bytes_written);
+    spdlog::trace("successfully wrote {} of {} bytes to TCP socket", bytes_written, buffer.size());
     return bytes_written;
 }
 
-- 
2.43.0


From 9ce6dc598405b8d44e7b6628a1d27dbe4919ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 17/35] fix: clear the OpenSSL error queue before each TLS
 operation

---
 lib/transports/tls_transport.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 6ddeed3..5a9bc5b 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -38,6 +38,7 @@ TlsTransport::TlsTransport(SocketFd&& client_fd, const TlsContext& tls_context)
 }
 
 std::expected<void, TransportError> TlsTransport::handshake() const {
+    ERR_clear_error();  // SSL_get_error() inspects the thread's error queue
     const int result = SSL_accept(ssl_);
     if (result == 1) {
         return {};
@@ -93,6 +94,7 @@ void TlsTransport::print_debug_to_stderr() {
 
 std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buffer) const {
     spdlog::trace("reading from SSL");
+    ERR_clear_error();
     const auto bytes_read = SSL_read(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_read <= 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_read)) {
@@ -118,6 +120,7 @@ std::expected<ssize_t, TransportError> TlsTransport::read(std::span<uint8_t> buf
 }
 
 std::expected<ssize_t, TransportError> TlsTransport::write(std::span<const uint8_t> buffer) const {
+    ERR_clear_error();
     const auto bytes_written = SSL_write(ssl_, buffer.data(), static_cast<int>(buffer.size()));
     if (bytes_written < 0) {
         switch (const int ssl_error = SSL_get_error(ssl_, bytes_written)) {
-- 
2.43.0


From f934f6c738ddc35c8d7b9d66b82a60aac3e157a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 18/35] fix: wait for writability when a TLS handshake is
 blocked on writing

---
 lib/http2_conn.cpp               | 5 +++++
 lib/transports/tls_transport.cpp | 9 ++++++---
 lib/transports/transport.h       | 1 +
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 9b7e172..ed47315 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -176,6 +176,7 @@ void Http2Connection::fill_read_buffer() {
         if (!bytes_read_res) {
             switch (bytes_read_res.error()) {
                 case TransportError::WantReadOrWrite:
+                case TransportError::WantWrite:
                     spdlog::trace("transport want read/write");
                     break;
                 case TransportError::ConnectionClosed:
@@ -450,6 +451,10 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
             spdlog::trace("handshake: want read/write");
             return Http2ProcessResult::WantRead;
         }
+        if (handshake_result.error() == TransportError::WantWrite) {
+            spdlog::trace("handshake: want write");
+            return Http2ProcessResult::WantWrite;
+        }
         if (handshake_result.error() == TransportError::ConnectionClosed) {
             spdlog::trace("handshake: connection closed");
             return Http2ProcessResult::DiscardConnection;
diff --git a/lib/transports/tls_transport.cpp b/lib/transports/tls_transport.cpp
index 5a9bc5b..0a1bb82 100644
--- a/lib/transports/tls_transport.cpp
+++ b/lib/transports/tls_transport.cpp
@@ -48,11 +48,14 @@ std::expected<void, TransportError> TlsTransport::handshake() const {
         case SSL_ERROR_ZERO_RETURN:
             spdlog::debug("TLS connection closed by peer before handshake (likely health check)");
             return std::unexpected(TransportError::ConnectionClosed);
-        case SSL_ERROR_WANT_READ:
-        case SSL_ERROR_WANT_WRITE: {
-            spdlog::trace("TLS handshake want read/write");
+        case SSL_ERROR_WANT_READ: {
+            spdlog::trace("TLS handshake want read");
             return std::unexpected(TransportError::WantReadOrWrite);
         }
+        case SSL_ERROR_WANT_WRITE: {
+            spdlog::trace("TLS handshake want write");
+            return std::unexpected(TransportError::WantWrite);
+        }
         case SSL_ERROR_SSL: {
             const unsigned long err = ERR_get_error();
             if (ERR_GET_REASON(err) == SSL_R_UNEXPECTED_EOF_WHILE_READING) {
diff --git a/lib/transports/transport.h b/lib/transports/transport.h
index e02e96d..7f8b73b 100644
--- a/lib/transports/transport.h
+++ b/lib/transports/transport.h
@@ -8,6 +8,7 @@ namespace ion {
 
 enum class TransportError {
     WantReadOrWrite,
+    WantWrite,  // handshake only
     WriteError,
     ConnectionClosed,
     ProtocolError,
-- 
2.43.0


From 0655983353845c500bdf58d8519c6e8ea1ac7c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 19/35] fix: keep serving when a connection cannot be accepted
 or set up

---
 lib/http2_server.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index ec21578..5cc211f 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -67,13 +67,17 @@ void Http2Server::reap_idle_connections(Poller& poller) {
 
 void Http2Server::handle_incoming_connection(TcpListener& listener, Poller& poller) {
     const bool at_capacity = connections_.size() >= MAX_CONNECTIONS;
-    if (!at_capacity) {
-        establish_conn(listener, poller);
-    } else {
-        if (const auto overflow = listener.try_accept()) {
-            spdlog::warn("server at capacity. rejecting new connection from {}",
-                         overflow->client_ip().value_or("unknown IP"));
+    try {
+        if (!at_capacity) {
+            establish_conn(listener, poller);
+        } else {
+            if (const auto overflow = listener.try_accept()) {
+                spdlog::warn("server at capacity. rejecting new connection from {}",
+                             overflow->client_ip().value_or("unknown IP"));
+            }
         }
+    } catch (const std::exception& e) {
+        spdlog::error("failed to accept connection: {}", e.what());
     }
 }
 
-- 
2.43.0


From b3284d4f2ebce875a332853c110437c60818a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 20/35] fix: do not let a client disconnect raise a fatal
 SIGPIPE

---
 lib/http2_server.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/http2_server.cpp b/lib/http2_server.cpp
index 5cc211f..a8a376d 100644
--- a/lib/http2_server.cpp
+++ b/lib/http2_server.cpp
@@ -121,7 +121,17 @@ void Http2Server::handle_connection_events(Poller& poller, int fd, PollEventType
     }
 }
 
+// Unless the application handles SIGPIPE, writing to a socket whose peer has gone must fail with
+// EPIPE rather than end the process.
+static void ignore_default_sigpipe() {
+    struct sigaction action{};
+    if (sigaction(SIGPIPE, nullptr, &action) == 0 && action.sa_handler == SIG_DFL) {
+        std::signal(SIGPIPE, SIG_IGN);
+    }
+}
+
 void Http2Server::start(uint16_t port) {
+    ignore_default_sigpipe();
     TcpListener listener{port};
     listener.listen();
     const int listener_fd = listener.raw_fd();
-- 
2.43.0


From cce0e627eb71099187faa42d25d9524aa244ba64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 21/35] fix: resolve symbolic links that follow a missing
 directory and ..

---
 lib/file_reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/file_reader.cpp b/lib/file_reader.cpp
index f7e4ce2..46da793 100644
--- a/lib/file_reader.cpp
+++ b/lib/file_reader.cpp
@@ -117,6 +117,13 @@ std::optional<std::string> FileReader::sanitize_path(const std::string& base_dir
         // Normalize the combined path (resolve .. and . where possible without requiring the leaf)
         auto full = fs::weakly_canonical(combined);
 
+        // Removing "missing/.." can expose a symbolic link that was not resolved: repeat until
+        // nothing changes
+        for (auto resolved = fs::weakly_canonical(full); resolved != full;
+             resolved = fs::weakly_canonical(full)) {
+            full = std::move(resolved);
+        }
+
         // Ensure the resolved path is within the base directory by comparing path components
         auto base_it = base.begin();
         auto full_it = full.begin();
-- 
2.43.0


From aa37c6e1fad6822ff8c33e81ec1ba6cf35857bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 22/35] fix: serve index.html for the bare prefix with a query
 string

---
 lib/static_file_handler.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/static_file_handler.cpp b/lib/static_file_handler.cpp
index 88d21a3..80d232b 100644
--- a/lib/static_file_handler.cpp
+++ b/lib/static_file_handler.cpp
@@ -18,6 +18,11 @@ bool StaticFileHandler::matches(const std::string& path) const {
 std::string StaticFileHandler::get_relative_path(const std::string& url_path) const {
     std::string rel_path = url_path.substr(url_prefix_.length());
 
+    // remove query string
+    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
+        rel_path = rel_path.substr(0, query_pos);
+    }
+
     if (rel_path.empty() || rel_path == "/") {
         rel_path = "/index.html";
     }
@@ -26,11 +31,6 @@ std::string StaticFileHandler::get_relative_path(const std::string& url_path) co
         rel_path = rel_path.substr(1);
     }
 
-    // remove query string
-    if (const auto query_pos = rel_path.find('?'); query_pos != std::string::npos) {
-        rel_path = rel_path.substr(0, query_pos);
-    }
-
     return rel_path;
 }
 
-- 
2.43.0


From 3ab70d0d49c75fcc6c28b2240f57e2aec49bdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 23/35] fix: keep client octets from forging access log fields
 or lines

---
 lib/access_log.cpp | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/lib/access_log.cpp b/lib/access_log.cpp
index 20b5202..9daf59a 100644
--- a/lib/access_log.cpp
+++ b/lib/access_log.cpp
@@ -8,6 +8,20 @@
 
 namespace ion {
 
+// Octets that could end a field or a line are written as \xHH, as Apache does
+static std::string escape(std::string_view value, bool quoted) {
+    std::string result;
+    for (const char c : value) {
+        const auto octet = static_cast<uint8_t>(c);
+        if (octet < 0x20 || octet >= 0x7f || c == '"' || c == '\\' || (!quoted && c == ' ')) {
+            result += std::format("\\x{:02x}", octet);
+        } else {
+            result += c;
+        }
+    }
+    return result;
+}
+
 void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t status_code,
                             size_t content_length, const std::string& client_ip) {
     auto access_log = spdlog::get(ACCESS_LOGGER_NAME);
@@ -15,25 +29,19 @@ void AccessLog::log_request(std::vector<HttpHeader>& req_headers, uint16_t statu
         return;
     }
 
-    std::string method{"-"};
-    std::string path{"-"};
-    std::string user_agent{"-"};
-    std::string referrer{"-"};
-
-    for (const auto& [name, value] : req_headers) {
-        if (name == ":method") {
-            method = value;
+    // the first occurrence counts, as it does when the request is routed
+    const auto field = [&req_headers](std::string_view field_name, bool quoted) -> std::string {
+        for (const auto& [name, value] : req_headers) {
+            if (name == field_name) {
+                return escape(value, quoted);
+            }
         }
-        if (name == ":path") {
-            path = value;
-        }
-        if (name == "user-agent") {
-            user_agent = value;
-        }
-        if (name == "referer") {
-            referrer = value;
-        }
-    }
+        return "-";
+    };
+    const auto method = field(":method", false);
+    const auto path = field(":path", false);
+    const auto user_agent = field("user-agent", true);
+    const auto referrer = field("referer", true);
     const auto entry =
         std::format(R"({} - - {} "{} {} HTTP/2" {} {} "{}" "{}")",
                     (client_ip.empty() ? "-" : client_ip), SystemClock::clf_timestamp(), method,
-- 
2.43.0


From dfa9d2895eea49ab9752c4fb2f9283fa2472ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 24/35] fix: count requests that fail with an exception on the
 status page

---
 app/server_stats.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/app/server_stats.cpp b/app/server_stats.cpp
index af5448c..aa865b1 100644
--- a/app/server_stats.cpp
+++ b/app/server_stats.cpp
@@ -1,5 +1,6 @@
 #include "server_stats.h"
 
+#include <exception>
 #include <iomanip>
 #include <random>
 
@@ -20,13 +21,22 @@ ion::Middleware ServerStats::middleware() {
             stats.total_requests++;
             const auto start = std::chrono::steady_clock::now();
 
-            auto res = next(req);
+            ion::HttpResponse res{.status_code = 500};
+            std::exception_ptr error;
+            try {
+                res = next(req);
+            } catch (...) {
+                error = std::current_exception();  // will be answered with 500
+            }
 
             const auto end = std::chrono::steady_clock::now();
             const auto duration =
                 std::chrono::duration_cast<std::chrono::microseconds>(end - start).count();
             stats.total_duration_us += duration;
             stats.status_codes[res.status_code]++;
+            if (error) {
+                std::rethrow_exception(error);
+            }
             return res;
         };
     };
-- 
2.43.0


From c82f6eebda629119295c3c992fa9ffb6662ad078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 25/35] fix: send no body with the custom 404 page for HEAD

---
 app/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/main.cpp b/app/main.cpp
index 66dc04a..0851429 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -49,6 +49,9 @@ void run_server(const Args& args) {
                     auto file_res =
                         ion::StaticFileHandler::file_response(args.status_404_file_path, false);
                     file_res.status_code = 404;
+                    if (req.method == "HEAD") {
+                        file_res.body.clear();
+                    }
                     return file_res;
                 }
                 return res;
-- 
2.43.0


From dbe744d1ce55d7aca30b23a9580894aae2db849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 26/35] fix: send SETTINGS as soon as the client preface is
 complete

---
 lib/http2_conn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index ed47315..1f382d6 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -490,7 +490,7 @@ Http2ProcessResult Http2Connection::internal_process() {
             case Http2ConnectionState::AwaitingPreface: {
                 switch (read_preface()) {
                     case ReadPrefaceResult::Success:
-                        break;
+                        continue;  // send our SETTINGS before looking for frames
                     case ReadPrefaceResult::NotEnoughData:
                         return read_closed_ ? Http2ProcessResult::DiscardConnection
                                             : Http2ProcessResult::WantRead;
-- 
2.43.0


From c3cee1453721502f0cf756456f21792e65b12e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 27/35] fix: give other connections and stop requests a turn
 while a client keeps sending

---
 lib/http2_conn.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 1f382d6..16ad420 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -36,6 +36,7 @@ static constexpr size_t MAX_HEADER_BLOCK_SIZE = 256 * 1024;
 static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
+static constexpr size_t MAX_FRAMES_PER_PROCESS = 64;
 
 static constexpr std::chrono::seconds IDLE_TIMEOUT{5};
 
@@ -465,6 +466,7 @@ std::optional<Http2ProcessResult> Http2Connection::handle_handshake() {
 }
 
 Http2ProcessResult Http2Connection::internal_process() {
+    size_t frames_processed = 0;
     while (true) {
         spdlog::trace("processing state: {}", state_to_string(state_));
 
@@ -499,7 +501,13 @@ Http2ProcessResult Http2Connection::internal_process() {
                 }
             }
             case Http2ConnectionState::AwaitingFrame: {
+                if (frames_processed == MAX_FRAMES_PER_PROCESS) {
+                    // a client that never stops sending must not keep the event loop to itself.
+                    // frames may be left in our buffer, so resume as soon as the socket is writable
+                    return Http2ProcessResult::WantWrite;
+                }
                 if (try_read_frame()) {
+                    ++frames_processed;
                     spdlog::debug("frame processed, continuing...");
                     break;
                 }
-- 
2.43.0


From 6b7371588744dfa2558c9fe1ba52a7aa72954d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:34 +0000
Subject: [PATCH 28/35] fix: register a reused descriptor number even if its
 old registration was not removed

---
 lib/pollers/epoll_poller.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pollers/epoll_poller.cpp b/lib/pollers/epoll_poller.cpp
index bbf2541..5e52b9f 100644
--- a/lib/pollers/epoll_poller.cpp
+++ b/lib/pollers/epoll_poller.cpp
@@ -55,7 +55,12 @@ void EPollPoller::set(int fd, PollEventType event_types) {
 
     const int op = registered_fds_.contains(fd) ? EPOLL_CTL_MOD : EPOLL_CTL_ADD;
 
-    if (epoll_ctl(epoll_fd_, op, fd, &ev) < 0) {
+    int ret = epoll_ctl(epoll_fd_, op, fd, &ev);
+    if (ret < 0 && op == EPOLL_CTL_MOD && errno == ENOENT) {
+        // the descriptor was closed, which ends its registration, and its number is in use again
+        ret = epoll_ctl(epoll_fd_, EPOLL_CTL_ADD, fd, &ev);
+    }
+    if (ret < 0) {
         spdlog::warn("epoll_ctl: failed (fd: {}): {}", fd, strerror(errno));
         return;
     }
-- 
2.43.0


From 83a03e2d367b60b813da47c3d8f1aaac498779f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:28 +0000
Subject: [PATCH 29/35] fix: do not keep references to lookup arguments in
 static file routes

---
 lib/router.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/router.cpp b/lib/router.cpp
index 5dbf97c..2c50802 100644
--- a/lib/router.cpp
+++ b/lib/router.cpp
@@ -24,8 +24,9 @@ RouteHandler Router::get_handler(const std::string& path, const std::string& met
         if (method == "GET" || method == "HEAD") {
             for (const auto& handler : static_handlers_) {
                 if (handler->matches(path)) {
-                    target = [&handler, path, &method](const HttpRequest&) -> HttpResponse {
-                        return handler->handle(path, method == "HEAD");
+                    target = [handler = handler.get(), path,
+                              is_head = method == "HEAD"](const HttpRequest&) -> HttpResponse {
+                        return handler->handle(path, is_head);
                     };
                 }
             }
-- 
2.43.0


From c91d99a95e84a841e53f991e140488998e900a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 30/35] fix: accept log levels in any case as the option's
 check does

---
 app/args.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/args.cpp b/app/args.cpp
index 56a6f66..3454c62 100644
--- a/app/args.cpp
+++ b/app/args.cpp
@@ -14,8 +14,8 @@ Args Args::register_opts(CLI::App& app) {
     app.add_option("--log-level,-l", args.log_level,
                    "Set logging level (trace, debug, info, warn, error, critical, off)")
         ->default_val(DEFAULT_LOG_LEVEL)
-        ->check(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
-                              CLI::ignore_case));
+        ->transform(CLI::IsMember({"trace", "debug", "info", "warn", "error", "critical", "off"},
+                                  CLI::ignore_case));
     app.add_option("--static,-s", args.static_map,
                    "Map URL prefix to directory. Usage: --static /url/path ./fs/path")
         ->expected(2);
-- 
2.43.0


From bf15cef74b0af725d129af112a245f335fa8a729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 31/35] fix: detect broken standard streams on SIGPIPE without
 raising it again

---
 app/signal_handler.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/app/signal_handler.cpp b/app/signal_handler.cpp
index 5c52083..923894a 100644
--- a/app/signal_handler.cpp
+++ b/app/signal_handler.cpp
@@ -1,7 +1,9 @@
 #include "signal_handler.h"
 
+#include <poll.h>
 #include <unistd.h>
 
+#include <cerrno>
 #include <csignal>
 
 SignalHandler SignalHandler::setup(ion::Http2Server& server) {
@@ -37,11 +39,18 @@ void SignalHandler::signal_handler(int) {
 }
 
 void SignalHandler::sigpipe_handler(int) {
-    constexpr char dummy = 0;
-    if (write(STDOUT_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    // a zero-length write does not fail on a broken pipe (and raises SIGPIPE again on a broken
+    // socket), so ask for the state of the descriptor instead
+    const int saved_errno = errno;
+    const auto is_broken = [](int fd) {
+        pollfd pfd{fd, POLLOUT, 0};
+        return poll(&pfd, 1, 0) > 0 && (pfd.revents & (POLLERR | POLLHUP)) != 0;
+    };
+    if (is_broken(STDOUT_FILENO)) {
         stop_server(ion::StopReason::StdOutPipeBroken);
     }
-    if (write(STDERR_FILENO, &dummy, 0) < 0 && errno == EPIPE) {
+    if (is_broken(STDERR_FILENO)) {
         stop_server(ion::StopReason::StdErrPipeBroken);
     }
+    errno = saved_errno;
 }
-- 
2.43.0


From 761b2afed91c02646d09e1f72b41feae5ce852b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:53 +0000
Subject: [PATCH 32/35] fix: write the access log whatever the log level is

---
 app/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/main.cpp b/app/main.cpp
index 0851429..6409001 100644
--- a/app/main.cpp
+++ b/app/main.cpp
@@ -70,6 +70,7 @@ void setup_access_logs(const std::string& log_path) {
     try {
         auto logger = spdlog::basic_logger_mt(ion::AccessLog::ACCESS_LOGGER_NAME, log_path);
         logger->set_pattern("%v");
+        logger->set_level(spdlog::level::info);  // independent of --log-level
         logger->flush_on(spdlog::level::info);
         spdlog::info("writing access logs to {}", log_path);
     } catch (const spdlog::spdlog_ex& e) {
-- 
2.43.0


From ef27ee181a3fd14f3d4e8ffed8b162c2e000a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:14 +0000
Subject: [PATCH 33/35] fix: respect the client's flow-control windows

Response bodies were written in full whatever the client's windows allowed.
Keep what does not fit until SETTINGS or WINDOW_UPDATE make room.
---
 lib/http2_conn.cpp | 118 ++++++++++++++++++++++++++++++++++++---------
 lib/http2_conn.h   |  21 +++++++-
 lib/http2_frames.h |   2 +-
 3 files changed, 117 insertions(+), 24 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 16ad420..3c1d6fb 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -17,6 +17,7 @@ static constexpr std::string_view CLIENT_PREFACE{"PRI * HTTP/2.0\r\n\r\nSM\r\n\r
 
 static constexpr uint8_t FRAME_TYPE_DATA = 0x00;
 static constexpr uint8_t FRAME_TYPE_HEADERS = 0x01;
+static constexpr uint8_t FRAME_TYPE_RST_STREAM = 0x03;
 static constexpr uint8_t FRAME_TYPE_SETTINGS = 0x04;
 static constexpr uint8_t FRAME_TYPE_PING = 0x06;
 static constexpr uint8_t FRAME_TYPE_GOAWAY = 0x07;
@@ -24,6 +25,7 @@ static constexpr uint8_t FRAME_TYPE_WINDOW_UPDATE = 0x08;
 static constexpr uint8_t FRAME_TYPE_CONTINUATION = 0x09;
 
 static constexpr uint16_t SETTINGS_HEADER_TABLE_SIZE = 0x0001;
+static constexpr uint16_t SETTINGS_INITIAL_WINDOW_SIZE = 0x0004;
 
 static constexpr uint8_t FLAG_END_HEADERS = 0x04;
 static constexpr uint8_t FLAG_END_STREAM = 0x01;
@@ -37,6 +39,7 @@ static constexpr size_t INITIAL_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t INITIAL_WRITE_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t TEMP_READ_BUFFER_SIZE = 16 * 1024;
 static constexpr size_t MAX_FRAMES_PER_PROCESS = 64;
+static constexpr size_t MAX_CONCURRENT_STREAMS = 100;
 
 static constexpr std::chrono::seconds IDLE_TIMEOUT{5};
 
@@ -115,31 +118,82 @@ void Http2Connection::write_headers_response(uint32_t stream_id,
     }
 }
 
-void Http2Connection::write_data_response(uint32_t stream_id, const std::vector<uint8_t>& body) {
-    size_t remaining_bytes = body.size();
-    size_t start = 0;
+void Http2Connection::write_data_response(uint32_t stream_id, std::vector<uint8_t> body) {
+    pending_bodies_.push_back(
+        {.stream_id = stream_id, .body = std::move(body), .window = initial_stream_window_});
+    send_pending_bodies();
+}
 
-    while (remaining_bytes != 0) {
-        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);
-        remaining_bytes -= chunk_size;
+// Sends as much of the pending bodies as the client's flow-control windows allow
+void Http2Connection::send_pending_bodies() {
+    for (auto& [stream_id, body, sent, window] : pending_bodies_) {
+        while (sent != body.size()) {
+            const auto allowed = std::min(window, connection_window_);
+            if (allowed <= 0) {
+                spdlog::debug("stream {} is waiting for its flow-control window", stream_id);
+                break;
+            }
+            const size_t remaining_bytes = body.size() - sent;
+            const size_t chunk_size =
+                std::min({remaining_bytes, MAX_FRAME_SIZE - 128, static_cast<size_t>(allowed)});
 
-        const Http2FrameHeader frame_header{
-            .length = static_cast<uint32_t>(chunk_size),
-            .type = FRAME_TYPE_DATA,
-            .flags = remaining_bytes == 0 ? FLAG_END_STREAM : static_cast<uint8_t>(0),
-            .stream_id = stream_id};
+            const Http2FrameHeader frame_header{
+                .length = static_cast<uint32_t>(chunk_size),
+                .type = FRAME_TYPE_DATA,
+                .flags = chunk_size == remaining_bytes ? FLAG_END_STREAM : static_cast<uint8_t>(0),
+                .stream_id = stream_id};
 
-        write_frame_header(frame_header);
+            write_frame_header(frame_header);
 
-        spdlog::trace("enqueuing data frame for write (size: {}, rem: {})", chunk_size,
-                      remaining_bytes);
+            spdlog::trace("enqueuing data frame for write (size: {}, rem: {})", chunk_size,
+                          remaining_bytes - chunk_size);
+
+            enqueue_write(std::span(body.data() + sent, chunk_size));
+
+            sent += chunk_size;
+            window -= static_cast<int64_t>(chunk_size);
+            connection_window_ -= static_cast<int64_t>(chunk_size);
+        }
+    }
+    std::erase_if(pending_bodies_, [](const auto& p) { return p.sent == p.body.size(); });
+}
 
-        enqueue_write(std::span(body.data() + start, chunk_size));
+void Http2Connection::process_window_update(uint32_t stream_id, uint32_t increment) {
+    if (stream_id == 0) {
+        connection_window_ += increment;
+    } else {
+        for (auto& pending : pending_bodies_) {
+            if (pending.stream_id == stream_id) {
+                pending.window += increment;
+            }
+        }
+    }
+    send_pending_bodies();
+}
 
-        start += chunk_size;
+void Http2Connection::process_setting(const Http2Setting& setting) {
+    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
+        encoder_.set_max_table_size(std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
+    } else if (setting.identifier == SETTINGS_INITIAL_WINDOW_SIZE) {
+        // applies to the streams that are already open, too
+        const int64_t change = setting.value - initial_stream_window_;
+        initial_stream_window_ = setting.value;
+        for (auto& pending : pending_bodies_) {
+            pending.window += change;
+        }
     }
 }
 
+void Http2Connection::write_rst_stream(uint32_t stream_id, ErrorCode error_code) {
+    const Http2FrameHeader header{
+        .length = 4, .type = FRAME_TYPE_RST_STREAM, .flags = 0x00, .stream_id = stream_id};
+    write_frame_header(header);
+    const auto code = static_cast<uint32_t>(error_code);
+    const std::array payload{static_cast<uint8_t>(code >> 24), static_cast<uint8_t>(code >> 16),
+                             static_cast<uint8_t>(code >> 8), static_cast<uint8_t>(code)};
+    enqueue_write(payload);
+}
+
 void Http2Connection::write_goaway(uint32_t last_stream_id, ErrorCode error_code) {
     const Http2GoAwayPayload payload{.last_stream_id = last_stream_id,
                                      .error_code = static_cast<uint32_t>(error_code)};
@@ -157,7 +211,7 @@ void Http2Connection::write_goaway(uint32_t last_stream_id, ErrorCode error_code
 }
 
 void Http2Connection::write_settings() {
-    const std::vector<Http2Setting> settings = {{0x0003, 100},    // MAX_CONCURRENT_STREAMS
+    const std::vector<Http2Setting> settings = {{0x0003, MAX_CONCURRENT_STREAMS},
                                                 {0x0004, 65535},  // INITIAL_WINDOW_SIZE
                                                 {0x0005, MAX_FRAME_SIZE}};
     write_settings(settings);
@@ -302,13 +356,11 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                     return;
                 }
                 for (const auto& setting : *settings) {
-                    if (setting.identifier == SETTINGS_HEADER_TABLE_SIZE) {
-                        encoder_.set_max_table_size(
-                            std::min<size_t>(setting.value, PROTOCOL_DEFAULT_TABLE_SIZE));
-                    }
+                    process_setting(setting);
                 }
                 spdlog::debug("read {} settings, sending ACK", settings->size());
                 write_settings_ack();
+                send_pending_bodies();
             }
             break;
         }
@@ -351,8 +403,19 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
                 spdlog::debug("ignoring HEADERS on already answered stream {}", frame.stream_id());
                 break;
             }
+            if (goaway_received_) {
+                spdlog::debug("ignoring HEADERS after GOAWAY");
+                break;
+            }
             last_stream_id_ = frame.stream_id();
 
+            if (pending_bodies_.size() >= MAX_CONCURRENT_STREAMS) {
+                spdlog::warn("too many unfinished responses, refusing stream {}",
+                             frame.stream_id());
+                write_rst_stream(frame.stream_id(), ErrorCode::refused_stream);
+                break;
+            }
+
             for (const auto& hdr : *hdrs) {
                 spdlog::debug(" - request header: {}: {}", hdr.name, hdr.value);
             }
@@ -374,6 +437,12 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             AccessLog::log_request(*hdrs, resp.status_code, resp.body.size(), client_ip_);
             break;
         }
+        case FRAME_TYPE_RST_STREAM: {
+            spdlog::debug("received RST_STREAM frame for stream {}", frame.stream_id());
+            std::erase_if(pending_bodies_,
+                          [&](const auto& p) { return p.stream_id == frame.stream_id(); });
+            break;
+        }
         case FRAME_TYPE_WINDOW_UPDATE: {
             spdlog::debug("received WINDOW_UPDATE frame for stream {}", frame.stream_id());
             if (frame.length() != Http2WindowUpdate::wire_size) {
@@ -383,6 +452,7 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             }
             const auto [window_size_increment] = frame.read_window_update();
             spdlog::debug("window size increment = {}", window_size_increment);
+            process_window_update(frame.stream_id(), window_size_increment);
             break;
         }
         case FRAME_TYPE_PING: {
@@ -404,7 +474,7 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
         }
         case FRAME_TYPE_GOAWAY: {
             spdlog::debug("received GOAWAY frame (stream {})", frame.stream_id());
-            update_state(Http2ConnectionState::ClientClosed);
+            goaway_received_ = true;
             break;
         }
         default:
@@ -506,6 +576,10 @@ Http2ProcessResult Http2Connection::internal_process() {
                     // frames may be left in our buffer, so resume as soon as the socket is writable
                     return Http2ProcessResult::WantWrite;
                 }
+                if (goaway_received_ && pending_bodies_.empty()) {
+                    update_state(Http2ConnectionState::ClientClosed);
+                    break;
+                }
                 if (try_read_frame()) {
                     ++frames_processed;
                     spdlog::debug("frame processed, continuing...");
diff --git a/lib/http2_conn.h b/lib/http2_conn.h
index 8aebf4d..c5707ce 100644
--- a/lib/http2_conn.h
+++ b/lib/http2_conn.h
@@ -2,6 +2,7 @@
 #include <opentelemetry/trace/span.h>
 
 #include <chrono>
+#include <deque>
 #include <optional>
 #include <span>
 #include <vector>
@@ -34,7 +35,17 @@ enum class Http2ConnectionState {
 
 enum class ReadPrefaceResult { Success, NotEnoughData, ProtocolError };
 
+// The part of a response body that the client's flow-control windows have not let us send yet
+struct PendingBody {
+    uint32_t stream_id;
+    std::vector<uint8_t> body;
+    size_t sent;
+    int64_t window;
+};
+
 class Http2Connection {
+    static constexpr int64_t INITIAL_WINDOW_SIZE = 65535;
+
    public:
     explicit Http2Connection(std::unique_ptr<Transport> transport, const std::string& client_ip,
                              const Router& router);
@@ -56,6 +67,10 @@ class Http2Connection {
     std::optional<Http2FrameHeader> partial_headers_;  // HEADERS awaiting CONTINUATION
     std::vector<uint8_t> partial_block_;
     uint32_t last_stream_id_ = 0;  // highest stream id a request was processed on
+    std::deque<PendingBody> pending_bodies_;
+    int64_t connection_window_ = INITIAL_WINDOW_SIZE;
+    int64_t initial_stream_window_ = INITIAL_WINDOW_SIZE;  // as set by the client
+    bool goaway_received_ = false;
     bool read_closed_ = false;  // client has closed its sending side
     Http2ConnectionState state_ = Http2ConnectionState::AwaitingHandshake;
     DynamicTable decoder_dynamic_table_{};
@@ -76,7 +91,11 @@ class Http2Connection {
     void write_ping_ack(std::span<const uint8_t> payload);
     void write_headers_response(uint32_t stream_id, std::span<const uint8_t> headers_data,
                                 uint8_t flags);
-    void write_data_response(uint32_t uint32, const std::vector<uint8_t>& body);
+    void write_data_response(uint32_t stream_id, std::vector<uint8_t> body);
+    void send_pending_bodies();
+    void process_window_update(uint32_t stream_id, uint32_t increment);
+    void process_setting(const Http2Setting& setting);
+    void write_rst_stream(uint32_t stream_id, ErrorCode error_code);
     void write_goaway(uint32_t last_stream_id, ErrorCode error_code);
     void write_settings();
     void process_frame(const Http2FrameReader& frame);
diff --git a/lib/http2_frames.h b/lib/http2_frames.h
index 1797568..646d9a1 100644
--- a/lib/http2_frames.h
+++ b/lib/http2_frames.h
@@ -113,6 +113,6 @@ struct Http2WindowUpdate {
     }
 };
 
-enum class ErrorCode : uint32_t { no_error = 0x00, protocol_error = 0x01 };
+enum class ErrorCode : uint32_t { no_error = 0x00, protocol_error = 0x01, refused_stream = 0x07 };
 
 }  // namespace ion
-- 
2.43.0


From 93920ddee06a2592617794f492790d5adb8e2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:52 +0000
Subject: [PATCH 34/35] fix: limit the size of a decoded header list

A header block of a few kilobytes can refer to a 4 KB table entry
thousands of times, so a single request could make the server allocate
up to 1 GB. Reject lists above 1 MB (counted as in RFC 9113, 6.5.2).
---
 lib/hpack/header_block_decoder.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/hpack/header_block_decoder.cpp b/lib/hpack/header_block_decoder.cpp
index 69cc6f1..15ea305 100644
--- a/lib/hpack/header_block_decoder.cpp
+++ b/lib/hpack/header_block_decoder.cpp
@@ -14,6 +14,10 @@
 namespace ion {
 
 static constexpr size_t MAX_HEADER_STRING_LENGTH = 4 * 1024;
+// A small block can refer to a large table entry any number of times, so the decoded list needs a
+// limit of its own. Fields are counted as in SETTINGS_MAX_HEADER_LIST_SIZE (RFC 9113, 6.5.2).
+static constexpr size_t MAX_HEADER_LIST_SIZE = 1024 * 1024;
+static constexpr size_t HEADER_FIELD_OVERHEAD = 32;
 
 static void populate_huffman_tree(HuffmanTree& tree) {
     for (uint16_t i = 0; i < static_cast<uint16_t>(HUFFMAN_CODES.size()); i++) {
@@ -191,8 +195,10 @@ std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
     std::span<const uint8_t> data) {
     auto hdrs = std::vector<HttpHeader>{};
     ByteReader reader(data);
+    size_t list_size = 0;
 
     while (reader.has_bytes()) {
+        const auto field_count = hdrs.size();
         uint8_t first_byte = *reader.peek_byte();
         auto type = HeaderField::from_byte(first_byte);
         spdlog::trace("header type: {}, byte: 0x{:02X}", HeaderField::to_string(type), first_byte);
@@ -234,6 +240,15 @@ std::expected<std::vector<HttpHeader>, FrameError> HeaderBlockDecoder::decode(
                 return std::unexpected(FrameError::ProtocolError);
             }
         }
+        if (hdrs.size() > field_count) {
+            const auto& hdr = hdrs.back();
+            list_size += hdr.name.size() + hdr.value.size() + HEADER_FIELD_OVERHEAD;
+            if (list_size > MAX_HEADER_LIST_SIZE) {
+                spdlog::error("header list exceeds maximum allowed size (max: {})",
+                              MAX_HEADER_LIST_SIZE);
+                return std::unexpected(FrameError::ProtocolError);
+            }
+        }
     }
     return hdrs;
 }
-- 
2.43.0


From 8b9f13fc9bf375068dca9622482f2bfe4988c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 35/35] fix: start a request's trace span only once its header
 block is complete

---
 lib/http2_conn.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/http2_conn.cpp b/lib/http2_conn.cpp
index 3c1d6fb..c60d615 100644
--- a/lib/http2_conn.cpp
+++ b/lib/http2_conn.cpp
@@ -365,14 +365,6 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             break;
         }
         case FRAME_TYPE_HEADERS: {
-            auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
-            auto span = tracer->StartSpan("http_request");
-            auto scope = tracer->WithActiveSpan(span);
-
-            spdlog::debug("received HEADERS frame for stream {}", frame.stream_id());
-            spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
-                          frame.is_end_stream(), frame.length());
-
             const auto block = frame.read_headers_block();
             if (!block) {
                 spdlog::error("HEADERS frame too short for its padding or priority fields");
@@ -387,11 +379,21 @@ void Http2Connection::process_frame(const Http2FrameReader& frame) {
             }
 
             if (!frame.is_end_headers()) {
+                // the request starts once its CONTINUATION frames have completed the block
+                spdlog::debug("received first part of HEADERS for stream {}", frame.stream_id());
                 partial_headers_ = frame.header();
                 partial_block_.assign(block->begin(), block->end());
                 return;
             }
 
+            auto tracer = opentelemetry::trace::Provider::GetTracerProvider()->GetTracer("ion");
+            auto span = tracer->StartSpan("http_request");
+            auto scope = tracer->WithActiveSpan(span);
+
+            spdlog::debug("received HEADERS frame for stream {}", frame.stream_id());
+            spdlog::debug(" - end headers: {}, end stream: {}, length: {}", frame.is_end_headers(),
+                          frame.is_end_stream(), frame.length());
+
             log_dynamic_tables();
             auto hdrs = decoder_.decode(*block);
             if (!hdrs) {
-- 
2.43.0

