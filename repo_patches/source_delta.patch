From b0cd1870b0f27fa100ebaeac5c41f8ce595b0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 01/51] fix: keep the partially received HTTP method per
 request instead of sharing it between connections

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..e92f5f0 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer; // method name received so far
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From d7b32d7b243fdca8dff80c7a1e4c996454047407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:32 +0000
Subject: [PATCH 02/51] fix: store the status line in its response so that
 concurrent asynchronous writes do not share it

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index e92f5f0..3a8202e 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -210,7 +210,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -229,6 +228,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus; // storage of the status line referenced by toBuffers()
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From 8f37e3b83b8db9b4f2a96d6201d56c060ee11ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:45 +0000
Subject: [PATCH 03/51] fix: consider a WebSocket frame header complete as soon
 as its own size has been received

---
 include/http/WebSocket.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..1dc77ac 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -80,8 +80,7 @@ struct Header {
 
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
-        if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= 2 && size >= headerSize();
     }
 
     void setFIN(bool set) {
-- 
2.43.0


From fcf9a62ddc36feacc9a601eb62cc4137349e8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:15 +0000
Subject: [PATCH 04/51] fix: report a WebSocket frame as complete only once its
 whole payload has been received

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 1dc77ac..a3fce1b 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -202,7 +202,7 @@ public:
         } break;
         case DecodingState::decodingPayload: {
             decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return payloadBuffer.size() == payloadSize;
         }
         }
         return false;
-- 
2.43.0


From 678bb3b8f8674d95d03a0392b0d847473865fb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:29 +0000
Subject: [PATCH 05/51] fix: don't allocate the payload size announced by a
 WebSocket client before receiving the data

---
 include/http/WebSocket.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a3fce1b..15481ae 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -169,7 +169,6 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
-- 
2.43.0


From 758df2bc702a7e9cde8e8fe92c9a8eb667c83e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:42 +0000
Subject: [PATCH 06/51] fix: emit the current header of a WebSocket frame after
 it has grown or moved

---
 include/http/WebSocket.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 15481ae..5fbad53 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -98,7 +98,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
@@ -136,7 +136,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers.front() = typename Net::ConstBuffer(raw.data(), headerSize()); // header may have grown or moved since construction
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From 60d28aa8444fe900f26df1044c6d4d83f56806d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:13 +0000
Subject: [PATCH 07/51] fix: decode every WebSocket frame of a received buffer
 instead of dropping what follows the first one

---
 include/http/WebSocket.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 5fbad53..3cf4be6 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -161,11 +161,15 @@ public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
 
+    /// @return the data which follows the completed frame in the last parsed buffer
+    std::span<const std::byte> unparsed() const { return unparsedData; }
+
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
         auto decodePayload = [&](std::span<const std::byte> encoded) -> size_t {
             for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);
+            unparsedData = buffer.last(static_cast<size_t>(buffer.data() + buffer.size() - (encoded.data() + encoded.size())));
             return payloadBuffer.size();
         };
         auto decodeHeader = [&](auto input) {
@@ -221,6 +225,7 @@ public:
 private:
     enum class DecodingState { starting, partialHeader, decodingPayload } state;
     std::vector<std::byte> payloadBuffer;
+    std::span<const std::byte> unparsedData;
     Header headerBuffer;
     size_t headerBufferParser;
     size_t payloadSize, headerSize;
@@ -274,7 +279,7 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); decoder.parse(received); received = decoder.unparsed()) {
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From b92c1ade71bf842e9346247f2591851c8034051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:51 +0000
Subject: [PATCH 08/51] fix: don't start a second concurrent read when an
 already started WebSocket is started again

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3cf4be6..2107589 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -250,6 +250,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From 7b8feb4a4edaf4fae0130ff7093861b4f8a4111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:08 +0000
Subject: [PATCH 09/51] fix: notify the end of a WebSocket exactly once and
 don't touch it after it was stopped or destroyed

---
 include/http/WebSocket.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 2107589..01e55fe 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -12,6 +12,7 @@
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -275,10 +276,12 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::shared_ptr<bool> lifetime = std::make_shared<bool>(); // expires with the WebSocket, so that pending completions don't use it
 
 private:
     void read() {
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(readBuffer), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t bytesTransferred) {
+            if (alive.expired() || !started) return;
             if (!ec) {
                 for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); decoder.parse(received); received = decoder.unparsed()) {
                     auto data = decoder.payload();
@@ -290,34 +293,36 @@ private:
                         if (binaryHandler) binaryHandler(data);
                         break;
                     case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                        return closed(CloseEvent{});
                     default: log::debug("Unhandled frameType");
                     };
+                    if (alive.expired() || !started) return;
                     decoder.reset();
                 }
                 read();
             }
             else {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
+                closed(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        Net::AsyncWrite(socket, frame.toBuffers(), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            if (alive.expired() || !started) return;
             if (ec) {
-                if (started) {
-                    log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
-                }
+                log::error("Error during write : ec.value() = {}", ec.value());
+                closed(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
             }
         });
     }
+
+    // Stops the WebSocket and notifies its end, once. The handler is allowed to destroy the WebSocket.
+    void closed(CloseEvent event) {
+        stop();
+        if (auto handler = std::exchange(closeHandler, nullptr)) handler(std::move(event));
+    }
 };
 
 [[nodiscard]] inline std::string getHashedSecKey(std::string key) {
-- 
2.43.0


From 4508395a505c73546a5a7526841d484d571512e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:44 +0000
Subject: [PATCH 10/51] fix: keep WebSocket frames alive and ordered until
 their asynchronous write completes

---
 include/http/WebSocket.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 01e55fe..6a0c8a0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -8,11 +8,13 @@
 
 #include <array>
 #include <cstddef>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <set>
 #include <span>
 #include <utility>
+#include <vector>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -276,6 +278,7 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     bool started;
+    std::deque<std::shared_ptr<const std::vector<std::byte>>> outgoing; // frames waiting to be written, the first one is being written
     std::shared_ptr<bool> lifetime = std::make_shared<bool>(); // expires with the WebSocket, so that pending completions don't use it
 
 private:
@@ -309,12 +312,29 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        if (!started) return;
+        auto data = std::make_shared<std::vector<std::byte>>(); // the frame only references its data : they have to outlive the asynchronous write
+        for (const auto& buffer : frame.toBuffers()) {
+            auto bytes = static_cast<const std::byte*>(buffer.data());
+            data->insert(data->end(), bytes, bytes + buffer.size());
+        }
+        outgoing.push_back(std::move(data));
+        if (outgoing.size() == 1) writeNext();
+    }
+
+    // Frames are written one at a time : a write which would start before the end of the previous one could be interleaved with it.
+    void writeNext() {
+        auto data = outgoing.front();
+        Net::AsyncWrite(socket, std::vector<typename Net::ConstBuffer>{{data->data(), data->size()}},
+                        [this, data, alive = std::weak_ptr(lifetime)](std::error_code ec, std::size_t /*bytesTransferred*/) {
             if (alive.expired() || !started) return;
             if (ec) {
                 log::error("Error during write : ec.value() = {}", ec.value());
                 closed(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
+                return;
             }
+            outgoing.pop_front();
+            if (!outgoing.empty()) writeNext();
         });
     }
 
-- 
2.43.0


From 47133861d98b6e384fdc655758205fa41beaea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 11/51] fix: deliver a fragmented WebSocket message once, as a
 whole, instead of one message per fragment

---
 include/http/WebSocket.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 6a0c8a0..e681061 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -159,6 +159,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool finalFrame;
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -180,6 +181,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            finalFrame = reinterpret_cast<const Header*>(input)->FIN();
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -274,6 +276,8 @@ public:
 private:
     std::array<std::byte, receptionBufferSize> readBuffer;
     FrameDecoder decoder;
+    std::vector<std::byte> fragments; // payloads of the frames already received for a fragmented message
+    Header::Opcode fragmentsType = Header::Opcode::continuation;
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
@@ -288,7 +292,18 @@ private:
             if (!ec) {
                 for (std::span<const std::byte> received(readBuffer.data(), bytesTransferred); decoder.parse(received); received = decoder.unparsed()) {
                     auto data = decoder.payload();
-                    switch (decoder.frameType) {
+                    auto type = decoder.frameType;
+                    if (type == Header::Opcode::continuation || (!decoder.finalFrame && type < Header::Opcode::connectionClose)) {
+                        if (type != Header::Opcode::continuation) {
+                            fragmentsType = type;
+                            fragments.clear();
+                        }
+                        fragments.insert(fragments.end(), data.begin(), data.end());
+                        type = decoder.finalFrame ? std::exchange(fragmentsType, Header::Opcode::continuation) : Header::Opcode::continuation;
+                        data = fragments;
+                    }
+                    switch (type) {
+                    case Header::Opcode::continuation: break; // incomplete message
                     case Header::Opcode::text:
                         if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
                         break;
-- 
2.43.0


From 47c50b6d84a5cff993085b0180aefbdfb03870ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:40 +0000
Subject: [PATCH 12/51] fix: don't write beyond the encoding buffer of a
 function call which has many parameters

---
 include/weblink/Messages.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..79fd650 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -166,7 +166,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
-    std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
+    std::array<std::byte, 255 * (1 + sizeof(double))> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
     size_t encodeBufferIndex = 0;
     friend class MessageBase<FunctionCall>;
 
@@ -210,7 +210,12 @@ public:
             std::cout << "Param: " << typeName<T>() << " -> " << typeName<ParamType>() << " : " << t << "\n";
         }
 
+        [[maybe_unused]] auto checkBuffer = [this](size_t size) {
+            if (buffer.size() - encodeBufferIndex < size) throw length_error("Too many parameters for a msg::FunctionCall");
+        };
+
         [[maybe_unused]] auto encodeType = [&, this](msg::CodedType type, auto size, WebSocketFrame& wsFrame) {
+            checkBuffer(1 + sizeof(size));
             wsFrame.addBuffer(std::span(&buffer[encodeBufferIndex], 1 + sizeof(size)));
             buffer[encodeBufferIndex++] = static_cast<std::byte>(type);
             std::copy_n(reinterpret_cast<const std::byte*>(&size), sizeof(size), &buffer[encodeBufferIndex]);
@@ -235,6 +240,7 @@ public:
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
         }
         else if constexpr (is_same_v<ParamType, bool>) {
+            checkBuffer(1);
             frame.addBuffer(span(&buffer[encodeBufferIndex], 1));
             buffer[encodeBufferIndex++] = static_cast<byte>(t ? msg::CodedType::booleanTrue : msg::CodedType::booleanFalse);
             incrementPayloadSize(1);
@@ -242,6 +248,7 @@ public:
         }
         else if constexpr (is_arithmetic_v<ParamType>) {
             double number = t;
+            checkBuffer(1 + sizeof(number));
             frame.addBuffer(span(&buffer[encodeBufferIndex], 1 + sizeof(number)));
             buffer[encodeBufferIndex++] = static_cast<byte>(msg::CodedType::number);
             copy_n(reinterpret_cast<const byte*>(&number), sizeof(number), &buffer[encodeBufferIndex]);
-- 
2.43.0


From c1f997f3e972e48d0d357d9d576327ee4afdf605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:54 +0000
Subject: [PATCH 13/51] fix: restart the encoding of a JsFunction call from
 scratch instead of accumulating the previous calls

---
 include/JsFunction.hpp       | 2 +-
 include/weblink/Messages.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..62cf75e 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        command.clearParameters();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 79fd650..4ad58ac 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -187,6 +187,11 @@ class FunctionCall : public MessageBase<FunctionCall> {
 
 public:
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
+    void clearParameters() {
+        setParametersCount(0);
+        setPayloadSize(0);
+        encodeBufferIndex = 0;
+    }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
     [[nodiscard]] size_t getPayloadSize() const { return head.parametersDataSize; }
-- 
2.43.0


From 96e276be16a51c08b4c062e2eab6c6ebfa38e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 14/51] fix: announce the number of parameters of a JsFunction
 call without counting the elements of its tuples

---
 include/JsFunction.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 62cf75e..837c10d 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,11 +21,13 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
+        static_assert(sizeof...(ts) < 255, "A Javascript function can be called with 254 parameters at most");
         command.clearParameters();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
-        
+        command.setParametersCount(static_cast<uint8_t>(1 + sizeof...(ts))); // elements of tuples are not parameters
+
         webFront.getLink(webLinkId).sendFrame(std::move(frame));
     }
 
-- 
2.43.0


From 4f4c7c3ae560e2f2bbdc2a8704b6178d3e3a6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:20 +0000
Subject: [PATCH 15/51] fix: refuse texts whose length doesn't fit in the
 length field of the messages

---
 include/weblink/Messages.hpp | 10 ++++++++--
 include/weblink/WebLink.hpp  |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 4ad58ac..fa877fc 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -3,6 +3,7 @@
 /// @brief Messages exchanged between webfront clients and server
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <bit>
 #include <cstddef>
@@ -146,11 +147,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = 65535;
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text is too long for a msg::TextCommand");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
@@ -229,6 +234,7 @@ public:
         };
 
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
+            if (size > 65535) throw length_error("Strings of more than 65535 bytes cannot be encoded in a msg::FunctionCall");
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
             else
@@ -286,7 +292,7 @@ public:
 
         else if constexpr (is_base_of_v<std::exception, ParamType>) {
             std::cout << "Exception : " << t.what() << '\n';
-            auto textSize = char_traits<char>::length(t.what());
+            auto textSize = min<size_t>(char_traits<char>::length(t.what()), 65535);
             encodeType(msg::CodedType::exception, static_cast<uint16_t>(textSize), frame);
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..144b34d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,7 +52,7 @@ public:
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From 32e2f0a47e3a3ceaede0e3cc2410e91b442a2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:36 +0000
Subject: [PATCH 16/51] fix: send function returns with the functionReturn
 command instead of callFunction

---
 include/weblink/Messages.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index fa877fc..5d0aa98 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -175,6 +175,10 @@ class FunctionCall : public MessageBase<FunctionCall> {
     size_t encodeBufferIndex = 0;
     friend class MessageBase<FunctionCall>;
 
+protected:
+    explicit FunctionCall(Command command) : head{.command = command} {}
+
+private:
     template<typename T>
     constexpr auto typeName() {
 #if defined(_MSC_VER)
@@ -191,6 +195,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     }
 
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void clearParameters() {
         setParametersCount(0);
@@ -359,14 +364,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From 79ad6afa6cbdabb72fe394bf2cf184b100583eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:29 +0000
Subject: [PATCH 17/51] fix: reject messages whose announced payload goes
 beyond the received data

---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 5d0aa98..3ad364e 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -105,7 +105,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if ((data.size() - sizeof(typename T::Header)) < message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From a8d89be4fe8d6855b4e64f3e4ab46071c41caa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:42 +0000
Subject: [PATCH 18/51] fix: don't read the size of a message parameter beyond
 the received data

---
 include/weblink/Messages.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 3ad364e..4883876 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -315,7 +315,7 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
@@ -325,7 +325,7 @@ public:
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
@@ -345,6 +345,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From 83494fdc4a1b11847aa77466c5656f018fc15542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 19/51] fix: decode boolean and undefined message parameters
 and reject the ones which don't match the expected type

---
 include/weblink/Messages.hpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 4883876..ad3a747 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -6,7 +6,9 @@
 #include <algorithm>
 #include <array>
 #include <bit>
+#include <cmath>
 #include <cstddef>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -321,6 +323,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : received value doesn't match the expected type");
             break;
         case CodedType::string:
         case CodedType::exception:
@@ -332,6 +336,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[3]), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : received value doesn't match the expected type");
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -339,9 +345,14 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> && !is_same_v<T, bool>)
+                    if (!(trunc(value) >= static_cast<double>(numeric_limits<T>::lowest()) && trunc(value) < ldexp(1., numeric_limits<T>::digits)))
+                        throw runtime_error("Number is out of the range of the integral parameter");
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw runtime_error("Wrong parameter type : received value doesn't match the expected type");
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
@@ -358,7 +369,21 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_arithmetic_v<T>) {
+                param = static_cast<T>(codedType == CodedType::booleanTrue);
+                data = data.subspan(1);
+            }
+            else
+                throw runtime_error("Wrong parameter type : received value doesn't match the expected type");
+            break;
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+
+        default: throw runtime_error("Unsupported parameter type");
         }
     }
 };
-- 
2.43.0


From 563268d24e24ed6c64cf10677174de18b2588685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 20/51] fix: store functions registered with cppFunction
 instead of a reference to a temporary

---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..75762ec 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From abc22bc7968a30ceb6496ce00a0078cb955e2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 21/51] fix: accept links when no onUIStarted handler is set

---
 include/WebFront.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 75762ec..3f7db1b 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,9 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked:
+            if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId});
+            break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From 16c2ef86d08047a0e566b96fe77f95b2ccb1aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:43 +0000
Subject: [PATCH 22/51] fix: don't link again a client which repeats its
 handshake

---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 144b34d..320755b 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -51,6 +51,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
+                if (logSink) break; // already linked
                 logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
-- 
2.43.0


From 8b1468180a8190c984ffd0934ee4698979233256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 23/51] fix: ignore malformed or empty client messages instead
 of letting exceptions stop the server

---
 include/weblink/WebLink.hpp | 68 ++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 320755b..2b800e6 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -47,40 +47,46 @@ public:
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
 
-            switch (static_cast<msg::Command>(data[0])) {
-            case msg::Command::handshake: {
-                auto command = msg::Handshake::castFromRawData(data);
-                sendCommand(msg::Ack{});
-                if (logSink) break; // already linked
-                logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
-                sameEndian = (std::endian::native == std::endian::little &&
-                              static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
-                             (std::endian::native == std::endian::big &&
-                              static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::big);
-                eventsHandler({WebLinkEvent::Code::linked, id});
-            } break;
+            if (data.empty()) return;
+            try {
+                switch (static_cast<msg::Command>(data[0])) {
+                case msg::Command::handshake: {
+                    auto command = msg::Handshake::castFromRawData(data);
+                    sendCommand(msg::Ack{});
+                    if (logSink) break; // already linked
+                    logSink =
+                      log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
+                    sameEndian = (std::endian::native == std::endian::little &&
+                                  static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
+                                 (std::endian::native == std::endian::big &&
+                                  static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::big);
+                    eventsHandler({WebLinkEvent::Code::linked, id});
+                } break;
 
-            case msg::Command::callFunction: {
-                log::info("Function called !");
-                auto command = msg::FunctionCall::castFromRawData(data);
-                auto [functionName, paramData] = command->getFunctionName();
-                try {
-                    eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
-                }
-                catch (const std::out_of_range& e) {
-                    msg::FunctionReturn returnValue;
-                    websocket::Frame<Net> frame{std::span(reinterpret_cast<const std::byte*>(returnValue.header().data()), returnValue.header().size())};
+                case msg::Command::callFunction: {
+                    log::info("Function called !");
+                    auto command = msg::FunctionCall::castFromRawData(data);
+                    auto [functionName, paramData] = command->getFunctionName();
+                    try {
+                        eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
+                    }
+                    catch (const std::out_of_range& e) {
+                        msg::FunctionReturn returnValue;
+                        websocket::Frame<Net> frame{std::span(reinterpret_cast<const std::byte*>(returnValue.header().data()), returnValue.header().size())};
         
-                    returnValue.encodeParameter(e, frame);
-                    sendFrame(std::move(frame));
-                }
-                catch (const std::exception& e) {
-                    log::info("event cppFunctionCalled failed with exception {}", e.what());
-                }
-            } break;
+                        returnValue.encodeParameter(e, frame);
+                        sendFrame(std::move(frame));
+                    }
+                    catch (const std::exception& e) {
+                        log::info("event cppFunctionCalled failed with exception {}", e.what());
+                    }
+                } break;
 
-            default: break;
+                default: break;
+                }
+            }
+            catch (const std::exception& e) {
+                log::error("WebLink {} ignores a message : {}", id, e.what());
             }
         });
 
-- 
2.43.0


From 567bbd997e0b58dea2287ee505d3358728c8bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 24/51] fix: report the end of a WebLink so that its resources
 are released and its client is known to be lost

---
 include/weblink/WebLink.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 2b800e6..0bb4690 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -90,6 +90,11 @@ public:
             }
         });
 
+        ws.onClose([this](websocket::CloseEvent) {
+            auto handler = eventsHandler; // handling this event may destroy this WebLink
+            handler({WebLinkEvent::Code::closed, id});
+        });
+
         ws.start();
     }
     WebLink(const WebLink&) = delete;
-- 
2.43.0


From 31bce3732e7fc04087cf2b7e3c1b89bebd2fcbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 25/51] fix: don't let the shutdown of a connection already
 closed by its peer stop the server

---
 include/http/HTTPServer.hpp           | 3 ++-
 include/networking/NetworkingMock.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 3a8202e..3f4c42a 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -411,7 +411,8 @@ private:
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                std::error_code ignored; // the peer may already have closed the connection
+                if (!ec) socket.shutdown(Net::Socket::shutdown_both, ignored);
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
diff --git a/include/networking/NetworkingMock.hpp b/include/networking/NetworkingMock.hpp
index d5ee36e..75e15a7 100644
--- a/include/networking/NetworkingMock.hpp
+++ b/include/networking/NetworkingMock.hpp
@@ -71,6 +71,7 @@ public:
 
     void close() { log::debug("SocketMock::close()"); }
     void shutdown(shutdown_type type) { log::debug("SocketMock::shutdown({})", static_cast<int>(type)); }
+    void shutdown(shutdown_type type, std::error_code&) { shutdown(type); }
 };
 
 class AcceptorMock : public SocketBaseMock {
-- 
2.43.0


From 648dd76d763ac232a200355827724bdc59a14590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 26/51] fix: release upgraded connections and don't upgrade the
 ones whose handshake response could not be sent

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 3f4c42a..388221c 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -406,9 +406,10 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.stop(self);
             }
             else {
                 std::error_code ignored; // the peer may already have closed the connection
-- 
2.43.0


From 9f02e2b032082c2111c85541767b03ee718578fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:12 +0000
Subject: [PATCH 27/51] fix: give the text/csv type to csv files

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 28f1b3fed0658ec578eb725dce19a4bc7f628c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 28/51] fix: read in-memory files correctly from offsets which
 are not multiples of 8

---
 include/system/FileSystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..78badae 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -69,7 +69,8 @@ private:
 
     size_t readData(std::span<char> buffer) {
         constexpr auto bytesPerInt = sizeof(decltype(data)::value_type);
-        UIntByte chunk;
+        UIntByte chunk{};
+        if (readIndex < size) chunk = convert(data[readIndex / bytesPerInt]);
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-- 
2.43.0


From a8a391b082c3c71e9e9cc92002cc1f66fb20801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:01 +0000
Subject: [PATCH 29/51] fix: encode base64 data of any size without reading
 beyond it nor leaving trailing NUL characters

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..255d007 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -114,7 +114,7 @@ namespace detail {
     std::string output((4 * (size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -132,7 +132,7 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
+    output.erase(coded, output.end());
 
     return output;
 }
-- 
2.43.0


From 24e130b01931b18e8570de56124eb0b4d09f74f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:19 +0000
Subject: [PATCH 30/51] fix: percent-encode and decode texts which contain
 non-ASCII characters

---
 include/http/Encodings.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 255d007..884a4b3 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -21,9 +21,9 @@ namespace uri {
 [[nodiscard]] inline std::string encode(std::string_view uri) {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
-    for (auto c : uri) {
-        if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
-            encoded += c;
+    for (auto c : std::span(reinterpret_cast<const uint8_t*>(uri.data()), uri.size())) {
+        if ((c < 128 && std::isalnum(c)) || c == '-' || c == '_' || c == '.' || c == '~')
+            encoded += static_cast<char>(c);
         else {
             encoded += "%";
             encoded += digits[static_cast<size_t>(c >> 4)];
@@ -34,12 +34,13 @@ namespace uri {
 }
 
 [[nodiscard]] inline std::string decode(std::string_view uri) {
+    auto isHexDigit = [](char c) { return std::isxdigit(static_cast<unsigned char>(c)) != 0; };
     std::string decoded;
     decoded.reserve(uri.size());
     for (std::size_t index = 0; index < uri.size(); ++index) {
         switch (uri[index]) {
         case '%':
-            if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1]) && std::isxdigit(uri[index + 2])) {
+            if (index + 3 <= uri.size() && isHexDigit(uri[index + 1]) && isHexDigit(uri[index + 2])) {
                 auto hexToValue = [](char c) -> uint8_t {
                     if (c >= '0' && c <= '9') return uint8_t(c - '0');
                     if (c >= 'A' && c <= 'F') return uint8_t(c - 'A' + 10);
-- 
2.43.0


From b3ff75e4ff13039650a7a654b10c4823191ebd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:30 +0000
Subject: [PATCH 31/51] fix: split URIs independently from previous or
 concurrent ones and whatever the components they have

---
 include/http/Encodings.hpp | 71 +++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 884a4b3..4b4f7f3 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -67,38 +67,53 @@ namespace uri {
 //  └─┬─┘   └─────────────┬────────────┘└───────┬───────┘ └────────────┬────────────┘ └┬┘
 //  scheme          authority                  path                  query           fragment
 struct URI {
-    URI(std::string uri) : string(uri), scheme(next(string)), authority(next(string)), path(next(string)), query(next(string)),
-        fragment(next(string)), userinfo(next(authority)), host(next(authority)), port(next(authority)) {}
-        
+    URI(std::string uri) : string(std::move(uri)), fields(split(string)), scheme(fields[0]), authority(fields[1]), path(fields[2]), query(fields[3]),
+        fragment(fields[4]), userinfo(fields[5]), host(fields[6]), port(fields[7]) {}
+    URI(const URI& uri) : URI(uri.string) {} // fields are views on the string of their own URI
+
     const std::string string;
+
+private:
+    const std::array<std::string_view, 8> fields;
+
+public:
     const std::string_view scheme, authority, path, query, fragment, userinfo, host, port;
 
-private:    
-    static std::string_view next(std::string_view uri) {
-        const size_t schem{0}, autho{1}, path_{2}, quer_{3}, fragm{4}, usrnf{5}, host_{6}, port_{7}, npos = std::string_view::npos; 
-        static size_t step{port_}, mark, mark2;
-        step = (step == port_) ? schem : step + 1;
-        switch (step) {
-            case schem: mark = uri.find("://");
-                if (mark == npos) { mark = uri.size() - 3; return {}; } else return uri.substr(0, mark);
-            case autho: mark2 = uri.find("/", mark + 3);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return {}; } else return uri.substr(mark + 3, mark2 - mark - 3);
-            case path_: mark = uri.find("?", mark2 + 1);
-                if (mark == npos) {
-                    mark = uri.find("#");
-                    if (mark == npos) { mark = uri.size() - 1; return uri.substr(mark2); }
-                }
-                return uri.substr(mark2, mark - mark2);
-            case quer_: mark2 = uri.find("#", mark + 1);
-                if (mark2 == npos) { mark2 = uri.size() - 1; return uri.substr(mark + 1); } else return uri.substr(mark + 1, mark2 - mark - 1);
-            case fragm: return uri.substr(mark2 + 1);
-            case usrnf: mark = uri.find("@");
-                if (mark == npos) return {}; else return uri.substr(0, mark);
-            case host_: mark2 = uri.find(":", mark + 1);
-                if (mark2 == npos) return uri.substr(mark + 1); else return uri.substr(mark + 1, mark2 - mark - 1);
-            case port_: if (mark2 != npos) return uri.substr(mark2 + 1);
+private:
+    static std::array<std::string_view, 8> split(std::string_view uri) {
+        // Extracts from text the characters which precede the first delimiter
+        auto extract = [](std::string_view& text, const char* delimiters) {
+            auto extracted = text.substr(0, text.find_first_of(delimiters));
+            text.remove_prefix(extracted.size());
+            return extracted;
+        };
+        // Extracts from text the characters found after a prefix, if present, and before the first delimiter
+        auto extractAfter = [&](std::string_view& text, std::string_view prefix, const char* delimiters) {
+            if (!text.starts_with(prefix)) return std::string_view{};
+            text.remove_prefix(prefix.size());
+            return extract(text, delimiters);
+        };
+
+        std::string_view scheme, userinfo, host, port, rest = uri;
+        if (auto mark = uri.find("://"); mark != uri.npos && mark < uri.find_first_of("/?#")) {
+            scheme = uri.substr(0, mark);
+            rest.remove_prefix(mark + 1);
+        }
+        auto authority = extractAfter(rest, "//", "/?#");
+        auto path = extract(rest, "?#");
+        auto query = extractAfter(rest, "?", "#");
+        auto fragment = extractAfter(rest, "#", "");
+
+        rest = authority;
+        if (auto mark = authority.find('@'); mark != authority.npos) {
+            userinfo = authority.substr(0, mark);
+            rest.remove_prefix(mark + 1);
         }
-        return {};           
+        auto portMark = rest.find(':', rest.starts_with('[') ? std::min(rest.find(']'), rest.size()) : 0); // IPv6 addresses are between brackets
+        host = rest.substr(0, portMark);
+        if (portMark != rest.npos) port = rest.substr(portMark + 1);
+
+        return {scheme, authority, path, query, fragment, userinfo, host, port};
     }
 };
 } // namespace uri
-- 
2.43.0


From 761015e2f7269ff619498aad4917efaa69911f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:52 +0000
Subject: [PATCH 32/51] fix: don't open directories as files

---
 include/system/NativeFS.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..b33506d 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,8 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        std::error_code ec;
+        if (!std::filesystem::is_regular_file(rootPath / path, ec)) return {}; // directories can be opened but not read
         std::ifstream file;
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
-- 
2.43.0


From 05f3bbe5d33cba0eea2808113fe966c675bb14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 33/51] fix: don't read beyond the method names when a request
 has an unknown method

---
 include/http/HTTPServer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 388221c..5ce0473 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -93,7 +93,9 @@ struct Request : Headers {
         return Method::Undefined;
     }
 
-    [[nodiscard]] std::string_view getMethodName() const { return methodNames[static_cast<size_t>(method)]; }
+    [[nodiscard]] std::string_view getMethodName() const {
+        return method < Method::Undefined ? methodNames[static_cast<size_t>(method)] : "UNDEFINED";
+    }
         
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
-- 
2.43.0


From 7b928c19e331a1d3f4fc6138fa59fe3904f33d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:19 +0000
Subject: [PATCH 34/51] fix: refuse request targets whose path would be
 truncated by a NUL character

---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 5ce0473..e65f49c 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -258,7 +258,8 @@ public:
     Response handleRequest(Request request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
-        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos)
+        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos ||
+            requestUri.find('\0') != std::string::npos)
             return Response::getStatusResponse(Response::badRequest);
         auto requestPath = std::filesystem::path(requestUri).relative_path();
         log::debug("  -> requestPath : {}", requestPath.string());
-- 
2.43.0


From c9fe62e925ef8edca63d9e3e7511f028484ee7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:33 +0000
Subject: [PATCH 35/51] fix: find requested files by the path of the request
 target, without its query

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index e65f49c..6086102 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -256,7 +256,7 @@ public:
     RequestHandler& operator=(RequestHandler&&) = default;
 
     Response handleRequest(Request request) {
-        auto requestUri = uri::decode(request.uri);
+        auto requestUri = uri::decode(std::string_view(request.uri).substr(0, request.uri.find('?')));
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
         if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos ||
             requestUri.find('\0') != std::string::npos)
-- 
2.43.0


From 8ff10ac8057c9bf14e31b72ac844a9ae3a78b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 36/51] fix: accept any optional whitespace around header
 values

---
 include/http/HTTPServer.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 6086102..ff1cb99 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -172,9 +172,10 @@ private: // clang-format off
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-            case spaceBeforeHeaderValue: setState(input != ' ', headerValue); break;
-            case headerValue: if (input == '\r') { state = newline2; break; }
-                                   else if (isCtrl(input)) throw BadRequestException();
+            case spaceBeforeHeaderValue: if (input == ' ' || input == '\t') break;
+                                              state = headerValue; [[fallthrough]];
+            case headerValue: if (input == '\r') { auto& value = headers.back().value; value.erase(value.find_last_not_of(" \t") + 1); state = newline2; break; }
+                                   else if (isCtrl(input) && input != '\t') throw BadRequestException();
                                    else { headers.back().value.push_back(input); break; }
             case newline2: setState(input != '\n', headerLineStart); break;
             case newline3: if (input == '\n') { state = completed; return true; } else throw BadRequestException();
-- 
2.43.0


From ad59a469c7b9ed78db3fa627d09b2f8fd005b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 37/51] fix: separate the lines of a folded header value by a
 space

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ff1cb99..3743117 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -168,7 +168,7 @@ private: // clang-format off
             case headerLws:if (input == '\r') { state = newline2; break; }
                                  else if (input == ' ' || input == '\t') break;
                                  else if (isCtrl(input)) throw BadRequestException();
-                                 else { state = headerValue; headers.back().value.push_back(input); break; }
+                                 else { auto& value = headers.back().value; if (!value.empty()) value.push_back(' '); value.push_back(input); state = headerValue; break; }
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-- 
2.43.0


From 94cecd0e16e1e7f8a037380e804f4914793076c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:18 +0000
Subject: [PATCH 38/51] fix: answer HEAD requests with the headers of the
 corresponding GET and without a body

---
 include/http/HTTPServer.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 3743117..dd80750 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -257,6 +257,13 @@ public:
     RequestHandler& operator=(RequestHandler&&) = default;
 
     Response handleRequest(Request request) {
+        auto response = respond(request);
+        if (request.method == Request::Method::Head) response.content.clear();
+        return response;
+    }
+
+private:
+    Response respond(const Request& request) {
         auto requestUri = uri::decode(std::string_view(request.uri).substr(0, request.uri.find('?')));
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
         if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos ||
@@ -268,8 +275,10 @@ public:
 
         Response response;
         switch (request.method) {
-        case Request::Method::Get: {
-            if (request.isUpgradeRequest("websocket")) {
+        case Request::Method::Get:
+        case Request::Method::Head: {
+            bool isGet = request.method == Request::Method::Get;
+            if (isGet && request.isUpgradeRequest("websocket")) {
                 auto key = request.getHeaderValue("Sec-WebSocket-Key");
                 if (key) {
                     response.statusCode = Response::StatusCode::switchingProtocols;
@@ -284,7 +293,7 @@ public:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded()) {
-                if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
+                if (isGet && !request.headersContain("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
@@ -295,10 +304,6 @@ public:
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
 
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
-
         default: return Response::getStatusResponse(Response::notImplemented);
         };
 
@@ -309,7 +314,6 @@ public:
         return response;
     }
 
-private:
     FS fs;
 };
 
-- 
2.43.0


From baf6cc44fa4b229c8916a40a91c86eb225861877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 39/51] fix: slots of removed log sinks are used again

---
 include/tooling/Logger.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/tooling/Logger.hpp b/include/tooling/Logger.hpp
index dd10a16..11dfe9a 100644
--- a/include/tooling/Logger.hpp
+++ b/include/tooling/Logger.hpp
@@ -66,6 +66,20 @@ template<typename... Ts> void error(string_view fmt, Ts&&... ts) { if (is(Error)
 template<typename... Ts> void warn(string_view fmt, Ts&&... ts) { if (is(Warn)) log(Warn, fmt, std::forward<Ts>(ts)...); }
 template<typename... Ts> void info(string_view fmt, Ts&&... ts) { if (is(Info)) log(Info, fmt, std::forward<Ts>(ts)...); }
 void infoHex(string_view text, auto container) { if (is(Info)) { log(Info, text); out(utils::hexDump(container)); }}
-auto addSinks(auto&&... ts) { (out.sinks.push_back(std::forward<decltype(ts)>(ts)), ...); return out.sinks.size() - 1; }
+// @return the identifier of the last added sink
+auto addSinks(auto&&... ts) {
+    size_t id{};
+    auto add = [](auto&& sink) -> size_t { // slots of removed sinks are used again
+        for (size_t index = 0; index < out.sinks.size(); ++index)
+            if (!out.sinks[index]) {
+                out.sinks[index] = std::forward<decltype(sink)>(sink);
+                return index;
+            }
+        out.sinks.push_back(std::forward<decltype(sink)>(sink));
+        return out.sinks.size() - 1;
+    };
+    ((id = add(std::forward<decltype(ts)>(ts))), ...);
+    return id;
+}
 void removeSinks(auto&&... sinkIds) { ((out.sinks[sinkIds] = nullptr), ...); }
 } //namespace webfront::log
\ No newline at end of file
-- 
2.43.0


From 3f6183964c7a7b15d43475883211fc0210457083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 40/51] fix: link identifiers are not reused after 65536
 clients

---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 0bb4690..43f0ed0 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -13,7 +13,7 @@
 
 namespace webfront {
 
-using WebLinkId = uint16_t;
+using WebLinkId = uint64_t; // never reused : a lost link is not to be taken for a new one
 
 struct WebLinkEvent {
     enum class Code { linked, closed, cppFunctionCalled };
-- 
2.43.0


From 3150e8c2ca50605492bead8c122695c77516ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 41/51] fix: hex dump restores the fill character of the stream

---
 include/tooling/HexDump.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index b673417..3db879d 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -37,7 +37,8 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
     auto iosFlags{os.flags()};
-    os << hex << setfill('0');
+    auto fill{os.fill('0')};
+    os << hex;
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
         for (auto index = address; index < address + 16; ++index) {
@@ -55,6 +56,7 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
         if (address < buffer.size()) os << '\n';
     }
     os.flags(iosFlags);
+    os.fill(fill);
 
     return os;
 }
-- 
2.43.0


From 73f1e61d8c100416d86f96e056a92ed7b9f106de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 42/51] fix: an exception of any type thrown by a function
 called by a client is handled by its link

---
 include/weblink/WebLink.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 43f0ed0..f028698 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -80,6 +80,9 @@ public:
                     catch (const std::exception& e) {
                         log::info("event cppFunctionCalled failed with exception {}", e.what());
                     }
+                    catch (...) {
+                        log::info("event cppFunctionCalled failed with an exception of an unknown type");
+                    }
                 } break;
 
                 default: break;
-- 
2.43.0


From 0aefd67800b2954e098b5c5fce0c1a24e5b20a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:59 +0000
Subject: [PATCH 43/51] fix: refuse to encode tuples whose number of elements
 doesn't fit in its field

---
 include/weblink/Messages.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index ad3a747..3e78dcc 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -253,6 +253,7 @@ public:
         };
 
         if constexpr (is_tuple_v<ParamType>) {
+            static_assert(tuple_size_v<ParamType> <= 255, "A tuple of more than 255 elements cannot be encoded in a msg::FunctionCall");
             uint8_t nbParams = static_cast<uint8_t>(tuple_size<ParamType>::value);
             encodeType(msg::CodedType::tuple, nbParams, frame);
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
-- 
2.43.0


From 476b2754f318b901bb23b1acde9d9cbb4147b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 44/51] fix: an empty string at the end of the parameters is
 decoded without indexing past their end

---
 include/weblink/Messages.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 3e78dcc..259c5f5 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -321,7 +321,7 @@ public:
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             else
@@ -334,7 +334,7 @@ public:
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             else
-- 
2.43.0


From 882646e79352df4d775c3f850eb17749b6428138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 45/51] fix: hex dumps are correct whatever the format flags of
 the stream

---
 include/tooling/HexDump.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 3db879d..34107eb 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -36,9 +36,8 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
     size_t address = 0;
     const auto buffer =
       span(reinterpret_cast<const uint8_t*>(h.buffer.data()), h.buffer.size() * sizeof(typename pointer_traits<decltype(h.buffer.data())>::element_type));
-    auto iosFlags{os.flags()};
+    auto iosFlags{os.flags(ios_base::hex | ios_base::right)};
     auto fill{os.fill('0')};
-    os << hex;
     while (address < buffer.size()) {
         os << setw(8) << address + h.startAddress;
         for (auto index = address; index < address + 16; ++index) {
-- 
2.43.0


From 6aa44929294d99fcdcae2574f2ce84da5c456f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 46/51] fix: hex dumps of two buffers show all the bytes of
 their elements

---
 include/tooling/HexDump.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/tooling/HexDump.hpp b/include/tooling/HexDump.hpp
index 34107eb..e5d4f77 100644
--- a/include/tooling/HexDump.hpp
+++ b/include/tooling/HexDump.hpp
@@ -81,9 +81,12 @@ std::ostream& operator<<(std::ostream& os, const HexDump<Container>& h) {
 /// @return  a multi-lines string with the dumped data
 [[nodiscard]] static std::string hexDump(const Buffer auto& buffer1, const Buffer auto& buffer2) {
     std::vector<uint8_t> buffer;
-    buffer.resize(buffer1.size() + buffer2.size());
-    std::copy_n(buffer1.data(), buffer1.size(), buffer.data());
-    std::copy_n(buffer2.data(), buffer2.size(), buffer.data() + buffer1.size());
+    auto append = [&buffer](const auto& input) { // all the bytes of the elements
+        auto bytes = std::as_bytes(std::span(input.data(), input.size()));
+        for (auto byte : bytes) buffer.push_back(static_cast<uint8_t>(byte));
+    };
+    append(buffer1);
+    append(buffer2);
 
     std::stringstream ss;
     ss << HexDump<decltype(buffer)>(buffer);
-- 
2.43.0


From 3720d796e1acd688f472931cb4dc37d27558705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 47/51] fix: the SHA-1 length field has 64 bits

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 4b4f7f3..fa256af 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -222,12 +222,12 @@ static constexpr size_t sha1Length = 5;
     };
 
     for (auto c : input) next(static_cast<uint8_t>(c));
-    auto b = byteCount * 8;
+    const uint64_t b = uint64_t{byteCount} * 8;
     next(0x80);
     if (blockByteIndex > 56)
         while (blockByteIndex != 0) next(0);
     while (blockByteIndex < 56) next(0);
-    for (auto value : {uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(0), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
+    for (auto value : {uint8_t(b >> 56), uint8_t(b >> 48), uint8_t(b >> 40), uint8_t(b >> 32), uint8_t(b >> 24), uint8_t(b >> 16), uint8_t(b >> 8), uint8_t(b)}) next(value);
 
     return digest;
 }
-- 
2.43.0


From 62c52668a337e9ae843f8e55704f277f29a7a56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:02 +0000
Subject: [PATCH 48/51] fix: bound arguments of type-erased functions are not
 used after having been moved

---
 include/utils/TypeErasedFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/TypeErasedFunction.hpp b/include/utils/TypeErasedFunction.hpp
index 0b223e6..94cfd4e 100644
--- a/include/utils/TypeErasedFunction.hpp
+++ b/include/utils/TypeErasedFunction.hpp
@@ -132,7 +132,7 @@ public:
 
     template<typename T, typename... Args>
     TypeErasedFunction(T&& t, Args&&... args)
-        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))),
+        : function(new FunctionPointer<typename function_traits<T>::type>(std::bind(t, args...))),
           voidFunction(new FunctionPointer<typename function_traits<T>::void_type>(std::bind(std::forward<T>(t), std::forward<Args>(args)...))) {
         std::cout << "TypeErasedFunction constructor(";
         ((std::cout << TypeName(args)), ...);
-- 
2.43.0


From eb7439a67c19a8c4f3ac1f85f46a0633bc059919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 49/51] fix: network buffers of empty strings don't access
 their first character

---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From 1abef2ff89444f72b0f0624bdc02b3c11b55b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:47 +0000
Subject: [PATCH 50/51] fix: network buffers can be made from constant arrays

---
 include/networking/BasicNetworking.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index e2d140b..7d8b6f4 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -90,6 +90,10 @@ public:
     static ConstBuffer Buffer(std::array<const T, S>& d) noexcept {
         return ToConstBuffer(d.data(), d.size());
     }
+    template<typename T, std::size_t S>
+    static ConstBuffer Buffer(const std::array<T, S>& d) noexcept {
+        return ToConstBuffer(d.data(), d.size());
+    }
     template<typename T, typename Alloc>
     static MutableBuffer Buffer(std::vector<T, Alloc>& d) noexcept {
         return ToMutableBuffer(d.data(), d.size());
-- 
2.43.0


From 861b6c29ab8eab3576a6dccd81abadb5ba929a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:27 +0000
Subject: [PATCH 51/51] fix: don't read the extended length of WebSocket
 headers which have none

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index e681061..cc5ce3c 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -51,6 +51,7 @@ struct Header {
     [[nodiscard]] uint8_t payloadLenField() const { return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)); }
     [[nodiscard]] uint64_t extendedLenField() const {
         auto s = [this](size_t i, uint8_t shift = 0) constexpr { return std::to_integer<uint64_t>(raw[i]) << shift; };
+        if (payloadLenField() < 126) return 0; // the header has no extended length
         return payloadLenField() == 126 ? s(2, 8) | s(3) : s(2, 56) | s(3, 48) | s(4, 40) | s(5, 32) | s(6, 24) | s(7, 16) | s(8, 8) | s(9, 0);
     }
 
-- 
2.43.0

