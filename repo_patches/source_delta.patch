From c19df1217ce73f6ffb1e9d1f1affbc1f8a3f4289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 01/32] fix: Socket: do not destroy the shared state while
 holding its lock

When bind() or listen() failed the last reference to Shared was dropped
inside Shared::lock(), and ~Shared() -> close() waited forever for the
read lock held by the same thread.
---
 src/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..8bbe64e 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,22 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
       if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
         return;
       }
 
       if (listen(socket, 0) != 0) {
-        shared.reset();
         return;
       }
+
+      listening = true;
     });
+    // Note: shared must not be released while its lock is held.
+    if (!listening) {
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 6dc56c1d054500d98b80c3c8552eb540bf90af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 02/32] fix: any: transfer ownership of the allocation when
 moving

The heap pointer stayed with the moved-from any: the allocation was leaked,
or freed under the new owner once the moved-from any was reused. A value held
in the internal buffer of the moved-from any was never destructed.
---
 include/dap/any.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..c114b4e 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -96,11 +96,14 @@ any::any(any&& other) noexcept : type(other.type) {
   if (other.isInBuffer(other.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, other.value);
+    other.reset();
   } else {
     value = other.value;
+    heap = other.heap;
   }
   other.value = nullptr;
   other.type = nullptr;
+  other.heap = nullptr;
 }
 
 void any::reset() {
@@ -123,16 +126,22 @@ any& any::operator=(const any& rhs) {
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.isInBuffer(rhs.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, rhs.value);
+    rhs.reset();
   } else {
     value = rhs.value;
+    heap = rhs.heap;
   }
   rhs.value = nullptr;
   rhs.type = nullptr;
+  rhs.heap = nullptr;
   return *this;
 }
 
-- 
2.43.0


From bd229d9184c0791c6801a0aebe03c7cca2a77b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:06 +0000
Subject: [PATCH 03/32] fix: any: self-assignment must keep the value

---
 include/dap/any.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dap/any.h b/include/dap/any.h
index c114b4e..2f560fd 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -116,6 +116,9 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.value != nullptr) {
-- 
2.43.0


From d5d7819e5d2bf9a3b00c9dc5e3179a8029dc198a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 04/32] fix: ContentReader: report the stream as closed once it
 has ended

After the peer disconnected, Reader::read() returns 0 while isOpen() stays
true for sockets and files: the session spun forever and never called onClose.
---
 src/content_stream.cpp |  5 ++++-
 src/content_stream.h   |  1 +
 src/socket.cpp         | 13 ++++++++++---
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..4c05666 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -33,11 +33,12 @@ ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
   on_invalid_data = std::move(rhs.on_invalid_data);
+  eof = rhs.eof;
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return reader ? !eof && reader->isOpen() : false;
 }
 
 void ContentReader::close() {
@@ -150,6 +151,8 @@ bool ContentReader::buffer(size_t bytes) {
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
     if (numGot == 0) {
+      // Reader::read() only returns 0 once the stream has ended.
+      eof = true;
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..5cd95e2 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -52,6 +52,7 @@ class ContentReader {
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
   OnInvalidData on_invalid_data;
+  bool eof = false;
 };
 
 class ContentWriter {
diff --git a/src/socket.cpp b/src/socket.cpp
index 8bbe64e..f159a1f 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,8 @@
 
 #include "rwmutex.h"
 
+#include <errno.h>
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -205,9 +207,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    while (true) {
+      auto len =
+          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      if (len < 0 && errno == EINTR) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
-- 
2.43.0


From 6bfcd789372d56bf1f169d6b4f20d08a4fc0ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 05/32] fix: Socket: write all the bytes, and do not raise
 SIGPIPE

A short ::send() was reported as success, dropping the rest of the message,
and writing to a disconnected peer killed the process.
---
 src/socket.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index f159a1f..7ffd112 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -222,11 +222,25 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+#if defined(MSG_NOSIGNAL)
+    // Report a disconnected peer as a failed write, not as a SIGPIPE.
+    constexpr int flags = MSG_NOSIGNAL;
+#else
+    constexpr int flags = 0;
+#endif
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto len = ::send(s, data, static_cast<int>(bytes), flags);
+      if (len < 0 && errno == EINTR) {
+        continue;
+      }
+      if (len <= 0) {
+        return false;
+      }
+      data += len;
+      bytes -= static_cast<size_t>(len);
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
-- 
2.43.0


From a4ea54609900586cc327bbcb29869b9ae73c61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 06/32] fix: Socket: isOpen() must not leak the descriptor of
 an errored socket

---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 7ffd112..3792445 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -166,8 +166,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From 9f06ec02a940668d61527d105300dd3397e216dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 07/32] fix: RLock, WLock: move-assignment must release the
 lock being replaced

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From cac871eb9cfc99d7bcbc852a2a3cbaa31a355dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:35 +0000
Subject: [PATCH 08/32] fix: NlohmannSerializer: dump() of a string with
 invalid UTF-8 aborted

---
 src/nlohmann_json_serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..4a7d5ce 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -157,7 +157,9 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Replace invalid UTF-8 sequences: with exceptions disabled the default error
+  // handler aborts the process.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From f941f7c14dbab02b9838ade67f92685d7ef110d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 09/32] fix: JsonCppDeserializer: malformed input must not
 terminate the process

---
 src/jsoncpp_json_serializer.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..93da1db 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,6 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
 #include <memory>
 
 namespace dap {
@@ -148,11 +147,21 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  // cppdap expects that the JSON layer does not throw exceptions: text that
+  // cannot be parsed is treated as null, from which nothing can be deserialized.
+#if JSON_USE_EXCEPTION
+  try {
+#endif
+    if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                           &error)) {
+      return Json::Value();
+    }
+#if JSON_USE_EXCEPTION
+  } catch (const Json::Exception&) {
+    // Thrown if the value is nested too deeply.
+    return Json::Value();
   }
+#endif
   return json;
 }
 
-- 
2.43.0


From b7cf335b155c01aef4f1dec203b7e45329226dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 10/32] fix: Deserializer: an object must be stored as a JSON
 object

As documented, deserialize() returns false if the stored object is not of the
correct type. RapidJSON asserted instead, the others returned true.
---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 3 +++
 src/rapid_json_serializer.cpp    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 93da1db..148897b 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -67,6 +67,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 4a7d5ce..f9b38cc 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..7710100 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -75,6 +75,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
-- 
2.43.0


From 604cf62126d0197e3691d77ccb438337e3eeb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 11/32] fix: RapidDeserializer: count() of a value that is not
 an array asserted

---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 7710100..607a1db 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -120,7 +120,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From 5186d296562fa87cdcea6dd8cd2f8391c7297639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 12/32] fix: RapidDeserializer: integers over 32 bits were
 rejected for any

---
 src/rapid_json_serializer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 607a1db..859557b 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -95,8 +95,10 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
+  } else if (json()->IsUint64()) {
+    *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
     *v = dap::string(json()->GetString());
   } else if (json()->IsNull()) {
-- 
2.43.0


From 30c4edf15a0fb1a4c3cda491b24470a673d0a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:07 +0000
Subject: [PATCH 13/32] fix: Rapid(De)Serializer: strings and keys were cut at
 a NUL character

---
 src/rapid_json_serializer.cpp | 42 ++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 859557b..d7c542a 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,12 +19,23 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// makeKey() returns a rapidjson value that references the whole of name, which
+// may contain NUL characters.
+rapidjson::Value makeKey(const std::string& name) {
+  return rapidjson::Value(rapidjson::StringRef(
+      name.data(), static_cast<rapidjson::SizeType>(name.size())));
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -70,7 +81,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  *v = dap::string(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -85,7 +96,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[dap::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -100,7 +112,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
   } else if (json()->IsUint64()) {
     *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -145,7 +157,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(makeKey(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -169,7 +181,7 @@ std::string RapidSerializer::dump() const {
   rapidjson::StringBuffer sb;
   rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(sb);
   json()->Accept(writer);
-  return sb.GetString();
+  return std::string(sb.GetString(), sb.GetSize());
 }
 
 bool RapidSerializer::serialize(dap::boolean v) {
@@ -197,11 +209,13 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    auto key = makeKey(it.first);
+    if (!json()->HasMember(key)) {
+      rapidjson::Value name_value{key.GetString(), key.GetStringLength(),
+                                  allocator};
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[key];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -265,15 +279,17 @@ bool RapidSerializer::object(
     FS(rapidjson::Value* json, rapidjson::Document::AllocatorType& allocator)
         : json(json), allocator(allocator) {}
     bool field(const std::string& name, const SerializeFunc& cb) override {
-      if (!json->HasMember(name.c_str())) {
-        rapidjson::Value name_value{name.c_str(), allocator};
+      auto key = makeKey(name);
+      if (!json->HasMember(key)) {
+        rapidjson::Value name_value{key.GetString(), key.GetStringLength(),
+                                    allocator};
         json->AddMember(name_value, rapidjson::Value(), allocator);
       }
-      rapidjson::Value& member = (*json)[name.c_str()];
+      rapidjson::Value& member = (*json)[key];
       RapidSerializer s(&member, allocator);
       auto res = cb(&s);
       if (s.removed) {
-        json->RemoveMember(name.c_str());
+        json->RemoveMember(key);
       }
       return res;
     }
-- 
2.43.0


From 3f96b304e4440fc295b399f2f622ef1882e01560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 14/32] fix: Session: do not call the error handler with locks
 held

The handler deadlocked if it called back into the session, and the
handler-registration errors read it without holding its mutex.
---
 src/session.cpp | 51 ++++++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..75eddbb 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -161,11 +161,22 @@ class Impl : public dap::Session {
     }
 
     void error(const char* format, ...) {
+      char buf[2048];
       va_list vararg;
       va_start(vararg, format);
-      std::unique_lock<std::mutex> lock(errorMutex);
-      errorLocked(format, vararg);
+      vsnprintf(buf, sizeof(buf), format, vararg);
       va_end(vararg);
+
+      // Note: the handler may call back into the session, so it must not be
+      // called with any lock held.
+      ErrorHandler handler;
+      {
+        std::unique_lock<std::mutex> lock(errorMutex);
+        handler = errorHandler;
+      }
+      if (handler) {
+        handler(buf);
+      }
     }
 
     std::pair<const dap::TypeInfo*, GenericRequestHandler> request(
@@ -182,9 +193,10 @@ class Impl : public dap::Session {
           requestMap
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Request handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Request handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -193,7 +205,6 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
         return {};
       }
       auto out = std::move(responseIt->second);
@@ -207,9 +218,9 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response handler for sequence %d already registered",
-                     seq);
+        error("Response handler for sequence %d already registered", seq);
       }
     }
 
@@ -226,9 +237,10 @@ class Impl : public dap::Session {
       auto added =
           eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Event handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Event handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -243,28 +255,14 @@ class Impl : public dap::Session {
              const GenericResponseSentHandler& handler) {
       std::unique_lock<std::mutex> lock(responseSentMutex);
       auto added = responseSentMap.emplace(typeinfo, handler).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response sent handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Response sent handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
    private:
-    void errorfLocked(const char* format, ...) {
-      va_list vararg;
-      va_start(vararg, format);
-      errorLocked(format, vararg);
-      va_end(vararg);
-    }
-
-    void errorLocked(const char* format, va_list args) {
-      char buf[2048];
-      vsnprintf(buf, sizeof(buf), format, args);
-      if (errorHandler) {
-        errorHandler(buf);
-      }
-    }
-
     std::mutex errorMutex;
     ErrorHandler errorHandler;
 
@@ -476,6 +474,7 @@ class Impl : public dap::Session {
   bool send(const std::string& s) {
     std::unique_lock<std::mutex> lock(sendMutex);
     if (!writer.isOpen()) {
+      lock.unlock();
       handlers.error("Send failed as the writer is closed");
       return false;
     }
-- 
2.43.0


From 29630a1512efa6c26195301a30ab85201f09b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 15/32] fix: Session: pass the sequence number to the error
 format as an integer

A dap::integer object was passed through the variadic arguments for a %d.
---
 src/session.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index 75eddbb..27afa8e 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -439,7 +439,8 @@ class Impl : public dap::Session {
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
     if (!typeinfo) {
-      handlers.error("Unknown response with sequence %d", requestSeq);
+      handlers.error("Unknown response with sequence %lld",
+                     static_cast<long long>(requestSeq));
       return;
     }
 
-- 
2.43.0


From 6ad2add14f237d87775751956ed4b28e5a57b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 16/32] fix: Session: do not truncate the message of an error
 response

---
 src/session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index 27afa8e..a08651b 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -467,7 +467,7 @@ class Impl : public dap::Session {
         handlers.error("Failed to deserialize message");
         return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 3e34c0e6c1dcb5526bb8f9001a12e8af5c156fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 17/32] fix: Session: complete a request whose response is
 malformed

The response handler was dropped without being called if the response had no
'success' field, or reported a failure without the (optional) message, leaving
the future unresolved. A failure with an empty message looked like a success.
---
 src/session.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index a08651b..97c1377 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -447,6 +447,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      dap::Error error("Response missing 'success' field");
+      handler(nullptr, &error);
       return;
     }
 
@@ -465,7 +467,10 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
+      }
+      if (message.empty()) {
+        // An empty Error message represents success.
+        message = "Request failed";
       }
       auto error = dap::Error(message);
       handler(nullptr, &error);
-- 
2.43.0


From 2e6bd8bf72018d36ffafe3ce7921a85f3e7f2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 18/32] fix: Session: forget the response handler of a request
 that was not sent

---
 src/session.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 97c1377..5e2951c 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -117,10 +117,13 @@ class Impl : public dap::Session {
                  fs->field("arguments", [&](dap::Serializer* s) {
                    return requestTypeInfo->serialize(s, request);
                  });
-        })) {
+        }) ||
+        !send(s.dump())) {
+      // There will be no response to this request.
+      handlers.response(seq);
       return false;
     }
-    return send(s.dump());
+    return true;
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
-- 
2.43.0


From a244abdd8fbbd96e742b2324797dd1d36193205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 19/32] fix: file(): do not use the FILE after it has been
 closed

---
 src/io.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..2a9f333 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -116,12 +116,17 @@ class File : public dap::ReaderWriter {
   void close() override {
     if (closable) {
       if (!closed.exchange(true)) {
+        std::unique_lock<std::mutex> readLock(readMutex);
+        std::unique_lock<std::mutex> writeLock(writeMutex);
         fclose(f);
       }
     }
   }
   size_t read(void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(readMutex);
+    if (closed) {
+      return 0;
+    }
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
       int c = fgetc(f);
@@ -134,6 +139,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     if (fwrite(buffer, 1, n, f) == n) {
       fflush(f);
       return true;
-- 
2.43.0


From 08f1c8d276c01ed49f71678f00e883d085646e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 20/32] fix: TypeInfo: registering types is not thread safe

The first use of different array, optional or variant types on different
threads raced on the vector of type infos.
---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..8f09dd8 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -67,6 +68,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
+  std::mutex typesMutex;
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto typeinfos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);
+  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From b04408125d8435c27caff176bd4e2b3172d9c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 21/32] fix: ContentReader: reject malformed content lengths

In kClose mode a header without a length was skipped instead of closing the
stream, lengths were parsed modulo 2^64, and NUL bytes were accepted as
whitespace or as the end of the number.
---
 src/content_stream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 4c05666..c0a9e2b 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -68,11 +68,15 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    size_t digit = size_t(c) - size_t('0');
+    if (len > (SIZE_MAX - digit) / 10) {
+      return badHeader();
+    }
     len *= 10;
-    len += size_t(c) - size_t('0');
+    len += digit;
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
@@ -134,6 +138,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would match the terminator.
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From 73b7875f13ce4b35c64a73d3d9801f11f1c6a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 22/32] fix: Socket: connect timeouts over 71 minutes
 overflowed

---
 src/socket.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 3792445..1afa13a 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -333,15 +333,13 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
-      const auto microseconds = timeoutMillis * 1000;
-
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
 
       timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
+      tv.tv_sec = timeoutMillis / 1000;
+      tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
-- 
2.43.0


From fe4d25f9f30513f47a1bbbb108b821c0cd57d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 23/32] fix: Socket: do not write beyond the fd_set for large
 descriptors

---
 src/socket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/socket.cpp b/src/socket.cpp
index 1afa13a..301329d 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -333,6 +333,11 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
+#if !defined(_WIN32)
+      if (socket >= FD_SETSIZE) {
+        return;  // Does not fit in the fd_set.
+      }
+#endif
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
-- 
2.43.0


From 42292a9c5fa20255023b67f51d70a9435e40855a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:07 +0000
Subject: [PATCH 24/32] fix: NlohmannDeserializer: arrays do not have fields

As for the other JSON libraries, and as documented, field() is for objects.
---
 src/nlohmann_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index f9b38cc..da0da04 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -135,7 +135,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
-- 
2.43.0


From da198856c62234167a11b6c642c6e38d5c8f58e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 25/32] fix: net::Server: do not call the error handler with
 the server's lock held

---
 src/network.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/network.cpp b/src/network.cpp
index 7d1da7a..4066bb0 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -45,6 +45,7 @@ class Impl : public dap::net::Server {
         new dap::Socket(address, std::to_string(port).c_str()));
 
     if (!socket->isOpen()) {
+      lock.unlock();  // onError may call back into the server.
       onError("Failed to open socket");
       return false;
     }
-- 
2.43.0


From 2e4e7407cc8eb051e7cfe935b0085fe4ebf499d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 26/32] fix: StringBuffer: an empty write no longer makes a
 later read report the end of the stream

---
 src/string_buffer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string_buffer.h b/src/string_buffer.h
index 1c38197..50dc611 100644
--- a/src/string_buffer.h
+++ b/src/string_buffer.h
@@ -84,6 +84,9 @@ bool StringBuffer::write(const void* buffer, size_t bytes) {
   if (closed) {
     return false;
   }
+  if (bytes == 0) {
+    return true;
+  }
   auto chars = reinterpret_cast<const char*>(buffer);
   str.append(chars, chars + bytes);
   chunk_lengths.push_back(bytes);
-- 
2.43.0


From 3395d2e6d89459576e5b4b6e496a666090b46d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:22 +0000
Subject: [PATCH 27/32] fix: do not bind an invalid socket

---
 src/socket.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 301329d..b4bc7ee 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -255,7 +255,8 @@ Socket::Socket(const char* address, const char* port)
   if (shared) {
     bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
+      if (socket == InvalidSocket ||
+          bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
         return;
       }
 
-- 
2.43.0


From 308aca2b63eae8e1154775199fc4d63d6a195f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:01 +0000
Subject: [PATCH 28/32] fix: address base fields of a described struct through
 the derived type

DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT cast the untyped object pointer straight to
the base type, which is wrong when the base is not the first subobject.
---
 include/dap/typeof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..4c57c7f 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -236,14 +236,14 @@ M member_type(M T::*);
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
       bool deserialize(const Deserializer* d, void* obj) const override { \
         auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
+        auto base = static_cast<BASE*>(derived);                          \
         return TypeOf<BASE>::deserializeFields(d, base) &&                \
                deserializeFields(d, derived);                             \
       }                                                                   \
       bool serialize(Serializer* s, const void* obj) const override {     \
         return s->object([&](FieldSerializer* fs) {                       \
           auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
+          auto base = static_cast<const BASE*>(derived);                  \
           return TypeOf<BASE>::serializeFields(fs, base) &&               \
                  serializeFields(fs, derived);                            \
         });                                                               \
-- 
2.43.0


From c57b04d86c414abe7a5b49710be3ab4f3d4fb356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:50 +0000
Subject: [PATCH 29/32] fix: keep struct type descriptions alive until the
 library is terminated

They were function-local statics, destroyed at exit even while initialize()
still held the library, so a global holding a struct called a dead object.
---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 4c57c7f..2c026d0 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static auto typeinfo = TypeInfo::create<TI>();                          \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static auto typeinfo = TypeInfo::create<TI>();                        \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From 20126d657c537d61a5feafa1b552c0f3c6f68414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 30/32] fix: do not decode real numbers as integers with
 JsonCpp

The other JSON back ends decode dap::integer only from JSON integers.
---
 src/jsoncpp_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 148897b..4745fa7 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -43,7 +43,8 @@ bool JsonCppDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::integer* v) const {
-  if (!json->isInt64()) {
+  // json->isInt64() returns true for real numbers without a fraction as well.
+  if (!json->isInt64() || json->type() == Json::ValueType::realValue) {
     return false;
   }
   *v = json->asInt64();
-- 
2.43.0


From 23971839ccf2b6e65a699537ca28257e24b67a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 31/32] fix: serialize a null any as null with RapidJSON

The root value of a RapidSerializer starts as an object, so a null was
written as {}.
---
 src/rapid_json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index d7c542a..e5d8483 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -238,6 +238,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
-- 
2.43.0


From e9ffe25f03848c5f77c8f786968038528988e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:55 +0000
Subject: [PATCH 32/32] fix: any: assigning from a value nested in the old one
 used it after it was destroyed

---
 include/dap/any.h | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index 2f560fd..dcff50f 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -119,42 +119,39 @@ any& any::operator=(const any& rhs) {
   if (this == &rhs) {
     return *this;
   }
-  reset();
-  type = rhs.type;
-  if (rhs.value != nullptr) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  }
-  return *this;
+  any copy(rhs);  // rhs may be part of the value that is replaced.
+  return *this = std::move(copy);
 }
 
 any& any::operator=(any&& rhs) noexcept {
   if (this == &rhs) {
     return *this;
   }
+  any moved(std::move(rhs));  // rhs may be part of the value that is replaced.
   reset();
-  type = rhs.type;
-  if (rhs.isInBuffer(rhs.value)) {
+  type = moved.type;
+  if (moved.isInBuffer(moved.value)) {
     alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-    rhs.reset();
+    type->copyConstruct(value, moved.value);
+    moved.reset();
   } else {
-    value = rhs.value;
-    heap = rhs.heap;
+    value = moved.value;
+    heap = moved.heap;
   }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
-  rhs.heap = nullptr;
+  moved.value = nullptr;
+  moved.type = nullptr;
+  moved.heap = nullptr;
   return *this;
 }
 
 template <typename T>
 any& any::operator=(const T& val) {
   if (!is<T>()) {
+    T copy(val);  // val may be part of the value that is replaced.
     reset();
     type = TypeOf<T>::type();
     alloc(type->size(), type->alignment());
-    type->copyConstruct(value, &val);
+    type->copyConstruct(value, &copy);
   } else {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
-- 
2.43.0

