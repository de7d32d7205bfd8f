From 329290c758e2b6ac3a94d5f5b36b6ec84f160f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 01/21] fix: hex decoding rejects characters that are not hex
 digits

hex::Decode indexed its 103 entry lookup table with the raw (signed) character, reading out of
bounds for anything above 'f' or below zero, and silently decoded every other invalid character as 0.
---
 src/maidsafe/common/encode.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..6aa3f97 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,13 @@ namespace hex {
 
 namespace {
 
+// Throws if 'hex_digit' is not one of the characters of 'detail::alphabet'.
+unsigned char DecodeDigit(char hex_digit) {
+  if (!((hex_digit >= '0' && hex_digit <= '9') || (hex_digit >= 'a' && hex_digit <= 'f')))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+  return detail::lookup[static_cast<unsigned char>(hex_digit)];
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +54,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DecodeDigit(hex_input[j++]) << 4);
+    non_hex_output[i] |= DecodeDigit(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From 0648715f9d99db991407a1611e3ab6c98e6ba50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:39 +0000
Subject: [PATCH 02/21] fix: base64 decoding rejects a pad character followed
 by another character

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 6aa3f97..2c2c462 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -115,6 +115,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From 9016e697cd0281afece3dcc04195bf3735ccb6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:06 +0000
Subject: [PATCH 03/21] fix: a moved-from BoundedString is left uninitialised

---
 include/maidsafe/common/bounded_string.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/bounded_string.h b/include/maidsafe/common/bounded_string.h
index fdd25d0..709e760 100644
--- a/include/maidsafe/common/bounded_string.h
+++ b/include/maidsafe/common/bounded_string.h
@@ -130,16 +130,21 @@ class BoundedString {
 
   BoundedString(BoundedString&& other) MAIDSAFE_NOEXCEPT
       : string_(std::move(other.string_)),
-        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {}
+        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {
+    other.Reset();
+  }
 
   BoundedString& operator=(const BoundedString&) = default;
 
   BoundedString& operator=(BoundedString&& other) MAIDSAFE_NOEXCEPT {
+    if (this == &other)
+      return *this;
     string_ = std::move(other.string_);
     valid_ = std::move(other.valid_);
 #ifndef NDEBUG
     debug_string_ = std::move(other.debug_string_);
 #endif
+    other.Reset();
     return *this;
   }
 
@@ -221,6 +226,15 @@ class BoundedString {
                   "Lower bound of BoundedString must be less than or equal to upper bound");
     return (string_.size() < min) || (string_.size() > max);
   }
+
+  // Leaves a moved-from object in the default-constructed state.
+  void Reset() {
+    string_.clear();
+    valid_ = !OutwithBounds();
+#ifndef NDEBUG
+    debug_string_ = "Invalid string";
+#endif
+  }
 };
 #ifdef __clang__
 #pragma clang diagnostic pop
-- 
2.43.0


From 208f805aa813eee3f6feb98aa6705c0e2dce88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:56 +0000
Subject: [PATCH 04/21] fix: SipHash counts the bytes of the last partial block
 once

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..e139092 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = (static_cast<std::uint64_t>(b_in)) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From 9e2254e4f77cadd95aa6cb72c963752d66fa5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 05/21] fix: MakeIdentity from a binary string rejects strings
 of the wrong size

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..cc29056 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != 8 * identity_size)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_identity));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From 0ba1e2772b5657652180b3eb63dd449b34f4a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:52 +0000
Subject: [PATCH 06/21] fix: IntToError overflows on the smallest int

---
 src/maidsafe/common/error.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/error.cc b/src/maidsafe/common/error.cc
index 1435af8..3e4457b 100644
--- a/src/maidsafe/common/error.cc
+++ b/src/maidsafe/common/error.cc
@@ -70,9 +70,8 @@ int ErrorToInt(maidsafe_error error) {
 }
 
 maidsafe_error IntToError(int value) {
-  value = 0 - value;
-  ErrorCategories category_value{static_cast<ErrorCategories>(value - (value % kMultiple))};
-  int error_value{value % kMultiple};
+  int error_value{-(value % kMultiple)};
+  ErrorCategories category_value{static_cast<ErrorCategories>(-(value + error_value))};
   switch (category_value) {
     case ErrorCategories::kCommon:
       return maidsafe_error{error_value, GetCommonCategory()};
-- 
2.43.0


From bcd964202f2ea7852f975a5d5f3ea5ac996d8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:17 +0000
Subject: [PATCH 07/21] fix: SecretRecoverData and InfoRetrieve reject an empty
 set of parts

---
 src/maidsafe/common/crypto.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..69aa738 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -192,6 +192,10 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "SecretRecoverData no parts given";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +252,10 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  if (parts.empty()) {
+    LOG(kError) << "InfoRetrieve no parts given";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From 4cabb03e688c1d8e2fe1a30d630729da8ee7e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:24 +0000
Subject: [PATCH 08/21] fix: adding to an LruCache of capacity 0 evicted from
 an empty list

---
 include/maidsafe/common/containers/lru_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..1c35be1 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,8 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    // A cache with no capacity holds nothing, so has nothing to evict either
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From 6720fcd022c24ff8b026a7a01ae73fe2a0716177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:14 +0000
Subject: [PATCH 09/21] fix: HashVersion was ignored when hashing const values

---
 include/maidsafe/common/hash/algorithms/hash_algorithm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
index 0b11a9a..db284ad 100644
--- a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
+++ b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
@@ -53,7 +53,7 @@ class HashAlgorithmBase {
   Derived* self() { return static_cast<Derived*>(this); }
 
   template <typename Type>
-  using Normalize = typename std::remove_reference<typename std::remove_cv<Type>::type>::type;
+  using Normalize = typename std::remove_cv<typename std::remove_reference<Type>::type>::type;
 
   template <typename Type>
   using IsVersionIntegral =
-- 
2.43.0


From 712d507c1995aaa21e36cf04ec444954814d868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:57 +0000
Subject: [PATCH 10/21] fix: tcp fall back to IPv4 where IPv6 is not supported

The error codes reported by asio are in its system category, so comparing them with
std::make_error_code(std::errc::address_family_not_supported) (generic category) was never true.
---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 src/maidsafe/common/tcp/listener.cc   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..051f31a 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -22,6 +22,7 @@
 
 #include "asio/dispatch.hpp"
 #include "asio/error.hpp"
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/read.hpp"
 #include "asio/write.hpp"
@@ -61,8 +62,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   std::error_code connect_error;
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
-  if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+  if (connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..8755884 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -21,6 +21,7 @@
 #include <condition_variable>
 #include <limits>
 
+#include "asio/error.hpp"
 #include "asio/post.hpp"
 #include "asio/wrap.hpp"
 
@@ -78,7 +79,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From 062a5656a1e5eff90f5570694c6a4c4be668821b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:32 +0000
Subject: [PATCH 11/21] fix: tcp handle the received size in the connection's
 strand

The completion handler of ReadSize was the only one not wrapped in the strand, so it used the socket,
the receive buffer and the close flag concurrently with handlers running in the strand.
---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 051f31a..76407b9 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From 0d8bdee885d44e1ef0757f6fafb9ad78b6369d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:07 +0000
Subject: [PATCH 12/21] fix: tcp stop listening in the listener's strand

StopListening posted to the io_service itself, so the acceptor was closed concurrently with handlers
using it in the strand, through a raw pointer which did not keep the listener alive.
---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 8755884..ab5f0a7 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -132,7 +132,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From 037197679965bf08624ac882ad2be65373416f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 13/21] fix: sqlite::Transaction rolls back unless it was
 committed

The constructor left `committed` uninitialised, so whether the destructor of a
transaction which was never committed rolled it back depended on what the memory
held before; without the ROLLBACK the database stays locked.
---
 src/maidsafe/common/sqlite3_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..9df0583 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,7 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in) : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 94435439c41306415781897338a2f10298da044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 14/21] fix: sqlite wrapper releases the handle and the error
 messages of failed calls

sqlite3_open_v2 passes out a handle which has to be closed even if it fails, and
sqlite3_exec a message which has to be freed; a failed open, a failed PRAGMA and
SQLITE_NOTADB leaked them.
---
 src/maidsafe/common/sqlite3_wrapper.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 9df0583..1feaa04 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,13 +37,13 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);  // a handle is returned even if opening fails
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -120,6 +120,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From c88795c599bd4432177ec610b28af23d63f1e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:16 +0000
Subject: [PATCH 15/21] fix: sqlite::Statement::BindBlob binds an empty blob as
 such

&blob[0] is undefined for an empty vector, and the null pointer it gives in
practice makes sqlite3 bind NULL, which a NOT NULL column refuses.
---
 src/maidsafe/common/sqlite3_wrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1feaa04..70385ea 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -169,7 +169,9 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would bind NULL rather than an empty blob
+  const void* data(blob.empty() ? static_cast<const void*>("") : blob.data());
+  auto return_value = sqlite3_bind_blob(statement, row_index, data,
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From f61a7494afcbd19141cb45bc4df86e9114e1c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:55 +0000
Subject: [PATCH 16/21] fix: ReadFile and WriteFile report failures

ReadFile returned as many zeros as the file is long, as a success, if the file
could not be opened, and the bytes missing as zeros if reading stopped early;
WriteFile returned true if nothing or only a part could be written (a full disk).
---
 src/maidsafe/common/utils.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..5c61f88 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -315,6 +315,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
+    if (file_in.fail()) {
+      LOG(kError) << "Failed to read file " << file_path;
+      return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
+    }
     file_in.close();
     return file_content;
   }
@@ -338,6 +342,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (file_out.fail()) {
+      LOG(kError) << "Failed to write file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From cb33ae1d619f85a4187f8b1176a9072c78376cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:18 +0000
Subject: [PATCH 17/21] fix: random data of any size from 0 to the maximum

For the range [0, 2^32 - 1] the number of sizes was computed as 0 in 32 bits, and
the functions divided by it.
---
 src/maidsafe/common/utils.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 5c61f88..944c3e8 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -151,6 +151,11 @@ IntType RandomInt() {
   return distribution(detail::random_number_generator());
 }
 
+// Returns a random size between 'min' and 'max' inclusive.
+size_t RandomSize(uint32_t min, uint32_t max) {
+  return static_cast<size_t>(RandomUint32() % (uint64_t(max) - min + 1)) + min;
+}
+
 }  // unnamed namespace
 
 namespace detail {
@@ -257,13 +262,13 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -271,7 +276,7 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -279,7 +284,7 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From 6091966627c33710618a09e0b7aedd011c5d61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:30 +0000
Subject: [PATCH 18/21] fix: AsioService joins the threads it started if
 another cannot be started

The constructor adds the threads one by one.  If std::thread's constructor
threw for one of them, those already running were still joinable when the
vector was destroyed, which calls std::terminate.
---
 include/maidsafe/common/asio_service.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..8ea8693 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -33,6 +33,7 @@
 #include "maidsafe/common/error.h"
 #include "maidsafe/common/make_unique.h"
 #include "maidsafe/common/log.h"
+#include "maidsafe/common/on_scope_exit.h"
 
 namespace maidsafe {
 
@@ -67,6 +68,8 @@ IoService<IoServiceType>::IoService(size_t thread_count)
       mutex_() {
   if (thread_count == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  // If a thread can't be started, join those which were, since destroying them would terminate.
+  on_scope_exit stop_on_error([this] { Stop(); });
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
       try {
@@ -79,6 +82,7 @@ IoService<IoServiceType>::IoService(size_t thread_count)
         throw;
       }
     });
+  stop_on_error.Release();
 }
 
 template <typename IoServiceType>
-- 
2.43.0


From 62774fb896e7a94275f14fa644c04670863cf3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:40 +0000
Subject: [PATCH 19/21] fix: Menu::Run copes with a menu which has no items

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From 82f341d71eeefe19bce5bbfc4a7f2d06fe82d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:40 +0000
Subject: [PATCH 20/21] fix: Menu::Run ends when its input has ended

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..cc07040 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)
+          throw;  // The input has ended, so asking again would never stop.
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From ab28e6bb0f058dcdb7e9303b114af09a949fa2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:02 +0000
Subject: [PATCH 21/21] fix: Menu::Run doesn't overflow on the lowest number

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index cc07040..b0161c6 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -57,6 +57,8 @@ int Menu::Run() {
         } else if (result == 99 && current_item_->kParent_) {
           current_item_ = current_item_->kParent_;
         } else {
+          if (result < 0)
+            BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
-- 
2.43.0

