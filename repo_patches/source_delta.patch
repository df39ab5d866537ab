From bb653b7d98c2cde8372a2d3119bf9ce270026c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 01/50] fix: zigzag traversal of an empty grid ends at once

An iteration over a grid with zero width or height started at (0,0), which is not part of
the grid, and never reached end().
---
 src/hzip_core/preprocessor/zigzag.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/zigzag.h b/src/hzip_core/preprocessor/zigzag.h
index d0d92ba..c724487 100644
--- a/src/hzip_core/preprocessor/zigzag.h
+++ b/src/hzip_core/preprocessor/zigzag.h
@@ -112,6 +112,10 @@ namespace hztrans {
         };
 
         [[nodiscard]] const_iterator begin() const {
+            if (width == 0 || height == 0) {
+                return end();
+            }
+
             return const_iterator(zigzag_pair(), width, height);
         }
 
-- 
2.43.0


From 02c4252cb2516a7d20ce30052d95176f32e0d6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 02/50] fix: delta coding of an empty sequence touches no
 memory

length - 1 wrapped around, so that the loop ran below the start of the data.
---
 src/hzip_core/preprocessor/delta.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/delta.cpp b/src/hzip_core/preprocessor/delta.cpp
index 36abf6d..364f64f 100755
--- a/src/hzip_core/preprocessor/delta.cpp
+++ b/src/hzip_core/preprocessor/delta.cpp
@@ -6,6 +6,10 @@ hztrans::DeltaTransformer::DeltaTransformer(int *data, uint64_t length) {
 }
 
 void hztrans::DeltaTransformer::transform() {
+    if (length == 0) {
+        return;
+    }
+
     for (uint64_t i = length - 1; i > 0; i--) {
         data[i] -= data[i - 1];
     }
-- 
2.43.0


From 4166557f6ab9d6cf013e03c9bffa576ebbda49ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 03/50] fix: recognise long command line options that contain a
 dash

The name of --peak-size was cut at the dash and reported as the unknown option 'peak'.
---
 other/argparse/include/argparse/argparse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/argparse/include/argparse/argparse.h b/other/argparse/include/argparse/argparse.h
index 6ae8c77..64b80de 100644
--- a/other/argparse/include/argparse/argparse.h
+++ b/other/argparse/include/argparse/argparse.h
@@ -89,7 +89,8 @@ static inline int _find_equal(const std::string &s) {
 static inline size_t _find_name_end(const std::string &s) {
   size_t i;
   for (i = 0; i < s.length(); ++i) {
-    if (std::ispunct(static_cast<int>(s[i]))) {
+    // names may contain _ and -, as in _find_equal
+    if (std::ispunct(static_cast<int>(s[i])) && s[i] != '_' && s[i] != '-') {
       break;
     }
   }
-- 
2.43.0


From b2f90d5db0c21b353a8f835aff45d289444d2295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 04/50] fix: fall back to the CPU when OpenCL is not enabled at
 run time

---
 src/hzip_codec/sharingan/state_transition.cpp | 9 +++++----
 src/hzip_core/preprocessor/color.h            | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 3c20615..bde7d9c 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -469,14 +469,15 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
     return std::pair<rainman::virtual_array<SSTPair>, std::mutex &>(array, cache_mutex);
 }
 
+#endif
+
 std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransition::dynamic_precode() {
+#ifdef HZIP_ENABLE_OPENCL
     if (hzruntime::Config::opencl_support_enabled) {
         if (_width * _height > 1000000) {
             return opencl_dynamic_precode();
-        } else {
-            return cpu_dynamic_precode();
         }
     }
-}
-
 #endif
+    return cpu_dynamic_precode();
+}
diff --git a/src/hzip_core/preprocessor/color.h b/src/hzip_core/preprocessor/color.h
index ebb7209..08b0a89 100644
--- a/src/hzip_core/preprocessor/color.h
+++ b/src/hzip_core/preprocessor/color.h
@@ -87,7 +87,7 @@ namespace hztrans {
 
     class LinearU16XColorTransformer {
     private:
-        hzruntime::Executor _executor;
+        hzruntime::Executor _executor = hzruntime::CPU;
         uint64_t _width;
         uint64_t _height;
         uint8_t _bit_depth;
-- 
2.43.0


From fc8f2b0208397b6310978904269c8d585ecc6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 05/50] fix: compile without HZIP_ENABLE_OPENCL

---
 src/hzip_core/models/paeth.cpp       |  5 +++--
 src/hzip_core/preprocessor/color.cpp | 14 ++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/hzip_core/models/paeth.cpp b/src/hzip_core/models/paeth.cpp
index ea030e6..e880379 100644
--- a/src/hzip_core/models/paeth.cpp
+++ b/src/hzip_core/models/paeth.cpp
@@ -20,11 +20,12 @@ hzmodels::LinearU16PaethDifferential::filter(
         }
     }
 
+#ifdef HZIP_ENABLE_OPENCL
     if (executor == hzruntime::OPENCL) {
         return opencl_filter(buffer, width, height, nchannels, inplace, bit_depth);
-    } else {
-        return cpu_filter(buffer, width, height, nchannels, inplace, bit_depth);
     }
+#endif
+    return cpu_filter(buffer, width, height, nchannels, inplace, bit_depth);
 }
 
 rainman::ptr<uint16_t>
diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index b36b336..df822f0 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -99,6 +99,8 @@ hztrans::LinearU16XColorTransformer::cpu_ycocg_to_rgb(const rainman::ptr<uint16_
     return output;
 }
 
+#ifdef HZIP_ENABLE_OPENCL
+
 void hztrans::LinearU16XColorTransformer::register_opencl_program() {
     hzopencl::ProgramProvider::register_program("rgb_ycocg",
 
@@ -193,20 +195,24 @@ hztrans::LinearU16XColorTransformer::opencl_ycocg_to_rgb(const rainman::ptr<uint
     }
 }
 
+#endif
+
 rainman::ptr<uint16_t>
 hztrans::LinearU16XColorTransformer::rgb_to_ycocg(const rainman::ptr<uint16_t> &buffer, bool inplace) {
+#ifdef HZIP_ENABLE_OPENCL
     if (_executor == hzruntime::OPENCL) {
         return opencl_rgb_to_ycocg(buffer, inplace);
-    } else {
-        return cpu_rgb_to_ycocg(buffer, inplace);
     }
+#endif
+    return cpu_rgb_to_ycocg(buffer, inplace);
 }
 
 rainman::ptr<uint16_t>
 hztrans::LinearU16XColorTransformer::ycocg_to_rgb(const rainman::ptr<uint16_t> &buffer, bool inplace) {
+#ifdef HZIP_ENABLE_OPENCL
     if (_executor == hzruntime::OPENCL) {
         return opencl_ycocg_to_rgb(buffer, inplace);
-    } else {
-        return cpu_ycocg_to_rgb(buffer, inplace);
     }
+#endif
+    return cpu_ycocg_to_rgb(buffer, inplace);
 }
-- 
2.43.0


From e98a79b1cd790eb30ea17f3f336df38d102d79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 06/50] fix: a failed send or receive is not success

send() and recv() return -1 on failure, which compared as an unsigned
number was never less than the expected size.
---
 src/hzip_network/api/handlers/socket_class.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index e64da57..a92f9f9 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < n) {
+    if (send(_sock, buf, n, 0) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -28,7 +28,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
         t_recv_sync();
     }
 
-    if (recv(_sock, buf, n, MSG_WAITALL) < n) {
+    if (recv(_sock, buf, n, MSG_WAITALL) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data received");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-- 
2.43.0


From f6be14cec027bd40857a2fc35e49d6c5a2411e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 07/50] fix: a client that disconnects does not kill the server
 with SIGPIPE

---
 src/hzip_network/api/handlers/socket_class.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index a92f9f9..ccc18bd 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -10,11 +10,11 @@ using namespace hzapi;
 
 void SocketInterface::t_send(const void *buf, size_t n) const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), MSG_NOSIGNAL) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
-    if (send(_sock, buf, n, 0) < (ssize_t) n) {
+    if (send(_sock, buf, n, MSG_NOSIGNAL) < (ssize_t) n) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -39,7 +39,7 @@ void SocketInterface::t_recv(void *buf, size_t n, bool sync) {
 
 void SocketInterface::t_recv_sync() const {
     uint8_t word = COMMON_CTL_SUCCESS;
-    if (send(_sock, &word, sizeof(word), 0) < (ssize_t) sizeof(word)) {
+    if (send(_sock, &word, sizeof(word), MSG_NOSIGNAL) < (ssize_t) sizeof(word)) {
         throw ApiErrors::ConnectionError("Insufficient data sent");
     }
 
@@ -52,12 +52,12 @@ void SocketInterface::error(const std::string &msg) const {
     // Error format: <CTLWORD (1B)> <msg len (8B)> <msg (?B)>
 
     uint8_t word = COMMON_CTL_ERROR;
-    send(_sock, &word, sizeof(word), 0);
+    send(_sock, &word, sizeof(word), MSG_NOSIGNAL);
 
     uint16_t len = msg.length();
 
-    send(_sock, &len, sizeof(len), 0);
-    send(_sock, msg.c_str(), len, 0);
+    send(_sock, &len, sizeof(len), MSG_NOSIGNAL);
+    send(_sock, msg.c_str(), len, MSG_NOSIGNAL);
 }
 
 void SocketInterface::success(const std::string &msg) {
-- 
2.43.0


From f9d79c3ea5dbeffecb02f41656d9e4b655914647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 08/50] fix: send an error frame as a whole

---
 src/hzip_network/api/handlers/socket_class.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hzip_network/api/handlers/socket_class.cpp b/src/hzip_network/api/handlers/socket_class.cpp
index ccc18bd..5c433b2 100644
--- a/src/hzip_network/api/handlers/socket_class.cpp
+++ b/src/hzip_network/api/handlers/socket_class.cpp
@@ -51,13 +51,16 @@ void SocketInterface::t_recv_sync() const {
 void SocketInterface::error(const std::string &msg) const {
     // Error format: <CTLWORD (1B)> <msg len (8B)> <msg (?B)>
 
-    uint8_t word = COMMON_CTL_ERROR;
-    send(_sock, &word, sizeof(word), MSG_NOSIGNAL);
+    // The frame is sent as a whole, so that a failure never leaves a hole in it.
 
+    uint8_t word = COMMON_CTL_ERROR;
     uint16_t len = msg.length();
 
-    send(_sock, &len, sizeof(len), MSG_NOSIGNAL);
-    send(_sock, msg.c_str(), len, MSG_NOSIGNAL);
+    std::string frame((const char *) &word, sizeof(word));
+    frame.append((const char *) &len, sizeof(len));
+    frame.append(msg, 0, len);
+
+    send(_sock, frame.data(), frame.length(), MSG_NOSIGNAL);
 }
 
 void SocketInterface::success(const std::string &msg) {
-- 
2.43.0


From 90a3552ed2fd4e02adf41c5aae1537d1e27d3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 09/50] fix: a stack that was emptied counts and grows from
 zero again

---
 src/hzip_core/utils/stack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hzip_core/utils/stack.h b/src/hzip_core/utils/stack.h
index 2870eb9..a3bb4c1 100644
--- a/src/hzip_core/utils/stack.h
+++ b/src/hzip_core/utils/stack.h
@@ -52,9 +52,9 @@ struct HZ_Buffer {
         if (index > 1) {
             index--;
         } else {
-            index = bufsize;
             auto tmp = buffer;
             buffer = buffer->prev;
+            index = buffer == nullptr ? 0 : bufsize;
 
             rfree(tmp);
         }
-- 
2.43.0


From 979956b4103cfa0a26f2fb23d19d7eb3c6c0a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 10/50] fix: hz_unary_write ends

---
 src/hzip_core/utils/utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 6906936..8902327 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -72,6 +72,7 @@ HZ_INLINE std::string hz_sha512(const std::string& str) {
 HZ_INLINE void hz_unary_write(uint64_t n, const std::function<void(uint64_t, uint8_t)>& writefunc) {
     while (n > 1) {
         writefunc(1, 1);
+        n--;
     }
 
     writefunc(0, 1);
-- 
2.43.0


From 8efe56041e92f2be4a19672e96e7cfb1ce56024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:50 +0000
Subject: [PATCH 11/50] fix: hz_u8_to_u32ptr keeps the bytes of an incomplete
 last word

---
 src/hzip_core/utils/utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hzip_core/utils/utils.h b/src/hzip_core/utils/utils.h
index 8902327..d45ef8c 100755
--- a/src/hzip_core/utils/utils.h
+++ b/src/hzip_core/utils/utils.h
@@ -137,6 +137,11 @@ HZ_INLINE rainman::ptr<uint32_t> hz_u8_to_u32ptr(const rainman::ptr<uint8_t> &ar
         }
     }
 
+    // The last word may be incomplete.
+    if (n & 0x3) {
+        arr32[j] = tmp << (0x8 * (4 - (n & 0x3)));
+    }
+
     return arr32;
 }
 
-- 
2.43.0


From f5eabeb82d48dbb42d3778d15beecf6ede5892ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 12/50] fix: cache slots after reconfiguration, and without any
 slot

---
 src/hzip_core/runtime/cache_provider.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hzip_core/runtime/cache_provider.cpp b/src/hzip_core/runtime/cache_provider.cpp
index 2e483b9..55bfd47 100644
--- a/src/hzip_core/runtime/cache_provider.cpp
+++ b/src/hzip_core/runtime/cache_provider.cpp
@@ -1,4 +1,5 @@
 #include "cache_provider.h"
+#include <hzip_core/errors/utils.h>
 
 using namespace hzruntime;
 
@@ -11,6 +12,8 @@ std::vector<std::mutex> CacheProvider::_rainman_cache_mutexes;
 std::mutex CacheProvider::_rainman_cache_mutex;
 
 void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint64_t page_size) {
+    std::scoped_lock<std::mutex> lock(_rainman_cache_mutex);
+
     _rainman_cache_mutexes = std::vector<std::mutex>(count);
     _rainman_caches.clear();
 
@@ -19,11 +22,16 @@ void CacheProvider::init_cache(const std::string &filename, uint64_t count, uint
     }
 
     _rainman_cache_count = count;
+    _rainman_cache_index = 0;
 }
 
 std::pair<rainman::cache&, std::mutex &> CacheProvider::get_cache() {
     std::scoped_lock<std::mutex> lock(_rainman_cache_mutex);
 
+    if (_rainman_cache_count == 0) {
+        throw UtilErrors::InternalError("No cache was configured");
+    }
+
     auto pair = std::pair<rainman::cache&, std::mutex &>(
             _rainman_caches[_rainman_cache_index],
             _rainman_cache_mutexes[_rainman_cache_index]
-- 
2.43.0


From d5bb933e1366c38307f393c8abae7c5628e86154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 13/50] fix: release the archive's lock when an operation is
 rejected

---
 src/hzip_storage/archive/archive.cpp | 88 +++++++---------------------
 1 file changed, 21 insertions(+), 67 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 9fe6f44..d1400f9 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -46,7 +46,7 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 }
 
 void HZ_Archive::hza_scan() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     auto readfn = [this](uint64_t n) {
         this->metadata.eof += n;
@@ -89,8 +89,6 @@ void HZ_Archive::hza_scan() {
                 break;
         }
     }
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -242,7 +240,7 @@ rainman::option<uint64_t> HZ_Archive::hza_alloc_fragment(uint64_t length) {
 }
 
 void HZ_Archive::hza_init() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     stream->seek_to(0);
 
@@ -258,15 +256,12 @@ void HZ_Archive::hza_init() {
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     // Evaluate length of entry to utilize fragmented-space.
 
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
@@ -319,12 +314,10 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
     for (int i = 0; i < file.blob_ids.size(); i++) {
         stream->write(file.blob_ids[i], 0x40);
     }
-
 }
 
 HZ_ArchiveFile HZ_Archive::hza_read_metadata_file_entry(const std::string &file_path) {
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -335,7 +328,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::hza_read_blob(uint64_t id) {
     auto blob = rainman::ptr<HZ_Blob>();
 
     if (!metadata.blob_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
 
@@ -377,7 +369,6 @@ uint64_t HZ_Archive::hza_write_blob(const HZ_Blob &blob) {
     // <mstate-id (64-bit)> <blob-data <size (64-bit)> <data (8-bit arr)>>
 
     if (!metadata.mstate_map.contains(blob.mstate_id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(blob.mstate_id);
     }
 
@@ -459,15 +450,12 @@ void HZ_Archive::hza_rm_blob(uint64_t id) {
         // erase entry from blob map
         metadata.blob_map.erase(id);
     } else {
-        mutex.unlock();
         throw ArchiveErrors::BlobNotFoundException(id);
     }
-
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::hza_read_mstate(uint64_t id) {
     if (!metadata.mstate_map.contains(id)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(id);
     }
 
@@ -538,9 +526,8 @@ uint64_t HZ_Archive::hza_write_mstate(const rainman::ptr<HZ_MState>& mstate) {
 void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_MState> &mstate) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
@@ -588,14 +575,11 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
 
     // Write mstate-id.
     stream->write(id, 0x40);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::hza_rm_mstate(uint64_t id) {
     if (metadata.mstate_map.contains(id)) {
         if (hza_check_mstate_deps(id)) {
-            mutex.unlock();
             throw ArchiveErrors::InvalidOperationException("mstate dependency detected");
         }
 
@@ -613,7 +597,6 @@ void HZ_Archive::hza_rm_mstate(uint64_t id) {
     } else {
         LOG_F(INFO, "hzip_core.archive: mstate(0x%lx) was not found, operation ignored", id);
     }
-
 }
 
 bool HZ_Archive::hza_check_mstate_deps(uint64_t id) const {
@@ -645,9 +628,8 @@ void HZ_Archive::hza_decrement_dep(uint64_t id) {
 void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ_Blob> &blobs, uint64_t blob_count) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
@@ -659,16 +641,13 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     }
 
     hza_create_metadata_file_entry(file_path, file);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -690,16 +669,13 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     }
 
     hza_metadata_erase_file(file_path);
-
-    mutex.unlock();
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.file_map.contains(file_path)) {
-        mutex.unlock();
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
 
@@ -712,7 +688,6 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
         blobs[i] = *blob;
     }
 
-    mutex.unlock();
 
     return blobs;
 }
@@ -720,9 +695,8 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
 void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
@@ -743,57 +717,47 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
     metadata.mstate_aux_map.erase(_path);
     metadata.mstate_inv_aux_map.erase(id);
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
-
-    mutex.unlock();
 }
 
 void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_Blob>& blob) {
     hz_validate_path(_path);
 
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::MstateNotFoundException(0);
     }
 
     blob->mstate_id = metadata.mstate_aux_map.get(_path).data;
 
     blob->mstate = hza_read_mstate(blob->mstate_id);
-
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     uint64_t id = hza_write_mstate(mstate);
-    mutex.unlock();
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     hza_rm_mstate(id);
-    mutex.unlock();
 }
 
 void HZ_Archive::close() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     stream->seek_to(metadata.eof);
     stream->write(HZ_ArchiveMarker::END, 0x8);
     stream->flush();
 
-    mutex.unlock();
     sem_post(archive_mutex.pointer());
 }
 
@@ -802,61 +766,53 @@ void HZ_Archive::load() {
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     hza_create_metadata_file_entry(file_path, file);
-    mutex.unlock();
 }
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     uint64_t id = hza_write_blob(*blob);
-    mutex.unlock();
 
     return id;
 }
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     bool v = metadata.file_map.contains(file_path);
-    mutex.unlock();
 
     return v;
 }
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
-    mutex.unlock();
 
     return file;
 }
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto blob = hza_read_blob(id);
-    mutex.unlock();
 
     return blob;
 }
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     if (!metadata.mstate_aux_map.contains(_path)) {
-        mutex.unlock();
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
 
     auto id = metadata.mstate_aux_map.get(_path).data;
     auto mstate = hza_read_mstate(id);
-    mutex.unlock();
 
     return mstate;
 }
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     bool exists = metadata.mstate_aux_map.contains(_path);
-    mutex.unlock();
 
     return exists;
 }
@@ -869,17 +825,15 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto list = metadata.file_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
     auto list = metadata.mstate_aux_map.children(prefix);
-    mutex.unlock();
 
     return list;
 }
-- 
2.43.0


From 0212fc5b5b8f85244fde6e436dcc02c298741c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 14/50] fix: the root of the path index is not an item

---
 src/hzip_storage/archive/archive_trie.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index 1b9e16e..b682e7e 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -75,6 +75,10 @@ public:
             throw ArchiveErrors::InvalidOperationException("The given path is a directory");
         }
 
+        if (!is_leaf_node(curr)) {
+            throw ArchiveErrors::TargetNotFoundException(path);
+        }
+
         return curr->value;
     }
 
@@ -102,7 +106,7 @@ public:
             curr = curr->children[token];
         }
 
-        if (is_dir_node(curr)) {
+        if (is_dir_node(curr) || curr == root) {
             throw ArchiveErrors::InvalidOperationException("A directory exists in the given path");
         }
 
@@ -149,6 +153,10 @@ public:
             }
         }
 
+        if (curr == root) {
+            throw ArchiveErrors::InvalidOperationException("The root cannot be erased");
+        }
+
         HZ_ArchiveTrieNode<Type> *descendant = curr;
         while (curr->children.size() < 2 && curr->parent != nullptr) {
             descendant = curr;
-- 
2.43.0


From 13c52fa3c798ab6b62afa5560a06a7278dbfa6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 15/50] fix: a rejected create or install stores nothing

---
 src/hzip_storage/archive/archive.cpp    | 26 +++++++++++++++++++++++++
 src/hzip_storage/archive/archive_trie.h | 22 +++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index d1400f9..675cbfc 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -265,6 +265,10 @@ void HZ_Archive::hza_create_metadata_file_entry(const std::string &file_path, co
         throw ArchiveErrors::InvalidOperationException("file entry cannot be overwritten");
     }
 
+    if (metadata.file_map.conflicts(file_path)) {
+        throw ArchiveErrors::InvalidOperationException("the path is in conflict with an existing file or directory");
+    }
+
     uint64_t length = 0;
 
     uint64_t path_length = file_path.length();
@@ -531,6 +535,10 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
 
+    if (metadata.mstate_aux_map.conflicts(_path)) {
+        throw ArchiveErrors::InvalidOperationException("the path is in conflict with an existing mstate or directory");
+    }
+
     uint64_t id = hza_write_mstate(mstate);
 
     // Create auxillary mstate-entry.
@@ -633,6 +641,17 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
 
+    // Nothing is stored unless everything can be stored.
+    if (metadata.file_map.conflicts(file_path)) {
+        throw ArchiveErrors::InvalidOperationException("the path is in conflict with an existing file or directory");
+    }
+
+    for (uint64_t i = 0; i < blob_count; i++) {
+        if (!metadata.mstate_map.contains(blobs[i].mstate_id)) {
+            throw ArchiveErrors::MstateNotFoundException(blobs[i].mstate_id);
+        }
+    }
+
     HZ_ArchiveFile file{};
     file.blob_ids = rainman::ptr<uint64_t>(blob_count);
 
@@ -767,6 +786,13 @@ void HZ_Archive::load() {
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     std::scoped_lock<std::mutex> lock(mutex);
+
+    for (uint64_t i = 0; i < file.blob_ids.size(); i++) {
+        if (!metadata.blob_map.contains(file.blob_ids[i])) {
+            throw ArchiveErrors::BlobNotFoundException(file.blob_ids[i]);
+        }
+    }
+
     hza_create_metadata_file_entry(file_path, file);
 }
 
diff --git a/src/hzip_storage/archive/archive_trie.h b/src/hzip_storage/archive/archive_trie.h
index b682e7e..44ffdae 100644
--- a/src/hzip_storage/archive/archive_trie.h
+++ b/src/hzip_storage/archive/archive_trie.h
@@ -114,6 +114,28 @@ public:
         curr->is_leaf = true;
     }
 
+    // True when set() would reject the path.
+    bool conflicts(const std::string &path) {
+        std::stringstream ss(path);
+
+        std::string token;
+
+        HZ_ArchiveTrieNode<Type> *curr = root;
+        while (std::getline(ss, token, '/')) {
+            if (token.empty()) {
+                continue;
+            }
+
+            if (!curr->children.contains(token)) {
+                return is_leaf_node(curr);
+            }
+
+            curr = curr->children[token];
+        }
+
+        return is_dir_node(curr) || curr == root;
+    }
+
     bool contains(const std::string &prefix) {
         std::stringstream ss(prefix);
 
-- 
2.43.0


From d6918f2d22d1b76bdeb82ba8a681e6e9962d9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:23 +0000
Subject: [PATCH 16/50] fix: model dependencies and installed models survive
 reopening

---
 src/hzip_storage/archive/archive.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 675cbfc..cb8d95a 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -146,7 +146,10 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
                 _path += (char) read(0x8);
             }
 
-            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(read(0x40), sof - 0x8));
+            uint64_t mstate_id = read(0x40);
+
+            metadata.mstate_aux_map.set(_path, HZ_ArchiveEntry(mstate_id, sof - 0x8));
+            metadata.mstate_inv_aux_map[mstate_id] = true;
             break;
         }
     }
@@ -161,8 +164,13 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
 
     uint64_t blob_id = read(0x40);
 
+    // The mstate-id follows the header and the original size.
+    uint64_t header_length = read(0x40) << 3;
+    seek(header_length + 0x40);
+    hza_increment_dep(read(0x40));
+
     // Skip the blob data
-    seek(size - 0x40);
+    seek(size - 0x100 - header_length);
 
     metadata.blob_map[blob_id] = sof;
 }
-- 
2.43.0


From c52a3c9e057073c04d058665b55d8289b4e74dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 17/50] fix: create and open an archive file under its lock,
 give the lock back when that fails

---
 src/hzip_storage/archive/archive.cpp | 42 +++++++++++++++++-----------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index cb8d95a..51f3f76 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -10,20 +10,6 @@
 HZ_Archive::HZ_Archive(const std::string &archive_path) {
     path = std::filesystem::absolute(archive_path);
 
-    bool init_flag = !fsutils::check_if_file_exists(path);
-
-    if (init_flag) {
-        fsutils::create_empty_file(path);
-    }
-
-    FILE *fp;
-    if ((fp = fopen(path.c_str(), "rb+")) == nullptr) {
-        throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
-                                                       std::strerror(errno));
-    }
-
-    stream = rainman::ptr<bitio::stream>(1, fp);
-
     auto sha512_path = "/" + hz_sha512(path);
 
     const char *sname = sha512_path.c_str();
@@ -40,8 +26,24 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 
     LOG_F(INFO, "hzip_core.archive: Access granted to archive [%s]", path.c_str());
 
-    if (init_flag) {
-        hza_init();
+    try {
+        // Whether the file exists is only known for sure while the archive is locked.
+        bool init_flag = !fsutils::check_if_file_exists(path);
+
+        FILE *fp;
+        if ((fp = fopen(path.c_str(), init_flag ? "wb+" : "rb+")) == nullptr) {
+            throw ArchiveErrors::InvalidOperationException(std::string("fopen() failed with error: ") +
+                                                           std::strerror(errno));
+        }
+
+        stream = rainman::ptr<bitio::stream>(1, fp);
+
+        if (init_flag) {
+            hza_init();
+        }
+    } catch (...) {
+        sem_post(archive_mutex.pointer());
+        throw;
     }
 }
 
@@ -789,7 +791,13 @@ void HZ_Archive::close() {
 }
 
 void HZ_Archive::load() {
-    hza_scan();
+    try {
+        hza_scan();
+    } catch (...) {
+        // The archive is not open then, do not keep it locked.
+        sem_post(archive_mutex.pointer());
+        throw;
+    }
 }
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
-- 
2.43.0


From c208b003c5fe30fcfba2d056d19f9f9c3c6bbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:17 +0000
Subject: [PATCH 18/50] fix: closing an archive that was not loaded keeps its
 contents

---
 src/hzip_storage/archive/archive.cpp | 11 ++++++++---
 src/hzip_storage/archive/archive.h   |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 51f3f76..b48c991 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -263,6 +263,8 @@ void HZ_Archive::hza_init() {
     stream->write(HZ_ArchiveMarker::END, 0x8);
     stream->flush();
 
+    metadata.eof = 0x68;
+
     stream->seek_to(0);
 
     LOG_F(INFO, "hzip_core.archive: Initialized archive [%s]", path.c_str());
@@ -783,9 +785,12 @@ void HZ_Archive::uninstall_mstate(uint64_t id) {
 void HZ_Archive::close() {
     std::scoped_lock<std::mutex> lock(mutex);
 
-    stream->seek_to(metadata.eof);
-    stream->write(HZ_ArchiveMarker::END, 0x8);
-    stream->flush();
+    // An archive that was not loaded has nothing to be written.
+    if (metadata.eof > 0) {
+        stream->seek_to(metadata.eof);
+        stream->write(HZ_ArchiveMarker::END, 0x8);
+        stream->flush();
+    }
 
     sem_post(archive_mutex.pointer());
 }
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index d31142a..bd35b09 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -63,7 +63,7 @@ struct HZ_ArchiveEntry {
 
 struct HZ_ArchiveMetadata {
     uint32_t version;
-    uint64_t eof;
+    uint64_t eof{};
     HZ_ArchiveTrie<HZ_ArchiveEntry<HZ_ArchiveFile>> file_map;
     HZ_ArchiveTrie<HZ_ArchiveEntry<uint64_t>> mstate_aux_map;
     std::unordered_map<uint64_t, bool> mstate_inv_aux_map;
-- 
2.43.0


From ec45f0a2f3e7e011faa795874e84fb257d641c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:12 +0000
Subject: [PATCH 19/50] fix: one archive instance per file, whatever the
 spelling of its path; failed opens do not block the provider

---
 .../api/providers/archive_provider.cpp        | 26 +++++++++----------
 src/hzip_storage/archive/archive.cpp          |  2 +-
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 1a21f51..14a0b27 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,28 +1,28 @@
 #include "archive_provider.h"
+#include <filesystem>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
-    mutex.lock();
-    rainman::ptr<HZ_Archive> archive;
-    if (arch_map.contains(path)) {
-        archive = arch_map[path];
-    } else {
-        archive = rainman::ptr<HZ_Archive>(1, path);
-        archive->load();
-
-        arch_map[path] = archive;
+    // A file has one key, however its path is spelled.
+    std::string key = std::filesystem::weakly_canonical(std::filesystem::absolute(path));
+
+    std::scoped_lock<std::mutex> lock(mutex);
+
+    if (arch_map.contains(key)) {
+        return arch_map[key];
     }
 
-    mutex.unlock();
+    auto archive = rainman::ptr<HZ_Archive>(1, key);
+    archive->load();
+
+    arch_map[key] = archive;
 
     return archive;
 }
 
 void hzapi::ArchiveProvider::close() {
-    mutex.lock();
+    std::scoped_lock<std::mutex> lock(mutex);
 
     for (auto &entry : arch_map) {
         entry.second->close();
     }
-
-    mutex.unlock();
 }
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index b48c991..1959988 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -8,7 +8,7 @@
 #include <hzip_storage/errors/archive.h>
 
 HZ_Archive::HZ_Archive(const std::string &archive_path) {
-    path = std::filesystem::absolute(archive_path);
+    path = std::filesystem::weakly_canonical(std::filesystem::absolute(archive_path));
 
     auto sha512_path = "/" + hz_sha512(path);
 
-- 
2.43.0


From a69ec83a581c1cae565fbcf4afa5145aed8bad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:30 +0000
Subject: [PATCH 20/50] fix: a job or callback that throws does not take the
 server down nor keep its slot

---
 src/hzip_codec/processor/processor.cpp | 27 +++++++++++++++++++++++---
 src/hzip_core/errors/utils.h           |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 0193b2d..d6dd29c 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -17,14 +17,35 @@ void HZ_Processor::run(const rainman::ptr<HZ_Job> &job) {
         std::thread([this](const rainman::ptr<HZ_Job> &job) {
             _semaphore.acquire();
 
+            // Nothing may escape from this thread: neither the job nor the callbacks.
+            bool succeeded = false;
+            std::string message;
+
             try {
                 hzp_run_codec_job(job->codec);
-                HZP_STUB_CALL(job->stub->on_success, "Operation completed successfully");
+                succeeded = true;
+                message = "Operation completed successfully";
             } catch (std::exception &e) {
-                HZP_STUB_CALL(job->stub->on_error, e.what());
+                message = e.what();
+            } catch (...) {
+                message = "Unknown error";
+            }
+
+            try {
+                if (succeeded) {
+                    HZP_STUB_CALL(job->stub->on_success, message);
+                } else {
+                    HZP_STUB_CALL(job->stub->on_error, message);
+                }
+            } catch (...) {
+                LOG_F(ERROR, "hzip_core.processor: failed to report the outcome of a job");
             }
 
-            HZP_STUB_CALL(job->stub->on_completed);
+            try {
+                HZP_STUB_CALL(job->stub->on_completed);
+            } catch (...) {
+                LOG_F(ERROR, "hzip_core.processor: failed to report the completion of a job");
+            }
 
             _semaphore.release();
 
diff --git a/src/hzip_core/errors/utils.h b/src/hzip_core/errors/utils.h
index e46c2dc..8a76794 100644
--- a/src/hzip_core/errors/utils.h
+++ b/src/hzip_core/errors/utils.h
@@ -18,7 +18,7 @@ namespace UtilErrors {
         }
     };
 
-    class InternalError : std::exception {
+    class InternalError : public std::exception {
     public:
 
         InternalError(const std::string &msg) {
-- 
2.43.0


From 8bbb8205834c8341580c8fa5ecb036cd1c2a21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 21/50] fix: data stored raw is not attributed to the shared
 mstate that failed to compress it

---
 src/hzip_codec/processor/processor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index d6dd29c..3c90ba9 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -88,7 +88,8 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
 
         blob->mstate_id = job->blob->mstate_id;
 
-        if (job->mstate_addr.is_none()) {
+        // Raw data does not belong to the mstate that failed to compress it.
+        if (job->mstate_addr.is_none() || !blob->status) {
             if (job->archive.is_some()) {
                 job->archive.inner()->inject_mstate(blob->mstate, blob);
             } else if (job->blob_callback == nullptr) {
-- 
2.43.0


From 8a6a15d5908f2f9e615d4c47150d851feaadbaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:30 +0000
Subject: [PATCH 22/50] fix: a training that fails leaves the previous mstate
 installed

---
 src/hzip_codec/processor/processor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 3c90ba9..050cdd6 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -141,9 +141,10 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
         throw ProcessorErrors::InvalidOperationError("Archive not found");
     }
 
-    if (job->archive.inner()->check_mstate_exists(job->mstate_addr.inner())) {
+    bool exists = job->archive.inner()->check_mstate_exists(job->mstate_addr.inner());
+
+    if (exists) {
         job->archive.inner()->inject_mstate(job->mstate_addr.inner(), job->blob);
-        job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
     }
 
     auto codec = hzp_get_codec(job->algorithm);
@@ -153,6 +154,11 @@ void HZ_Processor::hzp_train(const rainman::ptr<HZ_CodecJob> &job) {
     try {
         mstate = codec->train(job->blob);
 
+        // Keep the previous mstate until training has succeeded.
+        if (exists) {
+            job->archive.inner()->uninstall_mstate(job->mstate_addr.inner());
+        }
+
         job->archive.inner()->install_mstate(job->mstate_addr.inner(), mstate);
     } catch (std::exception &e) {
         throw ProcessorErrors::GenericError(e.what());
-- 
2.43.0


From dfad1c1a64ede11213f5d8ca47242dfc9cfa0bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 23/50] fix: data is not compressed with an mstate of another
 codec

---
 src/hzip_codec/processor/processor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hzip_codec/processor/processor.cpp b/src/hzip_codec/processor/processor.cpp
index 050cdd6..5d8d76e 100644
--- a/src/hzip_codec/processor/processor.cpp
+++ b/src/hzip_codec/processor/processor.cpp
@@ -80,12 +80,18 @@ void HZ_Processor::hzp_encode(const rainman::ptr<HZ_CodecJob> &job) {
     }
 
     auto codec = hzp_get_codec(job->algorithm);
+    auto mstate_alg = job->blob->mstate->alg;
 
     rainman::ptr<HZ_Blob> blob;
     try {
         blob = codec->compress(job->blob);
         blob->evaluate(job->blob->data);
 
+        // The decoder is chosen by the mstate.
+        if (job->mstate_addr.is_some() && blob->status && mstate_alg != job->algorithm) {
+            throw ProcessorErrors::InvalidOperationError("Mstate does not belong to the requested algorithm");
+        }
+
         blob->mstate_id = job->blob->mstate_id;
 
         // Raw data does not belong to the mstate that failed to compress it.
-- 
2.43.0


From c01b8e4d2347477bdc9db6a1b500ac50cbb5cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 24/50] fix: malformed parts and models are refused

---
 src/hzip_codec/uncompressed/uncompressed.cpp |  4 ++
 src/hzip_codec/victini/victini.cpp           | 45 ++++++++++++++------
 src/hzip_core/kernel/hzrans/hzrans64.cpp     |  9 ++++
 src/hzip_core/preprocessor/burrows_wheeler.h |  2 +-
 4 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/hzip_codec/uncompressed/uncompressed.cpp b/src/hzip_codec/uncompressed/uncompressed.cpp
index 08703b0..74b1d60 100644
--- a/src/hzip_codec/uncompressed/uncompressed.cpp
+++ b/src/hzip_codec/uncompressed/uncompressed.cpp
@@ -18,6 +18,10 @@ rainman::ptr<HZ_Blob> hzcodec::Uncompressed::compress(const rainman::ptr<HZ_Blob
 }
 
 rainman::ptr<HZ_Blob> hzcodec::Uncompressed::decompress(const rainman::ptr<HZ_Blob> &blob) {
+    if (blob->o_size != blob->size) {
+        throw CodecErrors::InvalidOperationException("Malformed blob");
+    }
+
     auto dblob = rainman::ptr<HZ_Blob>();
     auto mstate = blob->mstate;
 
diff --git a/src/hzip_codec/victini/victini.cpp b/src/hzip_codec/victini/victini.cpp
index 5886826..c161d17 100755
--- a/src/hzip_codec/victini/victini.cpp
+++ b/src/hzip_codec/victini/victini.cpp
@@ -3,6 +3,27 @@
 #include <hzip_core/utils/stack.h>
 #include <hzip_codec/errors/codec.h>
 
+// The mstate may come from anywhere.
+static void read_model(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr2d<uint64_t> &dict) {
+    if (mstate->size() < (0x10000 << 3)) {
+        throw CodecErrors::InvalidOperationException("Malformed mstate");
+    }
+
+    auto m_stream = bitio::stream(mstate->data.pointer(), mstate->size());
+
+    for (int i = 0; i < 0x100; i++) {
+        auto row = dict[i];
+        for (int j = 0; j < 0x100; j++) {
+            row[j] = m_stream.read(0x40);
+
+            // The normalization must not overflow.
+            if (row[j] > (1ull << 39)) {
+                throw CodecErrors::InvalidOperationException("Malformed mstate");
+            }
+        }
+    }
+}
+
 rainman::ptr<HZ_Blob> hzcodec::Victini::compress(const rainman::ptr<HZ_Blob> &blob) {
     auto mstate = blob->mstate;
     auto header = blob->header;
@@ -74,20 +95,23 @@ rainman::ptr<HZ_Blob> hzcodec::Victini::decompress(const rainman::ptr<HZ_Blob> &
     auto mstate = blob->mstate;
     uint64_t length = blob->o_size;
 
+    // The blob may come from anywhere.
+    if (blob->header.size() < 8 || length > 0x7fffffff) {
+        throw CodecErrors::InvalidOperationException("Malformed blob");
+    }
+
     // Parse blob_header
     uint64_t bwt_index = hz_u8buf_to_u64(blob->header.raw);
 
-    auto m_stream = bitio::stream(mstate->data.pointer(), mstate->size());
+    if (bwt_index > length) {
+        throw CodecErrors::InvalidOperationException("Malformed blob");
+    }
 
     auto dict = rainman::make_ptr2d<uint64_t>(0x100, 0x100);
     auto cdict = rainman::make_ptr2d<uint64_t>(0x100, 0x100);
 
     // populate the dictionary.
-    for (int i = 0; i < 0x100; i++) {
-        for (int j = 0; j < 0x100; j++) {
-            dict[i][j] = m_stream.read(0x40);
-        }
-    }
+    read_model(mstate, dict);
 
     // Normalize dictionary.
     _normalize(dict, cdict);
@@ -203,14 +227,7 @@ void hzcodec::Victini::_model_transform(
 
         _normalize(dict, cdict);
     } else {
-        auto m_stream = bitio::stream(mstate->data.pointer(), mstate->data.size());
-
-        for (int i = 0; i < 0x100; i++) {
-            auto row = dict[i];
-            for (int j = 0; j < 0x100; j++) {
-                row[j] = m_stream.read(0x40);
-            }
-        }
+        read_model(mstate, dict);
 
         if (training_mode) {
             // Dispose mstate after it is interpreted.
diff --git a/src/hzip_core/kernel/hzrans/hzrans64.cpp b/src/hzip_core/kernel/hzrans/hzrans64.cpp
index 7075cb0..fa8b073 100755
--- a/src/hzip_core/kernel/hzrans/hzrans64.cpp
+++ b/src/hzip_core/kernel/hzrans/hzrans64.cpp
@@ -1,3 +1,4 @@
+#include <stdexcept>
 #include "hzrans64.h"
 #include <hzip_core/utils/stack.h>
 
@@ -79,6 +80,10 @@ void hzrans64_enc_flush(hzrans64_t *state, HZ_Stack<uint32_t> *data) {
 }
 
 void hzrans64_dec_load_state(hzrans64_t *state, rainman::ptr<uint32_t> &data) {
+    if (data.size() < 2) {
+        throw std::out_of_range("hzrans64: encoded data is incomplete");
+    }
+
     uint64_t x;
     x = (uint64_t) (data[0]) << 0;
     x |= (uint64_t) (data[1]) << 32;
@@ -93,6 +98,10 @@ void hzrans64_decode_s(hzrans64_t *state, rainman::ptr<uint32_t> &data) {
 
     x = (ls * (x >> state->scale)) + (x & state->mask) - bs;
     if (x < state->lower_bound) {
+        if (state->count >= data.size()) {
+            throw std::out_of_range("hzrans64: encoded data is incomplete");
+        }
+
         x = (x << 32) | data[state->count++];
     }
 
diff --git a/src/hzip_core/preprocessor/burrows_wheeler.h b/src/hzip_core/preprocessor/burrows_wheeler.h
index 2eb8323..1035865 100755
--- a/src/hzip_core/preprocessor/burrows_wheeler.h
+++ b/src/hzip_core/preprocessor/burrows_wheeler.h
@@ -193,7 +193,7 @@ namespace hztrans {
             uint64_t index = bw_index;
             for (uint64_t count = 0, j = 0; count <= data_len; count++) {
                 index = jumpers[index];
-                if (zdata[index] != 0) {
+                if (zdata[index] != 0 && j < data_len) {
                     data[j++] = zdata[index] - 1;
                 }
             }
-- 
2.43.0


From 5e99a63642eeab14a422da468e7f9f3b67cf7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 25/50] fix: a request whose job fails gets one error reply and
 leaves no file; parts sent back can be decoded

---
 src/hzip_network/api/handlers/streamer.cpp | 162 ++++++++++-----------
 src/hzip_network/api/handlers/streamer.h   |   7 +-
 2 files changed, 79 insertions(+), 90 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index 718ad51..ffac451 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -25,6 +25,33 @@ Streamer::Streamer(
     _archive_provider = archive_provider;
 }
 
+std::optional<std::string> Streamer::run_job(const rainman::ptr<HZ_CodecJob> &codec) {
+    auto job = rainman::ptr<HZ_Job>();
+    auto stub = rainman::ptr<HZ_JobStub>();
+    auto completed = rainman::ptr<Semaphore>(1, 0);
+
+    std::optional<std::string> failure;
+
+    stub->on_completed = [completed]() {
+        completed->release();
+    };
+
+    stub->on_error = [&failure](const std::string &msg) {
+        failure = msg;
+    };
+
+    job->codec = codec;
+    job->stub = stub;
+    job->type = HZ_Job::CODEC;
+
+    // Dispatch hz_job to hz_processor.
+    _processor->run(job);
+
+    completed->acquire();
+
+    return failure;
+}
+
 void Streamer::encode() {
     uint16_t archive_path_len{};
     uint16_t mstate_addr_len{};
@@ -56,22 +83,24 @@ void Streamer::encode() {
                     }
                 }
 
-                if (!piggy_back && dest.is_none()) {
+                if (!piggy_back && (archive.is_none() || dest.is_none())) {
                     throw ApiErrors::InvalidOperationError("Null operations are not allowed");
                 }
 
+                // Refuse unknown algorithms before any data is sent.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 uint64_t max_blob_size = hzes_b_size((hzcodec::algorithms::ALGORITHM) algorithm);
 
                 HZ_RECV(&data_len, sizeof(data_len));
 
                 std::vector<uint64_t> blob_ids;
+                std::optional<std::string> failure;
 
                 // Start raw-streaming using manual sync.
                 HZ_RECV_SYNC;
 
                 while (data_len > 0) {
-                    _mutex->lock();
-
                     // Avoid processor overload.
                     _processor->cycle();
 
@@ -87,9 +116,14 @@ void Streamer::encode() {
 
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
+                    data_len -= max_blob_size;
+
+                    // The client does not listen before everything was sent.
+                    if (failure.has_value()) {
+                        continue;
+                    }
 
                     // Construct hz_job struct for processing.
-                    auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
                     codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
                     codec->archive = archive;
@@ -106,8 +140,6 @@ void Streamer::encode() {
 
                     codec->job_type = HZ_CodecJob::CodecJobType::ENCODE;
 
-                    job->codec = codec;
-
                     if (piggy_back) {
                         codec->blob_callback = [this](const rainman::ptr<HZ_Blob> &cblob) {
                             uint64_t alg = cblob->mstate->alg;
@@ -125,29 +157,12 @@ void Streamer::encode() {
                         };
                     }
 
-
-                    auto stub = rainman::ptr<HZ_JobStub>();
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
-                    job->stub = stub;
-                    job->type = HZ_Job::CODEC;
-
-                    // Dispatch hz_job to hz_processor.
-                    _processor->run(job);
-                    data_len -= max_blob_size;
-
-                    _mutex->lock();
-                    _mutex->unlock();
+                    failure = run_job(codec);
                 }
 
-
-                _mutex->lock();
+                if (failure.has_value()) {
+                    throw ApiErrors::InvalidOperationError(failure.value());
+                }
 
                 if (archive.is_some() && dest.is_some()) {
                     auto blob_id_arr = rainman::ptr<uint64_t>(blob_ids.size());
@@ -161,8 +176,6 @@ void Streamer::encode() {
                     archive.inner()->create_file_entry(dest.inner().pointer(), file);
                 }
 
-                _mutex->unlock();
-
                 success("Operation completed successfully");
 
                 return;
@@ -218,6 +231,9 @@ void Streamer::encode() {
                     throw ApiErrors::InvalidOperationError("Archive not found");
                 }
 
+                // Refuse unknown algorithms before any data is sent.
+                hzcodec::CodecProvider::algorithm_to_codec((hzcodec::algorithms::ALGORITHM) algorithm);
+
                 HZ_RECV(&data_len, sizeof(data_len));
 
                 uint64_t max_blob_size = hzes_b_size((hzcodec::algorithms::ALGORITHM) algorithm);
@@ -226,9 +242,9 @@ void Streamer::encode() {
                 HZ_RECV_SYNC;
 
                 uint64_t batch_count = 0;
+                std::optional<std::string> failure;
 
                 while (data_len > 0) {
-                    _mutex->lock();
                     HZAPI_LOGF(INFO, "[%s] Training [%s] batch: %lu", hzcodec::CodecProvider::algorithm_to_str(
                             static_cast<hzcodec::algorithms::ALGORITHM>(algorithm)), mstate_addr.inner().pointer(),
                                ++batch_count);
@@ -245,11 +261,15 @@ void Streamer::encode() {
 
                     // Enable raw streaming in hzip_core-protocol
                     t_recv(blob->data.pointer(), max_blob_size, false);
+                    data_len -= max_blob_size;
+
+                    // The client does not listen before everything was sent.
+                    if (failure.has_value()) {
+                        continue;
+                    }
 
                     // Construct hz_job struct for processing.
-                    auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
-                    auto stub = rainman::ptr<HZ_JobStub>();
 
                     codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
                     codec->archive = archive;
@@ -259,25 +279,11 @@ void Streamer::encode() {
                     codec->blob = blob;
                     codec->job_type = HZ_CodecJob::TRAIN;
 
+                    failure = run_job(codec);
+                }
 
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
-                    job->codec = codec;
-                    job->stub = stub;
-
-                    // Dispatch hz_job to hz_processor.
-                    _processor->run(job);
-
-                    data_len -= max_blob_size;
-
-                    _mutex->lock();
-                    _mutex->unlock();
+                if (failure.has_value()) {
+                    throw ApiErrors::InvalidOperationError(failure.value());
                 }
 
                 success("Operation completed successfully");
@@ -331,14 +337,11 @@ void Streamer::decode() {
                 HZ_SEND(&blob_count, sizeof(blob_count));
 
                 for (uint64_t i = 0; i < blob_count; i++) {
-                    _mutex->lock();
                     auto src_blob = archive.inner()->read_blob(file_entry.blob_ids[i]);
 
                     // Construct hz_job
 
-                    auto job = rainman::ptr<HZ_Job>();
                     auto codec = rainman::ptr<HZ_CodecJob>();
-                    auto stub = rainman::ptr<HZ_JobStub>();
 
                     codec->archive = archive;
                     codec->job_type = HZ_CodecJob::DECODE;
@@ -350,28 +353,17 @@ void Streamer::decode() {
                         HZ_SEND(dblob->data.pointer(), dblob->o_size);
                     };
 
-                    stub->on_completed = [this]() {
-                        _mutex->unlock();
-                    };
-
-                    stub->on_error = [this](const std::string &msg) {
-                        error(msg);
-                    };
-
                     HZAPI_LOGF(INFO, "[%s] Decompressing blob of size: %lu bytes",
                                hzcodec::CodecProvider::algorithm_to_str(
                                        static_cast<hzcodec::algorithms::ALGORITHM>(codec->algorithm)),
                                src_blob->size);
 
-                    job->codec = codec;
-                    job->stub = stub;
-
                     _processor->cycle();
-                    _processor->run(job);
 
-                    // Cycle the mutex
-                    _mutex->lock();
-                    _mutex->unlock();
+                    auto failure = run_job(codec);
+                    if (failure.has_value()) {
+                        throw ApiErrors::InvalidOperationError(failure.value());
+                    }
                 }
 
                 success("Operation completed successfully");
@@ -430,9 +422,6 @@ void Streamer::decode() {
                 break;
             }
             case DECODE_CTL_BLOB_STREAM: {
-                _mutex->lock();
-                _processor->cycle();
-
                 if (!piggy_back) {
                     throw ApiErrors::InvalidOperationError("Piggy-back was disabled");
                 }
@@ -454,16 +443,17 @@ void Streamer::decode() {
 
                 HZ_RECV(&blob->o_size, sizeof(blob->o_size));
 
-                if (mstate.is_some()) {
-                    blob->mstate = mstate.inner();
-                }
-
-                auto job = rainman::ptr<HZ_Job>();
                 auto codec = rainman::ptr<HZ_CodecJob>();
-                auto stub = rainman::ptr<HZ_JobStub>();
 
-                if (mstate_addr.is_some()) {
+                codec->algorithm = (hzcodec::algorithms::ALGORITHM) algorithm;
+
+                if (mstate.is_some()) {
+                    blob->mstate = mstate.inner();
+                    blob->mstate->alg = codec->algorithm;
+                } else {
+                    // The processor injects the mstate.
                     codec->mstate_addr = std::string(mstate_addr.inner().pointer());
+                    blob->status = true;
                 }
                 codec->archive = archive;
 
@@ -477,18 +467,12 @@ void Streamer::decode() {
                 codec->blob = blob;
                 codec->job_type = HZ_CodecJob::DECODE;
 
-                job->stub->on_completed = [this]() {
-                    _mutex->unlock();
-                };
-
-                job->stub->on_error = [this](const std::string &msg) {
-                    error(msg);
-                };
-
-                _processor->run(job);
+                _processor->cycle();
 
-                _mutex->lock();
-                _mutex->unlock();
+                auto failure = run_job(codec);
+                if (failure.has_value()) {
+                    throw ApiErrors::InvalidOperationError(failure.value());
+                }
 
                 success("Operation completed successfully");
                 return;
diff --git a/src/hzip_network/api/handlers/streamer.h b/src/hzip_network/api/handlers/streamer.h
index 3190376..21ad17c 100644
--- a/src/hzip_network/api/handlers/streamer.h
+++ b/src/hzip_network/api/handlers/streamer.h
@@ -1,10 +1,13 @@
 #ifndef HYBRIDZIP_STREAMER_H
 #define HYBRIDZIP_STREAMER_H
 
+#include <optional>
+#include <string>
 #include <rainman/rainman.h>
 #include <hzip_codec/compressor_enums.h>
 #include <hzip_codec/compressors.h>
 #include <hzip_codec/processor/processor.h>
+#include <hzip_core/utils/semaphore.h>
 #include <hzip_network/api/providers/archive_provider.h>
 #include "socket_class.h"
 
@@ -13,10 +16,12 @@ namespace hzapi {
     class Streamer : public SocketInterface {
     private:
         rainman::ptr<HZ_Processor> _processor;
-        rainman::ptr<std::mutex> _mutex;
         rainman::ptr<hzapi::ArchiveProvider> _archive_provider;
 
         static uint64_t hzes_b_size(hzcodec::algorithms::ALGORITHM alg);
+
+        // Runs a job and waits for it. Returns the message of the failure if it failed.
+        std::optional<std::string> run_job(const rainman::ptr<HZ_CodecJob> &codec);
     public:
 
         Streamer(int sock, const std::string &ip_addr, uint16_t port, const rainman::ptr<HZ_Processor>& processor,
-- 
2.43.0


From 5f4667046a75a1177439187e2244619b1a55fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 26/50] fix: an invalid command ends an encode or decode
 request like any other

---
 src/hzip_network/api/handlers/streamer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_network/api/handlers/streamer.cpp b/src/hzip_network/api/handlers/streamer.cpp
index ffac451..7365c03 100644
--- a/src/hzip_network/api/handlers/streamer.cpp
+++ b/src/hzip_network/api/handlers/streamer.cpp
@@ -290,7 +290,7 @@ void Streamer::encode() {
                 return;
             }
             default: {
-                error("Invalid command");
+                throw ApiErrors::InvalidOperationError("Invalid command");
             }
         }
     }
@@ -478,7 +478,7 @@ void Streamer::decode() {
                 return;
             }
             default: {
-                error("Invalid command");
+                throw ApiErrors::InvalidOperationError("Invalid command");
             }
         }
     }
-- 
2.43.0


From e5fdff3b73f56730d14ff4d3d484097fa9051ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 27/50] fix: a connection that cannot be accepted or served
 gives back its socket and slot, and does not stop the service

---
 src/hzip_network/api/api.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/hzip_network/api/api.cpp b/src/hzip_network/api/api.cpp
index f843087..a0862b3 100644
--- a/src/hzip_network/api/api.cpp
+++ b/src/hzip_network/api/api.cpp
@@ -3,6 +3,10 @@
 #include <netinet/in.h>
 #include <arpa/inet.h>
 #include <unistd.h>
+#include <cerrno>
+#include <chrono>
+#include <cstring>
+#include <system_error>
 #include <hzip_core/utils/utils.h>
 #include <hzip_network/errors/api.h>
 #include "handlers/streamer.h"
@@ -133,14 +137,22 @@ Api *Api::process(uint64_t _n_threads) {
         sock_addr_size = sizeof(client_addr);
         int client_sock = accept(server_sock, (sockaddr *) &client_addr, &sock_addr_size);
 
+        if (client_sock < 0) {
+            LOG_F(ERROR, "hzip_network.api: accept() failed with error: %s", strerror(errno));
+            std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            continue;
+        }
+
         if (time_out.tv_sec > 0) {
             if (setsockopt(client_sock, SOL_SOCKET, SO_RCVTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
 
             if (setsockopt(client_sock, SOL_SOCKET, SO_SNDTIMEO, (uint8_t *) &time_out, sizeof(time_out)) < 0) {
                 LOG_F(ERROR, "hzip_network.api: setsockopt() failed");
+                close(client_sock);
                 continue;
             }
         }
@@ -158,12 +170,18 @@ Api *Api::process(uint64_t _n_threads) {
 
         std::string ip = std::string(ip_addr, INET_ADDRSTRLEN + 1);
 
-        std::thread([this, client_sock, ip, client_addr]() {
-            ApiInstance instance(client_sock, processor, passwd, _semaphore, ip, (int) ntohs(client_addr.sin_port),
-                                 archive_provider);
-
-            instance.start();
-        }).detach();
+        try {
+            std::thread([this, client_sock, ip, client_addr]() {
+                ApiInstance instance(client_sock, processor, passwd, _semaphore, ip, (int) ntohs(client_addr.sin_port),
+                                     archive_provider);
+
+                instance.start();
+            }).detach();
+        } catch (std::system_error &e) {
+            LOG_F(ERROR, "hzip_network.api: Failed to create a session: %s", e.what());
+            close(client_sock);
+            _semaphore->release();
+        }
 
 
         _semaphore->acquire();
-- 
2.43.0


From 3f37b297170bc61c1cf643de42cd9fbde6c92da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:01 +0000
Subject: [PATCH 28/50] fix: a closed archive is left alone, so that nothing is
 lost or damaged after a shutdown

---
 .../api/providers/archive_provider.cpp        |  7 ++++
 .../api/providers/archive_provider.h          |  1 +
 src/hzip_storage/archive/archive.cpp          | 32 +++++++++++++++++++
 src/hzip_storage/archive/archive.h            |  3 ++
 4 files changed, 43 insertions(+)

diff --git a/src/hzip_network/api/providers/archive_provider.cpp b/src/hzip_network/api/providers/archive_provider.cpp
index 14a0b27..4880c9b 100644
--- a/src/hzip_network/api/providers/archive_provider.cpp
+++ b/src/hzip_network/api/providers/archive_provider.cpp
@@ -1,5 +1,6 @@
 #include "archive_provider.h"
 #include <filesystem>
+#include <hzip_storage/errors/archive.h>
 
 rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path) {
     // A file has one key, however its path is spelled.
@@ -7,6 +8,10 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
 
     std::scoped_lock<std::mutex> lock(mutex);
 
+    if (closed) {
+        throw ArchiveErrors::InvalidOperationException("archives are no longer provided");
+    }
+
     if (arch_map.contains(key)) {
         return arch_map[key];
     }
@@ -22,6 +27,8 @@ rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &path
 void hzapi::ArchiveProvider::close() {
     std::scoped_lock<std::mutex> lock(mutex);
 
+    closed = true;
+
     for (auto &entry : arch_map) {
         entry.second->close();
     }
diff --git a/src/hzip_network/api/providers/archive_provider.h b/src/hzip_network/api/providers/archive_provider.h
index c625797..470ce43 100644
--- a/src/hzip_network/api/providers/archive_provider.h
+++ b/src/hzip_network/api/providers/archive_provider.h
@@ -10,6 +10,7 @@ namespace hzapi {
     private:
         std::unordered_map<std::string, rainman::ptr<HZ_Archive>> arch_map;
         std::mutex mutex;
+        bool closed = false;
     public:
         rainman::ptr<HZ_Archive> provide(const std::string &path);
 
diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 1959988..3d84471 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -543,6 +543,7 @@ void HZ_Archive::install_mstate(const std::string &_path, const rainman::ptr<HZ_
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate already exists");
     }
@@ -619,6 +620,13 @@ void HZ_Archive::hza_rm_mstate(uint64_t id) {
     }
 }
 
+void HZ_Archive::hza_check_open() const {
+    // The file may belong to someone else once the archive was closed.
+    if (closed) {
+        throw ArchiveErrors::InvalidOperationException("archive is closed");
+    }
+}
+
 bool HZ_Archive::hza_check_mstate_deps(uint64_t id) const {
     return metadata.dep_counter.contains(id);
 }
@@ -649,6 +657,7 @@ void HZ_Archive::create_file(const std::string &file_path, const rainman::ptr<HZ
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::InvalidOperationException("file already exists");
     }
@@ -678,6 +687,7 @@ void HZ_Archive::remove_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -706,6 +716,7 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_file(const std::string &file_path) {
     hz_validate_path(file_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.file_map.contains(file_path)) {
         throw ArchiveErrors::FileNotFoundException(file_path);
     }
@@ -727,6 +738,7 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
     }
@@ -752,6 +764,7 @@ void HZ_Archive::uninstall_mstate(const std::string &_path) {
 
 void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &mstate, const rainman::ptr<HZ_Blob> &blob) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     blob->mstate_id = hza_write_mstate(mstate);
     blob->mstate = mstate;
@@ -761,6 +774,7 @@ void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_B
     hz_validate_path(_path);
 
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::MstateNotFoundException(0);
@@ -773,18 +787,26 @@ void HZ_Archive::inject_mstate(const std::string &_path, const rainman::ptr<HZ_B
 
 uint64_t HZ_Archive::install_mstate(const rainman::ptr<HZ_MState> &mstate) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     uint64_t id = hza_write_mstate(mstate);
     return id;
 }
 
 void HZ_Archive::uninstall_mstate(uint64_t id) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     hza_rm_mstate(id);
 }
 
 void HZ_Archive::close() {
     std::scoped_lock<std::mutex> lock(mutex);
 
+    if (closed) {
+        return;
+    }
+
+    closed = true;
+
     // An archive that was not loaded has nothing to be written.
     if (metadata.eof > 0) {
         stream->seek_to(metadata.eof);
@@ -800,6 +822,7 @@ void HZ_Archive::load() {
         hza_scan();
     } catch (...) {
         // The archive is not open then, do not keep it locked.
+        closed = true;
         sem_post(archive_mutex.pointer());
         throw;
     }
@@ -807,6 +830,7 @@ void HZ_Archive::load() {
 
 void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_ArchiveFile& file) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
 
     for (uint64_t i = 0; i < file.blob_ids.size(); i++) {
         if (!metadata.blob_map.contains(file.blob_ids[i])) {
@@ -819,6 +843,7 @@ void HZ_Archive::create_file_entry(const std::string &file_path, const HZ_Archiv
 
 uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     uint64_t id = hza_write_blob(*blob);
 
     return id;
@@ -826,6 +851,7 @@ uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &blob) {
 
 bool HZ_Archive::check_file_exists(const std::string &file_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     bool v = metadata.file_map.contains(file_path);
 
     return v;
@@ -833,6 +859,7 @@ bool HZ_Archive::check_file_exists(const std::string &file_path) {
 
 HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     HZ_ArchiveFile file = hza_read_metadata_file_entry(file_path);
 
     return file;
@@ -840,6 +867,7 @@ HZ_ArchiveFile HZ_Archive::read_file_entry(const std::string &file_path) {
 
 rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto blob = hza_read_blob(id);
 
     return blob;
@@ -847,6 +875,7 @@ rainman::ptr<HZ_Blob> HZ_Archive::read_blob(uint64_t id) {
 
 rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     if (!metadata.mstate_aux_map.contains(_path)) {
         throw ArchiveErrors::InvalidOperationException("Mstate not found");
     }
@@ -859,6 +888,7 @@ rainman::ptr<HZ_MState> HZ_Archive::read_mstate(const std::string& _path) {
 
 bool HZ_Archive::check_mstate_exists(const std::string &_path) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     bool exists = metadata.mstate_aux_map.contains(_path);
 
     return exists;
@@ -873,6 +903,7 @@ void HZ_Archive::hza_metadata_erase_file(const std::string &_file_path) {
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &prefix) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto list = metadata.file_map.children(prefix);
 
     return list;
@@ -880,6 +911,7 @@ std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::s
 
 std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &prefix) {
     std::scoped_lock<std::mutex> lock(mutex);
+    hza_check_open();
     auto list = metadata.mstate_aux_map.children(prefix);
 
     return list;
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index bd35b09..e11e82c 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -80,6 +80,9 @@ private:
     rainman::ptr<bitio::stream> stream;
     rainman::ptr<sem_t> archive_mutex{};
     std::mutex mutex{};
+    bool closed = false;
+
+    void hza_check_open() const;
 
     void hza_scan();
 
-- 
2.43.0


From af47014083fe1f34f540c2bb6f80c2fbf2ab253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:03 +0000
Subject: [PATCH 29/50] fix: a host without OpenCL platforms or devices has no
 accelerator; a failed discovery changes nothing

---
 src/hzip_core/opencl/cl_helper.cpp | 48 +++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index f631bd6..e285bd8 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -18,15 +18,43 @@ std::vector<cl::Device> DeviceProvider::_devices;
 std::vector<std::mutex> DeviceProvider::_mutexes;
 std::mutex DeviceProvider::_mutex;
 
-void DeviceProvider::list_available_devices() {
+// A host without any platform has no devices: the loader reports this as an error.
+static std::vector<cl::Platform> get_platforms() {
     std::vector<cl::Platform> platforms;
-    cl::Platform::get(&platforms);
+
+    try {
+        cl::Platform::get(&platforms);
+    } catch (cl::Error &e) {
+        if (e.err() != CL_PLATFORM_NOT_FOUND_KHR) {
+            throw;
+        }
+    }
+
+    return platforms;
+}
+
+// A platform may have no devices of a type.
+static std::vector<cl::Device> get_platform_devices(const cl::Platform &platform, uint32_t device_type) {
+    std::vector<cl::Device> devices;
+
+    try {
+        platform.getDevices(device_type, &devices);
+    } catch (cl::Error &e) {
+        if (e.err() != CL_DEVICE_NOT_FOUND) {
+            throw;
+        }
+    }
+
+    return devices;
+}
+
+void DeviceProvider::list_available_devices() {
+    std::vector<cl::Platform> platforms = get_platforms();
 
     std::cout << "List of all available OpenCL devices:" << std::endl << std::endl;
 
     for (const auto &platform: platforms) {
-        std::vector<cl::Device> platform_devices;
-        platform.getDevices(CL_DEVICE_TYPE_ALL, &platform_devices);
+        std::vector<cl::Device> platform_devices = get_platform_devices(platform, CL_DEVICE_TYPE_ALL);
 
         std::cout << "Platform: " << platform.getInfo<CL_PLATFORM_NAME>() << std::endl;
 
@@ -82,16 +110,14 @@ void DeviceProvider::filter_devices(const std::string &regex_pattern) {
 void DeviceProvider::load_devices(uint32_t device_type) {
     std::scoped_lock<std::mutex> lock(_mutex);
 
-    _devices.clear();
-    std::vector<cl::Platform> platforms;
-    cl::Platform::get(&platforms);
+    std::vector<cl::Device> devices;
 
-    for (const auto &platform: platforms) {
-        std::vector<cl::Device> platform_devices;
-        platform.getDevices(device_type, &platform_devices);
-        _devices.insert(_devices.end(), platform_devices.begin(), platform_devices.end());
+    for (const auto &platform: get_platforms()) {
+        std::vector<cl::Device> platform_devices = get_platform_devices(platform, device_type);
+        devices.insert(devices.end(), platform_devices.begin(), platform_devices.end());
     }
 
+    _devices = devices;
     _mutexes = std::vector<std::mutex>(_devices.size());
 
     ProgramProvider::clear();
-- 
2.43.0


From 57a1e5da655c0229a4b3ec915988ea88eef46c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:30 +0000
Subject: [PATCH 30/50] fix: a program is registered when it was built for
 every device, or not at all

---
 src/hzip_core/opencl/cl_helper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index e285bd8..64bfa1a 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -153,6 +153,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 
     if (!_program_map.contains(program_name)) {
         auto devices = DeviceProvider::get_devices();
+        std::vector<cl::Program> programs;
 
         for (const auto &device : devices) {
             cl::Context context(device);
@@ -173,10 +174,15 @@ void ProgramProvider::register_program(const std::string &program_name, const st
                         throw OpenCLErrors::InvalidOperationException(e.what());
                     }
                 }
+
+                throw;
             }
 
-            _program_map[program_name].push_back(program);
+            programs.push_back(program);
         }
+
+        // Only a program that was built for every device is registered.
+        _program_map[program_name] = programs;
     }
 }
 
-- 
2.43.0


From dce0e2a034747280a4a6c074fe5a56ccfbc58707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 31/50] fix: the rotation over devices starts again when their
 number changes

---
 src/hzip_core/opencl/cl_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index 64bfa1a..e50da91 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -189,6 +189,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 void ProgramProvider::set_device_count(uint64_t device_count) {
     std::scoped_lock<std::mutex> lock(_mutex);
     _device_count = device_count;
+    _device_index = 0;
 }
 
 std::pair<cl::Kernel, std::mutex &> KernelProvider::get(const std::string &program_name) {
-- 
2.43.0


From 3e337cf6059a93f440d93062c9b2ffe180d8db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:32 +0000
Subject: [PATCH 32/50] fix: OpenCL devices and programs are guarded by one
 lock; mutexes given out stay valid

---
 src/hzip_core/opencl/cl_helper.cpp | 28 ++++++++++++++++------------
 src/hzip_core/opencl/cl_helper.h   | 10 +++++++---
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/hzip_core/opencl/cl_helper.cpp b/src/hzip_core/opencl/cl_helper.cpp
index e50da91..d1fa394 100644
--- a/src/hzip_core/opencl/cl_helper.cpp
+++ b/src/hzip_core/opencl/cl_helper.cpp
@@ -10,13 +10,12 @@
 using namespace hzopencl;
 
 std::unordered_map<std::string, std::vector<cl::Program>> ProgramProvider::_program_map;
-std::mutex ProgramProvider::_mutex;
+std::recursive_mutex ProgramProvider::_mutex;
 uint64_t ProgramProvider::_device_index = 0;
 uint64_t ProgramProvider::_device_count = 0;
 
 std::vector<cl::Device> DeviceProvider::_devices;
-std::vector<std::mutex> DeviceProvider::_mutexes;
-std::mutex DeviceProvider::_mutex;
+std::deque<std::mutex> DeviceProvider::_mutexes;
 
 // A host without any platform has no devices: the loader reports this as an error.
 static std::vector<cl::Platform> get_platforms() {
@@ -70,7 +69,7 @@ void DeviceProvider::list_available_devices() {
 }
 
 std::vector<cl::Device> DeviceProvider::get_devices() {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(ProgramProvider::_mutex);
     if (_devices.empty()) {
         throw OpenCLErrors::InvalidOperationException("No devices were loaded");
     }
@@ -79,12 +78,12 @@ std::vector<cl::Device> DeviceProvider::get_devices() {
 }
 
 bool DeviceProvider::empty() {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(ProgramProvider::_mutex);
     return _devices.empty();
 }
 
 void DeviceProvider::filter_devices(const std::string &regex_pattern) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(ProgramProvider::_mutex);
 
     if (_devices.empty()) {
         throw OpenCLErrors::InvalidOperationException("No devices were loaded");
@@ -108,7 +107,7 @@ void DeviceProvider::filter_devices(const std::string &regex_pattern) {
 }
 
 void DeviceProvider::load_devices(uint32_t device_type) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(ProgramProvider::_mutex);
 
     std::vector<cl::Device> devices;
 
@@ -118,18 +117,23 @@ void DeviceProvider::load_devices(uint32_t device_type) {
     }
 
     _devices = devices;
-    _mutexes = std::vector<std::mutex>(_devices.size());
+
+    // Mutexes that were given out stay valid.
+    while (_mutexes.size() < _devices.size()) {
+        _mutexes.emplace_back();
+    }
 
     ProgramProvider::clear();
     ProgramProvider::set_device_count(_devices.size());
 }
 
 std::mutex &DeviceProvider::get_mutex(uint64_t index) {
+    std::scoped_lock<std::recursive_mutex> lock(ProgramProvider::_mutex);
     return _mutexes[index];
 }
 
 std::pair<cl::Program, std::mutex &> ProgramProvider::get(const std::string &program_name) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(_mutex);
 
     if (!_program_map.contains(program_name)) {
         throw OpenCLErrors::InvalidOperationException("Failed to load unregistered OpenCL program");
@@ -143,13 +147,13 @@ std::pair<cl::Program, std::mutex &> ProgramProvider::get(const std::string &pro
 }
 
 void ProgramProvider::clear() {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(_mutex);
 
     _program_map.clear();
 }
 
 void ProgramProvider::register_program(const std::string &program_name, const std::string &src) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(_mutex);
 
     if (!_program_map.contains(program_name)) {
         auto devices = DeviceProvider::get_devices();
@@ -187,7 +191,7 @@ void ProgramProvider::register_program(const std::string &program_name, const st
 }
 
 void ProgramProvider::set_device_count(uint64_t device_count) {
-    std::scoped_lock<std::mutex> lock(_mutex);
+    std::scoped_lock<std::recursive_mutex> lock(_mutex);
     _device_count = device_count;
     _device_index = 0;
 }
diff --git a/src/hzip_core/opencl/cl_helper.h b/src/hzip_core/opencl/cl_helper.h
index 3612259..9217fcd 100644
--- a/src/hzip_core/opencl/cl_helper.h
+++ b/src/hzip_core/opencl/cl_helper.h
@@ -4,6 +4,7 @@
 #ifdef HZIP_ENABLE_OPENCL
 
 #include <cstdint>
+#include <deque>
 #include <string>
 #include <vector>
 #include <unordered_map>
@@ -15,7 +16,11 @@ namespace hzopencl {
     class ProgramProvider {
     private:
         static std::unordered_map<std::string, std::vector<cl::Program>> _program_map;
-        static std::mutex _mutex;
+
+        // Also guards the devices: programs and devices change together.
+        static std::recursive_mutex _mutex;
+        friend class DeviceProvider;
+
         static uint64_t _device_index;
         static uint64_t _device_count;
 
@@ -32,8 +37,7 @@ namespace hzopencl {
     class DeviceProvider {
     private:
         static std::vector<cl::Device> _devices;
-        static std::vector<std::mutex> _mutexes;
-        static std::mutex _mutex;
+        static std::deque<std::mutex> _mutexes;
     public:
         static void load_devices(uint32_t device_type = CL_DEVICE_TYPE_ALL);
 
-- 
2.43.0


From 3e66df528d255b7a605a41dca881cb63bbc85249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 33/50] fix: the cache's page size and count are used without a
 cache file being set, too

---
 src/hzip_core/runtime/config.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 9617296..2566378 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -30,23 +30,24 @@ void Config::configure() {
     const char *_processor_threads = std::getenv("HZIP_PROCESSOR_THREADS");
     const char *_host_max_memory = std::getenv("HZIP_MAX_MEM_USAGE");
 
-    if (_cache_file != nullptr) {
-        uint64_t page_size = 131072;
-        uint64_t cache_count = 4;
+    std::string cache_file = "hzip";
+    uint64_t page_size = 131072;
+    uint64_t cache_count = 4;
 
-        if (_cache_page_size != nullptr) {
-            page_size = std::stoull(_cache_page_size);
-        }
+    if (_cache_file != nullptr) {
+        cache_file = _cache_file;
+    }
 
-        if (_cache_count != nullptr) {
-            cache_count = std::stoull(_cache_count);
-        }
+    if (_cache_page_size != nullptr) {
+        page_size = std::stoull(_cache_page_size);
+    }
 
-        CacheProvider::init_cache(_cache_file, cache_count, page_size);
-    } else {
-        CacheProvider::init_cache("hzip", 4, 131072);
+    if (_cache_count != nullptr) {
+        cache_count = std::stoull(_cache_count);
     }
 
+    CacheProvider::init_cache(cache_file, cache_count, page_size);
+
     if (_api_threads != nullptr) {
         Config::api_threads = std::stoull(_api_threads);
     }
-- 
2.43.0


From 608522b6f7cef2cbd2c11062a56d858b9aa5a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 34/50] fix: a malformed or too large number in the environment
 is an error, not another number

---
 src/hzip_core/runtime/config.cpp | 39 +++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 2566378..496584b 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -1,11 +1,34 @@
 #include "config.h"
 #include "cache_provider.h"
 #include <cstdlib>
+#include <stdexcept>
 #include <string>
+#include <hzip_core/errors/utils.h>
 #include <hzip_core/opencl/cl_helper.h>
 
 using namespace hzruntime;
 
+// A number is nothing but decimal digits.
+static uint64_t parse_number(const std::string &value, uint64_t max = UINT64_MAX) {
+    if (value.empty() || value.find_first_not_of("0123456789") != std::string::npos) {
+        throw UtilErrors::ValidationError("Invalid number in the configuration: " + value);
+    }
+
+    uint64_t number;
+
+    try {
+        number = std::stoull(value);
+    } catch (std::out_of_range &e) {
+        throw UtilErrors::ValidationError("Number out of range in the configuration: " + value);
+    }
+
+    if (number > max) {
+        throw UtilErrors::ValidationError("Number out of range in the configuration: " + value);
+    }
+
+    return number;
+}
+
 uint64_t Config::api_threads = 1;
 uint64_t Config::api_port = 1729;
 uint32_t Config::api_timeout = 100;
@@ -39,25 +62,25 @@ void Config::configure() {
     }
 
     if (_cache_page_size != nullptr) {
-        page_size = std::stoull(_cache_page_size);
+        page_size = parse_number(_cache_page_size);
     }
 
     if (_cache_count != nullptr) {
-        cache_count = std::stoull(_cache_count);
+        cache_count = parse_number(_cache_count);
     }
 
     CacheProvider::init_cache(cache_file, cache_count, page_size);
 
     if (_api_threads != nullptr) {
-        Config::api_threads = std::stoull(_api_threads);
+        Config::api_threads = parse_number(_api_threads);
     }
 
     if (_api_port != nullptr) {
-        Config::api_port = std::stoull(_api_port);
+        Config::api_port = parse_number(_api_port, UINT16_MAX);
     }
 
     if (_api_timeout != nullptr) {
-        Config::api_timeout = std::stoull(_api_timeout);
+        Config::api_timeout = parse_number(_api_timeout, UINT32_MAX);
     }
 
     if (_api_key != nullptr) {
@@ -65,11 +88,11 @@ void Config::configure() {
     }
 
     if (_processor_threads != nullptr) {
-        Config::processor_threads = std::stoull(_processor_threads);
+        Config::processor_threads = parse_number(_processor_threads);
     }
 
     if (_host_max_memory != nullptr) {
-        Config::host_max_memory = std::stoull(_host_max_memory);
+        Config::host_max_memory = parse_number(_host_max_memory);
     }
 
 #ifdef HZIP_ENABLE_OPENCL
@@ -83,7 +106,7 @@ void Config::configure() {
     const char *_opencl_device_regex = std::getenv("HZIP_OPENCL_DEVICE_REGEX");
 
     if (_opencl_kernels != nullptr) {
-        Config::opencl_kernels = std::stoull(_opencl_kernels);
+        Config::opencl_kernels = parse_number(_opencl_kernels);
     }
 
     if (_opencl_device_regex != nullptr) {
-- 
2.43.0


From 0cad520bd5c522f443ab0016292d6654b836da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:26 +0000
Subject: [PATCH 35/50] fix: a device filter without any device does not stop
 the start, and one that excludes all leaves no accelerator

---
 src/hzip_core/runtime/config.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hzip_core/runtime/config.cpp b/src/hzip_core/runtime/config.cpp
index 496584b..59fa7e5 100644
--- a/src/hzip_core/runtime/config.cpp
+++ b/src/hzip_core/runtime/config.cpp
@@ -98,10 +98,6 @@ void Config::configure() {
 #ifdef HZIP_ENABLE_OPENCL
     hzopencl::DeviceProvider::load_devices();
 
-    if (!hzopencl::DeviceProvider::empty()) {
-        opencl_support_enabled = true;
-    }
-
     const char *_opencl_kernels = std::getenv("HZIP_OPENCL_KERNELS");
     const char *_opencl_device_regex = std::getenv("HZIP_OPENCL_DEVICE_REGEX");
 
@@ -111,7 +107,13 @@ void Config::configure() {
 
     if (_opencl_device_regex != nullptr) {
         Config::opencl_device_regex = _opencl_device_regex;
-        hzopencl::DeviceProvider::filter_devices(Config::opencl_device_regex);
+
+        if (!hzopencl::DeviceProvider::empty()) {
+            hzopencl::DeviceProvider::filter_devices(Config::opencl_device_regex);
+        }
     }
+
+    // The filter may have excluded every device.
+    opencl_support_enabled = !hzopencl::DeviceProvider::empty();
 #endif
 }
-- 
2.43.0


From 590db7b525dd81f604edaec5c7d07f59673c5574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:45 +0000
Subject: [PATCH 36/50] fix: the program compiles, so that its configuration
 takes effect

---
 src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index ad14b0d..ab146f6 100755
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,9 +1,13 @@
 #include <csignal>
+#include <cstring>
+#include <functional>
 #include <loguru/loguru.hpp>
 #include <rainman/rainman.h>
 #include <hzip_network/api/api.h>
 #include <hzip_core/runtime/config.h>
 
+using namespace hzruntime;
+
 std::function<void()> _hzapi_graceful_shutdown;
 
 void setup_logger() {
-- 
2.43.0


From 0945cd4650e823d7add3090d4d21680fcbb7bde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:23 +0000
Subject: [PATCH 37/50] fix: the colour transform keeps an alpha plane when it
 does not work in place, too

---
 src/hzip_core/preprocessor/color.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hzip_core/preprocessor/color.cpp b/src/hzip_core/preprocessor/color.cpp
index df822f0..dd69bdf 100644
--- a/src/hzip_core/preprocessor/color.cpp
+++ b/src/hzip_core/preprocessor/color.cpp
@@ -54,6 +54,11 @@ hztrans::LinearU16XColorTransformer::cpu_rgb_to_ycocg(const rainman::ptr<uint16_
     uint64_t lz = _width * _height;
     uint64_t lz2 = lz << 1;
 
+    // Further planes, such as alpha, are not transformed.
+    for (uint64_t i = lz2 + lz; !inplace && i < buffer.size(); i++) {
+        output[i] = buffer[i];
+    }
+
     for (uint64_t i = 0; i < lz; i++) {
         auto r = buffer[i];
         auto g = buffer[i + lz];
@@ -83,6 +88,11 @@ hztrans::LinearU16XColorTransformer::cpu_ycocg_to_rgb(const rainman::ptr<uint16_
     uint64_t lz = _width * _height;
     uint64_t lz2 = lz << 1;
 
+    // Further planes, such as alpha, are not transformed.
+    for (uint64_t i = lz2 + lz; !inplace && i < buffer.size(); i++) {
+        output[i] = buffer[i];
+    }
+
     for (uint64_t i = 0; i < lz; i++) {
         auto y = buffer[i];
         auto co = buffer[i + lz];
-- 
2.43.0


From d9a01b74b81e1204833e9dac97511fa119c89389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:18 +0000
Subject: [PATCH 38/50] fix: the residues of images with 16 bit samples are
 read from the image, and chunks below the first are placed where they belong

---
 src/hzip_codec/sharingan/state_transition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index bde7d9c..0bdb0a5 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -294,7 +294,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
 
             for (uint64_t y_chunk_index = 0; y_chunk_index < y_chunks; y_chunk_index++) {
                 uint64_t y_chunk_partial_offset = y_chunk_index * _chunk_height;
-                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset;
+                uint64_t y_chunk_offset = channel_offset + y_chunk_partial_offset * _width;
                 uint64_t chunk_h = y_chunk_partial_offset + _chunk_height > _height ? y_residue : _chunk_height;
 
                 for (uint64_t x_chunk_index = 0; x_chunk_index < x_chunks; x_chunk_index++) {
@@ -312,7 +312,7 @@ SharinganStateTransition::cpu_dynamic_precode() {
                         for (uint64_t x = 0; x < chunk_w; x++) {
                             uint64_t index = y_offset + x;
 
-                            uint64_t residual_symbol = _data[index] & 0xff;
+                            uint64_t residual_symbol = _data[index - residue_segment_offset] & 0xff;
 
                             if (x == 0 && y == 0) {
                                 array.set(uniform_pair(residual_symbol), index);
-- 
2.43.0


From 15e3eac58eca0cabdd243718e06f2c91f29508a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:56 +0000
Subject: [PATCH 39/50] fix: the OpenCL implementation of the Sharingan model
 gives the same transitions as the CPU one

---
 src/hzip_codec/sharingan/sharingan_dynamic.cl | 20 +++++++++++++------
 src/hzip_codec/sharingan/state_transition.cpp |  6 +++++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/hzip_codec/sharingan/sharingan_dynamic.cl b/src/hzip_codec/sharingan/sharingan_dynamic.cl
index cfd14b3..34557c3 100644
--- a/src/hzip_codec/sharingan/sharingan_dynamic.cl
+++ b/src/hzip_codec/sharingan/sharingan_dynamic.cl
@@ -57,6 +57,9 @@ __kernel void sharingan_dynamic(
 	if (enable_zero_order) {
 		u64 *f_dist = g_freq_map + (tid << 8);
 		
+		// As in the CPU implementation.
+		f_dist[0] = 1;
+		
 		for (u64 y = 0; y < chunk_y_end; y++) {
 			u64 super_offset = super_chunk_offset + y * width;
 			
@@ -65,13 +68,18 @@ __kernel void sharingan_dynamic(
 				
 				u64 curr_symbol = (g_input[index] >> shift) & 0xff;
 				
-				hzrans64_create_ftable_nf(&state, f_dist);
-				hzrans64_add_to_seq(&state, curr_symbol);
-				
-				p.ls = state.ls;
-				p.bs = state.bs;
+				if (x == 0 && y == 0) {
+					p.ls = 65536;
+					p.bs = curr_symbol << 16;
+				} else {
+					hzrans64_create_ftable_nf(&state, f_dist);
+					hzrans64_add_to_seq(&state, curr_symbol);
+					
+					p.ls = state.ls;
+					p.bs = state.bs;
+				}
 				
-				f_dist[curr_symbol] += learning_rate;
+				f_dist[curr_symbol] += (learning_rate << 1);
 				
 				g_output[index] = p;
 			}
diff --git a/src/hzip_codec/sharingan/state_transition.cpp b/src/hzip_codec/sharingan/state_transition.cpp
index 0bdb0a5..f965374 100644
--- a/src/hzip_codec/sharingan/state_transition.cpp
+++ b/src/hzip_codec/sharingan/state_transition.cpp
@@ -404,6 +404,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
         {
             std::scoped_lock<std::mutex> device_lock(device_mutex);
             auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+            queue.enqueueFillBuffer<uint64_t>(g_freq_map, 0, 0, true_size * 65536 * sizeof(uint64_t));
+            queue.enqueueBarrierWithWaitList();
             queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
             queue.enqueueBarrierWithWaitList();
             queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
@@ -439,7 +441,7 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             kernel.setArg(3, _chunk_width);
             kernel.setArg(4, _chunk_height);
             kernel.setArg(5, _locality_context_order);
-            kernel.setArg(6, 0);
+            kernel.setArg(6, static_cast<uint8_t>(0));
             kernel.setArg(7, true);
             kernel.setArg(8, _width);
             kernel.setArg(9, _height);
@@ -451,6 +453,8 @@ std::pair<rainman::virtual_array<SSTPair>, std::mutex &> SharinganStateTransitio
             {
                 std::scoped_lock<std::mutex> device_lock(device_mutex);
                 auto queue = cl::CommandQueue(context, device, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE);
+                queue.enqueueFillBuffer<uint64_t>(g_freq_map, 0, 0, true_size * 256 * sizeof(uint64_t));
+                queue.enqueueBarrierWithWaitList();
                 queue.enqueueNDRangeKernel(kernel, cl::NDRange(0), cl::NDRange(global_size), cl::NDRange(local_size));
                 queue.enqueueBarrierWithWaitList();
                 queue.enqueueReadBuffer(g_output, CL_FALSE, 0, n * sizeof(SSTPair), output.pointer());
-- 
2.43.0


From 01ff64e73d8f325b25fc3ed8e638011fcf5381d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:45 +0000
Subject: [PATCH 40/50] fix: a truncated PNG is an error and is not read beyond
 its end

---
 src/hzip_core/preprocessor/png_bundle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 2ee30eb..15ba591 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,6 +1,10 @@
 #include "png_bundle.h"
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
+    if (size * n > buffer.size() - index) {
+        throw TransformErrors::InvalidInputError("png data is incomplete");
+    }
+
     for (uint64_t i = 0; i < size * n; i++) {
         dst[i] = buffer[index++];
     }
-- 
2.43.0


From 6e0622ca391f4a273a296e094d730e9f1e29511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:45 +0000
Subject: [PATCH 41/50] fix: PNG samples of 1, 2, 4 and 16 bits are read as
 such

---
 src/hzip_core/preprocessor/png_bundle.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 15ba591..6b70f14 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -87,28 +87,37 @@ PNGBundle PNGBundleBuilder::read_bundle() {
     png_byte bit_depth = png_get_bit_depth(png_ptr, info_ptr);
     png_byte nchannels = png_get_channels(png_ptr, info_ptr);
 
+    if (bit_depth < 8) {
+        // Rows have one byte per sample.
+        png_set_packing(png_ptr);
+    }
+
     int number_of_passes = png_set_interlace_handling(png_ptr);
 
     png_read_update_info(png_ptr, info_ptr);
 
-    uint64_t buffer_size = 0;
     auto row_pointers = rmalloc<png_bytep>(height);
     for (int y = 0; y < height; y++) {
         uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
-        buffer_size += row_byte_count;
         row_pointers[y] = rmalloc<png_byte>(row_byte_count);
     }
 
     png_read_image(png_ptr, row_pointers);
 
-    auto pixar = rainman::ptr<uint16_t>(buffer_size);
-    uint64_t sz = height * width;
+    uint64_t sz = static_cast<uint64_t>(height) * width;
     uint64_t sy = width;
+    auto pixar = rainman::ptr<uint16_t>(sz * nchannels);
 
     for (uint64_t y = 0, ly = 0; y < height; y++, ly += sy) {
         for (uint64_t x = 0; x < width; x++) {
             for (uint64_t z = 0, lz = 0; z < nchannels; z++, lz += sz) {
-                pixar[lz + ly + x] = row_pointers[y][nchannels * x + z];
+                uint64_t sample = nchannels * x + z;
+
+                if (bit_depth == 16) {
+                    pixar[lz + ly + x] = (row_pointers[y][sample << 1] << 8) | row_pointers[y][(sample << 1) + 1];
+                } else {
+                    pixar[lz + ly + x] = row_pointers[y][sample];
+                }
             }
         }
     }
-- 
2.43.0


From e57f25303162d69ad888e42fd8e1c3009bc0e5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:45 +0000
Subject: [PATCH 42/50] fix: a PNG whose last data chunk is damaged is an error

---
 src/hzip_core/preprocessor/png_bundle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 6b70f14..6d81419 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -104,6 +104,9 @@ PNGBundle PNGBundleBuilder::read_bundle() {
 
     png_read_image(png_ptr, row_pointers);
 
+    // The checksum of the last data chunk is only looked at here.
+    png_read_end(png_ptr, nullptr);
+
     uint64_t sz = static_cast<uint64_t>(height) * width;
     uint64_t sy = width;
     auto pixar = rainman::ptr<uint16_t>(sz * nchannels);
-- 
2.43.0


From 929e5a36f6f2069144e3a6f9b3a1d56137ce7d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:57 +0000
Subject: [PATCH 43/50] fix: reading a malformed PNG releases what it allocated

---
 src/hzip_core/preprocessor/png_bundle.cpp | 45 ++++++++++++++---------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/hzip_core/preprocessor/png_bundle.cpp b/src/hzip_core/preprocessor/png_bundle.cpp
index 6d81419..3b2560e 100644
--- a/src/hzip_core/preprocessor/png_bundle.cpp
+++ b/src/hzip_core/preprocessor/png_bundle.cpp
@@ -1,4 +1,6 @@
 #include "png_bundle.h"
+#include <memory>
+#include <vector>
 
 void PNGBundleBuilder::MemBuffer::read(uint8_t *dst, uint64_t size, uint64_t n) {
     if (size * n > buffer.size() - index) {
@@ -61,17 +63,32 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         throw TransformErrors::InvalidInputError("png header check failed");
     }
 
-    png_structp png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
+    // Everything is released when libpng reports an error, too.
+    struct ReadStructs {
+        png_structp png_ptr{};
+        png_infop info_ptr{};
+
+        ~ReadStructs() {
+            if (png_ptr) {
+                png_destroy_read_struct(&png_ptr, &info_ptr, nullptr);
+            }
+        }
+    } structs;
+
+    structs.png_ptr = png_create_read_struct_2(
+            PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr, nullptr, png_malloc_fn, png_free_fn
+    );
+
+    png_structp png_ptr = structs.png_ptr;
 
     if (!png_ptr) {
         throw TransformErrors::InvalidOperationError("png_create_read_struct() failed");
     }
 
-    png_set_mem_fn(png_ptr, nullptr, png_malloc_fn, png_free_fn);
+    structs.info_ptr = png_create_info_struct(png_ptr);
 
-    png_infop info_ptr = png_create_info_struct(png_ptr);
+    png_infop info_ptr = structs.info_ptr;
     if (!info_ptr) {
-        png_destroy_read_struct(&png_ptr, nullptr, nullptr);
         throw TransformErrors::InvalidOperationError("png_create_info_struct() failed");
     }
 
@@ -96,13 +113,14 @@ PNGBundle PNGBundleBuilder::read_bundle() {
 
     png_read_update_info(png_ptr, info_ptr);
 
-    auto row_pointers = rmalloc<png_bytep>(height);
-    for (int y = 0; y < height; y++) {
-        uint64_t row_byte_count = png_get_rowbytes(png_ptr, info_ptr);
-        row_pointers[y] = rmalloc<png_byte>(row_byte_count);
+    std::vector<std::unique_ptr<png_byte[]>> rows(height);
+    std::vector<png_bytep> row_pointers(height);
+    for (uint64_t y = 0; y < height; y++) {
+        rows[y].reset(new png_byte[png_get_rowbytes(png_ptr, info_ptr)]);
+        row_pointers[y] = rows[y].get();
     }
 
-    png_read_image(png_ptr, row_pointers);
+    png_read_image(png_ptr, row_pointers.data());
 
     // The checksum of the last data chunk is only looked at here.
     png_read_end(png_ptr, nullptr);
@@ -125,12 +143,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         }
     }
 
-    for (int y = 0; y < height; y++) {
-        rfree(row_pointers[y]);
-    }
-
-    rfree(row_pointers);
-
     auto bundle = PNGBundle(
             pixar,
             nchannels
@@ -158,9 +170,6 @@ PNGBundle PNGBundleBuilder::read_bundle() {
         bundle.plte.colors = colors;
     }
 
-    png_destroy_info_struct(png_ptr, &info_ptr);
-    png_destroy_read_struct(&png_ptr, nullptr, nullptr);
-
     return bundle;
 }
 
-- 
2.43.0


From e243b4d1847a90144a0aa70e02dbfe423909bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 44/50] fix: the header of a JPEG is taken before the
 decompressor is destroyed

---
 src/hzip_core/preprocessor/jpeg_codec.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index cf40153..f732739 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -218,11 +218,12 @@ public:
             }
         }
 
+        auto header = hzj_header(&info);
+
         jpeg_finish_decompress(&info);
         jpeg_destroy_decompress(&info);
 
-
-        return hzj_image_struct{hzj_header(&info), dct_coeffs};
+        return hzj_image_struct{header, dct_coeffs};
     }
 
     void write(hzj_image_struct image, FILE *out) {
-- 
2.43.0


From b19a877dcac3ea89d2928f47409a00cfbe649ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 45/50] fix: a JPEG is written with the dimensions of its
 components and an error manager

---
 src/hzip_core/preprocessor/jpeg_codec.h | 30 +++++++++++--------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index f732739..c95f136 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -227,19 +227,15 @@ public:
     }
 
     void write(hzj_image_struct image, FILE *out) {
-        j_compress_ptr info = new jpeg_compress_struct;
+        jpeg_compress_struct compressor;
+        j_compress_ptr info = &compressor;
         jpeg_error_mgr err;
 
+        info->err = jpeg_std_error(&err);
         jpeg_create_compress(info);
 
-
         image.header.create_compress_ptr(info);
         jpeg_stdio_dest(info, out);
-        info->err = jpeg_std_error(&err);
-
-        j_decompress_ptr dinfo = new jpeg_decompress_struct;
-        jpeg_create_decompress(dinfo);
-
 
         uint8_t max_v_samp_factor = 1;
         uint8_t max_h_samp_factor = 1;
@@ -252,32 +248,32 @@ public:
             }
         }
 
-        auto *coeff_arrays = new jvirt_barray_ptr[info->num_components];
+        jvirt_barray_ptr coeff_arrays[MAX_COMPONENTS];
 
         jpeg_component_info *compptr;
         int ci;
         for (ci = 0, compptr = info->comp_info; ci < info->num_components; ci++, compptr++) {
             compptr->width_in_blocks =
-                    (JDIMENSION) image.header.image_height * image.header.comp_specs[ci].v_samp_factor /
-                    (8 * max_v_samp_factor);
+                    hzj_round_up((long) image.header.image_width * image.header.comp_specs[ci].h_samp_factor,
+                                 8 * max_h_samp_factor) / (8 * max_h_samp_factor);
             compptr->height_in_blocks =
-                    (JDIMENSION) image.header.image_width * image.header.comp_specs[ci].h_samp_factor /
-                    (8 * max_h_samp_factor);
+                    hzj_round_up((long) image.header.image_height * image.header.comp_specs[ci].v_samp_factor,
+                                 8 * max_v_samp_factor) / (8 * max_v_samp_factor);
 
-            coeff_arrays[ci] = (*dinfo->mem->request_virt_barray)
-                    ((j_common_ptr) dinfo, JPOOL_IMAGE, TRUE,
+            coeff_arrays[ci] = (*info->mem->request_virt_barray)
+                    ((j_common_ptr) info, JPOOL_IMAGE, TRUE,
                      (JDIMENSION) hzj_round_up((long) compptr->width_in_blocks, (long) compptr->h_samp_factor),
                      (JDIMENSION) hzj_round_up((long) compptr->height_in_blocks, (long) compptr->v_samp_factor),
                      (JDIMENSION) compptr->v_samp_factor);
         }
 
-        (*dinfo->mem->realize_virt_arrays)((j_common_ptr) dinfo);
+        (*info->mem->realize_virt_arrays)((j_common_ptr) info);
 
         for (ci = 0, compptr = info->comp_info; ci < info->num_components; ci++, compptr++) {
 
             for (int by = 0; by < compptr->height_in_blocks; by++) {
-                JBLOCKARRAY buffer = (*dinfo->mem->access_virt_barray)((j_common_ptr) dinfo, coeff_arrays[ci], by,
-                                                                       (JDIMENSION) 1, TRUE);
+                JBLOCKARRAY buffer = (*info->mem->access_virt_barray)((j_common_ptr) info, coeff_arrays[ci], by,
+                                                                      (JDIMENSION) 1, TRUE);
                 for (int bx = 0; bx < compptr->width_in_blocks; bx++) {
                     // We are now at a 8x8 dct-block.
                     int **dct_arr = image.mcus.coeff_arrays[ci][(by * compptr->width_in_blocks) + bx];
-- 
2.43.0


From f5e26b334094f5578fff28065f5646f84a08c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 46/50] fix: coefficients beyond the default Huffman tables are
 not written as something else

---
 src/hzip_core/preprocessor/jpeg_codec.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index c95f136..87753ac 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -135,6 +135,8 @@ public:
             jpeg_set_colorspace(info, (J_COLOR_SPACE) jpeg_color_space);
 
             info->data_precision = data_precision;
+            // the default tables have no codes for some coefficients
+            info->optimize_coding = TRUE;
             info->CCIR601_sampling = CCIR601_sampling;
 
             JQUANT_TBL **qtblptr;
-- 
2.43.0


From 3945b399c47834d8bf8108091d9c6dbffb34cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 47/50] fix: a malformed JPEG is an error and does not end the
 process

---
 src/hzip_core/preprocessor/jpeg_codec.h | 55 +++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 87753ac..699675d 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -3,6 +3,8 @@
 
 #include <cstdio>
 #include <jpeglib.h>
+#include <memory>
+#include <stdexcept>
 #include <string>
 #include <cstring>
 #include <vector>
@@ -13,6 +15,35 @@ class hzj_iface {
 private:
     FILE *jpeg_file;
 
+    // reports every error and warning (the data is corrupt) as an exception
+    static void hzj_error_exit(j_common_ptr info) {
+        char message[JMSG_LENGTH_MAX];
+        (*info->err->format_message)(info, message);
+        throw std::runtime_error(std::string("JPEG error: ") + message);
+    }
+
+    static void hzj_emit_message(j_common_ptr info, int level) {
+        if (level < 0) {
+            hzj_error_exit(info);
+        }
+    }
+
+    static jpeg_error_mgr *hzj_error_mgr(jpeg_error_mgr *err) {
+        jpeg_std_error(err);
+        err->error_exit = hzj_error_exit;
+        err->emit_message = hzj_emit_message;
+        return err;
+    }
+
+    // releases what libjpeg allocated
+    struct hzj_guard {
+        j_common_ptr info;
+
+        ~hzj_guard() {
+            jpeg_destroy(info);
+        }
+    };
+
     const uint16_t dct_trans_mat[0x40] = {
 
     };
@@ -182,10 +213,26 @@ public:
 
     hzj_iface(uint8_t *buf, uint64_t len) {
         jpeg_file = fmemopen(buf, len, "rb");
+
+        if (jpeg_file == nullptr) {
+            throw std::runtime_error("JPEG error: could not open the buffer");
+        }
     }
 
     hzj_iface(std::string filename) {
         jpeg_file = fopen(filename.c_str(), "rb");
+
+        if (jpeg_file == nullptr) {
+            throw std::runtime_error("JPEG error: could not open " + filename);
+        }
+    }
+
+    hzj_iface(const hzj_iface &) = delete;
+
+    hzj_iface &operator=(const hzj_iface &) = delete;
+
+    ~hzj_iface() {
+        fclose(jpeg_file);
     }
 
     hzj_image_struct read() {
@@ -193,8 +240,9 @@ public:
         jpeg_error_mgr err;
 
 
-        info.err = jpeg_std_error(&err);
+        info.err = hzj_error_mgr(&err);
         jpeg_create_decompress(&info);
+        hzj_guard guard{(j_common_ptr) &info};
 
         jpeg_stdio_src(&info, jpeg_file);
         jpeg_read_header(&info, true);
@@ -223,7 +271,6 @@ public:
         auto header = hzj_header(&info);
 
         jpeg_finish_decompress(&info);
-        jpeg_destroy_decompress(&info);
 
         return hzj_image_struct{header, dct_coeffs};
     }
@@ -233,8 +280,9 @@ public:
         j_compress_ptr info = &compressor;
         jpeg_error_mgr err;
 
-        info->err = jpeg_std_error(&err);
+        info->err = hzj_error_mgr(&err);
         jpeg_create_compress(info);
+        hzj_guard guard{(j_common_ptr) info};
 
         image.header.create_compress_ptr(info);
         jpeg_stdio_dest(info, out);
@@ -289,7 +337,6 @@ public:
 
         jpeg_write_coefficients(info, coeff_arrays);
         jpeg_finish_compress(info);
-        jpeg_destroy_compress(info);
     }
 
 
-- 
2.43.0


From bdc9403862ba74f19c66fddc895d583ca46ca046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:09 +0000
Subject: [PATCH 48/50] fix: the memory of a JPEG is released

---
 src/hzip_core/preprocessor/jpeg_codec.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 699675d..6fe048f 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -62,12 +62,25 @@ private:
 
 public:
     struct hzj_mcu_array {
-        std::vector<int **> *coeff_arrays;
+        // shared by the copies, released with the last of them
+        std::shared_ptr<std::vector<int **>[]> coeff_arrays;
         uint8_t nchannels;
 
         hzj_mcu_array(uint8_t _nchannels) {
             nchannels = _nchannels;
-            coeff_arrays = new std::vector<int **>[nchannels];
+            coeff_arrays = std::shared_ptr<std::vector<int **>[]>(
+                    new std::vector<int **>[nchannels],
+                    [n = nchannels](std::vector<int **> *arrays) {
+                        for (int ci = 0; ci < n; ci++) {
+                            for (auto arr : arrays[ci]) {
+                                for (int i = 0; i < 8; i++) {
+                                    delete[] arr[i];
+                                }
+                                delete[] arr;
+                            }
+                        }
+                        delete[] arrays;
+                    });
         }
 
         void push_array(uint8_t channel, int **arr) {
@@ -99,7 +112,7 @@ public:
         uint8_t data_precision;
         uint16_t CCIR601_sampling;
 
-        QTABLE *qtables;
+        std::vector<QTABLE> qtables;
         std::vector<COMP_SPEC> comp_specs;
 
         // non-critical parameters
@@ -122,7 +135,7 @@ public:
             data_precision = info->data_precision;
             CCIR601_sampling = info->CCIR601_sampling;
 
-            qtables = new QTABLE[NUM_QUANT_TBLS];
+            qtables.resize(NUM_QUANT_TBLS);
             for (int tblno = 0; tblno < NUM_QUANT_TBLS; tblno++) {
                 if (info->quant_tbl_ptrs[tblno] != NULL) {
                     auto _qtable = info->quant_tbl_ptrs[tblno]->quantval;
-- 
2.43.0


From 5b6769f3950c7472f736de37e8ac01ed516d4de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:57 +0000
Subject: [PATCH 49/50] fix: components that do not fit into one JPEG scan are
 written in a scan each

---
 src/hzip_core/preprocessor/jpeg_codec.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hzip_core/preprocessor/jpeg_codec.h b/src/hzip_core/preprocessor/jpeg_codec.h
index 6fe048f..c2f79c3 100755
--- a/src/hzip_core/preprocessor/jpeg_codec.h
+++ b/src/hzip_core/preprocessor/jpeg_codec.h
@@ -348,6 +348,24 @@ public:
             }
         }
 
+        // components that do not fit into one scan get a scan each
+        std::vector<jpeg_scan_info> scans;
+        int mcu_blocks = 0;
+        for (auto &spec: image.header.comp_specs) {
+            mcu_blocks += spec.h_samp_factor * spec.v_samp_factor;
+        }
+        if (info->num_components > MAX_COMPS_IN_SCAN || mcu_blocks > C_MAX_BLOCKS_IN_MCU) {
+            for (ci = 0; ci < info->num_components; ci++) {
+                jpeg_scan_info scan{};
+                scan.comps_in_scan = 1;
+                scan.component_index[0] = ci;
+                scan.Se = 0x3f;
+                scans.push_back(scan);
+            }
+            info->scan_info = scans.data();
+            info->num_scans = (int) scans.size();
+        }
+
         jpeg_write_coefficients(info, coeff_arrays);
         jpeg_finish_compress(info);
     }
-- 
2.43.0


From 78b56ee80546d5d6627a38895cd0fcee76e750bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:04 +0000
Subject: [PATCH 50/50] fix: a damaged archive file is an error and asks for no
 memory out of proportion

---
 src/hzip_storage/archive/archive.cpp | 53 +++++++++++++++++++++-------
 src/hzip_storage/archive/archive.h   |  2 ++
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/hzip_storage/archive/archive.cpp b/src/hzip_storage/archive/archive.cpp
index 3d84471..6c8427e 100644
--- a/src/hzip_storage/archive/archive.cpp
+++ b/src/hzip_storage/archive/archive.cpp
@@ -1,4 +1,5 @@
 #include "archive.h"
+#include <algorithm>
 #include <filesystem>
 #include <fcntl.h>
 #include <loguru/loguru.hpp>
@@ -50,12 +51,17 @@ HZ_Archive::HZ_Archive(const std::string &archive_path) {
 void HZ_Archive::hza_scan() {
     std::scoped_lock<std::mutex> lock(mutex);
 
-    auto readfn = [this](uint64_t n) {
+    // The file may hold anything, nothing in it reaches beyond its end.
+    uint64_t file_length = std::filesystem::file_size(path) << 3;
+
+    auto readfn = [this, file_length](uint64_t n) {
+        hza_check_format(n <= file_length - this->metadata.eof);
         this->metadata.eof += n;
         return this->stream->read(n);
     };
 
-    auto seekfn = [this](uint64_t n) {
+    auto seekfn = [this, file_length](uint64_t n) {
+        hza_check_format(n <= file_length - this->metadata.eof);
         this->metadata.eof += n;
         this->stream->seek(n);
     };
@@ -88,18 +94,24 @@ void HZ_Archive::hza_scan() {
                 break;
             }
             default:
-                break;
+                hza_check_format(false);
         }
     }
 }
 
+void HZ_Archive::hza_check_format(bool valid) {
+    if (!valid) {
+        throw ArchiveErrors::InvalidOperationException("Malformed archive");
+    }
+}
+
 void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
                                            const std::function<void(uint64_t)> &seek) {
 
     uint64_t sof = metadata.eof;
 
-    // block-length is not necessary, so skip it.
-    seek(0x40);
+    uint64_t size = read(0x40);
+    uint64_t start = metadata.eof;
 
     // Read metadata entry type
     auto entry_type = (HZ_ArchiveMetadataEntryType) read(0x8);
@@ -124,12 +136,15 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
             }
 
             uint64_t blob_count = read(0x3A);
-            auto blob_ids = rainman::ptr<uint64_t>(blob_count);
+            std::vector<uint64_t> ids;
 
             for (uint64_t i = 0; i < blob_count; i++) {
-                blob_ids[i] = read(0x40);
+                ids.push_back(read(0x40));
             }
 
+            auto blob_ids = rainman::ptr<uint64_t>(blob_count);
+            std::copy(ids.begin(), ids.end(), blob_ids.pointer());
+
             auto file = HZ_ArchiveFile(blob_ids);
 
             metadata.file_map.set(_path, HZ_ArchiveEntry(file, sof - 0x8));
@@ -155,6 +170,8 @@ void HZ_Archive::hza_scan_metadata_segment(const std::function<uint64_t(uint64_t
             break;
         }
     }
+
+    hza_check_format(metadata.eof - start == size);
 }
 
 void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &read,
@@ -167,12 +184,20 @@ void HZ_Archive::hza_scan_blob_segment(const std::function<uint64_t(uint64_t)> &
     uint64_t blob_id = read(0x40);
 
     // The mstate-id follows the header and the original size.
-    uint64_t header_length = read(0x40) << 3;
+    uint64_t header_size = read(0x40);
+    hza_check_format(size >= 0x140 && header_size <= (size - 0x140) >> 3);
+
+    uint64_t header_length = header_size << 3;
     seek(header_length + 0x40);
-    hza_increment_dep(read(0x40));
+    uint64_t mstate_id = read(0x40);
+
+    uint64_t data_length = size - 0x140 - header_length;
+    hza_check_format(read(0x40) <= data_length >> 3);
 
     // Skip the blob data
-    seek(size - 0x100 - header_length);
+    seek(data_length);
+
+    hza_increment_dep(mstate_id);
 
     metadata.blob_map[blob_id] = sof;
 }
@@ -199,8 +224,12 @@ void HZ_Archive::hza_scan_mstate_segment(const std::function<uint64_t(uint64_t)>
 
     uint64_t mstate_id = read(0x40);
 
-    // Skip the blob data
-    seek(size - 0x40);
+    // Ignore the algorithm
+    seek(0x40);
+    hza_check_format(size >= 0xC0 && read(0x40) <= (size - 0xC0) >> 3);
+
+    // Skip the mstate data
+    seek(size - 0xC0);
 
     metadata.mstate_map[mstate_id] = sof;
 }
diff --git a/src/hzip_storage/archive/archive.h b/src/hzip_storage/archive/archive.h
index e11e82c..f9aa2aa 100644
--- a/src/hzip_storage/archive/archive.h
+++ b/src/hzip_storage/archive/archive.h
@@ -84,6 +84,8 @@ private:
 
     void hza_check_open() const;
 
+    static void hza_check_format(bool valid);
+
     void hza_scan();
 
     void hza_scan_metadata_segment(const std::function<uint64_t(uint64_t)> &read,
-- 
2.43.0

