From f68a478bfbfed814ba6d35d04c5d80555f9cfc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 01/66] fix: do not free libuv handles with the size of
 uv_handle_t

---
 include/salticidae/event.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/event.h b/include/salticidae/event.h
index 412780e..499977d 100644
--- a/include/salticidae/event.h
+++ b/include/salticidae/event.h
@@ -37,7 +37,9 @@
 
 namespace salticidae {
 
-static void _on_uv_handle_close(uv_handle_t *h) { if (h) delete h; }
+// the handle was allocated as one of the (larger) concrete handle types, so the
+// deallocation must not be given the size of uv_handle_t
+static void _on_uv_handle_close(uv_handle_t *h) { ::operator delete(static_cast<void *>(h)); }
 
 struct _event_context_deleter {
     constexpr _event_context_deleter() = default;
-- 
2.43.0


From eaa598ddb0e84e74c19d5e4879deaf3405c7f2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 02/66] fix: order queue block reuse and hand-over between
 threads

---
 include/salticidae/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 77636e8..eadb710 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -30,7 +30,7 @@ class FreeList {
     FreeList(FreeList &&) = delete;
 
     void release_ref(Node *u) {
-        if (u->refcnt.fetch_sub(1, std::memory_order_relaxed) != 1) return;
+        if (u->refcnt.fetch_sub(1, std::memory_order_acq_rel) != 1) return;
         for (;;)
         {
             auto t = top.load(std::memory_order_relaxed);
@@ -250,7 +250,7 @@ struct MPSCQueue: public MPMCQueue<T> {
             if (hh >= tt)
             {
                 if (tt < MPMCQ_SIZE) return false;
-                auto hnext = h->next.load(std::memory_order_relaxed);
+                auto hnext = h->next.load(std::memory_order_acquire);
                 if (hnext == nullptr) return false;
                 this->head.store(hnext, std::memory_order_relaxed);
                 this->blks.push(h);
-- 
2.43.0


From d25c364d655a6551bf2a7c036bb5961391291af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 03/66] fix: do not dequeue from a recycled block of MPMCQueue

---
 include/salticidae/queue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index eadb710..e5001e0 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -206,6 +206,12 @@ class MPMCQueue {
             if (!hcnt) continue;
             if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_relaxed))
                 continue;
+            /* h may have been recycled before it was referenced */
+            if (this->head.load(std::memory_order_acquire) != h)
+            {
+                blks.release_ref(h);
+                continue;
+            }
 
             auto hh = h->head.load(std::memory_order_relaxed);
             auto tt = h->tail.load(std::memory_order_relaxed);
-- 
2.43.0


From 8377146ef1c8f4b4a01da8f791d6e4d76d9c2ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 04/66] fix: a failed DataStream::get_data_inplace must not
 move past the end

---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..ef9da1d 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > size())
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)&*(buffer.begin() + offset);
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From dea49261fc01b4870710fd6c0f435af207ed8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 05/66] fix: moving out of a DataStream yields its unread bytes
 and leaves it empty

---
 include/salticidae/stream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index ef9da1d..5170b9c 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -50,7 +50,7 @@ class DataStream {
 
     DataStream(DataStream &&other):
             buffer(std::move(other.buffer)),
-            offset(other.offset) {}
+            offset(other.offset) { other.clear(); }
 
     DataStream(const DataStream &other):
         buffer(other.buffer),
@@ -188,7 +188,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        buffer.erase(buffer.begin(), buffer.begin() + offset);
+        offset = 0;
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From ab026765edd91c468996a65e165b3e66cbde0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 06/66] fix: reject malformed digit pairs in
 DataStream::load_hex

---
 include/salticidae/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 5170b9c..ed3f105 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -177,7 +177,8 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((unsigned char)p[0]) || !isxdigit((unsigned char)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


From 10ef131ae72a32d0605241d9e9806bf8ce1bdb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 07/66] fix: load bytes of Bits beyond the width of int
 correctly

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index ed3f105..4e1d49b 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -357,7 +357,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From a72024a391093cc74872a4f86f40a1906750c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 08/66] fix: a null Bits has no bits

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 4e1d49b..feac6a7 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -329,7 +329,7 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
-- 
2.43.0


From aa8fe55846dff6ff555d549a9f58aec9ae156a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 09/66] fix: bound the length of an unserialized Bits by the
 available data

---
 include/salticidae/stream.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index feac6a7..6b8865d 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -381,9 +381,15 @@ class _Bits {
     }
 
     void unserialize(DataStream &s) {
-        s >> nbits;
-        nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        uint32_t _nbits;
+        s >> _nbits;
+        _nbits = letoh(_nbits);
+        // avoid the overflow for _nbits close to UINT32_MAX
+        uint32_t _ndata = _nbits / bit_per_datum + (_nbits % bit_per_datum != 0);
+        if (_ndata > s.size() / sizeof(_impl_type))
+            throw std::ios_base::failure("insufficient buffer");
+        nbits = _nbits;
+        ndata = _ndata;
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From d96187b61cd1664991046af7e31715ced87c5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 10/66] fix: bound the length of a parsed hash list by the
 available data

---
 include/salticidae/msg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..eb0c0fa 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -252,6 +252,8 @@ class MsgBase {
 
         s >> size;
         size = letoh(size);
+        if (size > s.size() / (256 / 8))
+            throw std::ios_base::failure("insufficient buffer");
 
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
-- 
2.43.0


From 662982520cf7a853ccdaada7a383776fd45179c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 11/66] fix: report failure from datastream_get_* in the C
 interface

---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..6c65681 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From 092da5d01db27cdddd9714dab1424498d8eb5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:14 +0000
Subject: [PATCH 12/66] fix: SegBuffer::move_pop must not return already popped
 bytes

---
 include/salticidae/buffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..cb1df30 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -84,7 +84,10 @@ class SegBuffer {
     }
 
     bytearray_t move_pop() {
-        auto res = std::move(buffer.front().data);
+        auto &front = buffer.front();
+        // skip the bytes that were already popped
+        front.data.erase(front.data.begin(), front.offset);
+        auto res = std::move(front.data);
         buffer.pop_front();
         _size -= res.size();
         return res;
-- 
2.43.0


From 60d92f3298fe3bae5c31e73db0f2f0483da8185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 13/66] fix: static_pointer_cast of a BoxObj must take over the
 ownership

---
 include/salticidae/ref.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..b2e555b 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -151,6 +151,7 @@ template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
     box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    other.obj = nullptr;
     return box;
 }
 
-- 
2.43.0


From 8ecd658b71e90aa1ee69b3b972bfc6714c976723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 14/66] fix: make releasing and upgrading of atomic handles
 safe under concurrency

---
 include/salticidae/ref.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index b2e555b..df41e28 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -171,6 +171,11 @@ struct _RCCtl {
         if (ref_cnt) return;
         delete this;
     }
+    bool try_add_ref() {
+        if (!ref_cnt) return false;
+        ref_cnt++;
+        return true;
+    }
     size_t get_cnt() { return ref_cnt; }
     _RCCtl(): ref_cnt(1), weak_cnt(0) {}
     ~_RCCtl() {}
@@ -178,25 +183,26 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /* all strong references together hold one weak reference */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
     void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
+        if (!--weak_cnt) delete this;
+    }
+    bool try_add_ref() {
+        auto cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
     }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
@@ -348,11 +354,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From 7f95a00f31c4fa428b6e2fb1e08268806755fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 15/66] fix: index reference-counted arrays

---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index df41e28..4500424 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -426,7 +426,7 @@ class RcObjBase<T[], R, D>: public _RcObjBase<T, R, D> {
     friend RcObjBase<T__, R_, D__> static_pointer_cast(RcObjBase<T_, R_, D_> &&other);
 
     public:
-    T &operator[](size_t idx) { return base_t::obj; }
+    T &operator[](size_t idx) { return base_t::obj[idx]; }
     RcObjBase() = default;
     RcObjBase(T obj[]): base_t(obj) {}
     RcObjBase(BoxObj<T[]> &&box_ref): base_t(std::move(box_ref)) {}
-- 
2.43.0


From 9fca35738096550842a886d1a71c7e40e16f16d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 16/66] fix: do not cut off the end of long formatted strings

---
 src/util.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..3f9bfcd 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -120,12 +120,13 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     if (nwrote < 0) buff = "";
     else
     {
-        buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
-                buff = "";
+            buff.resize(nwrote + 1);
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
+                nwrote = 0;
         }
+        buff.resize(nwrote);
     }
     va_end(ap);
     return buff;
-- 
2.43.0


From ad29dd3fa60368bbf8155fdf1ec49d86b3098f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 17/66] fix: use the reentrant localtime_r in the logger

---
 src/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 3f9bfcd..b336819 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -145,8 +145,9 @@ const std::string get_current_datetime() {
     char fmt[64], buf[64];
     struct timeval tv;
     gettimeofday(&tv, nullptr);
-    struct tm *tmp = localtime(&tv.tv_sec);
-    strftime(fmt, sizeof fmt, "%Y-%m-%d %H:%M:%S.%%06u", tmp);
+    struct tm tmp;
+    localtime_r(&tv.tv_sec, &tmp);
+    strftime(fmt, sizeof fmt, "%Y-%m-%d %H:%M:%S.%%06u", &tmp);
     snprintf(buf, sizeof buf, fmt, tv.tv_usec);
     return std::string(buf);
 }
-- 
2.43.0


From c4315a7f1cc980e5c1ade750c525f53936fa57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 18/66] fix: report out-of-range and partially numeric option
 values as invalid

---
 include/salticidae/util.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..df558a0 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -318,9 +318,11 @@ class Config {
             size_t idx;
             try {
                 val = stoi(strval, &idx);
-            } catch (std::invalid_argument &) {
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
         }
         int &get() { return val; }
     };
@@ -338,9 +340,11 @@ class Config {
             size_t idx;
             try {
                 val = stod(strval, &idx);
-            } catch (std::invalid_argument &) {
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
         }
         double &get() { return val; }
     };
-- 
2.43.0


From af44a56bf7851d06132563fb1a759fbfe71b63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 19/66] fix: close the configuration file when a value is
 invalid

---
 src/util.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index b336819..23c7a86 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -293,7 +293,12 @@ bool Config::load(const std::string &fname) {
                             optname.c_str());
                 continue;
             }
-            update(optname, optval.c_str());
+            try {
+                update(optname, optval.c_str());
+            } catch (...) {
+                fclose(conf_f);
+                throw;
+            }
         }
         fclose(conf_f);
         return true;
-- 
2.43.0


From 5cd9f04440ac6413427882710d75fb79c8ed8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 20/66] fix: split by an empty delimiter must terminate

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 23c7a86..c5958be 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -361,7 +361,7 @@ void Config::print_help(FILE *output) {
 std::vector<std::string> split(const std::string &s, const std::string &delim) {
     std::vector<std::string> res;
     size_t lastpos = 0;
-    for (;;)
+    for (; !delim.empty();)
     {
         size_t pos = s.find(delim, lastpos);
         if (pos == std::string::npos)
-- 
2.43.0


From 222a99eac8ffadb06d6dfd8adfdcfb23e9e98a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 21/66] fix: give a mode to the log file being created

---
 include/salticidae/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index df558a0..13143db 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -194,7 +194,7 @@ class Logger {
         output(fd), opened(false), prefix(prefix) { set_color(); }
     Logger(const char *prefix, const char *filename):
         opened(true), prefix(prefix) {
-        if ((output = open(filename, O_CREAT | O_WRONLY)) == -1)
+        if ((output = open(filename, O_CREAT | O_WRONLY, 0644)) == -1)
             throw SalticidaeError("logger cannot open file %s", filename);
         set_color();
     }
-- 
2.43.0


From 88875473f810b25e325c43f9c3e85882a003490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 22/66] fix: reject addresses with garbage around the port
 number

---
 include/salticidae/netaddr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..e624e41 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -65,6 +65,8 @@ struct NetAddr {
         std::string ip_str = ip_port_addr.substr(0, pos);
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
+        if (port_str.find_first_not_of("0123456789") != std::string::npos)
+            throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         try {
             port = std::stol(port_str.c_str());
         } catch (std::logic_error &) {
-- 
2.43.0


From 1aa397f8376c2a721b7896adaee01c11a995f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 23/66] fix: a SHA-1 digest has 20 bytes

---
 include/salticidae/crypto.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..f0891c1 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -108,12 +108,12 @@ class SHA1 {
     }
 
     void digest(bytearray_t &md) {
-        md.resize(32);
+        md.resize(20);
         _digest(md);
     }
 
     bytearray_t digest() {
-        bytearray_t md(32);
+        bytearray_t md(20);
         _digest(md);
         return md;
     }
-- 
2.43.0


From a79f582b73c5d0b91a1cd433e365ec731f4fe983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 24/66] fix: handle unusable key and certificate files without
 leaking or crashing

---
 include/salticidae/crypto.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index f0891c1..508ae86 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -177,9 +177,9 @@ class PKey {
         {
             key = PEM_read_PrivateKey(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (key == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
-        fclose(fp);
         return PKey(key);
     }
 
@@ -216,6 +216,8 @@ class PKey {
 
     void save_privkey_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_PrivateKey(fp, key, nullptr, nullptr, 0, nullptr, nullptr);
         fclose(fp);
         if (!ret)
@@ -265,9 +267,9 @@ class X509 {
         {
             x509 = PEM_read_X509(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (x509 == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_X509);
-        fclose(fp);
         return X509(x509);
     }
 
@@ -300,6 +302,8 @@ class X509 {
 
     void save_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_X509(fp, x509);
         fclose(fp);
         if (!ret)
-- 
2.43.0


From 899c48943b2d1d595f171fe4f33da7276e4dd8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 25/66] fix: do not throw through OpenSSL when the password is
 too long

---
 include/salticidae/crypto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 508ae86..9e5995e 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -125,8 +125,9 @@ static inline int _tls_pem_no_passswd(char *, int, int, void *) {
 }
 static inline int _tls_pem_with_passwd(char *buf, int size, int, void *) {
     size_t _size = strlen(_passwd) + 1;
+    // called from C code, so an exception is not an option
     if (_size > (size_t)size)
-        throw SalticidaeError(SALTI_ERROR_TLS_X509);
+        return -1;
     memmove(buf, _passwd, _size);
     return _size - 1;
 }
-- 
2.43.0


From 6658c96a8e0a5720f6c8f9d2fbacefb9ac634c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:44 +0000
Subject: [PATCH 26/66] fix: free the key object when RSA key generation fails

---
 include/salticidae/crypto.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 9e5995e..4502912 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -157,6 +157,7 @@ class PKey {
         if (!ret)
         {
             RSA_free(rsa);
+            EVP_PKEY_free(key);
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
         }
         EVP_PKEY_set1_RSA(key, rsa);
-- 
2.43.0


From 1212d528c637c85fe5e1e32a6c5c8d61cbbf65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 27/66] fix: return the config object from msg_magic()

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..1af1511 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -190,6 +190,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From 28c88bb1ecd1eb61b74aec081d455a5419ca0c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 28/66] fix: go on with the buffered messages after dropping a
 corrupted one

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 1af1511..81d8a77 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -681,7 +681,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From 1fd5327a8c222158ae7c27c4a44cdaae81d8eab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 29/66] fix: handle malformed messages found when a full
 message queue drains

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 81d8a77..9080a41 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From d91aedb8216ab7f07db007c1b2ff4adc4db44328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:11 +0000
Subject: [PATCH 30/66] fix: do not stall a connection whose receive buffer
 gets full

---
 include/salticidae/crypto.h  |  3 +++
 include/salticidae/network.h | 20 +++++++++++++++++---
 src/conn.cpp                 | 20 +++++---------------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 4502912..978a25f 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -414,6 +414,9 @@ class TLS {
         return SSL_read(ssl, buff, size);
     }
 
+    /** Number of decrypted bytes available without reading the socket. */
+    inline int pending() const { return SSL_pending(ssl); }
+
     int get_error(int ret) {
         return SSL_get_error(ssl, ret);
     }
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9080a41..b6ede40 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -654,9 +654,22 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
 template<typename OpcodeType>
 void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
     auto conn = static_pointer_cast<Conn>(_conn);
-    if (conn->msg_sleep) return;
-    ConnPool::on_read(_conn);
     auto &recv_buffer = conn->recv_buffer;
+    auto pause_recv = [&conn, &recv_buffer]() {
+        if (conn->ready_recv ||
+            recv_buffer.len() < conn->max_recv_buff_size) return;
+        /* recv_buffer is full and cannot be consumed for now, temporarily
+         * mask the READ event */
+        conn->ev_socket.del();
+        conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
+        conn->ready_recv = true;
+    };
+    if (conn->msg_sleep)
+    {
+        pause_recv();
+        return;
+    }
+    ConnPool::on_read(_conn);
     auto &msg = conn->msg;
     auto &msg_state = conn->msg_state;
     while (true)
@@ -693,11 +706,12 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             {
                 conn->msg_sleep = true;
                 conn->ev_enqueue_poll.add(0);
+                pause_recv();
                 return;
             }
         }
     }
-    if (conn->ready_recv && recv_buffer.len() < conn->max_recv_buff_size)
+    if (conn->ready_recv)
     {
         /* resume reading from socket */
         conn->ev_socket.del();
diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..738f55f 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -114,14 +114,6 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     ssize_t ret = recv_chunk_size;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
-        {
-            /* recv_buffer is full, temporarily mask the READ event */
-            conn->ev_socket.del();
-            conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-            conn->ready_recv = true;
-            return;
-        }
         bytearray_t buff_seg;
         buff_seg.resize(recv_chunk_size);
         ret = recv(fd, buff_seg.data(), recv_chunk_size, 0);
@@ -142,6 +134,8 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
         }
         buff_seg.resize(ret);
         conn->recv_buffer.push(std::move(buff_seg));
+        /* recv_buffer is full, let on_read() consume it first */
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size) break;
     }
     /* wait for the next read callback */
     conn->ready_recv = false;
@@ -203,13 +197,6 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
-        {
-            conn->ev_socket.del();
-            conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-            conn->ready_recv = true;
-            return;
-        }
         bytearray_t buff_seg;
         buff_seg.resize(recv_chunk_size);
         ret = tls->recv(buff_seg.data(), recv_chunk_size);
@@ -228,6 +215,9 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
         }
         buff_seg.resize(ret);
         conn->recv_buffer.push(std::move(buff_seg));
+        /* there is no socket event for the data already buffered by TLS */
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size &&
+            !tls->pending()) break;
     }
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
-- 
2.43.0


From b235738c2101f51df04dbef823df2569c683f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 31/66] fix: hand over the data received right before the
 remote closes

---
 src/conn.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 738f55f..69e9536 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -112,6 +112,7 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     }
     const size_t recv_chunk_size = conn->recv_chunk_size;
     ssize_t ret = recv_chunk_size;
+    bool closed = false;
     while (ret == (ssize_t)recv_chunk_size)
     {
         bytearray_t buff_seg;
@@ -123,14 +124,14 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
             if (errno == EWOULDBLOCK) break;
             SALTICIDAE_LOG_INFO("recv(%d) failure: %s", fd, strerror(errno));
             /* connection err or half-opened connection */
-            conn->cpool->worker_terminate(conn);
-            return;
+            closed = true;
+            break;
         }
         if (ret == 0)
         {
             /* the remote closes the connection */
-            conn->cpool->worker_terminate(conn);
-            return;
+            closed = true;
+            break;
         }
         buff_seg.resize(ret);
         conn->recv_buffer.push(std::move(buff_seg));
@@ -140,6 +141,7 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     /* wait for the next read callback */
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
+    if (closed) conn->cpool->worker_terminate(conn);
 }
 
 
@@ -194,6 +196,7 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     }
     const size_t recv_chunk_size = conn->recv_chunk_size;
     ssize_t ret = recv_chunk_size;
+    bool closed = false;
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
@@ -205,13 +208,13 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
         {
             if (tls->get_error(ret) == SSL_ERROR_WANT_READ) break;
             SALTICIDAE_LOG_INFO("recv(%d) failure: %s", fd, strerror(errno));
-            conn->cpool->worker_terminate(conn);
-            return;
+            closed = true;
+            break;
         }
         if (ret == 0)
         {
-            conn->cpool->worker_terminate(conn);
-            return;
+            closed = true;
+            break;
         }
         buff_seg.resize(ret);
         conn->recv_buffer.push(std::move(buff_seg));
@@ -221,6 +224,7 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     }
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
+    if (closed) conn->cpool->worker_terminate(conn);
 }
 
 void ConnPool::Conn::_send_data_tls_handshake(const conn_t &conn, int fd, int events) {
-- 
2.43.0


From 8ad5216fa8bed6ae5a94e213eab2571d4864c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 32/66] fix: let the worker tear down a connection that got one
 meanwhile

---
 src/conn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 69e9536..e86e88d 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -285,6 +285,12 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            {
+                /* it was handed over to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0


From 255ffb23eb8a099e0f1ec289319cc4829229cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:01 +0000
Subject: [PATCH 33/66] fix: allow retrying a blocked TLS write from another
 buffer

---
 include/salticidae/crypto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 978a25f..51c85d2 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -378,7 +378,8 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                            SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From 1c932ae2a1bd74fa7aa342ebc2259da9ac639fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:27 +0000
Subject: [PATCH 34/66] fix: do not let a stale TLS error break other
 connections

---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 51c85d2..ae11b82 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -31,6 +31,7 @@
 #ifdef __cplusplus
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
+#include <openssl/err.h>
 #include <openssl/bn.h>
 
 namespace salticidae {
@@ -388,6 +389,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -408,10 +410,12 @@ class TLS {
     }
 
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From 6c065fc709e4a06e4ec28ba464f52ba602bf2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:55 +0000
Subject: [PATCH 35/66] fix: do not raise SIGPIPE in the thread that stops a
 network

---
 include/salticidae/conn.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..4038c5d 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -30,6 +30,7 @@
 #include <cstdint>
 #include <arpa/inet.h>
 #include <unistd.h>
+#include <signal.h>
 
 #include <string>
 #include <unordered_map>
@@ -568,6 +569,13 @@ class ConnPool {
         /* join all worker threads */
         for (size_t i = 1; i < nworker; i++)
             workers[i].get_handle().join();
+        /* closing TLS connections may raise SIGPIPE, which is blocked in the
+         * worker threads, but not necessarily in this one */
+        sigset_t mask, old_mask, pending;
+        sigemptyset(&mask);
+        sigaddset(&mask, SIGPIPE);
+        sigpending(&pending);
+        pthread_sigmask(SIG_BLOCK, &mask, &old_mask);
         for (auto it: pool)
         {
             auto &conn = it.second;
@@ -576,6 +584,13 @@ class ConnPool {
             conn->set_terminated();
             release_conn(conn);
         }
+        if (!sigismember(&pending, SIGPIPE))
+        {
+            int sig;
+            sigpending(&pending);
+            if (sigismember(&pending, SIGPIPE)) sigwait(&mask, &sig);
+        }
+        pthread_sigmask(SIG_SETMASK, &old_mask, nullptr);
     }
 
     void stop() {
-- 
2.43.0


From b015cdecfb8ce0d20b51a4bb7d56a23f21dd14ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 36/66] fix: read has_peer() and get_npending() results with
 their own types

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b6ede40..b754d94 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1316,13 +1316,13 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
     return *(static_cast<bool *>(this->disp_tcall->call(
                 [this, pid](ThreadCall::Handle &h) {
         pinfo_slock_t _g(known_peers_lock);
-        h.set_result(known_peers.count(pid));
+        h.set_result(known_peers.count(pid) > 0);
     }).get()));
 }
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From 881ef4abd506d24ce783a472858ca2cba8e8cccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 37/66] fix: initialize the nonce of heartbeat messages

---
 include/salticidae/network.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b754d94..73f6aed 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -411,11 +411,12 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
         DataStream serialized;
         NetAddr claimed_addr;
         uint32_t nonce;
-        MsgPing() { serialized << (uint8_t)false; }
-        MsgPing(const NetAddr &_claimed_addr, uint32_t _nonce) {
+        MsgPing(): nonce(0) { serialized << (uint8_t)false; }
+        MsgPing(const NetAddr &_claimed_addr, uint32_t _nonce):
+                nonce(_nonce) {
             serialized << (uint8_t)true << _claimed_addr << htole(_nonce);
         }
-        MsgPing(DataStream &&s) {
+        MsgPing(DataStream &&s): nonce(0) {
             uint8_t flag;
             s >> flag;
             if (flag)
-- 
2.43.0


From ec0c19e13b47a6359dce62686d926421f3a75026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 38/66] fix: do not count the messages that were not accepted
 for sending

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 73f6aed..e880221 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -753,11 +753,12 @@ inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn
     SALTICIDAE_LOG_DEBUG("wrote message %s to %s",
                 std::string(msg).c_str(),
                 std::string(*conn).c_str());
+    if (!conn->write(std::move(msg_data))) return false;
 #ifdef SALTICIDAE_MSG_STAT
     conn->nsent++;
     conn->nsentb += msg.get_length();
 #endif
-    return conn->write(std::move(msg_data));
+    return true;
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From 3ed066c149a8f6495910a630adc269591c372724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 39/66] fix: replace the connection of a peer under the
 exclusive lock

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e880221..45382fe 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1022,7 +1022,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1104,7 +1104,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From 496fab400e114a4d89a98fa7788375d5b969c7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:26 +0000
Subject: [PATCH 40/66] fix: do not resume a half-sent message on another
 connection

---
 include/salticidae/conn.h    | 4 +++-
 include/salticidae/network.h | 9 ++++++++-
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 4038c5d..b5049c5 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -93,6 +93,8 @@ class ConnPool {
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
+        /** the first segment of send_buffer has been partially sent */
+        bool partial_sent;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -117,7 +119,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), ready_recv(false), partial_sent(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 45382fe..2c97b77 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -952,7 +952,14 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
-            new_conn->write(std::move(buff_seg));
+            if (old_conn->partial_sent)
+            {
+                /* the tail of a message makes no sense on its own */
+                old_conn->partial_sent = false;
+                continue;
+            }
+            /* these messages were already accepted */
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
diff --git a/src/conn.cpp b/src/conn.cpp
index e86e88d..d182304 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partial_sent = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_sent = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -175,13 +179,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->partial_sent = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_sent = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From e1699c681ace5d1ed5786064b2a2b83ced1ee752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 41/66] fix: do not abort when a remote connects from the
 address it listens to

---
 include/salticidae/network.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 2c97b77..eb33f56 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1006,7 +1006,6 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     if (p->outbound_conn)
         this->disp_terminate(p->outbound_conn);
     p->outbound_conn = conn;
-    assert(pending_peers.count(conn->get_addr()) == 0);
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From cdb9061c0d768a4142c456797c691ba6acf6bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 42/66] fix: detach and close the connection attempts that are
 given up

---
 include/salticidae/network.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index eb33f56..7972700 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1004,7 +1004,10 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
 }
 
@@ -1134,7 +1137,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
@@ -1229,8 +1232,18 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->inbound_conn)
+            {
+                this->disp_terminate(p->inbound_conn);
+                p->inbound_conn = nullptr;
+            }
+            p->inbound_preempt_ping = nullptr;
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From 3cb090e4ef3e89741e4c7b3d34e0c5f828ce5f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 43/66] fix: do not abort when the address of a peer changes
 while connecting

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 7972700..31ff61e 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1125,7 +1125,12 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
+                    if (p->addr.is_null() || p->addr != conn->get_addr())
+                    {
+                        /* the address has been changed meanwhile */
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
-- 
2.43.0


From 5b2ac24a1dc8ccb982f9d8ba67c2af839d952be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 44/66] fix: notice the loss of a channel that was set up
 manually

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 31ff61e..ebd363a 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -965,6 +965,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     }
     old_conn = new_conn;
     new_conn->peer = p;
+    /* it is the connection of the peer from now on */
+    new_conn->manual = false;
     this->user_tcall->async_call([this, conn=p->conn](ThreadCall::Handle &) {
         if (peer_cb) peer_cb(conn, true);
     });
-- 
2.43.0


From 10989243f341072b053ce55b050d92ba5beb4b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 45/66] fix: make as many connection attempts as requested

---
 include/salticidae/network.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index ebd363a..d5eea96 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -853,6 +853,8 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
      * 1. p2p is connected
      * 2. p2p is disconnected, but it is trying to do an active connection by
      * start_active_conn() */
+    bool lost = p->state == Peer::State::CONNECTED;
+    bool reset = p->state == Peer::State::RESET;
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
@@ -888,13 +890,12 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
+    if (lost && p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
         p->ev_retry_timer.add(
-            p->state == Peer::State::RESET ?
-            0 : gen_rand_timeout(p->retry_delay));
+            reset ? 0 : gen_rand_timeout(p->retry_delay));
     }
     else
         p->nonce = passive_nonce;
@@ -1252,12 +1253,14 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                 p->outbound_conn = nullptr;
             }
             p->ev_ping_timer.del();
-            p->nonce = 0;
+            p->nonce = ntry ? 0 : passive_nonce;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    if (p->cur_ntry > 0) p->cur_ntry--;
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From d1667e82bc80be4c2e1f99bd0c6ae54a8308a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:10 +0000
Subject: [PATCH 46/66] fix: keep retrying when the connection that replaces a
 channel fails

---
 include/salticidae/network.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index d5eea96..3c56116 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -883,6 +883,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             delete iping;
         });
         p->inbound_conn = nullptr;
+        /* retry if the inbound connection does not make it */
+        if (p->cur_ntry)
+            p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
     }
     this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {
-- 
2.43.0


From d43f8f4170d9fcc7e8bb7b9f906198a97b18cedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 47/66] fix: ignore heartbeats on a connection before its
 handshake

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 3c56116..2884fab 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -469,6 +469,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
             retry_delay(0), ntry(0), cur_ntry(0),
             ev_ping_timer(
                 TimerEvent(pn->disp_ec, std::bind(&Peer::ping_timer, this, _1))),
+            ping_timer_ok(false), pong_msg_ok(false),
             ping_period(pn->ping_period),
             inbound_preempt_ping(nullptr),
             state(DISCONNECTED) {}
@@ -1177,7 +1178,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                if (!p || p->conn != conn) /* no handshake yet */
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From ce085da98287c996688b2f1af35ebdf89a91e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 48/66] fix: protect the address table of a client network with
 a lock

---
 include/salticidae/network.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 2884fab..c2c91eb 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -283,7 +283,9 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     using Msg = typename MsgNet::Msg;
 
     private:
+    /* updated by the dispatcher, used by any thread that sends */
     std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    std::mutex addr2conn_lock;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1425,6 +1427,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
@@ -1433,7 +1436,9 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
+    cn->addr2conn.erase(conn->get_addr());
 }
 
 template<typename OpcodeType>
@@ -1462,10 +1467,15 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
-    auto it = addr2conn.find(addr);
-    if (it == addr2conn.end())
-        throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-    return MsgNet::_send_msg(msg, it->second);
+    typename MsgNet::conn_t conn;
+    {
+        std::lock_guard<std::mutex> _g(addr2conn_lock);
+        auto it = addr2conn.find(addr);
+        if (it == addr2conn.end())
+            throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
+        conn = it->second;
+    }
+    return MsgNet::_send_msg(msg, conn);
 }
 
 template<typename O, O OPCODE_PING, O _>
-- 
2.43.0


From dc6ae733db04d0b876fa3ee313df868044d5ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 49/66] fix: keep the new client when the old one at its
 address goes

---
 include/salticidae/network.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index c2c91eb..76f4035 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1438,7 +1438,10 @@ void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_
     auto conn = static_pointer_cast<Conn>(_conn);
     auto cn = conn->get_net();
     std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
-    cn->addr2conn.erase(conn->get_addr());
+    auto it = cn->addr2conn.find(conn->get_addr());
+    /* the address may have been taken over by a newer connection */
+    if (it != cn->addr2conn.end() && it->second == conn)
+        cn->addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From 54ed6b7f34db86402ea3ca06b1bef9665d768b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 50/66] fix: stop a client network before its members are
 destroyed

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 76f4035..928b0bf 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -309,6 +309,8 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     ClientNetwork(const EventContext &ec, const Config &config):
         MsgNet(ec, config) {}
 
+    virtual ~ClientNetwork() { this->stop(); }
+
     using MsgNet::send_msg;
     template<typename MsgType>
     inline bool send_msg(const MsgType &msg, const NetAddr &addr);
-- 
2.43.0


From 7306fba9d058c59e431538ecd7c0789096c3f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 51/66] fix: do not abort when a client network connects
 actively

---
 include/salticidae/network.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 928b0bf..b51d525 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1426,7 +1426,6 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_setup(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
     std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
-- 
2.43.0


From d74429d8ea2d368c9d17c332ca43fc0d4677907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:26 +0000
Subject: [PATCH 52/66] fix: report a deferred send to a client that was not
 accepted

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b51d525..29b45c5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1457,7 +1457,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From c52012b9707a0bae5ef5ca14fa4faa4fecffc0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:56 +0000
Subject: [PATCH 53/66] fix: report in the C interface a message that was not
 accepted

---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From 6f219cc1abe85efcb882b4f9f08eb97c45824b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:06 +0000
Subject: [PATCH 54/66] fix: take the CA check flag by value

---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index b5049c5..abee1f8 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -475,7 +475,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From 4ae18c752ee3065d742f3f6b831768c9bedc5c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:12 +0000
Subject: [PATCH 55/66] fix: resolve host names without the shared buffer of
 gethostbyname()

---
 include/salticidae/netaddr.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index e624e41..373028f 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -34,6 +34,8 @@
 #include <cstdint>
 #include <arpa/inet.h>
 #include <netdb.h>
+#include <sys/types.h>
+#include <sys/socket.h>
 
 namespace salticidae {
 
@@ -51,10 +53,15 @@ struct NetAddr {
     }
     
     void set_by_ip_port(const std::string &_addr, uint16_t _port) {
-        struct hostent *h;
-        if ((h = gethostbyname(_addr.c_str())) == nullptr)
+        /* unlike gethostbyname(), it can be used by several threads */
+        struct addrinfo hints, *res;
+        memset(&hints, 0, sizeof(hints));
+        hints.ai_family = AF_INET;
+        hints.ai_socktype = SOCK_STREAM;
+        if (getaddrinfo(_addr.c_str(), nullptr, &hints, &res))
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID, errno);
-        memmove(&ip, h->h_addr_list[0], sizeof(in_addr_t));
+        ip = ((struct sockaddr_in *)res->ai_addr)->sin_addr.s_addr;
+        freeaddrinfo(res);
         port = htons(_port);
     }
     
-- 
2.43.0


From 55056798ae5e9bff220050dbc37461b0bcb27a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 56/66] fix: do not let one connection become the channel of
 two peers

A remote could send a second handshake that claims another known address
over an established connection; the connection then belonged to two peers
and a later handshake hit an assertion.
---
 include/salticidae/network.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 29b45c5..b7a96dc 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1058,6 +1058,15 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                     }
                     if (!msg.nonce) return; // ignore manual connection
                     auto &p = pit->second;
+                    if (conn->peer && conn->peer != p.get())
+                    {
+                        /* the connection already belongs to another peer */
+                        SALTICIDAE_LOG_WARN("%s%s%s: unexpected change of identity from %s",
+                            tty_secondary_color, id_hex.c_str(), tty_reset_color,
+                            std::string(*conn).c_str());
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state == Peer::State::CONNECTED)
                     {
                         // defer the handling of the inbound connection
@@ -1095,6 +1104,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminates one side (%04x >= %04x)",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             msg.nonce, p->get_nonce());
+                        old_conn = nullptr;
                         this->disp_terminate(conn);
                     }
                 }
-- 
2.43.0


From 9e7726e56bdc4a1d2d32ca076ddbb091134a37a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:43 +0000
Subject: [PATCH 57/66] fix: do not abort when a peer address is unset with
 retries pending

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b7a96dc..78a4b6c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1010,7 +1010,8 @@ void PeerNetwork<O, _, __>::replace_pending_conn(const conn_t &conn) {
 
 template<typename O, O _, O __>
 void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
-    assert(!p->addr.is_null());
+    /* the address may be unset while retries are pending */
+    if (p->addr.is_null()) return;
     auto conn = static_pointer_cast<Conn>(MsgNet::_connect(p->addr));
     conn->peer = p;
     conn->manual = false;
-- 
2.43.0


From 109373355e841a6cc6850ff088c88d8573a65e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 58/66] fix: report a failed uint256_unserialize() instead of
 throwing into C

---
 include/salticidae/stream.h | 2 +-
 src/stream.cpp              | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 6b8865d..65a78f4 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -518,7 +518,7 @@ void uint256_free(const uint256_t *self);
 bool uint256_is_null(const uint256_t *self);
 bool uint256_is_eq(const uint256_t *a, const uint256_t *b);
 void uint256_serialize(const uint256_t *self, datastream_t *s);
-void uint256_unserialize(uint256_t *self, datastream_t *s);
+bool uint256_unserialize(uint256_t *self, datastream_t *s);
 
 datastream_t *datastream_new();
 datastream_t *datastream_new_from_bytes(const uint8_t *base, size_t size);
diff --git a/src/stream.cpp b/src/stream.cpp
index 6c65681..89be28b 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -32,8 +32,11 @@ void uint256_serialize(const uint256_t *self, datastream_t *s) {
     self->serialize(*s);
 }
 
-void uint256_unserialize(uint256_t *self, datastream_t *s) {
-    self->unserialize(*s);
+bool uint256_unserialize(uint256_t *self, datastream_t *s) {
+    try {
+        self->unserialize(*s);
+    } catch (...) { return false; }
+    return true;
 }
 
 datastream_t *datastream_new() {
-- 
2.43.0


From 1a1be26713c6934e10bb933e71dadb204da465a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 59/66] fix: return null when the payload of a message was
 already consumed

---
 src/msg.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index 7ad0629..d4cc018 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -11,7 +11,9 @@ msg_t *msg_new_moved_from_bytearray(_opcode_t opcode, bytearray_t *_moved_payloa
 void msg_free(msg_t *msg) { delete msg; }
 
 datastream_t *msg_consume_payload(const msg_t *msg) {
-    return new datastream_t(msg->get_payload());
+    try {
+        return new datastream_t(msg->get_payload());
+    } catch (...) { return nullptr; }
 }
 
 _opcode_t msg_get_opcode(const msg_t *self) { return self->get_opcode(); }
-- 
2.43.0


From eb9b7e5118d9078318932391129729bdf9eabb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 60/66] fix: return null when a key or certificate cannot be
 encoded

---
 src/crypto.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index eb49ea4..a241adc 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,11 +27,15 @@ x509_t *x509_new_from_der(const bytearray_t *der, SalticidaeCError *cerror) {
 void x509_free(const x509_t *self) { delete self; }
 
 pkey_t *x509_get_pubkey(const x509_t *self) {
-    return new pkey_t(self->get_pubkey());
+    try {
+        return new pkey_t(self->get_pubkey());
+    } catch (...) { return nullptr; }
 }
 
 bytearray_t *x509_get_der(const x509_t *self) {
-    return new bytearray_t(self->get_der());
+    try {
+        return new bytearray_t(self->get_der());
+    } catch (...) { return nullptr; }
 }
 
 pkey_t *pkey_new_privkey_from_pem_file(const char *pem_fname, const char *passwd, SalticidaeCError *cerror) {
@@ -55,11 +59,15 @@ pkey_t *pkey_new_privkey_from_der(const bytearray_t *der, SalticidaeCError *cerr
 void pkey_free(const pkey_t *self) { delete self; }
 
 bytearray_t *pkey_get_pubkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_pubkey_der());
+    try {
+        return new bytearray_t(self->get_pubkey_der());
+    } catch (...) { return nullptr; }
 }
 
 bytearray_t *pkey_get_privkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_privkey_der());
+    try {
+        return new bytearray_t(self->get_privkey_der());
+    } catch (...) { return nullptr; }
 }
 
 }
-- 
2.43.0


From 4b3ef8594d5e2920e29e52f5cfad0b64f6fb7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:47 +0000
Subject: [PATCH 61/66] fix: report a signal that cannot be caught instead of
 throwing into C

---
 include/salticidae/event.h | 2 +-
 src/event.cpp              | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/event.h b/include/salticidae/event.h
index 499977d..5d62c76 100644
--- a/include/salticidae/event.h
+++ b/include/salticidae/event.h
@@ -854,7 +854,7 @@ const eventcontext_t *threadcall_get_ec(const threadcall_t *self);
 typedef void (*sigev_callback_t)(int signum, void *);
 sigev_t *sigev_new(const eventcontext_t *ec, sigev_callback_t cb, void *userdata);
 void sigev_free(sigev_t *self);
-void sigev_add(sigev_t *self, int signum);
+bool sigev_add(sigev_t *self, int signum);
 void sigev_del(sigev_t *self);
 void sigev_clear(sigev_t *self);
 const eventcontext_t *sigev_get_ec(const sigev_t *self);
diff --git a/src/event.cpp b/src/event.cpp
index 16a3c41..ada533d 100644
--- a/src/event.cpp
+++ b/src/event.cpp
@@ -38,7 +38,12 @@ const eventcontext_t *threadcall_get_ec(const threadcall_t *self) {
 
 void sigev_free(sigev_t *self) { delete self; }
 
-void sigev_add(sigev_t *self, int signum) { self->add(signum); }
+bool sigev_add(sigev_t *self, int signum) {
+    try {
+        self->add(signum);
+    } catch (...) { return false; }
+    return true;
+}
 
 void sigev_del(sigev_t *self) { self->del(); }
 
-- 
2.43.0


From 69097829172673cf035792334acc8fbfc30f022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 62/66] fix: synchronize with the last user of a recycled queue
 block

---
 include/salticidae/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index e5001e0..bd98937 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -70,7 +70,7 @@ class FreeList {
                  * only changed when pushed) even when ABA happens */
                 auto v = u;
                 auto nv = u->next.load(std::memory_order_relaxed);
-                if (top.compare_exchange_weak(v, nv, std::memory_order_relaxed))
+                if (top.compare_exchange_weak(v, nv, std::memory_order_acquire))
                 {
                     /* manage to pop the head */
                     r = u;
@@ -116,7 +116,7 @@ class MPMCQueue {
             if (!tcnt) continue;
             if (!t->refcnt.compare_exchange_weak(tcnt, tcnt + 1, std::memory_order_relaxed))
                 continue;
-            if (t->freed.load(std::memory_order_relaxed))
+            if (t->freed.load(std::memory_order_acquire))
             {
                 blks.release_ref(t);
                 continue;
-- 
2.43.0


From 6a1ed56e5cbe5efe191e995131df4cb27b2ea5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:08 +0000
Subject: [PATCH 63/66] fix: do not let incoming data hold up the output

---
 src/conn.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index d182304..c100446 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -146,6 +146,8 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
     if (closed) conn->cpool->worker_terminate(conn);
+    /* a remote that keeps sending must not hold up the output */
+    else if (events & FdEvent::WRITE) _send_data(conn, fd, events);
 }
 
 
@@ -233,6 +235,8 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
     if (closed) conn->cpool->worker_terminate(conn);
+    /* a remote that keeps sending must not hold up the output */
+    else if (events & FdEvent::WRITE) _send_data_tls(conn, fd, events);
 }
 
 void ConnPool::Conn::_send_data_tls_handshake(const conn_t &conn, int fd, int events) {
-- 
2.43.0


From 9293e38d37754ec8d60af851b279a0f8ffadbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:31 +0000
Subject: [PATCH 64/66] fix: wait for TLS to answer the remote instead of
 closing the connection

---
 include/salticidae/conn.h |  3 +++
 src/conn.cpp              | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index abee1f8..ab58829 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -95,6 +95,8 @@ class ConnPool {
         bool ready_recv;
         /** the first segment of send_buffer has been partially sent */
         bool partial_sent;
+        /** TLS cannot go on reading until the socket is writable */
+        bool recv_want_write;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -120,6 +122,7 @@ class ConnPool {
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
             ready_send(false), ready_recv(false), partial_sent(false),
+            recv_want_write(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/src/conn.cpp b/src/conn.cpp
index c100446..87ed83c 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -157,6 +157,14 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
         conn->cpool->worker_terminate(conn);
         return;
     }
+    if (conn->recv_want_write)
+    {
+        /* go on reading */
+        conn->recv_want_write = false;
+        conn->ev_socket.del();
+        conn->ev_socket.add((conn->ready_recv ? 0 : FdEvent::READ) |
+                            FdEvent::WRITE);
+    }
     ssize_t ret = conn->recv_chunk_size;
     auto &tls = conn->tls;
     for (;;)
@@ -216,7 +224,18 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
         SALTICIDAE_LOG_DEBUG("ssl(%d) read %zd bytes", fd, ret);
         if (ret < 0)
         {
-            if (tls->get_error(ret) == SSL_ERROR_WANT_READ) break;
+            auto err = tls->get_error(ret);
+            if (err == SSL_ERROR_WANT_READ) break;
+            if (err == SSL_ERROR_WANT_WRITE)
+            {
+                /* TLS has to answer the remote before it reads on, try again
+                 * when the socket is writable */
+                conn->recv_want_write = true;
+                conn->ready_send = false;
+                conn->ev_socket.del();
+                conn->ev_socket.add(FdEvent::WRITE);
+                break;
+            }
             SALTICIDAE_LOG_INFO("recv(%d) failure: %s", fd, strerror(errno));
             closed = true;
             break;
-- 
2.43.0


From 5cd5156cc11005320ae903866506c83a17f25a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 65/66] fix: keep exceptions of a stopped network within the C
 API

---
 src/network.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index f888ff9..0a6a243 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -249,7 +249,11 @@ int32_t peernetwork_conn_peer(peernetwork_t *self, const peerid_t *peer, int32_t
 }
 
 bool peernetwork_has_peer(const peernetwork_t *self, const peerid_t *peer) {
-    return self->has_peer(*peer);
+    try {
+        return self->has_peer(*peer);
+    } catch (...) {
+        return false;
+    }
 }
 
 const peernetwork_conn_t *peernetwork_get_peer_conn(const peernetwork_t *self,
@@ -284,11 +288,19 @@ peernetwork_conn_t *peernetwork_conn_copy(const peernetwork_conn_t *self) {
 }
 
 netaddr_t *peernetwork_conn_get_peer_addr(const peernetwork_conn_t *self) {
-    return new netaddr_t((*self)->get_peer_addr());
+    try {
+        return new netaddr_t((*self)->get_peer_addr());
+    } catch (...) {
+        return nullptr; /* the network is no longer running */
+    }
 }
 
 peerid_t *peernetwork_conn_get_peer_id(const peernetwork_conn_t *self) {
-    return new peerid_t((*self)->get_peer_id());
+    try {
+        return new peerid_t((*self)->get_peer_id());
+    } catch (...) {
+        return nullptr; /* the network is no longer running */
+    }
 }
 
 void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
-- 
2.43.0


From 7e6ff977480d7b675b6e1ce15e2bf40ab9d81a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 66/66] fix: a TLS message received in part must not end the
 connection when sending

---
 include/salticidae/conn.h |  4 +++-
 src/conn.cpp              | 29 ++++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index ab58829..1596df9 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -97,6 +97,8 @@ class ConnPool {
         bool partial_sent;
         /** TLS cannot go on reading until the socket is writable */
         bool recv_want_write;
+        /** TLS cannot go on sending until more has been read */
+        bool send_want_read;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -122,7 +124,7 @@ class ConnPool {
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
             ready_send(false), ready_recv(false), partial_sent(false),
-            recv_want_write(false),
+            recv_want_write(false), send_want_read(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/src/conn.cpp b/src/conn.cpp
index 87ed83c..bdecb1f 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -181,7 +181,18 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
             {
                 /* rewind the whole buff_seg */
                 conn->send_buffer.rewind(std::move(buff_seg));
-                if (ret < 0 && tls->get_error(ret) != SSL_ERROR_WANT_WRITE)
+                auto err = ret < 0 ? tls->get_error(ret) : SSL_ERROR_NONE;
+                if (err == SSL_ERROR_WANT_READ)
+                {
+                    /* a message of TLS itself has been received partly, try
+                     * again when the rest has arrived */
+                    conn->send_want_read = true;
+                    conn->ready_send = false;
+                    conn->ev_socket.del();
+                    conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
+                    return;
+                }
+                if (ret < 0 && err != SSL_ERROR_WANT_WRITE)
                 {
                     SALTICIDAE_LOG_INFO("send(%d) failure: %s", fd, strerror(errno));
                     conn->cpool->worker_terminate(conn);
@@ -253,9 +264,21 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     }
     conn->ready_recv = false;
     conn->cpool->on_read(conn);
-    if (closed) conn->cpool->worker_terminate(conn);
+    if (closed)
+    {
+        conn->cpool->worker_terminate(conn);
+        return;
+    }
+    if (conn->send_want_read)
+    {
+        /* go on sending */
+        conn->send_want_read = false;
+        conn->ev_socket.del();
+        conn->ev_socket.add((conn->ready_recv ? 0 : FdEvent::READ) |
+                            FdEvent::WRITE);
+    }
     /* a remote that keeps sending must not hold up the output */
-    else if (events & FdEvent::WRITE) _send_data_tls(conn, fd, events);
+    if (events & FdEvent::WRITE) _send_data_tls(conn, fd, events);
 }
 
 void ConnPool::Conn::_send_data_tls_handshake(const conn_t &conn, int fd, int events) {
-- 
2.43.0

