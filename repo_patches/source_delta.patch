From ae9cbe7f50e4e116f79e8850bbb5ff7ffe194567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 01/48] fix: get_data_inplace must reject oversized lengths
 without consuming anything

---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..ef9da1d 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > size())
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)&*(buffer.begin() + offset);
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From 96079b139f2e7a0995069143ce60d8037f764e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 02/48] fix: a moved-from DataStream must not keep its old read
 offset

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index ef9da1d..28f57c7 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -50,7 +50,9 @@ class DataStream {
 
     DataStream(DataStream &&other):
             buffer(std::move(other.buffer)),
-            offset(other.offset) {}
+            offset(other.offset) {
+        other.clear();
+    }
 
     DataStream(const DataStream &other):
         buffer(other.buffer),
-- 
2.43.0


From fcd3e021aaab2538c497a2766b7bf920fb4b0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:55 +0000
Subject: [PATCH 03/48] fix: converting a DataStream rvalue to bytes must
 honour the read offset

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 28f57c7..a6dfb28 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -190,7 +190,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        buffer.erase(buffer.begin(), buffer.begin() + offset);
+        offset = 0;
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From fe54d7f0a6bdca9e65f5a448d74a28d7db675ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 04/48] fix: load_hex must reject text containing non-hex
 characters

---
 include/salticidae/stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index a6dfb28..f8ac2c0 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -26,6 +26,7 @@
 #define _SALTICIDAE_STREAM_H
 
 #ifdef __cplusplus
+#include <cctype>
 #include "salticidae/type.h"
 #include "salticidae/ref.h"
 #include "salticidae/crypto.h"
@@ -179,7 +180,9 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((unsigned char)p[0]) ||
+                !isxdigit((unsigned char)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


From 40e5b7ae5aa68e808fa9b3e547d5e3aba7f1be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:44 +0000
Subject: [PATCH 05/48] fix: Bits::load must shift in the word type, not in int

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index f8ac2c0..fa48a8c 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -361,7 +361,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From 797f8ff8370c6356b1c26d91166bba7c354872c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:44 +0000
Subject: [PATCH 06/48] fix: default and sized Bits must start initialised

---
 include/salticidae/stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index fa48a8c..63b411c 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -333,7 +333,7 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
@@ -346,7 +346,7 @@ class _Bits {
     _Bits(const uint8_t *arr, uint32_t len) { load(arr, len); }
     _Bits(uint32_t nbits): nbits(nbits) {
         ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
-        data = new _impl_type[ndata];
+        data = new _impl_type[ndata]();
     }
 
     ~_Bits() {}
-- 
2.43.0


From 1a174e881d0558bdcbe1d4ace6771b87ffaebbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:44 +0000
Subject: [PATCH 07/48] fix: Bits word count must not overflow for bit counts
 near 2^32

---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 63b411c..c2f1023 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -345,7 +345,7 @@ class _Bits {
 
     _Bits(const uint8_t *arr, uint32_t len) { load(arr, len); }
     _Bits(uint32_t nbits): nbits(nbits) {
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = nbits / bit_per_datum + (nbits % bit_per_datum != 0);
         data = new _impl_type[ndata]();
     }
 
@@ -353,7 +353,7 @@ class _Bits {
 
     void load(const uint8_t *arr, uint32_t len) {
         nbits = len * 8;
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = nbits / bit_per_datum + (nbits % bit_per_datum != 0);
         data = new _impl_type[ndata];
 
         const uint8_t *end = arr + len;
@@ -387,7 +387,7 @@ class _Bits {
     void unserialize(DataStream &s) {
         s >> nbits;
         nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = nbits / bit_per_datum + (nbits % bit_per_datum != 0);
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From 35b5ff3c26af353f1c91b2887db1767860d408d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:49 +0000
Subject: [PATCH 08/48] fix: parse_hash_list must check the advertised count
 before allocating

---
 include/salticidae/msg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..618cbb2 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -253,6 +253,8 @@ class MsgBase {
         s >> size;
         size = letoh(size);
 
+        if (size > s.size() / ENT_HASH_LENGTH)
+            throw std::ios_base::failure("insufficient buffer");
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
     }
-- 
2.43.0


From 7aa81a0514c35aa377dca4d0b061673da10a6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:03 +0000
Subject: [PATCH 09/48] fix: SegBuffer::move_pop must return only the unread
 part of the first segment

---
 include/salticidae/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..90ac74c 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -84,7 +84,9 @@ class SegBuffer {
     }
 
     bytearray_t move_pop() {
-        auto res = std::move(buffer.front().data);
+        auto &front = buffer.front();
+        auto res = std::move(front.data);
+        res.erase(res.begin(), front.offset);
         buffer.pop_front();
         _size -= res.size();
         return res;
-- 
2.43.0


From c59e4843e4d947bf079a5f0a9f62cd418c85b481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 10/48] fix: casting a BoxObj rvalue must take the object away
 from its source

Both boxes kept the pointer and deleted the object.
---
 include/salticidae/ref.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..b2e555b 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -151,6 +151,7 @@ template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
     box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    other.obj = nullptr;
     return box;
 }
 
-- 
2.43.0


From 9f797e7d4fff36a7301dd7aea2d7cc987d396479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 11/48] fix: a moved-from shared pointer must be null

It still compared non-null and handed out the object it no longer owns.
---
 include/salticidae/ref.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index b2e555b..4fcdeb6 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -309,6 +309,7 @@ class _RcObjBase {
 
     _RcObjBase(_RcObjBase &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -321,6 +322,7 @@ class _RcObjBase {
     template<typename T_, typename D_>
     _RcObjBase(_RcObjBase<T_, R, D_> &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -457,6 +459,7 @@ RcObjBase<T, R_, D> static_pointer_cast(RcObjBase<T_, R_, D_> &&other) {
     RcObjBase<T, R_, D> rc{};
     rc.obj = static_cast<typename RcObjBase<T, R_, D>::type *>(other.obj);
     rc.ctl = other.ctl;
+    other.obj = nullptr;
     other.ctl = nullptr;
     return rc;
 }
-- 
2.43.0


From 88ce96bee2b2f4a86b02b9b1e41eed396c737845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 12/48] fix: indexing a shared array must select the element

The operator did not compile when used.
---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 4fcdeb6..faebff0 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -423,7 +423,7 @@ class RcObjBase<T[], R, D>: public _RcObjBase<T, R, D> {
     friend RcObjBase<T__, R_, D__> static_pointer_cast(RcObjBase<T_, R_, D_> &&other);
 
     public:
-    T &operator[](size_t idx) { return base_t::obj; }
+    T &operator[](size_t idx) { return base_t::obj[idx]; }
     RcObjBase() = default;
     RcObjBase(T obj[]): base_t(obj) {}
     RcObjBase(BoxObj<T[]> &&box_ref): base_t(std::move(box_ref)) {}
-- 
2.43.0


From 500c05c2c2675886dc87b1a2343da2cf01690989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:27 +0000
Subject: [PATCH 13/48] fix: atomic reference counts must not leak or revive
 under concurrency

Two owners (or an owner and a weak pointer) released at the same time could
both see the other one's dcnt increment and leave the control block
unfreed; a weak pointer could be upgraded after the last owner had gone.
---
 include/salticidae/ref.h | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index faebff0..e2d7a0e 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -159,6 +159,11 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        if (!ref_cnt) return false;
+        ref_cnt++;
+        return true;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -179,24 +184,23 @@ struct _RCCtl {
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        size_t cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
+    /* all owners together hold one weak reference */
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
-    void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
-    }
+    void release_weak() { if (!--weak_cnt) delete this; }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
@@ -350,11 +354,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From 0ebd38ae800e510046fcc55f29802116a78fc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:22 +0000
Subject: [PATCH 14/48] fix: destroying a ThreadCall must release its waiting
 synchronous callers

---
 include/salticidae/event.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/event.h b/include/salticidae/event.h
index 412780e..e7d0f6b 100644
--- a/include/salticidae/event.h
+++ b/include/salticidae/event.h
@@ -780,7 +780,17 @@ class ThreadCall {
 
     ~ThreadCall() {
         Handle *h;
-        while (q.try_dequeue(h)) delete h;
+        while (q.try_dequeue(h))
+        {
+            /* do not leave a synchronous caller waiting forever */
+            try {
+                throw SalticidaeError(SALTI_ERROR_NOT_AVAIL);
+            } catch (...) {
+                h->set_result(0).error = std::current_exception();
+                h->return_sync();
+            }
+            delete h;
+        }
     }
 
     template<typename Func>
-- 
2.43.0


From cbcdb0e8f849f9d5a531080631540458823a8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 15/48] fix: NetAddr must reject ports with trailing or leading
 garbage

---
 include/salticidae/netaddr.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..150ecad 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -31,6 +31,7 @@
 #ifdef __cplusplus
 #include <string>
 #include <cstring>
+#include <cctype>
 #include <cstdint>
 #include <arpa/inet.h>
 #include <netdb.h>
@@ -66,7 +67,10 @@ struct NetAddr {
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
         try {
-            port = std::stol(port_str.c_str());
+            size_t idx;
+            port = std::stol(port_str, &idx);
+            if (idx != port_str.length() || !isdigit(port_str[0]))
+                throw std::invalid_argument(port_str);
         } catch (std::logic_error &) {
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         }
-- 
2.43.0


From 0492a361caeac3a3341afbb235c3b5d4ae3e80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 16/48] fix: vstringprintf must not lose the last character of
 long text

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..98bcd7b 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -121,9 +121,9 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     else
     {
         buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
                 buff = "";
         }
     }
-- 
2.43.0


From 8f9d4a7b3b6f8bc31038259dc4627314c87432b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 17/48] fix: numeric options must reject trailing garbage and
 out-of-range values

---
 include/salticidae/util.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..33dc08e 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -317,8 +317,11 @@ class Config {
         void set_val(const std::string &strval) override {
             size_t idx;
             try {
-                val = stoi(strval, &idx);
-            } catch (std::invalid_argument &) {
+                auto newval = stoi(strval, &idx);
+                if (idx != strval.length())
+                    throw std::invalid_argument(strval);
+                val = newval;
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
         }
@@ -337,8 +340,11 @@ class Config {
         void set_val(const std::string &strval) override {
             size_t idx;
             try {
-                val = stod(strval, &idx);
-            } catch (std::invalid_argument &) {
+                auto newval = stod(strval, &idx);
+                if (idx != strval.length())
+                    throw std::invalid_argument(strval);
+                val = newval;
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
         }
-- 
2.43.0


From b85b60649b3dd425fa35c662a2c784e76e9b9e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 18/48] fix: SalticidaeError must initialise its OS error code

---
 include/salticidae/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 33dc08e..3ba4212 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -125,10 +125,10 @@ class SalticidaeError: public std::exception {
     int oscode;
 
     public:
-    SalticidaeError() : code(SALTI_NORMAL) {}
+    SalticidaeError() : code(SALTI_NORMAL), oscode(0) {}
 
     template<typename... Args>
-    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC) {
+    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC), oscode(0) {
         msg = stringprintf(fmt.c_str(), args...);
     }
 
-- 
2.43.0


From 889e3cd7d90562531ad4210a6dd863d342ee91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 19/48] fix: split with an empty delimiter must terminate

---
 src/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 98bcd7b..2b071e2 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -354,7 +354,8 @@ void Config::print_help(FILE *output) {
 std::vector<std::string> split(const std::string &s, const std::string &delim) {
     std::vector<std::string> res;
     size_t lastpos = 0;
-    for (;;)
+    /* an empty delimiter splits nothing */
+    while (!delim.empty())
     {
         size_t pos = s.find(delim, lastpos);
         if (pos == std::string::npos)
-- 
2.43.0


From 71929b57658afdd584f351c5d69f079a00a8442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:51 +0000
Subject: [PATCH 20/48] fix: TLS writes that would block must be retriable from
 another buffer

---
 include/salticidae/crypto.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..b7480cb 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,9 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        /* a write that would block is retried from a different buffer */
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                            SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From bfb3602c6b654de96623736861cb4d91e439f8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:36 +0000
Subject: [PATCH 21/48] fix: a full receive buffer must be passed on before
 reading is suspended

---
 src/conn.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..5f118c6 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -114,6 +114,12 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     ssize_t ret = recv_chunk_size;
     while (ret == (ssize_t)recv_chunk_size)
     {
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        {
+            /* let the upper layer take what has been received so far */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+        }
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
             /* recv_buffer is full, temporarily mask the READ event */
@@ -203,6 +209,12 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
+        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        {
+            /* let the upper layer take what has been received so far */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+        }
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
             conn->ev_socket.del();
-- 
2.43.0


From 9172e7bcddcd85845e0c1dbae0947a245ee7a4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:36 +0000
Subject: [PATCH 22/48] fix: bytes received right before the end of the stream
 must be passed on

---
 src/conn.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 5f118c6..7c976db 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -137,12 +137,16 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
             if (errno == EWOULDBLOCK) break;
             SALTICIDAE_LOG_INFO("recv(%d) failure: %s", fd, strerror(errno));
             /* connection err or half-opened connection */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
         if (ret == 0)
         {
-            /* the remote closes the connection */
+            /* the remote closes the connection, pass on what came before */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
@@ -230,11 +234,15 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
         {
             if (tls->get_error(ret) == SSL_ERROR_WANT_READ) break;
             SALTICIDAE_LOG_INFO("recv(%d) failure: %s", fd, strerror(errno));
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
         if (ret == 0)
         {
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
             conn->cpool->worker_terminate(conn);
             return;
         }
-- 
2.43.0


From 30a59b35f3863342dbb7e2a8efdd9dfb70d21c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 23/48] fix: a message with a bad checksum must not delay the
 messages behind it

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..8056794 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -680,7 +680,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From 9edc78216032434be81555ba2482183a29987a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:33 +0000
Subject: [PATCH 24/48] fix: a framing error found when delivery resumes must
 not escape the event loop

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8056794..036ccb5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From 2a96d7ef1d196e9054fac60dad1f88728478a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:37 +0000
Subject: [PATCH 25/48] fix: Config::msg_magic must return the config

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 036ccb5..9080a41 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -195,6 +195,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From 9fde2205925e690dafcc062843eadd42e69ea47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:22 +0000
Subject: [PATCH 26/48] fix: a message refused by a full send buffer must not
 be counted as sent

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9080a41..fb762d8 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -738,11 +738,12 @@ inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn
     SALTICIDAE_LOG_DEBUG("wrote message %s to %s",
                 std::string(msg).c_str(),
                 std::string(*conn).c_str());
+    if (!conn->write(std::move(msg_data))) return false;
 #ifdef SALTICIDAE_MSG_STAT
     conn->nsent++;
     conn->nsentb += msg.get_length();
 #endif
-    return conn->write(std::move(msg_data));
+    return true;
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From 2208726ac74a761270a861c657bce1c0d1f12055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 27/48] fix: terminating a connection that is just being handed
 to a worker must go through the worker

---
 src/conn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 7c976db..62725e4 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -311,6 +311,12 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            {
+                /* it has been handed to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0


From 247a8a926e98069a0ce2a48c05a000aead5faada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 28/48] fix: a socket whose set-up fails must be closed

---
 src/conn.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 62725e4..c0d1e49 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -339,10 +339,13 @@ void ConnPool::accept_client(int fd, int) {
             int one = 1;
             if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
                 //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
-            if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+                fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
+            {
+                int err = errno;
+                ::close(client_fd);
+                throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
+            }
 
             NetAddr addr((struct sockaddr_in *)&client_addr);
             conn_t conn = create_conn();
@@ -423,10 +426,13 @@ ConnPool::conn_t ConnPool::_connect(const NetAddr &addr) {
         throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
     if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
         //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+        fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
+    {
+        int err = errno;
+        ::close(fd);
+        throw ConnPoolError(SALTI_ERROR_CONNECT, err);
+    }
     conn_t conn = create_conn();
     conn->send_buffer.set_capacity(max_send_buff_size);
     conn->recv_chunk_size = recv_chunk_size;
-- 
2.43.0


From 6d117553693f4e1c4870f2e56c315241659a3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:22 +0000
Subject: [PATCH 29/48] fix: tls_skip_ca_check must take its flag by value

---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..22a98a0 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -472,7 +472,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From f1ca0aea51a35bc7db216e58869f4b7062492b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 30/48] fix: stopping must not tear down a connection a second
 time

---
 include/salticidae/conn.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 22a98a0..698164c 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -571,9 +571,9 @@ class ConnPool {
         for (auto it: pool)
         {
             auto &conn = it.second;
-            on_worker_teardown(conn);
+            if (conn->set_terminated())
+                on_worker_teardown(conn);
             //conn->stop();
-            conn->set_terminated();
             release_conn(conn);
         }
     }
-- 
2.43.0


From cf058d69a1d46fb4a97d26e106acce5429cae40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:56 +0000
Subject: [PATCH 31/48] fix: stopping a network must also close its listening
 socket

---
 include/salticidae/conn.h    | 1 +
 include/salticidae/network.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 698164c..9391d67 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -582,6 +582,7 @@ class ConnPool {
         stop_workers();
         if (listen_fd != -1)
         {
+            ev_listen.clear();
             close(listen_fd);
             listen_fd = -1;
         }
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index fb762d8..ff04968 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -268,7 +268,7 @@ class MsgNetwork: public ConnPool {
     inline int32_t send_msg_deferred(MsgType &&msg, const conn_t &conn);
     inline int32_t _send_msg_deferred(Msg &&msg, const conn_t &conn);
 
-    void stop() { stop_workers(); }
+    void stop() { ConnPool::stop(); }
     using ConnPool::listen;
     conn_t connect_sync(const NetAddr &addr) {
         return static_pointer_cast<Conn>(ConnPool::connect_sync(addr));
-- 
2.43.0


From 5cc69cfeebe7e00ddafaf600a547028d96625398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 32/48] fix: the passive nonce must be greater than every
 dialing nonce

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index ff04968..8490a88 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -364,7 +364,8 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
 
     private:
     struct Peer;
-    static const uint32_t passive_nonce = 0xffff;
+    /* greater than any nonce generated for dialing (1 to 0x10000) */
+    static const uint32_t passive_nonce = 0x10001;
 
     public:
     class Conn: public MsgNet::Conn {
-- 
2.43.0


From 776e1a00f673d747fa298bd488174ba03baef287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 33/48] fix: a parsed heartbeat must not carry an uninitialised
 nonce

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8490a88..c7a6da9 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -416,7 +416,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
         MsgPing(const NetAddr &_claimed_addr, uint32_t _nonce) {
             serialized << (uint8_t)true << _claimed_addr << htole(_nonce);
         }
-        MsgPing(DataStream &&s) {
+        MsgPing(DataStream &&s): nonce(0) {
             uint8_t flag;
             s >> flag;
             if (flag)
-- 
2.43.0


From 12e0a9509c922407a25ca9327bb38bb70829a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 34/48] fix: a pong on a connection that is not the established
 link must be ignored

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index c7a6da9..0678f82 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -469,6 +469,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
             retry_delay(0), ntry(0), cur_ntry(0),
             ev_ping_timer(
                 TimerEvent(pn->disp_ec, std::bind(&Peer::ping_timer, this, _1))),
+            ping_timer_ok(false), pong_msg_ok(false),
             ping_period(pn->ping_period),
             inbound_preempt_ping(nullptr),
             state(DISCONNECTED) {}
@@ -1143,7 +1144,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                if (!p || p->state != Peer::State::CONNECTED || p->conn != conn)
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From 11243e5834252584dcc1efcfbd760bd1b089ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 35/48] fix: an unexpected handshake pong must not abort the
 process

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 0678f82..bcc7d8f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1103,8 +1103,8 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
                     if (p->state != Peer::State::DISCONNECTED ||
+                        p->addr != conn->get_addr() ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
@@ -1115,7 +1115,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
-- 
2.43.0


From 33a6c4179dee01cf3ef48f37dead36c80f39720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:00 +0000
Subject: [PATCH 36/48] fix: an abandoned connection attempt must no longer act
 for its peer

---
 include/salticidae/network.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index bcc7d8f..7a137e5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -984,7 +984,10 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
     assert(pending_peers.count(conn->get_addr()) == 0);
 }
@@ -1210,8 +1213,18 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->inbound_conn)
+            {
+                this->disp_terminate(p->inbound_conn);
+                p->inbound_conn = nullptr;
+            }
+            p->inbound_preempt_ping = nullptr;
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From 171745a939e67684a4277c5f9f8ca1142abdaf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 37/48] fix: a pending connection must be dropped from the
 table only by itself

---
 include/salticidae/network.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 7a137e5..f4ec83c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -826,8 +826,9 @@ template<typename O, O _, O __>
 void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    auto addr = conn->get_addr();
-    pending_peers.erase(addr);
+    auto pend_it = pending_peers.find(conn->get_addr());
+    if (pend_it != pending_peers.end() && pend_it->second == conn)
+        pending_peers.erase(pend_it);
     SALTICIDAE_LOG_INFO("%s%s%s: lost connection %s",
             tty_secondary_color,
             id_hex.c_str(),
@@ -948,7 +949,9 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     this->user_tcall->async_call([this, conn=p->conn](ThreadCall::Handle &) {
         if (peer_cb) peer_cb(conn, true);
     });
-    pending_peers.erase(p->conn->get_addr());
+    auto pend_it = pending_peers.find(p->conn->get_addr());
+    if (pend_it != pending_peers.end() && pend_it->second == p->conn)
+        pending_peers.erase(pend_it);
     SALTICIDAE_LOG_INFO("%sestablished %s%s%s <---> %s%s%s (via %s)%s",
         tty_primary_color,
         tty_secondary_color,
@@ -989,7 +992,6 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
         this->disp_terminate(p->outbound_conn);
     }
     p->outbound_conn = conn;
-    assert(pending_peers.count(conn->get_addr()) == 0);
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From 2077f2fefb7829f1af980d5172ab821bef320c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 38/48] fix: peer queries must return their value in its own
 type

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f4ec83c..16367f3 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1320,13 +1320,13 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
     return *(static_cast<bool *>(this->disp_tcall->call(
                 [this, pid](ThreadCall::Handle &h) {
         pinfo_slock_t _g(known_peers_lock);
-        h.set_result(known_peers.count(pid));
+        h.set_result(known_peers.count(pid) > 0);
     }).get()));
 }
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From 298e139214ee1165a1a32ec9d8a9092ab680aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 39/48] fix: losing a link made by a manual connection must be
 noticed

---
 include/salticidae/network.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 16367f3..6c4970e 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -835,8 +835,7 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             tty_reset_color,
             std::string(*conn).c_str());
     auto p = conn->peer;
-    if (!p || (conn->get_mode() == Conn::ConnMode::ACTIVE && conn->manual))
-        return;
+    if (!p) return;
     /* there are only two possible cases where p != nullptr:
      * 1. p2p is connected
      * 2. p2p is disconnected, but it is trying to do an active connection by
-- 
2.43.0


From f08bdbc6014ec60a53731b77b38dbc3efefde1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 40/48] fix: a peer must be dialed as often as requested

---
 include/salticidae/network.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 6c4970e..662a520 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -840,6 +840,8 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
      * 1. p2p is connected
      * 2. p2p is disconnected, but it is trying to do an active connection by
      * start_active_conn() */
+    bool reset = p->state == Peer::State::RESET;
+    if (p->outbound_conn == conn) p->outbound_conn = nullptr;
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
@@ -875,13 +877,12 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
+    if (!reset && p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
         p->ev_retry_timer.add(
-            p->state == Peer::State::RESET ?
-            0 : gen_rand_timeout(p->retry_delay));
+            reset ? 0 : gen_rand_timeout(p->retry_delay));
     }
     else
         p->nonce = passive_nonce;
@@ -1231,8 +1232,11 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    /* the unfinished attempt is given up */
+                    if (p->outbound_conn && p->cur_ntry > 0) p->cur_ntry--;
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry != 1)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From 1c345e3a53e8d9099a056776508a6796999495f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 41/48] fix: a crossing handshake must not displace the link
 both ends agreed on

---
 include/salticidae/network.h | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 662a520..b30f862 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -437,6 +437,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
         PeerId id;
         NetAddr addr; /** remote address (if set) */
         uint32_t nonce;
+        uint32_t remote_nonce; /** nonce of the other end of the link */
         conn_t conn;
         std::string id_hex;
 
@@ -465,6 +466,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
         Peer(const PeerId &pid, const PeerNetwork *pn):
             id(pid),
             nonce(passive_nonce),
+            remote_nonce(0),
             id_hex(get_hex10(id)),
             retry_delay(0), ntry(0), cur_ntry(0),
             ev_ping_timer(
@@ -923,6 +925,9 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     if (p->outbound_conn)
     {
         p->outbound_conn->peer = nullptr;
+        /* only one of the crossing connections is kept */
+        if (p->outbound_conn != p->chosen_conn)
+            this->disp_terminate(p->outbound_conn);
         p->outbound_conn = nullptr;
     }
     p->state = Peer::State::CONNECTED;
@@ -1032,6 +1037,13 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                     auto &p = pit->second;
                     if (p->state == Peer::State::CONNECTED)
                     {
+                        if (conn == p->conn) return;
+                        if (msg.nonce == p->remote_nonce)
+                        {
+                            /* it crossed the connection chosen by both ends */
+                            this->disp_terminate(conn);
+                            return;
+                        }
                         // defer the handling of the inbound connection
                         p->inbound_preempt_ping = new MsgPing(std::move(msg));
                         p->inbound_conn = conn;
@@ -1060,6 +1072,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*conn).c_str());
                         p->chosen_conn = conn;
+                        p->remote_nonce = msg.nonce;
                         finish_handshake(p.get());
                     }
                     else
@@ -1111,25 +1124,17 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != conn->get_addr() ||
                         p->addr != msg.claimed_addr) return;
+                    if (!conn->manual && !conn->peer) return; // abandoned attempt
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
                         tty_secondary_color, p->id_hex.c_str(), tty_reset_color);
-                    auto &old_conn = p->outbound_conn;
-                    if (old_conn && old_conn != conn)
-                    {
-                        SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
-                            tty_secondary_color, id_hex.c_str(), tty_reset_color,
-                            std::string(*old_conn).c_str());
-                        old_conn->peer = nullptr;
-                        this->disp_terminate(old_conn);
-                    }
-                    old_conn = conn;
                     if (p->get_nonce() < msg.nonce)
                     {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: choses connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*conn).c_str());
                         p->chosen_conn = conn;
+                        p->remote_nonce = msg.nonce;
                         p->reset_ping_timer();
                         finish_handshake(p.get());
                     }
@@ -1233,7 +1238,11 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
                     /* the unfinished attempt is given up */
-                    if (p->outbound_conn && p->cur_ntry > 0) p->cur_ntry--;
+                    if (p->outbound_conn)
+                    {
+                        if (p->cur_ntry > 0) p->cur_ntry--;
+                        p->nonce = 0;
+                    }
                     start_active_conn(p);
                     if (p->cur_ntry != 1)
                         p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
-- 
2.43.0


From 619394f8a2201e30f22ed6191ad5677fe353c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:50 +0000
Subject: [PATCH 42/48] fix: messages moved to a new link must arrive whole and
 not be dropped

---
 include/salticidae/conn.h    | 4 +++-
 include/salticidae/network.h | 4 +++-
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 9391d67..465010e 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -92,6 +92,8 @@ class ConnPool {
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
+        /** the first segment of send_buffer has been sent in part */
+        bool send_partial;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -116,7 +118,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), ready_recv(false), send_partial(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b30f862..ce3f715 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -945,7 +945,9 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
-            new_conn->write(std::move(buff_seg));
+            /* the remainder of a partly sent message cannot be continued */
+            if (old_conn->send_partial) { old_conn->send_partial = false; continue; }
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
diff --git a/src/conn.cpp b/src/conn.cpp
index c0d1e49..bff6a01 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->send_partial = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_partial = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -189,13 +193,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->send_partial = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_partial = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From 8e6506faefae544dba08e8f28140e08f31e5d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:52 +0000
Subject: [PATCH 43/48] fix: losing an old client connection must not unroute a
 newer one

---
 include/salticidae/network.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index ce3f715..1abe1ed 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1416,7 +1416,11 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto &addr2conn = conn->get_net()->addr2conn;
+    auto it = addr2conn.find(conn->get_addr());
+    /* it may have been replaced by a newer connection from the same address */
+    if (it != addr2conn.end() && it->second == conn)
+        addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From ed6e8c739d1eee1c0443bd3290fd830c3761c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:52 +0000
Subject: [PATCH 44/48] fix: a deferred client message that was refused must be
 reported

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 1abe1ed..fc94300 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1435,7 +1435,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From 1a124845100a467a8d1d0d7c0fbd8a5a26f582a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 45/48] fix: a failed C stream read must not be reported as a
 success

datastream_get_{u,i}{8,16,32,64} set *succ to true after the handler had set it to false.
---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..f683e6d 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) { int8_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) { int16_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) { int32_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) { int64_t val = 0; try {*self >> val; *succ = true;} catch (...) {*succ = false;} return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From 73933b8ce7b6d72681e8a7c91bc9d3bfccbfddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 46/48] fix: the C send functions must return whether the
 message was accepted

peernetwork_send_msg and clientnetwork_send_msg returned true for a message
that was refused (full send buffer or terminated connection).
---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From bd2573d457fa4c9143775cdf9f09efb8b114dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:38 +0000
Subject: [PATCH 47/48] fix: encoding failures must not leave the C certificate
 functions as exceptions

x509_get_pubkey, x509_get_der, pkey_get_pubkey_der and pkey_get_privkey_der
return null on failure, as the other C functions do; a public key has no
private encoding, for instance.
---
 src/crypto.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index eb49ea4..b82b912 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,11 +27,19 @@ x509_t *x509_new_from_der(const bytearray_t *der, SalticidaeCError *cerror) {
 void x509_free(const x509_t *self) { delete self; }
 
 pkey_t *x509_get_pubkey(const x509_t *self) {
-    return new pkey_t(self->get_pubkey());
+    try {
+        return new pkey_t(self->get_pubkey());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 bytearray_t *x509_get_der(const x509_t *self) {
-    return new bytearray_t(self->get_der());
+    try {
+        return new bytearray_t(self->get_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 pkey_t *pkey_new_privkey_from_pem_file(const char *pem_fname, const char *passwd, SalticidaeCError *cerror) {
@@ -55,11 +63,19 @@ pkey_t *pkey_new_privkey_from_der(const bytearray_t *der, SalticidaeCError *cerr
 void pkey_free(const pkey_t *self) { delete self; }
 
 bytearray_t *pkey_get_pubkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_pubkey_der());
+    try {
+        return new bytearray_t(self->get_pubkey_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 bytearray_t *pkey_get_privkey_der(const pkey_t *self) {
-    return new bytearray_t(self->get_privkey_der());
+    try {
+        return new bytearray_t(self->get_privkey_der());
+    } catch (...) {
+        return nullptr;
+    }
 }
 
 }
-- 
2.43.0


From a603607a22a64fceeee0bab56aa10a827f277798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 48/48] fix: an incomplete message must not stop reading for
 ever

An incomplete message that arrives in max_recv_buff_size or more pieces filled
recv_buffer: reading was suspended and never resumed, since the message could
not be completed.
---
 include/salticidae/network.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index fc94300..15cfac5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -79,6 +79,8 @@ class MsgNetwork: public ConnPool {
         Msg msg;
         MsgState msg_state;
         bool msg_sleep;
+        /* received part of an incomplete message that would fill recv_buffer */
+        bytearray_t msg_part;
         /* initialized and destroyed by the worker */
         TimerEvent ev_enqueue_poll;
 
@@ -663,6 +665,12 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
     auto &recv_buffer = conn->recv_buffer;
     auto &msg = conn->msg;
     auto &msg_state = conn->msg_state;
+    auto &msg_part = conn->msg_part;
+    if (!msg_part.empty())
+    {
+        recv_buffer.rewind(std::move(msg_part));
+        msg_part.clear();
+    }
     while (true)
     {
         if (msg_state == Conn::HEADER)
@@ -701,6 +709,10 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             }
         }
     }
+    if (recv_buffer.len() >= conn->max_recv_buff_size)
+        /* the rest of an incomplete message can only arrive if there is room
+         * in the buffer */
+        msg_part = recv_buffer.pop(recv_buffer.size());
     if (conn->ready_recv && recv_buffer.len() < conn->max_recv_buff_size)
     {
         /* resume reading from socket */
-- 
2.43.0

