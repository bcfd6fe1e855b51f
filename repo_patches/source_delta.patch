From a3fd2e41523516281f209356529dc5b19b90b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 01/82] fix: otl::vector checks its capacity on fill, range,
 push_back and insert

---
 include/utils/otl.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..6fbfc1e 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(_checked_size(n)) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(_checked_size(n)) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(_checked_size(size_type(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,7 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
+                    if (n >= CAPACITY) {
                         TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
                     }
                     m_buf[n] = *it;
@@ -395,6 +395,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _checked_size(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +406,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _checked_size(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +418,13 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static S _checked_size(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return S(n);
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,9 +437,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _checked_size(this->size() + 1);
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
                 m_buf[i] = val;
                 m_size += 1;
@@ -438,9 +445,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _checked_size(this->size() + vec.size());
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
                 std::memcpy(m_buf + i, vec.data(), sizeof(T) * (vec.size()));
                 m_size += S(vec.size());
-- 
2.43.0


From 78790926be33fe739f6def980c5abe9b2ca89785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 02/82] fix: otl::vector::resize keeps the existing elements

---
 include/utils/otl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index 6fbfc1e..32531a3 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -367,7 +367,9 @@ namespace ts {
             const T &back() const { return m_buf[m_size - 1]; }
 
             void resize(size_type n, value_type val = value_type()) {
-                *this = self(n, val);
+                const S new_size = _checked_size(n);
+                for (size_type i = this->size(); i < n; ++i) m_buf[i] = val;
+                m_size = new_size;
             }
 
             iterator erase(iterator it) {
-- 
2.43.0


From 3dc6855c90ae1d310cfcd280e821640ae02caa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 03/82] fix: type_str names INT16 and UINT16 correctly

---
 include/core/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From 0c1606a21c027cfc4b7cae8c86dc89d33358f140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 04/82] fix: order sink numbers by their signed value

---
 include/core/sink.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/core/sink.h b/include/core/sink.h
index b8b5d60..c3a0170 100644
--- a/include/core/sink.h
+++ b/include/core/sink.h
@@ -304,16 +304,28 @@ namespace ts {
     }
 
     template <typename _T, int _Q>
-    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value < rhs.value; }
+    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) < _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value > rhs.value; }
+    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) > _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value <= rhs.value; }
+    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) <= _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
-    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value >= rhs.value; }
+    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
+        using _S = typename _signed<_T>::T;
+        return _S(lhs.value) >= _S(rhs.value);
+    }
 
     template <typename _T, int _Q>
     bool operator==(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value == rhs.value; }
-- 
2.43.0


From 06460a8879d446f8e640e98a4ca663b783138c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 05/82] fix: multiply and divide sink numbers by their signed
 value

---
 include/core/sink.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/sink.h b/include/core/sink.h
index c3a0170..f54436d 100644
--- a/include/core/sink.h
+++ b/include/core/sink.h
@@ -279,7 +279,7 @@ namespace ts {
     sink<_T, _Q> operator*(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = ((_DS)(lhs.value) * (_DS)(rhs.value)) >> ((_Q) + (_Q) - (_Q));
+        auto fixed = ((_DS)(_S(lhs.value)) * (_DS)(_S(rhs.value))) >> ((_Q) + (_Q) - (_Q));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -293,7 +293,7 @@ namespace ts {
     sink<_T, _Q> operator/(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = rhs.value == 0 ? sink<_T, _Q>::Max().value : (((_DS)lhs.value) << ((_Q) + (_Q) - (_Q))) / rhs.value;
+        auto fixed = rhs.value == 0 ? _DS(sink<_T, _Q>::Max().value) : _DS((_DS(_S(lhs.value)) * (_DS(1) << (_Q))) / _S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
-- 
2.43.0


From 000f737f3e1d4745ee8b27154e941dc9d7bddf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 06/82] fix: convert subnormal numbers between ieee754_float
 formats

---
 include/core/ieee754_float.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/core/ieee754_float.h b/include/core/ieee754_float.h
index 5b36157..a778870 100644
--- a/include/core/ieee754_float.h
+++ b/include/core/ieee754_float.h
@@ -119,19 +119,35 @@ namespace ts {
                 return;
             }
 
+            auto other_fraction = other.value_fraction();
+            auto other_exponent = other.value_exponent();
+            if (other_exponent == -int64_t(other.bias)) {
+                // subnormal number, rewrite it as 1.fraction * 2^exponent
+                ++other_exponent;
+                while ((other_fraction >> other.fraction) == 0) {
+                    other_fraction <<= 1;
+                    --other_exponent;
+                }
+                other_fraction &= other.mask_fraction().code;
+            }
+
             auto shift_left = int64_t(fraction) - int64_t(other.fraction);
             auto part_sign = (other.value_sign() << (W - 1));
             auto part_fraction = shift_left > 0
-                                 ? (other.value_fraction() << shift_left)
-                                 : (other.value_fraction() >> -shift_left);
-            auto origin_exponent = other.value_exponent() + bias;
+                                 ? (other_fraction << shift_left)
+                                 : (other_fraction >> -shift_left);
+            auto origin_exponent = other_exponent + bias;
             // read url: https://baike.baidu.com/item/IEEE%20754/3869922?fr=aladdin
             // following code can make NaN number to max or min number
             constexpr auto max_exponent = (decltype(origin_exponent)(1) << exponent) - 2;
             constexpr auto max_fraction = (decltype(part_fraction)(1) << fraction) - 1;
-            if (origin_exponent < decltype(origin_exponent)(0)) {
+            if (origin_exponent <= decltype(origin_exponent)(0)) {
+                // subnormal number, with explicit leading bit
+                auto shift_right = 1 - origin_exponent;
+                part_fraction |= decltype(part_fraction)(1) << fraction;
+                part_fraction = shift_right > int64_t(fraction) ? 0 : (part_fraction >> shift_right);
                 origin_exponent = 0;
-                part_fraction = 1;  // smallest float
+                if (part_fraction == 0) part_fraction = 1;  // smallest float
             } else if (origin_exponent > max_exponent) {
                 origin_exponent = max_exponent;
                 part_fraction = max_fraction;
-- 
2.43.0


From 9c139883b862825b5ffcd6c0d71878f00f4c26c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 07/82] fix: split_bins computes the bin size in exact integer
 arithmetic

---
 src/utils/box.cpp | 36 +++++++++---------------------------
 1 file changed, 9 insertions(+), 27 deletions(-)

diff --git a/src/utils/box.cpp b/src/utils/box.cpp
index 3e96975..3dd47b0 100644
--- a/src/utils/box.cpp
+++ b/src/utils/box.cpp
@@ -8,7 +8,6 @@
 #include <algorithm>
 #include <memory>
 #include <cmath>
-#include <cfenv>
 #include <ctime>
 #include <iomanip>
 #include <sstream>
@@ -55,26 +54,18 @@ namespace ts {
 #undef __EDIT_DIST
     }
 
-    static int safe_ceil(double x) {
-        int result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = int(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
-    }
-
     std::vector<std::pair<int, int>> split_bins(int first, int second, int bins) {
         if (second <= first) return {};
         if (bins <= 1) return {{first, second}};
-        auto step = safe_ceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
+        const int64_t range = int64_t(second) - first;
+        const int64_t step = (range + bins - 1) / bins;
         auto anchor = first;
 
         std::vector<std::pair<int, int>> result_bins;
-        while (anchor + step < second) {
-            result_bins.emplace_back(std::make_pair(anchor, anchor + step));
-            anchor += step;
+        while (int64_t(second) - anchor > step) {
+            auto next = int(anchor + step);
+            result_bins.emplace_back(std::make_pair(anchor, next));
+            anchor = next;
         }
         if (anchor < second) {
             result_bins.emplace_back(std::make_pair(anchor, second));
@@ -82,24 +73,15 @@ namespace ts {
         return result_bins;
     }
 
-    static long safe_lceil(double x) {
-        long result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = long(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
-    }
-
     std::vector<std::pair<size_t, size_t>> lsplit_bins(size_t first, size_t second, size_t bins) {
         if (second <= first) return {};
         if (bins <= 1) return {{first, second}};
-        auto step = safe_lceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
+        const size_t range = second - first;
+        const size_t step = range / bins + (range % bins ? 1 : 0);
         auto anchor = first;
 
         std::vector<std::pair<size_t, size_t >> result_bins;
-        while (anchor + step < second) {
+        while (second - anchor > step) {
             result_bins.emplace_back(std::make_pair(anchor, anchor + step));
             anchor += step;
         }
-- 
2.43.0


From 119076b20cee873da1b417160d99ba3b9aa16344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 08/82] fix: tensor views are bounds-checked and element counts
 never wrap

---
 include/core/tensor.h | 13 ++++++++++---
 src/core/tensor.cpp   | 34 +++++++++++++++++++---------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/include/core/tensor.h b/include/core/tensor.h
index 2f875b0..c2fc110 100644
--- a/include/core/tensor.h
+++ b/include/core/tensor.h
@@ -16,6 +16,7 @@
 
 #include <vector>
 #include <cassert>
+#include <cstdint>
 
 #include "tensor_iterator.h"
 
@@ -68,9 +69,15 @@ namespace ts {
             int count() const { return count(m_sizes); };
 
             static int count(const Shape &shape) {
-                int prod = 1;
-                for (int _size : shape) prod *= _size;
-                return prod;
+                for (int _size : shape) if (_size == 0) return 0;
+                int64_t prod = 1;
+                for (int _size : shape) {
+                    prod *= _size;
+                    if (prod > INT32_MAX || prod < -int64_t(INT32_MAX)) {
+                        TS_LOG_ERROR << "The element count of " << to_string(shape) << " is out of range." << eject;
+                    }
+                }
+                return int(prod);
             }
 
         protected:
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..0e90db0 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -100,31 +100,31 @@ namespace ts {
     Tensor::Tensor(MemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes()))))
+                       : Smart<TensorMemory>(controller->alloc(size_t(proto.count()) * proto.type_bytes())))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : controller->alloc(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(size_t(proto.count()) * proto.type_bytes()))
             , m_proto(proto) {}
 
     Tensor::Tensor(SyncMemoryController::shared controller, const Tensor::Prototype &proto, const MemoryDevice &device)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : controller->alloc(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : controller->alloc(device, size_t(proto.count()) * proto.type_bytes()))
             , m_proto(proto) {}
 
     Tensor::Tensor(const MemoryDevice &device, const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory(device)
-                       : make_smart<TensorMemory>(device, static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : make_smart<TensorMemory>(device, size_t(proto.count()) * proto.type_bytes()))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Tensor::Prototype &proto)
             : m_memory(is_empty(proto)
                        ? empty_memory()
-                       : Smart<TensorMemory>(static_cast<size_t>(proto.count() * proto.type_bytes())))
+                       : Smart<TensorMemory>(size_t(proto.count()) * proto.type_bytes()))
             , m_proto(proto) {}
 
     Tensor::Tensor(const Memory &memory, const Tensor::Prototype &proto)
@@ -150,7 +150,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, size_t(value.m_proto.count()) * value.m_proto.type_bytes());
             value = dolly;
         }
         Tensor dolly;
@@ -164,7 +164,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, size_t(value.m_proto.count()) * value.m_proto.type_bytes());
             value = dolly;
         }
         Tensor dolly;
@@ -178,7 +178,7 @@ namespace ts {
             Tensor dolly(controller, value.m_proto, device);
             auto dst = dolly.m_memory->weak_memory();
             auto src = value.m_memory->weak_memory();
-            memcpy(dst, src, size_t(value.m_proto.count() * value.m_proto.type_bytes()));
+            memcpy(dst, src, size_t(value.m_proto.count()) * value.m_proto.type_bytes());
             value = dolly;
         }
         Tensor dolly;
@@ -224,8 +224,11 @@ namespace ts {
             }
         }
         if (fixed_index >= 0) {
-            auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
-            auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            auto up = this->count();
+            auto down = Prototype::count(fixed_shape);
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
@@ -242,6 +245,7 @@ namespace ts {
         if (fields.empty()) {
             this->m_memory = make_smart<TensorMemory>();
             this->m_proto = Prototype();
+            this->m_fields.clear();
             return;
         }
         this->m_memory = fields[0].m_memory;
@@ -477,7 +481,7 @@ namespace ts {
         if (need_size < x_size) {
             auto &size = x.sizes();
             std::vector<int> shape(size.begin(), size.begin() + need_size);
-            shape.back() = std::accumulate(size.begin() + m_dim, size.end(), 1, std::multiplies<int>());
+            shape.back() = Tensor::Prototype::count(Shape(size.begin() + m_dim, size.end()));
             return std::move(shape);
         } else if (need_size > x_size) {
             std::vector<int> ones(need_size - x_size, 1);
@@ -625,9 +629,9 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
-        auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
-        width *= this->proto().type_bytes();
+        TS_AUTO_CHECK(!sizes.empty() && 0 <= i && i < sizes[0]);
         Shape slice_shape(sizes.begin() + 1, sizes.end());
+        auto width = size_t(Prototype::count(slice_shape)) * this->proto().type_bytes();
         Memory slice_memory(this->device(), this->data<char>() + i * width, width);
         return Tensor(slice_memory, Tensor::Prototype(this->dtype(), slice_shape));
     }
@@ -635,8 +639,8 @@ namespace ts {
     Tensor Tensor::slice(int beg, int end) {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
-        auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
-        width *= this->proto().type_bytes();
+        TS_AUTO_CHECK(!sizes.empty() && 0 <= beg && end <= sizes[0]);
+        auto width = size_t(Prototype::count(Shape(sizes.begin() + 1, sizes.end()))) * this->proto().type_bytes();
 
         auto batch = end - beg;
         Shape slice_shape = sizes;
-- 
2.43.0


From 469aa6adc881b51635e424e7ca2e2505affa09bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 09/82] fix: AES_init_ctx_iv expands the completed key

---
 src/encryption/aes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encryption/aes.cpp b/src/encryption/aes.cpp
index b6f8ee9..545f67d 100644
--- a/src/encryption/aes.cpp
+++ b/src/encryption/aes.cpp
@@ -264,7 +264,7 @@ void AES_init_ctx_iv(struct AES_ctx* ctx, const uint8_t* key, uint32_t key_lengt
       }
   }
 
-  KeyExpansion(ctx->RoundKey, key);
+  KeyExpansion(ctx->RoundKey, default_key);
   memcpy (ctx->Iv, default_iv, AES_BLOCKLEN);
 }
 
-- 
2.43.0


From a5e109aafbe18836c139548221c9cc81fd578faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 10/82] fix: encrypted reader rejects an impossible padding
 length

---
 src/encryption/aes_fstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..6032bd1 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,13 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                int npadding = (int)(m_master[AES_BLOCKLEN - 1]);
+                if(npadding < 1 || npadding > AES_BLOCKLEN) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= npadding;
             } 
 
             
-- 
2.43.0


From 2d41b2c3bc4dd84aabe6f85ff82764985a64571a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 11/82] fix: Smart copy assignment and dispose release the
 handle exactly once

---
 include/core/threadsafe/smart.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..db66645 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -83,18 +83,17 @@ namespace ts {
         Smart(Object *object, const typename Counter<T>::Deleter &deleter)
                 : m_mode(SMART), m_counted(new CountedObject(object, 1, deleter)) {}
 
-        Smart(const self &other) {
-            *this = other;
-        }
-
-        Smart &operator=(const self &other) {
-            if (this == &other) return *this;
-            this->dispose();
-            this->m_mode = other.m_mode;
-            this->m_counted = other.m_counted;
+        Smart(const self &other)
+                : m_mode(other.m_mode), m_counted(other.m_counted) {
             if (m_counted && m_mode == SMART) {
                 m_counted->use_count++;
             }
+        }
+
+        Smart &operator=(const self &other) {
+            // other may be owned by the object this handle releases
+            self copied(other);
+            this->swap(copied);
             return *this;
         }
 
@@ -113,10 +112,11 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
-                    delete m_counted;
-                    m_counted = nullptr;
+                auto counted = m_counted;
+                m_counted = nullptr;
+                --counted->use_count;
+                if (counted->use_count <= 0) {
+                    delete counted;
                 }
             }
         }
-- 
2.43.0


From 4ae11b3c86ea62ece05a04075b07d3256948aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:51 +0000
Subject: [PATCH 12/82] fix: broadcasting a synchronised block keeps existing
 views valid

---
 include/core/sync/sync_block.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/core/sync/sync_block.h b/include/core/sync/sync_block.h
index 748cf99..a9cb021 100644
--- a/include/core/sync/sync_block.h
+++ b/include/core/sync/sync_block.h
@@ -134,14 +134,13 @@ namespace ts {
         }
 
         // broadcast default value to other key,
-        // be careful, this action may disable already exist view
+        // already exist views share the stored values, so update them in place
         void broadcast() {
             auto _write = this->lock_write();
-            auto key = m_default_key;
-            auto value = *m_default_value;
-            m_param->m_sync_values.clear();
-            auto pair_it_flag = m_param->m_sync_values.insert(std::make_pair(key, value));
-            m_default_value = &(pair_it_flag.first->second);
+            for (auto &pair : m_param->m_sync_values) {
+                if (pair.first == m_default_key) continue;
+                pair.second = m_param->m_hanlder(*m_default_value, m_default_key, pair.first);
+            }
         }
 
         void foreach(const std::function<void(const _KEY &key, const _VALUE &value)> &handler) const {
-- 
2.43.0


From 499c1130f821d989ba3e74d63ec097522ab3980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 13/82] fix: stack access outside the current frame is rejected

---
 include/runtime/stack.h |  9 ++++++++-
 src/runtime/stack.cpp   | 45 ++++++++++++++++++++++++++++++-----------
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/include/runtime/stack.h b/include/runtime/stack.h
index c4bb9a1..dc389cc 100644
--- a/include/runtime/stack.h
+++ b/include/runtime/stack.h
@@ -361,7 +361,14 @@ namespace ts {
         }
 
     private:
-        // size_t relative2absolute(int i) const;
+        /**
+         * get the absolute position of index i in this frame
+         * @param i index in frame, can be negative
+         * @param limit count of the valid positions in this frame
+         * @return absolute position
+         * @throw std::out_of_range when i is out of this frame
+         */
+        size_t relative2absolute(int i, size_t limit) const;
 
         Device m_device;                          ///< running tensor device, compute on it
         SyncMemoryController::shared m_controller;    ///< tensor memory backend
diff --git a/src/runtime/stack.cpp b/src/runtime/stack.cpp
index 55c4fbc..29561b4 100644
--- a/src/runtime/stack.cpp
+++ b/src/runtime/stack.cpp
@@ -5,9 +5,9 @@
 #include "runtime/stack.h"
 #include "core/device_context.h"
 
-namespace ts {
+#include <stdexcept>
 
-#define relative2absolute(i) ((i) >= 0 ? m_base + (i) : m_stack.size() + (i))
+namespace ts {
 
     Stack::Stack(const MemoryDevice &device)
             : Stack(device, DynamicSyncMemoryController::Make(device)) {}
@@ -61,45 +61,66 @@ namespace ts {
         return this->push(tensor.clone(this->m_controller, device));
     }
 
-    Tensor *Stack::index(int i) { return &this->m_stack.at(relative2absolute(i)); }
+    size_t Stack::relative2absolute(int i, size_t limit) const {
+        auto size = static_cast<int64_t>(this->size());
+        auto position = i >= 0 ? int64_t(i) : size + int64_t(i);
+        if (position < 0 || position >= static_cast<int64_t>(limit)) {
+            throw std::out_of_range("Stack index " + std::to_string(i) + " is out of the frame(size=" +
+                                    std::to_string(size) + ")");
+        }
+        return m_base + static_cast<size_t>(position);
+    }
+
+    Tensor *Stack::index(int i) { return &this->m_stack[relative2absolute(i, this->size())]; }
 
-    const Tensor *Stack::index(int i) const { return &this->m_stack.at(relative2absolute(i)); }
+    const Tensor *Stack::index(int i) const { return &this->m_stack[relative2absolute(i, this->size())]; }
 
-    Tensor *Stack::top() { return &this->m_stack.back(); }
+    Tensor *Stack::top() { return this->index(-1); }
 
-    const Tensor *Stack::top() const { return &this->m_stack.back(); }
+    const Tensor *Stack::top() const { return this->index(-1); }
 
     void Stack::pop(size_t pop_size) {
+        if (pop_size > this->size()) {
+            throw std::out_of_range("Can not pop " + std::to_string(pop_size) + " tensor(s) of the frame(size=" +
+                                    std::to_string(this->size()) + ")");
+        }
         auto it_end = this->m_stack.end();
         auto it_beg = it_end - pop_size;
         this->m_stack.erase(it_beg, it_end);
     }
 
-    void Stack::pop() { this->m_stack.pop_back(); }
+    void Stack::pop() { this->pop(1); }
 
     size_t Stack::size() const { return m_stack.size() - m_base; }
 
     void Stack::erase(int i) {
-        auto it = this->m_stack.begin() + relative2absolute(i);
+        auto it = this->m_stack.begin() + relative2absolute(i, this->size());
         this->m_stack.erase(it);
     }
 
     void Stack::erase(int beg, int end) {
-        auto beg_it = this->m_stack.begin() + relative2absolute(beg);
-        auto end_it = this->m_stack.begin() + relative2absolute(end);
-        // TS_AUTO_CHECK(end_it - beg_it >= 0);
+        auto beg_it = this->m_stack.begin() + relative2absolute(beg, this->size() + 1);
+        auto end_it = this->m_stack.begin() + relative2absolute(end, this->size() + 1);
+        if (end_it < beg_it) {
+            throw std::out_of_range("Can not erase range [" + std::to_string(beg) + ", " + std::to_string(end) +
+                                    ") of the frame(size=" + std::to_string(this->size()) + ")");
+        }
         this->m_stack.erase(beg_it, end_it);
     }
 
     size_t Stack::base() const { return m_base; }
 
     size_t Stack::rebase(size_t new_base) {
+        if (new_base > this->m_stack.size()) {
+            throw std::out_of_range("Can not rebase to " + std::to_string(new_base) + ", over the stack(size=" +
+                                    std::to_string(this->m_stack.size()) + ")");
+        }
         std::swap(m_base, new_base);
         return new_base;
     }
 
     void Stack::push_base(int i) {
-        this->m_base_stack.push(this->rebase(relative2absolute(i)));
+        this->m_base_stack.push(this->rebase(relative2absolute(i, this->size() + 1)));
     }
 
     void Stack::pop_base() {
-- 
2.43.0


From 6f40a5029515525ac3f8ac0a29e9e6f1763d4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 14/82] fix: frames of operators without arguments or results
 are cut at the right position

---
 src/compiler/compiler.cpp       | 2 +-
 src/runtime/inferer.cpp         | 2 +-
 src/runtime/inferer/factory.cpp | 2 +-
 src/runtime/instruction.cpp     | 4 ++--
 src/runtime/operator.cpp        | 6 +++---
 src/runtime/workbench.cpp       | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..89680b7 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -358,7 +358,7 @@ namespace ts {
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
             for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
diff --git a/src/runtime/inferer.cpp b/src/runtime/inferer.cpp
index 63e2342..f94eb3f 100644
--- a/src/runtime/inferer.cpp
+++ b/src/runtime/inferer.cpp
@@ -71,7 +71,7 @@ namespace ts {
                 stack.push(t);
             }
             auto out = op->run(stack);
-            stack.erase(0, -out);
+            stack.erase(0, int(stack.size()) - out);
             if (out == 1) {
                 output = stack[0];
             } else {
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..7f1af0c 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -58,7 +58,7 @@ namespace ts {
                     stack.push(t);
                 }
                 auto out = op->run(stack);
-                stack.erase(0, -out);
+                stack.erase(0, int(stack.size()) - out);
                 if (out == 1) {
                     output = stack[0];
                 } else {
diff --git a/src/runtime/instruction.cpp b/src/runtime/instruction.cpp
index c01ea04..17998dd 100644
--- a/src/runtime/instruction.cpp
+++ b/src/runtime/instruction.cpp
@@ -37,7 +37,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(m_nargs));
 
         // save base
-        stack.push_base(-m_nargs);
+        stack.push_base(int(stack.size()) - m_nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
 #ifdef TS_USE_HOOK
@@ -65,7 +65,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(return_size));    // must have enough returns
 
         // add base
-        stack.erase(0, -m_nresults);
+        stack.erase(0, int(stack.size()) - m_nresults);
 
 #ifdef TS_USE_HOOK
         {
diff --git a/src/runtime/operator.cpp b/src/runtime/operator.cpp
index 4663cdc..10272e9 100644
--- a/src/runtime/operator.cpp
+++ b/src/runtime/operator.cpp
@@ -263,7 +263,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(nargs));
 
         // save base
-        stack.push_base(-nargs);
+        stack.push_base(int(stack.size()) - nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
         // call function
@@ -272,7 +272,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(return_size));    // must have enough returns
 
         // add base
-        stack.erase(0, -return_size);
+        stack.erase(0, int(stack.size()) - return_size);
 
         return return_size;
     }
@@ -281,7 +281,7 @@ namespace ts {
         TS_AUTO_CHECK(stack.size() >= static_cast<size_t>(nargs));
 
         // save base
-        stack.push_base(-nargs);
+        stack.push_base(int(stack.size()) - nargs);
         ts::need pop_base(&Stack::pop_base, &stack);
 
         auto returned_value = op->infer(stack, output);
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..4b07543 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -438,7 +438,7 @@ namespace ts {
         /**
          * Save base, so now can do something
          */
-        this->m_stack->push_base(-nargs);
+        this->m_stack->push_base(int(this->m_stack->size()) - nargs);
         ts::need pop_base(&Stack::pop_base, this->m_stack.get());
 
         /**
-- 
2.43.0


From e5609765989c8e331804fa44e120443fa02530c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 15/82] fix: HardMemory forgets blocks it gave back and frees
 the one it replaces

---
 src/core/hard_memory.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..42ad2f9 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
@@ -64,7 +65,11 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // the old block is gone even if the allocator fails
+            auto data = m_data;
+            m_data = nullptr;
+            m_capacity = 0;
+            m_data = m_allocator(m_device.id(), size, data, 0);
             m_capacity = size;
         }
     }
@@ -81,12 +86,17 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
+        if (this == &other) return *this;
+        if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
         MOVE_MEMBER(m_device);
         MOVE_MEMBER(m_capacity);
         MOVE_MEMBER(m_data);
         MOVE_MEMBER(m_allocator);
 #undef MOVE_MEMBER
+        other.m_capacity = 0;
+        other.m_data = nullptr;
+        other.m_allocator = nullptr;
         return *this;
     }
 }
-- 
2.43.0


From 12cc5b51946cf8f40aa66ffc153e3ac96411cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 16/82] fix: filling memory with an empty pattern is refused
 instead of looping forever

---
 src/core/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/memory.cpp b/src/core/memory.cpp
index 5b690b7..bf56549 100644
--- a/src/core/memory.cpp
+++ b/src/core/memory.cpp
@@ -123,6 +123,8 @@ namespace ts {
 
     void memset(void *dst_ptr, const Device &dst_device, size_t dst_size, const void *src_ptr, const Device &src_device,
                 size_t src_size) {
+        if (dst_size == 0) return;
+        TS_AUTO_CHECK(src_size > 0);
         HardConverter::function cross_device_converter = HardConverter::Query(dst_device.type(),
                                                                               src_device.type());
         TS_AUTO_CHECK(cross_device_converter != nullptr);
-- 
2.43.0


From 1e6064e107a4ead7210e875e2dacdd2f151c4f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:25 +0000
Subject: [PATCH 17/82] fix: a moved memory pool keeps its allocator

---
 src/memory/orz/vat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..b941f73 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -95,6 +95,8 @@ namespace ts {
     {
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        std::swap(this->m_allocator, that.m_allocator);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 2dd7b6163a25d45eb8c38ff49b4f186877638204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 18/82] fix: moving a bubble moves its shape

---
 src/module/bubble.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..7d86612 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -41,6 +41,7 @@ namespace ts {
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
+        this->m_shape = std::move(other.m_shape);
         return *this;
     }
 
-- 
2.43.0


From 0815f809e9238921a80618edddea8c0f12ab71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 19/82] fix: reading a bubble replaces everything the old one
 held

---
 src/module/bubble.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index 7d86612..9877ffd 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -188,8 +188,9 @@ namespace ts {
             read_size += read_param(stream, param);
             m_params.insert(param);
         }
-        m_op = tensor::to_string(m_params[RetentionParam::op]);
-        m_name = tensor::to_string(m_params[RetentionParam::name]);
+        m_op = has(RetentionParam::op) ? tensor::to_string(get(RetentionParam::op)) : std::string();
+        m_name = has(RetentionParam::name) ? tensor::to_string(get(RetentionParam::name)) : std::string();
+        m_shape.clear();
 
         {
             auto it = m_params.find("#output_count");
-- 
2.43.0


From d8250cc5b7a839d148ba06fadbffc214d9b170a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 20/82] fix: relinking a node skips users that are gone

---
 include/module/graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..7b30ce2 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
@@ -72,6 +71,7 @@ namespace ts {
             if (!new_ptr) throw NullPointerException("Link expired node");
             for (auto &output : old_ptr->outputs()) {
                 auto output_ptr = output.lock();
+                if (!output_ptr) continue;
                 for (auto &output_s_input : output_ptr->m_inputs) {
                     if (output_s_input.lock() != old_ptr) continue;
                     output_s_input = new_node;
-- 
2.43.0


From 404f6cbf3bc6ab256a58349b7251cb1f5450dd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 21/82] fix: packing kernels leaves the compiled graph
 unchanged

---
 src/compiler/option/pack_translator_option.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..6826fec 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -89,6 +89,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            A_trans_node = bubble::bubble(A_node.bubble());
             A_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -108,6 +109,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            B_trans_node = bubble::bubble(B_node.bubble());
             B_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -235,7 +237,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // the given graph keeps its kernel, other nodes and later compilations may use it
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From 0b85db51ff5cec2c1ff6f56173256caa06b00d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:27 +0000
Subject: [PATCH 22/82] fix: gemm keeps the transposition of an input that is
 not constant

---
 src/compiler/option/pack_translator_option.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 6826fec..910207a 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -65,7 +65,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         bool transB = tensor::to_bool(node.bubble().get(name::transB));
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        if ((A_node.bubble().op() != Bubble::Const && transA) ||
+            (B_node.bubble().op() != Bubble::Const && transB)) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
-- 
2.43.0


From e7225be3babff7506611ff53555f88d9f4e1503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 23/82] fix: arguments keep their position when a network lists
 an input twice

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 89680b7..80b1ac9 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -357,7 +357,8 @@ namespace ts {
         }
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
-            for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
+            size_t input_slot = 0;
+            for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, input_slot++));
             block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
-- 
2.43.0


From 1fd9d48860c0ebdc2674e88e1fdf9b372c7dddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:11 +0000
Subject: [PATCH 24/82] fix: stopping a pool thread cannot lose its wakeup

---
 src/runtime/inside/thread_pool.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..077a17e 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,8 +13,12 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
-        task_cond.notify_all();
+        {
+            // the thread must not miss the notification between checking the flag and waiting
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+            task_cond.notify_all();
+        }
         core.join();
     }
 
-- 
2.43.0


From 2d48001189e232ede0c6ead03d9faf1a2b859b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:45 +0000
Subject: [PATCH 25/82] fix: translating a network keeps the declared type of
 its inputs

---
 src/compiler/option/fp16_translator_option.cpp | 2 +-
 src/compiler/option/pack_translator_option.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..b682d1f 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -24,7 +24,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 910207a..8374473 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -32,7 +32,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
 
     if (Bubble::IsEndPoint(op_name)) {
         if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
+            translated_node = bubble::bubble(node.bubble());
         else if (op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
-- 
2.43.0


From 19bc73c8c6dfad333f6af3b502fb8719b85040cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 26/82] fix: folding constants keeps an output shared with
 other outputs one node

---
 src/compiler/compiler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 80b1ac9..554b1f2 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -455,9 +455,10 @@ namespace ts {
         const_nodes.clear();
         std::unordered_map<Node, Node> ready_const;
         std::unordered_map<Node, Node> ready_nonconst;
-        for (auto node : nodes) {
-            run_const_node(node, node, ready_const, ready_nonconst);
-            const_nodes.emplace_back(node);
+        for (auto &node : nodes) {
+            Node const_node = node;
+            run_const_node(node, const_node, ready_const, ready_nonconst);
+            const_nodes.emplace_back(const_node);
         }
     }
 
-- 
2.43.0


From e2c8b381fe1d241089cb4179c643396bf0b2c56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 27/82] fix: a cloned program keeps the names of its inputs and
 outputs

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From 09d166bd8ef15c010a30a0fd0bc914e2f8ad7573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 28/82] fix: mul and mod do not share one template across files

---
 src/kernels/cpu/mod.cpp | 4 ++--
 src/kernels/cpu/mul.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..84dee8d 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs % rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x %= y;
         }
 
diff --git a/src/kernels/cpu/mul.cpp b/src/kernels/cpu/mul.cpp
index c2ceeca..e20c195 100644
--- a/src/kernels/cpu/mul.cpp
+++ b/src/kernels/cpu/mul.cpp
@@ -16,11 +16,11 @@
 namespace ts {
     namespace cpu {
         template <typename T>
-        inline void reduce_operator(T &x, T lhs, T rhs) {
+        static inline void reduce_operator(T &x, T lhs, T rhs) {
             x = lhs * rhs;
         }
         template <typename T>
-        inline void reduce_operator(T &x, T y) {
+        static inline void reduce_operator(T &x, T y) {
             x *= y;
         }
 
-- 
2.43.0


From de06404c77bb650371bb05e2352d14d0e5efae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 29/82] fix: mod keeps the order of its operands when the left
 one is broadcast

---
 src/kernels/cpu/mod.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index 84dee8d..994228d 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,12 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            (void)(dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 47b09c0735365eef2d6bf006dc885e3d50584001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 30/82] fix: equal compares tensors of different ranks at the
 broadcast coordinates

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From ab45dc4ac4638f36fa2d774aec5d79596facea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:56 +0000
Subject: [PATCH 31/82] fix: broadcasting an empty extent gives an empty extent

---
 src/backend/base/base_broadcast_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_broadcast_v2.cpp b/src/backend/base/base_broadcast_v2.cpp
index cb7adf2..cd1b773 100644
--- a/src/backend/base/base_broadcast_v2.cpp
+++ b/src/backend/base/base_broadcast_v2.cpp
@@ -50,7 +50,7 @@ namespace ts {
                 if (x_shape[i] != 1 && y_shape[i] != 1 && x_shape[i] != y_shape[i]) {
                     z_shape.push_back(1);
                 } else {
-                    z_shape.push_back(std::max(x_shape[i], y_shape[i]));
+                    z_shape.push_back(x_shape[i] == 1 ? y_shape[i] : x_shape[i]);
                 }
             }
 
@@ -192,7 +192,7 @@ namespace ts {
                 if (x[i] != y[i] && x[i] != 1 && y[i] != 1) {
                     TS_LOG_ERROR << "Can not broadcast " << to_string(x) << " to " << to_string(shape) << eject;
                 }
-                output.push_back(std::max(x[i], y[i]));
+                output.push_back(x[i] == 1 ? y[i] : x[i]);
             }
             return true;
         }
-- 
2.43.0


From a14f802ca287ef3f1127e02c912dd60e0d804aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 32/82] fix: transpose without permute swaps the last two
 dimensions

---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From c4120bbb4c03b0db7da5aca28d07302acffaa164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 33/82] fix: slice checks its size without overflow

---
 src/backend/base/base_slice.cpp    | 2 +-
 src/backend/base/base_slice_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_slice.cpp b/src/backend/base/base_slice.cpp
index ce24cf2..d88424d 100644
--- a/src/backend/base/base_slice.cpp
+++ b/src/backend/base/base_slice.cpp
@@ -56,7 +56,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
diff --git a/src/backend/base/base_slice_v2.cpp b/src/backend/base/base_slice_v2.cpp
index a46f73b..1795189 100644
--- a/src/backend/base/base_slice_v2.cpp
+++ b/src/backend/base/base_slice_v2.cpp
@@ -33,7 +33,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
-- 
2.43.0


From 399cf9a7666f794cf301ee1caa81e50c40cfd80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 34/82] fix: a backward slice may stop before its first element
 by a negative index

---
 src/backend/base/base_slice_v3.cpp      | 2 +-
 src/backend/base/base_strided_slice.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..ed01d60 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -47,7 +47,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..72f6d89 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -71,7 +71,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
-- 
2.43.0


From 215f529c2304346fb1c24221076b7e1d32cf39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 35/82] fix: a slice step of zero is an error

---
 src/backend/base/base_slice_v3.cpp      | 8 ++++----
 src/backend/base/base_strided_slice.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index ed01d60..d007374 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -23,6 +23,9 @@ namespace ts {
         }
 
         static int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) {
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
+            }
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -54,11 +57,8 @@ namespace ts {
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
-                return 0;
+                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             }
         }
 
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 72f6d89..4639787 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -47,6 +47,9 @@ namespace ts {
         }
 
         int infer_output(int x, int &begin, int &end, int stride, bool begin_flag, bool end_flag) {
+            if (stride == 0) {
+                TS_LOG_ERROR << "slice step cant not be zero" << eject;
+            }
             // begin \in [0, x)
             // end \in [-1, x]
             if (begin_flag) {
@@ -78,11 +81,8 @@ namespace ts {
 
             if (stride > 0) {
                 return begin < end ? (end - begin - 1) / stride + 1 : 0;
-            } else if (stride < 0) {
-                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             } else {
-                TS_LOG_ERROR << "slice step cant not be zero";
-                return 0;
+                return begin > end ? (begin - end - 1) / -stride + 1 : 0;
             }
         }
 
-- 
2.43.0


From 1dce34db101757b90c27d6089f48e9899e7487aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 36/82] fix: an ellipsis of a slice may cover no dimension and
 never a negative number

---
 src/backend/base/base_slice_v3.cpp      | 6 ++++--
 src/backend/base/base_strided_slice.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index d007374..a953538 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -113,7 +113,7 @@ namespace ts {
             auto ellipsis_ones = bit_ones(ellipsis_mask);
             if (ellipsis_ones > 1) return false;
 
-            size_t ellipsis_index = 0;
+            size_t ellipsis_index = slice_size;
             Shape ellipsis_shape;
 
             // deal ellipsis
@@ -127,12 +127,14 @@ namespace ts {
                     ++left_count;
                     if (new_axis_mask & (1 << i)) --left_count;
                 }
+                if (i >= slice_size) return false;
                 ellipsis_index = i;
                 for (++i; i < slice_size; ++i) {
                     ++right_count;
                     if (new_axis_mask & (1 << i)) --right_count;
                 }
                 auto ellipsis_count = int(x.size()) - left_count - right_count;
+                if (ellipsis_count < 0) return false;
                 in.clear();
                 in.insert(in.end(), x.begin(), x.begin() + left_count);
                 in.insert(in.end(), std::accumulate(x.begin() + left_count, x.begin() + left_count + ellipsis_count, 1,
@@ -198,7 +200,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (i == int(ellipsis_index)) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 4639787..4c6c272 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -138,7 +138,7 @@ namespace ts {
             auto ellipsis_ones = bit_ones(ellipsis_mask);
             if (ellipsis_ones > 1) return false;
 
-            size_t ellipsis_index = 0;
+            size_t ellipsis_index = slice_size;
             Shape ellipsis_shape;
 
             // deal ellipsis
@@ -152,12 +152,14 @@ namespace ts {
                     ++left_count;
                     if (new_axis_mask & (1 << i)) --left_count;
                 }
+                if (i >= slice_size) return false;
                 ellipsis_index = i;
                 for (++i; i < slice_size; ++i) {
                     ++right_count;
                     if (new_axis_mask & (1 << i)) --right_count;
                 }
                 auto ellipsis_count = int(x.size()) - left_count - right_count;
+                if (ellipsis_count < 0) return false;
                 in.clear();
                 in.insert(in.end(), x.begin(), x.begin() + left_count);
                 in.insert(in.end(), std::accumulate(x.begin() + left_count, x.begin() + left_count + ellipsis_count, 1, std::multiplies<int>()));
@@ -221,7 +223,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (i == int(ellipsis_index)) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
-- 
2.43.0


From 05d86592d913590365c7179cc8a4571e3cc07ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 37/82] fix: the range of a new axis in a slice is ignored

---
 src/backend/base/base_slice_v3.cpp      | 4 ++++
 src/backend/base/base_strided_slice.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index a953538..13a134f 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -155,6 +155,10 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) {
                         if (i > in.size()) return false;
                         in.insert(in.begin() + i, 1);
+                        if (i == ellipsis_index) continue;
+                        stride[i] = 1;
+                        begin_mask |= 1 << i;
+                        end_mask |= 1 << i;
                     }
                 }
             }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 4c6c272..0113663 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -179,6 +179,10 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) {
                         if (i > in.size()) return false;
                         in.insert(in.begin() + i, 1);
+                        if (i == ellipsis_index) continue;
+                        stride[i] = 1;
+                        begin_mask |= 1 << i;
+                        end_mask |= 1 << i;
                     }
                 }
             }
-- 
2.43.0


From 940cafe95dec3f4f168ae3801769d8ebad997468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:09 +0000
Subject: [PATCH 38/82] fix: shrinking an axis takes the element at begin, also
 when begin is negative

---
 src/backend/base/base_slice_v3.cpp      | 9 +++++++++
 src/backend/base/base_strided_slice.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 13a134f..720761a 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -186,6 +186,15 @@ namespace ts {
             out.resize(slice_size, 0);
             {
                 for (size_t i = 0; i < slice_size; ++i) {
+                    if ((shrink_axis_mask & (1 << i)) && i != ellipsis_index && !(new_axis_mask & (1 << i))) {
+                        // take the single element at begin
+                        if (begin[i] < -in[i] || begin[i] >= in[i]) return false;
+                        if (begin[i] < 0) begin[i] += in[i];
+                        end[i] = begin[i] + 1;
+                        stride[i] = 1;
+                        out[i] = 1;
+                        continue;
+                    }
                     out[i] = infer_output(in[i], begin[i], end[i], stride[i], bool(begin_mask & (1 << i)),
                                           bool(end_mask & (1 << i)));
                 }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 0113663..e916192 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -210,6 +210,15 @@ namespace ts {
             out.resize(slice_size, 0);
             {
                 for (size_t i = 0; i < slice_size; ++i) {
+                    if ((shrink_axis_mask & (1 << i)) && i != ellipsis_index && !(new_axis_mask & (1 << i))) {
+                        // take the single element at begin
+                        if (begin[i] < -in[i] || begin[i] >= in[i]) return false;
+                        if (begin[i] < 0) begin[i] += in[i];
+                        end[i] = begin[i] + 1;
+                        stride[i] = 1;
+                        out[i] = 1;
+                        continue;
+                    }
                     out[i] = infer_output(in[i], begin[i], end[i], stride[i], bool(begin_mask & (1 << i)), bool(end_mask & (1 << i)));
                 }
             }
-- 
2.43.0


From 7a0744f10ececffda8b03b70e702e76d1694ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 39/82] fix: slice along a negative axis, and with as many ends
 and steps as starts

---
 src/backend/base/base_slice_v3.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 720761a..2313154 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -373,6 +373,8 @@ namespace ts {
             } else {
                 steps = Shape(slice_size, 1);
             }
+            TS_AUTO_CHECK(ends.size() == starts.size());
+            TS_AUTO_CHECK(steps.size() == starts.size());
 
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
@@ -404,7 +406,7 @@ namespace ts {
             for (int32_t i = 0; i < slice_size; ++i) {
                 auto start = starts[i];
                 auto end = ends[i];
-                auto axis = axes[i];
+                auto axis = axes[i] < 0 ? axes[i] + dims : axes[i];
                 auto step = steps[i];
 
                 m_begin[axis] = start;
-- 
2.43.0


From 2a55b830c7c2de9dd9150229f530091aa32de6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 40/82] fix: gather checks its indices and leaves the given
 tensor alone

---
 src/backend/base/base_gather.cpp          | 11 ++++++-----
 src/backend/base/base_gather_elements.cpp |  9 ++++++---
 src/backend/base/base_gatherv2.cpp        | 13 ++++++++++---
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..67bcff4 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -60,12 +60,13 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto& indices_viewed = indices;
+            // work on a copy: the indices may be the caller's tensor
+            auto indices_viewed = indices.clone();
+            auto indices_data = indices_viewed.data<int32_t>();
+            auto indices_limit = x.size(m_axis < 0 ? m_axis + int(x.dims()) : m_axis);
             for (int i = 0; i < indices_viewed.count(); ++i) {
-
-                indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
-                                                    indices_viewed.data<int32_t>()[i];
+                if (indices_data[i] < 0) indices_data[i] += indices_limit;
+                TS_AUTO_CHECK(indices_data[i] >= 0 && indices_data[i] < indices_limit);
             }
             indices_viewed = indices_viewed.view(memory_device);
 
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..4aa6524 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -48,13 +48,16 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto& indices_viewed = indices;
+            // work on a copy: the indices may be the caller's tensor
+            auto indices_viewed = indices.clone();
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto indices_limit = x.size(m_axis < 0 ? m_axis + int(x.dims()) : m_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
-                indices_data[i] = v < 0 ? v + indices_limit : v;
+                if (v < 0) v += indices_limit;
+                TS_AUTO_CHECK(v >= 0 && v < indices_limit);
+                indices_data[i] = v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
diff --git a/src/backend/base/base_gatherv2.cpp b/src/backend/base/base_gatherv2.cpp
index 7ea6f3b..b86a813 100644
--- a/src/backend/base/base_gatherv2.cpp
+++ b/src/backend/base/base_gatherv2.cpp
@@ -54,9 +54,16 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto indices = tensor::cast(INT32, stack[1]).view(memory_device);
-            TS_AUTO_CHECK(indices.dtype() == INT32);
-            auto output_proto = infer_gather(stack[0], indices);
+            auto host_indices = tensor::cast(INT32, stack[1]);
+            TS_AUTO_CHECK(host_indices.dtype() == INT32);
+            auto output_proto = infer_gather(stack[0], host_indices);
+
+            auto depth = host_indices.size(host_indices.dims() - 1);
+            auto indices_data = host_indices.data<int32_t>();
+            for (int i = 0; i < host_indices.count(); ++i) {
+                TS_AUTO_CHECK(indices_data[i] >= 0 && indices_data[i] < x.size(i % depth));
+            }
+            auto indices = host_indices.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-- 
2.43.0


From afb5a63aba69987b3bf626fa1421ceb8596cc841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 41/82] fix: gather_elements takes every index along its axis

---
 src/backend/base/base_gather_elements.cpp |  6 +++
 src/kernels/cpu/gather_elements.cpp       | 56 +++++++++++++----------
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 4aa6524..73530ad 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -23,6 +23,12 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
+            TS_AUTO_CHECK(indices.dims() == x.dims());
+
+            if (axis < 0) axis += dims;
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == axis || indices.size(i) == x.size(i));
+            }
 
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..ca9ed73 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -29,27 +29,31 @@ namespace ts {
                                          std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            auto depth = out.size(axis);
+            HypeShape norm_out_shape({number, depth, width});
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    out_data[out_index] = x_data[x_index];
+                for (int k = 0; k < depth; ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        out_data[out_index] = x_data[x_index];
+                    }
                 }
             }
         }
@@ -91,7 +95,8 @@ namespace ts {
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
 
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            auto depth = out.size(axis);
+            HypeShape norm_out_shape({number, depth, width});
 
             auto bytes = x.proto().type_bytes();
 
@@ -100,22 +105,25 @@ namespace ts {
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                for (int k = 0; k < depth; ++k) {
+                    norm_out_coord[1] = k;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        auto src_ptr = x_data + x_index * bytes;
+                        auto dst_ptr = out_data + out_index * bytes;
+                        memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                    }
                 }
             }
         }
-- 
2.43.0


From 13be7918398f33b7b2f46dd1c165823c982e217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 42/82] fix: scatter_nd checks its indices and the shape of its
 updates

---
 src/backend/base/base_scatter_nd.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/backend/base/base_scatter_nd.cpp b/src/backend/base/base_scatter_nd.cpp
index e9a82ba..2fc623a 100644
--- a/src/backend/base/base_scatter_nd.cpp
+++ b/src/backend/base/base_scatter_nd.cpp
@@ -24,13 +24,26 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            data = data.view(memory_device);
-            indices = indices.view(memory_device);
-            updates = updates.view(memory_device);
+            // each index names a slice of data, which the update of that index replaces
+            TS_AUTO_CHECK(data.dims() >= 1);
+            TS_AUTO_CHECK(indices.dims() == 1 || (indices.dims() == 2 && indices.size(1) == 1));
+            Shape updates_shape = data.sizes();
+            updates_shape[0] = indices.size(0);
+            TS_AUTO_CHECK(updates.has_shape(updates_shape));
+
+            auto host_indices = indices.view(MemoryDevice(CPU));
+            for (int i = 0; i < host_indices.count(); ++i) {
+                auto index = host_indices.data<int32_t>(i);
+                TS_AUTO_CHECK(index >= 0 && index < data.size(0));
+            }
+
+            auto viewed_data = data.view(memory_device);
+            auto viewed_indices = indices.view(memory_device);
+            auto viewed_updates = updates.view(memory_device);
 
             Tensor &out = *stack.push(output[0], memory_device);
 
-            scatter(data, indices, updates, out);
+            scatter(viewed_data, viewed_indices, viewed_updates, out);
 
             return 1;
         }
-- 
2.43.0


From de2a7676304d7d99a066a3482ead0817922d0d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 43/82] fix: the parts of a split cover exactly the split
 extent

---
 src/backend/base/base_split.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..8b1ffb0 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -26,12 +26,17 @@ namespace ts {
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
             std::vector<Tensor::Prototype> shapes;
+            int left = x_shape[dim];
             for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0 && size <= left);
+                left -= size;
                 auto shape = x_shape;
                 shape[dim] = size;
                 shapes.emplace_back(x.dtype(), shape);
             }
 
+            TS_AUTO_CHECK(left == 0);
+
             return shapes;
         }
 
-- 
2.43.0


From 699df8bc649e5ef0a481d8442d881a5c4a3a4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 44/82] fix: chunk makes no more parts than there are bins

---
 src/backend/base/base_chunk.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..f662073 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -46,9 +46,10 @@ namespace ts {
 
             auto bins = split_bins(0, dim_size, m_chunks);
 
-            output.resize(m_chunks);
+            // there may be fewer bins than chunks, like 4 elements in 3 chunks are [0, 2), [2, 4)
+            output.resize(bins.size());
 
-            for (int i = 0; i < m_chunks; ++i) {
+            for (size_t i = 0; i < bins.size(); ++i) {
                 DTYPE proto_dtype = x.dtype();
                 Shape proto_shape = x.sizes();
                 proto_shape[fixed_dim] = bins[i].second - bins[i].first;
@@ -60,7 +61,7 @@ namespace ts {
 
         int Chunk::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             infer_return_dim(stack, m_chunks, m_dim, output);
-            return m_chunks;
+            return int(output.size());
         }
 
         int Chunk::run(Stack &stack) {
-- 
2.43.0


From 7f3e8306e523ef834b151e7a6f90cf2b85c78a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 45/82] fix: crop_to keeps its negative axis from one run to
 the next

---
 src/kernels/cpu/crop_to.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..0684c13 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -98,7 +98,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + int(x.dims());
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From 012fcb1d0a7f21cb236842b0b81c193faee06fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 46/82] fix: negative padding of the first dimension stays
 inside both tensors

---
 src/kernels/cpu/pad2d_algorithm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..b8db785 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -32,6 +32,8 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
+            num = padding[0][0] < 0 ? num + padding[0][0] : num;
+            num = padding[0][1] < 0 ? num + padding[0][1] : num;
             int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
             dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
             int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-- 
2.43.0


From 36d2877f053b37b0fe73806b6941fad7b27f7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 47/82] fix: the axes of squeeze count in the shape of its
 input

---
 src/kernels/cpu/squeeze.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/kernels/cpu/squeeze.cpp b/src/kernels/cpu/squeeze.cpp
index a9a8bc1..378200e 100644
--- a/src/kernels/cpu/squeeze.cpp
+++ b/src/kernels/cpu/squeeze.cpp
@@ -35,20 +35,19 @@ namespace ts {
                         }
                     }
                 } else {
-                    for (auto axis_it = m_axes.rbegin(); axis_it != m_axes.rend(); ++axis_it) {
-                        auto axis = *axis_it;
-                        auto max_axis = int(shape.size());
+                    // every axis counts in the shape of x
+                    auto max_axis = int(shape.size());
+                    std::vector<bool> squeezed(shape.size(), false);
+                    for (auto axis : m_axes) {
                         axis = axis >= 0 ? axis : (max_axis + axis);
-                        if (axis < 0 || axis >= max_axis) {
+                        if (axis < 0 || axis >= max_axis || shape[axis] != 1 || squeezed[axis]) {
                             TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
                                          << " with axes=" << to_string(m_axes) << eject;
                         }
-                        auto it = shape.begin() + axis;
-                        if (*it != 1) {
-                            TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
-                                         << " with axes=" << to_string(m_axes) << eject;
-                        }
-                        shape.erase(it);
+                        squeezed[axis] = true;
+                    }
+                    for (int axis = max_axis - 1; axis >= 0; --axis) {
+                        if (squeezed[axis]) shape.erase(shape.begin() + axis);
                     }
                 }
                 return std::move(shape);
-- 
2.43.0


From 85c490549e69e42cbdd6d4052eac2c1cbb9c6b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 48/82] fix: unsqueeze may insert before the first dimension by
 a negative axis

---
 src/backend/base/base_unsqueeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_unsqueeze.cpp b/src/backend/base/base_unsqueeze.cpp
index ede2ee7..c85a489 100644
--- a/src/backend/base/base_unsqueeze.cpp
+++ b/src/backend/base/base_unsqueeze.cpp
@@ -34,7 +34,7 @@ namespace ts {
 
             for (auto axis : m_axes) {
                 auto max_axis = int32_t(shape.size());
-                if (axis > max_axis || axis < -max_axis) {
+                if (axis > max_axis || axis < -max_axis - 1) {
                     TS_LOG_ERROR << op() << " do not support unsqueeze shape=" << to_string(x.sizes())
                                  << " with axes=" << to_string(m_axes) << eject;
                 }
-- 
2.43.0


From e0ebe6596c5f5a21f743430a8ba475aaed56ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 49/82] fix: reshaping an empty tensor with a free extent is an
 error

---
 src/backend/base/base_reshape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_reshape.cpp b/src/backend/base/base_reshape.cpp
index b01f186..9f7286f 100644
--- a/src/backend/base/base_reshape.cpp
+++ b/src/backend/base/base_reshape.cpp
@@ -61,6 +61,9 @@ namespace ts {
 
             if (m_broadcast_dim >= 0) {
                 running_count *= m_count_without_dim;
+                if (running_count == 0) {
+                    TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
+                }
                 shape[m_broadcast_dim] = x_count / running_count;
                 if (shape[m_broadcast_dim] * running_count != x_count) {
                     TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
-- 
2.43.0


From 27e198cc2f1f4c3fbd0293267d81d8522895939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 50/82] fix: flatten rejects a dimension in front of the first

---
 src/backend/base/base_flatten.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_flatten.cpp b/src/backend/base/base_flatten.cpp
index a06c69f..bea58c8 100644
--- a/src/backend/base/base_flatten.cpp
+++ b/src/backend/base/base_flatten.cpp
@@ -23,6 +23,9 @@ namespace ts {
         Shape Flatten::newshape(const Tensor &x) {
             auto fixed_dim = m_dim;
             if (fixed_dim < 0) fixed_dim += int(x.dims());
+            if (fixed_dim < 0) {
+                TS_LOG_ERROR << "Can not flatten " << to_string(x.sizes()) << " at dim=" << m_dim << eject;
+            }
             auto need_size = size_t(fixed_dim + 1);
             auto x_size = x.sizes().size();
             if (need_size < x_size) {
-- 
2.43.0


From a22253a4f338156c4c5762ccb0f6918f18760451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 51/82] fix: dimshuffle checks its dimension before using it

---
 src/backend/base/base_dimshuffle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_dimshuffle.cpp b/src/backend/base/base_dimshuffle.cpp
index 7a9d5dd..16b8882 100644
--- a/src/backend/base/base_dimshuffle.cpp
+++ b/src/backend/base/base_dimshuffle.cpp
@@ -42,10 +42,10 @@ namespace ts {
             TS_AUTO_CHECK(input_num == 1);
 
             auto x = stack[0];
-            auto dim_size = x.size(m_dim);
-
             TS_AUTO_CHECK(m_dim < x.dims());
 
+            auto dim_size = x.size(m_dim);
+
             for (auto &i : m_shuffle) {
                 if (i >= dim_size) {
                     TS_LOG_ERROR << "Unsupported x.shape = " << to_string(x.sizes())
-- 
2.43.0


From 783bd19c84ced6a5b6c4893eed0bed69e84040e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 52/82] fix: space_to_batch and batch_to_space check paddings
 and crops

---
 src/backend/base/base_batchtospace4d.cpp | 3 +++
 src/backend/base/base_spacetobatch4d.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/backend/base/base_batchtospace4d.cpp b/src/backend/base/base_batchtospace4d.cpp
index df885e9..2e17420 100644
--- a/src/backend/base/base_batchtospace4d.cpp
+++ b/src/backend/base/base_batchtospace4d.cpp
@@ -54,12 +54,15 @@ namespace ts {
 
             Shape input_shape = x.sizes();
             TS_AUTO_CHECK(input_shape.size() == 4);
+            for (auto crop : m_crop) TS_AUTO_CHECK(crop >= 0);
             TS_AUTO_CHECK((input_shape[0] > 0) && (input_shape[0] % (m_block_shape[0] * m_block_shape[1]) == 0));
 
             Shape output_shape;
             output_shape.resize(4);
             CaculateOutputSize(input_shape, output_shape,m_block_shape[0],m_block_shape[1],m_crop[0],m_crop[1],m_crop[2],m_crop[3]);
 
+            TS_AUTO_CHECK(output_shape[2] >= 0 && output_shape[3] >= 0);
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), output_shape);
 
diff --git a/src/backend/base/base_spacetobatch4d.cpp b/src/backend/base/base_spacetobatch4d.cpp
index 19bbcc7..94dbbb9 100644
--- a/src/backend/base/base_spacetobatch4d.cpp
+++ b/src/backend/base/base_spacetobatch4d.cpp
@@ -53,6 +53,7 @@ namespace ts {
 
             Shape input_shape = x.sizes();
             TS_AUTO_CHECK(input_shape.size() == 4);
+            for (auto padding : m_padding) TS_AUTO_CHECK(padding >= 0);
             TS_AUTO_CHECK((((input_shape[2] + m_padding[0] + m_padding[1]) % m_block_shape[0]) == 0) && 
                           (((input_shape[3] + m_padding[2] + m_padding[3]) % m_block_shape[1]) == 0));
 
-- 
2.43.0


From 6db792f7dc2144cc8c839a29c3085c7bef24d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 53/82] fix: pooling extents are computed with integers

---
 include/backend/common_function.h | 18 ++++++++++++++++--
 src/runtime/inferer/factory.cpp   |  3 ++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/backend/common_function.h b/include/backend/common_function.h
index d954883..ea59646 100644
--- a/include/backend/common_function.h
+++ b/include/backend/common_function.h
@@ -11,11 +11,25 @@
 #include <cmath>
 
 namespace ts {
+    /**
+     * @return the smallest integer not less than a / b, for b > 0
+     */
+    inline int32_t ceil_div(int32_t a, int32_t b) {
+        return a / b + (a % b > 0 ? 1 : 0);
+    }
+
+    /**
+     * @return the largest integer not greater than a / b, for b > 0
+     */
+    inline int32_t floor_div(int32_t a, int32_t b) {
+        return a / b - (a % b < 0 ? 1 : 0);
+    }
+
     inline Size2D pooling2d_forward(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
                                     const Stride2D &stride) {
         Size2D y;
-        y.height = int(std::ceil((x.height + padding.top + padding.bottom - ksize.height) / (float) stride.height + 1));
-        y.width = int(std::ceil((x.width + padding.left + padding.right - ksize.width) / (float) stride.width + 1));
+        y.height = ceil_div(x.height + padding.top + padding.bottom - ksize.height, stride.height) + 1;
+        y.width = ceil_div(x.width + padding.left + padding.right - ksize.width, stride.width) + 1;
         return y;
     }
 
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 7f1af0c..efff167 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -219,7 +219,8 @@ namespace ts {
         TS_STATIC_ACTION(ShapeInferer::Register, "relu", _copy)
 
         static int32_t pooling2d_forward(int32_t x, int32_t padding, int32_t kernel, int32_t stride) {
-            return int32_t(std::ceil((x + padding - kernel) / float(stride) + 1));
+            auto extent = x + padding - kernel;
+            return extent / stride + (extent % stride > 0 ? 1 : 0) + 1;
         }
 
         static TensorPrototype pooling2d(const Node &node, const std::vector<TensorPrototype> &inputs) {
-- 
2.43.0


From cabba6a50b3d4ff7bc49db1429d99997e9c7fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 54/82] fix: dynamic paddings are computed with integers

---
 src/backend/dragon/conv2d_padding.cpp     | 2 +-
 src/backend/dragon/pooling2d_auto_pad.cpp | 8 ++++----
 src/backend/onnx/pooling2d_auto_pad.cpp   | 4 ++--
 src/backend/tf/conv2d_padding.cpp         | 4 ++--
 src/backend/tf/pooling2d_padding.cpp      | 4 ++--
 5 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 99b3576..16b37b9 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -136,7 +136,7 @@ namespace ts {
 
             auto idm = x;
             const int dk = dilation * (ksize - 1) + 1;
-            int odm = int((idm + stride - 1) / float(stride));
+            int odm = ceil_div(idm, stride);
             int padding_needed = std::max<int>(0, (odm - 1) * stride + dk - idm);
 
             auto &y = out.out;
diff --git a/src/backend/dragon/pooling2d_auto_pad.cpp b/src/backend/dragon/pooling2d_auto_pad.cpp
index bc463b7..3d9154e 100644
--- a/src/backend/dragon/pooling2d_auto_pad.cpp
+++ b/src/backend/dragon/pooling2d_auto_pad.cpp
@@ -68,9 +68,9 @@ namespace ts {
         static inline int forward_valid(int x, int ksize, int pad_l, int pad_r, int stride, bool ceil_mode) {
             int y;
             if (ceil_mode) {
-                y = int(std::ceil((x + pad_l + pad_r - ksize) / (float) stride) + 1);
+                y = ceil_div(x + pad_l + pad_r - ksize, stride) + 1;
             } else {
-                y = int(std::floor((x + pad_l + pad_r - ksize) / (float) stride) + 1);
+                y = floor_div(x + pad_l + pad_r - ksize, stride) + 1;
             }
             if ((y - 1) * stride >= (x + pad_l + pad_r)) y--;
             return y;
@@ -123,7 +123,7 @@ namespace ts {
             _out_pad out;
 
             auto idm = x;
-            auto odm = int((idm + stride - 1) / float(stride));
+            auto odm = ceil_div(idm, stride);
             auto padding_needed = std::max<int>(0, (odm - 1) * stride + ksize - idm);
 
             auto &y = out.out;
@@ -133,7 +133,7 @@ namespace ts {
             if (padding == Pooling2DAutoPad::AutoPadType::SAME_UPPER) { DEFINE_SAME_PADDING(pad_l, pad_r); }
             else { DEFINE_SAME_PADDING(pad_r, pad_l); }
 
-            y = int(std::ceil(float(x) / stride));
+            y = odm;
 
             return out;
         }
diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index c430e6c..3355794 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -95,7 +95,7 @@ namespace ts {
 
         // VALID: output_spatial_shape[i] = ceil((input_spatial_shape[i] - kernel_spatial_shape[i] + 1) / strides_spatial_shape[i])
         static inline int forward_valid(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil((input_spatial_shape - kernel_spatial_shape + 1) / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape - kernel_spatial_shape + 1, strides_spatial_shape);
         }
 
         static inline Size2D pooling2d_forward_valid(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
@@ -123,7 +123,7 @@ namespace ts {
 
         // SAME_UPPER or SAME_LOWER: output_spatial_shape[i] = ceil(input_spatial_shape[i] / strides_spatial_shape[i])
         static inline int forward_same(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil(input_spatial_shape / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape, strides_spatial_shape);
         }
 
         static inline Size2D pooling2d_forward_same(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..6d5af8f 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -96,7 +96,7 @@ namespace ts {
 
         // VALID: output_spatial_shape[i] = ceil((input_spatial_shape[i] - kernel_spatial_shape[i] + 1) / strides_spatial_shape[i])
         static inline int forward_valid(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil((input_spatial_shape - kernel_spatial_shape + 1) / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape - kernel_spatial_shape + 1, strides_spatial_shape);
         }
 
         static inline Size2D conv2d_forward_valid(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
@@ -127,7 +127,7 @@ namespace ts {
 
         // SAME: output_spatial_shape[i] = ceil(input_spatial_shape[i] / strides_spatial_shape[i])
         static inline int forward_same(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil(input_spatial_shape / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape, strides_spatial_shape);
         }
 
         static inline Size2D conv2d_forward_same(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index aa4478a..492e96c 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -82,7 +82,7 @@ namespace ts {
 
         // VALID: output_spatial_shape[i] = ceil((input_spatial_shape[i] - kernel_spatial_shape[i] + 1) / strides_spatial_shape[i])
         static inline int forward_valid(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil((input_spatial_shape - kernel_spatial_shape + 1) / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape - kernel_spatial_shape + 1, strides_spatial_shape);
         }
 
         static inline Size2D pooling2d_forward_valid(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
@@ -111,7 +111,7 @@ namespace ts {
 
         // SAME: output_spatial_shape[i] = ceil(input_spatial_shape[i] / strides_spatial_shape[i])
         static inline int forward_same(int input_spatial_shape, int kernel_spatial_shape, int strides_spatial_shape) {
-            return int(std::ceil(input_spatial_shape / float(strides_spatial_shape)));
+            return ceil_div(input_spatial_shape, strides_spatial_shape);
         }
 
         static inline Size2D pooling2d_forward_same(const Size2D &x, const Padding2D &padding, const KSize2D &ksize,
-- 
2.43.0


From 351c6bedebf739b6b747a367358a84bc8b343d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 55/82] fix: SAME padding takes nothing from the beginning when
 the stride skips input

---
 src/backend/onnx/pooling2d_auto_pad.cpp | 8 ++++----
 src/backend/tf/conv2d_padding.cpp       | 4 ++--
 src/backend/tf/pooling2d_padding.cpp    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index 3355794..5bb5092 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -144,8 +144,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
@@ -165,8 +165,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = padding_height > 0 ? padding_height / 2 : padding_height;
+            auto half_padding_width = padding_width > 0 ? padding_width / 2 : padding_width;
 
             dynamic_padding.top = static_padding.top + (padding_height - half_padding_height);
             dynamic_padding.left = static_padding.left + (padding_width - half_padding_width);
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 6d5af8f..718b153 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -150,8 +150,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index 492e96c..1018185 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -132,8 +132,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
-- 
2.43.0


From d0956e2bc509823b428afa59452f223a69b3ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 56/82] fix: dragon convolution padding counts the dilation
 after the input

---
 src/backend/dragon/conv2d_padding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 16b37b9..2fedf33 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -172,7 +172,7 @@ namespace ts {
                                                            padding_method);
 
             Size2D expected_output_size(dynamic_output_size[0].out, dynamic_output_size[1].out);
-            Size2D expected_input_size = pooling2d_backward(expected_output_size, static_padding, ksize, stride);
+            Size2D expected_input_size = conv2d_backward(expected_output_size, static_padding, ksize, stride, dilation);
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-- 
2.43.0


From 36f6744fb1284c2dbe5f42b0d517dbce7f0f1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 57/82] fix: max pooling does not read outside of the input for
 a window of padding only

---
 src/kernels/cpu/pooling2d_core.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..900eb92 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -68,6 +68,11 @@ namespace ts {
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
                             //T maxVlue = 0;
+                            if (ihStart >= ihEnd || iwStart >= iwEnd) {
+                                // no input in this window
+                                output_data[outIndex] = 0;
+                                continue;
+                            }
                             T maxVlue = input_data[ihStart * input_w + iwStart];
                             //int count = 0;
                             for (int ih = ihStart; ih < ihEnd; ih++) {
-- 
2.43.0


From 73c7a1e6668d9f3491a30ab5dd46147cfef3025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 58/82] fix: stride 2 max pooling is used only where it is
 implemented

---
 src/kernels/cpu/pooling2d_core.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 900eb92..2b60f6e 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -17,14 +18,28 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        // the stride 2 algorithms write the windows crossing each border once,
+        // and read at least one element of the input in every window
+        static inline bool fit_pooling_s2(int input, int output, int before, int ksize) {
+            int after = (output - 1) * 2 + ksize - before - input;
+            return input >= ksize && after >= 0 && after < ksize
+                   && output >= (before > 0 ? 1 : 0) + (after > 0 ? 1 : 0);
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Tensor &x, const Tensor &out,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // only algorithms for float are implemented
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
             if((stride.height == 2 && stride.width == 2) &&
+              fit_pooling_s2(x.size(2), out.size(2), padding.top, ksize.height) &&
+              fit_pooling_s2(x.size(3), out.size(3), padding.left, ksize.width) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
               (padding.left == 0 || padding.left == 1) &&
@@ -202,7 +217,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x, out, padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
-- 
2.43.0


From 3d2947bd624f9b861ea0e7c0ec8555e6e843c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 59/82] fix: 3x3 depthwise convolution stays inside its output
 for any padding

---
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..8be844b 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -122,10 +124,10 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
-            int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
-            int w_end = padding.right == 0 ? output_width : output_width - padding.right;
+            int h_start = padding.top <= 0 ? 0 : std::min(padding.top, output_height);
+            int h_end = padding.bottom <= 0 ? output_height : output_height - padding.bottom;
+            int w_start = padding.left <= 0 ? 0 : std::min(padding.left, output_width);
+            int w_end = padding.right <= 0 ? output_width : output_width - padding.right;
             
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -300,10 +302,10 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1;
-            int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
-            int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
-            int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
+            int h_start = padding.top <= 0 ? 0 : std::min((padding.top - 1) / 2 + 1, output_height);
+            int h_end = padding.bottom <= 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
+            int w_start = padding.left <= 0 ? 0 : std::min((padding.left - 1) / 2 + 1, output_width);
+            int w_end = padding.right <= 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
 
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
-- 
2.43.0


From 4df46d315c363751db8223a7d4a8821c4520696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:14 +0000
Subject: [PATCH 60/82] fix: 3x3 depthwise convolution does not read after its
 kernel

---
 .../cpu/depthwise_conv2d_algorithm.cpp        | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8be844b..522f248 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -152,7 +152,7 @@ namespace ts {
 //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    float32x4 k2_x4(kernel_at + 5);    // the last three lanes, not reading after the kernel
 //#endif
 
                     int h, w;
@@ -220,9 +220,9 @@ namespace ts {
                             out0_x4 = fmadd(i10_x4, k1_x4, out0_x4, 0);
                             out0_x4 = fmadd(i11_x4, k1_x4, out0_x4, 1);
                             out0_x4 = fmadd(i12_x4, k1_x4, out0_x4, 2);
-                            out0_x4 = fmadd(i20_x4, k2_x4, out0_x4, 0);
-                            out0_x4 = fmadd(i21_x4, k2_x4, out0_x4, 1);
-                            out0_x4 = fmadd(i22_x4, k2_x4, out0_x4, 2);
+                            out0_x4 = fmadd(i20_x4, k2_x4, out0_x4, 1);
+                            out0_x4 = fmadd(i21_x4, k2_x4, out0_x4, 2);
+                            out0_x4 = fmadd(i22_x4, k2_x4, out0_x4, 3);
 
                             out1_x4 = fmadd(i10_x4, k0_x4, out1_x4, 0);
                             out1_x4 = fmadd(i11_x4, k0_x4, out1_x4, 1);
@@ -230,9 +230,9 @@ namespace ts {
                             out1_x4 = fmadd(i20_x4, k1_x4, out1_x4, 0);
                             out1_x4 = fmadd(i21_x4, k1_x4, out1_x4, 1);
                             out1_x4 = fmadd(i22_x4, k1_x4, out1_x4, 2);
-                            out1_x4 = fmadd(i30_x4, k2_x4, out1_x4, 0);
-                            out1_x4 = fmadd(i31_x4, k2_x4, out1_x4, 1);
-                            out1_x4 = fmadd(i32_x4, k2_x4, out1_x4, 2);
+                            out1_x4 = fmadd(i30_x4, k2_x4, out1_x4, 1);
+                            out1_x4 = fmadd(i31_x4, k2_x4, out1_x4, 2);
+                            out1_x4 = fmadd(i32_x4, k2_x4, out1_x4, 3);
 
                             out0_x4.store(out0); out1_x4.store(out1);
                         }
@@ -326,7 +326,7 @@ namespace ts {
 
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    float32x4 k2_x4(kernel_at + 5);    // the last three lanes, not reading after the kernel
 
                     int h, w;
 
@@ -368,9 +368,9 @@ namespace ts {
                             out0_x4 = fmadd(i10_x4, k1_x4, out0_x4, 0);
                             out0_x4 = fmadd(i11_x4, k1_x4, out0_x4, 1);
                             out0_x4 = fmadd(i12_x4, k1_x4, out0_x4, 2);
-                            out0_x4 = fmadd(i20_x4, k2_x4, out0_x4, 0);
-                            out0_x4 = fmadd(i21_x4, k2_x4, out0_x4, 1);
-                            out0_x4 = fmadd(i22_x4, k2_x4, out0_x4, 2);
+                            out0_x4 = fmadd(i20_x4, k2_x4, out0_x4, 1);
+                            out0_x4 = fmadd(i21_x4, k2_x4, out0_x4, 2);
+                            out0_x4 = fmadd(i22_x4, k2_x4, out0_x4, 3);
 
                             out0_x4.store(out0);
                         }
-- 
2.43.0


From 0b95f9586feb24d65d097df4e5c0579f1adde4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:20 +0000
Subject: [PATCH 61/82] fix: packed matrix multiplication computes types other
 than float

---
 src/kernels/cpu/math_cpu.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..392a861 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,24 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            // packed: each full block of 8 rows of A (columns of B) interleaved, each other row (column) on its own
+            const int M_blocked = (M >> 3) << 3;
+            const int N_blocked = (N >> 3) << 3;
+            for (int m = 0; m < M; ++m) {
+                const bool m_blocked = m < M_blocked;
+                for (int n = 0; n < N; ++n) {
+                    const bool n_blocked = n < N_blocked;
+                    const T_IN *a = m_blocked ? A + ((m >> 3) << 3) * K + (m & 7) : A + m * K;
+                    const T_IN *b = n_blocked ? B + ((n >> 3) << 3) * K + (n & 7) : B + n * K;
+                    T_OUT sum = 0;
+                    for (int k = 0; k < K; ++k) {
+                        sum += *a * *b;
+                        a += m_blocked ? 8 : 1;
+                        b += n_blocked ? 8 : 1;
+                    }
+                    C[m * ldc + n] = sum;
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From da9110ea7d2710ad91d411938feefaa901ad5215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 62/82] fix: argmax reads its input with the type of the input

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From e349f787497285773906a742b97ea2ff524f6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 63/82] fix: range is empty when the limit is behind the start
 and counts downwards

---
 src/kernels/cpu/range.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..536b43d 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -21,9 +21,13 @@ namespace ts {
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
+            TS_AUTO_CHECK(delta != 0);
+
+            if (delta > 0 ? start >= limit : start <= limit) return 0;
+
             steps = int((limit - start) / delta);
-           
-            if(steps * delta + start  < limit)  {
+
+            if (delta > 0 ? steps * delta + start < limit : steps * delta + start > limit) {
                 steps++;
             }
             return steps;
-- 
2.43.0


From 1b9626c0d5f12acf940e15ea7397c061df18a20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 64/82] fix: crop_nd predicts the extents it keeps

---
 src/backend/zoo/crop_nd.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..115b1d6 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -47,6 +47,11 @@ namespace ts {
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
 
+            TS_AUTO_CHECK(shape.size() == x.dims());
+            for (size_t i = 0; i < shape.size(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
 
-- 
2.43.0


From ffaf4b0a35c6bf2d45ccadaedfc777ca3fa80814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 65/82] fix: letterbox and scale_resize2d predict batch and
 channels

---
 src/backend/zoo/nhwc_letterbox.cpp      | 2 +-
 src/backend/zoo/nhwc_scale_resize2d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/zoo/nhwc_letterbox.cpp b/src/backend/zoo/nhwc_letterbox.cpp
index abd508e..9fba5e8 100644
--- a/src/backend/zoo/nhwc_letterbox.cpp
+++ b/src/backend/zoo/nhwc_letterbox.cpp
@@ -83,7 +83,7 @@ namespace ts {
             Size2D y_size = infer_size(x_size, m_size);
 
             output.resize(1);
-            output[0] = Tensor::Prototype(x.dtype(), {-1, y_size.height, y_size.width, -1});
+            output[0] = Tensor::Prototype(x.dtype(), {x.size(0), y_size.height, y_size.width, x.size(3)});
 
             return 1;
         }
diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..8095242 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -74,7 +74,7 @@ namespace ts {
             Size2D y_size = infer_size(x_size, m_size);
 
             output.resize(1);
-            output[0] = Tensor::Prototype(x.dtype(), {-1, y_size.height, y_size.width, -1});
+            output[0] = Tensor::Prototype(x.dtype(), {x.size(0), y_size.height, y_size.width, x.size(3)});
 
             return 1;
         }
-- 
2.43.0


From 68ca23faba4a734a8112219bb054b4edd21eb74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:06 +0000
Subject: [PATCH 66/82] fix: prior_box predicts the type it produces

---
 src/kernels/cpu/prior_box.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/prior_box.cpp b/src/kernels/cpu/prior_box.cpp
index d979dda..31a0a7f 100644
--- a/src/kernels/cpu/prior_box.cpp
+++ b/src/kernels/cpu/prior_box.cpp
@@ -153,7 +153,7 @@ namespace ts {
                 TS_AUTO_ASSERT(stack.size() >= 1);
 
                 output.resize(1);
-                output[0] = Tensor::Prototype(stack[0].dtype(), infer_top_shape(stack[0]));
+                output[0] = Tensor::Prototype(FLOAT32, infer_top_shape(stack[0]));
                 return 1;
             }
 
-- 
2.43.0


From dd0dd3032ffeace27b7fc8dd736124e005097877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:53 +0000
Subject: [PATCH 67/82] fix: resize2d and affine_sample2d read inside images
 with few rows or columns

---
 src/kernels/cpu/affine_sample2d.cpp | 66 +++++++++++++++++-----------
 src/kernels/cpu/resize2d.cpp        | 67 ++++++++++++++++++-----------
 2 files changed, 81 insertions(+), 52 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..f0625ab 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -87,9 +87,16 @@ namespace ts {
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
                     lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
 
+                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
+                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
+
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbours, which are the pixel itself in an image with a single column or row
+                    int n_x_t = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_t = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +105,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_t) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_t * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_t * src_width + n_x_t) * channels + c]));
 
                     } //end for c
                 }
@@ -262,19 +269,19 @@ namespace ts {
                         //continue;
                     }
                     else{
-                        if (sy < 1) {
+                        if (x_height >= 4 && sy < 1) {
                             fy = 0;
                             sy = 1;
                         }
-                        if (sy >= x_height - 3) {
+                        if (x_height >= 4 && sy >= x_height - 3) {
                             fy = 0;
                             sy = x_height - 3;
                         }
-                        if (sx < 1) {
+                        if (x_width >= 4 && sx < 1) {
                             fx = 0;
                             sx = 1;
                         }
-                        if (sx >= x_width - 3) {
+                        if (x_width >= 4 && sx >= x_width - 3) {
                             fx = 0;
                             sx = x_width - 3;
                         }
@@ -289,27 +296,34 @@ namespace ts {
                         coeffsX[2] = ((A + 2) * (1 - fx) - (A + 3)) * (1 - fx) * (1 - fx) + 1;
                         coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
+                        // an image with less than 4 rows or columns repeats its border
+                        int rows[4], cols[4];
+                        for (int t = 0; t < 4; ++t) {
+                            rows[t] = std::max(0, std::min(sy - 1 + t, x_height - 1)) * srcrows;
+                            cols[t] = std::max(0, std::min(sx - 1 + t, x_width - 1)) * channels;
+                        }
+
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[rows[0] + cols[0] + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[rows[1] + cols[0] + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[rows[2] + cols[0] + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[rows[3] + cols[0] + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[rows[0] + cols[1] + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[rows[1] + cols[1] + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[rows[2] + cols[1] + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[rows[3] + cols[1] + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[rows[0] + cols[2] + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[rows[1] + cols[2] + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[rows[2] + cols[2] + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[rows[3] + cols[2] + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[rows[0] + cols[3] + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[rows[1] + cols[3] + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[rows[2] + cols[3] + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[rows[3] + cols[3] + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..ee84bfc 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -1,6 +1,7 @@
 #include <kernels/cpu/resize2d.h>
 #include <core/tensor_builder.h>
 #include <memory>
+#include <algorithm>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -39,9 +40,16 @@ namespace ts {
                     lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
                     lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
 
+                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
+                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
+
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    // the neighbours, which are the pixel itself in an image with a single column or row
+                    int n_x_t = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_t = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +58,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_t) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_t * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_t * src_width + n_x_t) * channels + c]);
 
                     }//end for c
                 }
@@ -80,12 +88,12 @@ namespace ts {
                 fy -= sy;
                 //sy = std::min(sy, src_height - 3);
                 //sy = std::max(1, sy);
-                if (sy < 1) {
+                if (src_height >= 4 && sy < 1) {
                     fy = 0;
                     sy = 1;
                 }
 
-                if (sy >= src_height - 3) {
+                if (src_height >= 4 && sy >= src_height - 3) {
                     fy = 0, sy = src_height - 3;
                 }
 
@@ -102,10 +110,10 @@ namespace ts {
                     int sx = int(floor(fx));
                     fx -= sx;
 
-                    if (sx < 1) {
+                    if (src_width >= 4 && sx < 1) {
                         fx = 0, sx = 1;
                     }
-                    if (sx >= src_width - 3) {
+                    if (src_width >= 4 && sx >= src_width - 3) {
                         fx = 0, sx = src_width - 3;
                     }
 
@@ -115,27 +123,34 @@ namespace ts {
                     coeffsX[2] = ((A + 2) * (1 - fx) - (A + 3)) * (1 - fx) * (1 - fx) + 1;
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
+                    // an image with less than 4 rows or columns repeats its border
+                    int rows[4], cols[4];
+                    for (int t = 0; t < 4; ++t) {
+                        rows[t] = std::max(0, std::min(sy - 1 + t, src_height - 1)) * srcrows;
+                        cols[t] = std::max(0, std::min(sx - 1 + t, src_width - 1)) * channels;
+                    }
+
                     for (int k = 0; k < channels; ++k) {
                         dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
+                                src_im[rows[0] + cols[0] + k] * coeffsX[0] * coeffsY[0] +
+                                src_im[rows[1] + cols[0] + k] * coeffsX[0] * coeffsY[1] +
+                                src_im[rows[2] + cols[0] + k] * coeffsX[0] * coeffsY[2] +
+                                src_im[rows[3] + cols[0] + k] * coeffsX[0] * coeffsY[3] +
+
+                                src_im[rows[0] + cols[1] + k] * coeffsX[1] * coeffsY[0] +
+                                src_im[rows[1] + cols[1] + k] * coeffsX[1] * coeffsY[1] +
+                                src_im[rows[2] + cols[1] + k] * coeffsX[1] * coeffsY[2] +
+                                src_im[rows[3] + cols[1] + k] * coeffsX[1] * coeffsY[3] +
+
+                                src_im[rows[0] + cols[2] + k] * coeffsX[2] * coeffsY[0] +
+                                src_im[rows[1] + cols[2] + k] * coeffsX[2] * coeffsY[1] +
+                                src_im[rows[2] + cols[2] + k] * coeffsX[2] * coeffsY[2] +
+                                src_im[rows[3] + cols[2] + k] * coeffsX[2] * coeffsY[3] +
+
+                                src_im[rows[0] + cols[3] + k] * coeffsX[3] * coeffsY[0] +
+                                src_im[rows[1] + cols[3] + k] * coeffsX[3] * coeffsY[1] +
+                                src_im[rows[2] + cols[3] + k] * coeffsX[3] * coeffsY[2] +
+                                src_im[rows[3] + cols[3] + k] * coeffsX[3] * coeffsY[3]));
 
                     }//end k
                 }
-- 
2.43.0


From 163a80879e622cd367548f4f693760a5b961c903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:09 +0000
Subject: [PATCH 68/82] fix: v2 convolutions and pooling reject a setting every
 time it is not supported

---
 src/kernels/cpu/conv2d_v2.cpp           | 12 ++++++++----
 src/kernels/cpu/conv2d_winograd_v2.cpp  | 12 ++++++++----
 src/kernels/cpu/depthwise_conv2d_v2.cpp | 12 ++++++++----
 src/kernels/cpu/pooling2d_v2.cpp        | 10 ++++++++++
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..0b2ef01 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -63,9 +63,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
@@ -80,9 +82,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/conv2d_winograd_v2.cpp b/src/kernels/cpu/conv2d_winograd_v2.cpp
index 21425d7..4445926 100644
--- a/src/kernels/cpu/conv2d_winograd_v2.cpp
+++ b/src/kernels/cpu/conv2d_winograd_v2.cpp
@@ -53,9 +53,11 @@ namespace ts{
 
             auto padding = tensor::cast(INT32, stack[1]);
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d_winograd->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
@@ -70,9 +72,11 @@ namespace ts{
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d_winograd->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d_winograd->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d_winograd->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..e986f75 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -61,9 +61,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
@@ -78,9 +80,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                // keep padding only after the operator accepted it, a rejected one must be rejected again
+                m_op_conv2d->set(name::padding, padding.clone());
+                m_int_padding4x2 = Tensor();
                 m_op_conv2d->init();
+                m_int_padding4x2 = padding.clone();
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..fb0bf66 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -74,7 +74,12 @@ namespace ts {
             }
 
             if (updated) {
+                // keep settings only after the operator accepted them, rejected ones must be rejected again
+                m_padding_int4x2 = m_ksize_int4 = m_stride_int4 = Tensor();
                 m_op_pooling2d->init();
+                m_padding_int4x2 = padding.clone();
+                m_ksize_int4 = ksize.clone();
+                m_stride_int4 = stride.clone();
             }
 
             stack.push(0);
@@ -107,7 +112,12 @@ namespace ts {
             }
 
             if (updated) {
+                // keep settings only after the operator accepted them, rejected ones must be rejected again
+                m_padding_int4x2 = m_ksize_int4 = m_stride_int4 = Tensor();
                 m_op_pooling2d->init();
+                m_padding_int4x2 = padding.clone();
+                m_ksize_int4 = ksize.clone();
+                m_stride_int4 = stride.clone();
             }
 
 
-- 
2.43.0


From 75869c9bf43401119a5f54d0cb1e44b292c56209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:42 +0000
Subject: [PATCH 69/82] fix: winograd convolution transforms the kernel again
 when it is another one

---
 include/backend/base/base_conv2d_winograd.h | 1 +
 src/backend/base/base_conv2d_winograd.cpp   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/backend/base/base_conv2d_winograd.h b/include/backend/base/base_conv2d_winograd.h
index 30f9ddb..edddb2c 100644
--- a/include/backend/base/base_conv2d_winograd.h
+++ b/include/backend/base/base_conv2d_winograd.h
@@ -35,6 +35,7 @@ namespace ts{
             float m_padding_value;
             bool m_kernel_transformed;
             Tensor m_k_transformed;
+            Tensor m_k_origin;  // the kernel m_k_transformed was made from
         };
     }
 }
diff --git a/src/backend/base/base_conv2d_winograd.cpp b/src/backend/base/base_conv2d_winograd.cpp
index bcc34b0..e204ebd 100644
--- a/src/backend/base/base_conv2d_winograd.cpp
+++ b/src/backend/base/base_conv2d_winograd.cpp
@@ -143,7 +143,10 @@ namespace ts {
             }
 
             //warm up
-            if(!m_kernel_transformed || m_k_transformed.empty()){
+            if(m_k_transformed.empty() ||
+               kernel_tensor.data() != m_k_origin.data() ||
+               kernel_tensor.dtype() != m_k_origin.dtype() ||
+               !kernel_tensor.has_shape(m_k_origin.sizes())){
                 //select winograd mode
                 WinogradConv2DMode winograd_mode;
                 KernelCommonFunc<float>::winograd_mode_select_on_arm(x_tensor.sizes(), kernel_tensor.size(0), winograd_mode);
@@ -158,6 +161,7 @@ namespace ts {
 
                 conv2d_tranform_kernel(m_winograd_mode, kernel_tensor, m_k_transformed);
 
+                m_k_origin = kernel_tensor;
                 m_kernel_transformed = true;
             }
 
-- 
2.43.0


From e183fa2155fffb4d23f4dbf72c92c8eccf67340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:54 +0000
Subject: [PATCH 70/82] fix: roi_align and proposal read the parameters their
 predictions use

---
 src/kernels/cpu/proposal.cpp  | 2 ++
 src/kernels/cpu/roi_align.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/kernels/cpu/proposal.cpp b/src/kernels/cpu/proposal.cpp
index e6166a6..669ae44 100644
--- a/src/kernels/cpu/proposal.cpp
+++ b/src/kernels/cpu/proposal.cpp
@@ -24,6 +24,8 @@ namespace ts {
             int m_output_size;
 
             void init() override {
+                base::Proposal::init();
+
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ProposalOp<dragon::CPUContext>>(this, &ws);
                 auto max_level = tensor::to_int(get("max_level"));
diff --git a/src/kernels/cpu/roi_align.cpp b/src/kernels/cpu/roi_align.cpp
index dc51223..5232955 100644
--- a/src/kernels/cpu/roi_align.cpp
+++ b/src/kernels/cpu/roi_align.cpp
@@ -23,6 +23,8 @@ namespace ts {
             std::shared_ptr<dragon::ROIAlignOp<dragon::CPUContext>> m_dragon;
 
             void init() override {
+                base::ROIAlign::init();
+
                 dragon::Workspace ws;
                 m_dragon = std::make_shared<dragon::ROIAlignOp<dragon::CPUContext>>(this, &ws);
             }
-- 
2.43.0


From e32c65c35d861dff2ec3228a4a84dec92b49875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 71/82] fix: the C interface catches every exception, not only
 those of this library

---
 src/api/declaration.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..5b7cd00 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -5,6 +5,7 @@
 #ifndef TENNIS_API_DECLARATION_H
 #define TENNIS_API_DECLARATION_H
 
+#include <exception>
 #include <memory>
 #include "errno.h"
 #include "utils/except.h"
@@ -35,13 +36,19 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
+} catch (...) { \
+ts::api::SetLEM("Unknown exception."); \
+return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetLEM(e.what()); \
+} catch (...) { \
+ts::api::SetLEM("Unknown exception."); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From e4065c8fef1922348c356a387409bcafb294bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 72/82] fix: C interface functions reject null arguments
 instead of reading them

---
 src/api/common.cpp        | 2 +-
 src/api/operator.cpp      | 7 +++++++
 src/api/operator_gpu.cpp  | 1 +
 src/api/plugin.cpp        | 4 +++-
 src/api/tensor.cpp        | 2 ++
 src/api/workbench.cpp     | 3 +++
 src/runtime/workbench.cpp | 4 ++++
 7 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..0d632ec 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -147,6 +147,8 @@ void ts_Operator_Register(const char *device, const char *op,
     if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
         TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
     }
+    if (!device) throw Exception("NullPointerException: @param: 1");
+    if (!op) throw Exception("NullPointerException: @param: 2");
     std::string cpp_device(device);
     std::string cpp_op(op);
     auto creator = [=]() -> Operator::shared {
@@ -160,6 +162,8 @@ void ts_Operator_Register(const char *device, const char *op,
 
 ts_Tensor *ts_OperatorParams_get(const ts_OperatorParams *dict, const char *param) {
     TRY_HEAD
+    if (!dict) throw Exception("NullPointerException: @param: 1");
+    if (!param) throw Exception("NullPointerException: @param: 2");
     std::string cpp_param(param);
     if (dict->op->has(cpp_param)) {
         std::unique_ptr<ts_Tensor> value(new ts_Tensor(dict->op->get(cpp_param)));
@@ -177,6 +181,7 @@ void ts_Operator_Throw(const char *message) {
 }
 
 void ts_Operator_ThrowV2(const char *message, const char *filename, int32_t line_number) {
+    if (filename == nullptr) filename = "";
     if (message == nullptr) {
         LogStream(LOG_ERROR) << "[" << filename << ":" << line_number << "]: [TS API]: Unknown exception." << eject;
     } else {
@@ -190,6 +195,8 @@ void ts_Operator_RegisterEx(const char *device, const char *op, ts_new_Operator
         if (f_new == nullptr || f_free == nullptr || f_init == nullptr || f_run == nullptr) {
             TS_LOG_ERROR << "f_new, f_free, f_init and f_run can't be nullptr" << eject;
         }
+        if (!device) throw Exception("NullPointerException: @param: 1");
+        if (!op) throw Exception("NullPointerException: @param: 2");
         std::string cpp_device(device);
         std::string cpp_op(op);
         auto creator = [=]() -> Operator::shared {
diff --git a/src/api/operator_gpu.cpp b/src/api/operator_gpu.cpp
index 9689159..c2c22f5 100644
--- a/src/api/operator_gpu.cpp
+++ b/src/api/operator_gpu.cpp
@@ -13,6 +13,7 @@ using namespace ts;
 
 void *ts_OperatorContext_cuda_stream(ts_OperatorContext *context) {
     TRY_HEAD
+        if (!context) throw Exception("NullPointerException: @param: 1");
         if (context->device->computing_device != GPU)
             TS_LOG_ERROR << "The computing device is not gpu! " << eject;
         CUDAContextHandle* handle = reinterpret_cast<CUDAContextHandle*>(context->device->handle);
diff --git a/src/api/plugin.cpp b/src/api/plugin.cpp
index a87925c..6d39096 100644
--- a/src/api/plugin.cpp
+++ b/src/api/plugin.cpp
@@ -36,19 +36,20 @@ ts_op_creator_map* ts_plugin_get_creator_map(){
 
 void ts_plugin_flush_creator(ts_op_creator_map* creator_map){
     TRY_HEAD
+    if (!creator_map) throw Exception("NullPointerException: @param: 1");
     OperatorCreator::flush(creator_map->map);
     TRY_TAIL
 }
 
 void ts_plugin_free_creator_map(ts_op_creator_map* creator_map){
     TRY_HEAD
-    creator_map->map.clear();
     delete(creator_map);
     TRY_TAIL
 }
 
 ts_device_context* ts_plugin_initial_device_context(const ts_Device *device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     std::shared_ptr<DeviceContext> device_context = std::make_shared<DeviceContext>();
     device_context->initialize(ComputingDevice(device->type, device->id));
     DeviceContext::Switch(device_context.get());
@@ -64,6 +65,7 @@ void ts_plugin_free_device_context(ts_device_context* device){
 
 void ts_plugin_bind_device_context(ts_device_context* device){
     TRY_HEAD
+    if (!device) throw Exception("NullPointerException: @param: 1");
     DeviceContext::Switch(device->pointer.get());
     TRY_TAIL
 }
diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..a271692 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,8 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (!shape && shape_len > 0) throw Exception("NullPointerException: @param: 2");
+        if (shape == nullptr) shape_len = 0;
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 0cd6a89..02891ca 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -188,6 +188,9 @@ ts_bool ts_Workbench_run_hook(ts_Workbench *workbench, const char **node_names,
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         if (!node_names) throw Exception("NullPointerException: @param: 2");
+        for (int32_t i = 0; i < len; ++i) {
+            if (!node_names[i]) throw Exception("NullPointerException: @param: node_names[" + std::to_string(i) + "]");
+        }
         (*workbench)->run_hook(std::vector<std::string>(node_names, node_names + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 4b07543..0827e63 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -582,6 +582,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From be8b88f7ba619f11670e34968c89c760e4dbbfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:34 +0000
Subject: [PATCH 73/82] fix: a plugin operator predicts the number of fields
 its description starts with

---
 src/api/operator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 0d632ec..ba36e8e 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -103,14 +103,16 @@ public:
             class _ : public std::exception {};
             try {
                 if (size <= 0) throw _();
-                packed_proto.resize(size);
+                auto fields_count = data[0];
+                if (fields_count <= 0 || fields_count > size) throw _();
+                packed_proto.resize(size_t(fields_count));
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields_count; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From a5674b3c908cadd7963b12004e039d4b802be1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:47 +0000
Subject: [PATCH 74/82] fix: C interface rejects a negative shape length

---
 src/api/tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index a271692..6192879 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -13,6 +13,7 @@ using namespace ts;
 ts_Tensor *ts_new_Tensor(const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
     if (shape == nullptr) shape_len = 0;
+    if (shape_len < 0) throw Exception("Shape length must not be negative, got " + std::to_string(shape_len));
     std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
     if (data == nullptr) {
@@ -115,6 +116,7 @@ ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t sh
         if (!tensor) throw Exception("NullPointerException: @param: 1");
         if (!shape && shape_len > 0) throw Exception("NullPointerException: @param: 2");
         if (shape == nullptr) shape_len = 0;
+        if (shape_len < 0) throw Exception("Shape length must not be negative, got " + std::to_string(shape_len));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
@@ -130,6 +132,7 @@ ts_Tensor *
 ts_new_Tensor_in_flow(ts_InFlow in_flow, const int32_t *shape, int32_t shape_len, ts_DTYPE dtype, const void *data) {
     TRY_HEAD
         if (shape == nullptr) shape_len = 0;
+        if (shape_len < 0) throw Exception("Shape length must not be negative, got " + std::to_string(shape_len));
         std::unique_ptr<ts_Tensor> tensor(new ts_Tensor());
 
         **tensor = Tensor(Tensor::InFlow(in_flow), DTYPE(dtype), Shape(shape, shape + shape_len));
-- 
2.43.0


From 545a7fbf86bd03bf8708b77ad787693eec307c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 75/82] fix: reading a stream that ends too early is an error

---
 include/module/io/stream.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..1808720 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,19 +41,28 @@ namespace ts {
     };
 
     namespace binio {
+        inline size_t read_all(StreamReader &stream, void *buffer, size_t size) {
+            auto got = stream.read(buffer, size);
+            if (got != size) {
+                throw Exception("Unexpected end of stream: got " + std::to_string(got)
+                                + " of " + std::to_string(size) + " bytes");
+            }
+            return got;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_all(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_all(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_all(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
-- 
2.43.0


From b4ba144cec5ef3b86cfde16e30b7854ccb7eb847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 76/82] fix: loading a tensor from a file that is not there is
 an error

---
 src/core/tensor_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..5a54ef8 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -290,7 +290,7 @@ namespace ts {
 
         Tensor load(const std::string &filename) {
             FileStreamReader stream(filename);
-            if (!stream.is_open()) return Tensor();
+            if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
             return load(stream);
         }
 
-- 
2.43.0


From b9e7ea0cd38e3009580eabeffa4ebc8075cc535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 77/82] fix: operator parameters and cpu modes that could not
 be set are reported

---
 src/api/workbench.cpp     | 1 +
 src/runtime/workbench.cpp | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 02891ca..045c9f3 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -217,5 +217,6 @@ ts_bool ts_Workbench_set_cpu_mode(ts_Workbench *workbench, ts_CpuPowerMode mode)
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         auto set = (*workbench)->set_cpu_power_mode(CpuEnable::CpuPowerMode(mode));
+        if (!set) throw Exception("Can not set cpu power mode: " + std::to_string(int(mode)));
     RETURN_OR_CATCH(ts_bool(set), ts_false)
 }
diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 0827e63..7e34709 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -329,7 +329,9 @@ namespace ts {
     }
 
     void Workbench::set_operator_param(const std::string &node_name, const std::string &param, const Tensor &value) {
-        if (m_desktop == nullptr) return;
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not set operator param with no program setup" << eject;
+        }
 
         BindWorkbenchRuntime _bind_runtime(*this);
 
-- 
2.43.0


From 0d46e91841ee084c551a46d5be2a1e32036fccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 78/82] fix: intime memcpy stays inside the tensors it copies
 between

---
 src/frontend/intime.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/frontend/intime.cpp b/src/frontend/intime.cpp
index c739683..0c8a4d0 100644
--- a/src/frontend/intime.cpp
+++ b/src/frontend/intime.cpp
@@ -171,8 +171,24 @@ namespace ts {
                 Tensor &dst_desc, void *dst_data, int64_t dst_shift,
                 const Tensor &src_desc, const void *src_data, int64_t src_shift,
                 int64_t size) {
-            if (dst_data == nullptr) dst_data = dst_desc.data();
-            if (src_data == nullptr) src_data = src_desc.data();
+            if (size < 0) {
+                TS_LOG_ERROR << "Can not copy " << size << " bytes" << eject;
+            }
+            auto check_range = [size](const Tensor &x, int64_t shift) {
+                auto bytes = int64_t(x.count()) * x.proto().type_bytes();
+                if (shift < 0 || shift > bytes || size > bytes - shift) {
+                    TS_LOG_ERROR << "Can not copy " << size << " bytes at " << shift << " of tensor with "
+                                 << bytes << " bytes" << eject;
+                }
+            };
+            if (dst_data == nullptr) {
+                check_range(dst_desc, dst_shift);
+                dst_data = dst_desc.data();
+            }
+            if (src_data == nullptr) {
+                check_range(src_desc, src_shift);
+                src_data = src_desc.data();
+            }
             auto copied = memcpy(reinterpret_cast<char *>(dst_data) + dst_shift, dst_desc.device(), size_t(size),
                                  reinterpret_cast<const char *>(src_data) + src_shift, src_desc.device(), size_t(size));
             return int64_t(copied);
-- 
2.43.0


From ee51e377dbc60d9cf3f0ad64e4340a1829723bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 79/82] fix: an object that was set up as context leaves it
 when destroyed

---
 include/utils/ctxmgr_lite.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/utils/ctxmgr_lite.h b/include/utils/ctxmgr_lite.h
index 2fa1873..5545958 100644
--- a/include/utils/ctxmgr_lite.h
+++ b/include/utils/ctxmgr_lite.h
@@ -94,6 +94,17 @@ namespace ts {
     public:
         using self = SetupContext;
 
+        SetupContext() = default;
+
+        SetupContext(const self &) = default;
+
+        self &operator=(const self &) = default;
+
+        ~SetupContext() {
+            // never leave a destroyed object in context
+            if (ctx::of<T>::get() == static_cast<T*>(this)) ctx::of<T>::set(nullptr);
+        }
+
         void setup_context() {
             ctx::of<T>::set(static_cast<T*>(this));
         }
-- 
2.43.0


From 503b9174efb8e336772a55aeb2de7ac81249374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:16 +0000
Subject: [PATCH 80/82] fix: a plugin operator rejects predictions with types
 that are none

---
 src/api/operator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index ba36e8e..8597f81 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -110,6 +110,7 @@ public:
                 for (int i = 0; i < fields_count; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
+                    if (data[anchor] < VOID || data[anchor] > SINK8Q7) throw _();
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
                     if (this_dims < 0 || size - anchor < this_dims) throw _();
-- 
2.43.0


From 4acdeedc6b8d7e94172946a41ad0951c4d008d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:07 +0000
Subject: [PATCH 81/82] fix: module fusion links the input slot asked for

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From b72eb6ce18d0aca45a2936849d74f8fa0a87a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:13 +0000
Subject: [PATCH 82/82] fix: C interface rejects negative lengths of arrays

---
 src/api/image_filter.cpp | 4 ++++
 src/api/intime.cpp       | 2 ++
 src/api/tensor.cpp       | 1 +
 src/api/workbench.cpp    | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/api/image_filter.cpp b/src/api/image_filter.cpp
index 9d2b253..fa00031 100644
--- a/src/api/image_filter.cpp
+++ b/src/api/image_filter.cpp
@@ -59,6 +59,7 @@ ts_bool ts_ImageFilter_sub_mean(ts_ImageFilter *filter, const float *mean, int32
     TRY_HEAD
     if (!filter) throw Exception("NullPointerException: @param: 1");
     if (!mean) throw Exception("NullPointerException: @param: 2");
+    if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
     (*filter)->sub_mean(std::vector<float>(mean, mean + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
@@ -67,6 +68,7 @@ ts_bool ts_ImageFilter_div_std(ts_ImageFilter *filter, const float *std, int32_t
     TRY_HEAD
     if (!filter) throw Exception("NullPointerException: @param: 1");
     if (!std) throw Exception("NullPointerException: @param: 2");
+    if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
     (*filter)->div_std(std::vector<float>(std, std + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
@@ -96,6 +98,7 @@ ts_bool ts_ImageFilter_channel_swap(ts_ImageFilter *filter, const int32_t *shuff
     TRY_HEAD
     if (!filter) throw Exception("NullPointerException: @param: 1");
     if (!shuffle) throw Exception("NullPointerException: @param: 2");
+    if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
     (*filter)->channel_swap(std::vector<int32_t>(shuffle, shuffle + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
@@ -180,6 +183,7 @@ ts_bool ts_ImageFilter_force_gray_v2(ts_ImageFilter *filter, const float *scale,
     TRY_HEAD
         if (!filter) throw Exception("NullPointerException: @param: 1");
         if (!scale) throw Exception("NullPointerException: @param: 2");
+        if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
         (*filter)->force_gray(std::vector<float>(scale, scale + len));
     RETURN_OR_CATCH(ts_true, ts_false)
 }
diff --git a/src/api/intime.cpp b/src/api/intime.cpp
index 6a7e3b4..b167f1c 100644
--- a/src/api/intime.cpp
+++ b/src/api/intime.cpp
@@ -14,6 +14,7 @@ ts_Tensor *ts_intime_transpose(const ts_Tensor *x, const int32_t *permute, int32
     TRY_HEAD
         if (!x) throw Exception("NullPointerException: @param: 1");
         if (!permute) throw Exception("NullPointerException: @param: 2");
+        if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor(
                 intime::transpose(**x, std::vector<int32_t>(permute, permute + len))
         ));
@@ -42,6 +43,7 @@ ts_Tensor *ts_intime_gather(const ts_Tensor *x, const ts_Tensor *indices, int32_
 ts_Tensor *ts_intime_concat(const ts_Tensor *const *x, int32_t len, int32_t dim) {
     TRY_HEAD
         if (!x) throw Exception("NullPointerException: @param: 1");
+        if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
         std::vector<Tensor> ts_inputs;
         for (int i = 0; i < len; ++i) {
             if (!x[i]) throw Exception("NullPointerException: @param: x[" + std::to_string(i) + "]");
diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 6192879..d022be9 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -170,6 +170,7 @@ int32_t ts_Tensor_fields_count(ts_Tensor *tensor) {
 ts_Tensor *ts_Tensor_pack(ts_Tensor **fields, int32_t count) {
     TRY_HEAD
         if (!fields) throw Exception("NullPointerException: @param: 1");
+        if (count < 0) throw Exception("Length must not be negative, got " + std::to_string(count));
         std::vector<Tensor> ts_fields;
         for (int i = 0; i < count; ++i) {
             if (!fields[i]) throw Exception("NullPointerException: @param: fields[" + std::to_string(i) + "]");
diff --git a/src/api/workbench.cpp b/src/api/workbench.cpp
index 045c9f3..7531381 100644
--- a/src/api/workbench.cpp
+++ b/src/api/workbench.cpp
@@ -188,6 +188,7 @@ ts_bool ts_Workbench_run_hook(ts_Workbench *workbench, const char **node_names,
     TRY_HEAD
         if (!workbench) throw Exception("NullPointerException: @param: 1");
         if (!node_names) throw Exception("NullPointerException: @param: 2");
+        if (len < 0) throw Exception("Length must not be negative, got " + std::to_string(len));
         for (int32_t i = 0; i < len; ++i) {
             if (!node_names[i]) throw Exception("NullPointerException: @param: node_names[" + std::to_string(i) + "]");
         }
-- 
2.43.0

