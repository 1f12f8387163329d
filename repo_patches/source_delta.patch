From 67b434f7955a0d2535bedb3ecef0c56e03f45dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 001/150] fix: keep the ring content when a dynamic ring grows

The position of an element depends on the mask, so growing the storage in
place misplaced every element whose index was beyond the old size.
---
 framework/core/include/plain/basic/ring.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..19e004d 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -241,6 +241,10 @@ using cookie_func_t = std::function<void()>;
     size_.store(size, std::memory_order_relaxed);
     mask_.store(size - 1, std::memory_order_relaxed);
   }
+  // The absolute(not masked) index of the first element.
+  std::size_t tail_index() const noexcept {
+    return tail_.load(std::memory_order_relaxed);
+  }
 
  private:
   virtual bool resize(size_t) { return false; }
@@ -305,9 +309,17 @@ class DynamicRing : public Ring<T, fake_tso> {
     std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
     if (size == 0) {
       buffer_.clear();
-      size = SIZE;
+      buffer_.resize(SIZE);
+      this->set_buffer(buffer_.data(), SIZE);
+      return true;
     }
-    buffer_.resize(size);
+    // The positions depend on the mask, so the elements need to move.
+    std::vector<T> buffer(size);
+    const auto count = this->read_avail();
+    const auto tail = this->tail_index();
+    for (std::size_t i = 0; i < count; ++i)
+      buffer[(tail + i) & (size - 1)] = (*this)[i];
+    buffer_.swap(buffer);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From 1e5973311729f24ee70fc65335b91bdc42f09c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 002/150] fix: clear the requested packet flag instead of
 always the readable one

---
 framework/core/src/net/packet/basic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..351ad13 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -11,7 +11,7 @@ enum {
 };
 
 struct Basic::Impl {
-  id_t id;
+  id_t id{0};
   bytes_t data;
   size_t offset{0};
   uint8_t flag{0};
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From adf7aac9fa1ede6cbef15353cfe3057bb4505c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:14 +0000
Subject: [PATCH 003/150] fix: strip the end marker of rpc packets in the line
 codec

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..d0ad97c 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -126,7 +126,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4); // Without the markers.
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From 5e1ce7065407046233f69189f990e159829ebad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:33 +0000
Subject: [PATCH 004/150] fix: bound the line codec by the packet limit instead
 of the buffer capacity

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index d0ad97c..b7c5dfe 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -92,7 +92,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
   bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  auto readed = input->peek(bytes.data(), packet_limit.max_length);
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 128c2482794aebddf4c67649c4ddfc6f3c977088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:24 +0000
Subject: [PATCH 005/150] fix: pack small unsigned values that equal a type tag
 with their type

---
 framework/core/src/net/rpc/packer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..5bd8e30 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,12 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // The values equal to a unsigned type need the type before.
+  const bool is_type = value == std::to_underlying(Type::Uint8) ||
+    value == std::to_underlying(Type::Uint16) ||
+    value == std::to_underlying(Type::Uint32) ||
+    value == std::to_underlying(Type::Uint64);
+  if (value <= 0x7f && !is_type) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From 180999d7a498416e3c3fb6a2f90513d2651b9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:24 +0000
Subject: [PATCH 006/150] fix: keep the sign of one byte integers unpacked to
 wider types

---
 framework/core/src/net/rpc/unpacker.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..d64ce97 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
-- 
2.43.0


From 2868626516cb5362c3f09a737f4d41bc079b35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:24 +0000
Subject: [PATCH 007/150] fix: pack the minimum 32 bit signed value

---
 framework/core/src/net/rpc/packer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 5bd8e30..0874c0e 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -27,7 +27,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value != std::numeric_limits<int32_t>::min() &&
+      std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
-- 
2.43.0


From 81e983aa39bb9db9774d96a473f005e79a474724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 008/150] fix: unpack unsigned integers without the old value
 and without skipping a byte

---
 framework/core/src/net/rpc/unpacker.cc | 31 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index d64ce97..b998c68 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -117,73 +117,78 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint16_t &value) noexcept {
+  uint16_t r{0};
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      r += static_cast<uint32_t>(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
     increment();
-    value = data();
+    r = data();
     increment();
   } else {
-    value = data();
+    r = data();
     increment();
   }
+  value = r;
 }
 
 void Unpacker::unpack(uint32_t &value) noexcept {
+  uint32_t r{0};
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      r += static_cast<uint32_t>(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += data() << 8 * (i - 1);
+      r += static_cast<uint32_t>(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
     increment();
-    value = data();
+    r = data();
     increment();
   } else {
-    value = data();
+    r = data();
     increment();
   }
+  value = r;
 }
 
 void Unpacker::unpack(uint64_t &value) noexcept {
+  uint64_t r{0};
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
     for (auto i = sizeof(uint64_t); i > 0; --i) {
-      value += uint64_t(data()) << 8 * (i - 1);
+      r += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
-      value += uint64_t(data()) << 8 * (i - 1);
+      r += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-      value += uint64_t(data()) << 8 * (i - 1);
+      r += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
   } else if (data() == std::to_underlying(Type::Uint8)) {
     increment();
-    value = data();
+    r = data();
     increment();
   } else {
-    value = data();
+    r = data();
     increment();
   }
+  value = r;
 }
 
 void Unpacker::unpack(std::nullptr_t &) noexcept {
-- 
2.43.0


From 5cc7e4d0fcb3d336258e4b59c328f358732dd23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 009/150] fix: pack and unpack floating point values exactly

Values below one, denormals, infinities, nan, negative zero and values that do
not fit 64 bits came back as other numbers; doubles with integral values lost
precision through float. The wire format is unchanged.
---
 framework/core/src/net/rpc/packer.cc   | 68 ++++++-----------------
 framework/core/src/net/rpc/unpacker.cc | 76 ++++++++------------------
 2 files changed, 40 insertions(+), 104 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 0874c0e..e8302c6 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -117,33 +118,20 @@ void Packer::pack(bool value) noexcept {
     serialized_object_.emplace_back(std::to_underlying(Type::FalseBool));
 }
 
-void Packer::pack(float value) noexcept {
-  double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
+// Gets if the value can be packed as a integer without any change.
+static bool is_int64(double value) noexcept {
+  constexpr double limit{9223372036854775808.0}; // 2^63
+  if (!(value >= -limit && value < limit)) return false; // Also inf and nan.
+  if (value == 0 && std::signbit(value)) return false;
+  return std::trunc(value) == value;
+}
 
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+void Packer::pack(float value) noexcept {
+  if (is_int64(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    static_assert(std::numeric_limits<float>::is_iec559);
+    auto ieee754_float32 = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
     for (auto i = sizeof(uint32_t); i > 0; --i) {
       serialized_object_.emplace_back(
@@ -153,33 +141,11 @@ void Packer::pack(float value) noexcept {
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  if (is_int64(value)) { // Just pack as int
+    pack(static_cast<int64_t>(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    static_assert(std::numeric_limits<double>::is_iec559);
+    auto ieee754_float64 = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
     for (auto i = sizeof(ieee754_float64); i > 0; --i) {
       serialized_object_.emplace_back(
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index b998c68..f4d84e6 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,6 +1,6 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
-#include <cmath>
 
 using plain::net::rpc::Unpacker;
 
@@ -203,37 +203,22 @@ void Unpacker::unpack(bool &value) noexcept {
 void Unpacker::unpack(float &value) noexcept {
   if (data() == std::to_underlying(Type::Float32)) {
     increment();
-    uint32_t _data = 0;
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
-      _data += data() << 8 * (i - 1);
+    uint32_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits += uint32_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
       value = float(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
       value = float(val);
     }
@@ -243,39 +228,24 @@ void Unpacker::unpack(float &value) noexcept {
 void Unpacker::unpack(double &value) noexcept {
   if (data() == std::to_underlying(Type::Float64)) {
     increment();
-    uint64_t _data = 0;
-    for (auto i = sizeof(uint64_t); i > 0; --i) {
-      _data += uint64_t(data()) << 8 * (i - 1);
+    uint64_t bits = 0;
+    for (auto i = sizeof(bits); i > 0; --i) {
+      bits += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(bits);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     }
   }
 }
-- 
2.43.0


From 6dab4d63a158afac0d81e45f659d4b73cf6109c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 010/150] fix: unpack std::set

---
 framework/core/include/plain/net/rpc/unpacker.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..de51c99 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -119,7 +119,7 @@ class PLAIN_API Unpacker {
       for (auto i = 0U; i < array_size; ++i) {
         ValueType val{};
         unpack(val);
-        array.emplace_back(val);
+        array.insert(array.end(), val);
       }
     } else if (data() == std::to_underlying(Type::Array16)) {
       increment();
@@ -131,7 +131,7 @@ class PLAIN_API Unpacker {
       for (auto i = 0U; i < array_size; ++i) {
         ValueType val{};
         unpack(val);
-        array.emplace_back(val);
+        array.insert(array.end(), val);
       }
     } else {
       std::size_t array_size = data() & 0b00001111;
@@ -139,7 +139,7 @@ class PLAIN_API Unpacker {
       for (auto i = 0U; i < array_size; ++i) {
         ValueType val{};
         unpack(val);
-        array.emplace_back(val);
+        array.insert(array.end(), val);
       }
     }
   }
-- 
2.43.0


From d1b338a5908d3933cd3f86533838920b417248da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 011/150] fix: stop unpacking containers at the first error

A few bytes could announce 2^32 elements, which were all created.
---
 framework/core/include/plain/net/rpc/unpacker.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index de51c99..a9ba30d 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -116,7 +116,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.insert(array.end(), val);
@@ -128,7 +128,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.insert(array.end(), val);
@@ -136,7 +136,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.insert(array.end(), val);
@@ -164,7 +164,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -178,7 +178,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -188,7 +188,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From 7b06fc81beae07114d64dc2134bab8b3cea4c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 012/150] fix: never unpack more elements than a std::array has

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index a9ba30d..0731c73 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -149,6 +149,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      return;
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
-- 
2.43.0


From 5c709e80b82f94aeb169e60718c6a90d71f9927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:08 +0000
Subject: [PATCH 013/150] fix: keep an earlier error when a nested object is
 unpacked

---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 0731c73..87fb1e0 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From 3a175fecb0f42ff6ebffe9e705f44d2d4deabb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:27 +0000
Subject: [PATCH 014/150] fix: do not call a rpc function with arguments that
 failed to unpack

---
 framework/core/include/plain/net/rpc/dispatcher.h | 2 ++
 framework/core/src/net/rpc/dispatcher.cc          | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/dispatcher.h b/framework/core/include/plain/net/rpc/dispatcher.h
index 7cd642e..a24476f 100644
--- a/framework/core/include/plain/net/rpc/dispatcher.h
+++ b/framework/core/include/plain/net/rpc/dispatcher.h
@@ -60,6 +60,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.unpack(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       call(func, args_real);
       return std::shared_ptr<Packer>{};
     }));
@@ -94,6 +95,7 @@ class PLAIN_API Dispatcher {
       //enforce_arg_count(name, args_count, args.via.array.size);
       args_type args_real;
       args.process(args_real);
+      if (args.error_) return std::shared_ptr<Packer>{};
       auto r = call(func, args_real);
       auto packer = std::make_shared<Packer>();
       packer->process(r);
diff --git a/framework/core/src/net/rpc/dispatcher.cc b/framework/core/src/net/rpc/dispatcher.cc
index 8bd79c2..dae3d0e 100644
--- a/framework/core/src/net/rpc/dispatcher.cc
+++ b/framework/core/src/net/rpc/dispatcher.cc
@@ -21,7 +21,9 @@ Dispatcher::dispatch(std::shared_ptr<packet::Basic> pack) {
   auto size = pack->data().size() - pack->offset();
   Unpacker unpacker(data, size);
 
-  return it->second(unpacker);
+  auto r = it->second(unpacker);
+  if (unpacker.error_) return unpacker.error_;
+  return r;
 }
 
 void Dispatcher::enforce_unique_name(const std::string &name) {
-- 
2.43.0


From 40c19437121656c884433be72542a96cdff72675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 015/150] fix: run tasks on the thread pool they were given to

---
 .../src/concurrency/executor/thread_pool.cc    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..400a8f7 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -60,6 +60,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -532,8 +536,13 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
 }
 
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker != nullptr && !this_worker->belongs_to(*this)) {
+    // A worker of another pool is a foreign thread here.
+    this_worker = nullptr;
+    this_worker_index = static_cast<size_t>(-1);
+  }
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -550,8 +559,9 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  if (this_worker != nullptr && this_worker->belongs_to(*this)) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From 0c306e8ac9df5aaa3fa99b0d098e34b29630a3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:03 +0000
Subject: [PATCH 016/150] fix: do not retire an idle pool worker that was just
 given a task

---
 framework/core/src/concurrency/executor/thread_pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 400a8f7..c4f8a48 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -295,7 +295,8 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  // A task may have been given to this worker just after the idle time ran out.
+  if ((!event_found && public_queue_.empty()) || abort_) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From 4b605bbd7f465ccdd3ef7b63558b9db2fbd248a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:51 +0000
Subject: [PATCH 017/150] fix: do not restart a pool worker that stopped for a
 shutdown

---
 framework/core/src/concurrency/executor/thread_pool.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index c4f8a48..fe99c06 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -362,6 +362,10 @@ void ThreadPoolWorker::work_loop() {
   } catch (const std::runtime_error &) {
     std::unique_lock<decltype(lock_)> lock{lock_};
     idle_ = true;
+    // Donating to a worker that is already shut down throws: this one leaves
+    // with tasks in its private queue and must not be started again.
+    if (parent_pool_.shutdown_requested())
+      abort_ = true;
   }
 }
 
@@ -462,11 +466,13 @@ void ThreadPoolWorker::enqueue_local(std::span<Task> tasks) {
 
 void ThreadPoolWorker::shutdown() {
   assert(!atomic_abort_.load(std::memory_order_relaxed));
-  atomic_abort_.store(true, std::memory_order_relaxed);
 
   {
+    // Both flags under the lock: a worker that stops early because of the
+    // first one must not be started again by an enqueuer missing the second.
     std::unique_lock<decltype(lock_)> lock{lock_};
     abort_ = true;
+    atomic_abort_.store(true, std::memory_order_relaxed);
   }
 
   task_found_or_abort_.store(true, std::memory_order_relaxed);
-- 
2.43.0


From 8ef24a75beca881235b1eadffb16907abe14a5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:46 +0000
Subject: [PATCH 018/150] fix: enqueue a task of the worker thread itself only
 once

---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 4825265d98864ca3acb5a4382eef37c215e546df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:29 +0000
Subject: [PATCH 019/150] fix: when_any misses a result that completes while it
 registers

---
 framework/core/src/concurrency/result/detail/state.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..ccdf904 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,7 +91,10 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
+  if (!idle) {
+    assert_done();
+    return ProcessStatus::ProducerDone;
+  }
   return status;
 }
 
-- 
2.43.0


From 1d8af40eb342e30d3b08c52c4921c52fb2b631b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:01 +0000
Subject: [PATCH 020/150] fix: keep a result state until its producer is done
 with a withdrawn consumer

---
 .../concurrency/result/detail/consumer_context.h |  3 +++
 .../plain/concurrency/result/detail/state.h      |  6 ++++++
 .../result/detail/consumer_context.cc            |  2 ++
 .../core/src/concurrency/result/detail/state.cc  | 16 +++++++++++-----
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/consumer_context.h b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
index 9ed92f3..7def7bd 100644
--- a/framework/core/include/plain/concurrency/result/detail/consumer_context.h
+++ b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
@@ -61,6 +61,9 @@ class PLAIN_API ConsumerContext {
 
  public:
   void clear() noexcept;
+  bool is_set() const noexcept {
+    return status_ != ConsumerStatus::Idle;
+  }
   void resume_consumer(StateBasic &self) const;
   void set_await_handle(coroutine_handle<void> caller_handle) noexcept;
   void set_wait_for_context(
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..f84bad8 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -35,8 +35,14 @@ class PLAIN_API StateBasic {
 
   void try_rewind_consumer() noexcept;
 
+  // The producer does not use the consumer context of this state anymore.
+  void set_consumer_taken() noexcept {
+    consumer_taken_.store(true, std::memory_order_release);
+  }
+
  protected:
   std::atomic<ProcessStatus> process_status_{ProcessStatus::Idle};
+  std::atomic_bool consumer_taken_{false};
   ConsumerContext consumer_;
   coroutine_handle<void> done_handle_;
 
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..321d0b3 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -179,10 +179,12 @@ void ConsumerContext::resume_consumer(StateBasic &self) const {
     }
     case ConsumerStatus::WhenAny: {
       const auto when_any_ctx = storage_.when_any_ctx;
+      self.set_consumer_taken();
       return when_any_ctx->try_resume(self);
     }
     case ConsumerStatus::Shared: {
       const auto weak_shared_ctx = storage_.shared_ctx;
+      self.set_consumer_taken();
       const auto shared_ctx = weak_shared_ctx.lock();
       if (static_cast<bool>(shared_ctx)) {
         shared_ctx->on_finished();
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index ccdf904..e0c2f18 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -1,4 +1,5 @@
 #include "plain/concurrency/result/detail/state.h"
+#include <thread>
 #include "plain/sys/atomic_wait.h"
 #include "plain/concurrency/result/detail/shared_state.h"
 
@@ -93,6 +94,7 @@ ProcessStatus StateBasic::when_any(
     std::memory_order_acquire);
   if (!idle) {
     assert_done();
+    consumer_.clear();
     return ProcessStatus::ProducerDone;
   }
   return status;
@@ -114,21 +116,25 @@ void StateBasic::share(
     std::memory_order_acquire);
   if (idle) return;
   assert_done();
+  consumer_.clear();
   shared_result_state->on_finished();
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
-  const auto status = process_status_.load(std::memory_order_acquire);
-  if (status != ProcessStatus::ConsumerSet) return;
+  if (!consumer_.is_set()) return;
   auto expected_status = ProcessStatus::ConsumerSet;
   const auto consumer = process_status_.compare_exchange_strong(
     expected_status,
     ProcessStatus::Idle,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!consumer) {
-    assert_done();
+  if (consumer) {
+    consumer_.clear();
     return;
   }
-  consumer_.clear();
+  assert_done();
+  // The producer is using the consumer context, the caller may release the
+  // state after this: wait until the producer does not need it anymore.
+  while (!consumer_taken_.load(std::memory_order_acquire))
+    std::this_thread::yield();
 }
-- 
2.43.0


From 4f62f05c05272d6cf8ebce053ddfe568b744d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:00 +0000
Subject: [PATCH 021/150] fix: release the pending requests of a timer queue
 without its lock

---
 framework/core/src/engine/timer_queue.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 698a958..48017e8 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -304,8 +304,11 @@ void TimerQueue::shutdown() {
   impl_->abort = true;
   if (!impl_->worker.joinable())
     return;
+  // Released without the lock: a callable may use the queue in its destructor.
+  auto request_queue = std::move(impl_->request_queue);
   impl_->request_queue.clear();
   lock.unlock();
+  request_queue.clear();
 
   impl_->condition.notify_all();
   impl_->worker.join();
-- 
2.43.0


From 3b6800806da2c58ca58dbf1dd93aa79bc64db6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:26 +0000
Subject: [PATCH 022/150] fix: survive an executor shut down while a timer
 fires

---
 framework/core/src/engine/timer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..36fc6c4 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,16 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (const std::runtime_error &) {
+    // The executor was shut down between the check and the post.
+    if (!executor_->shutdown_requested()) throw;
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 216547373df070a458f9893bac504a0c7431cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 023/150] fix: do not lose input events that arrive while a
 connection is read

---
 framework/core/src/net/connection/basic.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..0ec4adc 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -94,11 +94,10 @@ Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Input)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
-  });
   assert(conn);
+  // Clear it before the read: an event reported from here on(the end of the
+  // stream too) is reported only once and must set it again.
+  set_work_flag(WorkFlag::Input, false);
   if (!socket->valid()) return false;
   auto r = istream->pull();
   if (r < 0) {
@@ -110,10 +109,8 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
     m->increase_recv_size(r);
   }
   set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
+  if (r > 0)
+    set_work_flag(WorkFlag::Input, true); // Maybe more.
   return true;
 }
 
-- 
2.43.0


From 0783781f727a8ec85daf8864b7696fe7e6ed7765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 024/150] fix: do not lose the wakeup of a packet sent while
 the output is flushed

---
 framework/core/src/net/connection/basic.cc | 24 ++++++++++++----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 0ec4adc..a82b181 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -118,20 +118,22 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
+  int32_t r{0};
   {
+    // The flag is cleared under the lock of the writers.
     std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+    r = ostream->push();
+    if (r >= 0 && ostream->size() == 0)
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
+  }
+  if (r < 0) {
+    LOG_ERROR << get_name(conn) << " push failed: " << r;
+    return false;
+  }
+  auto m = manager.lock();
+  if (r > 0 && m) {
+    m->increase_send_size(r);
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From 8aa0f4470d47a8c6b089efa9d7e272ca0e457831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 025/150] fix: dispatch the packets received before the peer
 closed

---
 framework/core/src/net/connection/basic.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a82b181..2873557 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -228,8 +228,11 @@ bool Basic::Impl::process_exception() noexcept {
 
 bool Basic::Impl::work(Basic *conn) noexcept {
   if (!process_exception()) return false;
-  if (!process_input(conn)) return false;
-  if (!process_output(conn)) return false;
+  if (!process_input(conn) || !process_output(conn)) {
+    // The packets received before are still complete.
+    while (has_work_flag(WorkFlag::Command) && process_command(conn));
+    return false;
+  }
   if (!process_command(conn)) return false;
   return true;
 }
-- 
2.43.0


From 38958a881c7b0ba12cb9f6fb62b209897d14784e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 026/150] fix: count incomplete headers per packet, not per
 connection slot

---
 framework/core/src/net/connection/basic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2873557..12fc609 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -203,6 +203,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -412,6 +413,7 @@ bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
+  impl_->error_times = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->callings.clear();
-- 
2.43.0


From d67892801f5269588d01fea0a00e0180ac6020ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 027/150] fix: remove a connection whose socket failed, and
 only from its work

---
 framework/core/src/net/connection/basic.cc   | 2 +-
 framework/core/src/net/connection/epoll.cc   | 6 +-----
 framework/core/src/net/connection/manager.cc | 5 ++---
 3 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 12fc609..7bcc331 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -428,7 +428,7 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return !impl_->socket->valid() || (impl_->work_flags == 0);
+  return impl_->socket->id() == socket::kInvalidId || (impl_->work_flags == 0);
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..e9d1e89 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -228,11 +228,7 @@ void Epoll::handle_input() noexcept {
         remove(conn_id);
         continue;
       }
-      if (conn->socket()->error()) {
-        LOG_ERROR << setting_.name << " socket error: " << conn_id;
-        remove(conn_id);
-        continue;
-      }
+      // A socket error is found (and the connection removed) by the work.
       conn->enqueue_work(WorkFlag::Input);
     }
   }
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..d038c5a 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -170,9 +170,8 @@ void Manager::Impl::work(
           1, std::memory_order_release);
       }
     });
-    if (!conn) return;
-    if (!conn->valid()) return;
-    r = conn->work();
+    if (!conn || conn->idle()) return;
+    r = conn->valid() && conn->work();
   }
   if (!r) {
     manager->remove(conn);
-- 
2.43.0


From 795a1511de8d84954dbd309e30aceef520e18b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 028/150] fix: do not lose the wakeup of a waiting net manager

---
 framework/core/src/net/connection/manager.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index d038c5a..3ecdd46 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -137,9 +137,9 @@ Manager::Impl::work_await(std::shared_ptr<Manager> manager) noexcept {
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
 bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
   assert(manager);
-  std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
   if (manager->listen_fd_ == socket::kInvalidId && 
     manager->impl_->connection_info.size == 0) {
+    std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
     manager->impl_->cv.wait(lock, [manager] {
       return manager->listen_fd_ != socket::kInvalidId ||
         manager->impl_->connection_info.size > 0 || !manager->running();
@@ -268,6 +268,9 @@ void Manager::stop() {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  { // Not between the check and the wait.
+    std::unique_lock<std::mutex> lock{impl_->wait_mutex};
+  }
   impl_->cv.notify_one(); // Just one for wait work.
 #endif
   send_ctrl_cmd("k"); // Send stop.
@@ -362,6 +365,9 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  { // Not between the check and the wait.
+    std::unique_lock<std::mutex> lock{impl_->wait_mutex};
+  }
   impl_->cv.notify_one(); // Just one for wait work.
 #endif
   return r;
-- 
2.43.0


From e075d8b2d2295d58f3e5a5edc67d5719b9a3970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 029/150] fix: stop a net manager without racing its connection
 list and executor

---
 framework/core/src/net/connection/manager.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 3ecdd46..8097715 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -264,8 +264,12 @@ void Manager::stop() {
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
-    if (conn && conn->valid()) conn->shutdown();
+  {
+    // No enqueue to the executor is under way once this lock was held.
+    std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+    for (auto conn : impl_->connection_info.list) {
+      if (conn && conn->valid()) conn->shutdown();
+    }
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   { // Not between the check and the wait.
-- 
2.43.0


From f231c7b896462ebda5cc2cf77b446e84546af8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 030/150] fix: do not starve waiting connections behind ones
 that always have work

---
 framework/core/src/net/connection/manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 8097715..58af4b4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -603,6 +603,9 @@ void Manager::enqueue(connection::id_t id) noexcept {
         impl_->working_conn_max_count)) {
     if (id == connection::kInvalidId) {
       id = impl_->pop_work_id();
+    } else if (!impl_->wait_work_conn_id_deque.empty()) {
+      impl_->push_work_id(id); // The others first.
+      id = impl_->pop_work_id();
     }
     if (id == connection::kInvalidId) return;
 		std::atomic_signal_fence(std::memory_order_release);
-- 
2.43.0


From 08d0d58479108afe81d18a9a70e40c2d017f7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 031/150] fix: keep serving after an interrupted wait

---
 framework/core/src/net/connection/epoll.cc  | 1 +
 framework/core/src/net/connection/select.cc | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index e9d1e89..51b16f4 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -154,6 +154,7 @@ bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
   if (impl_->data.result_event_count < 0) {
+    if (errno == EINTR) return true;
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
   }
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..92b65d8 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -93,7 +93,10 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
-  if (impl_->select_result < 0) {
+  if (impl_->select_result < 0 && (errno == EINTR || errno == EBADF)) {
+    // Interrupted, or a socket was removed meanwhile.
+    impl_->select_result = 0;
+  } else if (impl_->select_result < 0) {
     r = false;
     LOG_ERROR << setting_.name << " error: " << impl_->select_result;
   } else if (impl_->select_result > 0) {
-- 
2.43.0


From bad567c54438959aec1cff51ca9739aaad3732f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:43 +0000
Subject: [PATCH 032/150] fix: wait the full select timeout every time

---
 framework/core/src/net/connection/select.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 92b65d8..34c6f13 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -58,6 +58,8 @@ void Select::Impl::select() noexcept {
   // write_fds.use = write_fds.full;
   except_fds.use = except_fds.full;
   if (select_timeout >= 0) {
+    timeout.tv_sec = (select_timeout / 1000); // Changed by every call.
+    timeout.tv_usec = (select_timeout % 1000 * 1000);
     select_result = socket::select(
       max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
-- 
2.43.0


From f662f5d215632f46f8b70bd37fb4afc4d6454866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:52 +0000
Subject: [PATCH 033/150] fix: skip connections closed while the select result
 is handled

---
 framework/core/src/net/connection/select.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 34c6f13..c0cc59a 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -126,6 +126,7 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
+      if (id == socket::kInvalidId) return; // Removed meanwhile.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
-- 
2.43.0


From f72ab53fe648fa93e40a8580e0d61f4c7917ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:27 +0000
Subject: [PATCH 034/150] fix: run the tasks of other threads beside a worker
 thread's own

---
 .../src/concurrency/executor/worker_thread.cc   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index ab418f5..5f06407 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -35,7 +35,9 @@ void WorkerThread::make_os_worker_thread() {
 }
 
 bool WorkerThread::drain_queue_impl() {
-  while (!private_queue_.empty()) {
+  // Only the tasks of this round: the ones they enqueue here must not keep the
+  // tasks of other threads waiting.
+  for (auto count = private_queue_.size(); count > 0; --count) {
     auto task = std::move(private_queue_.front());
     private_queue_.pop_front();
     if (private_atomic_abort_.load(std::memory_order_relaxed)) {
@@ -65,15 +67,20 @@ void WorkerThread::wait_for_task(std::unique_lock<std::mutex> &lock) {
 bool WorkerThread::drain_queue() {
   std::unique_lock<decltype(lock_)> lock(lock_);
   
-  wait_for_task(lock);
+  if (private_queue_.empty()) {
+    wait_for_task(lock);
+    assert(!public_queue_.empty() || abort_);
+  }
 
   assert(lock.owns_lock());
-  assert(!public_queue_.empty() || abort_);
 
   if (abort_) return false;
 
-  assert(private_queue_.empty());
-  std::swap(private_queue_, public_queue_);
+  private_queue_.insert(
+    private_queue_.end(),
+    std::make_move_iterator(public_queue_.begin()),
+    std::make_move_iterator(public_queue_.end()));
+  public_queue_.clear();
   lock.unlock();
 
   return drain_queue_impl();
-- 
2.43.0


From 6deecb2683c8d8228dc84b526317fc57359c6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 035/150] fix: do not hand the settings of a former connection
 to the next one in its slot

---
 framework/core/src/net/connection/basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 7bcc331..4af36ac 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -418,6 +418,10 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->callings.clear();
   impl_->call_index = 0;
+  impl_->codec = {};
+  impl_->dispatcher = {};
+  impl_->timeout = std::nullopt;
+  impl_->keep_alive.store(false, std::memory_order_relaxed);
   auto connect_call_key = get_callable_key(this, "__connect");
   s_callables.erase(connect_call_key);
   auto disconnect_call_key = get_callable_key(this, "__disconnect");
-- 
2.43.0


From 1d391bf46dcaa5add7f7386cccd251049e1905eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 036/150] fix: a connection can be renamed and its name ends
 with it

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 58af4b4..94d249d 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -407,6 +407,7 @@ void Manager::remove(
     conn->close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
   }
+  impl_->conn_names.erase(conn_id);
   impl_->connection_info.free_ids.emplace(conn_id);
   if (impl_->connection_info.size > 0)
     --(impl_->connection_info.size);
@@ -623,7 +624,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From 35c0b4df766f429afb7074830e7189309c06b49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 037/150] fix: remove a connection only once

---
 framework/core/src/net/connection/manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 94d249d..440713f 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -395,6 +395,7 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
+  if (!impl_->connection_info.ids->contains(conn_id)) return;
   auto &conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
-- 
2.43.0


From 9b7ca5e961179e65edba388ee3d9e4cf1011156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:10 +0000
Subject: [PATCH 038/150] fix: guard the callbacks of single connections

---
 framework/core/src/net/connection/basic.cc | 35 +++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 4af36ac..40a6b8a 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -16,6 +16,7 @@ using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
 static std::unordered_map<std::string, callable_func> s_callables;
+static std::mutex s_callables_mutex; // Connections of all managers use it.
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
@@ -27,9 +28,25 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it != s_callables.end())
+      func = it->second;
+  }
+  if (static_cast<bool>(func)) func(p);
+}
+
+static void
+set_callable(Basic *p, std::string_view suffix, callable_func func) noexcept {
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
+  s_callables[get_callable_key(p, suffix)] = func;
+}
+
+static void erase_callable(Basic *p, std::string_view suffix) noexcept {
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
+  s_callables.erase(get_callable_key(p, suffix));
 }
 
 struct Basic::Impl {
@@ -422,10 +439,8 @@ bool Basic::init() noexcept {
   impl_->dispatcher = {};
   impl_->timeout = std::nullopt;
   impl_->keep_alive.store(false, std::memory_order_relaxed);
-  auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
-  auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  erase_callable(this, "__connect");
+  erase_callable(this, "__disconnect");
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -505,13 +520,11 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
 }
   
 void Basic::set_connect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__connect");
-  s_callables[key] = func;
+  set_callable(this, "__connect", func);
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__disconnect");
-  s_callables[key] = func;
+  set_callable(this, "__disconnect", func);
 }
   
 void Basic::set_manager(std::shared_ptr<Manager> manager) noexcept {
-- 
2.43.0


From 02133f3fecc349e17ed126bb56a5652f918b72ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:30 +0000
Subject: [PATCH 039/150] fix: start every socket of a connection without the
 events and data of the former one

---
 .../core/include/plain/net/connection/basic.h      |  1 +
 framework/core/src/net/connection/basic.cc         | 14 ++++++++++++--
 framework/core/src/net/connection/manager.cc       |  1 +
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 5dfb42a..006a75e 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -129,6 +129,7 @@ Basic final : noncopyable {
  private:
   void on_connect() noexcept;
   void on_disconnect() noexcept;
+  void on_close() noexcept;
 
  private:
   void set_id(id_t id) noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 40a6b8a..360041b 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -447,7 +447,9 @@ bool Basic::init() noexcept {
 
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  return impl_->socket->id() == socket::kInvalidId || (impl_->work_flags == 0);
+  // Events of a former socket must not hide those of the next one.
+  if (impl_->socket->id() == socket::kInvalidId) impl_->work_flags = 0;
+  return impl_->work_flags == 0;
 }
   
 bool Basic::shutdown(int32_t how) noexcept {
@@ -537,6 +539,7 @@ void Basic::set_dispatcher(packet::dispatch_func func) noexcept {
 
 bool Basic::send(const std::shared_ptr<packet::Basic> &packet) noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
+  if (impl_->socket->id() == socket::kInvalidId) return false;
   auto r = impl_->write(packet);
   lock.unlock();
   if (r) enqueue_work(WorkFlag::Output);
@@ -549,11 +552,18 @@ void Basic::on_connect() noexcept {
   
 void Basic::on_disconnect() noexcept {
   impl_->istream->clear();
-  impl_->ostream->clear();
   impl_->working.store(false, std::memory_order_relaxed);
   check_callable(this, "__disconnect");
 }
 
+void Basic::on_close() noexcept {
+  // What was sent until now is lost with the socket.
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  impl_->ostream->clear();
+  impl_->work_flags = 0;
+  impl_->error_times = 0;
+}
+
 void Basic::set_keep_alive(bool flag) const noexcept {
   impl_->keep_alive.store(flag, std::memory_order_relaxed);
 }
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 440713f..2f387c7 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -406,6 +406,7 @@ void Manager::remove(
     if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
+    conn->on_close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
   }
   impl_->conn_names.erase(conn_id);
-- 
2.43.0


From 7e3a029bd7150124da808fc5d2ae2c6796ce8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:42 +0000
Subject: [PATCH 040/150] fix: unregister the socket of a connection that
 failed

---
 framework/core/src/net/connection/manager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 2f387c7..2013981 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -403,7 +403,9 @@ void Manager::remove(
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    // Also with a socket error: a closed descriptor must not stay registered.
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     conn->on_close();
-- 
2.43.0


From 2967599c58bba1dfba5fd697d13ec699063e7356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:43 +0000
Subject: [PATCH 041/150] fix: do not change the descriptor sets of a running
 select

---
 framework/core/src/net/connection/select.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index c0cc59a..29793c9 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,10 +53,15 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
-  if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
+  socket::id_t max_fd{socket::kInvalidId};
+  {
+    std::unique_lock lock{mutex};
+    max_fd = this->max_fd;
+    if (max_fd == socket::kInvalidId) return;
+    read_fds.use = read_fds.full;
+    // write_fds.use = write_fds.full;
+    except_fds.use = except_fds.full;
+  }
   if (select_timeout >= 0) {
     timeout.tv_sec = (select_timeout / 1000); // Changed by every call.
     timeout.tv_usec = (select_timeout % 1000 * 1000);
@@ -166,12 +171,10 @@ bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
   auto id = static_cast<uint32_t>(sock_id);
+  // The sets in use belong to the thread that selects.
   FD_CLR(id, &impl_->read_fds.full);
-  FD_CLR(id, &impl_->read_fds.use);
   FD_CLR(id, &impl_->write_fds.full);
-  FD_CLR(id, &impl_->write_fds.use);
   FD_CLR(id, &impl_->except_fds.full);
-  FD_CLR(id, &impl_->except_fds.use);
   impl_->change_vaild_fd(sock_id, false);
   --impl_->fd_size;
   return true;
-- 
2.43.0


From 9d277268a8c0073eb0e58dab8cb2a12ed987edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:23 +0000
Subject: [PATCH 042/150] fix: answer calls of functions without a result

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 360041b..809eb16 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -355,7 +355,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector(); // None if void.
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From 48da79b383f7020dc01c949b80457e9dea2c63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:23 +0000
Subject: [PATCH 043/150] fix: keep the data of a call response for its reader

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 87fb1e0..22ec5bc 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -25,6 +25,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner keeps the data for the unpacker and its copies.
+  Unpacker(
+    const uint8_t *data, size_t size, std::shared_ptr<const void> owner);
   ~Unpacker();
 
  public:
@@ -230,6 +233,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 809eb16..2aa4457 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -391,7 +391,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index f4d84e6..e6500c0 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -11,6 +11,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  const uint8_t *data, size_t size, std::shared_ptr<const void> owner) :
+  data_{data}, data_end_{data + size}, owner_{std::move(owner)} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From 0ccaa6a34fb493bce10f763ff3ed513ff97b8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:23 +0000
Subject: [PATCH 044/150] fix: answer a call once, and guard the list of calls

---
 framework/core/src/net/connection/basic.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2aa4457..e57c3a4 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -378,12 +378,18 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
-  auto it = callings.find(index);
-  if (it == callings.end()) {
-    LOG_WARN << "rpc response no calling: " << index << " error: " << error;
-    return false;
+  call_t call;
+  {
+    std::unique_lock<std::mutex> lock{mutex};
+    auto it = callings.find(index);
+    if (it == callings.end()) {
+      lock.unlock();
+      LOG_WARN << "rpc response no calling: " << index << " error: " << error;
+      return false;
+    }
+    call = std::move(it->second); // A call is answered once.
+    callings.erase(it);
   }
-  auto &call = it->second;
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
-- 
2.43.0


From 0d5aae909ff0a370d5290fac1ae4efa8e5a95823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:23 +0000
Subject: [PATCH 045/150] fix: end the calls of a connection with it

---
 framework/core/src/net/connection/basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index e57c3a4..2f30a2b 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -564,10 +564,13 @@ void Basic::on_disconnect() noexcept {
 
 void Basic::on_close() noexcept {
   // What was sent until now is lost with the socket.
+  decltype(impl_->callings) callings; // Nobody will answer them.
   std::unique_lock<std::mutex> lock{impl_->mutex};
   impl_->ostream->clear();
   impl_->work_flags = 0;
   impl_->error_times = 0;
+  callings.swap(impl_->callings);
+  lock.unlock();
 }
 
 void Basic::set_keep_alive(bool flag) const noexcept {
@@ -583,6 +586,7 @@ bool Basic::send_call(
   uint32_t index, const std::string &func_name,
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
+  if (impl_->socket->id() == socket::kInvalidId) return false;
   packet->set_call_request(true);
   auto r = impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
-- 
2.43.0


From 21f81cb51a1845b3138e73eda0eab8a59d7ef5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:14 +0000
Subject: [PATCH 046/150] fix: end the calls under way when a net manager stops

---
 framework/core/src/net/connection/basic.cc   | 1 +
 framework/core/src/net/connection/manager.cc | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2f30a2b..201b332 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -587,6 +587,7 @@ bool Basic::send_call(
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   if (impl_->socket->id() == socket::kInvalidId) return false;
+  if (auto m = impl_->manager.lock(); m && !m->running()) return false;
   packet->set_call_request(true);
   auto r = impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 2013981..2f919d2 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -288,6 +288,11 @@ void Manager::stop() {
 #endif
   std::this_thread::sleep_for(1ms);
   impl_->executor->shutdown();
+  // The calls under way will not be answered any more.
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
+  for (auto conn : impl_->connection_info.list) {
+    if (conn) conn->on_close();
+  }
 }
 
 bool Manager::running() const noexcept {
-- 
2.43.0


From 7843289d706836056bf0f29d9469763a1a86de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:40 +0000
Subject: [PATCH 047/150] fix: the padding of an IPv4 socket address was not
 initialised

Equal addresses had different bytes.
---
 framework/core/src/net/address.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 297a10e..764e122 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -158,7 +158,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
   Address::value_type r;
   using value_t = Address::value_type::value_type;
   if (ip_v4) {
-    sockaddr_in addr;
+    sockaddr_in addr{};
     addr.sin_family = AF_INET;
     r.reserve(sizeof addr);
     if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") {
@@ -174,7 +174,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
   } else {
-    sockaddr_in6 addr;
+    sockaddr_in6 addr{};
     addr.sin6_family = AF_INET6;
     addr.sin6_flowinfo = 0;
     addr.sin6_scope_id = 0;
-- 
2.43.0


From bf8f1ce6092515d00f808d2d62b4a42aa3e73eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:40 +0000
Subject: [PATCH 048/150] fix: IPv4-mapped IPv6 addresses were read as IPv4

"::ffff:1.2.3.4" became the any address, and the bracketed form was refused.
---
 framework/core/src/net/address.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 764e122..846f0c4 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -102,8 +102,7 @@ bool plain::net::is_valid_addr(const bytes_t &addr, bool verbose) noexcept {
 }
 
 static bool is_ipv4(std::string_view address) noexcept {
-  if (address.find(':') == address.rfind(':')) return true;
-  return address.find('.') != std::string::npos;
+  return address.find(':') == address.rfind(':');
 }
 
 /* std::tuple<ip_v4, ip, port> */
-- 
2.43.0


From d4a5ef2a9ed26d824e3fad11cef4fe7025a940b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:40 +0000
Subject: [PATCH 049/150] fix: addresses were read past the end of the given
 text

A string view need not be terminated: the host or port took in what followed.
---
 framework/core/src/net/address.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 846f0c4..295dc7b 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -105,6 +105,10 @@ static bool is_ipv4(std::string_view address) noexcept {
   return address.find(':') == address.rfind(':');
 }
 
+static uint16_t parse_port(std::string_view str) {
+  return static_cast<uint16_t>(plain::toint64(std::string{str}.c_str()));
+}
+
 /* std::tuple<ip_v4, ip, port> */
 static std::tuple<bool, std::string, uint16_t>
 parse_address(std::string_view address) noexcept {
@@ -123,8 +127,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
@@ -142,8 +145,7 @@ parse_address(std::string_view address) noexcept {
           ip = std::string_view{str};
           if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = parse_port(std::string_view{str});
           break;
         }
       }
@@ -166,7 +168,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(ip.data());
+      addr.sin_addr.s_addr = inet_addr(std::string{ip}.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE)
       throw std::invalid_argument("ip invalid");
@@ -187,7 +189,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
           throw std::invalid_argument("ip invalid");
       }
     } else {
-      auto cr = inet_pton(AF_INET6, ip.data(), &addr.sin6_addr);
+      auto cr = inet_pton(AF_INET6, std::string{ip}.c_str(), &addr.sin6_addr);
       if (cr != 1)
         throw std::invalid_argument("ip invalid");
     }
-- 
2.43.0


From 66b3716488e9a78a2541ec44e57cd712d5e133ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:40 +0000
Subject: [PATCH 050/150] fix: ports beyond 65535 in an address wrapped around

"1.2.3.4:65616" became port 80.
---
 framework/core/src/net/address.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 295dc7b..edb32d5 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -106,12 +106,15 @@ static bool is_ipv4(std::string_view address) noexcept {
 }
 
 static uint16_t parse_port(std::string_view str) {
-  return static_cast<uint16_t>(plain::toint64(std::string{str}.c_str()));
+  auto port = plain::toint64(std::string{str}.c_str());
+  if (port < 0 || port > 65535)
+    throw std::invalid_argument("port invalid");
+  return static_cast<uint16_t>(port);
 }
 
 /* std::tuple<ip_v4, ip, port> */
 static std::tuple<bool, std::string, uint16_t>
-parse_address(std::string_view address) noexcept {
+parse_address(std::string_view address) {
   uint16_t port{0};
   if (address.empty())
     return std::make_tuple(true, "", port);
-- 
2.43.0


From 68b10e73247ad1f36faf9d14f5e38570962854fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:15 +0000
Subject: [PATCH 051/150] fix: the name of an async logger was read past its
 end

---
 framework/core/src/basic/async_logger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..d35b0c4 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -252,7 +252,8 @@ void AsyncLogger::Impl::thread_handle() {
 
 AsyncLogger::AsyncLogger(
   std::string_view name, std::size_t roll_size, int32_t flush_interval)
-  : impl_{std::make_unique<Impl>(name.data(), roll_size, flush_interval)} {
+  : impl_{std::make_unique<Impl>(
+      std::string{name}, roll_size, flush_interval)} {
   auto log_directory = GLOBALS["log.directory"].get<std::string>();
   if (!std::filesystem::exists(log_directory)) {
     assert(std::filesystem::create_directory(log_directory));
-- 
2.43.0


From e7b495aac0460fc433429e547fa4c053910da5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:06 +0000
Subject: [PATCH 052/150] fix: the async logger lost what was appended since
 the last write when stopped

---
 framework/core/src/basic/async_logger.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index d35b0c4..d64c5b3 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -194,18 +194,20 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
   BufferVector write_buffers;
   write_buffers.reserve(16);
-  while (running_) {
+  bool running{true};
+  // The last pass writes what was appended until the stop.
+  while (running) {
+    running = running_;
     assert(buffer1 && 0 == buffer1->read_avail());
     assert(buffer2 && 0 == buffer2->read_avail());
     {
       std::unique_lock<std::mutex> auto_lock{mutex_};
-      if (buffers_.empty()) {
+      if (running && buffers_.empty()) {
         cond_.wait_for(auto_lock, flush_interval_ * 1000ms);
       }
       buffers_.emplace_back(std::move(current_buffer_));
-- 
2.43.0


From 251d3f9fb359f20d11dbb83df057950bb0e59c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:50 +0000
Subject: [PATCH 053/150] fix: the async logger began a new file every 1024
 writes

It means to do so when the day changes.
---
 framework/core/src/basic/async_logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index d64c5b3..03edd4f 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -93,7 +93,7 @@ void File::append_unlocked(const std::string_view &log) {
       count_ = 0;
       auto now = Time::timestamp();
       time_t this_period = now / kRollPerSeconds_ * kRollPerSeconds_;
-      if (this_period) {
+      if (this_period != start_of_period_) {
         roll();
       } else if (now - last_flush_ > flush_interval_) {
         last_flush_ = now;
-- 
2.43.0


From 653ed816a85ed7b02cf11d0fa03202195da9c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:23 +0000
Subject: [PATCH 054/150] fix: log times carried their milliseconds as "7ms"

Printing the duration itself adds its unit and escapes the padding meant
for the number; ticks are printed now.
---
 framework/core/src/basic/time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index d797f9a..4786e7b 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -48,7 +48,7 @@ std::string Time::format(bool show_microseconds) {
   os << std::put_time(std::localtime(&tm), "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
-    os << (value % 1000);
+    os << (value % 1000).count();
   }
   return os.str();
 }
-- 
2.43.0


From f719865cc1c695c9cbb6fdda63db57c4c8d8c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:23 +0000
Subject: [PATCH 055/150] fix: times formatted by several threads mixed

std::localtime returns a result shared by all threads.
---
 framework/core/src/basic/time.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index 4786e7b..5affbe9 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -4,6 +4,21 @@
 
 using namespace plain;
 
+namespace {
+
+// std::localtime shares one result between all threads.
+std::tm local_time(std::time_t time) {
+  std::tm r{};
+#if OS_WIN
+  ::localtime_s(&r, &time);
+#else
+  ::localtime_r(&time, &r);
+#endif
+  return r;
+}
+
+} // namespace
+
 Time::Time() :
   s_time_{std::chrono::steady_clock::now()} {
   // do nothing
@@ -27,15 +42,16 @@ uint64_t Time::tickcount() const noexcept {
 
 std::string Time::format() {
   auto now = std::chrono::system_clock::now();
-  auto tm = std::chrono::system_clock::to_time_t(now);
+  auto tm = local_time(std::chrono::system_clock::to_time_t(now));
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   return os.str();
 }
 
 std::string Time::format(time_t timestamp) {
+  auto tm = local_time(timestamp);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&timestamp), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   return os.str();
 }
 
@@ -43,9 +59,9 @@ std::string Time::format(bool show_microseconds) {
   auto now = std::chrono::system_clock::now();
   auto now_ms = std::chrono::time_point_cast<std::chrono::milliseconds>(now);
   auto value = now_ms.time_since_epoch();
-  auto tm = std::chrono::system_clock::to_time_t(now);
+  auto tm = local_time(std::chrono::system_clock::to_time_t(now));
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
     os << (value % 1000).count();
-- 
2.43.0


From 848318f881f94c1beabb1894b4152b4c6d2f6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:23 +0000
Subject: [PATCH 056/150] fix: the text of a trace statement was read past its
 end

---
 framework/core/src/basic/logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 647cd2e..e9d7536 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -162,7 +162,7 @@ Logger::Logger(const std::string_view &trace,
   : impl_{std::make_unique<Impl>(
       LogLevel::Trace, location.file_name(), location.line())} {
   *this << location.function_name() << " ";
-  *this << trace.data();
+  impl_->buffer_.write(trace.data(), trace.size());
 }
 
 Logger::~Logger() {
-- 
2.43.0


From 60eed9d1cfbca097bcd691ba13e633d42dad9bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:39 +0000
Subject: [PATCH 057/150] fix: a long log statement ran into the next one

A statement filling the buffer lost its line end.
---
 framework/core/src/basic/logger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index e9d7536..81cc586 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -141,7 +141,9 @@ void Logger::Impl::finish() {
   if (true == GLOBALS["log.print"]) {
     print_log(level_, buffer_.peek());
   }
-  buffer_.write("\n", 1);
+  // A full buffer still has to end its line.
+  if (buffer_.write("\n", 1) == 0)
+    buffer_[buffer_.read_avail() - 1] = '\n';
 }
 
 Logger::Logger(LogLevel level, const std::source_location &location)
-- 
2.43.0


From d5267ce01beb3aafed8171703c436502b1c55bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 058/150] fix: plain::md5 and printing an MD5 did not link

They were defined in the global namespace.
---
 framework/core/include/plain/basic/md5.h | 1 +
 framework/core/src/basic/md5.cc          | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/md5.h b/framework/core/include/plain/basic/md5.h
index 562d506..b35c4ec 100644
--- a/framework/core/include/plain/basic/md5.h
+++ b/framework/core/include/plain/basic/md5.h
@@ -93,6 +93,7 @@ private:
     uint4 &a, uint4 b, uint4 c, uint4 d, uint4 x, uint4 s, uint4 ac);
 };
 
+PLAIN_API std::ostream& operator<<(std::ostream &out, MD5 md5);
 PLAIN_API std::string md5(const std::string &str);
 
 } //namespace plain
diff --git a/framework/core/src/basic/md5.cc b/framework/core/src/basic/md5.cc
index 23f7e07..856f4c2 100644
--- a/framework/core/src/basic/md5.cc
+++ b/framework/core/src/basic/md5.cc
@@ -337,13 +337,13 @@ std::string MD5::hexdigest() const {
  
 //////////////////////////////
  
-std::ostream& operator<<(std::ostream& out, MD5 md5) {
+std::ostream& plain::operator<<(std::ostream& out, MD5 md5) {
   return out << md5.hexdigest();
 }
  
 //////////////////////////////
  
-std::string md5(const std::string &str) {
+std::string plain::md5(const std::string &str) {
   MD5 md5 = MD5(str);
   return md5.hexdigest();
 }
-- 
2.43.0


From 7f0deb3e373da48bdfe200455b7b459dfc478a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 059/150] fix: a password could not be encrypted

Success was reported as failure, the outcome was the flag instead of the
text, the check ignored case, and views were read past their end.
---
 framework/core/src/basic/utility.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ff253ec..9bc42e9 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -522,9 +522,9 @@ static bool pg_encrypt_password(
 
   //recheck password
   if (encryptok) decrypt_ok = pg_decrypt_password(password_check, result);
-  if (!encryptok || !decrypt_ok || stricmp(password_check, password) != 0)
+  if (!encryptok || !decrypt_ok || strcmp(password_check, password) != 0)
     return pg_encrypt_password(result, password, tickcount + 9929, level);
-  return false;
+  return true;
 }
 
 bool encrypt(std::string_view in, std::string &out) {
@@ -532,16 +532,16 @@ bool encrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
   int32_t level = 0;
   bool result{false};
-  if (pg_encrypt_password(temp, in.data(), tickcount, level)) {
+  if (pg_encrypt_password(temp, std::string{in}.c_str(), tickcount, level)) {
     result = true;
-    out = result;
+    out = temp;
   }
   return result;
 }
 
 bool decrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
-  if (!pg_decrypt_password(temp, in.data())) return false;
+  if (!pg_decrypt_password(temp, std::string{in}.c_str())) return false;
   out = temp;
   return true;
 }
-- 
2.43.0


From 2350ec63fa5d6a15003ee310f4f82bc3f8b95148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 060/150] fix: decrypting a forged password read past its text

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 9bc42e9..d21e810 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -456,7 +456,8 @@ static bool pg_decrypt_password(char *password, const char *encrypted) {
   if (pk_length < PG_MINPKEYLEN || pk_length > PG_MAXPKEYLEN)
     return false;
   length = pg_char2int(buffer[pk_length + 1]);
-  if (length < 0 || length > PG_MAXPASSWORDLEN)
+  if (length < 0 || length > PG_MAXPASSWORDLEN ||
+      pk_length + 2 + length > PG_RESULTLENSTD)
     return false;
   pg_decrypt(buffer + 1, pk_length, password, buffer + pk_length + 2, length);
 
-- 
2.43.0


From 0fd8b7a7ffdc1c9a1da406204b0d3679610c1a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 061/150] fix: a text encrypted with a number did not come back

The pieces of the text were taken without their length, numbers of ten
digits with a sign overflowed, and forged texts were read out of range.
---
 framework/core/src/basic/utility.cc | 31 ++++++++++++++++-------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index d21e810..fda67e2 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -552,7 +552,7 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
   auto number_len = number_str.size();
   out = "";
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    auto n = number / static_cast<int32_t>((pow(10, number_len - i - 1))) % 10;
+    auto n = number / static_cast<int64_t>((pow(10, number_len - i - 1))) % 10;
     char c = (char)n + _char;
     out = out + c;
   }
@@ -561,12 +561,14 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
 
 bool decrypt_number(std::string_view in, char _char, int32_t &number) {
   auto number_len = in.size();
-  number = 0;
+  if (number_len > 11) return false; // The most of an int32_t.
+  int64_t value{0};
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    number += (in[i] - _char) 
-              * static_cast<int32_t>(pow(10, number_len - i -1));
+    value += (in[i] - _char) 
+             * static_cast<int64_t>(pow(10, number_len - i -1));
   }
-  return true;
+  number = static_cast<int32_t>(value);
+  return number == value;
 }
 
 //This encrypt not change any word in old string, just insert the number as rand
@@ -592,11 +594,11 @@ bool encrypt(std::string_view in, int32_t number, std::string &out) {
   out = "";
   out = out + first_char + len_char + pos_len_char + pos_str;
   if (0 == pos) {
-    out = out + number_str + in.data();
+    out.append(number_str).append(in);
   } else if (pos == in.size()) {
-    out = out + in.data() + number_str;
+    out.append(in).append(number_str);
   } else {
-    out = out + in.substr(0, pos).data() + number_str + in.substr(pos).data();
+    out.append(in.substr(0, pos)).append(number_str).append(in.substr(pos));
   }
   return true;
 }
@@ -606,17 +608,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
   char first_char = in[0];
   int32_t length = in[1] - first_char;
   int32_t pos_len = in[2] - first_char;
+  if (length < 0 || pos_len < 0) return false;
   int32_t header_size = 3 + pos_len;
   if (in.size() < (size_t)header_size) return false;
   int32_t pos{0};
   auto pos_str = in.substr(3, pos_len);
-  decrypt_number(pos_str, first_char, pos);
+  if (!decrypt_number(pos_str, first_char, pos) || pos < 0) return false;
   size_t rsize = in.size() - header_size;
-  if (rsize < (size_t)(pos + length)) return false;
-  std::string number_str = in.substr(header_size + pos, length).data();
-  decrypt_number(number_str, first_char, number);
-  out = std::string{in.substr(header_size, pos).data()} + 
-        in.substr(header_size + pos + length).data();
+  if (rsize < (size_t)pos + length) return false;
+  auto number_str = in.substr(header_size + pos, length);
+  if (!decrypt_number(number_str, first_char, number)) return false;
+  out = std::string{in.substr(header_size, pos)}
+    .append(in.substr(header_size + pos + length));
   return true;
 }
 
-- 
2.43.0


From 1553e88984a96eac01ff7588db44a7203c7e0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 062/150] fix: bytes written as hexadecimal text did not come
 back

The low half of each byte and the digit 0 were written wrongly, and
reading skipped every third digit and ran past both buffers.
---
 framework/core/src/basic/utility.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index fda67e2..012c4f2 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -724,7 +724,7 @@ static char ascii_table[] = {
 
 char value_toascii(char in) {
   char out =
-    0 < in && sizeof(ascii_table) / sizeof(char) >
+    0 <= in && sizeof(ascii_table) / sizeof(char) >
     static_cast< size_t >(in) ? ascii_table[(uint8_t)in] : '?';
   return out;
 }
@@ -811,7 +811,7 @@ bool binary_tostring(const char *in, uint32_t in_length, char *out) {
   for (i = 0; i < in_length; ++i) {
     out[out_index] = value_toascii((static_cast<uint8_t>(in[i] & 0xF0)) >> 4);
     ++out_index;
-    out[out_index] = value_toascii(in[i] & 0xF0);
+    out[out_index] = value_toascii(in[i] & 0x0F);
     ++out_index;
   }
   return true;
@@ -823,12 +823,10 @@ bool string_tobinary(
   if (0 == in_length) return false;
   uint32_t out_index = 0;
   uint32_t i;
-  for (i = 0; i < in_length; ++i) {
+  for (i = 0; i + 1 < in_length && out_index < out_limit; i += 2) {
     if ('\0' == in[i] || '\0' == in[i + 1]) break;
     out[out_index] = (ascii_tovalue(in[i]) << 4) + ascii_tovalue(in[i + 1]);
     ++out_index;
-    i += 2;
-    if (out_index > out_limit) break;
   }
   out_length = out_index; //length must be the out_limit
   return true;
-- 
2.43.0


From c14dcb81adff2d2b310c69b19c41693a6c96553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 063/150] fix: escaping could write one byte past the output

---
 framework/core/src/basic/utility.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 012c4f2..18f66b2 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -250,6 +250,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
   for ( ; index1 < insize && index2 < outsize; ++index1) {
     char _char;
     if (get_escapechar(in[index1], _char)) {
+    if (index2 + 1 >= outsize) break;
     out[index2] = '\\';
     ++index2;
     out[index2] = _char;
-- 
2.43.0


From 667fce219981bafe3c4ba266a3427fadafdfe229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:47 +0000
Subject: [PATCH 064/150] fix: reading a string from a string stream overflowed
 a buffer

Its size was taken from the data, and strings were cut at a zero byte.
---
 framework/core/include/plain/basic/stringstream.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/stringstream.h b/framework/core/include/plain/basic/stringstream.h
index d5bf45c..d1d2a4e 100644
--- a/framework/core/include/plain/basic/stringstream.h
+++ b/framework/core/include/plain/basic/stringstream.h
@@ -79,12 +79,14 @@ class stringstream {
    }
 
    stringstream &operator>>(std::string &var) {
-     char temp[SSTREAM_STRING_SIZE_MAX]{0};
      int32_t size{0};
      read((char *)&size, sizeof(size));
      size = ntoh(size);
-     if (size > 0) read(temp, size);
-     var = temp;
+     var.clear();
+     if (size > 0 && static_cast<size_t>(size) <= size_ - cur_) {
+       var.assign(str_ + cur_, size);
+       cur_ += size;
+     }
      return *this;
    }
 
-- 
2.43.0


From ed3610f55a2055e6f5bee6c0f883e56d930c6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 065/150] fix: trimming left characters of its mask behind

The mask was applied one character after the other, and the default mask
ended at its zero byte.
---
 framework/core/include/plain/basic/utility.h |  6 +++---
 framework/core/src/basic/utility.cc          | 14 ++++----------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 14d4ca3..ad64e96 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -56,15 +56,15 @@ PLAIN_API bool checkstr(const char *in, uint32_t size);
 
 // Retira espacios en blanco (u otros caracteres) del inicio de un string.
 PLAIN_API std::string &ltrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Retira los espacios en blanco (u otros caracteres) del final de un string.
 PLAIN_API std::string &rtrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Elimina espacio en blanco (u otro tipo de caracteres) del inicio y el final de la cadena.
 PLAIN_API std::string &trim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str, std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Determine if a given string contains a given substring.
 PLAIN_API bool contains(
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 18f66b2..27c44ac 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -626,26 +626,20 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
 
 std::string &ltrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
   return str;
 }
 
 std::string &rtrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
 std::string &trim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
-- 
2.43.0


From 1b427cb3e671cc893d04193b2ee58995a5b59a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 066/150] fix: str_replaces only replaced its last text

And replacing the empty text never ended.
---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 27c44ac..681a6bc 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -656,6 +656,7 @@ std::string str_replace(
   std::string_view search, std::string_view replace, std::string_view subject, 
   int32_t count) {
   std::string r{subject};
+  if (search.empty()) return r;
   int32_t replace_count{0};
   auto it = r.find(search);
   auto search_length = search.length();
@@ -673,7 +674,7 @@ std::string str_replaces(
   std::string_view subject, int32_t count) {
   std::string r{subject};
   for (std::string_view item : search)
-    r = str_replace(item, replace, subject, count);
+    r = str_replace(item, replace, r, count);
   return r;
 }
 
-- 
2.43.0


From c02bf161a1c791c427def3d9b714dc10a93ff69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 067/150] fix: splitting a text at an empty key never ended

---
 framework/core/src/basic/utility.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 681a6bc..15a96f3 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -286,7 +286,7 @@ int32_t explode(
   if (one_key) {
     right = str.find_first_of(key);
   } else {
-    right = str.find(key);
+    right = '\0' == *key ? std::string::npos : str.find(key);
   }
 
   if (std::string::npos == right) right = str.length();
-- 
2.43.0


From a4070c47cd8113c4146bc4c3394797cbcf37038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 068/150] fix: converting long texts from or to wide characters
 overflowed

The room was 512 characters; views were read past their end.
---
 framework/core/src/basic/utility.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 15a96f3..d485872 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -689,9 +689,11 @@ std::string wstr2str(const std::wstring &str) {
   r = psText;
   safe_delete_array(psText);
 #else
-  char temp[512]{0,};
-  wcstombs(temp, str.c_str(), sizeof(temp) - 1);
-  r = temp;
+  auto length = wcstombs(nullptr, str.c_str(), 0);
+  if (length != static_cast<size_t>(-1)) {
+    r.resize(length);
+    wcstombs(r.data(), str.c_str(), length);
+  }
 #endif
   return r;
 }
@@ -706,9 +708,12 @@ std::wstring str2wstr(std::string_view str) {
   r = wszUtf8;
   safe_delete_array(wszUtf8);
 #else
-  wchar_t temp[512]{0,};
-  mbstowcs(temp, str.data(), sizeof(temp) - 1);
-  r = temp;
+  const std::string source{str};
+  auto length = mbstowcs(nullptr, source.c_str(), 0);
+  if (length != static_cast<size_t>(-1)) {
+    r.resize(length);
+    mbstowcs(r.data(), source.c_str(), length);
+  }
 #endif
   return r;
 }
-- 
2.43.0


From 6ab06cc6946095d73196cecbbc912700da795da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 069/150] fix: completing a path lost its termination

---
 framework/core/src/basic/utility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index d485872..3f333e8 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -994,8 +994,10 @@ uint32_t get_lowsection(uint64_t value) {
 
 void complementpath(char *filepath, size_t size, char delimiter) {
   uint32_t length = static_cast<uint32_t>(strlen(filepath));
-  if (size <= length) return;
-  filepath[length] = delimiter == filepath[length - 1] ? '\0' : delimiter;
+  if (0 == length || size < length + 2) return;
+  if (delimiter == filepath[length - 1]) return;
+  filepath[length] = delimiter;
+  filepath[length + 1] = '\0';
 }
 
 char *strerror_pl(int32_t saved_errno) {
-- 
2.43.0


From 89b7ff703f5986309a9947c8fcf111688525ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:15 +0000
Subject: [PATCH 070/150] fix: directories were made with mode 01363

The default mode lacked its octal prefix; also a directory made meanwhile
by another thread was a failure, and an empty or very long path was
written out of range.
---
 framework/core/include/plain/basic/utility.h | 2 +-
 framework/core/src/basic/utility.cc          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index ad64e96..8b482e9 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -139,7 +139,7 @@ PLAIN_API void get_module_filename(char *buffer, size_t size);
 
 PLAIN_API void disable_windowclose();
 
-PLAIN_API bool makedir(const char *path, uint16_t mode = 755);
+PLAIN_API bool makedir(const char *path, uint16_t mode = 0755);
 
 PLAIN_API uint32_t get_highsection(uint64_t value);
 
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 3f333e8..276e1de 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -950,6 +950,7 @@ bool makedir(const char *path, uint16_t) {
   int32_t i = 0;
   int32_t result = 0;
   int32_t length = static_cast<int32_t>(strlen(path));
+  if (0 == length || length + 2 > FILENAME_MAX) return false;
   safecopy(_path, path, sizeof(_path));
   path_tounix(_path, static_cast<uint16_t>(length));
   if (_path[length - 1] != '/') {
@@ -967,7 +968,7 @@ bool makedir(const char *path, uint16_t) {
         continue;
       }
       result = access(_path, 0);
-      if (result != 0 && mkdir(_path, mode) != 0) {
+      if (result != 0 && mkdir(_path, mode) != 0 && errno != EEXIST) {
         return false;
       }
       _path[i] = '/';
-- 
2.43.0


From 4ae6cb6ee7ea7a678717076c0083aa4ab5070b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 071/150] fix: variables compared greater when they were less

And decrementing one with the postfix operator incremented it.
---
 framework/core/include/plain/basic/type/variable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..6ce8928 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -162,7 +162,7 @@ struct PLAIN_API variable_struct {
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = to_int64() - 1;
     return *this;
   }
   
@@ -180,7 +180,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.value > rhs.value;
   }
 
   friend auto operator<=>(
-- 
2.43.0


From 5517375a627a374d5da18f5a839abc89231ea227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 072/150] fix: calculating with a variable cut off its fraction

---
 framework/core/include/plain/basic/type/variable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 6ce8928..0c3cc18 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -98,7 +98,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator+=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = object.to_double() + to_double();
     return *this;
   }
   template <typename T>
@@ -110,7 +110,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator-=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - object.to_double();
     return *this;
   }
   template <typename T>
@@ -122,7 +122,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator*=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * object.to_double();
     return *this;
   }
   
@@ -135,7 +135,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator/=(const variable_t &object) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / object.to_double();
     return *this;
   }
   template <typename T>
-- 
2.43.0


From aa6a999ee489592e29de73757ce75283a0ba2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 073/150] fix: a long assertion message overflowed its buffer

File names and keys of any length end up in it.
---
 framework/core/src/sys/assert.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/sys/assert.cc b/framework/core/src/sys/assert.cc
index 6d61a96..5ef8df0 100644
--- a/framework/core/src/sys/assert.cc
+++ b/framework/core/src/sys/assert.cc
@@ -29,9 +29,9 @@ void __assert__(
   const char *file, unsigned int line, const char *func, const char *expr) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC //换个格式
-  sprintf(temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]", file, line, func, expr);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]", file, line, func, expr);
 #endif
   __show__(temp);
 }
@@ -41,9 +41,9 @@ void __assertex__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
+  snprintf(temp, sizeof temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
 #endif
   __show__(temp);
 }
@@ -53,9 +53,9 @@ void __assertspecial__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
+  snprintf(temp, sizeof temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
 #else
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
+  snprintf(temp, sizeof temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
 #endif
   __show__(temp) ;
 }
-- 
2.43.0


From 91012f3a614d2fb680f9fc343f4857e8f1ddacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 074/150] fix: an ini object could not be opened a second time

The stream is not good after reading to its end, so it was never closed.
The buffers leaked as well.
---
 framework/core/src/file/ini.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..da14952 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,6 +27,7 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
   bufferlength_max_ += INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
@@ -64,7 +65,9 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
+  current_section_ = nullptr;
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
-- 
2.43.0


From 460b7642d8229802317cc3210ec0dac400b8822b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 075/150] fix: an ini file ended at its first line of 512 bytes

---
 framework/core/src/file/ini.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index da14952..9d3d810 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -38,8 +38,9 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    char *buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-- 
2.43.0


From f076f302b4462cb5b88d4cc98804ca9cb260509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 076/150] fix: a comment line in an ini file was trimmed out of
 range

---
 framework/core/src/file/ini.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 9d3d810..26e189d 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -222,9 +222,9 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
-  for (i = strlen(buffer) - 1; i > 0; --i) {
-    if (' '== buffer[i] || '\t' == buffer[i]) {
-      buffer[i] = 0;
+  for (i = strlen(buffer); i > 0; --i) {
+    if (' '== buffer[i - 1] || '\t' == buffer[i - 1]) {
+      buffer[i - 1] = 0;
     } else {
       break;
     }
-- 
2.43.0


From 5f09b32ea0a0c34fc1de0b1638a56b673b1ae93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 077/150] fix: the keys of a repeated ini section were lost

---
 framework/core/src/file/ini.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 26e189d..81859d6 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -44,9 +44,9 @@ bool Ini::open(const char *filename) noexcept {
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &_section = sectiondata_[section];
+      if (is_null(_section)) _section = new valueset_t;
+      current_section_ = _section;
       continue;
     }
     char *key = nullptr, *value = nullptr;
-- 
2.43.0


From e539886e583e36e9cf7a8e828f346d79ce888782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 078/150] fix: an ini key before any section crashed

---
 framework/core/src/file/ini.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 81859d6..edc4f44 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -56,6 +56,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
-- 
2.43.0


From 8b73a8d6e5be96e18217a1ab671b02b17ac28e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 079/150] fix: an ini value longer than its room overflowed it

---
 framework/core/src/file/ini.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index edc4f44..de9e604 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -200,7 +200,7 @@ bool Ini::_getstring(
     int position = it2->second;
     char *value = get_bufferstring(position);
     size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
+    safecopy(str, value, size);
     size_t _size = 
       valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
     str[_size] = 0;
-- 
2.43.0


From 54e7961e125afc09ce4cf2b1f29d0a1b85ea9d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 080/150] fix: growing the values of an ini file mixed new[]
 and realloc

It also grew once only, whatever the size of the value.
---
 framework/core/src/file/ini.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index de9e604..77dbbbd 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -256,8 +256,10 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 
 void Ini::_buffer_resize() {
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
+  auto buffer = new char[bufferlength_max_];
+  memcpy(buffer, buffer_, bufferlength_);
+  safe_delete_array(buffer_);
+  buffer_ = buffer;
 }
 
 char *Ini::get_bufferstring(int32_t position) {
@@ -268,7 +270,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 6e5e692efa35808567023ef2fcbafcf7c4960f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 081/150] fix: Ini::get<T> did not compile

And would have written a string past its end.
---
 framework/core/include/plain/file/ini.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/file/ini.h b/framework/core/include/plain/file/ini.h
index 4fcad71..5c5f16f 100644
--- a/framework/core/include/plain/file/ini.h
+++ b/framework/core/include/plain/file/ini.h
@@ -53,7 +53,8 @@ class PLAIN_API Ini {
   T get(
     std::string_view section, std::string_view key, T _default = {}) noexcept {
     T r{};
-    if (!_get<T>(section.data(), key.data(), r)) return _default;
+    if (!_get(std::string{section}.c_str(), std::string{key}.c_str(), r))
+      return _default;
     return r;
   }
 
@@ -73,7 +74,12 @@ class PLAIN_API Ini {
   bool _get(const char *section, const char *key, float &result);
   bool _get(
     const char *section, const char *key, std::string &result) noexcept {
-    return _getstring(section, key, result.data(), result.capacity() - 1);
+    auto it = sectiondata_.find(section);
+    if (it == sectiondata_.end() || !it->second) return false;
+    auto it2 = it->second->find(key);
+    if (it2 == it->second->end()) return false;
+    result = getstring(it2->second);
+    return true;
   }
   bool _getstring(
     const char *section, const char *key, char *str, int32_t size) noexcept;
-- 
2.43.0


From c2b3bb75f6a7121bb8ac4b4b973523ce65e140f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 082/150] fix: a table opened again kept its former records

and leaked its strings.
---
 framework/core/src/file/tab.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..61240cf 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -42,6 +42,15 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  // Forget a former table.
+  safe_delete_array(string_buffer_);
+  string_buffer_size_ = 0;
+  record_number_ = field_number_ = 0;
+  data_buffer_.clear();
+  type_.clear();
+  fieldnames_.clear();
+  hash_index_.clear();
+  index_column_ = INDEX_INVALID;
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
-- 
2.43.0


From 804df7896cbf629e69757c5232bcad729d4c5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 083/150] fix: opening a table of 65536 records never ended

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 61240cf..757da65 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -332,7 +332,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
-- 
2.43.0


From 619cad7aeb5c5fb88ece00aadce61125ea444572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:39 +0000
Subject: [PATCH 084/150] fix: cells outside a table were found in it

An unknown column name led to the last cell of the line before.
---
 framework/core/src/file/tab.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 757da65..d738ca6 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -94,7 +94,8 @@ uint8_t Tab::get_fieldtype(int32_t index) {
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
   int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  if (line < 0 || line >= record_number_ ||
+      column < 0 || column >= field_number_) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
@@ -116,7 +117,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-- 
2.43.0


From 3411dda1e184f8f634ba323347080d487492d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:40 +0000
Subject: [PATCH 085/150] fix: the index of a table was always that of its
 first column

---
 framework/core/src/file/tab.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index d738ca6..a6f662a 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -151,26 +151,28 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
     field_data* _field_data = &(data_buffer_[i * field_number_]);
-    field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
+    const auto value = _field_data[column].int_value;
+    field_hashmap::iterator it_find = hash_index_.find(value);
     if (it_find != hash_index_.end()) {
       char temp[256];
       memset(temp, '\0', sizeof(temp));
       snprintf(
         temp, sizeof(temp) - 1, "[%s]multi index at line: %d(smae value: %d)", 
-        filename, i + 1, _field_data->int_value);
+        filename ? filename : "", i + 1, value);
 #ifdef _plain_THROW_EXCEPTION_AS_STD_STRING
       throw std::string(temp);
 #else
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(value, _field_data));
   }
+  index_column_ = column;
 }
 
 const char *Tab::get_line_from_memory(
-- 
2.43.0


From 6ab1f72688b31f78c85e7d64cb49e9a65794ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:40 +0000
Subject: [PATCH 086/150] fix: column names were saved as a format, cut to 62
 characters

---
 framework/core/src/file/tab.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index a6f662a..c00e6b4 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -461,9 +461,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].c_str(), fieldnames_[i].size(), 1, fp); 
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From c53eba0aebc475dcd0d679c90b1b0a713e06648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:40 +0000
Subject: [PATCH 087/150] fix: a table saved as binary could not be read

Only an eighth of its cells was saved, strings as addresses; reading did
not skip the column types, relocated the wrong cells and trusted sizes
and offsets of the file.
---
 framework/core/src/file/tab.cc | 39 ++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index c00e6b4..7915497 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -353,11 +353,17 @@ bool Tab::open_from_memory_binary(
   file_head_t file_head;
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) {
+    return false;
+  }
   //check memory size
+  const auto cells =
+    static_cast<uint64_t>(file_head.record_number) * file_head.field_number;
+  if (cells > static_cast<uint64_t>(end - memory)) return false;
   if (sizeof(file_head) +
       sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+      sizeof(field_data) * cells + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
     return false;
   }
   _memory += sizeof(file_head);
@@ -373,6 +379,7 @@ bool Tab::open_from_memory_binary(
   std::vector<uint32_t> field_types;
   field_types.resize(field_number_);
   memcpy(&(field_types[0]), _memory, sizeof(uint32_t) * field_number_);
+  _memory += sizeof(uint32_t) * field_number_;
 
   //check it
   type_.resize(field_number_);
@@ -397,21 +404,20 @@ bool Tab::open_from_memory_binary(
 
   //read all field
   data_buffer_.resize(field_number_ * record_number_);
-  memcpy(
-    &(data_buffer_[0]), _memory, 
-    sizeof(field_data) * field_number_ * record_number_);
-  _memory += sizeof(field_data) * field_number_ * record_number_;
+  memcpy(data_buffer_.data(), _memory, sizeof(field_data) * cells);
+  _memory += sizeof(field_data) * cells;
   memcpy(string_buffer_, _memory, string_buffer_size_);
   string_buffer_[string_buffer_size_ - 1] = '\0';
 
   //runtime address
   for (i = 0; i < field_number_; ++i) {
     if (field_types[i] != kTypeString) continue;
-    std::string str;
     int32_t j;
     for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+      auto &_field_data = data_buffer_[i + field_number_ * j];
+      auto offset = reinterpret_cast<uint64_t>(_field_data.string_value);
+      if (offset >= static_cast<uint64_t>(string_buffer_size_)) offset = 0;
+      _field_data.string_value = string_buffer_ + offset;
     }
   }
   create_index(0, filename);
@@ -426,10 +432,17 @@ bool Tab::save_tobinary(const char *filename) {
     FILE *fp = fopen(filename, "wb");
     if (nullptr == fp) return false;
     fwrite(&filehead, sizeof(filehead), 1, fp);
-    fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
-    fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
+    fwrite(type_.data(), sizeof(field_type_enum), type_.size(), fp);
+    // Strings are saved as their offset in the string block.
+    for (size_t i = 0; i < data_buffer_.size(); ++i) {
+      uint64_t cell{0};
+      if (kTypeString == type_[i % field_number_]) {
+        cell = data_buffer_[i].string_value - string_buffer_;
+      } else {
+        memcpy(&cell, &data_buffer_[i].int_value, sizeof(int32_t));
+      }
+      fwrite(&cell, sizeof(cell), 1, fp);
+    }
     fwrite(string_buffer_, filehead.string_block_size, 1, fp);
     fclose(fp);
     return true;
-- 
2.43.0


From e2f669781f21fcc3e2661fd6c1819469d9d9e9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:34 +0000
Subject: [PATCH 088/150] fix: printing a log statement with a brace in it
 ended the process

The text of the statement was taken as a format.
---
 framework/core/src/basic/logger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 81cc586..306ab3f 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -116,13 +116,13 @@ void print_log(LogLevel level, const char *str) {
   switch (level) {
     case LogLevel::Fatal:
     case LogLevel::Error:
-      io_cerr(str);
+      io_cerr("{}", str);
       break;
     case LogLevel::Warn:
-      io_cwarn(str);
+      io_cwarn("{}", str);
       break;
     case LogLevel::Debug:
-      io_cdebug(str);
+      io_cdebug("{}", str);
       break;
     default:
       std::cout << str << std::endl;
-- 
2.43.0


From 9e731928993524cf4810d574330bef9816a698ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 089/150] fix: an empty allocation outside the pool could not
 be freed

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..1a010b5 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -171,7 +171,7 @@ public:
       memset((char *)head, 0, sizeof(AllocHeader));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -236,7 +236,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
-- 
2.43.0


From a362b55e4eb6418ff2a88dd12a2fc69423a40c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 090/150] fix: debug builds freed pool memory as if it came
 from malloc

---
 framework/core/include/plain/sys/memory/pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 1a010b5..6b42033 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -406,7 +406,7 @@ public:
             .append("  line, in ").append(function_name);
         it->second.allocated = false;
       }
-      ::free(ptr);
+      free(ptr);
     }
     return;
   } // freed
-- 
2.43.0


From 30aa3854456c881236543567b2661dbd20459c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 091/150] fix: memory from the pool was not aligned

The default leaf ends at an odd address and sizes were not rounded. Sizes
beyond 2 GB turned negative.
---
 .../core/include/plain/sys/memory/pool.h      | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 6b42033..16c7779 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -52,9 +52,13 @@ public:
    * @return - allocation ptr
    */
   void* malloc(std::size_t allocation_size) {
+    if (allocation_size > static_cast<std::size_t>(
+          std::numeric_limits<int32_t>::max()) - 2 * sizeof(AllocHeader)) {
+      return nullptr;
+    }
     // Allocation will include a header with service information:
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    const int32_t real_size = get_real_size(
+        static_cast<int32_t>(allocation_size));
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -153,16 +157,16 @@ public:
         && ((uint64_t)this) == (head->tag_this - head->leaf_id)
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
-      const int32_t real_size = head->size + sizeof(AllocHeader);
+      const int32_t real_size = get_real_size(head->size);
       const int32_t deallocated =
         leaf_array_[head->leaf_id].deallocated.fetch_add(
             real_size, std::memory_order_acq_rel) + real_size;
       int32_t available =
         leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
+      if (deallocated == (kLeafUsableBytes - available)) {
         // everything that was allocated is now returned, we will try, carefully, reset the Leaf
         if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
+              available, kLeafUsableBytes)) {
           leaf_array_[head->leaf_id].deallocated -= deallocated;
         }
       }
@@ -278,7 +282,7 @@ public:
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
         leaf_array_[i].available.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+            kLeafUsableBytes, std::memory_order_relaxed);
         leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
@@ -437,10 +441,19 @@ public:
 
 #endif
 private:
+  // Allocations are aligned like those of malloc.
+  static constexpr int32_t kAlignment = alignof(std::max_align_t);
+  static constexpr int32_t kLeafUsableBytes =
+    kLeafSizeBytes / kAlignment * kAlignment;
+  static constexpr int32_t get_real_size(int32_t size) {
+    const auto real_size = size + static_cast<int32_t>(sizeof(AllocHeader));
+    return (real_size + kAlignment - 1) / kAlignment * kAlignment;
+  }
+
   struct leaf_t {
     char *buf;
     // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
+    std::atomic<int32_t> available{ kLeafUsableBytes };
     // control of deallocations:
     std::atomic<int32_t> deallocated{ 0 };
   };
-- 
2.43.0


From 2efa8fd393af7efe87bb93e8e6c148aaa3ad1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 092/150] fix: the memory pool handed out memory in use

The two counters of a leaf changed one after the other: a leaf could be
reset while another thread had allocated from it, an allocation that did
not fit was never taken back, and the header of a returned block was
wiped after the block could belong to another thread. A leaf used up to
its last byte also kept the search from the others.
---
 .../core/include/plain/sys/memory/pool.h      | 73 ++++++++++---------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 16c7779..850c7f5 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -74,19 +74,21 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
-      // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
-      if (available >= real_size) {
+      auto &leaf_state = leaf_array_[leaf_id].state;
+      auto state = leaf_state.load(std::memory_order_acquire);
+      if (state.available >= real_size) {
         // we reserve memory 
         // (the buffer is distributed from the end with a bite):
-        const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
+        int32_t available_after{0};
+        bool reserved{false};
+        do {
+          available_after = state.available - real_size;
+          if (available_after < 0) break;
+          reserved = leaf_state.compare_exchange_weak(
+              state, {available_after, state.deallocated},
+              std::memory_order_acq_rel, std::memory_order_acquire);
+        } while (!reserved);
+        if (reserved) {
           // the resulting distribution address is easy to obtain, because it
           // starts immediately after "available", since addressing from &[0]
           // then this is "buf + available":
@@ -158,21 +160,19 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = get_real_size(head->size);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafUsableBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafUsableBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
-
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      auto &leaf_state = leaf_array_[head->leaf_id].state;
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM (the
+      // memory can be of another thread as soon as the leaf is reset):
       memset((char *)head, 0, sizeof(AllocHeader));
+      auto state = leaf_state.load(std::memory_order_acquire);
+      leaf_state_t next;
+      do {
+        next = {state.available, state.deallocated + real_size};
+        // everything that was allocated is now returned, reset the Leaf
+        if (next.deallocated == kLeafUsableBytes - next.available)
+          next = {kLeafUsableBytes, 0};
+      } while (!leaf_state.compare_exchange_weak(
+            state, next, std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
         && head->size >= 0) {
@@ -281,14 +281,12 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
-            kLeafUsableBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
+        leaf_array_[i].state.store(
+            {kLeafUsableBytes, 0}, std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].state.store(
+            {0, kLeafUsableBytes}, std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -450,12 +448,17 @@ private:
     return (real_size + kAlignment - 1) / kAlignment * kAlignment;
   }
 
-  struct leaf_t {
-    char *buf;
+  // Both change together: a leaf may only be reset while nothing is allocated
+  // from it.
+  struct alignas(8) leaf_state_t {
     // available == offset
-    std::atomic<int32_t> available{ kLeafUsableBytes };
+    int32_t available{ kLeafUsableBytes };
     // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    int32_t deallocated{ 0 };
+  };
+  struct leaf_t {
+    char *buf;
+    std::atomic<leaf_state_t> state;
   };
 
   /*
-- 
2.43.0


From 2eefcc65cc22fcdf439507c22992b5732e87cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 093/150] fix: PoolAllocator did not compile

Neither with its default pool nor in containers that rebind it; and
allocators of different pools were equal.
---
 .../core/include/plain/sys/memory/pool.h      | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 850c7f5..ae22485 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -593,13 +593,17 @@ struct PoolAllocator : public std::allocator<T>  {
   PoolAllocator(MyAllocatorType *in_allocator) : allocator_(in_allocator) {
 
   }
-  template <class U> constexpr PoolAllocator(const PoolAllocator<U> &)
-  noexcept {}
+  template <class U>
+  constexpr PoolAllocator(const PoolAllocator<U, FAllocator> &other) noexcept
+    : allocator_(other.allocator_) {}
+
+  // Not as std::allocator: pools are different.
+  using is_always_equal = std::is_same<FAllocator, PoolNull>;
 
   T *allocate(std::size_t n) {
     if (n > std::numeric_limits<std::size_t>::max() / sizeof (T))
       throw std::bad_alloc();
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       if (auto p = static_cast<T *>(
             PLAIN_MALLOC(Pool<>::instance(), (n * sizeof (T)))))
         return p;
@@ -617,7 +621,7 @@ struct PoolAllocator : public std::allocator<T>  {
   } // alloc
 
   void deallocate(T *p, std::size_t) noexcept {
-    if (std::is_same<FAllocator, PoolNull>::value) {
+    if constexpr (std::is_same<FAllocator, PoolNull>::value) {
       PLAIN_FREE(Pool<>::instance(),  p);
     } else {
       if (allocator_) {
@@ -637,14 +641,11 @@ struct PoolAllocator : public std::allocator<T>  {
   void destroy(_Up* __p) { __p->~_Up(); }
 };
 
-template <class T, class U>
-bool operator == (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return true;
-}
-
-template<class T, class U>
-bool operator != (const PoolAllocator<T>&, const PoolAllocator<U>&) {
-  return false;
+template <class T, class U, class FAllocator>
+bool operator==(
+    const PoolAllocator<T, FAllocator> &lhs,
+    const PoolAllocator<U, FAllocator> &rhs) {
+  return lhs.allocator_ == rhs.allocator_;
 }
 
 } // namespace plain::memory
-- 
2.43.0


From aed757b2b73b3aab2ce8838a88aa6b15d20642d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:01 +0000
Subject: [PATCH 094/150] fix: binding a function with arguments did not
 compile

---
 framework/core/include/plain/basic/bind.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/bind.h b/framework/core/include/plain/basic/bind.h
index f61e6fd..6b56cd1 100644
--- a/framework/core/include/plain/basic/bind.h
+++ b/framework/core/include/plain/basic/bind.h
@@ -26,7 +26,7 @@ template <typename F, typename ...Args>
 auto bind(F &&function, Args &&...args) {
   constexpr static auto inti = std::is_nothrow_invocable_v<F, Args...>;
   return [function = std::forward<F>(function),
-         tuple = std::make_tuple(std::forward(args)...)]()
+         tuple = std::make_tuple(std::forward<Args>(args)...)]()
            mutable noexcept(inti) -> decltype(auto) {
     return std::apply(function, tuple);
   };
@@ -57,7 +57,7 @@ auto bind_with_try_catch(F &&function) {
 template <typename F, typename ...Args>
 auto bind_with_try_catch(F &&function, Args &&...args) {
   return bind_with_try_catch(
-    bind(std::forward<F>(function), std::forward<Args>(args)...));
+    plain::bind(std::forward<F>(function), std::forward<Args>(args)...));
 }
 
 } // namespace plain
-- 
2.43.0


From 35b5dbb6f8b4337ed2e96aba6d1dc7a5bea68843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:01 +0000
Subject: [PATCH 095/150] fix: working a task queue off read it without its
 lock

---
 framework/core/include/plain/basic/task_queue.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..8f3c844 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -18,18 +18,20 @@ namespace plain {
 class TaskQueue {
 
 public:
-   void work_one() {
+   // Returns false if there was nothing to do.
+   bool work_one() {
      std::function<void()> task;
      {
        std::unique_lock<std::mutex> lock(queue_mutex_);
-       if (tasks_.empty()) return;
+       if (tasks_.empty()) return false;
        task = std::move(tasks_.front());
        tasks_.pop();
      }
      task();
+     return true;
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (work_one());
    }
 
  public:
-- 
2.43.0


From 62f950a27b185868d1de5d7dbcce6bf179deed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:01 +0000
Subject: [PATCH 096/150] fix: a looping thread could call its function only
 once

---
 framework/core/include/plain/sys/thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 22af1d0..6b2b8b6 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -190,9 +190,9 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
     set_name(name);
     start();
     ThreadCollect tc;
-    std::future<return_type> task_res = task->get_future();
     for (;;) {
       if (is_stopping()) break;
+      std::future<return_type> task_res = task->get_future();
       (*task)(); 
       (*task).reset(); //Remeber it, the packaged_task reset then can call again.
       using is_bool_result = std::is_same<bool, return_type>;
-- 
2.43.0


From 3f2cd5d661ad26266efff70f640a0396b261db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:36 +0000
Subject: [PATCH 097/150] fix: threads starting or stopping at the same time
 broke the globals

---
 framework/core/include/plain/sys/thread.h | 20 ++++++++++++--------
 framework/core/src/sys/thread.cc          | 21 +++++++++++++++++++++
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 6b2b8b6..538ed2a 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -112,38 +112,42 @@ inline const std::string status_key() {
   return _status_key;
 }
 
+// The status by key, safe for all threads(the globals are not).
+PLAIN_API void set_status(const std::string &key, ThreadStatus status);
+PLAIN_API variable_t get_status(const std::string &key);
+
 template<typename _Callable, typename... _Args>
 inline void start(thread_t &thread, _Callable &&__f, _Args &&...__args) {
   thread = thread_t(
         std::forward<_Callable>(__f), std::forward<_Args>(__args)...);
   const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(_status_key, ThreadStatus::Running);
 }
 
 inline void start(thread_t &thread) {
   const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(_status_key, ThreadStatus::Running);
 }
 
 inline void start() {
   const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(_status_key, ThreadStatus::Running);
 }
 
 inline void stop() {
   const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Stopped;
+  set_status(_status_key, ThreadStatus::Stopped);
 }
 
 inline void stop(thread_t &thread) {
   const std::string _status_key = status_key(thread);
-  if (GLOBALS[_status_key] == ThreadStatus::Running) 
-    GLOBALS[_status_key] = ThreadStatus::Stopped;
+  if (get_status(_status_key) == ThreadStatus::Running) 
+    set_status(_status_key, ThreadStatus::Stopped);
 }
 
 inline variable_t status(thread_t &thread) {
   const std::string _status_key = status_key(thread);
-  return GLOBALS[_status_key];
+  return get_status(_status_key);
 }
 
 inline bool is_running(thread_t &thread) {
@@ -156,7 +160,7 @@ inline bool is_stopping(thread_t &thread) {
 
 inline variable_t status() {
   const std::string _status_key = status_key();
-  return GLOBALS[_status_key];
+  return get_status(_status_key);
 }
 
 inline bool is_running() {
diff --git a/framework/core/src/sys/thread.cc b/framework/core/src/sys/thread.cc
index 0002dbd..92076d6 100644
--- a/framework/core/src/sys/thread.cc
+++ b/framework/core/src/sys/thread.cc
@@ -20,6 +20,15 @@ struct thread_per_thread_data {
 
 thread_local thread_per_thread_data s_tl_thread_per_data;
 
+struct status_collection {
+  std::mutex mutex;
+  variable_map_t values;
+  static status_collection &instance() {
+    static auto r = new status_collection; // Threads can end after the statics.
+    return *r;
+  }
+};
+
 }
 
 } // namespace detail
@@ -35,6 +44,18 @@ void set_name(const std::string_view &name) noexcept {
 #endif
 }
 
+void set_status(const std::string &key, ThreadStatus status) {
+  auto &collection = detail::status_collection::instance();
+  std::unique_lock<std::mutex> auto_lock{collection.mutex};
+  collection.values[key] = status;
+}
+
+variable_t get_status(const std::string &key) {
+  auto &collection = detail::status_collection::instance();
+  std::unique_lock<std::mutex> auto_lock{collection.mutex};
+  return collection.values[key];
+}
+
 std::uintptr_t get_current_virtual_id() noexcept {
   return detail::s_tl_thread_per_data.id;
 }
-- 
2.43.0


From c563a89c9ac5c83a84cc9e358f392914c9e3c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 098/150] fix: the background executor was given the options of
 the thread pool

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..e916489 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -214,8 +214,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads, 
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 29070ef1b65322f15eb0ba27da5d81e0c3d42b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 099/150] fix: removing a net by name read past the name

---
 framework/core/src/engine/kernel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index e916489..2e23018 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -309,7 +309,7 @@ void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
    
 void Kernel::remove_net(std::string_view name) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  impl_->nets.erase(name.data());
+  impl_->nets.erase(std::string{name});
 }
 
 bool Kernel::enable_console(std::string_view addr) noexcept {
-- 
2.43.0


From 2e0d445ba1e60477ae3b7ae4d145a7fa1afbcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 100/150] fix: a net without a name was refused when its
 generated name was taken

---
 framework/core/src/engine/kernel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2e23018..fc7e134 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -292,7 +292,9 @@ void Kernel::add(std::shared_ptr<net::connection::Manager> net) {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
   auto name = net->setting_.name;
   if (name.empty()) { // Set unnamed
-    name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    do {
+      name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    } while (impl_->nets.contains(name));
     net->setting_.name = name;
   }
   auto it = impl_->nets.find(name);
-- 
2.43.0


From 411e2375abd53d24b0c518451fb8ba432ad98e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 101/150] fix: killall stopped the console from its own thread

---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index fc7e134..f1651a0 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -137,6 +137,7 @@ std::string Kernel::Impl::console_cmd_kill(
   if (args.empty()) {
     // killall
     for (auto it : nets) {
+      if (it.first == "console") continue;
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From d517859f135f81e95900d7a540697b49f06a976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 102/150] fix: a console handler could not be replaced

---
 framework/core/src/engine/kernel.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index f1651a0..af873ea 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -358,10 +358,11 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
 void Kernel::register_console_handler(
   std::string_view cmd, console_func func, std::string_view desc) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  auto it = impl_->console_handlers.find(cmd.data());
+  std::string name{cmd};
+  auto it = impl_->console_handlers.find(name);
   if (it != impl_->console_handlers.end())
-    LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+    LOG_WARN << "cmd: " << name << " handler will replace";
+  impl_->console_handlers[name] = func;
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs[name] = desc;
 }
-- 
2.43.0


From cc60006a006436c0aabb8eb8f92847198bc8e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 103/150] fix: the console read past the end of a command

---
 framework/core/src/engine/kernel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index af873ea..547f13f 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -329,9 +329,10 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
-    auto d = reinterpret_cast<const char *>(packet->data().data());
+    auto d = packet->data();
+    std::string line{reinterpret_cast<const char *>(d.data()), d.size()};
     std::vector<std::string> params;
-    explode(d, params, " ", true, true);
+    explode(line.c_str(), params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
     auto it = ENGINE->impl_->console_handlers.find(cmd);
-- 
2.43.0


From 47dc0385ecb52d0844dba1f8ce0aa1a06521dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 104/150] fix: console commands were looked up while they were
 registered

---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 547f13f..95a2ac5 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -166,6 +166,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -335,10 +337,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(line.c_str(), params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From a1890d498d64f6198e34af58698377141d1df054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:32 +0000
Subject: [PATCH 105/150] fix: a console that could not start could not be
 started again

---
 framework/core/src/engine/kernel.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 95a2ac5..e190e51 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -323,13 +323,8 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   net::setting_t setting;
   setting.address = addr;
   setting.name = "console";
-  impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
-    return false;
-  LOG_INFO << "console listen on " <<
-    impl_->console_listener->address().text();
-  
-  impl_->console_listener->set_dispatcher([](
+  auto listener = std::make_unique<net::Listener>(setting);
+  listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = packet->data();
     std::string line{reinterpret_cast<const char *>(d.data()), d.size()};
@@ -358,9 +353,18 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     return true;
   });
   
-  impl_->console_listener->set_codec(
+  listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
+  try {
+    if (!listener->start()) return false;
+  } catch (const std::exception &e) { // The name is in use.
+    LOG_ERROR << "console start failed: " << e.what();
+    return false;
+  }
+  impl_->console_listener = std::move(listener);
+  LOG_INFO << "console listen on " <<
+    impl_->console_listener->address().text();
   return true;
 }
 
-- 
2.43.0


From 29ce1ba1c4d1b9d5fc63ef8c85c4c4f10914bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 106/150] fix: a library name with the suffix inside it got no
 suffix

---
 framework/core/src/file/library.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index d8e3633..a8ef102 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -49,7 +49,7 @@ void Library::set_filename(const std::string &_filename) noexcept {
     return;
   }
   // xx.sox, xx.so.1
-  if (suf_pos + strlen(LIBRARY_SUFFIX) > _filename.size()) {
+  if (suf_pos + strlen(LIBRARY_SUFFIX) < _filename.size()) {
     if (_filename.substr(suf_pos + strlen(LIBRARY_SUFFIX), 1) != ".") {
       filename_ += LIBRARY_SUFFIX;
       return;
-- 
2.43.0


From 40d1601e2d0fb0df311aa327bbda63ced6a9b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 107/150] fix: a library was looked up unprefixed on the first
 search path only

The try with the prefix left the prefix in the name, and it dropped the
wish to see the symbols globally.
---
 framework/core/src/file/library.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index a8ef102..22ba0e1 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -90,8 +90,12 @@ bool Library::load(bool tryprefix, bool seeglb) noexcept {
 #endif
       return false;
     }
-    filename_ = LIBRARY_PREFIX + filename_;
-    return load(false);
+    // The name given stays for the next try (another path, say).
+    auto name = filename_;
+    filename_ = LIBRARY_PREFIX + name;
+    auto r = load(false, seeglb);
+    if (!r) filename_ = name;
+    return r;
   } else {
     errorstr_.clear();
   }
-- 
2.43.0


From 01c4d13789fdbd9a7626c985eea8af47db4f4850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 108/150] fix: a library path that cannot be looked at ended
 the process

---
 framework/core/src/file/library.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 22ba0e1..26bdc82 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -59,7 +59,8 @@ void Library::set_filename(const std::string &_filename) noexcept {
 
 bool Library::load(bool tryprefix, bool seeglb) noexcept {
   std::filesystem::path path{path_ + filename_};
-  auto fileexists = std::filesystem::exists(path);
+  std::error_code ec;
+  auto fileexists = std::filesystem::exists(path, ec);
   if (fileexists) {
 #if OS_WIN
     UNUSED(seeglb);
-- 
2.43.0


From 05e050a1912f140872d9d4b06185442fd23b6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 109/150] fix: an unloaded library still said it was loaded

---
 framework/core/src/file/library.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 26bdc82..eadc2ac 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -130,6 +130,7 @@ bool Library::unload() noexcept {
     }
   }
 #endif
+  isloaded_ = !is_null(handle_);
   return is_null(handle_);
 }
    
-- 
2.43.0


From 7360442a27a19275cabdb92b9a3200cbace9e74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 110/150] fix: a library not loaded resolved symbols of the
 whole process

---
 framework/core/src/file/library.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index eadc2ac..81f3939 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -136,6 +136,10 @@ bool Library::unload() noexcept {
    
 void *Library::resolve(const std::string &symbol, bool again) noexcept {
   void *symbolhandle = nullptr;
+  if (is_null(handle_)) {
+    errorstr_ = "not loaded";
+    return nullptr;
+  }
 #if OS_WIN
   symbolhandle = cast(void *, GetProcAddress((HMODULE)handle_, symbol.c_str()));
   if (is_null(symbolhandle)) {
-- 
2.43.0


From b3158e645514590b81ecf0cffd9e11863c094903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 111/150] fix: library names were removed from a copy of their
 list

---
 framework/core/src/file/library.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 81f3939..29daa40 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -201,7 +201,7 @@ void LibraryManager::remove_searchpaths(
 
 void LibraryManager::remove_librarynames(const std::string &onlyname, 
                                          const std::vector<std::string> &names) {
-  std::vector<std::string> list = namesmap_[onlyname];
+  auto &list = namesmap_[onlyname];
   for (const std::string &name : names) {
     list.erase(std::remove(list.begin(), list.end(), name), list.end());
   }
-- 
2.43.0


From fcd27e12388440186e20638f84accbb9082663cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 112/150] fix: a library was loaded once for each of its
 possible names

Only the last one was kept, the others stayed loaded for ever.
---
 framework/core/src/file/library.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 29daa40..910571f 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -248,6 +248,7 @@ bool LibraryManager::load(
         err = library->errorstr();
       LOG_ERROR << "[library] load(" << name << ") error: " << err;
     }
+    if (loaded) break;
   }
   if (!library->isloaded()) {
     return false;
-- 
2.43.0


From 7889eb220577edf6d78ae69b2cef73648aea8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 113/150] fix: unloading a library whose load failed crashed

---
 framework/core/src/file/library.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 910571f..5c0dd04 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -276,7 +276,7 @@ __extension__
 
 bool LibraryManager::unload(const std::string &name) noexcept {
   auto it = librarymap_.find(name);
-  if (it == librarymap_.end()) {
+  if (it == librarymap_.end() || !it->second) {
     LOG_DEBUG << "[library] unload(" << name << ") not loaded";
     return true;
   }
-- 
2.43.0


From a556f53d27023c0d15c15cb78c0f6c960630932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 114/150] fix: a pid file without a number gave a random
 process id

---
 framework/core/src/sys/process.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index b5c3eae..7ae2162 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -36,8 +36,8 @@ void get_filename(char *filename, size_t size) {
 int32_t getid(const char *filename) {
   FILE *fp = fopen(filename, "r");
   if (nullptr == fp) return ID_INVALID;
-  int32_t id;
-  fscanf(fp, "%d", &id);
+  int32_t id = ID_INVALID;
+  if (fscanf(fp, "%d", &id) != 1) id = ID_INVALID;
   fclose(fp);
   return id;
 }
-- 
2.43.0


From d2a4001124d6f5da020427887e04f7647a7d21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:56 +0000
Subject: [PATCH 115/150] fix: process::get_info was defined under another name

---
 framework/core/src/sys/process.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index 7ae2162..cfcbff8 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -80,7 +80,7 @@ bool waitexit(const char *filename) {
   return true;
 }
 
-void getinfo(int32_t id, info_t &info) {
+void get_info(int32_t id, info_t &info) {
   info.id = id;
   info.cpu_percent = get_cpu_usage(id);
   info.VSZ = get_virtualmemory_usage(id);
-- 
2.43.0


From f777cf30513dcdb95fbf1ba2627d23ac0740aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:12 +0000
Subject: [PATCH 116/150] fix: a library loaded twice was never let go

---
 framework/core/src/file/library.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 5c0dd04..9147b09 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -58,6 +58,7 @@ void Library::set_filename(const std::string &_filename) noexcept {
 }
 
 bool Library::load(bool tryprefix, bool seeglb) noexcept {
+  if (!is_null(handle_)) return true;
   std::filesystem::path path{path_ + filename_};
   std::error_code ec;
   auto fileexists = std::filesystem::exists(path, ec);
-- 
2.43.0


From 461662e9f1626d8253bb34718c5069cecbb58f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:15 +0000
Subject: [PATCH 117/150] fix: libraries in the base path and its plugins were
 not found

The base path ends without a slash.
---
 framework/core/src/file/library.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 9147b09..cdd25c3 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -163,10 +163,12 @@ void *Library::resolve(const std::string &symbol, bool again) noexcept {
 }
 
 LibraryManager::LibraryManager() {
+  auto basepath = GLOBALS["app.basepath"].get<std::string>();
+  if (basepath.empty() || basepath.back() != '/') basepath += "/";
   add_searchpaths({
       "./",
-      GLOBALS["app.basepath"].get<std::string>(),
-      GLOBALS["app.basepath"].get<std::string>() + "plugins/",
+      basepath,
+      basepath + "plugins/",
   });
 #if OS_UNIX || OS_MAC
   add_searchpaths({
-- 
2.43.0


From e38a5dab244e5701fa15e8ee8515ba570043d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 118/150] fix: a connection was not closed if its socket had an
 error

The socket stayed open, and a kept connection could not connect again.
---
 framework/core/src/net/connection/basic.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 201b332..cc5313a 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -464,7 +464,6 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
   
-- 
2.43.0


From 42d8bf1ab6607012fd17166703b6dc616978fe34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 119/150] fix: reconnecting read past the end of the address
 given

---
 framework/core/src/net/connector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..0a9e800 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -178,7 +178,8 @@ bool Connector::connect(
   std::string_view address) noexcept {
   if (!conn || conn->id() == connection::kInvalidId) return false;
   std::string addr =
-    address.empty() ? conn->socket()->peer_address().text() : address.data();
+    address.empty() ? conn->socket()->peer_address().text() :
+    std::string{address};
   if (addr.empty()) return false;
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
-- 
2.43.0


From 60f04ac48e9240caa108b1ea0fcb178ca72f3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:42 +0000
Subject: [PATCH 120/150] fix: a task whose callable throws never destroyed it

---
 framework/core/include/plain/concurrency/task.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/concurrency/task.h b/framework/core/include/plain/concurrency/task.h
index f9726e4..1b3588a 100644
--- a/framework/core/include/plain/concurrency/task.h
+++ b/framework/core/include/plain/concurrency/task.h
@@ -120,15 +120,19 @@ class CallableVtable {
   }
 
   static void execute_destroy_inline(void *target) {
-    auto callable_ptr = inline_ptr(target);
-    (*callable_ptr)();
-    callable_ptr->~T();
+    struct destroyer_t { // Also if it throws.
+      T *ptr;
+      ~destroyer_t() { ptr->~T(); }
+    } destroyer{inline_ptr(target)};
+    (*destroyer.ptr)();
   }
 
   static void execute_destroy_allocated(void *target) {
-    auto callable_ptr = allocated_ptr(target);
-    (*callable_ptr)();
-    delete callable_ptr;
+    struct deleter_t { // Also if it throws.
+      T *ptr;
+      ~deleter_t() { delete ptr; }
+    } deleter{allocated_ptr(target)};
+    (*deleter.ptr)();
   }
 
   static void destroy_inline(void *target) noexcept {
-- 
2.43.0


From b1e963019c044e3bf6e3fc5c782786e2f10e80c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:12 +0000
Subject: [PATCH 121/150] fix: set_from_function on a promise already set ended
 the process

---
 framework/core/include/plain/concurrency/result/basic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/result/basic.h b/framework/core/include/plain/concurrency/result/basic.h
index b11a05b..12b89e7 100644
--- a/framework/core/include/plain/concurrency/result/basic.h
+++ b/framework/core/include/plain/concurrency/result/basic.h
@@ -193,7 +193,7 @@ class ResultPromise {
   }
 
   template <typename CT, class ...Args>
-  void set_from_function(CT &&callable, Args &&...args) noexcept {
+  void set_from_function(CT &&callable, Args &&...args) {
     constexpr auto is_invokable = std::is_invocable_r_v<T, CT, Args...>;
 
     static_assert(
-- 
2.43.0


From d480f91b68787047c91c5e091d5f52eaeedaeac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 122/150] fix: a new script environment took the id of a live
 one and destroyed it

---
 framework/core/include/plain/script/factory.h |  6 ++++--
 framework/core/src/script/factory.cc          | 15 +++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/script/factory.h b/framework/core/include/plain/script/factory.h
index 0222935..9108553 100644
--- a/framework/core/include/plain/script/factory.h
+++ b/framework/core/include/plain/script/factory.h
@@ -27,12 +27,14 @@ class PLAIN_API Factory {
    eid_t newenv(const config_t &config);
    eid_t newenv(Interface *env);
    Interface *getenv(eid_t eid) {
-     if (envs_[eid]) return envs_[eid].get();
+     auto it = envs_.find(eid);
+     if (it != envs_.end()) return it->second.get();
      return nullptr;
    }
    void closeenv(eid_t eid) {
      auto it = envs_.find(eid);
-     if (it != envs_.end()) envs_.erase(it);
+     if (it == envs_.end()) return;
+     envs_.erase(it);
      last_del_eid_ = eid; 
    }
 
diff --git a/framework/core/src/script/factory.cc b/framework/core/src/script/factory.cc
index e76d34b..388c712 100644
--- a/framework/core/src/script/factory.cc
+++ b/framework/core/src/script/factory.cc
@@ -1,5 +1,7 @@
 #include "plain/script/factory.h"
 #include "plain/script/interface.h"
+#include <algorithm>
+#include <limits>
 
 using namespace plain::script;
 
@@ -29,9 +31,14 @@ eid_t Factory::newenv(Interface *env) {
 
 eid_t Factory::neweid() {
   std::unique_lock<std::mutex> autolock(mutex_);
-  eid_t eid = SCRIPT_EID_INVALID;
-  eid = SCRIPT_EID_INVALID == last_del_eid_ ?
-        static_cast<eid_t>(envs_.size() + 1) : last_del_eid_;
+  eid_t eid = last_del_eid_;
   last_del_eid_ = SCRIPT_EID_INVALID;
-  return eid;
+  if (SCRIPT_EID_INVALID != eid && !envs_.contains(eid)) return eid;
+  constexpr size_t max_eid = std::numeric_limits<eid_t>::max();
+  // One of the ids up to the next one is always unused.
+  for (size_t next = std::min(envs_.size() + 1, max_eid); next > 0; --next) {
+    eid = static_cast<eid_t>(next);
+    if (!envs_.contains(eid)) return eid;
+  }
+  return SCRIPT_EID_INVALID;
 }
-- 
2.43.0


From 8f28a0f1b4dc075cfc010f7f9cb9c94e01c4a57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 123/150] fix: tell always answered 0

---
 framework/core/src/file/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/api.cc b/framework/core/src/file/api.cc
index 4347185..7058204 100644
--- a/framework/core/src/file/api.cc
+++ b/framework/core/src/file/api.cc
@@ -320,7 +320,7 @@ int64_t lseek(int32_t fd, uint64_t offset, int32_t whence) {
 int64_t tell([[maybe_unused]] int32_t fd) {
   int64_t result = 0;
 #if OS_UNIX || OS_MAC
-  //do nothing
+  result = ::lseek(fd, 0, SEEK_CUR);
 #elif OS_WIN
   result = ::_tell(fd);
   if (result < 0) {
-- 
2.43.0


From 5c047ec01d5a728a7b7fdddd446f8d3c8374109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 124/150] fix: a closed descriptor was reported as nonblocking

---
 framework/core/src/file/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/api.cc b/framework/core/src/file/api.cc
index 7058204..58999ab 100644
--- a/framework/core/src/file/api.cc
+++ b/framework/core/src/file/api.cc
@@ -221,7 +221,7 @@ int32_t fcntlarg(
 bool get_nonblocking([[maybe_unused]] int32_t fd) {
 #if OS_UNIX || OS_MAC
   int32_t flag = fcntlarg(fd, F_GETFL, 0);
-  return flag & O_NONBLOCK;
+  return flag >= 0 && (flag & O_NONBLOCK);
 #elif OS_WIN
   return false;
 #endif
-- 
2.43.0


From cfd7a3117f019eff158922b26336155a0c867865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 125/150] fix: of a long command only the beginning was run

---
 framework/core/src/sys/utility.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/sys/utility.cc b/framework/core/src/sys/utility.cc
index 78dc3c3..f963221 100644
--- a/framework/core/src/sys/utility.cc
+++ b/framework/core/src/sys/utility.cc
@@ -14,9 +14,7 @@ int32_t exec(
   [[maybe_unused]] size_t size) {
 #if OS_UNIX || OS_MAC
   char buffer[1024] = {0};
-  char temp[1024] = {0};
-  safecopy(temp, command, sizeof(temp));
-  FILE *fp = popen(temp, "r");
+  FILE *fp = popen(command, "r");
   if (!fp) return -1;
   if (fgets(buffer, 1024, fp) != 0) {
     safecopy(result, buffer, size);
-- 
2.43.0


From 78a0f1ad96f91e36eaa57dce3398af1fbae51998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:45 +0000
Subject: [PATCH 126/150] fix: a file name within a longer text opened another
 file

---
 framework/core/src/file/utility.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/utility.cc b/framework/core/src/file/utility.cc
index 55935e2..08f3410 100644
--- a/framework/core/src/file/utility.cc
+++ b/framework/core/src/file/utility.cc
@@ -5,7 +5,7 @@
 using namespace plain;
 
 FileAppend::FileAppend(const std::string_view &filename)
-  : fp_{fopen(filename.data(), "a+")}, buffer_{0}, written_bytes_{0} {
+  : fp_{fopen(std::string{filename}.c_str(), "a+")}, buffer_{0}, written_bytes_{0} {
   assert(fp_);
 #if OS_UNIX || OS_MAC
   ::setbuffer(fp_, buffer_, sizeof buffer_);
-- 
2.43.0


From 03145bcb7546633acaedc2ab287975203b14049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:09 +0000
Subject: [PATCH 127/150] fix: a socket connected at once stayed nonblocking

---
 framework/core/src/net/socket/api.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 2e9ef7b..4a7b914 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -224,11 +224,11 @@ bool connect(
   const auto connect_errno = 0;
 #endif
   bool r = e != kSocketError;
-  if (r) return r;
   if (!nonblocking && !set_nonblocking(id, false)) {
     set_error();
     return false;
   }
+  if (r) return r;
 #if OS_WIN
   if (connect_errno != WSAEINPROGRESS && connect_errno != WSAEWOULDBLOCK) {
     set_error();
@@ -236,7 +236,7 @@ bool connect(
   }
 #elif OS_UNIX || OS_MAC
   if (connect_errno != EINPROGRESS) {
-    set_error();
+    set_error(connect_errno);
     return false;
   }
 #endif
-- 
2.43.0


From ae535e8cc3750e952b3e57dc7834b8de8a760e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:35 +0000
Subject: [PATCH 128/150] fix: connecting a socket numbered above FD_SETSIZE
 wrote past its set

---
 framework/core/src/net/socket/api.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index 4a7b914..b8108e6 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -1,6 +1,9 @@
 #include "plain/net/socket/api.h"
 #include <errno.h>
+#include <algorithm>
+#include <limits>
 #if OS_UNIX || OS_MAC
+#include <poll.h>
 #include <signal.h>
 #endif
 #include "plain/file/api.h"
@@ -240,6 +243,13 @@ bool connect(
     return false;
   }
 #endif
+#if OS_UNIX || OS_MAC
+  pollfd poll_fd{id, POLLIN | POLLOUT, 0};
+  const auto wait_time = std::min<int64_t>(
+    timeout.count(), std::numeric_limits<int32_t>::max());
+  e = ::poll(&poll_fd, 1, wait_time > 0 ? static_cast<int32_t>(wait_time) : -1);
+  if (e == kSocketError) e = -errno;
+#else
   auto read_fds = fd_set{};
   FD_ZERO(&read_fds);
   FD_SET(id, &read_fds);
@@ -255,6 +265,7 @@ bool connect(
   } else {
     e = socket::select(FD_SETSIZE, &read_fds, &write_fds, nullptr, nullptr); 
   }
+#endif
   r = (e > 0);
   if (!r) {
     // zero return is mean timeout.
@@ -265,7 +276,7 @@ bool connect(
       e = ETIMEDOUT;
 #endif
     }
-    set_error(e);
+    set_error(e < 0 ? -e : e);
     return false;
   }
   uint32_t length{static_cast<uint32_t>(sizeof(e))};
-- 
2.43.0


From ce4abec8506a6e3b2e2c5b24d34127bb4d66be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:36 +0000
Subject: [PATCH 129/150] fix: accept never told the peer's address

---
 framework/core/src/net/socket/basic.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 1c7ae20..cfbf274 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -215,10 +215,14 @@ bool Basic::listen(uint32_t backlog) {
 int32_t Basic::accept(Address &addr) {
   int32_t r{kInvalidId};
   if (!valid()) return r;
-  auto d = addr.data();
-  uint32_t len{static_cast<uint32_t>(d.size())};
-  auto ptr = reinterpret_cast<sockaddr *>(d.data());
+  auto store = sockaddr_storage{};
+  uint32_t len{sizeof(store)};
+  auto ptr = reinterpret_cast<sockaddr *>(&store);
   r = socket::accept(impl_->id, ptr, &len);
+  if (r == kInvalidId) return r;
+  Address::value_type value;
+  value.append(reinterpret_cast<Address::value_type::value_type *>(ptr), len);
+  addr = value;
   return r;
 }
   
-- 
2.43.0


From 493c23f8d4050dd6033a5d111fd5e8f4c6fbd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:36 +0000
Subject: [PATCH 130/150] fix: an error without a name was reported under the
 name of an earlier one

---
 framework/core/src/net/socket/api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/socket/api.cc b/framework/core/src/net/socket/api.cc
index b8108e6..3ccdb69 100644
--- a/framework/core/src/net/socket/api.cc
+++ b/framework/core/src/net/socket/api.cc
@@ -134,6 +134,7 @@ static void set_error(int32_t e) {
       break;
     }
     default : {
+      s_error.set_message("UNKNOWN");
       break;
     }
   }
-- 
2.43.0


From 7388a5195f7c07dc23334de2aed7fcf8ecbaf2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:37 +0000
Subject: [PATCH 131/150] fix: a socket numbered above FD_SETSIZE wrote past
 the sets of select

---
 framework/core/src/net/connection/select.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 29793c9..744cc84 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -36,6 +36,15 @@ struct Select::Impl {
   int32_t select_timeout{10}; // The select timeout(ms).
   int32_t select_result{0};
 
+  // A set has room for small ids only(on windows for any).
+  static bool fits(socket::id_t id) noexcept {
+#if OS_WIN
+    return id != socket::kInvalidId;
+#else
+    return id >= 0 && id < FD_SETSIZE;
+#endif
+  }
+
   // flag: true add false remove
   void change_vaild_fd(socket::id_t id, bool flag) noexcept {
     assert(id != socket::kInvalidId);
@@ -84,6 +93,10 @@ Select::~Select() = default;
 
 bool Select::prepare() noexcept {
   if (listen_fd_ != socket::kInvalidId) {
+    if (!Impl::fits(listen_fd_)) {
+      LOG_ERROR << setting_.name << " listen id too large: " << listen_fd_;
+      return false;
+    }
     FD_SET(listen_fd_, &impl_->read_fds.full);
     FD_SET(listen_fd_, &impl_->except_fds.full);
     impl_->change_vaild_fd(listen_fd_, true);
@@ -131,7 +144,7 @@ void Select::handle_io() noexcept {
   try {
     foreach([this, listen_fd = listen_fd_](std::shared_ptr<Basic> conn){
       auto id = conn->socket()->id();
-      if (id == socket::kInvalidId) return; // Removed meanwhile.
+      if (!Impl::fits(id)) return; // Removed meanwhile.
       if (FD_ISSET(id, &impl_->except_fds.use)) {
         LOG_ERROR << setting_.name << " connection has except: " << conn->id();
         this->remove(conn->id());
@@ -158,6 +171,10 @@ bool Select::sock_add(
   assert(impl_->fd_size < FD_SETSIZE);
   assert(sock_id != socket::kInvalidId);
   assert(conn_id != connection::kInvalidId);
+  if (!Impl::fits(sock_id)) {
+    LOG_ERROR << setting_.name << " socket id too large: " << sock_id;
+    return false;
+  }
 
   FD_SET(sock_id, &impl_->read_fds.full);
   FD_SET(sock_id, &impl_->write_fds.full);
@@ -170,6 +187,7 @@ bool Select::sock_add(
 bool Select::sock_remove(socket::id_t sock_id) noexcept {
   std::unique_lock lock{impl_->mutex};
   assert(sock_id != socket::kInvalidId);
+  if (!Impl::fits(sock_id)) return false; // Never added.
   auto id = static_cast<uint32_t>(sock_id);
   // The sets in use belong to the thread that selects.
   FD_CLR(id, &impl_->read_fds.full);
-- 
2.43.0


From a0e13b42d24db65b380069f962792e74c55a4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 132/150] fix: an error with format arguments did not compile

---
 framework/core/include/plain/basic/error.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/error.h b/framework/core/include/plain/basic/error.h
index 2d94e13..e178cfa 100644
--- a/framework/core/include/plain/basic/error.h
+++ b/framework/core/include/plain/basic/error.h
@@ -54,13 +54,13 @@ class PLAIN_API [[nodiscard]] Error : copyable {
 
   template <typename ...Args>
   Error(code_t code, std::string_view format, Args ...args) :
-    Error(code, std::vformat(format, std::move(args)...)) {
+    Error(code, std::vformat(format, std::make_format_args(args...))) {
 
   }
 
   template <typename ...Args>
   Error(enums auto code, std::string_view format, Args ...args) :
-    Error(std::to_underlying(code), std::vformat(format, std::move(args)...)) {
+    Error(std::to_underlying(code), std::vformat(format, std::make_format_args(args...))) {
 
   }
 
-- 
2.43.0


From f629bc32081115eb786acb2dc8bbb7897df31894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 133/150] fix: appendf of the logger did not compile

---
 framework/core/include/plain/basic/logger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/logger.h b/framework/core/include/plain/basic/logger.h
index 77e16ae..4feec71 100644
--- a/framework/core/include/plain/basic/logger.h
+++ b/framework/core/include/plain/basic/logger.h
@@ -97,7 +97,8 @@ using flush_func_t = std::function<void()>;
   template<class... Args> 
   void appendf(const std::string_view &format, Args... args) {
     auto log = std::vformat(format, std::make_format_args(args...));
-    append(log);
+    std::string_view view{log};
+    append(view);
   }
 
   void reset_buffer();
-- 
2.43.0


From 4efc86971da8335daab8302a46841e96d3fb556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:33 +0000
Subject: [PATCH 134/150] fix: check_exp did not compile in debug builds

---
 framework/core/include/plain/sys/assert.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/assert.h b/framework/core/include/plain/sys/assert.h
index 8a948c0..02dbb60 100644
--- a/framework/core/include/plain/sys/assert.h
+++ b/framework/core/include/plain/sys/assert.h
@@ -50,7 +50,8 @@ PLAIN_API void __show__(const char *temp);
         __FILE__,__LINE__,__PRETTY_FUNCTION__,#expr,msg); \
   }}
   #define MyMessageBox(msg) ((void)0)
-  #define check_exp(c,e)(Assert((c)), (e))
+  #define check_exp(c,e)(((c) ? (void)0 : \
+    plain::__assert__(__FILE__,__LINE__,__PRETTY_FUNCTION__,#c)), (e))
 #elif defined(__WIN_CONSOLE__) || defined(__WIN32__) || OS_WIN
   #define Assert(expr) ((void)( \
   (expr) ? 0 : (plain::__assert__(__FILE__,__LINE__,__FUNCTION__,#expr),0)))
-- 
2.43.0


From 3940f26689e505968bcafc822c0b6d8bf43056c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:33 +0000
Subject: [PATCH 135/150] fix: two errors could not be compared

---
 framework/core/include/plain/basic/error.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/error.h b/framework/core/include/plain/basic/error.h
index e178cfa..246ebb7 100644
--- a/framework/core/include/plain/basic/error.h
+++ b/framework/core/include/plain/basic/error.h
@@ -65,8 +65,9 @@ class PLAIN_API [[nodiscard]] Error : copyable {
   }
 
  public:
-  bool operator==(const Error &) const noexcept = default;
-  bool operator!=(const Error &) const noexcept = default;
+  bool operator==(const Error &other) const noexcept {
+    return code_ == other.code_ && message_ == other.message_;
+  }
   bool valid() const noexcept {
     return code_ != std::to_underlying(ErrorCode::None);
   }
-- 
2.43.0


From cfd24f374f18e97df6050006705bbab6f03fe5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 136/150] fix: a thread used its name after the text given had
 ended

---
 framework/core/include/plain/sys/thread.h | 5 +++--
 framework/core/src/sys/thread.cc          | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 538ed2a..09066d4 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -190,7 +190,8 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name](){ 
+  // The new thread can outlive the text of the name.
+  auto r = thread_t([task, name = std::string{name}](){ 
     set_name(name);
     start();
     ThreadCollect tc;
@@ -212,7 +213,7 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   if (true == GLOBALS["app.debug"]) {
     std::stringstream id_str;
     id_str << r.get_id();
-    LOG_DEBUG << name.data() << " starting with " << id_str.str();
+    LOG_DEBUG << std::string{name} << " starting with " << id_str.str();
   }
   return r;
 }
diff --git a/framework/core/src/sys/thread.cc b/framework/core/src/sys/thread.cc
index 92076d6..b3d67f7 100644
--- a/framework/core/src/sys/thread.cc
+++ b/framework/core/src/sys/thread.cc
@@ -38,9 +38,9 @@ void set_name(const std::string_view &name) noexcept {
   const std::wstring utf16_name(name.begin(), name.end());
   ::SetThreadDescription(::GetCurrentThread(), utf16_name.data());
 #elif OS_UNIX
-  ::pthread_setname_np(::pthread_self(), name.data());
+  ::pthread_setname_np(::pthread_self(), std::string{name}.c_str());
 #elif OS_MAC
-  ::pthread_setname_np(name.data());
+  ::pthread_setname_np(std::string{name}.c_str());
 #endif
 }
 
-- 
2.43.0


From 1b5f9152cdbd593851c4953d28615f9ee8af402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:53 +0000
Subject: [PATCH 137/150] fix: messages shown had place-holders instead of
 their values

---
 framework/core/include/plain/sys/thread.h | 2 +-
 framework/core/src/sys/process.cc         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 09066d4..d9bf89f 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -234,7 +234,7 @@ inline ThreadCollect::~ThreadCollect() {
   auto count = count_.load(std::memory_order_relaxed);
   if (true == GLOBALS["app.debug"]) {
     plain::io_cdebug(
-      "[%s] thread(%s) collect wait exit: %d", GLOBALS["app.name"].c_str(), 
+      "[{}] thread({}) collect wait exit: {}", GLOBALS["app.name"].c_str(), 
       thread::get_id().c_str(), count);
   }
 }
diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index cfcbff8..3452716 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -62,7 +62,7 @@ bool waitexit(const char *filename) {
   }
   int32_t id = getid(filename);
   if (ID_INVALID == id) {
-    io_cerr("[sys] (process::waitexit) error, can't get id from file: %s",
+    io_cerr("[sys] (process::waitexit) error, can't get id from file: {}",
             filename);
     return false;
   }
@@ -75,7 +75,7 @@ bool waitexit(const char *filename) {
     std::this_thread::sleep_for(1s);
     result = kill(id, 0);
   }
-  io_cerr("[sys] (process::waitexit) success, pid(%d), result(%d)", id, result);
+  io_cerr("[sys] (process::waitexit) success, pid({}), result({})", id, result);
 #endif
   return true;
 }
-- 
2.43.0


From 7edc42fcecb7545d5007ade163070fda452dca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:23 +0000
Subject: [PATCH 138/150] fix: waitexit signalled a group of processes when the
 file named none

---
 framework/core/src/sys/process.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index 3452716..730e299 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -61,7 +61,7 @@ bool waitexit(const char *filename) {
     return false;
   }
   int32_t id = getid(filename);
-  if (ID_INVALID == id) {
+  if (id <= 0) { // Others name groups of processes.
     io_cerr("[sys] (process::waitexit) error, can't get id from file: {}",
             filename);
     return false;
-- 
2.43.0


From 980aa6c382f53dfb098be7461727f7d1a3533e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:58 +0000
Subject: [PATCH 139/150] fix: waiting or timing for centuries ended at once

---
 framework/core/include/plain/basic/time.h            | 12 ++++++++++++
 .../core/include/plain/concurrency/executor/manual.h | 12 ++++++++----
 .../plain/concurrency/result/detail/shared_state.h   |  3 +--
 .../include/plain/concurrency/result/detail/state.h  |  2 +-
 framework/core/include/plain/engine/timer.h          |  3 ++-
 framework/core/include/plain/net/connection/basic.h  |  4 +++-
 framework/core/include/plain/sys/atomic_wait.h       |  3 ++-
 .../core/src/concurrency/executor/thread_pool.cc     |  3 ++-
 .../core/src/concurrency/result/detail/state.cc      |  2 +-
 framework/core/src/engine/timer_queue.cc             |  2 +-
 10 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/framework/core/include/plain/basic/time.h b/framework/core/include/plain/basic/time.h
index 65ca986..a80a9fd 100644
--- a/framework/core/include/plain/basic/time.h
+++ b/framework/core/include/plain/basic/time.h
@@ -17,6 +17,18 @@
 
 namespace plain {
 
+// The time as milliseconds that can be added to any clock now: clocks count
+// nanoseconds, and would wrap around some centuries away.
+template <typename Rep, typename Period>
+constexpr std::chrono::milliseconds
+limited_time(std::chrono::duration<Rep, Period> time) noexcept {
+  using namespace std::chrono;
+  constexpr milliseconds max_time = hours{24 * 36500};
+  const duration<double, std::milli> value{time};
+  if (!(value > milliseconds{0})) return milliseconds{0};
+  return value < max_time ? duration_cast<milliseconds>(time) : max_time;
+}
+
 class PLAIN_API Time {
 
  public:
diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 8e4ecbf..da3ece1 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -14,6 +14,7 @@
 
 #include "plain/concurrency/executor/config.h"
 #include "plain/concurrency/executor/derivable.h"
+#include "plain/basic/time.h"
 #include <deque>
 #include <mutex>
 #include <chrono>
@@ -93,14 +94,17 @@ Manual final : public Derivable<Manual> {
       noexcept(noexcept(Clock::now())) {
     const auto src_now = Clock::now();
     const auto dst_now = std::chrono::system_clock::now();
-    return dst_now +
-      std::chrono::duration_cast<std::chrono::milliseconds>(
-        time_point - src_now);
+    if (time_point <= src_now) {
+      constexpr std::chrono::hours max_late{1};
+      if (time_point + max_late <= src_now) return dst_now - max_late;
+      return dst_now - limited_time(src_now - time_point);
+    }
+    return dst_now + limited_time(time_point - src_now);
   }
   
   static std::chrono::system_clock::time_point
   time_point_from_now(std::chrono::milliseconds ms) noexcept {
-    return std::chrono::system_clock::now() + ms;
+    return std::chrono::system_clock::now() + limited_time(ms);
   }
 
   size_t loop_impl(size_t max_count);
diff --git a/framework/core/include/plain/concurrency/result/detail/shared_state.h b/framework/core/include/plain/concurrency/result/detail/shared_state.h
index cfc089c..c239b2b 100644
--- a/framework/core/include/plain/concurrency/result/detail/shared_state.h
+++ b/framework/core/include/plain/concurrency/result/detail/shared_state.h
@@ -52,8 +52,7 @@ class PLAIN_API SharedStateBasic {
   ResultStatus wait_for(std::chrono::duration<Rep, Period> duration) {
     using plain::sys::detail::atomic_wait_for;
     const auto ms =
-      std::chrono::duration_cast<std::chrono::milliseconds>(duration) +
-      std::chrono::milliseconds(2);
+      limited_time(duration) + std::chrono::milliseconds(2);
     atomic_wait_for(status_, ResultStatus::Idle, ms, std::memory_order_acquire);
     return status();
   }
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index f84bad8..1ba882a 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -76,7 +76,7 @@ class State : public StateBasic {
 
   template <typename Rep, typename Period = std::ratio<1>>
   ResultStatus wait_for(std::chrono::duration<Rep, Period> duration) noexcept {
-    const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(duration);
+    const auto ms = limited_time(duration);
     const auto status = StateBasic::wait_for(ms);
     if (status == ProcessStatus::ProducerDone)
       return producer_.status();
diff --git a/framework/core/include/plain/engine/timer.h b/framework/core/include/plain/engine/timer.h
index 67e281f..6e433fd 100644
--- a/framework/core/include/plain/engine/timer.h
+++ b/framework/core/include/plain/engine/timer.h
@@ -14,6 +14,7 @@
 
 #include "plain/engine/config.h"
 #include "plain/concurrency/config.h"
+#include "plain/basic/time.h"
 #include <atomic>
 #include <memory>
 #include <chrono>
@@ -94,7 +95,7 @@ class PLAIN_API TimerStateBasic :
 
  private:
   static time_point make_deadline(milliseconds diff) noexcept {
-    return clock_type::now() + diff;
+    return clock_type::now() + limited_time(diff);
   }
 
 };
diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 006a75e..9376bae 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -13,6 +13,7 @@
 #define PLAIN_NET_CONNECTION_BASIC_H_
 
 #include "plain/net/connection/config.h"
+#include "plain/basic/time.h"
 #include "plain/net/packet/basic.h"
 #include "plain/net/stream/codec.h"
 #include "plain/net/rpc/packer.h"
@@ -60,7 +61,8 @@ Basic final : noncopyable {
   rpc::Unpacker call(std::string_view name, Args ...args) {
     auto future = async_call(name, std::forward<Args>(args)...);
     if (auto timeout = get_call_timeout()) {
-      auto wait_result = future.wait_for(std::chrono::milliseconds(*timeout));
+      auto wait_result = future.wait_for(
+        limited_time(std::chrono::milliseconds(*timeout)));
       if (wait_result == std::future_status::timeout) {
         std::string func_name(name.data(), name.size());
         throw std::logic_error(
diff --git a/framework/core/include/plain/sys/atomic_wait.h b/framework/core/include/plain/sys/atomic_wait.h
index 7736180..1f70173 100644
--- a/framework/core/include/plain/sys/atomic_wait.h
+++ b/framework/core/include/plain/sys/atomic_wait.h
@@ -13,6 +13,7 @@
 #define PLAIN_SYS_ATOMIC_WAIT_H_
 
 #include "plain/sys/config.h"
+#include "plain/basic/time.h"
 #include <atomic>
 #include <chrono>
 #include <thread>
@@ -53,7 +54,7 @@ template <typename T>
 AtomicWaitStatus atomic_wait_for(
   std::atomic<T> &atom, T old, std::chrono::milliseconds ms,
   std::memory_order order) noexcept {
-  const auto deadline = std::chrono::system_clock::now() + ms;
+  const auto deadline = std::chrono::system_clock::now() + limited_time(ms);
 #if OS_MAC
   size_t polling_cycle = 0;
 #endif
diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index fe99c06..fad7a00 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -1,6 +1,7 @@
 #include "plain/concurrency/executor/thread_pool.h"
 #include <semaphore>
 #include <algorithm>
+#include "plain/basic/time.h"
 #include "plain/sys/thread.h"
 
 using plain::concurrency::executor::detail::IdleWorkerSet;
@@ -271,7 +272,7 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
   parent_pool_.mark_worker_idle(index_);
 
   auto event_found = false;
-  const auto deadline = std::chrono::steady_clock::now() + max_idle_time_;
+  const auto deadline = std::chrono::steady_clock::now() + limited_time(max_idle_time_);
 
   while (true) {
     if (!semaphore_.try_acquire_until(deadline)) {
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index e0c2f18..aabf51f 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -44,7 +44,7 @@ ProcessStatus StateBasic::wait_for(std::chrono::milliseconds ms) noexcept {
       return ProcessStatus::ProducerDone;
     }
 
-    ms += std::chrono::milliseconds(2);
+    ms = limited_time(ms) + std::chrono::milliseconds(2);
     const auto res = plain::sys::detail::atomic_wait_for(
       process_status_, ProcessStatus::ConsumerWaiting, ms,
       std::memory_order_acquire);
diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 48017e8..3bc9277 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -242,7 +242,7 @@ void TimerQueue::Impl::work_loop() {
   while (true) {
     std::unique_lock<decltype(lock)> _lock(lock);
     if (internal_state.empty()) {
-      const auto res = condition.wait_for(_lock, max_waiting_time, [this] {
+      const auto res = condition.wait_for(_lock, limited_time(max_waiting_time), [this] {
         return !request_queue.empty() || abort;
       });
       if (!res) {
-- 
2.43.0


From e510d5e598a6007495318eeefa37e2ad37225bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:58 +0000
Subject: [PATCH 140/150] fix: get_error_str could not be called

---
 framework/core/include/plain/basic/utility.h | 2 +-
 framework/core/src/basic/utility.cc          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 8b482e9..8cf463a 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -152,7 +152,7 @@ PLAIN_API uint64_t touint64(uint32_t high, uint32_t low);
 
 PLAIN_API char *strerror_pl(int32_t saved_errno);
 
-PLAIN_API std::string get_error_str(int32_t errno);
+PLAIN_API std::string get_error_str(int32_t saved_errno);
 
 template <typename F>
 struct scoped_executor_t {
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 276e1de..c4a9938 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -1013,23 +1013,23 @@ char *strerror_pl(int32_t saved_errno) {
 #endif
 }
 
-std::string get_error_str(int32_t errno) {
+std::string get_error_str(int32_t saved_errno) {
   char buf[1024];
   buf[0] = '\0';
 #if OS_WIN
   FormatMessage(FORMAT_MESSAGE_FROM_SYSTEM | FORMAT_MESSAGE_IGNORE_INSERTS,
-    NULL, errno, MAKELANGID(LANG_NEUTRAL, SUBLANG_DEFAULT),
+    NULL, saved_errno, MAKELANGID(LANG_NEUTRAL, SUBLANG_DEFAULT),
     reinterpret_cast<LPWSTR>(buf), sizeof(buf), NULL);
 #else
 
 #ifdef _GNU_SOURCE
 
 #if !defined(__GLIBC__)
-  int e = strerror_r(errno, buf, sizeof(buf));
+  int e = strerror_r(saved_errno, buf, sizeof(buf));
   auto s = strerror(e);
   return s ? std::string(s) : std::string{};
 #else
-  auto s = strerror_r(errno, buf, sizeof(buf));
+  auto s = strerror_r(saved_errno, buf, sizeof(buf));
   return s ? std::string(s) : std::string{};
 #endif
 
-- 
2.43.0


From 9e3a3b416b5df5c510ff767fffa596cef0554db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:58 +0000
Subject: [PATCH 141/150] fix: the file name of the program overflowed a buffer
 too small for it

---
 framework/core/src/basic/utility.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index c4a9938..545d764 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -925,9 +925,10 @@ void get_module_filename(char *buffer, size_t size) {
   resultcode = (int32_t)GetModuleFileName(nullptr, buffer, (DWORD)size);
 #endif
 #elif OS_UNIX || OS_MAC
-  resultcode = readlink("/proc/self/exe", buffer, size);
-  Assert(resultcode > 0 && resultcode < static_cast<int32_t>(size));
-  buffer[resultcode] = '\0';
+  if (0 == size) return;
+  resultcode = readlink("/proc/self/exe", buffer, size - 1);
+  Assert(resultcode > 0 || 1 == size);
+  buffer[resultcode > 0 ? resultcode : 0] = '\0';
 #endif
 }
 
-- 
2.43.0


From 05e8207e0cd72ea2a919e2a7d2e1a03152224ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 142/150] fix: waiting for a task failed when there were
 several

---
 framework/core/include/plain/concurrency/executor/manual.h | 2 +-
 framework/core/src/concurrency/executor/manual.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index da3ece1..e8d8d3c 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -66,7 +66,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..377e914 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -97,7 +97,7 @@ void Manual::wait_for_task() {
 }
 
 bool Manual::wait_for_task_for(std::chrono::milliseconds max_waiting_time) {
-  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) == 1;
+  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) >= 1;
 }
 
 void Manual::wait_for_tasks(size_t count) {
-- 
2.43.0


From acbc678028b1847adf4eaddcd435f7ca86c0024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:54 +0000
Subject: [PATCH 143/150] fix: reading past the end of a string stream swapped
 the variable's bytes

---
 framework/core/include/plain/basic/stringstream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/include/plain/basic/stringstream.h b/framework/core/include/plain/basic/stringstream.h
index d1d2a4e..4327f7c 100644
--- a/framework/core/include/plain/basic/stringstream.h
+++ b/framework/core/include/plain/basic/stringstream.h
@@ -63,6 +63,7 @@ class stringstream {
  public:
    template <typename T>
    stringstream &operator>>(T &var) {
+     if (sizeof(var) + cur_ > size_) return *this;
      read((char *)&var, sizeof(var));
      var = ntoh(var);
      return *this;
-- 
2.43.0


From d4247c77f57fa7379dd4fc7dce325248136a9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:04 +0000
Subject: [PATCH 144/150] fix: timers followed the date instead of the time
 passed

---
 framework/core/include/plain/engine/timer.h | 2 +-
 framework/core/src/engine/timer_queue.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework/core/include/plain/engine/timer.h b/framework/core/include/plain/engine/timer.h
index 6e433fd..7454207 100644
--- a/framework/core/include/plain/engine/timer.h
+++ b/framework/core/include/plain/engine/timer.h
@@ -27,7 +27,7 @@ class PLAIN_API TimerStateBasic :
   public std::enable_shared_from_this<TimerStateBasic> {
 
  public:
-  using clock_type = std::chrono::high_resolution_clock;
+  using clock_type = std::chrono::steady_clock;
   using time_point = std::chrono::time_point<clock_type>;
   using milliseconds = std::chrono::milliseconds;
 
diff --git a/framework/core/src/engine/timer_queue.cc b/framework/core/src/engine/timer_queue.cc
index 3bc9277..3d43afc 100644
--- a/framework/core/src/engine/timer_queue.cc
+++ b/framework/core/src/engine/timer_queue.cc
@@ -5,7 +5,7 @@
 #include "plain/sys/thread.h"
 
 using plain::TimerQueue;
-using clock_type = std::chrono::high_resolution_clock;
+using clock_type = std::chrono::steady_clock;
 using time_point_t = std::chrono::time_point<clock_type>;
 using timer_ptr_t = std::shared_ptr<plain::detail::TimerStateBasic>;
 
@@ -41,7 +41,7 @@ class TimerQueueInternal {
   ::time_point_t process_timers(request_queue_t &queue) {
     process_request_queue(queue);
 
-    const auto now = std::chrono::high_resolution_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     while (true) {
       if (timers_.empty()) break;
       timer_set_t temp_set;
-- 
2.43.0


From 7a409f9dd1a3dfe7adbcc625f291b014bf5ff0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:04 +0000
Subject: [PATCH 145/150] fix: waits for a result followed the date instead of
 the time passed

---
 framework/core/include/plain/sys/atomic_wait.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/atomic_wait.h b/framework/core/include/plain/sys/atomic_wait.h
index 1f70173..ad04d1b 100644
--- a/framework/core/include/plain/sys/atomic_wait.h
+++ b/framework/core/include/plain/sys/atomic_wait.h
@@ -54,14 +54,14 @@ template <typename T>
 AtomicWaitStatus atomic_wait_for(
   std::atomic<T> &atom, T old, std::chrono::milliseconds ms,
   std::memory_order order) noexcept {
-  const auto deadline = std::chrono::system_clock::now() + limited_time(ms);
+  const auto deadline = std::chrono::steady_clock::now() + limited_time(ms);
 #if OS_MAC
   size_t polling_cycle = 0;
 #endif
   while (true) {
     if (atom.load(order) != old)
       return AtomicWaitStatus::Success;
-    const auto now = std::chrono::system_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     if (now >= deadline) {
       if (atom.load(order) != old)
         return AtomicWaitStatus::Success;
-- 
2.43.0


From c468e7bd66e55c6064dba15d8933e88c57160ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:04 +0000
Subject: [PATCH 146/150] fix: waits of the manual executor followed the date
 instead of the time passed

---
 .../plain/concurrency/executor/manual.h       | 22 +++++++++----------
 .../core/src/concurrency/executor/manual.cc   |  6 ++---
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index e8d8d3c..120e8f8 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -48,7 +48,7 @@ Manual final : public Derivable<Manual> {
 
   template <typename Clock, typename Duration = typename Clock::duration>
   bool loop_once_until(std::chrono::time_point<Clock, Duration> timeout_time) {
-    return loop_until_impl(1, to_system_time_point(timeout_time));
+    return loop_until_impl(1, to_steady_time_point(timeout_time));
   }
 
   size_t loop(size_t max_count);
@@ -57,7 +57,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   size_t loop_until(
     size_t max_count, std::chrono::time_point<Clock, Duration> timeout_time) {
-    return loop_until_impl(max_count, to_system_time_point(timeout_time));
+    return loop_until_impl(max_count, to_steady_time_point(timeout_time));
   }
 
   void wait_for_task();
@@ -66,7 +66,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) >= 1;
+    return wait_for_tasks_impl(1, to_steady_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
@@ -76,7 +76,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   size_t wait_for_tasks_until(
     size_t count, std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(count, to_system_time_point(timeout_time));
+    return wait_for_tasks_impl(count, to_steady_time_point(timeout_time));
   }
 
  private:
@@ -88,12 +88,12 @@ Manual final : public Derivable<Manual> {
 
  private:
   template <typename Clock, typename Duration = typename Clock::duration>
-  static std::chrono::system_clock::time_point
-  to_system_time_point(
+  static std::chrono::steady_clock::time_point
+  to_steady_time_point(
     const std::chrono::time_point<Clock, Duration> &time_point)
       noexcept(noexcept(Clock::now())) {
     const auto src_now = Clock::now();
-    const auto dst_now = std::chrono::system_clock::now();
+    const auto dst_now = std::chrono::steady_clock::now();
     if (time_point <= src_now) {
       constexpr std::chrono::hours max_late{1};
       if (time_point + max_late <= src_now) return dst_now - max_late;
@@ -102,19 +102,19 @@ Manual final : public Derivable<Manual> {
     return dst_now + limited_time(time_point - src_now);
   }
   
-  static std::chrono::system_clock::time_point
+  static std::chrono::steady_clock::time_point
   time_point_from_now(std::chrono::milliseconds ms) noexcept {
-    return std::chrono::system_clock::now() + limited_time(ms);
+    return std::chrono::steady_clock::now() + limited_time(ms);
   }
 
   size_t loop_impl(size_t max_count);
   size_t loop_until_impl(
     size_t max_count,
-    std::chrono::time_point<std::chrono::system_clock> deadline);
+    std::chrono::time_point<std::chrono::steady_clock> deadline);
 
   void wait_for_tasks_impl(size_t count);
   size_t wait_for_tasks_impl(
-    size_t count, std::chrono::time_point<std::chrono::system_clock> deadline);
+    size_t count, std::chrono::time_point<std::chrono::steady_clock> deadline);
 
 };
 
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index 377e914..1a7ff18 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -134,14 +134,14 @@ size_t Manual::loop_impl(size_t max_count) {
 
 size_t Manual::loop_until_impl(
   size_t max_count,
-  std::chrono::time_point<std::chrono::system_clock> deadline) {
+  std::chrono::time_point<std::chrono::steady_clock> deadline) {
   if (max_count == 0) return 0;
   size_t executed{0};
   deadline += std::chrono::milliseconds(1);
   while (true) {
     if (executed == max_count)
       break;
-    const auto now = std::chrono::system_clock::now();
+    const auto now = std::chrono::steady_clock::now();
     if (now >= deadline)
       break;
     std::unique_lock<decltype(lock_)> lock{lock_};
@@ -181,7 +181,7 @@ void Manual::wait_for_tasks_impl(size_t count) {
 }
 
 size_t Manual::wait_for_tasks_impl(
-  size_t count, std::chrono::time_point<std::chrono::system_clock> deadline) {
+  size_t count, std::chrono::time_point<std::chrono::steady_clock> deadline) {
   deadline += std::chrono::milliseconds(1);
   std::unique_lock<decltype(lock_)> lock{lock_};
   condition_.wait_until(lock, deadline, [this, count] {
-- 
2.43.0


From 6ef4eb221ee5e8f32fd201535f199c87bebe2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:58 +0000
Subject: [PATCH 147/150] fix: the log directory was made in debug builds only

---
 framework/core/src/basic/async_logger.cc | 4 +++-
 framework/core/src/basic/global.cc       | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 03edd4f..a857e2e 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -258,7 +258,9 @@ AsyncLogger::AsyncLogger(
       std::string{name}, roll_size, flush_interval)} {
   auto log_directory = GLOBALS["log.directory"].get<std::string>();
   if (!std::filesystem::exists(log_directory)) {
-    assert(std::filesystem::create_directory(log_directory));
+    [[maybe_unused]] const auto created =
+      std::filesystem::create_directory(log_directory);
+    assert(created);
   }
 }
 
diff --git a/framework/core/src/basic/global.cc b/framework/core/src/basic/global.cc
index 6d91902..88b43f8 100644
--- a/framework/core/src/basic/global.cc
+++ b/framework/core/src/basic/global.cc
@@ -39,7 +39,8 @@ void InitGlobal::init() {
   // Logs settings.
   SET("log.print", false);
   auto log_directory = path + "/log";
-  assert(makedir(log_directory.c_str()));
+  [[maybe_unused]] const auto made = makedir(log_directory.c_str());
+  assert(made);
   SET("log.directory", log_directory);
 }
 
-- 
2.43.0


From 9879ae62349417b9b9f4d9f30dfd6862ac94482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 148/150] fix: check_access took ranges reaching past the end
 of the address space for part of a block

---
 framework/core/include/plain/sys/memory/pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index ae22485..422a5b1 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -225,8 +225,8 @@ public:
       if (buf && buf <= start && (buf + kLeafSizeBytes) >= end){
         // Let's check whether it has gone beyond the allocation limits:
         char *target_start = static_cast<char *>(target_ptr);
-        char *target_end = target_start + target_size;
-        if (start <= target_start && target_end <= end) {
+        if (start <= target_start && target_start <= end
+            && target_size <= static_cast<std::size_t>(end - target_start)) {
           re = true;
         }  else  {
           if (kRaiseExeptions) {
@@ -245,8 +245,8 @@ public:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
       char *target_start = static_cast<char *>(target_ptr);
-      char *target_end = target_start + target_size;
-      if  (start <= target_start && target_end <= end) {
+      if  (start <= target_start && target_start <= end
+          && target_size <= static_cast<std::size_t>(end - target_start)) {
         re = true;
       }  else  {
         if (kRaiseExeptions) {
-- 
2.43.0


From ac75316c2ffd6b68b24c7939a81d7939efe67a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:54 +0000
Subject: [PATCH 149/150] fix: a sleep of more than 71 minutes ended early

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 545d764..980ce39 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -1,5 +1,6 @@
 #include "plain/basic/utility.h"
 #include <random>
+#include <thread>
 #if OS_UNIX || OS_MAC
 #include <sys/stat.h>
 #include <sys/resource.h>
@@ -849,7 +850,7 @@ void sleep(uint32_t million_seconds) {
 #if OS_WIN
   Sleep(million_seconds);
 #elif OS_UNIX || OS_MAC
-  usleep(million_seconds * 1000);
+  std::this_thread::sleep_for(std::chrono::milliseconds(million_seconds));
 #endif
 }
 
-- 
2.43.0


From 29005df90b8782771f6d13e7c696b06cb1631020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 150/150] fix: freeing a null pointer in a pool read memory
 before address zero

---
 framework/core/include/plain/sys/memory/pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 422a5b1..0388b8c 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -151,6 +151,7 @@ public:
    * @param ptr  -  allocation pointer obtained earlier via fmaloc
    */
   void free(void* ptr) {
+    if (!ptr) return;
     // Rewind back to get the AllocHeader:
     char *to_free = static_cast<char *>(ptr) - sizeof(AllocHeader);
     AllocHeader *head = reinterpret_cast<AllocHeader *>(to_free);
-- 
2.43.0

