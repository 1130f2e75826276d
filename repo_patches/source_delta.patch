From d00facfc5f08c5f2558430124cfd2fcd904daca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:43 +0000
Subject: [PATCH 001/128] fix: keep the stored bytes when a dynamic ring grows

---
 framework/core/include/plain/basic/ring.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/basic/ring.h b/framework/core/include/plain/basic/ring.h
index e7d3bee..0bfa921 100644
--- a/framework/core/include/plain/basic/ring.h
+++ b/framework/core/include/plain/basic/ring.h
@@ -242,6 +242,14 @@ using cookie_func_t = std::function<void()>;
     mask_.store(size - 1, std::memory_order_relaxed);
   }
 
+  // Copy the stored elements to the places they have in a buffer of that size.
+  void relocate(T *buffer, std::size_t size) const noexcept {
+    const std::size_t tmp_head{head_.load(std::memory_order_relaxed)};
+    std::size_t tmp_tail{tail_.load(std::memory_order_relaxed)};
+    for (; tmp_tail != tmp_head; ++tmp_tail)
+      buffer[tmp_tail & (size - 1)] = buffer_[tmp_tail & mask_];
+  }
+
  private:
   virtual bool resize(size_t) { return false; }
 
@@ -304,10 +312,14 @@ class DynamicRing : public Ring<T, fake_tso> {
   bool resize(std::size_t size) override {
     std::unique_lock<decltype(mutex_)> auto_lock{mutex_};
     if (size == 0) {
-      buffer_.clear();
       size = SIZE;
+      buffer_.clear();
+      buffer_.resize(size);
+    } else {
+      std::vector<T> temp(size);
+      this->relocate(temp.data(), size);
+      buffer_ = std::move(temp);
     }
-    buffer_.resize(size);
     this->set_buffer(buffer_.data(), size);
     return true;
   }
-- 
2.43.0


From c6a8e9a49a89d90131faa85a9175dcadfb5bd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 002/128] fix: clearing a packet flag clears that flag, not the
 readable one

---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 832c1a5..04f77bd 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -27,7 +27,7 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
   if (_flag)
     flag |= (1 << type);
   else
-    flag &= ~(1 << kReadableFlag);
+    flag &= ~(1 << type);
 }
 
 size_t Basic::write(std::string_view str) {
-- 
2.43.0


From 6756842ebf6045f493b49bc80c937ade88965be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 003/128] fix: a new packet starts with id 0

---
 framework/core/src/net/packet/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 04f77bd..351ad13 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -11,7 +11,7 @@ enum {
 };
 
 struct Basic::Impl {
-  id_t id;
+  id_t id{0};
   bytes_t data;
   size_t offset{0};
   uint8_t flag{0};
-- 
2.43.0


From a37e47f943e9c3ceed99de691fa5c54173fb8fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 004/128] fix: an empty string written to a packet keeps its
 length prefix

---
 framework/core/src/net/packet/basic.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/packet/basic.cc b/framework/core/src/net/packet/basic.cc
index 351ad13..33a0a92 100644
--- a/framework/core/src/net/packet/basic.cc
+++ b/framework/core/src/net/packet/basic.cc
@@ -32,7 +32,6 @@ void Basic::Impl::set_flag(bool _flag, uint32_t type) noexcept {
 
 size_t Basic::write(std::string_view str) {
   if (!impl_->have_flag(kWriteableFlag)) return 0;
-  if (str.size() == 0) return 0;
   const auto *buffer = reinterpret_cast<const std::byte *>(str.data());
   auto size = str.size();
   *this << static_cast<uint32_t>(size);
-- 
2.43.0


From 549bad9395fe64eacf2add7f5a8bdfb251c62bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 005/128] fix: the line codec strips the rpc end marker

---
 framework/core/src/net/stream/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index dae238f..f65135e 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -126,7 +126,7 @@ line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (pos > 0) {
     p->set_writeable(true);
     if (p->is_call_request() || p->is_call_response() || p->is_call_notify()) { // Rpc
-      p->write(bytes.data() + 2, pos - 2);
+      p->write(bytes.data() + 2, pos - 4);
     } else {
       p->write(bytes.data(), pos);
     }
-- 
2.43.0


From e007b2e9f531f792cf389fca949bf41d54068377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:51 +0000
Subject: [PATCH 006/128] fix: the line codec looks at no more than the packet
 length limit

---
 framework/core/src/net/stream/codec.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/stream/codec.cc b/framework/core/src/net/stream/codec.cc
index f65135e..c30ad4f 100644
--- a/framework/core/src/net/stream/codec.cc
+++ b/framework/core/src/net/stream/codec.cc
@@ -91,8 +91,9 @@ error_or_t<std::shared_ptr<packet::Basic>>
 line_decode(stream::Basic *input, const packet::limit_t &packet_limit) {
   if (!input) return Error{ErrorCode::RunTime};
   bytes_t bytes;
-  bytes.reserve(packet_limit.max_length);
-  auto readed = input->peek(bytes.data(), bytes.capacity());
+  bytes.resize(
+    std::min<size_t>(packet_limit.max_length, input->size()));
+  auto readed = input->peek(bytes.data(), bytes.size());
   if (readed == 0) return ErrorCode{ErrorCode::NetPacketNeedRecv};
   std::string_view str{reinterpret_cast<char *>(bytes.data()), readed};
   auto pos = str.find('\n');
-- 
2.43.0


From 4d4558291814ed885759a23313dfb7a27f2dc47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 007/128] fix: rpc packer keeps small unsigned values apart
 from the type tags

---
 framework/core/src/net/rpc/packer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 1d7b68f..19366e8 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -56,7 +56,10 @@ void Packer::pack(int64_t value) noexcept {
 }
 
 void Packer::pack(uint8_t value) noexcept {
-  if (value <= 0x7f) {
+  // The values equal to a type tag must keep their own tag.
+  bool is_tag = value > std::to_underlying(Type::Int8) &&
+    value < std::to_underlying(Type::Max);
+  if (value <= 0x7f && !is_tag) {
     serialized_object_.emplace_back(value);
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Uint8));
-- 
2.43.0


From a1fe1a408f469b06317196da2ac322fcbd56587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 008/128] fix: rpc unpacker does not add to the previous value
 of the target

---
 framework/core/src/net/rpc/unpacker.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 6d3a185..f0b8a38 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -117,6 +117,7 @@ void Unpacker::unpack(uint8_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint16_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
@@ -134,6 +135,7 @@ void Unpacker::unpack(uint16_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint32_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint32)) {
     increment();
     for (auto i = sizeof(uint32_t); i > 0; --i) {
@@ -157,6 +159,7 @@ void Unpacker::unpack(uint32_t &value) noexcept {
 }
 
 void Unpacker::unpack(uint64_t &value) noexcept {
+  value = 0;
   if (data() == std::to_underlying(Type::Uint64)) {
     increment();
     for (auto i = sizeof(uint64_t); i > 0; --i) {
-- 
2.43.0


From 8a8331741172c4c45ce9f753c1ee75cf83df1c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 009/128] fix: rpc unpacker does not skip a byte after a 32 bit
 value read as 64 bit

---
 framework/core/src/net/rpc/unpacker.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index f0b8a38..ca029c9 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -172,7 +172,6 @@ void Unpacker::unpack(uint64_t &value) noexcept {
       value += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    data_++;
   } else if (data() == std::to_underlying(Type::Uint16)) {
     increment();
     for (auto i = sizeof(uint16_t); i > 0; --i) {
-- 
2.43.0


From 260ff8f4bb59b2cb954d1f1b2af28000e0421d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 010/128] fix: rpc unpacker keeps the sign of small negative
 integers and the precision of integral doubles

---
 framework/core/src/net/rpc/unpacker.cc | 34 +++++++++++++-------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index ca029c9..f3033bf 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -42,7 +42,7 @@ void Unpacker::unpack(int16_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -69,7 +69,7 @@ void Unpacker::unpack(int32_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -100,7 +100,7 @@ void Unpacker::unpack(int64_t &value) noexcept {
     unpack(val);
     value = val;
   } else {
-    value = data();
+    value = static_cast<int8_t>(data());
     increment();
   }
 }
@@ -222,15 +222,15 @@ void Unpacker::unpack(float &value) noexcept {
     exponent -= 127;
     value = std::ldexp(mantissa, exponent);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
       value = float(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
       value = float(val);
     }
@@ -262,17 +262,17 @@ void Unpacker::unpack(double &value) noexcept {
     exponent -= 1023;
     value = ldexp(mantissa, exponent);
   } else {
-    if (data() == std::to_underlying(Type::Int8) ||
-        data() == std::to_underlying(Type::Int16) ||
-        data() == std::to_underlying(Type::Int32) ||
-        data() == std::to_underlying(Type::Int64)) {
-      int64_t val = 0;
+    if (data() == std::to_underlying(Type::Uint8) ||
+        data() == std::to_underlying(Type::Uint16) ||
+        data() == std::to_underlying(Type::Uint32) ||
+        data() == std::to_underlying(Type::Uint64)) {
+      uint64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     } else {
-      uint64_t val = 0;
+      int64_t val = 0;
       unpack(val);
-      value = float(val);
+      value = double(val);
     }
   }
 }
-- 
2.43.0


From 9e57481c42a510e077ab79ca26b126238d89e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:56 +0000
Subject: [PATCH 011/128] fix: rpc packer keeps the smallest 32 and 64 bit
 integers

---
 framework/core/include/plain/net/rpc/packer.h | 14 ++------------
 framework/core/src/net/rpc/packer.cc          |  3 ++-
 2 files changed, 4 insertions(+), 13 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/packer.h b/framework/core/include/plain/net/rpc/packer.h
index ee3bbda..b83180c 100644
--- a/framework/core/include/plain/net/rpc/packer.h
+++ b/framework/core/include/plain/net/rpc/packer.h
@@ -130,21 +130,11 @@ class PLAIN_API Packer {
  public:
 
   std::bitset<64> twos_complement(int64_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint64_t>(value)};
-    }
+    return {static_cast<uint64_t>(value)};
   }
 
   std::bitset<32> twos_complement(int32_t value) noexcept {
-    if (value < 0) {
-      auto abs_v = std::abs(value);
-      return ~abs_v + 1;
-    } else {
-      return {static_cast<uint32_t>(value)};
-    }
+    return {static_cast<uint32_t>(value)};
   }
 
   std::bitset<16> twos_complement(int16_t value) noexcept {
diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 19366e8..510a640 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -27,7 +27,8 @@ void Packer::pack(int16_t value) noexcept {
 }
 
 void Packer::pack(int32_t value) noexcept {
-  if (std::abs(value) < std::abs(std::numeric_limits<int16_t>::min())) {
+  if (value > std::numeric_limits<int16_t>::min() &&
+      value <= std::numeric_limits<int16_t>::max()) {
     pack(static_cast<int16_t>(value));
   } else {
     serialized_object_.emplace_back(std::to_underlying(Type::Int32));
-- 
2.43.0


From bbad681d90400602041da3ed77fedd3721be3ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 012/128] fix: rpc floats below one, non finite or beyond 64
 bit integers keep their value

---
 framework/core/src/net/rpc/packer.cc   | 67 ++++++--------------------
 framework/core/src/net/rpc/unpacker.cc | 35 ++------------
 2 files changed, 19 insertions(+), 83 deletions(-)

diff --git a/framework/core/src/net/rpc/packer.cc b/framework/core/src/net/rpc/packer.cc
index 510a640..3d0e802 100644
--- a/framework/core/src/net/rpc/packer.cc
+++ b/framework/core/src/net/rpc/packer.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/packer.h"
+#include <bit>
 
 using plain::net::rpc::Packer;
 
@@ -115,35 +116,21 @@ void Packer::pack(bool value) noexcept {
     serialized_object_.emplace_back(std::to_underlying(Type::FalseBool));
 }
 
-void Packer::pack(float value) noexcept {
+// Integral values which fit are packed as int.
+static bool pack_as_int(double value) noexcept {
   double integral_part{.0};
-  auto fractional_remainder = float(std::modf(value, &integral_part));
+  return std::modf(value, &integral_part) == 0 &&
+    integral_part >= -0x1p63 && integral_part < 0x1p63;
+}
 
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+void Packer::pack(float value) noexcept {
+  if (pack_as_int(value)) { // Just pack as int
+    pack(int64_t(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    float full_mantissa = value / float(scalbn(1.0, exponent));
-    auto sign_mask = std::bitset<32>(
-      static_cast<uint32_t>(std::signbit(full_mantissa)) << 31);
-    auto excess_127_exponent_mask =
-      std::bitset<32>(uint32_t(exponent + 127) << 23);
-    auto normalized_mantissa_mask = std::bitset<32>();
-    float implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = float(std::modf(implied_mantissa, &integral_part));
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<32>(uint32_t(1 << (i - 1)));
-      }
-    }
-
-    uint32_t ieee754_float32 = (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ulong();
+    static_assert(std::numeric_limits<float>::is_iec559);
+    auto ieee754_float32 = std::bit_cast<uint32_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float32));
-    for (auto i = sizeof(uint32_t); i > 0; --i) {
+    for (auto i = sizeof(ieee754_float32); i > 0; --i) {
       serialized_object_.emplace_back(
         uint8_t(ieee754_float32 >> (8U * (i - 1)) & 0xff));
     }
@@ -151,33 +138,11 @@ void Packer::pack(float value) noexcept {
 }
 
 void Packer::pack(double value) noexcept {
-  double integral_part{.0};
-  double fractional_remainder = std::modf(value, &integral_part);
-
-  if (fractional_remainder == 0) { // Just pack as int
-    pack(int64_t(integral_part));
+  if (pack_as_int(value)) { // Just pack as int
+    pack(int64_t(value));
   } else {
-    static_assert(std::numeric_limits<float>::radix == 2);
-    auto exponent = std::ilogb(value);
-    double full_mantissa = value / std::scalbn(1.0, exponent);
-    auto sign_mask =
-      std::bitset<64>(uint64_t(std::signbit(full_mantissa)) << 63);
-    auto excess_127_exponent_mask =
-      std::bitset<64>(uint64_t(exponent + 1023) << 52);
-    auto normalized_mantissa_mask = std::bitset<64>();
-    double implied_mantissa = std::fabs(full_mantissa) - 1.0f;
-
-    for (auto i = 52U; i > 0; --i) {
-      integral_part = 0;
-      implied_mantissa *= 2;
-      implied_mantissa = modf(implied_mantissa, &integral_part);
-      if (uint8_t(integral_part) == 1) {
-        normalized_mantissa_mask |= std::bitset<64>(uint64_t(1) << (i - 1));
-      }
-    }
-    auto ieee754_float64 = 
-      (sign_mask | excess_127_exponent_mask |
-       normalized_mantissa_mask).to_ullong();
+    static_assert(std::numeric_limits<double>::is_iec559);
+    auto ieee754_float64 = std::bit_cast<uint64_t>(value);
     serialized_object_.emplace_back(std::to_underlying(Type::Float64));
     for (auto i = sizeof(ieee754_float64); i > 0; --i) {
       serialized_object_.emplace_back(
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index f3033bf..54017df 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -1,4 +1,5 @@
 #include "plain/net/rpc/unpacker.h"
+#include <bit>
 #include <bitset>
 #include <cmath>
 
@@ -205,22 +206,7 @@ void Unpacker::unpack(float &value) noexcept {
       _data += data() << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<32>(_data);
-    auto mantissa = 1.0f;
-    for (auto i = 23U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0f / (1 << (24 - i));
-      }
-    }
-    if (bits[31]) {
-      mantissa *= -1;
-    }
-    uint8_t exponent = 0;
-    for (auto i = 0U; i < 8; ++i) {
-      exponent += bits[i + 23] << i;
-    }
-    exponent -= 127;
-    value = std::ldexp(mantissa, exponent);
+    value = std::bit_cast<float>(_data);
   } else {
     if (data() == std::to_underlying(Type::Uint8) ||
         data() == std::to_underlying(Type::Uint16) ||
@@ -245,22 +231,7 @@ void Unpacker::unpack(double &value) noexcept {
       _data += uint64_t(data()) << 8 * (i - 1);
       increment();
     }
-    auto bits = std::bitset<64>(_data);
-    auto mantissa = 1.0;
-    for (auto i = 52U; i > 0; --i) {
-      if (bits[i - 1]) {
-        mantissa += 1.0 / (uint64_t(1) << (53 - i));
-      }
-    }
-    if (bits[63]) {
-      mantissa *= -1;
-    }
-    uint16_t exponent = 0;
-    for (auto i = 0U; i < 11; ++i) {
-      exponent += bits[i + 52] << i;
-    }
-    exponent -= 1023;
-    value = ldexp(mantissa, exponent);
+    value = std::bit_cast<double>(_data);
   } else {
     if (data() == std::to_underlying(Type::Uint8) ||
         data() == std::to_underlying(Type::Uint16) ||
-- 
2.43.0


From 75ea14f5dc1bf4350702fee4c6492fb20a18e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 013/128] fix: rpc unpacker stops filling a container at the
 end of the message

---
 framework/core/include/plain/net/rpc/unpacker.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 6c414a1..7a961c1 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -116,7 +116,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -128,7 +128,7 @@ class PLAIN_API Unpacker {
         array_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -136,7 +136,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t array_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < array_size; ++i) {
+      for (auto i = 0U; i < array_size && !error_; ++i) {
         ValueType val{};
         unpack(val);
         array.emplace_back(val);
@@ -164,7 +164,7 @@ class PLAIN_API Unpacker {
         increment();
       }
       std::vector<uint32_t> x{};
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -178,7 +178,7 @@ class PLAIN_API Unpacker {
         map_size += uint16_t(data()) << 8 * (i - 1);
         increment();
       }
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
@@ -188,7 +188,7 @@ class PLAIN_API Unpacker {
     } else {
       std::size_t map_size = data() & 0b00001111;
       increment();
-      for (auto i = 0U; i < map_size; ++i) {
+      for (auto i = 0U; i < map_size && !error_; ++i) {
         KeyType key{};
         MappedType value{};
         unpack(key);
-- 
2.43.0


From b5751ce9107d8b6797fbd410bf2e4f150884ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 014/128] fix: rpc unpacker does not write past the end of a
 fixed size array

---
 framework/core/include/plain/net/rpc/unpacker.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 7a961c1..ef91eed 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -149,6 +149,10 @@ class PLAIN_API Unpacker {
     using ValueType = typename T::value_type;
     auto vec = std::vector<ValueType>{};
     unpack_array(vec);
+    if (vec.size() > array.size()) {
+      error_ = ErrorCode::OutOfRange;
+      return;
+    }
     std::copy(vec.begin(), vec.end(), array.begin());
   }
 
-- 
2.43.0


From 733403cd688ca43a13bae1573f3f3805038e045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:25 +0000
Subject: [PATCH 015/128] fix: rpc unpacker keeps an earlier error when a
 nested object is fine

---
 framework/core/include/plain/net/rpc/unpacker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index ef91eed..9211f74 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -90,7 +90,7 @@ class PLAIN_API Unpacker {
         Unpacker{recursive_data.data(), recursive_data.size()};
 
       value.pack(recursive_unpacker);
-      error_ = recursive_unpacker.error_;
+      if (recursive_unpacker.error_) error_ = recursive_unpacker.error_;
     }
 
   }
-- 
2.43.0


From 3896b3b6ac8c3f0e78f5f3e8ad59cc8391810a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 016/128] fix: an rpc call of a function without result does
 not crash the server

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index a189b57..4039544 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -335,7 +335,7 @@ bool Basic::Impl::handle_rpc_request(
       (*p) << error;
       if (!e) {
         auto temp = std::get_if<std::shared_ptr<rpc::Packer>>(&r);
-        if (temp) (*p) << (*temp)->vector();
+        if (temp && *temp) (*p) << (*temp)->vector(); // void has no result
       }
       p->set_writeable(false);
       conn->send(p);
-- 
2.43.0


From 000666361b80c30dbf129f5a5a57f3cbc9c5053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 017/128] fix: writing an empty vector to a packet does not
 index it

---
 framework/core/include/plain/net/packet/basic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/packet/basic.h b/framework/core/include/plain/net/packet/basic.h
index a392596..3cae40f 100644
--- a/framework/core/include/plain/net/packet/basic.h
+++ b/framework/core/include/plain/net/packet/basic.h
@@ -65,7 +65,7 @@ class PLAIN_API Basic {
   }
 
   Basic &operator<<(const std::vector<uint8_t> &data) {
-    auto p = reinterpret_cast<const std::byte *>(&(data[0]));
+    auto p = reinterpret_cast<const std::byte *>(data.data());
     write(p, data.size());
     return *this;
   }
-- 
2.43.0


From 7af7f840535202041e9fbb3c288256e274f553a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 018/128] fix: an rpc call is completed once, a repeated
 response does not abort the process

---
 framework/core/src/net/connection/basic.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 4039544..75d4fb4 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -358,12 +358,17 @@ bool Basic::Impl::handle_rpc_response(
   (*packet) >> index;
   if (0 == index) return true; // No call(notify?).
   (*packet) >> error;
-  auto it = callings.find(index);
-  if (it == callings.end()) {
-    LOG_WARN << "rpc response no calling: " << index << " error: " << error;
-    return false;
+  call_t call;
+  {
+    std::unique_lock<std::mutex> lock{mutex};
+    auto it = callings.find(index);
+    if (it == callings.end()) {
+      LOG_WARN << "rpc response no calling: " << index << " error: " << error;
+      return false;
+    }
+    call = std::move(it->second);
+    callings.erase(it); // Only one response for a call.
   }
-  auto &call = it->second;
   try {
     if (error != std::to_underlying(ErrorCode::None)) {
       throw std::logic_error("error: " + std::to_string(error));
-- 
2.43.0


From 4fc4e2680799b1b322a4d41d4852fc8f5d0eb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 019/128] fix: the result of an rpc call keeps the response
 packet alive

---
 framework/core/include/plain/net/rpc/unpacker.h | 5 +++++
 framework/core/src/net/connection/basic.cc      | 2 +-
 framework/core/src/net/rpc/unpacker.cc          | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/net/rpc/unpacker.h b/framework/core/include/plain/net/rpc/unpacker.h
index 9211f74..07784b2 100644
--- a/framework/core/include/plain/net/rpc/unpacker.h
+++ b/framework/core/include/plain/net/rpc/unpacker.h
@@ -14,6 +14,7 @@
 
 #include "plain/net/rpc/config.h"
 #include <chrono>
+#include <memory>
 #include "plain/basic/error.h"
 #include "plain/net/rpc/traits.h"
 
@@ -25,6 +26,9 @@ class PLAIN_API Unpacker {
  public:
   Unpacker();
   Unpacker(const uint8_t *data, size_t size);
+  // The owner keeps the data alive as long as the unpacker(and its copies).
+  Unpacker(
+    const uint8_t *data, size_t size, std::shared_ptr<const void> owner);
   ~Unpacker();
 
  public:
@@ -230,6 +234,7 @@ class PLAIN_API Unpacker {
  private:
   const uint8_t *data_{nullptr};
   const uint8_t *data_end_{nullptr};
+  std::shared_ptr<const void> owner_;
 
 };
 
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 75d4fb4..fed62fd 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -376,7 +376,7 @@ bool Basic::Impl::handle_rpc_response(
     auto data = reinterpret_cast<const uint8_t *>(
       packet->data().data() + packet->offset());
     auto size = packet->data().size() - packet->offset();
-    std::get<1>(call).set_value(rpc::Unpacker(data, size));
+    std::get<1>(call).set_value(rpc::Unpacker(data, size, packet));
   } catch(...) {
     std::get<1>(call).set_exception(std::current_exception());
   }
diff --git a/framework/core/src/net/rpc/unpacker.cc b/framework/core/src/net/rpc/unpacker.cc
index 54017df..0834af0 100644
--- a/framework/core/src/net/rpc/unpacker.cc
+++ b/framework/core/src/net/rpc/unpacker.cc
@@ -12,6 +12,12 @@ Unpacker::Unpacker(const uint8_t *data, size_t size) :
 
 }
 
+Unpacker::Unpacker(
+  const uint8_t *data, size_t size, std::shared_ptr<const void> owner) :
+  data_{data}, data_end_{data + size}, owner_{std::move(owner)} {
+
+}
+
 Unpacker::~Unpacker() = default;
 
 void Unpacker::unpack(int8_t &value) noexcept {
-- 
2.43.0


From bbaa782731e84acec0002c1ee496219557d31b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 020/128] fix: a packet sent while the output is being flushed
 is not left behind

---
 framework/core/src/net/connection/basic.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index fed62fd..50a3b6d 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -121,6 +121,7 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   if (!has_work_flag(WorkFlag::Output)) return true;
   assert(conn);
   if (!socket->valid()) return false;
+  int32_t sended{0};
   {
     std::unique_lock<std::mutex> lock{mutex};
     auto r = ostream->push();
@@ -128,13 +129,15 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
       LOG_ERROR << get_name(conn) << " push failed: " << r;
       return false;
     }
-    auto m = manager.lock();
-    if (r > 0 && m) {
-      m->increase_send_size(r);
-    }
+    sended = r;
+    // Must in lock, otherwise a packet written now will be never sent.
+    if (ostream->size() == 0)
+      work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
+  }
+  auto m = manager.lock();
+  if (sended > 0 && m) {
+    m->increase_send_size(sended);
   }
-  if (ostream->size() == 0)
-    set_work_flag(WorkFlag::Output, false);
   return true;
 }
 
-- 
2.43.0


From 4cb014384ed9bfaa5f878565c05685ac48427a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 021/128] fix: input notified while the previous one is being
 read is not lost

---
 framework/core/src/net/connection/basic.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 50a3b6d..66ce04a 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -93,10 +93,11 @@ Basic::Impl::Impl(std::shared_ptr<socket::Basic> socket) :
 Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
-  if (!has_work_flag(WorkFlag::Input)) return true;
+  // Clear before read, the data arrived after that will notify again.
+  if (!exchange_work_flag(WorkFlag::Input, false)) return true;
   scoped_executor_t check_flag([this]{
-    if (socket->avail() == 0)
-      set_work_flag(WorkFlag::Input, false);
+    if (socket->avail() > 0)
+      set_work_flag(WorkFlag::Input, true);
   });
   assert(conn);
   if (!socket->valid()) return false;
-- 
2.43.0


From 50e062165f5684cd95b7caa54fb42baa769631b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 022/128] fix: the work of one connection never runs on two
 threads at once

---
 framework/core/src/net/connection/basic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 66ce04a..7b9772a 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -48,6 +48,7 @@ struct Basic::Impl {
   std::atomic_bool working{false};
   std::atomic_bool keep_alive{false};
   mutable std::mutex mutex;
+  std::recursive_mutex work_mutex; // work is recursive with inline executor.
   
   // For rpc calls.
   using call_t = std::pair<std::string, std::promise<rpc::Unpacker>>;
@@ -451,6 +452,7 @@ bool Basic::valid() const noexcept {
 }
   
 bool Basic::work() noexcept {
+  std::unique_lock<std::recursive_mutex> lock{impl_->work_mutex};
   return impl_->work(this);
 }
 
-- 
2.43.0


From fe05faf868ccf3bd8819282f59d826a7dbde21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 023/128] fix: only consecutive incomplete packet heads count
 against a connection

---
 framework/core/src/net/connection/basic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 7b9772a..d6e8dc2 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -209,6 +209,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r);
     if (!p) return false; // impossible.
+    error_times = 0;
     // Handle packet.
     if ((*p)->is_call_request() || (*p)->is_call_notify()) {
       if (!handle_rpc_request(conn, *p)) return false;
@@ -223,7 +224,6 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
     }
     if (istream->size() == 0) break;
   }
-  error_times = 0;
   return true;
 }
 
-- 
2.43.0


From e3467618553cd4601e423477d3a190000ce911d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 024/128] fix: pending rpc calls fail when the connection is
 gone

---
 framework/core/src/net/connection/basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index d6e8dc2..4c2f4d0 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -541,6 +541,10 @@ void Basic::on_disconnect() noexcept {
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->working.store(false, std::memory_order_relaxed);
+  {
+    std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->callings.clear(); // No response can arrive any more.
+  }
   check_callable(this, "__disconnect");
 }
 
-- 
2.43.0


From 523fdb4717d7fd0bf952e869f773938cf59e878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 025/128] fix: removing a connection twice counts and notifies
 once

---
 framework/core/src/net/connection/manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index dbc5c98..f7e8ea5 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -386,6 +386,7 @@ void Manager::remove(
   assert(conn_id != connection::kInvalidId);
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
+  if (!impl_->connection_info.ids->contains(conn_id)) return; // removed.
   auto &conn = impl_->connection_info.list[conn_id - 1];
   if (conn) {
     if (!no_event) {
-- 
2.43.0


From 27e14faf935d11ab7071f172a6330a8d104f23f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 026/128] fix: a connection name can be changed and is not
 inherited by a reused id

---
 framework/core/src/net/connection/manager.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index f7e8ea5..1276dac 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -407,6 +407,7 @@ void Manager::remove(
       new std::set<connection::id_t>(*impl_->connection_info.ids));
   }
   impl_->connection_info.ids->erase(conn_id);
+  impl_->conn_names.erase(conn_id);
 }
   
 void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
@@ -612,7 +613,7 @@ void Manager::set_name(
   auto conn = get_conn(conn_id);
   if (!conn) return;
   std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
-  impl_->conn_names.emplace(conn_id, name.data());
+  impl_->conn_names.insert_or_assign(conn_id, std::string{name});
 }
   
 std::string Manager::get_name(connection::id_t conn_id) const noexcept {
-- 
2.43.0


From 7ca4c5df163395f7c4c9f808218aafa586e2cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:55 +0000
Subject: [PATCH 027/128] fix: accepting an invalid socket gives the connection
 id back

---
 framework/core/src/net/connection/manager.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 1276dac..001f2a4 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -503,7 +503,10 @@ Manager::accept(socket::id_t sock_id) noexcept {
     sock->close();
     return {};
   }
-  if (sock_id == socket::kInvalidId) return {};
+  if (sock_id == socket::kInvalidId) {
+    remove(conn, true);
+    return {};
+  }
   conn->socket()->set_id(sock_id);
   if (!conn->socket()->set_nonblocking()) {
     remove(conn, true);
-- 
2.43.0


From 16a35cac658acc4480b7656276641f5c03d6a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:25 +0000
Subject: [PATCH 028/128] fix: the network worker does not miss the wakeup of a
 stop or a first connection

---
 framework/core/src/net/connection/manager.cc | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 001f2a4..7a86f83 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -27,7 +27,7 @@ struct ConnectionInfo {
   std::vector<std::shared_ptr<plain::net::connection::Basic>> list;
   std::shared_ptr<std::set<id_t>> ids; // The valid ids.
   std::set<id_t> free_ids;
-  size_t size{0};
+  std::atomic_size_t size{0};
   id_t max_id{0};
 };
 
@@ -75,6 +75,9 @@ struct Manager::Impl {
     std::shared_ptr<Manager> manager, connection::id_t conn_id) noexcept;
   connection::id_t pop_work_id() noexcept;
   void push_work_id(connection::id_t id) noexcept;
+#ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+  void wakeup_wait_work() noexcept;
+#endif
 
 };
 
@@ -137,9 +140,9 @@ Manager::Impl::work_await(std::shared_ptr<Manager> manager) noexcept {
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
 bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
   assert(manager);
-  std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
   if (manager->listen_fd_ == socket::kInvalidId && 
     manager->impl_->connection_info.size == 0) {
+    std::unique_lock<std::mutex> lock{manager->impl_->wait_mutex};
     manager->impl_->cv.wait(lock, [manager] {
       return manager->listen_fd_ != socket::kInvalidId ||
         manager->impl_->connection_info.size > 0 || !manager->running();
@@ -151,6 +154,15 @@ bool Manager::Impl::wait_work(std::shared_ptr<Manager> manager) noexcept {
 }
 #endif
 
+#ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
+void Manager::Impl::wakeup_wait_work() noexcept {
+  // The waiter checks its condition in lock, without it the notify can be lost
+  // between the check and the wait.
+  { std::unique_lock<std::mutex> lock{wait_mutex}; }
+  cv.notify_one(); // Just one for wait work.
+}
+#endif
+
 void Manager::Impl::work(
   std::shared_ptr<Manager> manager, connection::id_t id) noexcept {
   auto conn = manager->get_conn(id);
@@ -269,7 +281,7 @@ void Manager::stop() {
     if (conn && conn->valid()) conn->shutdown();
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->wakeup_wait_work();
 #endif
   send_ctrl_cmd("k"); // Send stop.
 
@@ -363,7 +375,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   impl_->connection_info.ids->emplace(id);
 
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
-  impl_->cv.notify_one(); // Just one for wait work.
+  impl_->wakeup_wait_work();
 #endif
   return r;
 }
-- 
2.43.0


From cf323803686c4e7154122063a27e4eb8aae32a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:25 +0000
Subject: [PATCH 029/128] fix: stopping a network manager does not race with a
 connection being accepted

---
 framework/core/src/net/connection/manager.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 7a86f83..8fab4de 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -277,8 +277,11 @@ void Manager::stop() {
   if (setting_.name != "console") // console is kernel owner
     ENGINE->remove_net(setting_.name);
   off();
-  for (auto conn : impl_->connection_info.list) {
-    if (conn && conn->valid()) conn->shutdown();
+  {
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    for (auto conn : impl_->connection_info.list) {
+      if (conn && conn->valid()) conn->shutdown();
+    }
   }
 #ifndef PLAIN_NET_MANAGER_ENABLE_COROUTINE
   impl_->wakeup_wait_work();
-- 
2.43.0


From 5c84f491edaa60d97f317660bb9c646531cc5b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:25 +0000
Subject: [PATCH 030/128] fix: a connection whose socket has an error is
 removed and closed

---
 framework/core/src/net/connection/basic.cc   | 1 -
 framework/core/src/net/connection/manager.cc | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 4c2f4d0..f359974 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -443,7 +443,6 @@ bool Basic::shutdown(int32_t how) noexcept {
 }
   
 bool Basic::close() noexcept {
-  if (!impl_->socket->valid()) return true;
   return impl_->socket->close();
 }
   
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 8fab4de..4085525 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -183,8 +183,8 @@ void Manager::Impl::work(
       }
     });
     if (!conn) return;
-    if (!conn->valid()) return;
-    r = conn->work();
+    if (conn->socket()->id() == socket::kInvalidId) return; // closed already.
+    r = conn->valid() && conn->work();
   }
   if (!r) {
     manager->remove(conn);
-- 
2.43.0


From 12c93e904999b9dfb8d94d2960ff78fc8a573167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:25 +0000
Subject: [PATCH 031/128] fix: the decode error count is not inherited by a
 reused connection

---
 framework/core/src/net/connection/basic.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index f359974..56ec101 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -420,6 +420,7 @@ bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
   impl_->working.store(false, std::memory_order_relaxed);
   impl_->work_flags = 0;
+  impl_->error_times = 0;
   impl_->istream->clear();
   impl_->ostream->clear();
   impl_->callings.clear();
-- 
2.43.0


From 43a3f33034d6fb529b4b1390d11a7a3409853dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:42 +0000
Subject: [PATCH 032/128] fix: a socket can be closed by one thread while
 another one uses it

---
 framework/core/src/net/socket/basic.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/net/socket/basic.cc b/framework/core/src/net/socket/basic.cc
index 1c7ae20..af61edd 100644
--- a/framework/core/src/net/socket/basic.cc
+++ b/framework/core/src/net/socket/basic.cc
@@ -1,4 +1,5 @@
 #include "plain/net/socket/basic.h"
+#include <atomic>
 #if OS_MAC
 #include <unistd.h>
 #endif
@@ -9,7 +10,7 @@
 using plain::net::socket::Basic;
 
 struct Basic::Impl {
-  id_t id{kInvalidId};
+  std::atomic<id_t> id{kInvalidId}; // can close in other thread.
   Type type{Type::Tcp};
 };
 
@@ -41,9 +42,7 @@ bool Basic::close() noexcept {
 }
 
 plain::net::socket::id_t Basic::release() noexcept {
-  auto r = impl_->id;
-  impl_->id = kInvalidId;
-  return r;
+  return impl_->id.exchange(kInvalidId);
 }
 
 Basic Basic::clone() noexcept {
-- 
2.43.0


From 12645b6f39a6564206b4d626d10d2bb3e782f409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:18 +0000
Subject: [PATCH 033/128] fix: the select descriptor sets are not used while
 another thread changes them

---
 framework/core/src/net/connection/select.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1e133f4..1f049ae 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -53,16 +53,22 @@ struct Select::Impl {
 };
 
 void Select::Impl::select() noexcept {
-  if (max_fd == socket::kInvalidId) return;
-  read_fds.use = read_fds.full;
-  // write_fds.use = write_fds.full;
-  except_fds.use = except_fds.full;
+  socket::id_t last_fd{socket::kInvalidId};
+  {
+    // The descriptors can change in other threads.
+    std::unique_lock lock{mutex};
+    last_fd = max_fd;
+    read_fds.use = read_fds.full;
+    // write_fds.use = write_fds.full;
+    except_fds.use = except_fds.full;
+  }
+  if (last_fd == socket::kInvalidId) return;
   if (select_timeout >= 0) {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
+      last_fd + 1, &read_fds.use, nullptr, &except_fds.use, &timeout);
   } else {
     select_result = socket::select(
-      max_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
+      last_fd + 1, &read_fds.use, nullptr, &except_fds.use, nullptr);
   }
 }
 
@@ -161,11 +167,8 @@ bool Select::sock_remove(socket::id_t sock_id) noexcept {
   assert(sock_id != socket::kInvalidId);
   auto id = static_cast<uint32_t>(sock_id);
   FD_CLR(id, &impl_->read_fds.full);
-  FD_CLR(id, &impl_->read_fds.use);
   FD_CLR(id, &impl_->write_fds.full);
-  FD_CLR(id, &impl_->write_fds.use);
   FD_CLR(id, &impl_->except_fds.full);
-  FD_CLR(id, &impl_->except_fds.use);
   impl_->change_vaild_fd(sock_id, false);
   --impl_->fd_size;
   return true;
-- 
2.43.0


From bd87cec226cc4ffb22746656d5669cbf532c4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:18 +0000
Subject: [PATCH 034/128] fix: a socket with a pending error is removed from
 the poller before it is closed

---
 framework/core/src/net/connection/manager.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 4085525..da2ad68 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -409,7 +409,9 @@ void Manager::remove(
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
     }
-    if (sock && conn->socket()->valid()) this->sock_remove(conn->socket()->id());
+    // A socket with an error must be removed also before close it.
+    if (sock && conn->socket()->id() != socket::kInvalidId)
+      this->sock_remove(conn->socket()->id());
     conn->shutdown();
     conn->close();
     if (conn->is_keep_alive()) return; // The connector will keep alive.
-- 
2.43.0


From b8cfab7810c9424ff953509aca8b480de6190fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:07 +0000
Subject: [PATCH 035/128] fix: when_any notices a result that completes while
 it is being registered

---
 framework/core/src/concurrency/result/detail/state.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 3b4c5e2..62d27ad 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -91,8 +91,9 @@ ProcessStatus StateBasic::when_any(
     ProcessStatus::ConsumerSet,
     std::memory_order_acq_rel,
     std::memory_order_acquire);
-  if (!idle) assert_done();
-  return status;
+  if (idle) return status;
+  assert_done();
+  return ProcessStatus::ProducerDone;
 }
 
 void StateBasic::share(
-- 
2.43.0


From 01b0d388c14f7e0e847b321e58ac04515a89c69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:07 +0000
Subject: [PATCH 036/128] fix: a result dropped while its producer resumes the
 consumer is not used after it is freed

---
 .../plain/concurrency/result/detail/config.h  |  1 +
 .../result/detail/consumer_context.h          |  3 +++
 .../plain/concurrency/result/detail/state.h   | 16 ++++++++---
 .../result/detail/consumer_context.cc         | 20 ++++++++++++++
 .../src/concurrency/result/detail/state.cc    | 27 ++++++++++---------
 5 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/framework/core/include/plain/concurrency/result/detail/config.h b/framework/core/include/plain/concurrency/result/detail/config.h
index 08de7ac..aac87bd 100644
--- a/framework/core/include/plain/concurrency/result/detail/config.h
+++ b/framework/core/include/plain/concurrency/result/detail/config.h
@@ -24,6 +24,7 @@ enum class ProcessStatus : int32_t {
   ConsumerWaiting,
   ConsumerDone,
   ProducerDone,
+  ProducerResuming,  // the producer is taking over the consumer context
 };
 
 // The consumer status.
diff --git a/framework/core/include/plain/concurrency/result/detail/consumer_context.h b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
index 9ed92f3..2ae52e0 100644
--- a/framework/core/include/plain/concurrency/result/detail/consumer_context.h
+++ b/framework/core/include/plain/concurrency/result/detail/consumer_context.h
@@ -57,6 +57,9 @@ class PLAIN_API WhenAnyContext {
 class PLAIN_API ConsumerContext {
 
  public:
+  ConsumerContext() noexcept = default;
+  ConsumerContext(const ConsumerContext &rhs) noexcept;
+  ConsumerContext &operator=(const ConsumerContext &) = delete;
   ~ConsumerContext() noexcept;
 
  public:
diff --git a/framework/core/include/plain/concurrency/result/detail/state.h b/framework/core/include/plain/concurrency/result/detail/state.h
index 638c7ae..3cf2293 100644
--- a/framework/core/include/plain/concurrency/result/detail/state.h
+++ b/framework/core/include/plain/concurrency/result/detail/state.h
@@ -111,12 +111,22 @@ class State : public StateBasic {
   void complete_producer(coroutine_handle<void> done_handle = {}) {
     using plain::sys::detail::atomic_notify_all;
     done_handle_ = done_handle;
-    const auto status = this->process_status_.exchange(
-      ProcessStatus::ProducerDone, std::memory_order_acq_rel);
+    auto status = this->process_status_.load(std::memory_order_acquire);
+    while (!this->process_status_.compare_exchange_weak(
+      status,
+      status == ProcessStatus::ConsumerSet ?
+        ProcessStatus::ProducerResuming : ProcessStatus::ProducerDone,
+      std::memory_order_acq_rel,
+      std::memory_order_acquire)) {}
     assert(status != ProcessStatus::ProducerDone);
     switch (status) {
       case ProcessStatus::ConsumerSet: {
-        return consumer_.resume_consumer(*this);
+        // A consumer which gave up waiting can destroy this state as soon as
+        // the producer is done, so its context has to be taken before that.
+        const ConsumerContext consumer(consumer_);
+        this->process_status_.store(
+          ProcessStatus::ProducerDone, std::memory_order_release);
+        return consumer.resume_consumer(*this);
       }
       case ProcessStatus::Idle: {
         return;
diff --git a/framework/core/src/concurrency/result/detail/consumer_context.cc b/framework/core/src/concurrency/result/detail/consumer_context.cc
index 7942b71..699714f 100644
--- a/framework/core/src/concurrency/result/detail/consumer_context.cc
+++ b/framework/core/src/concurrency/result/detail/consumer_context.cc
@@ -114,6 +114,26 @@ const StateBasic *WhenAnyContext::completed_result() const noexcept {
   return status_.load(std::memory_order_acquire);
 }
 
+ConsumerContext::ConsumerContext(const ConsumerContext &rhs) noexcept :
+  status_{rhs.status_} {
+  switch (status_) {
+    case ConsumerStatus::Idle:
+      break;
+    case ConsumerStatus::Await:
+      detail::build(storage_.caller_handle, rhs.storage_.caller_handle);
+      break;
+    case ConsumerStatus::WhenAny:
+      detail::build(storage_.when_any_ctx, rhs.storage_.when_any_ctx);
+      break;
+    case ConsumerStatus::Shared:
+      detail::build(storage_.shared_ctx, rhs.storage_.shared_ctx);
+      break;
+    default:
+      assert(false);
+      break;
+  }
+}
+
 ConsumerContext::~ConsumerContext() noexcept {
   destroy();
 }
diff --git a/framework/core/src/concurrency/result/detail/state.cc b/framework/core/src/concurrency/result/detail/state.cc
index 62d27ad..84b2ffc 100644
--- a/framework/core/src/concurrency/result/detail/state.cc
+++ b/framework/core/src/concurrency/result/detail/state.cc
@@ -116,17 +116,20 @@ void StateBasic::share(
 }
 
 void StateBasic::try_rewind_consumer() noexcept {
-  const auto status = process_status_.load(std::memory_order_acquire);
-  if (status != ProcessStatus::ConsumerSet) return;
-  auto expected_status = ProcessStatus::ConsumerSet;
-  const auto consumer = process_status_.compare_exchange_strong(
-    expected_status,
-    ProcessStatus::Idle,
-    std::memory_order_acq_rel,
-    std::memory_order_acquire);
-  if (!consumer) {
-    assert_done();
-    return;
+  auto status = process_status_.load(std::memory_order_acquire);
+  if (status == ProcessStatus::ConsumerSet) {
+    const auto consumer = process_status_.compare_exchange_strong(
+      status,
+      ProcessStatus::Idle,
+      std::memory_order_acq_rel,
+      std::memory_order_acquire);
+    if (consumer) {
+      consumer_.clear();
+      return;
+    }
+  }
+  while (status == ProcessStatus::ProducerResuming) {
+    std::this_thread::yield();
+    status = process_status_.load(std::memory_order_acquire);
   }
-  consumer_.clear();
 }
-- 
2.43.0


From d301dddbf812eba039f5488a4d21d11c0c41bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:01 +0000
Subject: [PATCH 037/128] fix: a task whose callable throws still destroys the
 callable

---
 framework/core/include/plain/concurrency/task.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/concurrency/task.h b/framework/core/include/plain/concurrency/task.h
index f9726e4..08af89c 100644
--- a/framework/core/include/plain/concurrency/task.h
+++ b/framework/core/include/plain/concurrency/task.h
@@ -120,15 +120,16 @@ class CallableVtable {
   }
 
   static void execute_destroy_inline(void *target) {
-    auto callable_ptr = inline_ptr(target);
-    (*callable_ptr)();
-    callable_ptr->~T();
+    struct destroyer {
+      T *callable_ptr;
+      ~destroyer() { callable_ptr->~T(); }
+    } guard{inline_ptr(target)};
+    (*guard.callable_ptr)();
   }
 
   static void execute_destroy_allocated(void *target) {
-    auto callable_ptr = allocated_ptr(target);
+    const std::unique_ptr<T> callable_ptr(allocated_ptr(target));
     (*callable_ptr)();
-    delete callable_ptr;
   }
 
   static void destroy_inline(void *target) noexcept {
-- 
2.43.0


From 6a31937fa287183b9ee962102c1084977a0c4a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:01 +0000
Subject: [PATCH 038/128] fix: an over-aligned callable is not stored in the
 task's own buffer

---
 framework/core/include/plain/concurrency/task.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/concurrency/task.h b/framework/core/include/plain/concurrency/task.h
index 08af89c..b922bf4 100644
--- a/framework/core/include/plain/concurrency/task.h
+++ b/framework/core/include/plain/concurrency/task.h
@@ -55,7 +55,8 @@ class CallableVtable {
  public:
   static constexpr bool is_inlinable() noexcept {
     return std::is_nothrow_move_constructible_v<T> &&
-      sizeof(T) <= task_constants::buffer_size;
+      sizeof(T) <= task_constants::buffer_size &&
+      alignof(T) <= alignof(std::max_align_t);
   }
 
   template <typename CT>
-- 
2.43.0


From 29ca2c1ee8f60db9c0b7b25a5be1e185e7dc2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:31 +0000
Subject: [PATCH 039/128] fix: callables can be bound and posted with arguments

---
 framework/core/include/plain/basic/bind.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/bind.h b/framework/core/include/plain/basic/bind.h
index f61e6fd..703bf23 100644
--- a/framework/core/include/plain/basic/bind.h
+++ b/framework/core/include/plain/basic/bind.h
@@ -26,7 +26,7 @@ template <typename F, typename ...Args>
 auto bind(F &&function, Args &&...args) {
   constexpr static auto inti = std::is_nothrow_invocable_v<F, Args...>;
   return [function = std::forward<F>(function),
-         tuple = std::make_tuple(std::forward(args)...)]()
+         tuple = std::make_tuple(std::forward<Args>(args)...)]()
            mutable noexcept(inti) -> decltype(auto) {
     return std::apply(function, tuple);
   };
-- 
2.43.0


From 7eb790b49bbc9c1f3756bef4053539d897d9724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:39 +0000
Subject: [PATCH 040/128] fix: waiting for a task succeeds when more than one
 task is queued

---
 framework/core/include/plain/concurrency/executor/manual.h | 2 +-
 framework/core/src/concurrency/executor/manual.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/concurrency/executor/manual.h b/framework/core/include/plain/concurrency/executor/manual.h
index 8e4ecbf..06af73e 100644
--- a/framework/core/include/plain/concurrency/executor/manual.h
+++ b/framework/core/include/plain/concurrency/executor/manual.h
@@ -65,7 +65,7 @@ Manual final : public Derivable<Manual> {
   template <typename Clock, typename Duration = typename Clock::duration>
   bool wait_for_task_until(
     std::chrono::time_point<Clock, Duration> timeout_time) {
-    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) == 1;
+    return wait_for_tasks_impl(1, to_system_time_point(timeout_time)) >= 1;
   }
 
   void wait_for_tasks(size_t count);
diff --git a/framework/core/src/concurrency/executor/manual.cc b/framework/core/src/concurrency/executor/manual.cc
index e050c04..377e914 100644
--- a/framework/core/src/concurrency/executor/manual.cc
+++ b/framework/core/src/concurrency/executor/manual.cc
@@ -97,7 +97,7 @@ void Manual::wait_for_task() {
 }
 
 bool Manual::wait_for_task_for(std::chrono::milliseconds max_waiting_time) {
-  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) == 1;
+  return wait_for_tasks_impl(1, time_point_from_now(max_waiting_time)) >= 1;
 }
 
 void Manual::wait_for_tasks(size_t count) {
-- 
2.43.0


From 2302ae2fc583fc59ec46c4cf387301775148ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:15 +0000
Subject: [PATCH 041/128] fix: a task a worker thread posts to itself is queued
 once

---
 framework/core/src/concurrency/executor/worker_thread.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/concurrency/executor/worker_thread.cc b/framework/core/src/concurrency/executor/worker_thread.cc
index 00f968e..ab418f5 100644
--- a/framework/core/src/concurrency/executor/worker_thread.cc
+++ b/framework/core/src/concurrency/executor/worker_thread.cc
@@ -137,14 +137,14 @@ void WorkerThread::enqueue_foreign(std::span<Task> tasks) {
 
 void WorkerThread::enqueue(Task task) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(task);
+    return enqueue_local(task);
 
   enqueue_foreign(task);
 }
 
 void WorkerThread::enqueue(std::span<Task> tasks) {
   if (detail::s_tl_this_worker == this)
-    enqueue_local(tasks);
+    return enqueue_local(tasks);
 
   enqueue_foreign(tasks);
 }
-- 
2.43.0


From 6981e5d62cc700f7782d5f2eddbf9b1b48119aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:14 +0000
Subject: [PATCH 042/128] fix: a task queued while a pool worker gives up
 waiting is not left behind

---
 framework/core/src/concurrency/executor/thread_pool.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5f5fc1b..5ccf234 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -266,7 +266,6 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
 
   parent_pool_.mark_worker_idle(index_);
 
-  auto event_found = false;
   const auto deadline = std::chrono::steady_clock::now() + max_idle_time_;
 
   while (true) {
@@ -285,13 +284,12 @@ bool ThreadPoolWorker::wait_for_task(std::unique_lock<std::mutex> &lock) {
       continue;
     }
 
-    event_found = true;
     break;
   }
 
   if (!lock.owns_lock())
     lock.lock();
-  if (!event_found || abort_) {
+  if (public_queue_.empty() || abort_) {
     idle_ = true;
     lock.unlock();
     return false;
-- 
2.43.0


From 850138ba282734e501d98b278784b92079efb748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:14 +0000
Subject: [PATCH 043/128] fix: a task submitted by a worker of another pool
 runs on the pool it was submitted to

---
 .../src/concurrency/executor/thread_pool.cc     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/concurrency/executor/thread_pool.cc b/framework/core/src/concurrency/executor/thread_pool.cc
index 5ccf234..fdd277c 100644
--- a/framework/core/src/concurrency/executor/thread_pool.cc
+++ b/framework/core/src/concurrency/executor/thread_pool.cc
@@ -60,6 +60,10 @@ class alignas(kCacheInlineAlignment) ThreadPoolWorker {
 
   bool appears_empty() const noexcept;
 
+  bool belongs_to(const ThreadPool &pool) const noexcept {
+    return &parent_pool_ == &pool;
+  }
+
  private:
   std::deque<Task> private_queue_;
   std::vector<size_t> idle_worker_list_;
@@ -530,8 +534,12 @@ void ThreadPool::mark_worker_active(size_t index) noexcept {
 }
 
 void ThreadPool::enqueue(Task task) {
-  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
-  const auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  auto this_worker_index = detail::s_tl_thread_pool_data.this_thread_index;
+  if (this_worker != nullptr && !this_worker->belongs_to(*this)) {
+    this_worker = nullptr;
+    this_worker_index = static_cast<size_t>(-1);
+  }
   if (this_worker != nullptr && this_worker->appears_empty()) {
     return this_worker->enqueue_local(task);
   }
@@ -548,8 +556,9 @@ void ThreadPool::enqueue(Task task) {
 }
 
 void ThreadPool::enqueue(std::span<Task> tasks) {
-  if (detail::s_tl_thread_pool_data.this_worker != nullptr) {
-    return detail::s_tl_thread_pool_data.this_worker->enqueue_local(tasks);
+  const auto this_worker = detail::s_tl_thread_pool_data.this_worker;
+  if (this_worker != nullptr && this_worker->belongs_to(*this)) {
+    return this_worker->enqueue_local(tasks);
   }
   if (tasks.size() < workers_.size()) {
     for (auto &task : tasks) {
-- 
2.43.0


From 07511637d383cb57cc0f985487a5ef1b42c6de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:15 +0000
Subject: [PATCH 044/128] fix: a timer whose executor is shut down while it
 fires does not end the process

---
 framework/core/src/engine/timer.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/timer.cc b/framework/core/src/engine/timer.cc
index 7f12a7b..937bbe6 100644
--- a/framework/core/src/engine/timer.cc
+++ b/framework/core/src/engine/timer.cc
@@ -21,12 +21,16 @@ void TimerStateBasic::fire() {
   deadline_ = make_deadline(milliseconds(frequency));
 
   assert(static_cast<bool>(executor_));
-  // FIXME: share the executor maybe get shutdown before post.
   if (executor_->shutdown_requested()) return;
 
-  executor_->post([self = shared_from_this()]() mutable {
-    self->execute();
-  });
+  try {
+    executor_->post([self = shared_from_this()]() mutable {
+      self->execute();
+    });
+  } catch (const std::runtime_error &) {
+    // The executor may get shut down between the check and the post.
+    if (!executor_->shutdown_requested()) throw;
+  }
 }
 
 Timer::Timer(std::shared_ptr<TimerStateBasic> timer_impl) noexcept :
-- 
2.43.0


From 131bc7d4df1a07ebcbc3c29c82959c3eea96790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:55 +0000
Subject: [PATCH 045/128] fix: a memory pool leaf is not reset while one of its
 allocations is in use

---
 .../core/include/plain/sys/memory/pool.h      | 78 ++++++++++---------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index e7807cc..fdb858c 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -70,19 +70,17 @@ public:
       functionality will remain operational.
     */
     do {
-      const int32_t available =
-        leaf_array_[leaf_id].available.load(std::memory_order_acquire);
-      // std::cout << "available: " << available << std::endl;
-      if (available <= 0) break;
-      if (available >= real_size) {
+      auto &usage = leaf_array_[leaf_id].usage;
+      uint64_t current = usage.load(std::memory_order_acquire);
+      while (leaf_available(current) >= real_size) {
         // we reserve memory 
         // (the buffer is distributed from the end with a bite):
-        const int32_t available_after =
-          leaf_array_[leaf_id].available.fetch_sub(
-              real_size, std::memory_order_acq_rel) - real_size;
-        // and if successful, a positive number should have returned,
-        // otherwise we would have broken through the bottom of the buffer:
-        if (available_after >= 0) {
+        const int32_t available_after = leaf_available(current) - real_size;
+        if (usage.compare_exchange_weak(
+              current,
+              make_usage(available_after, leaf_deallocated(current)),
+              std::memory_order_acq_rel,
+              std::memory_order_acquire)) {
           // the resulting distribution address is easy to obtain, because it
           // starts immediately after "available", since addressing from &[0]
           // then this is "buf + available":
@@ -100,6 +98,7 @@ public:
           break; // finished the search, return the allocation pointer
         }
       }
+      if (re) break;
       ++leaf_id;
       if (kLeafCount == leaf_id) { leaf_id = 0; }
     } while (leaf_id != start_leaf);
@@ -154,21 +153,21 @@ public:
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
       const int32_t real_size = head->size + sizeof(AllocHeader);
-      const int32_t deallocated =
-        leaf_array_[head->leaf_id].deallocated.fetch_add(
-            real_size, std::memory_order_acq_rel) + real_size;
-      int32_t available =
-        leaf_array_[head->leaf_id].available.load(std::memory_order_acquire);
-      if (deallocated == (kLeafSizeBytes - available)) {
-        // everything that was allocated is now returned, we will try, carefully, reset the Leaf
-        if (leaf_array_[head->leaf_id].available.compare_exchange_strong(
-              available, kLeafSizeBytes)) {
-          leaf_array_[head->leaf_id].deallocated -= deallocated;
-        }
-      }
-
-      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
+      auto &usage = leaf_array_[head->leaf_id].usage;
+      // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
+      // (the header can belong to another allocation after the release):
       memset((char *)head, 0, sizeof(AllocHeader));
+      uint64_t current = usage.load(std::memory_order_acquire);
+      uint64_t next{0};
+      do {
+        const int32_t available = leaf_available(current);
+        const int32_t deallocated = leaf_deallocated(current) + real_size;
+        // reset the Leaf if everything that was allocated is now returned
+        next = deallocated == (kLeafSizeBytes - available) ?
+          make_usage(kLeafSizeBytes, 0) : make_usage(available, deallocated);
+      } while (!usage.compare_exchange_weak(
+            current, next,
+            std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
         && head->size > 0) {
@@ -277,14 +276,12 @@ public:
     for (int32_t i = 0; i < kLeafCount; ++i) {
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
-        leaf_array_[i].available.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(0, std::memory_order_relaxed);
+        leaf_array_[i].usage.store(
+            make_usage(kLeafSizeBytes, 0), std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
-        leaf_array_[i].available.store(0, std::memory_order_relaxed);
-        leaf_array_[i].deallocated.store(
-            kLeafSizeBytes, std::memory_order_relaxed);
+        leaf_array_[i].usage.store(
+            make_usage(0, kLeafSizeBytes), std::memory_order_relaxed);
       }
     }
     std::atomic_thread_fence(std::memory_order_release);
@@ -437,12 +434,23 @@ public:
 
 #endif
 private:
+  static constexpr uint64_t make_usage(
+      int32_t available, int32_t deallocated) noexcept {
+    return (static_cast<uint64_t>(static_cast<uint32_t>(deallocated)) << 32)
+      | static_cast<uint32_t>(available);
+  }
+  static constexpr int32_t leaf_available(uint64_t usage) noexcept {
+    return static_cast<int32_t>(static_cast<uint32_t>(usage));
+  }
+  static constexpr int32_t leaf_deallocated(uint64_t usage) noexcept {
+    return static_cast<int32_t>(usage >> 32);
+  }
+
   struct leaf_t {
     char *buf;
-    // available == offset
-    std::atomic<int32_t> available{ kLeafSizeBytes };
-    // control of deallocations:
-    std::atomic<int32_t> deallocated{ 0 };
+    // The available size (== offset, low half) and the control of
+    // deallocations (high half), they can only be changed together.
+    std::atomic<uint64_t> usage{ make_usage(kLeafSizeBytes, 0) };
   };
 
   /*
-- 
2.43.0


From 7a056fe4386f8e310183ff97ea74f6f4fef6ca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:55 +0000
Subject: [PATCH 046/128] fix: the memory pool refuses sizes its header can not
 describe

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index fdb858c..dddb893 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -52,6 +52,10 @@ public:
    * @return - allocation ptr
    */
   void* malloc(std::size_t allocation_size) {
+    // The header can not describe more.
+    if (allocation_size > static_cast<std::size_t>(
+          std::numeric_limits<int32_t>::max()) - sizeof(AllocHeader))
+      return nullptr;
     // Allocation will include a header with service information:
     const int32_t real_size = static_cast<int32_t>(
         allocation_size + sizeof(AllocHeader));
-- 
2.43.0


From 3a09226e7ee75249caa342fb2c191b22f21f9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:55 +0000
Subject: [PATCH 047/128] fix: an empty allocation the memory pool got from the
 system can be released

---
 framework/core/include/plain/sys/memory/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index dddb893..ef397c7 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -174,7 +174,7 @@ public:
             std::memory_order_acq_rel, std::memory_order_acquire));
     } else if ((uint64_t)kTagOSMalloc == head->tag_this
         && kOSMallocID == head->leaf_id
-        && head->size > 0) {
+        && head->size >= 0) {
       // ok, to OS malloc
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM:
       memset((char *)head,  0,  sizeof(AllocHeader));
@@ -239,7 +239,7 @@ public:
       } // elseif (!buf
     } else if (kTagOSMalloc == head->tag_this
          && kOSMallocID == head->leaf_id
-         && head->size > 0) {
+         && head->size >= 0) {
       // Let's check whether it has gone beyond the allocation limits:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
-- 
2.43.0


From 9a7ebc0804f5f626c695c920edfe0e9ad684f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:55 +0000
Subject: [PATCH 048/128] fix: the memory pool access check refuses sizes that
 wrap around

---
 framework/core/include/plain/sys/memory/pool.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index ef397c7..0a2cffc 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -224,8 +224,8 @@ public:
       if (buf && buf <= start && (buf + kLeafSizeBytes) >= end){
         // Let's check whether it has gone beyond the allocation limits:
         char *target_start = static_cast<char *>(target_ptr);
-        char *target_end = target_start + target_size;
-        if (start <= target_start && target_end <= end) {
+        if (start <= target_start && target_start <= end &&
+            target_size <= static_cast<std::size_t>(end - target_start)) {
           re = true;
         }  else  {
           if (kRaiseExeptions) {
@@ -244,8 +244,8 @@ public:
       char *start = static_cast<char *>(base_alloc_ptr);
       char *end = start + head->size;
       char *target_start = static_cast<char *>(target_ptr);
-      char *target_end = target_start + target_size;
-      if  (start <= target_start && target_end <= end) {
+      if (start <= target_start && target_start <= end &&
+          target_size <= static_cast<std::size_t>(end - target_start)) {
         re = true;
       }  else  {
         if (kRaiseExeptions) {
-- 
2.43.0


From 3cdab913fcbc666a8307c1b33719ba0edd359fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:55 +0000
Subject: [PATCH 049/128] fix: the debug release of the memory pool uses the
 pool

---
 framework/core/include/plain/sys/memory/pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index 0a2cffc..c014657 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -407,7 +407,7 @@ public:
             .append("  line, in ").append(function_name);
         it->second.allocated = false;
       }
-      ::free(ptr);
+      free(ptr);
     }
     return;
   } // freed
-- 
2.43.0


From dfcd9f6c913eb2ca4b07f8a8ead2bb500cdca094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:02 +0000
Subject: [PATCH 050/128] fix: allocations of the memory pool are aligned

---
 .../core/include/plain/sys/memory/pool.h      | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/sys/memory/pool.h b/framework/core/include/plain/sys/memory/pool.h
index c014657..7922ba7 100644
--- a/framework/core/include/plain/sys/memory/pool.h
+++ b/framework/core/include/plain/sys/memory/pool.h
@@ -54,11 +54,10 @@ public:
   void* malloc(std::size_t allocation_size) {
     // The header can not describe more.
     if (allocation_size > static_cast<std::size_t>(
-          std::numeric_limits<int32_t>::max()) - sizeof(AllocHeader))
+          std::numeric_limits<int32_t>::max()) - sizeof(AllocHeader) - kAlign)
       return nullptr;
     // Allocation will include a header with service information:
-    const int32_t real_size = static_cast<int32_t>(
-        allocation_size + sizeof(AllocHeader));
+    const int32_t real_size = get_real_size(allocation_size);
     // Starting leaf for finding the allocation place:
     const int32_t start_leaf = static_cast<int32_t>(
         cur_leaf_.load(std::memory_order_relaxed));
@@ -156,7 +155,7 @@ public:
         && ((uint64_t)this) == (head->tag_this - head->leaf_id)
         && leaf_array_[head->leaf_id].buf) {
       // ok this is my allocation
-      const int32_t real_size = head->size + sizeof(AllocHeader);
+      const int32_t real_size = get_real_size(head->size);
       auto &usage = leaf_array_[head->leaf_id].usage;
       // Cleanup so that unique TAG_my_alloc will be keep unique in RAM
       // (the header can belong to another allocation after the release):
@@ -167,8 +166,8 @@ public:
         const int32_t available = leaf_available(current);
         const int32_t deallocated = leaf_deallocated(current) + real_size;
         // reset the Leaf if everything that was allocated is now returned
-        next = deallocated == (kLeafSizeBytes - available) ?
-          make_usage(kLeafSizeBytes, 0) : make_usage(available, deallocated);
+        next = deallocated == (kLeafCapacity - available) ?
+          make_usage(kLeafCapacity, 0) : make_usage(available, deallocated);
       } while (!usage.compare_exchange_weak(
             current, next,
             std::memory_order_acq_rel, std::memory_order_acquire));
@@ -281,7 +280,7 @@ public:
       if (buf_array[i]) {
         leaf_array_[i].buf = static_cast<char *>(buf_array[i]);
         leaf_array_[i].usage.store(
-            make_usage(kLeafSizeBytes, 0), std::memory_order_relaxed);
+            make_usage(kLeafCapacity, 0), std::memory_order_relaxed);
       } else {
         leaf_array_[i].buf = nullptr;
         leaf_array_[i].usage.store(
@@ -438,6 +437,14 @@ public:
 
 #endif
 private:
+  // Every allocation is aligned like one of malloc.
+  static constexpr int32_t kAlign{ alignof(std::max_align_t) };
+  static constexpr int32_t kLeafCapacity{
+    kLeafSizeBytes - kLeafSizeBytes % kAlign };
+  static int32_t get_real_size(std::size_t size) noexcept {
+    return static_cast<int32_t>(
+        (size + sizeof(AllocHeader) + kAlign - 1) / kAlign * kAlign);
+  }
   static constexpr uint64_t make_usage(
       int32_t available, int32_t deallocated) noexcept {
     return (static_cast<uint64_t>(static_cast<uint32_t>(deallocated)) << 32)
@@ -454,7 +461,7 @@ private:
     char *buf;
     // The available size (== offset, low half) and the control of
     // deallocations (high half), they can only be changed together.
-    std::atomic<uint64_t> usage{ make_usage(kLeafSizeBytes, 0) };
+    std::atomic<uint64_t> usage{ make_usage(kLeafCapacity, 0) };
   };
 
   /*
-- 
2.43.0


From dc39ed02afdac399efc47c6c7606e72925fc5e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 051/128] fix: the task queue is only examined with its lock
 held

---
 .../core/include/plain/basic/task_queue.h     | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/framework/core/include/plain/basic/task_queue.h b/framework/core/include/plain/basic/task_queue.h
index 9cf7680..a4f5b16 100644
--- a/framework/core/include/plain/basic/task_queue.h
+++ b/framework/core/include/plain/basic/task_queue.h
@@ -19,17 +19,10 @@ class TaskQueue {
 
 public:
    void work_one() {
-     std::function<void()> task;
-     {
-       std::unique_lock<std::mutex> lock(queue_mutex_);
-       if (tasks_.empty()) return;
-       task = std::move(tasks_.front());
-       tasks_.pop();
-     }
-     task();
+     try_work_one();
    }
    void work_all() {
-     while (!tasks_.empty()) work_one();
+     while (try_work_one());
    }
 
  public:
@@ -62,6 +55,20 @@ public:
      return res;
    }
 
+ private:
+   // Run the first task, false if there is none.
+   bool try_work_one() {
+     std::function<void()> task;
+     {
+       std::unique_lock<std::mutex> lock(queue_mutex_);
+       if (tasks_.empty()) return false;
+       task = std::move(tasks_.front());
+       tasks_.pop();
+     }
+     task();
+     return true;
+   }
+
  private:
    // The task queue
    std::queue<std::function<void()>> tasks_;
-- 
2.43.0


From 4e9e37a8975ba975745cd88c30e4ec20e650d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 052/128] fix: plain::md5 is defined

---
 framework/core/src/basic/md5.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/md5.cc b/framework/core/src/basic/md5.cc
index 23f7e07..856f4c2 100644
--- a/framework/core/src/basic/md5.cc
+++ b/framework/core/src/basic/md5.cc
@@ -337,13 +337,13 @@ std::string MD5::hexdigest() const {
  
 //////////////////////////////
  
-std::ostream& operator<<(std::ostream& out, MD5 md5) {
+std::ostream& plain::operator<<(std::ostream& out, MD5 md5) {
   return out << md5.hexdigest();
 }
  
 //////////////////////////////
  
-std::string md5(const std::string &str) {
+std::string plain::md5(const std::string &str) {
   MD5 md5 = MD5(str);
   return md5.hexdigest();
 }
-- 
2.43.0


From 21381d31a7da52444649ee162f31730f9387708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 053/128] fix: trimming removes any mix of the given characters

---
 framework/core/include/plain/basic/utility.h |  9 ++++++---
 framework/core/src/basic/utility.cc          | 14 +++-----------
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 14d4ca3..9a1c397 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -56,15 +56,18 @@ PLAIN_API bool checkstr(const char *in, uint32_t size);
 
 // Retira espacios en blanco (u otros caracteres) del inicio de un string.
 PLAIN_API std::string &ltrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str,
+    std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Retira los espacios en blanco (u otros caracteres) del final de un string.
 PLAIN_API std::string &rtrim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str,
+    std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Elimina espacio en blanco (u otro tipo de caracteres) del inicio y el final de la cadena.
 PLAIN_API std::string &trim(
-    std::string &str, std::string_view character_mask = " \t\n\r\0\x0B");
+    std::string &str,
+    std::string_view character_mask = {" \t\n\r\0\x0B", 6});
 
 // Determine if a given string contains a given substring.
 PLAIN_API bool contains(
diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index ff253ec..19d4be8 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -621,27 +621,19 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
 
 std::string &ltrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-  }
+  str.erase(0, str.find_first_not_of(character_mask));
   return str;
 }
 
 std::string &rtrim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
+  str.erase(str.find_last_not_of(character_mask) + 1);
   return str;
 }
 
 std::string &trim(std::string &str, std::string_view character_mask) {
   if (str.empty()) return str;
-  for (size_t i = 0; i < character_mask.length(); ++i) {
-    str.erase(0, str.find_first_not_of(character_mask[i]));
-    str.erase(str.find_last_not_of(character_mask[i]) + 1);
-  }
-  return str;
+  return ltrim(rtrim(str, character_mask), character_mask);
 }
 
 bool contains(
-- 
2.43.0


From a4b12ef552dc4ac4025dbbf3a552ed17660376fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 054/128] fix: replacing several strings replaces all of them
 and replacing nothing ends

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 19d4be8..11cca9a 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -649,6 +649,7 @@ std::string str_replace(
   std::string_view search, std::string_view replace, std::string_view subject, 
   int32_t count) {
   std::string r{subject};
+  if (search.empty()) return r;
   int32_t replace_count{0};
   auto it = r.find(search);
   auto search_length = search.length();
@@ -666,7 +667,7 @@ std::string str_replaces(
   std::string_view subject, int32_t count) {
   std::string r{subject};
   for (std::string_view item : search)
-    r = str_replace(item, replace, subject, count);
+    r = str_replace(item, replace, r, count);
   return r;
 }
 
-- 
2.43.0


From c9411055bfa21a587e430a0a63e04f11d63b44e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 055/128] fix: binary data converted to text is restored from
 it

---
 framework/core/src/basic/utility.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 11cca9a..a05b043 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -713,7 +713,7 @@ static char ascii_table[] = {
 
 char value_toascii(char in) {
   char out =
-    0 < in && sizeof(ascii_table) / sizeof(char) >
+    0 <= in && sizeof(ascii_table) / sizeof(char) >
     static_cast< size_t >(in) ? ascii_table[(uint8_t)in] : '?';
   return out;
 }
@@ -800,7 +800,7 @@ bool binary_tostring(const char *in, uint32_t in_length, char *out) {
   for (i = 0; i < in_length; ++i) {
     out[out_index] = value_toascii((static_cast<uint8_t>(in[i] & 0xF0)) >> 4);
     ++out_index;
-    out[out_index] = value_toascii(in[i] & 0xF0);
+    out[out_index] = value_toascii(in[i] & 0x0F);
     ++out_index;
   }
   return true;
@@ -812,12 +812,10 @@ bool string_tobinary(
   if (0 == in_length) return false;
   uint32_t out_index = 0;
   uint32_t i;
-  for (i = 0; i < in_length; ++i) {
+  for (i = 0; i + 1 < in_length && out_index < out_limit; i += 2) {
     if ('\0' == in[i] || '\0' == in[i + 1]) break;
     out[out_index] = (ascii_tovalue(in[i]) << 4) + ascii_tovalue(in[i + 1]);
     ++out_index;
-    i += 2;
-    if (out_index > out_limit) break;
   }
   out_length = out_index; //length must be the out_limit
   return true;
-- 
2.43.0


From 34b5a09052e4d03919f21c93cb5628ad4bc146da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 056/128] fix: an encrypted password is returned and can be
 decrypted

---
 framework/core/src/basic/utility.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index a05b043..5c106df 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -522,9 +522,9 @@ static bool pg_encrypt_password(
 
   //recheck password
   if (encryptok) decrypt_ok = pg_decrypt_password(password_check, result);
-  if (!encryptok || !decrypt_ok || stricmp(password_check, password) != 0)
+  if (!encryptok || !decrypt_ok || strcmp(password_check, password) != 0)
     return pg_encrypt_password(result, password, tickcount + 9929, level);
-  return false;
+  return true;
 }
 
 bool encrypt(std::string_view in, std::string &out) {
@@ -532,16 +532,16 @@ bool encrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
   int32_t level = 0;
   bool result{false};
-  if (pg_encrypt_password(temp, in.data(), tickcount, level)) {
+  if (pg_encrypt_password(temp, std::string{in}.c_str(), tickcount, level)) {
     result = true;
-    out = result;
+    out = temp;
   }
   return result;
 }
 
 bool decrypt(std::string_view in, std::string &out) {
   char temp[PG_RESULTLENSTD + 1]{0};
-  if (!pg_decrypt_password(temp, in.data())) return false;
+  if (!pg_decrypt_password(temp, std::string{in}.c_str())) return false;
   out = temp;
   return true;
 }
-- 
2.43.0


From 57fe1154c83b92ee0e691217d45bb1ee3f98514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 057/128] fix: escaping, completing and copying text stay
 inside of the given buffer

---
 framework/core/src/basic/utility.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 5c106df..f815a79 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -142,6 +142,7 @@ uint32_t crc(const char *str) {
 
 char *safecopy(char *dest, const char *src, size_t size) {
   Assert(dest && src);
+  if (0 == size) return dest;
   strncpy(dest, src, size);
   dest[size - 1] = '\0';
   return dest;
@@ -250,6 +251,7 @@ bool getescape(const char *in, size_t insize, char *out, size_t outsize) {
   for ( ; index1 < insize && index2 < outsize; ++index1) {
     char _char;
     if (get_escapechar(in[index1], _char)) {
+    if (index2 + 1 >= outsize) break;
     out[index2] = '\\';
     ++index2;
     out[index2] = _char;
@@ -981,9 +983,11 @@ uint32_t get_lowsection(uint64_t value) {
 }
 
 void complementpath(char *filepath, size_t size, char delimiter) {
-  uint32_t length = static_cast<uint32_t>(strlen(filepath));
-  if (size <= length) return;
-  filepath[length] = delimiter == filepath[length - 1] ? '\0' : delimiter;
+  size_t length = strlen(filepath);
+  if (size <= length + 1) return;
+  if (length > 0 && delimiter == filepath[length - 1]) return;
+  filepath[length] = delimiter;
+  filepath[length + 1] = '\0';
 }
 
 char *strerror_pl(int32_t saved_errno) {
-- 
2.43.0


From 0bfb4a4cd0603253fe32c4f4d5c163cee0071aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:25 +0000
Subject: [PATCH 058/128] fix: splitting by an empty text ends

---
 framework/core/src/basic/utility.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index f815a79..264995e 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -282,6 +282,10 @@ int32_t explode(
   result.clear();
   std::string str = source; //use stanard string class to source
   if (str.empty()) return 0;
+  if (!one_key && '\0' == key[0]) { // Nothing to split by.
+    result.push_back(str);
+    return 1;
+  }
   std::string::size_type left = 0;
   std::string::size_type right;
   if (one_key) {
-- 
2.43.0


From a7d9f63240eec12309011b650ad453600585ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 059/128] fix: a string is read from a string stream whatever
 its length and contents

---
 .../core/include/plain/basic/stringstream.h   | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/framework/core/include/plain/basic/stringstream.h b/framework/core/include/plain/basic/stringstream.h
index d5bf45c..5a9da98 100644
--- a/framework/core/include/plain/basic/stringstream.h
+++ b/framework/core/include/plain/basic/stringstream.h
@@ -27,17 +27,19 @@ class stringstream {
    ~stringstream() {}
 
  public:
-   void read(char *var, size_t size) {
+   bool read(char *var, size_t size) {
      Assert(str_ != nullptr && size_ > 0);
-     if (size + cur_ > size_) return;
+     if (size > size_ - cur_) return false;
      memcpy(var, str_ + cur_, size);
      cur_ += size;
+     return true;
    }
-   void write(const char *var, size_t size) {
+   bool write(const char *var, size_t size) {
      Assert(str_ != nullptr && size_ > 0);
-     if (size + cur_ > size_) return;
+     if (size > size_ - cur_) return false;
      memcpy(str_ + cur_, var, size);
      cur_ += size;
+     return true;
    }
 
  public:
@@ -63,8 +65,8 @@ class stringstream {
  public:
    template <typename T>
    stringstream &operator>>(T &var) {
-     read((char *)&var, sizeof(var));
-     var = ntoh(var);
+     if (read((char *)&var, sizeof(var)))
+       var = ntoh(var);
      return *this;
    }
 
@@ -79,12 +81,14 @@ class stringstream {
    }
 
    stringstream &operator>>(std::string &var) {
-     char temp[SSTREAM_STRING_SIZE_MAX]{0};
      int32_t size{0};
      read((char *)&size, sizeof(size));
      size = ntoh(size);
-     if (size > 0) read(temp, size);
-     var = temp;
+     var.clear();
+     if (size > 0 && static_cast<size_t>(size) <= size_ - cur_) {
+       var.assign(str_ + cur_, size);
+       cur_ += size;
+     }
      return *this;
    }
 
-- 
2.43.0


From 32a7b325741b4dfe210ec8f7673f15ab1204f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 060/128] fix: a string that does not fit is not written to a
 string stream in part

---
 framework/core/include/plain/basic/stringstream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/include/plain/basic/stringstream.h b/framework/core/include/plain/basic/stringstream.h
index 5a9da98..69f4e4a 100644
--- a/framework/core/include/plain/basic/stringstream.h
+++ b/framework/core/include/plain/basic/stringstream.h
@@ -119,6 +119,7 @@ class stringstream {
 
    stringstream &operator<<(const std::string var) {
      auto size = (int32_t)var.size();
+     if (size_ - cur_ < sizeof(int32_t) + var.size()) return *this;
      auto temp = hton(size);
      write((char *)&temp, sizeof(int32_t));
      write(var.c_str(), size);
@@ -127,6 +128,7 @@ class stringstream {
 
    stringstream &operator<<(const char *var) {
      auto size = (int32_t)strlen(var);
+     if (size_ - cur_ < sizeof(int32_t) + size) return *this;
      auto temp = hton(size);
      write((char *)&temp, sizeof(int32_t));
      write(var, size);
-- 
2.43.0


From e25f79e45b9b6981342634bbeb023d5b6df6c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 061/128] fix: the postfix decrement of a variable decrements
 it

---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 9041689..1c51031 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -162,7 +162,7 @@ struct PLAIN_API variable_struct {
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = to_int64() - 1;
     return *this;
   }
   
-- 
2.43.0


From 4e596f49b26fda85d28e6423436b827b5ea8f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 062/128] fix: greater-than of variables is not less-than

---
 framework/core/include/plain/basic/type/variable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 1c51031..6ce8928 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -180,7 +180,7 @@ struct PLAIN_API variable_struct {
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.value > rhs.value;
   }
 
   friend auto operator<=>(
-- 
2.43.0


From fe5eb1d1922960f5a93392d02cc31c7a07165213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:02 +0000
Subject: [PATCH 063/128] fix: arithmetic of two variables keeps the fraction
 of the second

---
 framework/core/include/plain/basic/type/variable.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 6ce8928..0c3cc18 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -98,7 +98,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator+=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_int64() + to_double();
+    value = object.to_double() + to_double();
     return *this;
   }
   template <typename T>
@@ -110,7 +110,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator-=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_int64();
+    value = to_double() - object.to_double();
     return *this;
   }
   template <typename T>
@@ -122,7 +122,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator*=(const variable_t &object) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_int64();
+    value = to_double() * object.to_double();
     return *this;
   }
   
@@ -135,7 +135,7 @@ struct PLAIN_API variable_struct {
 
   variable_t &operator/=(const variable_t &object) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_int64();
+    value = to_double() / object.to_double();
     return *this;
   }
   template <typename T>
-- 
2.43.0


From 79167510210dadb1288409119ae387375f488bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:11 +0000
Subject: [PATCH 064/128] fix: decrypting a password stays inside of the
 encrypted text

---
 framework/core/src/basic/utility.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 264995e..4b6d969 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -464,6 +464,8 @@ static bool pg_decrypt_password(char *password, const char *encrypted) {
   length = pg_char2int(buffer[pk_length + 1]);
   if (length < 0 || length > PG_MAXPASSWORDLEN)
     return false;
+  if (pk_length + 2 + length > PG_RESULTLENSTD)
+    return false;
   pg_decrypt(buffer + 1, pk_length, password, buffer + pk_length + 2, length);
 
   return true;
-- 
2.43.0


From 0ece6ddfadfdd497ef77b6ae7df66e374e38f233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:00 +0000
Subject: [PATCH 065/128] fix: a number hidden in a text can be taken out of it
 again

---
 framework/core/src/basic/utility.cc | 31 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 4b6d969..9579d17 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -559,7 +559,8 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
   auto number_len = number_str.size();
   out = "";
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    auto n = number / static_cast<int32_t>((pow(10, number_len - i - 1))) % 10;
+    auto n = static_cast<int32_t>(
+      number / static_cast<int64_t>(pow(10, number_len - i - 1)) % 10);
     char c = (char)n + _char;
     out = out + c;
   }
@@ -569,10 +570,14 @@ bool encrypt_number(int32_t number, char _char, std::string &out) {
 bool decrypt_number(std::string_view in, char _char, int32_t &number) {
   auto number_len = in.size();
   number = 0;
+  if (number_len > 11) return false; // The digits of int32_t and the sign.
+  int64_t value{0};
   for (decltype(number_len) i = 0; i < number_len; ++i) {
-    number += (in[i] - _char) 
-              * static_cast<int32_t>(pow(10, number_len - i -1));
+    value += (in[i] - _char) 
+             * static_cast<int64_t>(pow(10, number_len - i -1));
   }
+  if (value < INT32_MIN || value > INT32_MAX) return false;
+  number = static_cast<int32_t>(value);
   return true;
 }
 
@@ -599,11 +604,12 @@ bool encrypt(std::string_view in, int32_t number, std::string &out) {
   out = "";
   out = out + first_char + len_char + pos_len_char + pos_str;
   if (0 == pos) {
-    out = out + number_str + in.data();
+    out = out + number_str + std::string{in};
   } else if (pos == in.size()) {
-    out = out + in.data() + number_str;
+    out = out + std::string{in} + number_str;
   } else {
-    out = out + in.substr(0, pos).data() + number_str + in.substr(pos).data();
+    out = out + std::string{in.substr(0, pos)} + number_str + 
+          std::string{in.substr(pos)};
   }
   return true;
 }
@@ -613,17 +619,18 @@ bool decrypt(std::string_view in, int32_t &number, std::string &out) {
   char first_char = in[0];
   int32_t length = in[1] - first_char;
   int32_t pos_len = in[2] - first_char;
+  if (length < 0 || pos_len < 0) return false;
   int32_t header_size = 3 + pos_len;
   if (in.size() < (size_t)header_size) return false;
   int32_t pos{0};
   auto pos_str = in.substr(3, pos_len);
-  decrypt_number(pos_str, first_char, pos);
+  if (!decrypt_number(pos_str, first_char, pos) || pos < 0) return false;
   size_t rsize = in.size() - header_size;
-  if (rsize < (size_t)(pos + length)) return false;
-  std::string number_str = in.substr(header_size + pos, length).data();
-  decrypt_number(number_str, first_char, number);
-  out = std::string{in.substr(header_size, pos).data()} + 
-        in.substr(header_size + pos + length).data();
+  if (rsize < (size_t)pos + length) return false;
+  auto number_str = in.substr(header_size + pos, length);
+  if (!decrypt_number(number_str, first_char, number)) return false;
+  out = std::string{in.substr(header_size, pos)} + 
+        std::string{in.substr(header_size + pos + length)};
   return true;
 }
 
-- 
2.43.0


From 1df11d4f0a3f3b26fded8d3438ad780e9748e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 066/128] fix: a peer that closes right after sending is
 noticed

---
 framework/core/src/net/connection/basic.cc | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 56ec101..2bd0939 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -94,12 +94,11 @@ Basic::Impl::Impl(std::shared_ptr<socket::Basic> socket) :
 Basic::Impl::~Impl() = default;
 
 bool Basic::Impl::process_input(Basic *conn) noexcept {
+  // The packets received are handled before the next read, so the last packets
+  // of a closed peer will not lost.
+  if (has_work_flag(WorkFlag::Command)) return true;
   // Clear before read, the data arrived after that will notify again.
   if (!exchange_work_flag(WorkFlag::Input, false)) return true;
-  scoped_executor_t check_flag([this]{
-    if (socket->avail() > 0)
-      set_work_flag(WorkFlag::Input, true);
-  });
   assert(conn);
   if (!socket->valid()) return false;
   auto r = istream->pull();
@@ -111,11 +110,11 @@ bool Basic::Impl::process_input(Basic *conn) noexcept {
   if (m) {
     m->increase_recv_size(r);
   }
-  set_work_flag(WorkFlag::Command, true);
-  /*
-  if (socket->avail() == 0)
-    set_work_flag(WorkFlag::Input, false);
-  */
+  if (r > 0) {
+    set_work_flag(WorkFlag::Command, true);
+    // Read until nothing left, the close of peer is notified with the data once.
+    set_work_flag(WorkFlag::Input, true);
+  }
   return true;
 }
 
-- 
2.43.0


From c89b588e3a60dea291e165afa2c2c691e62b3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:32 +0000
Subject: [PATCH 067/128] fix: a failed send does not lock the manager while
 the connection is locked

---
 framework/core/src/net/connection/basic.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2bd0939..888d1de 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -125,16 +125,15 @@ bool Basic::Impl::process_output(Basic *conn) noexcept {
   int32_t sended{0};
   {
     std::unique_lock<std::mutex> lock{mutex};
-    auto r = ostream->push();
-    if (r < 0) {
-      LOG_ERROR << get_name(conn) << " push failed: " << r;
-      return false;
-    }
-    sended = r;
+    sended = ostream->push();
     // Must in lock, otherwise a packet written now will be never sent.
-    if (ostream->size() == 0)
+    if (sended >= 0 && ostream->size() == 0)
       work_flags &= ~(0x1 << std::to_underlying(WorkFlag::Output));
   }
+  if (sended < 0) { // The name needs the manager lock, so not in lock.
+    LOG_ERROR << get_name(conn) << " push failed: " << sended;
+    return false;
+  }
   auto m = manager.lock();
   if (sended > 0 && m) {
     m->increase_send_size(sended);
-- 
2.43.0


From 7ece37608cdbd028ad32024dd8ae5ceed0c881db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:08 +0000
Subject: [PATCH 068/128] fix: connection callbacks can be set and run in
 different threads

---
 framework/core/src/net/connection/basic.cc | 34 +++++++++++++++-------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 888d1de..da71dd5 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -16,6 +16,7 @@ using plain::net::connection::Basic;
 using plain::net::connection::callable_func;
 
 static std::unordered_map<std::string, callable_func> s_callables;
+static std::mutex s_callables_mutex; // Connections are in different threads.
 static constexpr size_t kOnceHandlePacketCount{12};
 static constexpr size_t kCantPeekMaxCount{60};
 
@@ -27,9 +28,24 @@ get_callable_key(Basic *p, std::string_view suffix) noexcept {
 
 static void check_callable(Basic *p, std::string_view suffix) noexcept {
   auto key = get_callable_key(p, suffix);
-  auto it = s_callables.find(key);
-  if (it != s_callables.end())
-    it->second(p);
+  callable_func func;
+  {
+    std::unique_lock<std::mutex> lock{s_callables_mutex};
+    auto it = s_callables.find(key);
+    if (it == s_callables.end()) return;
+    func = it->second;
+  }
+  if (func) func(p);
+}
+
+static void set_callable(
+  Basic *p, std::string_view suffix, callable_func func) noexcept {
+  auto key = get_callable_key(p, suffix);
+  std::unique_lock<std::mutex> lock{s_callables_mutex};
+  if (func)
+    s_callables[key] = func;
+  else
+    s_callables.erase(key);
 }
 
 struct Basic::Impl {
@@ -423,10 +439,8 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->callings.clear();
   impl_->call_index = 0;
-  auto connect_call_key = get_callable_key(this, "__connect");
-  s_callables.erase(connect_call_key);
-  auto disconnect_call_key = get_callable_key(this, "__disconnect");
-  s_callables.erase(disconnect_call_key);
+  set_callable(this, "__connect", {});
+  set_callable(this, "__disconnect", {});
   // if (!impl_->socket->create()) return false;
   return true;
 }
@@ -506,13 +520,11 @@ void Basic::set_codec(const stream::codec_t &codec) noexcept {
 }
   
 void Basic::set_connect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__connect");
-  s_callables[key] = func;
+  set_callable(this, "__connect", func);
 }
   
 void Basic::set_disconnect_callback(callable_func func) noexcept {
-  auto key = get_callable_key(this, "__disconnect");
-  s_callables[key] = func;
+  set_callable(this, "__disconnect", func);
 }
   
 void Basic::set_manager(std::shared_ptr<Manager> manager) noexcept {
-- 
2.43.0


From 93e9e74fdfbc876317f2bc8ba032e7a31283d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:08 +0000
Subject: [PATCH 069/128] fix: a reused connection does not inherit codec,
 dispatcher, timeout and keep alive

---
 framework/core/src/net/connection/basic.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index da71dd5..80e02bf 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -439,6 +439,11 @@ bool Basic::init() noexcept {
   impl_->ostream->clear();
   impl_->callings.clear();
   impl_->call_index = 0;
+  // Not inherit from the last used.
+  impl_->codec = {};
+  impl_->dispatcher = {};
+  impl_->timeout = std::nullopt;
+  impl_->keep_alive.store(false, std::memory_order_relaxed);
   set_callable(this, "__connect", {});
   set_callable(this, "__disconnect", {});
   // if (!impl_->socket->create()) return false;
-- 
2.43.0


From 623a43dacf9672d95febaa38c76ce2f58f8d1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:08 +0000
Subject: [PATCH 070/128] fix: nothing is sent or called on a closed connection
 until it is connected again

---
 .../core/include/plain/net/connection/basic.h |  1 +
 framework/core/src/net/connection/basic.cc    | 25 +++++++++++++------
 framework/core/src/net/connector.cc           |  1 +
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 5dfb42a..1eca8fc 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -129,6 +129,7 @@ Basic final : noncopyable {
  private:
   void on_connect() noexcept;
   void on_disconnect() noexcept;
+  void reset() noexcept; // Before connect(also again).
 
  private:
   void set_id(id_t id) noexcept;
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 80e02bf..2c48cf3 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -61,6 +61,7 @@ struct Basic::Impl {
   packet::dispatch_func dispatcher;
   uint8_t error_times{0};
   uint8_t work_flags{0};
+  bool closed{false}; // No more can be sent.
   std::atomic_bool working{false};
   std::atomic_bool keep_alive{false};
   mutable std::mutex mutex;
@@ -432,11 +433,8 @@ Basic &Basic::operator=(Basic &&object) noexcept = default;
 
 bool Basic::init() noexcept {
   if (!impl_->socket->close()) return false;
-  impl_->working.store(false, std::memory_order_relaxed);
-  impl_->work_flags = 0;
-  impl_->error_times = 0;
-  impl_->istream->clear();
-  impl_->ostream->clear();
+  reset();
+  std::unique_lock<std::mutex> lock{impl_->mutex};
   impl_->callings.clear();
   impl_->call_index = 0;
   // Not inherit from the last used.
@@ -444,12 +442,23 @@ bool Basic::init() noexcept {
   impl_->dispatcher = {};
   impl_->timeout = std::nullopt;
   impl_->keep_alive.store(false, std::memory_order_relaxed);
+  lock.unlock();
   set_callable(this, "__connect", {});
   set_callable(this, "__disconnect", {});
   // if (!impl_->socket->create()) return false;
   return true;
 }
 
+void Basic::reset() noexcept {
+  std::unique_lock<std::mutex> lock{impl_->mutex};
+  impl_->working.store(false, std::memory_order_relaxed);
+  impl_->work_flags = 0;
+  impl_->closed = false;
+  impl_->error_times = 0;
+  impl_->istream->clear();
+  impl_->ostream->clear();
+}
+
 bool Basic::idle() const noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   return !impl_->socket->valid() || (impl_->work_flags == 0);
@@ -542,7 +551,7 @@ void Basic::set_dispatcher(packet::dispatch_func func) noexcept {
 
 bool Basic::send(const std::shared_ptr<packet::Basic> &packet) noexcept {
   std::unique_lock<std::mutex> lock{impl_->mutex};
-  auto r = impl_->write(packet);
+  auto r = !impl_->closed && impl_->write(packet);
   lock.unlock();
   if (r) enqueue_work(WorkFlag::Output);
   return r;
@@ -558,6 +567,8 @@ void Basic::on_disconnect() noexcept {
   impl_->working.store(false, std::memory_order_relaxed);
   {
     std::unique_lock<std::mutex> lock{impl_->mutex};
+    impl_->closed = true;
+    impl_->work_flags = 0;
     impl_->callings.clear(); // No response can arrive any more.
   }
   check_callable(this, "__disconnect");
@@ -577,7 +588,7 @@ bool Basic::send_call(
   std::shared_ptr<std::promise<rpc::Unpacker>> promise) {
   std::unique_lock<std::mutex> lock{impl_->mutex};
   packet->set_call_request(true);
-  auto r = impl_->write(packet);
+  auto r = !impl_->closed && impl_->write(packet);
   if (r && static_cast<bool>(promise)) {
     impl_->callings.emplace(
       index, std::make_pair(func_name, std::move(*promise)));
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 0a0d3a7..162fb64 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -194,6 +194,7 @@ bool Connector::connect(
     LOG_ERROR << "set_linger(0) failed: " << socket::get_last_error();
     return false;
   }
+  conn->reset(); // Nothing of the last connection is left.
   if (!impl_->manager->sock_add(sock->id(), conn->id())) {
     LOG_ERROR << "sock add failed";
     return false;
-- 
2.43.0


From cab03d512de061db2d411db66ff83e95c3ccacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:08 +0000
Subject: [PATCH 071/128] fix: a connection is not removed or used again while
 its packets are handled

---
 .../core/include/plain/net/connection/basic.h |  2 ++
 framework/core/src/net/connection/basic.cc    | 23 +++++++++++++++----
 framework/core/src/net/connection/manager.cc  | 14 +++++++----
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/framework/core/include/plain/net/connection/basic.h b/framework/core/include/plain/net/connection/basic.h
index 1eca8fc..907eade 100644
--- a/framework/core/include/plain/net/connection/basic.h
+++ b/framework/core/include/plain/net/connection/basic.h
@@ -139,6 +139,8 @@ Basic final : noncopyable {
 
  private:
   bool work() noexcept;
+  bool failed() const noexcept;
+  std::unique_lock<std::recursive_mutex> lock_remove() noexcept;
   void enqueue_work(WorkFlag flag) noexcept;
 
  private:
diff --git a/framework/core/src/net/connection/basic.cc b/framework/core/src/net/connection/basic.cc
index 2c48cf3..d087b1c 100644
--- a/framework/core/src/net/connection/basic.cc
+++ b/framework/core/src/net/connection/basic.cc
@@ -243,8 +243,7 @@ bool Basic::Impl::process_command(Basic *conn) noexcept {
 }
 
 bool Basic::Impl::process_exception() noexcept {
-  if (!has_work_flag(WorkFlag::Except)) return true;
-  return true;
+  return !has_work_flag(WorkFlag::Except); // Waiting for remove.
 }
 
 bool Basic::Impl::work(Basic *conn) noexcept {
@@ -478,8 +477,23 @@ bool Basic::valid() const noexcept {
 }
   
 bool Basic::work() noexcept {
-  std::unique_lock<std::recursive_mutex> lock{impl_->work_mutex};
-  return impl_->work(this);
+  {
+    std::unique_lock<std::recursive_mutex> lock{impl_->work_mutex};
+    if (!valid() || !impl_->work(this))
+      impl_->set_work_flag(WorkFlag::Except, true);
+  }
+  // Check out of the lock, see lock_remove().
+  return !failed();
+}
+
+bool Basic::failed() const noexcept {
+  return impl_->has_work_flag(WorkFlag::Except);
+}
+
+std::unique_lock<std::recursive_mutex> Basic::lock_remove() noexcept {
+  // Must set before try lock, then the working thread will remove it.
+  impl_->set_work_flag(WorkFlag::Except, true);
+  return {impl_->work_mutex, std::try_to_lock};
 }
 
 void Basic::enqueue_work(WorkFlag flag) noexcept {
@@ -542,6 +556,7 @@ void Basic::set_disconnect_callback(callable_func func) noexcept {
 }
   
 void Basic::set_manager(std::shared_ptr<Manager> manager) noexcept {
+  if (impl_->manager.lock() == manager) return; // Used again.
   impl_->manager = manager;
 }
   
diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index da2ad68..884eadc 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -184,10 +184,12 @@ void Manager::Impl::work(
     });
     if (!conn) return;
     if (conn->socket()->id() == socket::kInvalidId) return; // closed already.
-    r = conn->valid() && conn->work();
+    r = conn->work();
   }
   if (!r) {
-    manager->remove(conn);
+    std::unique_lock<decltype(manager->impl_->mutex)> lock{
+      manager->impl_->mutex};
+    if (conn->failed()) manager->remove(conn); // Or it is used again now.
   } else {
     if (!conn->idle()) {
        manager->enqueue(id);
@@ -367,7 +369,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
   if (id == kInvalidId) return {};
   auto r = impl_->connection_info.list[id - 1];
   if (!r) r = std::make_shared<Basic>();
-  r->set_id(id);
+  if (r->id() != id) r->set_id(id);
   r->init();
   r->set_manager(shared_from_this());
   ++(impl_->connection_info.size);
@@ -402,9 +404,13 @@ void Manager::remove(
   if (conn_id <= 0 || conn_id > impl_->connection_info.max_id)
     return;
   if (!impl_->connection_info.ids->contains(conn_id)) return; // removed.
-  auto &conn = impl_->connection_info.list[conn_id - 1];
+  auto conn = impl_->connection_info.list[conn_id - 1];
+  std::unique_lock<std::recursive_mutex> work_lock;
   if (conn) {
     if (!no_event) {
+      // Working in other thread, which will remove it when work end.
+      work_lock = conn->lock_remove();
+      if (!work_lock) return;
       conn->on_disconnect();
       if (static_cast<bool>(impl_->disconnect_callback))
         impl_->disconnect_callback(conn.get());
-- 
2.43.0


From 43fc8e29acd51feb1ea3cc6785af7fd3f143178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:08 +0000
Subject: [PATCH 072/128] fix: a signal does not end the network worker

---
 framework/core/src/net/connection/epoll.cc  | 1 +
 framework/core/src/net/connection/select.cc | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/net/connection/epoll.cc b/framework/core/src/net/connection/epoll.cc
index 7db956a..54bfedf 100644
--- a/framework/core/src/net/connection/epoll.cc
+++ b/framework/core/src/net/connection/epoll.cc
@@ -154,6 +154,7 @@ bool Epoll::work() noexcept {
 #ifdef PLAIN_EPOLL_ENABLE
   poll_wait(impl_->data, -1);
   if (impl_->data.result_event_count < 0) {
+    if (errno == EINTR) return true; // Interrupted by a signal.
     LOG_ERROR << "error: " << impl_->data.result_event_count;
     return false;
   }
diff --git a/framework/core/src/net/connection/select.cc b/framework/core/src/net/connection/select.cc
index 1f049ae..2fe7c1f 100644
--- a/framework/core/src/net/connection/select.cc
+++ b/framework/core/src/net/connection/select.cc
@@ -99,7 +99,9 @@ bool Select::prepare() noexcept {
 bool Select::work() noexcept {
   impl_->select();
   bool r{true};
-  if (impl_->select_result < 0) {
+  if (impl_->select_result < 0 && errno == EINTR) {
+    // Interrupted by a signal.
+  } else if (impl_->select_result < 0) {
     r = false;
     LOG_ERROR << setting_.name << " error: " << impl_->select_result;
   } else if (impl_->select_result > 0) {
-- 
2.43.0


From 825e014c7ddcbd1b27acdf1120d64c9befdd0004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:22 +0000
Subject: [PATCH 073/128] fix: the connection limit and the traffic counters
 can be read by any thread

---
 framework/core/src/net/connection/manager.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 884eadc..3b864b6 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -386,6 +386,7 @@ std::shared_ptr<plain::net::connection::Basic> Manager::new_conn() noexcept {
 }
   
 bool Manager::is_full() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->connection_info.free_ids.empty() &&
     impl_->connection_info.max_id != kInvalidId &&
     impl_->connection_info.max_id >= static_cast<id_t>(setting_.max_count);
@@ -604,10 +605,12 @@ void Manager::increase_recv_size(size_t size) {
 }
 
 uint64_t Manager::send_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->send_size;
 }
 
 uint64_t Manager::recv_size() const noexcept {
+  std::unique_lock<decltype(impl_->mutex)> lock{impl_->mutex};
   return impl_->recv_size;
 }
 
-- 
2.43.0


From 737626384c1c29d87bfebbe255692932d9df736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:37 +0000
Subject: [PATCH 074/128] fix: the ids used by a broadcast are released in the
 lock that guards them

---
 framework/core/src/net/connection/manager.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/framework/core/src/net/connection/manager.cc b/framework/core/src/net/connection/manager.cc
index 3b864b6..7e461f3 100644
--- a/framework/core/src/net/connection/manager.cc
+++ b/framework/core/src/net/connection/manager.cc
@@ -441,6 +441,11 @@ void Manager::broadcast(std::shared_ptr<packet::Basic> packet) noexcept {
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
     ids = impl_->connection_info.ids;
   }
+  // Release in lock, the ids are changed in place if not used by others.
+  scoped_executor_t release_ids([this, &ids]{
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    ids.reset();
+  });
   if (ids.use_count() == 0) return;
   for (auto id : *ids) {
     auto conn = get_conn(id);
@@ -454,6 +459,11 @@ void Manager::foreach(std::function<void(std::shared_ptr<Basic> conn)> func) {
     std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
     ids = impl_->connection_info.ids;
   }
+  // Release in lock, the ids are changed in place if not used by others.
+  scoped_executor_t release_ids([this, &ids]{
+    std::unique_lock<decltype(impl_->mutex)> auto_lock(impl_->mutex);
+    ids.reset();
+  });
   if (ids.use_count() == 0) return;
   for (auto id : *ids) {
     auto conn = get_conn(id);
-- 
2.43.0


From 21647a6a1e83358fe8522255a85328f345c53c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 075/128] fix: the text of an IPv6 address is an address

Text without brackets around the host was read back as another address, and
"[host]" without a port and IPv6 addresses with dots were refused, while a
missing bracket was accepted.
---
 framework/core/src/net/address.cc | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 297a10e..90c25e1 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -102,8 +102,8 @@ bool plain::net::is_valid_addr(const bytes_t &addr, bool verbose) noexcept {
 }
 
 static bool is_ipv4(std::string_view address) noexcept {
-  if (address.find(':') == address.rfind(':')) return true;
-  return address.find('.') != std::string::npos;
+  if (!address.empty() && address.front() == '[') return false;
+  return address.find(':') == address.rfind(':');
 }
 
 /* std::tuple<ip_v4, ip, port> */
@@ -132,24 +132,17 @@ parse_address(std::string_view address) noexcept {
       return std::make_tuple(true, ip, port);
     }
   } else { // ip v6
-    size_t pos{std::string::npos};
-    if ((pos = address.find("]")) == std::string::npos) {
+    const auto pos = address.find(']');
+    // The host with a port is in brackets, what is not will be refused as host.
+    if (address.front() != '[' || pos == std::string_view::npos ||
+        (pos + 1 != address.size() && address[pos + 1] != ':'))
       return std::make_tuple(false, std::string{address}, port);
-    } else {
-      std::string ip;
-      size_t index{0};
-      for (auto str : std::views::split(address, "]:"sv)) {
-        if (index++ == 0) {
-          ip = std::string_view{str};
-          if (!ip.empty() && *ip.begin() == '[') ip.erase(ip.begin());
-        } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
-          break;
-        }
-      }
-      return std::make_tuple(false, ip, port);
+    if (pos + 1 != address.size()) {
+      const std::string str{address.substr(pos + 2)};
+      port = static_cast<uint16_t>(plain::toint64(str.c_str()));
     }
+    return std::make_tuple(
+      false, std::string{address.substr(1, pos - 1)}, port);
   }
 }
 
@@ -266,6 +259,8 @@ size_t Address::size() const noexcept {
 }
 
 std::string Address::text() const noexcept {
+  if (family() == AF_INET6)
+    return "[" + host() + "]:" + std::to_string(port());
   return host() + ":" + std::to_string(port());
 }
 
-- 
2.43.0


From 126fbf616e7ae893487814ec5b0bf6abf21b44ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 076/128] fix: an invalid port is refused

The port was read up to the first character that is no digit, past the end of
the given view, and ports above 65535 became other ports.
---
 framework/core/src/net/address.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index 90c25e1..f98806b 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -106,9 +106,22 @@ static bool is_ipv4(std::string_view address) noexcept {
   return address.find(':') == address.rfind(':');
 }
 
+/* An empty port is zero(any). */
+static uint16_t to_port(std::string_view str) {
+  uint32_t r{0};
+  for (auto c : str) {
+    if (c < '0' || c > '9')
+      throw std::invalid_argument("port invalid");
+    r = r * 10 + static_cast<uint32_t>(c - '0');
+    if (r > 65535)
+      throw std::invalid_argument("port invalid");
+  }
+  return static_cast<uint16_t>(r);
+}
+
 /* std::tuple<ip_v4, ip, port> */
 static std::tuple<bool, std::string, uint16_t>
-parse_address(std::string_view address) noexcept {
+parse_address(std::string_view address) {
   uint16_t port{0};
   if (address.empty())
     return std::make_tuple(true, "", port);
@@ -124,8 +137,7 @@ parse_address(std::string_view address) noexcept {
         if (index++ == 0) {
           ip = std::string_view{str};
         } else {
-          port = static_cast<uint16_t>(
-            plain::toint64(std::string_view{str}.data()));
+          port = to_port(std::string_view{str});
           break;
         }
       }
@@ -137,10 +149,8 @@ parse_address(std::string_view address) noexcept {
     if (address.front() != '[' || pos == std::string_view::npos ||
         (pos + 1 != address.size() && address[pos + 1] != ':'))
       return std::make_tuple(false, std::string{address}, port);
-    if (pos + 1 != address.size()) {
-      const std::string str{address.substr(pos + 2)};
-      port = static_cast<uint16_t>(plain::toint64(str.c_str()));
-    }
+    if (pos + 1 != address.size())
+      port = to_port(address.substr(pos + 2));
     return std::make_tuple(
       false, std::string{address.substr(1, pos - 1)}, port);
   }
-- 
2.43.0


From a43e7d080cd1e1bf8f69ff6bade3a327810459bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 077/128] fix: an address is made of the given text only

The text of a view was used as if it ended with a zero, and part of the socket
address was not initialised.
---
 framework/core/src/net/address.cc   | 12 ++++++------
 framework/core/src/net/connector.cc |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/net/address.cc b/framework/core/src/net/address.cc
index f98806b..1d1a690 100644
--- a/framework/core/src/net/address.cc
+++ b/framework/core/src/net/address.cc
@@ -157,11 +157,11 @@ parse_address(std::string_view address) {
 }
 
 static Address::value_type
-to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
+to_addr(bool ip_v4, std::string ip, uint16_t port, bool listen) {
   Address::value_type r;
   using value_t = Address::value_type::value_type;
   if (ip_v4) {
-    sockaddr_in addr;
+    sockaddr_in addr{};
     addr.sin_family = AF_INET;
     r.reserve(sizeof addr);
     if (ip.empty() || ip == "127.0.0.1" || ip == "0.0.0.0") {
@@ -170,14 +170,14 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
       else
         addr.sin_addr.s_addr = inet_addr("127.0.0.1");
     } else {
-      addr.sin_addr.s_addr = inet_addr(ip.data());
+      addr.sin_addr.s_addr = inet_addr(ip.c_str());
     }
     if (addr.sin_addr.s_addr == INADDR_NONE)
       throw std::invalid_argument("ip invalid");
     addr.sin_port = htons(port);
     r.append(reinterpret_cast<value_t *>(&addr), sizeof(addr));
   } else {
-    sockaddr_in6 addr;
+    sockaddr_in6 addr{};
     addr.sin6_family = AF_INET6;
     addr.sin6_flowinfo = 0;
     addr.sin6_scope_id = 0;
@@ -191,7 +191,7 @@ to_addr(bool ip_v4, std::string_view ip, uint16_t port, bool listen) {
           throw std::invalid_argument("ip invalid");
       }
     } else {
-      auto cr = inet_pton(AF_INET6, ip.data(), &addr.sin6_addr);
+      auto cr = inet_pton(AF_INET6, ip.c_str(), &addr.sin6_addr);
       if (cr != 1)
         throw std::invalid_argument("ip invalid");
     }
@@ -223,7 +223,7 @@ Address::Address(std::string_view value, bool listen) :
 }
 
 Address::Address(std::string_view ip, uint16_t port, bool listen) :
-  value_{to_addr(is_ipv4(ip), ip, port, listen)} {
+  value_{to_addr(is_ipv4(ip), std::string{ip}, port, listen)} {
   if (!is_valid_addr(value_))
     throw std::invalid_argument("Address value is invalid");
 }
diff --git a/framework/core/src/net/connector.cc b/framework/core/src/net/connector.cc
index 162fb64..66db8a3 100644
--- a/framework/core/src/net/connector.cc
+++ b/framework/core/src/net/connector.cc
@@ -178,7 +178,7 @@ bool Connector::connect(
   std::string_view address) noexcept {
   if (!conn || conn->id() == connection::kInvalidId) return false;
   std::string addr =
-    address.empty() ? conn->socket()->peer_address().text() : address.data();
+    address.empty() ? conn->socket()->peer_address().text() : std::string{address};
   if (addr.empty()) return false;
   auto success = conn->socket()->connect(addr, timeout, conn->socket()->type());
   if (!success) {
-- 
2.43.0


From b5b1967da8a1650b83df3558afb75c32a643423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 078/128] fix: the background executor takes its own options

---
 framework/core/src/engine/kernel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 2c65989..58fd6b6 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -214,8 +214,8 @@ Kernel::Kernel(const engine_option &option) : impl_{std::make_unique<Impl>()} {
   impl_->registered_executors.register_executor(impl_->thread_pool_executor);
 
   impl_->background_executor = std::make_shared<executor::ThreadPool>(
-    "thread background executor", option.max_cpu_threads, 
-    option.max_thread_pool_executor_waiting_time,
+    "thread background executor", option.max_background_threads,
+    option.max_background_executor_waiting_time,
     option.thread_started_callback,
     option.thread_terminated_callback
   );
-- 
2.43.0


From 9c6975c763b3503da2bf9e4aa90fe13400bc9c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 079/128] fix: a network without a name gets one that is not in
 use

---
 framework/core/src/engine/kernel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 58fd6b6..0c28849 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -292,7 +292,9 @@ void Kernel::add(std::shared_ptr<net::connection::Manager> net) {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
   auto name = net->setting_.name;
   if (name.empty()) { // Set unnamed
-    name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    do {
+      name = "unknown" + std::to_string(++impl_->unnamed_net_count);
+    } while (impl_->nets.find(name) != impl_->nets.end());
     net->setting_.name = name;
   }
   auto it = impl_->nets.find(name);
-- 
2.43.0


From 4bfad5e411a58e001373dac623025ba44703cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 080/128] fix: a network removes only itself from the kernel

---
 framework/core/src/engine/kernel.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 0c28849..3efa36a 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -305,8 +305,9 @@ void Kernel::add(std::shared_ptr<net::connection::Manager> net) {
    
 void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  auto name = net->setting_.name;
-  impl_->nets.erase(name);
+  auto it = impl_->nets.find(net->setting_.name);
+  if (it != impl_->nets.end() && it->second.lock() == net)
+    impl_->nets.erase(it);
 }
    
 void Kernel::remove_net(std::string_view name) noexcept {
-- 
2.43.0


From e354b3cf1cbd6da2b4985757ee9eac0a7212c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 081/128] fix: remove_net uses the given name only

---
 framework/core/src/engine/kernel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 3efa36a..9a984fd 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -312,7 +312,7 @@ void Kernel::remove(std::shared_ptr<net::connection::Manager> net) noexcept {
    
 void Kernel::remove_net(std::string_view name) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  impl_->nets.erase(name.data());
+  impl_->nets.erase(std::string{name});
 }
 
 bool Kernel::enable_console(std::string_view addr) noexcept {
-- 
2.43.0


From c97ff24a1b579e170fe323d44b8b099c82701369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 082/128] fix: a console handler registered again replaces the
 old one

---
 framework/core/src/engine/kernel.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 9a984fd..525b209 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -358,10 +358,11 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
 void Kernel::register_console_handler(
   std::string_view cmd, console_func func, std::string_view desc) noexcept {
   std::unique_lock<decltype(impl_->mutex)> auto_lock{impl_->mutex};
-  auto it = impl_->console_handlers.find(cmd.data());
+  std::string name{cmd};
+  auto it = impl_->console_handlers.find(name);
   if (it != impl_->console_handlers.end())
-    LOG_WARN << "cmd: " << cmd.data() << " handler will replace";
-  impl_->console_handlers.emplace(cmd, func);
+    LOG_WARN << "cmd: " << name << " handler will replace";
+  impl_->console_handlers.insert_or_assign(name, func);
   if (!desc.empty())
-    impl_->console_descs.emplace(cmd, desc);
+    impl_->console_descs.insert_or_assign(name, std::string{desc});
 }
-- 
2.43.0


From dd0aa82f17ee6db6e919ef7b2d3a0f7dceef1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 083/128] fix: console handlers can be registered while the
 console runs

---
 framework/core/src/engine/kernel.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 525b209..f74c93c 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -165,6 +165,8 @@ std::string Kernel::Impl::console_cmd_kill(
 
 std::string Kernel::Impl::console_cmd_help(
   const std::vector<std::string> &args) {
+  std::unique_lock<decltype(ENGINE->impl_->mutex)>
+    auto_lock{ENGINE->impl_->mutex};
   std::string r;
   if (args.empty()) {
     for (const auto &it : ENGINE->impl_->console_descs) {
@@ -334,10 +336,16 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
     explode(d, params, " ", true, true);
     if (params.empty()) return true;
     auto cmd = params[0];
-    auto it = ENGINE->impl_->console_handlers.find(cmd);
-    if (it == ENGINE->impl_->console_handlers.end()) return false;
+    console_func func;
+    {
+      std::unique_lock<decltype(ENGINE->impl_->mutex)>
+        auto_lock{ENGINE->impl_->mutex};
+      auto it = ENGINE->impl_->console_handlers.find(cmd);
+      if (it == ENGINE->impl_->console_handlers.end()) return false;
+      func = it->second;
+    }
     params.erase(params.begin());
-    auto r = it->second(params);
+    auto r = func(params);
     if (!r.empty()) {
       auto p = std::make_shared<net::packet::Basic>();
       p->set_writeable(true);
-- 
2.43.0


From 9020911ecf01e75e945f4a3e36b05d618e54433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:29 +0000
Subject: [PATCH 084/128] fix: the console is set up before it starts, and can
 be enabled after it failed

---
 framework/core/src/engine/kernel.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index f74c93c..706fd34 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -324,11 +324,6 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   setting.address = addr;
   setting.name = "console";
   impl_->console_listener = std::make_unique<net::Listener>(setting);
-  if (!impl_->console_listener->start())
-    return false;
-  LOG_INFO << "console listen on " <<
-    impl_->console_listener->address().text();
-  
   impl_->console_listener->set_dispatcher([](
     net::connection::Basic *conn, std::shared_ptr<net::packet::Basic> packet){
     auto d = reinterpret_cast<const char *>(packet->data().data());
@@ -360,6 +355,13 @@ bool Kernel::enable_console(std::string_view addr) noexcept {
   impl_->console_listener->set_codec(
     {.encode = net::stream::line_encode, .decode = net::stream::line_decode});
 
+  if (!impl_->console_listener->start()) {
+    impl_->console_listener.reset();
+    return false;
+  }
+  LOG_INFO << "console listen on " <<
+    impl_->console_listener->address().text();
+
   return true;
 }
 
-- 
2.43.0


From 5b7be1e485189dd56615af58d7df9a489b2cc083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:01 +0000
Subject: [PATCH 085/128] fix: killing all networks from the console leaves the
 console

---
 framework/core/src/engine/kernel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/framework/core/src/engine/kernel.cc b/framework/core/src/engine/kernel.cc
index 706fd34..c6da95f 100644
--- a/framework/core/src/engine/kernel.cc
+++ b/framework/core/src/engine/kernel.cc
@@ -137,6 +137,7 @@ std::string Kernel::Impl::console_cmd_kill(
   if (args.empty()) {
     // killall
     for (auto it : nets) {
+      if (it.first == "console") continue; // It can't stop in its own worker.
       auto net = it.second.lock();
       if (net) net->stop();
     }
-- 
2.43.0


From 901c961f50f6a8183b48a5f797cfc63755d52168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:22 +0000
Subject: [PATCH 086/128] fix: a kernel that does not run refuses work

---
 framework/core/include/plain/engine/kernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/engine/kernel.h b/framework/core/include/plain/engine/kernel.h
index 5a7fba6..56aa2a7 100644
--- a/framework/core/include/plain/engine/kernel.h
+++ b/framework/core/include/plain/engine/kernel.h
@@ -123,7 +123,7 @@ class PLAIN_API Kernel {
   }
 
  private:
-  bool running_;
+  bool running_{false};
   std::mutex mutex_;
   std::queue<std::function<void()>> tasks_;
   std::vector<std::thread> thread_workers_;
-- 
2.43.0


From a4168d69197e280193f24972e84f646fff9fbfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 087/128] fix: the status of a thread can be read and changed
 by other threads

---
 framework/core/include/plain/sys/thread.h | 40 ++++++++---------------
 framework/core/src/sys/thread.cc          | 30 +++++++++++++++++
 2 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 22af1d0..522116f 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -99,51 +99,40 @@ inline const std::string get_id(const thread_t &thread) {
   return std::string(ss.str());
 }
 
-//用下面的方法的线程可以启动与停止
-inline const std::string status_key(thread_t &thread) {
-  std::string _status_key{"thread.status."};
-  _status_key += get_id(thread);
-  return _status_key;
-}
+// The status of threads, safe to use from any thread.
+PLAIN_API void set_status(
+  const std::thread::id &id, ThreadStatus status) noexcept;
+// Stop it if it is running.
+PLAIN_API void set_stopped(const std::thread::id &id) noexcept;
+PLAIN_API variable_t get_status(const std::thread::id &id) noexcept;
 
-inline const std::string status_key() {
-  std::string _status_key{"thread.status."};
-  _status_key += get_id();
-  return _status_key;
-}
+//用下面的方法的线程可以启动与停止
 
 template<typename _Callable, typename... _Args>
 inline void start(thread_t &thread, _Callable &&__f, _Args &&...__args) {
   thread = thread_t(
         std::forward<_Callable>(__f), std::forward<_Args>(__args)...);
-  const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(thread.get_id(), ThreadStatus::Running);
 }
 
 inline void start(thread_t &thread) {
-  const std::string _status_key = status_key(thread);
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(thread.get_id(), ThreadStatus::Running);
 }
 
 inline void start() {
-  const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Running;
+  set_status(std::this_thread::get_id(), ThreadStatus::Running);
 }
 
 inline void stop() {
-  const std::string _status_key = status_key();
-  GLOBALS[_status_key] = ThreadStatus::Stopped;
+  set_status(std::this_thread::get_id(), ThreadStatus::Stopped);
 }
 
 inline void stop(thread_t &thread) {
-  const std::string _status_key = status_key(thread);
-  if (GLOBALS[_status_key] == ThreadStatus::Running) 
-    GLOBALS[_status_key] = ThreadStatus::Stopped;
+  set_stopped(thread.get_id());
 }
 
 inline variable_t status(thread_t &thread) {
-  const std::string _status_key = status_key(thread);
-  return GLOBALS[_status_key];
+  return get_status(thread.get_id());
 }
 
 inline bool is_running(thread_t &thread) {
@@ -155,8 +144,7 @@ inline bool is_stopping(thread_t &thread) {
 }
 
 inline variable_t status() {
-  const std::string _status_key = status_key();
-  return GLOBALS[_status_key];
+  return get_status(std::this_thread::get_id());
 }
 
 inline bool is_running() {
diff --git a/framework/core/src/sys/thread.cc b/framework/core/src/sys/thread.cc
index 0002dbd..dbb2c15 100644
--- a/framework/core/src/sys/thread.cc
+++ b/framework/core/src/sys/thread.cc
@@ -35,6 +35,36 @@ void set_name(const std::string_view &name) noexcept {
 #endif
 }
 
+namespace {
+
+std::mutex s_status_mutex;
+
+std::unordered_map<std::thread::id, ThreadStatus> &statuses() noexcept {
+  static std::unordered_map<std::thread::id, ThreadStatus> r;
+  return r;
+}
+
+} // namespace
+
+void set_status(const std::thread::id &id, ThreadStatus status) noexcept {
+  std::unique_lock<std::mutex> lock(s_status_mutex);
+  statuses()[id] = status;
+}
+
+void set_stopped(const std::thread::id &id) noexcept {
+  std::unique_lock<std::mutex> lock(s_status_mutex);
+  auto it = statuses().find(id);
+  if (it != statuses().end() && it->second == ThreadStatus::Running)
+    it->second = ThreadStatus::Stopped;
+}
+
+variable_t get_status(const std::thread::id &id) noexcept {
+  std::unique_lock<std::mutex> lock(s_status_mutex);
+  auto it = statuses().find(id);
+  if (it == statuses().end()) return {};
+  return it->second;
+}
+
 std::uintptr_t get_current_virtual_id() noexcept {
   return detail::s_tl_thread_per_data.id;
 }
-- 
2.43.0


From a25371acf7a1feca480856cf443899ffdd2f8f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 088/128] fix: a created thread can run its function more than
 once

---
 framework/core/include/plain/sys/thread.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 522116f..1c7ce6e 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -178,9 +178,10 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
     set_name(name);
     start();
     ThreadCollect tc;
-    std::future<return_type> task_res = task->get_future();
     for (;;) {
       if (is_stopping()) break;
+      // A future can be got just once, so need a new one for each call.
+      std::future<return_type> task_res = task->get_future();
       (*task)(); 
       (*task).reset(); //Remeber it, the packaged_task reset then can call again.
       using is_bool_result = std::is_same<bool, return_type>;
-- 
2.43.0


From b80a9ee80f4f67f81575d681ec158dc2e0021427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:03 +0000
Subject: [PATCH 089/128] fix: a created thread owns its name, and can be
 stopped at once

---
 framework/core/include/plain/sys/thread.h | 10 +++++++---
 framework/core/src/sys/thread.cc          |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/framework/core/include/plain/sys/thread.h b/framework/core/include/plain/sys/thread.h
index 1c7ce6e..4c976a5 100644
--- a/framework/core/include/plain/sys/thread.h
+++ b/framework/core/include/plain/sys/thread.h
@@ -15,6 +15,7 @@
 #include "plain/sys/config.h"
 #include <thread>
 #include <atomic>
+#include <latch>
 #include "plain/basic/io.h"
 #include "plain/basic/logger.h"
 #include "plain/basic/global.h"
@@ -174,9 +175,11 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
   auto task = std::make_shared< std::packaged_task<return_type()> >(
     std::bind(std::forward<F>(f), std::forward<Args>(args)...)
   );
-  auto r = thread_t([task, name](){ 
+  std::latch started{1};
+  auto r = thread_t([task, name = std::string{name}, &started](){ 
     set_name(name);
     start();
+    started.count_down(); // Not use it after this.
     ThreadCollect tc;
     for (;;) {
       if (is_stopping()) break;
@@ -190,14 +193,15 @@ thread_t create(const std::string_view &name, F &&f, Args &&... args) {
 
     if (true == GLOBALS["app.debug"]) {
       auto id_str = get_id();
-      LOG_DEBUG << name.data() << " stopping with " << id_str;
+      LOG_DEBUG << name << " stopping with " << id_str;
     }
   });
+  started.wait(); // Otherwise a stop before the start will be lost.
 
   if (true == GLOBALS["app.debug"]) {
     std::stringstream id_str;
     id_str << r.get_id();
-    LOG_DEBUG << name.data() << " starting with " << id_str.str();
+    LOG_DEBUG << std::string{name} << " starting with " << id_str.str();
   }
   return r;
 }
diff --git a/framework/core/src/sys/thread.cc b/framework/core/src/sys/thread.cc
index dbb2c15..61daffc 100644
--- a/framework/core/src/sys/thread.cc
+++ b/framework/core/src/sys/thread.cc
@@ -29,9 +29,9 @@ void set_name(const std::string_view &name) noexcept {
   const std::wstring utf16_name(name.begin(), name.end());
   ::SetThreadDescription(::GetCurrentThread(), utf16_name.data());
 #elif OS_UNIX
-  ::pthread_setname_np(::pthread_self(), name.data());
+  ::pthread_setname_np(::pthread_self(), std::string{name}.c_str());
 #elif OS_MAC
-  ::pthread_setname_np(name.data());
+  ::pthread_setname_np(std::string{name}.c_str());
 #endif
 }
 
-- 
2.43.0


From 24705880e48442f563ed689c5739ed9695a5e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 090/128] fix: the log file is rolled once a day, and flushed
 in between

---
 framework/core/src/basic/async_logger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 0e34b14..5b41990 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -93,7 +93,7 @@ void File::append_unlocked(const std::string_view &log) {
       count_ = 0;
       auto now = Time::timestamp();
       time_t this_period = now / kRollPerSeconds_ * kRollPerSeconds_;
-      if (this_period) {
+      if (this_period != start_of_period_) {
         roll();
       } else if (now - last_flush_ > flush_interval_) {
         last_flush_ = now;
-- 
2.43.0


From 835079420b573d362c4b8e40e05092363caf7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 091/128] fix: an async logger writes all messages before it
 stops, and can be stopped again

---
 framework/core/src/basic/async_logger.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 5b41990..a904456 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -172,9 +172,12 @@ void AsyncLogger::Impl::start() {
 }
 
 void AsyncLogger::Impl::stop() {
-  running_ = false;
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    running_ = false;
+  }
   cond_.notify_one();
-  thread_.join();
+  if (thread_.joinable()) thread_.join();
 }
 
 void AsyncLogger::Impl::append(const std::string_view &log) {
@@ -205,7 +208,7 @@ void AsyncLogger::Impl::thread_handle() {
     assert(buffer2 && 0 == buffer2->read_avail());
     {
       std::unique_lock<std::mutex> auto_lock{mutex_};
-      if (buffers_.empty()) {
+      if (buffers_.empty() && running_) {
         cond_.wait_for(auto_lock, flush_interval_ * 1000ms);
       }
       buffers_.emplace_back(std::move(current_buffer_));
@@ -246,6 +249,15 @@ void AsyncLogger::Impl::thread_handle() {
     write_buffers.clear();
     file.flush();
   }
+  // The messages appended after the last turn.
+  {
+    std::unique_lock<std::mutex> auto_lock{mutex_};
+    for (const auto& buf : buffers_)
+      file.append({buf->peek(), buf->read_avail()});
+    buffers_.clear();
+    file.append({current_buffer_->peek(), current_buffer_->read_avail()});
+    current_buffer_->producer_clear();
+  }
   // Thread end flush.
   file.flush();
 }
-- 
2.43.0


From 24557b1e61018ed9ce754408277778f708428d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 092/128] fix: an async logger keeps messages larger than its
 buffer

---
 framework/core/src/basic/async_logger.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index a904456..c6e5254 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -191,7 +191,15 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
     } else {
       current_buffer_.reset(new Buffer);
     }
-    current_buffer_->write(log.data(), log.size());
+    // A log can be larger than a buffer.
+    auto remain = log;
+    for (;;) {
+      remain.remove_prefix(
+        current_buffer_->write(remain.data(), remain.size()));
+      if (remain.empty()) break;
+      buffers_.push_back(std::move(current_buffer_));
+      current_buffer_ = std::make_unique<Buffer>();
+    }
     cond_.notify_one();
   }
 }
-- 
2.43.0


From a94d66d7a1f8798ffcadbf8db03a3b91fc563f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 093/128] fix: log directories are made also without
 assertions, names need no terminator

---
 framework/core/src/basic/async_logger.cc | 5 +++--
 framework/core/src/basic/global.cc       | 3 ++-
 framework/core/src/file/utility.cc       | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index c6e5254..4b92bea 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -272,10 +272,11 @@ void AsyncLogger::Impl::thread_handle() {
 
 AsyncLogger::AsyncLogger(
   std::string_view name, std::size_t roll_size, int32_t flush_interval)
-  : impl_{std::make_unique<Impl>(name.data(), roll_size, flush_interval)} {
+  : impl_{std::make_unique<Impl>(std::string{name}, roll_size, flush_interval)} {
   auto log_directory = GLOBALS["log.directory"].get<std::string>();
   if (!std::filesystem::exists(log_directory)) {
-    assert(std::filesystem::create_directory(log_directory));
+    [[maybe_unused]] auto r = std::filesystem::create_directory(log_directory);
+    assert(r);
   }
 }
 
diff --git a/framework/core/src/basic/global.cc b/framework/core/src/basic/global.cc
index 6d91902..e9bb90b 100644
--- a/framework/core/src/basic/global.cc
+++ b/framework/core/src/basic/global.cc
@@ -39,7 +39,8 @@ void InitGlobal::init() {
   // Logs settings.
   SET("log.print", false);
   auto log_directory = path + "/log";
-  assert(makedir(log_directory.c_str()));
+  [[maybe_unused]] auto r = makedir(log_directory.c_str());
+  assert(r);
   SET("log.directory", log_directory);
 }
 
diff --git a/framework/core/src/file/utility.cc b/framework/core/src/file/utility.cc
index 55935e2..08f3410 100644
--- a/framework/core/src/file/utility.cc
+++ b/framework/core/src/file/utility.cc
@@ -5,7 +5,7 @@
 using namespace plain;
 
 FileAppend::FileAppend(const std::string_view &filename)
-  : fp_{fopen(filename.data(), "a+")}, buffer_{0}, written_bytes_{0} {
+  : fp_{fopen(std::string{filename}.c_str(), "a+")}, buffer_{0}, written_bytes_{0} {
   assert(fp_);
 #if OS_UNIX || OS_MAC
   ::setbuffer(fp_, buffer_, sizeof buffer_);
-- 
2.43.0


From ef58506289bd7f704c9922623f8b58fbaa446394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 094/128] fix: a printed log is not used as a format, and ends
 at its end

---
 framework/core/src/basic/logger.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 647cd2e..13bbb30 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -112,17 +112,17 @@ void Logger::Impl::format_time() {
   buffer_.write(" ", 1);
 }
 
-void print_log(LogLevel level, const char *str) {
+void print_log(LogLevel level, const std::string_view &str) {
   switch (level) {
     case LogLevel::Fatal:
     case LogLevel::Error:
-      io_cerr(str);
+      io_cerr("{}", str); // The log is not a format.
       break;
     case LogLevel::Warn:
-      io_cwarn(str);
+      io_cwarn("{}", str);
       break;
     case LogLevel::Debug:
-      io_cdebug(str);
+      io_cdebug("{}", str);
       break;
     default:
       std::cout << str << std::endl;
@@ -139,7 +139,7 @@ void Logger::Impl::finish() {
     buffer_.write(line, ptr - line);
   }
   if (true == GLOBALS["log.print"]) {
-    print_log(level_, buffer_.peek());
+    print_log(level_, {buffer_.peek(), buffer_.read_avail()});
   }
   buffer_.write("\n", 1);
 }
-- 
2.43.0


From c08cf3b8b10d4b56f2c51fe2a7ff16b474cb6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:48 +0000
Subject: [PATCH 095/128] fix: a truncated log still ends its line

---
 framework/core/src/basic/logger.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/basic/logger.cc b/framework/core/src/basic/logger.cc
index 13bbb30..1fbade9 100644
--- a/framework/core/src/basic/logger.cc
+++ b/framework/core/src/basic/logger.cc
@@ -168,8 +168,11 @@ Logger::Logger(const std::string_view &trace,
 Logger::~Logger() {
   impl_->finish();
   auto size = impl_->buffer_.read_avail();
-  if (size > 0)
-    output_func_({impl_->buffer_.peek(), size});
+  if (size > 0) {
+    std::string log{impl_->buffer_.peek(), size};
+    log.back() = '\n'; // Also if it is truncated.
+    output_func_(log);
+  }
   if (impl_->level_ == LogLevel::Fatal) {
     flush_func_();
     std::abort();
-- 
2.43.0


From 6c9f0a2b8cb0b01f0aedb6628c729876ca1d5de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:12 +0000
Subject: [PATCH 096/128] fix: formatting the time is safe in threads

---
 framework/core/src/basic/time.cc | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/framework/core/src/basic/time.cc b/framework/core/src/basic/time.cc
index d797f9a..860b8e0 100644
--- a/framework/core/src/basic/time.cc
+++ b/framework/core/src/basic/time.cc
@@ -4,6 +4,21 @@
 
 using namespace plain;
 
+namespace {
+
+// Safe in threads, std::localtime shares its result between them.
+std::tm local_time(time_t timestamp) {
+  std::tm r{};
+#if OS_WIN
+  ::localtime_s(&r, &timestamp);
+#else
+  ::localtime_r(&timestamp, &r);
+#endif
+  return r;
+}
+
+} // namespace
+
 Time::Time() :
   s_time_{std::chrono::steady_clock::now()} {
   // do nothing
@@ -27,15 +42,16 @@ uint64_t Time::tickcount() const noexcept {
 
 std::string Time::format() {
   auto now = std::chrono::system_clock::now();
-  auto tm = std::chrono::system_clock::to_time_t(now);
+  auto tm = local_time(std::chrono::system_clock::to_time_t(now));
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   return os.str();
 }
 
 std::string Time::format(time_t timestamp) {
+  auto tm = local_time(timestamp);
   std::ostringstream os;
-  os << std::put_time(std::localtime(&timestamp), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   return os.str();
 }
 
@@ -43,9 +59,9 @@ std::string Time::format(bool show_microseconds) {
   auto now = std::chrono::system_clock::now();
   auto now_ms = std::chrono::time_point_cast<std::chrono::milliseconds>(now);
   auto value = now_ms.time_since_epoch();
-  auto tm = std::chrono::system_clock::to_time_t(now);
+  auto tm = local_time(std::chrono::system_clock::to_time_t(now));
   std::ostringstream os;
-  os << std::put_time(std::localtime(&tm), "%FT%T");
+  os << std::put_time(&tm, "%FT%T");
   if (show_microseconds) {
     os << "." << std::setfill('0') << std::setw(3);
     os << (value % 1000);
-- 
2.43.0


From b0581f9b7fc7d359c7e7a5a6138ae8bac32b80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:10 +0000
Subject: [PATCH 097/128] fix: an async logger can be stopped just after it
 started

---
 framework/core/src/basic/async_logger.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/framework/core/src/basic/async_logger.cc b/framework/core/src/basic/async_logger.cc
index 4b92bea..89f3084 100644
--- a/framework/core/src/basic/async_logger.cc
+++ b/framework/core/src/basic/async_logger.cc
@@ -205,7 +205,6 @@ void AsyncLogger::Impl::append(const std::string_view &log) {
 }
 
 void AsyncLogger::Impl::thread_handle() {
-  assert(true == running_);
   File file(name_, roll_size_, false);
   BufferPtr buffer1{std::make_unique<Buffer>()};
   BufferPtr buffer2{std::make_unique<Buffer>()};
-- 
2.43.0


From 512423e085af5eb546ad03687d11da4395daf3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 098/128] fix: an ini file can be opened again

---
 framework/core/src/file/ini.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c92fec6..c3c0e1e 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -27,6 +27,7 @@ Ini::~Ini() {
 }
 
 bool Ini::open(const char *filename) noexcept {
+  close();
   buffer_ = new char[INI_VALUE_MAX];
   bufferlength_max_ += INI_VALUE_MAX; 
   strncpy(filename_, filename, FILENAME_MAX - 1);
@@ -64,7 +65,8 @@ bool Ini::open(const char *filename) noexcept {
 }
 
 void Ini::close() noexcept {
-  if (fstream_) fstream_.close();
+  if (fstream_.is_open()) fstream_.close();
+  fstream_.clear();
   safe_delete_array(buffer_);
   sectionset_t::iterator iter = sectiondata_.begin();
   for (; iter != sectiondata_.end(); iter++) {
@@ -72,6 +74,7 @@ void Ini::close() noexcept {
     safe_delete(_section);
   }
   sectiondata_.clear();
+  current_section_ = nullptr;
   bufferlength_ = 0;
   bufferlength_max_ = 0;
   memset(filename_, 0, FILENAME_MAX);
-- 
2.43.0


From c7b9894a4346cd42357785772bae257f66dbede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 099/128] fix: ini sections can be continued, keys without
 section are ignored

---
 framework/core/src/file/ini.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index c3c0e1e..6c132f3 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -43,9 +43,9 @@ bool Ini::open(const char *filename) noexcept {
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
-      current_section_ = new valueset_t;
-      sectiondata_.insert(
-          std::make_pair(std::string(section), current_section_));
+      auto &data = sectiondata_[section];
+      if (data == nullptr) data = new valueset_t;
+      current_section_ = data;
       continue;
     }
     char *key = nullptr, *value = nullptr;
@@ -55,6 +55,7 @@ bool Ini::open(const char *filename) noexcept {
         snprintf(
           msg, 128, "[file] format invalid! file: %s, key: %s", filename, key);
         AssertEx(false, msg);
+        continue;
       }
       int position = _add_bufferstring(value);
       current_section_->insert(std::make_pair(std::string(key), position));
-- 
2.43.0


From b718ca9cc7ed3560c942ac4b6e8d5f2b3f904f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 100/128] fix: ini files with long lines or many values are
 read correctly

---
 framework/core/src/file/ini.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 6c132f3..d119738 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -38,8 +38,9 @@ bool Ini::open(const char *filename) noexcept {
     AssertEx(false, msg);
     return false;
   }
-  char buffer[512] = {0};
-  while (fstream_.getline(buffer, 512)) {
+  std::string line;
+  while (std::getline(fstream_, line)) {
+    char *buffer = line.data();
     _trimstring(buffer);
     char *section;
     if(_parsesection(buffer, &section)) {
@@ -222,9 +223,9 @@ void Ini::_trimstring(char *buffer) {
       break;
     }
   }
-  for (i = strlen(buffer) - 1; i > 0; --i) {
-    if (' '== buffer[i] || '\t' == buffer[i]) {
-      buffer[i] = 0;
+  for (i = strlen(buffer); i > 1; --i) {
+    if (' '== buffer[i - 1] || '\t' == buffer[i - 1]) {
+      buffer[i - 1] = 0;
     } else {
       break;
     }
@@ -255,8 +256,10 @@ bool Ini::_parsekey(char *buffer, char **key, char **value) {
 
 void Ini::_buffer_resize() {
   bufferlength_max_ *= 2;
-  buffer_ = (char*)realloc(buffer_, bufferlength_max_);
-  if (is_null(buffer_)) Assert(false);
+  char *buffer = new char[bufferlength_max_];
+  memcpy(buffer, buffer_, bufferlength_);
+  safe_delete_array(buffer_);
+  buffer_ = buffer;
 }
 
 char *Ini::get_bufferstring(int32_t position) {
@@ -267,7 +270,7 @@ char *Ini::get_bufferstring(int32_t position) {
 int32_t Ini::_add_bufferstring(char *str) {
   int32_t position = 0;
   size_t size = strlen(str);
-  if (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_) 
+  while (bufferlength_ + static_cast<int32_t>(size + 1) >= bufferlength_max_)
     _buffer_resize();
   memcpy(buffer_ + bufferlength_, str, size + 1);
   position = bufferlength_;
-- 
2.43.0


From 8b4fc669b6af2aa2670deeaaff6c4648b8b4bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 101/128] fix: reading an ini string keeps the given size

---
 framework/core/src/file/ini.cc | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index d119738..9f38b48 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -122,11 +122,7 @@ bool Ini::getstring(
   const char *section, const char *key, char *str, int32_t size,
   const char *_default) {
   if (_getstring(section, key, str, size)) return true;
-  strncpy(str, _default, size);
-  int32_t _size = 
-    static_cast<int32_t>(strlen(_default)) > size - 1 ? size - 1 : 
-    static_cast<int32_t>(strlen(_default));
-  str[_size] = 0;
+  safecopy(str, _default, size);
   char msg[5120] = {0};
   snprintf(
     msg, sizeof(msg) - 1, "[ini] invalid key! file: %s, section: %s, key: %s", 
@@ -199,11 +195,7 @@ bool Ini::_getstring(
     if (it2 == _section->end()) return false;
     int position = it2->second;
     char *value = get_bufferstring(position);
-    size_t valuelength = strlen(value);
-    safecopy(str, value, valuelength + 1);
-    size_t _size = 
-      valuelength > static_cast<size_t>(size - 1) ? size - 1 : valuelength;
-    str[_size] = 0;
+    safecopy(str, value, size);
     return true;
   }
   return false;
@@ -263,7 +255,7 @@ void Ini::_buffer_resize() {
 }
 
 char *Ini::get_bufferstring(int32_t position) {
-  if (position >= bufferlength_) return nullptr;
+  if (position < 0 || position >= bufferlength_) return nullptr;
   return buffer_ + position;
 }
 
-- 
2.43.0


From f87226eb82b59c9dfaaa43718be7d672b34c9507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:13 +0000
Subject: [PATCH 102/128] fix: ini values can be read with the template

---
 framework/core/include/plain/file/ini.h |  7 +++----
 framework/core/src/file/ini.cc          | 10 ++++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/framework/core/include/plain/file/ini.h b/framework/core/include/plain/file/ini.h
index 4fcad71..ad75a7e 100644
--- a/framework/core/include/plain/file/ini.h
+++ b/framework/core/include/plain/file/ini.h
@@ -53,7 +53,8 @@ class PLAIN_API Ini {
   T get(
     std::string_view section, std::string_view key, T _default = {}) noexcept {
     T r{};
-    if (!_get<T>(section.data(), key.data(), r)) return _default;
+    if (!_get(std::string(section).c_str(), std::string(key).c_str(), r))
+      return _default;
     return r;
   }
 
@@ -72,9 +73,7 @@ class PLAIN_API Ini {
   bool _get(const char *section, const char *key, int32_t &result);
   bool _get(const char *section, const char *key, float &result);
   bool _get(
-    const char *section, const char *key, std::string &result) noexcept {
-    return _getstring(section, key, result.data(), result.capacity() - 1);
-  }
+    const char *section, const char *key, std::string &result) noexcept;
   bool _getstring(
     const char *section, const char *key, char *str, int32_t size) noexcept;
   void _trimstring(char *buffer);
diff --git a/framework/core/src/file/ini.cc b/framework/core/src/file/ini.cc
index 9f38b48..8c46d4e 100644
--- a/framework/core/src/file/ini.cc
+++ b/framework/core/src/file/ini.cc
@@ -181,6 +181,16 @@ bool Ini::_get(const char *section, const char *key, float &result) {
   return false;
 }
  
+bool Ini::_get(
+  const char *section, const char *key, std::string &result) noexcept {
+  sectionset_t::iterator it = sectiondata_.find(section);
+  if (it == sectiondata_.end()) return false;
+  valueset_t::iterator it2 = it->second->find(std::string(key));
+  if (it2 == it->second->end()) return false;
+  result = get_bufferstring(it2->second);
+  return true;
+}
+
 const char *Ini::getstring(int32_t position) noexcept {
   return get_bufferstring(position);
 }
-- 
2.43.0


From a60a0a862bcdfc297c40b98182a82a671426e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:59 +0000
Subject: [PATCH 103/128] fix: a long assert message keeps in its buffer

---
 framework/core/src/sys/assert.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/sys/assert.cc b/framework/core/src/sys/assert.cc
index 6d61a96..f76879d 100644
--- a/framework/core/src/sys/assert.cc
+++ b/framework/core/src/sys/assert.cc
@@ -29,9 +29,9 @@ void __assert__(
   const char *file, unsigned int line, const char *func, const char *expr) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC //换个格式
-  sprintf(temp, "[%s][%d][%s][%s]\n", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n", file, line, func, expr);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]", file, line, func, expr);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]", file, line, func, expr);
 #endif
   __show__(temp);
 }
@@ -41,9 +41,9 @@ void __assertex__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg);
 #else
-  sprintf(temp, "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
+  snprintf(temp, sizeof(temp), "[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg);
 #endif
   __show__(temp);
 }
@@ -53,9 +53,9 @@ void __assertspecial__(
   const char *msg) {
   char temp[1024] = {0};
 #if OS_UNIX || OS_MAC
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]\n", file, line, func, expr, msg) ;
 #else
-  sprintf(temp, "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
+  snprintf(temp, sizeof(temp), "S[%s][%d][%s][%s]\n[%s]", file, line, func, expr, msg ) ;
 #endif
   __show__(temp) ;
 }
-- 
2.43.0


From c87665f4e54a165c55b9aad94adbd4b2f6c84447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 104/128] fix: positions outside of a table are not found

---
 framework/core/src/file/tab.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 91ff2c1..227f4a9 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -59,7 +59,9 @@ const Tab::field_data* Tab::search_index_equal(int32_t index) const {
 
 const char *Tab::get_fieldname(int32_t index) {
   const char *name = nullptr;
-  Assert(index >= 0 && index <= field_number_);
+  Assert(index >= 0 && index < static_cast<int32_t>(fieldnames_.size()));
+  if (index < 0 || index >= static_cast<int32_t>(fieldnames_.size()))
+    return name;
   name = fieldnames_[index].c_str();
   return name;
 }
@@ -77,24 +79,27 @@ int32_t Tab::get_fieldindex(const char *name) {
 }
 
 uint8_t Tab::get_fieldtype(int32_t index) {
-  Assert(index >= 0 && index <= field_number_);
+  Assert(index >= 0 && index < field_number_);
+  if (index < 0 || index >= field_number_) return UINT8_MAX;
   uint8_t result = static_cast<uint8_t>(type_[index]);
   return result;
 }
 
 const Tab::field_data *
 Tab::search_position(int32_t line, int32_t column) const {
-  int32_t position = line * get_field_number() + column;
-  if (line < 0 || position > static_cast<int32_t>(data_buffer_.size())) {
+  int64_t position =
+    static_cast<int64_t>(line) * get_field_number() + column;
+  if (line < 0 || line >= record_number_ ||
+      column < 0 || column >= field_number_) {
     char temp[256];
     memset(temp, '\0', sizeof(temp));
     snprintf(temp, 
              sizeof(temp) - 1, 
              "plain_file::Tab::search_position is failed,"
-             " position out for range[line:%d, column:%d] position:%d",
+             " position out for range[line:%d, column:%d] position:%lld",
              line,
              column,
-             position);
+             static_cast<long long>(position));
 #ifdef _PLAIN_THROW_EXCEPTION_AS_STD_STRING
     throw std::string(temp);
 #else
@@ -107,7 +112,7 @@ Tab::search_position(int32_t line, int32_t column) const {
 
 const Tab::field_data *
 Tab::search_first_column_equal(int32_t column, const field_data &value) const {
-  if (column < 0 || column > field_number_) return nullptr;
+  if (column < 0 || column >= field_number_) return nullptr;
   field_type_enum type = type_[column];
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
-- 
2.43.0


From 588a757af522d623b7ee6d6c92c1cd5a67da801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 105/128] fix: a table is indexed by the given column

---
 framework/core/src/file/tab.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 227f4a9..479fc84 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -146,25 +146,28 @@ int32_t Tab::get_record_number() const {
 }
 
 void Tab::create_index(int32_t column, const char *filename) {
-  if (column < 0 || column > field_number_ || index_column_ == column) return;
+  if (column < 0 || column >= field_number_ || index_column_ == column) return;
   hash_index_.clear();
+  index_column_ = column;
+  if (type_[column] != kTypeInt) return;
   int32_t i;
   for (i = 0; i < record_number_; ++i) {
     field_data* _field_data = &(data_buffer_[i * field_number_]);
-    field_hashmap::iterator it_find = hash_index_.find(_field_data->int_value);
+    int32_t key = data_buffer_[i * field_number_ + column].int_value;
+    field_hashmap::iterator it_find = hash_index_.find(key);
     if (it_find != hash_index_.end()) {
       char temp[256];
       memset(temp, '\0', sizeof(temp));
       snprintf(
         temp, sizeof(temp) - 1, "[%s]multi index at line: %d(smae value: %d)", 
-        filename, i + 1, _field_data->int_value);
+        filename ? filename : "", i + 1, key);
 #ifdef _plain_THROW_EXCEPTION_AS_STD_STRING
       throw std::string(temp);
 #else
       AssertEx(false, temp);
 #endif
     }
-    hash_index_.insert(std::make_pair(_field_data->int_value, _field_data));
+    hash_index_.insert(std::make_pair(key, _field_data));
   }
 }
 
-- 
2.43.0


From bae1ae7885828af05c80d359658ec50e86a8de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 106/128] fix: a table can be opened again

---
 framework/core/src/file/tab.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 479fc84..6fea79e 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -42,6 +42,18 @@ bool Tab::open_from_txt(const char *filename) {
 bool Tab::open_from_memory(
   const char *memory, const char *end, const char *filename) {
   bool result = true;
+  if (!is_null(string_buffer_)) {
+    delete[] string_buffer_;
+    string_buffer_ = nullptr;
+  }
+  string_buffer_size_ = 0;
+  record_number_ = 0;
+  field_number_ = 0;
+  type_.clear();
+  data_buffer_.clear();
+  fieldnames_.clear();
+  hash_index_.clear();
+  index_column_ = INDEX_INVALID;
   if (end - memory >= static_cast<int32_t>(sizeof(file_head_t)) && 
       *((uint32_t*)memory) == FILE_DATABASE_INDENTIFY) {
     result = open_from_memory_binary(memory, end, filename);
-- 
2.43.0


From fa5cc4b24fd3c40b4c31bfb10efdbedd0d734568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 107/128] fix: tables with more than 65535 records can be
 opened

---
 framework/core/src/file/tab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 6fea79e..29f5f33 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -343,7 +343,7 @@ bool Tab::open_from_memory_text(
   }
 
   //relocate string block
-  uint16_t m, n;
+  int32_t m, n;
   for (m = 0; m < field_number; ++m) {
     if (type_[m] != kTypeString) continue;
     for (n = 0; n < record_number; ++n) {
-- 
2.43.0


From fd2269d1a5731879a63303e91204da6bcf5f0c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 108/128] fix: a table saved as binary can be opened again,
 damaged files are refused

---
 framework/core/src/file/tab.cc | 92 ++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 37 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 29f5f33..66d07ff 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -362,66 +362,77 @@ bool Tab::open_from_memory_binary(
   memcpy(&file_head, _memory, sizeof(file_head_t));
   if (file_head.identify != FILE_DATABASE_INDENTIFY) return false;
   //check memory size
-  if (sizeof(file_head) +
-      sizeof(uint32_t) * file_head.field_number +
-      sizeof(field_data) * file_head.record_number * file_head.field_number +
-      + file_head.string_block_size > static_cast<uint64_t>(end - memory)) {
+  const auto size = static_cast<uint64_t>(end - memory);
+  if (file_head.field_number <= 0 || file_head.record_number < 0 ||
+      file_head.string_block_size <= 0) {
+    return false;
+  }
+  const uint64_t fields =
+    static_cast<uint64_t>(file_head.record_number) * file_head.field_number;
+  if (fields > size ||
+      sizeof(file_head) +
+      sizeof(uint32_t) * static_cast<uint64_t>(file_head.field_number) +
+      sizeof(field_data) * fields +
+      static_cast<uint64_t>(file_head.string_block_size) > size) {
     return false;
   }
   _memory += sizeof(file_head);
   
-  //init 
-  record_number_ = file_head.record_number;
-  field_number_ = file_head.field_number;
-  string_buffer_size_= file_head.string_block_size;
-  
-  //create string blok
-  string_buffer_ = new char[string_buffer_size_];
-  if (!string_buffer_) return false;
+  const auto field_number = file_head.field_number;
+  const auto record_number = file_head.record_number;
   std::vector<uint32_t> field_types;
-  field_types.resize(field_number_);
-  memcpy(&(field_types[0]), _memory, sizeof(uint32_t) * field_number_);
+  field_types.resize(field_number);
+  memcpy(field_types.data(), _memory, sizeof(uint32_t) * field_number);
+  _memory += sizeof(uint32_t) * field_number;
 
   //check it
-  type_.resize(field_number_);
+  field_type types;
+  types.resize(field_number);
   int32_t i;
-  for (i = 0; i < field_number_; ++i) {
+  for (i = 0; i < field_number; ++i) {
     switch(field_types[i]) {
       case kTypeInt:
       case kTypeFloat:
       case kTypeString: {
-        type_[i] = static_cast<field_type_enum>(field_types[i]);
+        types[i] = static_cast<field_type_enum>(field_types[i]);
         break;
       }
       default: {
-        if (!is_null(string_buffer_)) {
-          delete[] string_buffer_;
-          string_buffer_ = nullptr;
-        }
         return false;
       }
     }
   }
 
   //read all field
-  data_buffer_.resize(field_number_ * record_number_);
-  memcpy(
-    &(data_buffer_[0]), _memory, 
-    sizeof(field_data) * field_number_ * record_number_);
-  _memory += sizeof(field_data) * field_number_ * record_number_;
-  memcpy(string_buffer_, _memory, string_buffer_size_);
-  string_buffer_[string_buffer_size_ - 1] = '\0';
+  data_buffer buffer;
+  buffer.resize(fields);
+  if (fields > 0) memcpy(buffer.data(), _memory, sizeof(field_data) * fields);
+  _memory += sizeof(field_data) * fields;
+  std::unique_ptr<char[]> strings{new char[file_head.string_block_size]};
+  memcpy(strings.get(), _memory, file_head.string_block_size);
+  strings[file_head.string_block_size - 1] = '\0';
 
   //runtime address
-  for (i = 0; i < field_number_; ++i) {
-    if (field_types[i] != kTypeString) continue;
-    std::string str;
+  for (i = 0; i < field_number; ++i) {
+    if (types[i] != kTypeString) continue;
     int32_t j;
-    for (j = 0; j < record_number_; ++j) {
-      data_buffer_[i + field_number_ + j].string_value += 
-        reinterpret_cast<uint64_t>(string_buffer_); 
+    for (j = 0; j < record_number; ++j) {
+      auto &field = buffer[static_cast<uint64_t>(j) * field_number + i];
+      uint64_t offset{0};
+      memcpy(&offset, &field, sizeof(field_data));
+      if (offset >= static_cast<uint64_t>(file_head.string_block_size))
+        return false;
+      field.string_value = strings.get() + offset;
     }
   }
+
+  //init
+  record_number_ = record_number;
+  field_number_ = field_number;
+  string_buffer_size_ = file_head.string_block_size;
+  string_buffer_ = strings.release();
+  type_ = types;
+  data_buffer_ = std::move(buffer);
   create_index(0, filename);
   return true;
 }
@@ -434,10 +445,17 @@ bool Tab::save_tobinary(const char *filename) {
     FILE *fp = fopen(filename, "wb");
     if (nullptr == fp) return false;
     fwrite(&filehead, sizeof(filehead), 1, fp);
-    fwrite(&(type_[0]), sizeof(field_type_enum) *filehead.field_number, 1, fp);
     fwrite(
-      &(data_buffer_[0]), filehead.field_number * filehead.record_number, 
-      1, fp);
+      type_.data(), sizeof(field_type_enum) * filehead.field_number, 1, fp);
+    for (int32_t i = 0; i < static_cast<int32_t>(data_buffer_.size()); ++i) {
+      uint64_t value{0};
+      if (type_[i % field_number_] == kTypeString) {
+        value = data_buffer_[i].string_value - string_buffer_; //the offset
+      } else {
+        memcpy(&value, &data_buffer_[i], sizeof(int32_t));
+      }
+      fwrite(&value, sizeof(field_data), 1, fp);
+    }
     fwrite(string_buffer_, filehead.string_block_size, 1, fp);
     fclose(fp);
     return true;
-- 
2.43.0


From 15a3f3e84042fe862a18d43a7cf551de0fef3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:58 +0000
Subject: [PATCH 109/128] fix: field names are written to text files as they
 are

---
 framework/core/src/file/tab.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/file/tab.cc b/framework/core/src/file/tab.cc
index 66d07ff..986b1b3 100644
--- a/framework/core/src/file/tab.cc
+++ b/framework/core/src/file/tab.cc
@@ -487,9 +487,7 @@ bool Tab::save_totext(const char *filename) {
   }
 
   for(int i=0; i<static_cast<int>(fieldnames_.size()); ++i){
-    char temp[64] = {0};
-    snprintf(temp, sizeof(temp) - 1, fieldnames_[i].c_str());
-    fwrite(temp, strlen(temp), 1, fp); 
+    fwrite(fieldnames_[i].c_str(), fieldnames_[i].size(), 1, fp);
     if(i == static_cast<int>(fieldnames_.size()-1)){
       fwrite("\n", 1, 1, fp);
     } else{
-- 
2.43.0


From 1a4b572278ba92c95b29045f671d6c10524c3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 110/128] fix: script environment ids are never shared by two
 living environments

---
 framework/core/include/plain/script/factory.h | 18 ++++++++----
 framework/core/src/script/factory.cc          | 28 +++++++++----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/framework/core/include/plain/script/factory.h b/framework/core/include/plain/script/factory.h
index 0222935..1349f92 100644
--- a/framework/core/include/plain/script/factory.h
+++ b/framework/core/include/plain/script/factory.h
@@ -13,6 +13,9 @@
 #define PLAIN_SCRIPT_FACTORY_H_
 
 #include "plain/script/config.h"
+#include "plain/script/interface.h"
+#include <memory>
+#include <mutex>
 #include <unordered_map>
 
 namespace plain::script {
@@ -27,17 +30,22 @@ class PLAIN_API Factory {
    eid_t newenv(const config_t &config);
    eid_t newenv(Interface *env);
    Interface *getenv(eid_t eid) {
-     if (envs_[eid]) return envs_[eid].get();
-     return nullptr;
+     std::unique_lock<std::mutex> autolock(mutex_);
+     auto it = envs_.find(eid);
+     return it == envs_.end() ? nullptr : it->second.get();
    }
    void closeenv(eid_t eid) {
+     std::unique_ptr<Interface> env; // Destroyed after the unlock.
+     std::unique_lock<std::mutex> autolock(mutex_);
      auto it = envs_.find(eid);
-     if (it != envs_.end()) envs_.erase(it);
-     last_del_eid_ = eid; 
+     if (it == envs_.end()) return;
+     env = std::move(it->second);
+     envs_.erase(it);
+     last_del_eid_ = eid;
    }
 
  private:
-   eid_t neweid();
+   eid_t neweid(); // Call it with the mutex locked.
 
  private:
    std::unordered_map<eid_t, std::unique_ptr<Interface>> envs_;
diff --git a/framework/core/src/script/factory.cc b/framework/core/src/script/factory.cc
index e76d34b..50afe65 100644
--- a/framework/core/src/script/factory.cc
+++ b/framework/core/src/script/factory.cc
@@ -1,37 +1,37 @@
 #include "plain/script/factory.h"
 #include "plain/script/interface.h"
+#include <limits>
 
 using namespace plain::script;
 
 eid_t Factory::newenv(const config_t &config) {
-  eid_t eid = neweid();
-  if (SCRIPT_EID_INVALID == eid) return eid;
   auto func_envcreator = get_env_creator_script(config.type);
-  if (is_null(func_envcreator)) {
-    last_del_eid_ = eid;
-    return SCRIPT_EID_INVALID;
-  }
+  if (is_null(func_envcreator)) return SCRIPT_EID_INVALID;
   Interface *env = func_envcreator();
+  if (is_null(env)) return SCRIPT_EID_INVALID;
   env->set_workpath(config.workpath);
   env->set_rootpath(config.rootpath);
-  std::unique_ptr< Interface > pointer(env);
-  envs_[eid] = std::move(pointer);
-  return eid;
+  return newenv(env);
 }
 
 eid_t Factory::newenv(Interface *env) {
+  std::unique_ptr< Interface > pointer(env);
+  std::unique_lock<std::mutex> autolock(mutex_);
   eid_t eid = neweid();
   if (SCRIPT_EID_INVALID == eid) return eid;
-  std::unique_ptr< Interface > pointer(env);
   envs_[eid] = std::move(pointer);
   return eid;
 }
 
 eid_t Factory::neweid() {
-  std::unique_lock<std::mutex> autolock(mutex_);
-  eid_t eid = SCRIPT_EID_INVALID;
-  eid = SCRIPT_EID_INVALID == last_del_eid_ ?
-        static_cast<eid_t>(envs_.size() + 1) : last_del_eid_;
+  constexpr size_t max_count = std::numeric_limits<eid_t>::max();
+  if (envs_.size() >= max_count) return SCRIPT_EID_INVALID;
+  eid_t eid = last_del_eid_;
   last_del_eid_ = SCRIPT_EID_INVALID;
+  if (SCRIPT_EID_INVALID == eid) eid = static_cast<eid_t>(envs_.size() + 1);
+  if (!envs_.contains(eid)) return eid;
+  // Some lower id was closed before.
+  eid = 1;
+  while (envs_.contains(eid)) ++eid;
   return eid;
 }
-- 
2.43.0


From 6216ec5652dbe04e8b2362d23c59d03e7a801f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 111/128] fix: a library name such as xx.sox gets its suffix

---
 framework/core/src/file/library.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index d8e3633..a8ef102 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -49,7 +49,7 @@ void Library::set_filename(const std::string &_filename) noexcept {
     return;
   }
   // xx.sox, xx.so.1
-  if (suf_pos + strlen(LIBRARY_SUFFIX) > _filename.size()) {
+  if (suf_pos + strlen(LIBRARY_SUFFIX) < _filename.size()) {
     if (_filename.substr(suf_pos + strlen(LIBRARY_SUFFIX), 1) != ".") {
       filename_ += LIBRARY_SUFFIX;
       return;
-- 
2.43.0


From ea091a4a0a2e9b7adfe039d6b0561998853f651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 112/128] fix: every search path is tried with the plain
 library name and keeps the global flag

---
 framework/core/src/file/library.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index a8ef102..f39cb43 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -58,6 +58,7 @@ void Library::set_filename(const std::string &_filename) noexcept {
 }
 
 bool Library::load(bool tryprefix, bool seeglb) noexcept {
+  if (!is_null(handle_)) return true; // One handle for one object.
   std::filesystem::path path{path_ + filename_};
   auto fileexists = std::filesystem::exists(path);
   if (fileexists) {
@@ -90,8 +91,11 @@ bool Library::load(bool tryprefix, bool seeglb) noexcept {
 #endif
       return false;
     }
+    auto name = filename_;
     filename_ = LIBRARY_PREFIX + filename_;
-    return load(false);
+    if (load(false, seeglb)) return true;
+    filename_ = name; // Other paths try the plain name again.
+    return false;
   } else {
     errorstr_.clear();
   }
-- 
2.43.0


From 7ed32cb5d3d7dfabb131b8651443325a6f6ce008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 113/128] fix: loading a library stops at the first of its
 names that works

---
 framework/core/src/file/library.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index f39cb43..dddc9bb 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -241,6 +241,8 @@ bool LibraryManager::load(
       if (library->errorstr() != "")
         err = library->errorstr();
       LOG_ERROR << "[library] load(" << name << ") error: " << err;
+    } else {
+      break; // One of the possible names is enough.
     }
   }
   if (!library->isloaded()) {
-- 
2.43.0


From 06f99f31c58bdca5da1592d279cc51c79546eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 114/128] fix: an unloaded library is not loaded and resolves
 nothing

---
 framework/core/src/file/library.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index dddc9bb..a0bccc1 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -129,11 +129,16 @@ bool Library::unload() noexcept {
     }
   }
 #endif
-  return is_null(handle_);
+  isloaded_ = !is_null(handle_);
+  return !isloaded_;
 }
    
 void *Library::resolve(const std::string &symbol, bool again) noexcept {
   void *symbolhandle = nullptr;
+  if (is_null(handle_)) {
+    errorstr_ = "The library not loaded!";
+    return nullptr;
+  }
 #if OS_WIN
   symbolhandle = cast(void *, GetProcAddress((HMODULE)handle_, symbol.c_str()));
   if (is_null(symbolhandle)) {
-- 
2.43.0


From 63c39f515c21188587e40d3d621f03fa9598ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 115/128] fix: unloading a library whose load failed

---
 framework/core/include/plain/file/library.h | 3 ++-
 framework/core/src/file/library.cc          | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/include/plain/file/library.h b/framework/core/include/plain/file/library.h
index 928fad6..db3fca9 100644
--- a/framework/core/include/plain/file/library.h
+++ b/framework/core/include/plain/file/library.h
@@ -104,7 +104,8 @@ class PLAIN_API LibraryManager {
 
   /* Get the library pointer by name. */
   Library *get(const std::string &name) noexcept {
-    return is_null(librarymap_[name]) ? nullptr : librarymap_[name].get();
+    auto it = librarymap_.find(name);
+    return it == librarymap_.end() ? nullptr : it->second.get();
   }
 
  private:
diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index a0bccc1..3f2a2cc 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -209,7 +209,7 @@ void LibraryManager::remove_librarynames(const std::string &onlyname,
 bool LibraryManager::load(
   const std::string &name, bool seeglb,
   const variable_array_t &params) noexcept {
-  if (librarymap_[name]) {
+  if (get(name)) {
     LOG_DEBUG << "[library] load(" << name << ")  has loaded";
     return true;
   }
-- 
2.43.0


From 8d4a6bce93a69504c439502864b9aa44a0fb1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 116/128] fix: removing possible names of a library has an
 effect

---
 framework/core/src/file/library.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 3f2a2cc..7c28c3c 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -200,7 +200,9 @@ void LibraryManager::remove_searchpaths(
 
 void LibraryManager::remove_librarynames(const std::string &onlyname, 
                                          const std::vector<std::string> &names) {
-  std::vector<std::string> list = namesmap_[onlyname];
+  auto it = namesmap_.find(onlyname);
+  if (it == namesmap_.end()) return;
+  auto &list = it->second;
   for (const std::string &name : names) {
     list.erase(std::remove(list.begin(), list.end(), name), list.end());
   }
-- 
2.43.0


From 68041b30a42b23aeac11178436e5daf2136b2309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 117/128] fix: libraries are searched in the application
 directory

---
 framework/core/src/file/library.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 7c28c3c..3d236b7 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -163,8 +163,8 @@ void *Library::resolve(const std::string &symbol, bool again) noexcept {
 LibraryManager::LibraryManager() {
   add_searchpaths({
       "./",
-      GLOBALS["app.basepath"].get<std::string>(),
-      GLOBALS["app.basepath"].get<std::string>() + "plugins/",
+      GLOBALS["app.basepath"].get<std::string>() + "/",
+      GLOBALS["app.basepath"].get<std::string>() + "/plugins/",
   });
 #if OS_UNIX || OS_MAC
   add_searchpaths({
-- 
2.43.0


From 0bc6cbec87445604c9956825c9913e1102c8075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:44 +0000
Subject: [PATCH 118/128] fix: asking for an unknown creator type changes
 nothing

---
 framework/core/include/plain/basic/macros/function.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/macros/function.h b/framework/core/include/plain/basic/macros/function.h
index a56630e..67a2c8c 100644
--- a/framework/core/include/plain/basic/macros/function.h
+++ b/framework/core/include/plain/basic/macros/function.h
@@ -98,7 +98,9 @@
     get_env_creator_map_##name()[type] = func; \
   } \
   inline function_env_creator_##name get_env_creator_##name(uint8_t type) { \
-    return get_env_creator_map_##name()[type]; \
+    auto &creatormap = get_env_creator_map_##name(); \
+    auto it = creatormap.find(type); \
+    return it == creatormap.end() ? nullptr : it->second; \
   }
 #endif
 
-- 
2.43.0


From 7903dc4680cb1830e94faa8208755a4f9fd98e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:01 +0000
Subject: [PATCH 119/128] fix: a search path that cannot be looked up does not
 end the process

---
 framework/core/src/file/library.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/file/library.cc b/framework/core/src/file/library.cc
index 3d236b7..9717818 100644
--- a/framework/core/src/file/library.cc
+++ b/framework/core/src/file/library.cc
@@ -60,7 +60,8 @@ void Library::set_filename(const std::string &_filename) noexcept {
 bool Library::load(bool tryprefix, bool seeglb) noexcept {
   if (!is_null(handle_)) return true; // One handle for one object.
   std::filesystem::path path{path_ + filename_};
-  auto fileexists = std::filesystem::exists(path);
+  std::error_code ec; // A path that can't be looked up has no such file.
+  auto fileexists = std::filesystem::exists(path, ec);
   if (fileexists) {
 #if OS_WIN
     UNUSED(seeglb);
-- 
2.43.0


From 34002bdca2d24fcc93545342f5f80d59b7ce3dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:57 +0000
Subject: [PATCH 120/128] fix: variables can be assigned, converted and
 compared while other threads use them

---
 .../core/include/plain/basic/type/variable.h  | 65 +++++++++++++------
 framework/core/src/basic/type/variable.cc     |  2 +-
 2 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/framework/core/include/plain/basic/type/variable.h b/framework/core/include/plain/basic/type/variable.h
index 0c3cc18..fdbcdd2 100644
--- a/framework/core/include/plain/basic/type/variable.h
+++ b/framework/core/include/plain/basic/type/variable.h
@@ -32,9 +32,10 @@ struct PLAIN_API variable_struct {
   variable_struct() {}
 
   variable_struct(const variable_t &object) {
-    value = object.value;
+    value = object.copy();
   } 
   variable_struct(variable_t &&object) {
+    std::unique_lock<std::mutex> auto_lock(object.mutex);
     std::swap(value, object.value);
   }
   template <typename T>
@@ -60,7 +61,23 @@ struct PLAIN_API variable_struct {
     return std::get<std::string>(value).c_str();
   }
 
+  // A copy of the value.
+  value_type copy() const {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return value;
+  }
+
   int64_t to_int64() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_int64();
+  }
+
+  double to_double() const noexcept {
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    return _to_double();
+  }
+
+  int64_t _to_int64() const noexcept { //Not safe in multi threads.
     int64_t r{0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -74,7 +91,7 @@ struct PLAIN_API variable_struct {
     return r;
   }
 
-  double to_double() const noexcept {
+  double _to_double() const noexcept { //Not safe in multi threads.
     double r{0.0};
     std::visit([&r](auto &&val) {
       using type = std::decay_t<decltype(val)>;
@@ -88,104 +105,112 @@ struct PLAIN_API variable_struct {
   }
 
   variable_t &operator=(const variable_t &object) {
-    value = object.value;
+    auto _value = object.copy();
+    std::unique_lock<std::mutex> auto_lock(mutex);
+    value = std::move(_value);
     return *this;
   }
   variable_t &operator=(variable_t &&object) {
+    if (this == &object) return *this;
+    std::scoped_lock auto_lock(mutex, object.mutex);
     std::swap(object.value, value);
     return *this;
   }
 
   variable_t &operator+=(const variable_t &object) noexcept {
+    auto _value = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = object.to_double() + to_double();
+    value = _value + _to_double();
     return *this;
   }
   template <typename T>
   variable_t &operator+=(T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = _value + to_double();
+    value = _value + _to_double();
     return *this;
   }
 
   variable_t &operator-=(const variable_t &object) noexcept {
+    auto _value = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - object.to_double();
+    value = _to_double() - _value;
     return *this;
   }
   template <typename T>
   variable_t &operator -= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() - _value;
+    value = _to_double() - _value;
     return *this;
   }
 
   variable_t &operator*=(const variable_t &object) noexcept {
+    auto _value = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * object.to_double();
+    value = _to_double() * _value;
     return *this;
   }
   
   template <typename T>
   variable_t &operator *= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() * _value;
+    value = _to_double() * _value;
     return *this;
   }
 
   variable_t &operator/=(const variable_t &object) {
+    auto _value = object.to_double();
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / object.to_double();
+    value = _to_double() / _value;
     return *this;
   }
   template <typename T>
   variable_t &operator /= (T _value) {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_double() / _value;
+    value = _to_double() / _value;
     return *this;
   }
 
   variable_t &operator++() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--() noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   variable_t &operator++(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() + 1;
+    value = _to_int64() + 1;
     return *this;
   }
   variable_t &operator--(int32_t) noexcept {
     std::unique_lock<std::mutex> auto_lock(mutex);
-    value = to_int64() - 1;
+    value = _to_int64() - 1;
     return *this;
   }
   
   friend bool operator==(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value == rhs.value;
+    return lhs.copy() == rhs.copy();
   }
   
   friend bool operator!=(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value != rhs.value;
+    return lhs.copy() != rhs.copy();
   }
 
   friend bool operator<(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value < rhs.value;
+    return lhs.copy() < rhs.copy();
   }
 
   friend bool operator>(const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value > rhs.value;
+    return lhs.copy() > rhs.copy();
   }
 
   friend auto operator<=>(
       const variable_t &lhs, const variable_t &rhs) noexcept {
-    return lhs.value <=> rhs.value;
+    return lhs.copy() <=> rhs.copy();
   }
 
   explicit operator const char*() {
diff --git a/framework/core/src/basic/type/variable.cc b/framework/core/src/basic/type/variable.cc
index 7d4c140..3a2be9b 100644
--- a/framework/core/src/basic/type/variable.cc
+++ b/framework/core/src/basic/type/variable.cc
@@ -4,7 +4,7 @@
 namespace plain {
 
 std::ostream &operator<<(std::ostream &os, const variable_t &object) noexcept {
-  std::visit([&os](auto &&val){ os << val; }, object.value);
+  std::visit([&os](auto &&val){ os << val; }, object.copy());
   return os;
 }
 
-- 
2.43.0


From 499379dc979a3486512c8ee694dfcc35a321f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 121/128] fix: directories are made with mode 0755, not decimal
 755

---
 framework/core/include/plain/basic/utility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/include/plain/basic/utility.h b/framework/core/include/plain/basic/utility.h
index 9a1c397..0de0491 100644
--- a/framework/core/include/plain/basic/utility.h
+++ b/framework/core/include/plain/basic/utility.h
@@ -142,7 +142,7 @@ PLAIN_API void get_module_filename(char *buffer, size_t size);
 
 PLAIN_API void disable_windowclose();
 
-PLAIN_API bool makedir(const char *path, uint16_t mode = 755);
+PLAIN_API bool makedir(const char *path, uint16_t mode = 0755);
 
 PLAIN_API uint32_t get_highsection(uint64_t value);
 
-- 
2.43.0


From 8908e97efc92e481fbee6788ad9bfbf28a98c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 122/128] fix: making a directory with an empty or too long
 name keeps inside of the buffer

---
 framework/core/src/basic/utility.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 9579d17..cc98db0 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -952,7 +952,10 @@ bool makedir(const char *path, uint16_t) {
   char _path[FILENAME_MAX] = {0};
   int32_t i = 0;
   int32_t result = 0;
-  int32_t length = static_cast<int32_t>(strlen(path));
+  const auto path_length = strlen(path);
+  // The slash at the end must fit too.
+  if (0 == path_length || path_length + 2 > sizeof(_path)) return false;
+  int32_t length = static_cast<int32_t>(path_length);
   safecopy(_path, path, sizeof(_path));
   path_tounix(_path, static_cast<uint16_t>(length));
   if (_path[length - 1] != '/') {
-- 
2.43.0


From 4ca0845004d111ad2d7ff9d6a8c62b6527f36615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 123/128] fix: a directory made by someone else at the same
 time is there

---
 framework/core/src/basic/utility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index cc98db0..3e7236b 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -973,7 +973,8 @@ bool makedir(const char *path, uint16_t) {
         continue;
       }
       result = access(_path, 0);
-      if (result != 0 && mkdir(_path, mode) != 0) {
+      // Another thread or process can make it at the same time.
+      if (result != 0 && mkdir(_path, mode) != 0 && access(_path, 0) != 0) {
         return false;
       }
       _path[i] = '/';
-- 
2.43.0


From 0bec0e47c9e9e9dfeac2b6cc67a97eeb07b94cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 124/128] fix: texts of any length are converted to and from
 wide characters

---
 framework/core/src/basic/utility.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/framework/core/src/basic/utility.cc b/framework/core/src/basic/utility.cc
index 3e7236b..c4f8062 100644
--- a/framework/core/src/basic/utility.cc
+++ b/framework/core/src/basic/utility.cc
@@ -697,9 +697,11 @@ std::string wstr2str(const std::wstring &str) {
   r = psText;
   safe_delete_array(psText);
 #else
-  char temp[512]{0,};
-  wcstombs(temp, str.c_str(), sizeof(temp) - 1);
-  r = temp;
+  auto size = wcstombs(nullptr, str.c_str(), 0);
+  if (size != static_cast<size_t>(-1)) {
+    r.resize(size);
+    wcstombs(r.data(), str.c_str(), size);
+  }
 #endif
   return r;
 }
@@ -714,9 +716,12 @@ std::wstring str2wstr(std::string_view str) {
   r = wszUtf8;
   safe_delete_array(wszUtf8);
 #else
-  wchar_t temp[512]{0,};
-  mbstowcs(temp, str.data(), sizeof(temp) - 1);
-  r = temp;
+  const std::string text{str};
+  auto size = mbstowcs(nullptr, text.c_str(), 0);
+  if (size != static_cast<size_t>(-1)) {
+    r.resize(size);
+    mbstowcs(r.data(), text.c_str(), size);
+  }
 #endif
   return r;
 }
-- 
2.43.0


From 8ce55a79960c15897da49148c4daadb4c62ac5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 125/128] fix: tell returns the position of the file

---
 framework/core/src/file/api.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/core/src/file/api.cc b/framework/core/src/file/api.cc
index 4347185..7058204 100644
--- a/framework/core/src/file/api.cc
+++ b/framework/core/src/file/api.cc
@@ -320,7 +320,7 @@ int64_t lseek(int32_t fd, uint64_t offset, int32_t whence) {
 int64_t tell([[maybe_unused]] int32_t fd) {
   int64_t result = 0;
 #if OS_UNIX || OS_MAC
-  //do nothing
+  result = ::lseek(fd, 0, SEEK_CUR);
 #elif OS_WIN
   result = ::_tell(fd);
   if (result < 0) {
-- 
2.43.0


From 15b5096542cf363e9d6eadd482e6dd8679f2a58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 126/128] fix: a pid file without a process id gives no process

---
 framework/core/src/sys/process.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index b5c3eae..1391e08 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -36,8 +36,9 @@ void get_filename(char *filename, size_t size) {
 int32_t getid(const char *filename) {
   FILE *fp = fopen(filename, "r");
   if (nullptr == fp) return ID_INVALID;
-  int32_t id;
-  fscanf(fp, "%d", &id);
+  int32_t id{ID_INVALID};
+  // Zero and negative ids name groups of processes.
+  if (fscanf(fp, "%d", &id) != 1 || id <= 0) id = ID_INVALID;
   fclose(fp);
   return id;
 }
-- 
2.43.0


From e4d41828305e3bbfa62cf1434521c1169c8f7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 127/128] fix: writing a pid file reports when it fails

---
 framework/core/src/sys/process.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework/core/src/sys/process.cc b/framework/core/src/sys/process.cc
index 1391e08..d66dd81 100644
--- a/framework/core/src/sys/process.cc
+++ b/framework/core/src/sys/process.cc
@@ -47,11 +47,11 @@ bool writeid(const char *filename) {
   int32_t id = getid();
   FILE *fp = fopen(filename, "w");
   if (nullptr == fp) return false;
-  fprintf(fp, "%d", id);
-  fflush(fp);
-  fclose(fp);
+  bool r = fprintf(fp, "%d", id) > 0;
+  r = 0 == fflush(fp) && r;
+  r = 0 == fclose(fp) && r;
   fp = nullptr;
-  return true;
+  return r;
 }
 
 bool waitexit(const char *filename) {
-- 
2.43.0


From 0aee9521e53e0f080dd714dd742daf4521dae8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:54 +0000
Subject: [PATCH 128/128] fix: a long command is run as it is given

---
 framework/core/src/sys/utility.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/framework/core/src/sys/utility.cc b/framework/core/src/sys/utility.cc
index 78dc3c3..f963221 100644
--- a/framework/core/src/sys/utility.cc
+++ b/framework/core/src/sys/utility.cc
@@ -14,9 +14,7 @@ int32_t exec(
   [[maybe_unused]] size_t size) {
 #if OS_UNIX || OS_MAC
   char buffer[1024] = {0};
-  char temp[1024] = {0};
-  safecopy(temp, command, sizeof(temp));
-  FILE *fp = popen(temp, "r");
+  FILE *fp = popen(command, "r");
   if (!fp) return -1;
   if (fgets(buffer, 1024, fp) != 0) {
     safecopy(result, buffer, size);
-- 
2.43.0

