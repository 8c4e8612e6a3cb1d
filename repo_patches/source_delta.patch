From 20fc831874e508c01dac991955b2f5e2df9f7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:21 +0000
Subject: [PATCH 01/11] fix: read names in stream messages as 8-bit text

Endpoint and function block names are UTF-8 and are written with all eight
bits, but the views masked every byte to seven bits, so non-ASCII names were
garbled or cut.
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..39eddf0 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From 57fae0e59681b90c9e008ab6f57f15063f591d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:23 +0000
Subject: [PATCH 02/11] fix: choose the first sysex8 packet by the bytes that
 are written

send_sysex8 always writes two manufacturer bytes but decided between a
complete and a start packet from total_data_size(), which counts one or
three. 12 data bytes with a one byte manufacturer ID went out as a complete
packet followed by an end packet, 11 data bytes with a three byte ID as a
start packet that was never ended.
---
 inc/midi/sysex.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..d98372a 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -364,9 +364,9 @@ void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&&
 {
     constexpr size_t max_payload_size = 13;
 
-    // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    // initialize first packet, manufacturerID always takes two bytes
+    auto p = (sysex.data.size() + 2 <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
+                                                         : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From 720104e6ed509126d0b6163365e542c76e9be394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:49 +0000
Subject: [PATCH 03/11] fix: check the size of discovery messages before
 reading their version

discovery_inquiry_view::validate and discovery_reply_view::validate read
data[3] to find the required size, so a message with less than four data
bytes was read out of bounds.
---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 721122b64f48a6f42c48f83ecaf6658e2802bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:57 +0000
Subject: [PATCH 04/11] fix: write empty property exchange header options as
 strings

is_number read the first character of an empty string view and took the
empty text and a lone minus for numbers, which produced headers such as
{"resource":"X","subscribeId":} that are not JSON.
---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..a035064 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty())
+            return false;
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 036680583b709e3e5fed400a408d64f72f460339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 05/11] fix: do not truncate profile specific data of 64k bytes
 or more

The size field has 28 bits, but the vector overload cast the size to
uint14_t (16 bits), so 65536 bytes of data became an empty message.
---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From e63236e1d5e56551d1d3cda1b3253f5f27423b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 06/11] fix: keep scheduled message times in order when a clock
 arrives late

process_clock moved the time of the last scheduled message back when a clock was received later than expected but before
that time (sender startup phase), so later messages were scheduled before earlier ones.
---
 src/jitter_reduction_timestamps.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..8e86efd 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -94,8 +94,12 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     }
     else
     {
-        m_clock_time   = expected_receive_time;
-        m_message_time = received;
+        m_clock_time = expected_receive_time;
+
+        if (received > m_message_time) // ensure that message order is preserved
+        {
+            m_message_time = received;
+        }
     }
 
     update_stats(jitter);
-- 
2.43.0


From 758aa59d6ffe9e4e40722e0f0c017144d3ce4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:05 +0000
Subject: [PATCH 07/11] fix: avoid signed overflow for pitch increments that
 round to -64 semitones

The absolute value 0x80000000 does not fit int32_t, its negation overflowed.
---
 inc/midi/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..1ab79d4 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,8 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        // may round to -64.0, the most negative value
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0


From 260c7a700639d12896e05f8c9d0e511e43630e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:05 +0000
Subject: [PATCH 08/11] fix: convert NaN to zero instead of an undefined value

NaN passed all range checks and reached a float to integer conversion, which is undefined for it.
---
 inc/midi/types.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index 1ab79d4..513cf6d 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -520,7 +520,7 @@ namespace impl {
     template<typename T, typename F> // F must be float or double
     constexpr T from_float_0_1(F f)
     {
-        if (f <= F(0))
+        if (!(f > F(0))) // also NaN
             return 0;
 
         if (f >= F(1))
@@ -670,7 +670,7 @@ constexpr pitch_increment pitch_increment::operator+(const pitch_increment& inc)
 constexpr pitch_7_9::pitch_7_9(float f)
 {
     constexpr int fractional_bits = 9;
-    if (f <= 0.f)
+    if (!(f > 0.f)) // also NaN
     {
         value = 0;
     }
@@ -688,7 +688,7 @@ constexpr pitch_7_9::pitch_7_9(float f)
 constexpr pitch_7_9::pitch_7_9(double d)
 {
     constexpr int fractional_bits = 9;
-    if (d <= 0.)
+    if (!(d > 0.)) // also NaN
     {
         value = 0;
     }
@@ -720,7 +720,7 @@ constexpr double pitch_7_9::as_double() const
 constexpr pitch_7_25::pitch_7_25(float f)
 {
     constexpr int fractional_bits = 25;
-    if (f <= 0.f)
+    if (!(f > 0.f)) // also NaN
     {
         value = 0;
     }
@@ -740,7 +740,7 @@ constexpr pitch_7_25::pitch_7_25(float f)
 constexpr pitch_7_25::pitch_7_25(double d)
 {
     constexpr int fractional_bits = 25;
-    if (d <= 0.)
+    if (!(d > 0.)) // also NaN
     {
         value = 0;
     }
-- 
2.43.0


From 9fb1c12821159a80335c3c070a596c0d67b9f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:40 +0000
Subject: [PATCH 09/11] fix: drop the collected part of an oversized sysex
 message

---
 src/sysex_collector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..ec8cb23 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -82,7 +82,7 @@ void sysex7_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
+            reset();
             return;
         }
     }
@@ -201,7 +201,7 @@ void sysex8_collector::feed(const universal_packet& p)
         if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
         {
             // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
+            reset();
             return;
         }
     }
-- 
2.43.0


From 480a5d19a42bddf9ead8a19a9cf0b7be1194a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:19 +0000
Subject: [PATCH 10/11] fix: enforce the sysex data size limit whatever was
 allocated before

---
 src/sysex_collector.cpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index ec8cb23..05ada53 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -69,22 +69,22 @@ void sysex7_collector::feed(const universal_packet& p)
     }
 
     const auto numBytes = m.payload_size();
+    const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
+    if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_max_sysex_data_size))
+    {
+        // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+        reset();
+        return;
+    }
+
     if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
         if (limited_sysex_data_size)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -188,22 +188,22 @@ void sysex8_collector::feed(const universal_packet& p)
     }
 
     const auto numBytes = m.payload_size();
+    const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
+    if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_max_sysex_data_size))
+    {
+        // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+        reset();
+        return;
+    }
+
     if (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
         if (limited_sysex_data_size)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            reset();
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
-- 
2.43.0


From bf6bf5efa914d367f39578db289fa975ec4d413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:43 +0000
Subject: [PATCH 11/11] fix: packet text output depended on and leaked stream
 formatting

With std::left, std::internal or std::showbase set the words came out with
misplaced zeros (0x00000001 as 10000000 or 000000x1), and the fill character
of the stream stayed '0' after writing a packet.
---
 src/universal_packet.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..7668597 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -56,13 +56,16 @@ namespace {
 std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
+    const auto           fill = out.fill('0');
 
+    out << std::hex << std::right << std::noshowbase;
     for (auto w = 0u; w < p.size(); ++w)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::setw(8) << p.data[w];
     }
+    out.fill(fill);
     return out;
 }
 
-- 
2.43.0

