From bebea9d4cb76b483f6cf60d7ed3660e0ddff475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 001/108] fix: restrict high surrogates to U+D800..U+DBFF

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index f5adb4c..78580aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -86,7 +86,7 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline bool is_high_surrogate(std::uint16_t ch) noexcept
 {
-    return 0xD7FF <= ch && ch <= 0xE000;
+    return 0xD800 <= ch && ch <= 0xDBFF;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From df4339621d2727c6488f807a3030a17cddd3ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 002/108] fix: treat bytes that cannot start a UTF-8 sequence
 as single units

---
 include/papilio/utf/stralgo.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 78580aa..e177341 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -69,8 +69,6 @@ constexpr inline bool is_trailing_byte(std::uint8_t ch) noexcept
 PAPILIO_EXPORT [[nodiscard]]
 constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
 {
-    PAPILIO_ASSERT(PAPILIO_NS utf::is_leading_byte(leading_byte));
-
     if((leading_byte & 0b1000'0000) == 0)
         return 1;
     else if((leading_byte & 0b1110'0000) == 0b1100'0000)
@@ -80,7 +78,8 @@ constexpr inline std::uint8_t byte_count(std::uint8_t leading_byte) noexcept
     else if((leading_byte & 0b1111'1000) == 0b1111'0000)
         return 4;
 
-    PAPILIO_UNREACHABLE();
+    // Trailing bytes and 0xF8 - 0xFF cannot start a sequence
+    return 1;
 }
 
 PAPILIO_EXPORT [[nodiscard]]
-- 
2.43.0


From 6c2ded9334022c8919af8ac9f7d2ff35435314ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 003/108] fix: return the length when a char32_t string has no
 terminator

---
 include/papilio/utf/stralgo.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index e177341..17ba6aa 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -313,6 +313,8 @@ constexpr inline std::size_t strlen(const CharT* str, std::size_t max_chars) noe
         if(str[i] == CharT(0))
             return i;
     }
+
+    return max_chars;
 }
 
 PAPILIO_EXPORT template <
-- 
2.43.0


From 4fe429a35eace64b6df2e554c647d205665f8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 004/108] fix: check the length before reading a unit in
 utf::strlen

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 17ba6aa..df553a1 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -121,7 +121,7 @@ constexpr std::size_t strlen(
     std::size_t result = 0;
     std::uint8_t bytes = 0;
     std::size_t i = 0;
-    for(; str[i] != CharT(0) && i < max_chars;)
+    for(; i < max_chars && str[i] != CharT(0);)
     {
         if(bytes != 0)
         {
-- 
2.43.0


From 4665123ae5850b4d6b3c421eed6def2cdf2c9b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 005/108] fix: reverse offset in an empty char32_t string

---
 include/papilio/utf/stralgo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index df553a1..64c4887 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -473,7 +473,7 @@ constexpr inline std::size_t index_offset(
 ) noexcept
 {
     (void)str;
-    if(idx > max_chars - 1)
+    if(idx >= max_chars)
         return npos;
     return max_chars - 1 - idx;
 }
-- 
2.43.0


From 27f67441caf6e8dbf23eff96412525ca0143b810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 006/108] fix: report all four processed bytes of a decoded
 code point

---
 include/papilio/utf/codepoint.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 142cbee..e135fdd 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -99,7 +99,7 @@ constexpr std::pair<char32_t, std::uint8_t> decoder<char32_t>::from_codepoint(co
         result <<= 6;
         result |= bytes[3] & 0b0011'1111;
 
-        return std::make_pair(result, std::uint8_t(3));
+        return std::make_pair(result, std::uint8_t(4));
     }
 
     return std::make_pair(U'\0', std::uint8_t(0));
-- 
2.43.0


From 0378af439493a6797c9ca0e0fd8b46cd5ef54ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 007/108] fix: decode a truncated UTF-8 sequence as U+FFFD
 instead of reading past its end

---
 include/papilio/utf/codepoint.hpp | 11 +++++++++--
 include/papilio/utf/codepoint.inl |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 94889f8..ada6156 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -507,7 +507,7 @@ namespace detail
                 m_offset = next_offset;
                 char8_t ch = static_cast<char8_t>(m_str[next_offset]);
                 if(is_leading_byte(ch))
-                    m_len = byte_count(ch);
+                    m_len = clamp_len(byte_count(ch));
                 else
                     m_len = 1;
             }
@@ -535,7 +535,7 @@ namespace detail
                 else if(PAPILIO_NS utf::is_leading_byte(ch))
                 {
                     m_offset = next_offset;
-                    m_len = PAPILIO_NS utf::byte_count(ch);
+                    m_len = clamp_len(PAPILIO_NS utf::byte_count(ch));
                     break;
                 }
                 else if(next_offset == 0)
@@ -575,6 +575,13 @@ namespace detail
         string_view_type m_str;
         size_type m_offset = 0;
         std::uint8_t m_len = 0;
+
+        // A truncated sequence ends at the end of the string
+        constexpr std::uint8_t clamp_len(std::uint8_t len) const noexcept
+        {
+            const size_type remain = m_str.size() - m_offset;
+            return len <= remain ? len : static_cast<std::uint8_t>(remain);
+        }
     };
 
     template <char16_like CharT>
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index e135fdd..2e98ac3 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -115,6 +115,8 @@ constexpr std::pair<codepoint, std::uint8_t> decoder<char8_t>::to_codepoint(std:
     if(ch.empty()) [[unlikely]]
         return std::make_pair(codepoint(), std::uint8_t(0));
     std::uint8_t len = size_bytes(ch[0]);
+    if(len > ch.size()) [[unlikely]]
+        return std::make_pair(codepoint(U'\uFFFD'), static_cast<std::uint8_t>(ch.size()));
     return std::make_pair(codepoint(ch.data(), len), len);
 }
 
@@ -204,6 +206,8 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
         std::uint8_t ch_size = PAPILIO_NS utf::is_leading_byte(ch) ?
                                    PAPILIO_NS utf::byte_count(ch) :
                                    1;
+        if(ch_size > str.size()) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size());
         return result_t(str, 0, ch_size);
     }
     else if constexpr(char16_like<CharU>)
-- 
2.43.0


From e7bcde7033d274fc533edae3e51182417c14bd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 008/108] fix: keep UTF-16 iteration inside the string on
 unpaired surrogates

---
 include/papilio/utf/codepoint.hpp | 22 ++++++++++++++--------
 include/papilio/utf/codepoint.inl |  6 +-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index ada6156..2d6bf0f 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -600,6 +600,16 @@ namespace detail
         constexpr cp_iter_impl(string_view_type str, size_type offset, std::uint8_t len) noexcept
             : m_str(str), m_offset(offset), m_len(len) {}
 
+        // Length of the code unit sequence at the offset, an unpaired surrogate counts as one
+        static constexpr std::uint8_t sequence_len(string_view_type str, size_type offset) noexcept
+        {
+            return PAPILIO_NS utf::is_high_surrogate(str[offset]) &&
+                           offset + 1 < str.size() &&
+                           PAPILIO_NS utf::is_low_surrogate(str[offset + 1]) ?
+                       2 :
+                       1;
+        }
+
     protected:
         constexpr void next_pos() noexcept
         {
@@ -607,11 +617,7 @@ namespace detail
             if(next_offset < m_str.size())
             {
                 m_offset = next_offset;
-                std::uint16_t ch = m_str[next_offset];
-                if(PAPILIO_NS utf::is_high_surrogate(ch))
-                    m_len = 2;
-                else
-                    m_len = 1;
+                m_len = sequence_len(m_str, next_offset);
             }
             else
             {
@@ -624,10 +630,10 @@ namespace detail
         {
             PAPILIO_ASSERT(m_offset != 0);
             --m_offset;
-            while(PAPILIO_NS utf::is_low_surrogate(m_str[m_offset]))
+            if(m_offset != 0 && sequence_len(m_str, m_offset - 1) == 2)
                 --m_offset;
-
-            m_len = utf::is_high_surrogate(m_str[m_offset]) ? 2 : 1;
+            
+            m_len = sequence_len(m_str, m_offset);
         }
 
         constexpr bool to_bool() const noexcept
diff --git a/include/papilio/utf/codepoint.inl b/include/papilio/utf/codepoint.inl
index 2e98ac3..5063be6 100644
--- a/include/papilio/utf/codepoint.inl
+++ b/include/papilio/utf/codepoint.inl
@@ -212,11 +212,7 @@ constexpr codepoint_iterator<CharU> codepoint_begin(std::basic_string_view<CharU
     }
     else if constexpr(char16_like<CharU>)
     {
-        std::uint16_t ch = str[0];
-        std::uint8_t ch_size = PAPILIO_NS utf::is_high_surrogate(ch) ?
-                                   2 :
-                                   1;
-        return result_t(str, 0, ch_size);
+        return result_t(str, 0, result_t::sequence_len(str, 0));
     }
     else // char32_like
     {
-- 
2.43.0


From c85c5eb90bcc465d1c25cac3207df2099ef0ac6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 009/108] fix: measure the distance of code point iterators on
 malformed strings

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 2d6bf0f..577859c 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -900,7 +900,7 @@ public:
         {
             difference_type diff = 0;
 
-            while(rhs != *this && rhs)
+            while(rhs.base() < this->base())
             {
                 ++rhs;
                 ++diff;
-- 
2.43.0


From 547ca37587916c37c013addccf845234effae4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 010/108] fix: select the replacement of a code point at
 compile time

---
 include/papilio/utf/codepoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index 577859c..bc94e1c 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -433,7 +433,7 @@ public:
         {
             str.replace(pos, count, std::basic_string_view<CharT>(*this));
         }
-        else if(char16_like<CharT>)
+        else if constexpr(char16_like<CharT>)
         {
             auto result = decoder<CharT>::from_codepoint(*this);
             str.replace(pos, count, result.get());
-- 
2.43.0


From 8b27e974a51402520de888f39a47050edefac594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 011/108] fix: detect unpaired surrogates when measuring UTF-16
 strings

---
 include/papilio/utf/stralgo.hpp | 60 ++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index 64c4887..d2be5b1 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -252,31 +252,26 @@ constexpr std::size_t strlen(
     }
     else
     {
-        bool prev_is_high = false;
         for(std::size_t i = 0; i < max_chars && str[i] != CharT(0); ++i)
         {
             std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
 
-            if(PAPILIO_NS utf::is_high_surrogate(ch))
+            if(PAPILIO_NS utf::is_high_surrogate(ch) &&
+               i + 1 < max_chars &&
+               PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[i + 1])))
             {
-                if(prev_is_high) [[unlikely]]
-                {
-                    // Invalid surrogate
-                    if constexpr(OnInvalid == strlen_behavior::stop)
-                        return result;
-                    else
-                        throw invalid_surrogate(ch);
-                }
-
-                prev_is_high = true;
+                ++i;
             }
-            else
+            else if(PAPILIO_NS utf::is_high_surrogate(ch) || PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
             {
-                PAPILIO_ASSERT(PAPILIO_NS utf::is_low_surrogate(ch));
-
-                prev_is_high = false;
-                ++result;
+                // Invalid surrogate
+                if constexpr(OnInvalid == strlen_behavior::stop)
+                    return result;
+                else
+                    throw invalid_surrogate(ch);
             }
+
+            ++result;
         }
     }
 
@@ -293,10 +288,37 @@ constexpr std::size_t strlen(
 {
     std::size_t result = 0;
 
-    for(std::size_t i = 0; i < str.size(); ++i)
+    if constexpr(OnInvalid == strlen_behavior::ignore || OnInvalid == strlen_behavior::replace)
     {
-        if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
+        for(std::size_t i = 0; i < str.size(); ++i)
+        {
+            if(!PAPILIO_NS utf::is_low_surrogate(str[i]))
+                ++result;
+        }
+    }
+    else
+    {
+        for(std::size_t i = 0; i < str.size(); ++i)
+        {
+            std::uint16_t ch = static_cast<std::uint16_t>(str[i]);
+
+            if(PAPILIO_NS utf::is_high_surrogate(ch) &&
+               i + 1 < str.size() &&
+               PAPILIO_NS utf::is_low_surrogate(static_cast<std::uint16_t>(str[i + 1])))
+            {
+                ++i;
+            }
+            else if(PAPILIO_NS utf::is_high_surrogate(ch) || PAPILIO_NS utf::is_low_surrogate(ch)) [[unlikely]]
+            {
+                // Invalid surrogate
+                if constexpr(OnInvalid == strlen_behavior::stop)
+                    return result;
+                else
+                    throw invalid_surrogate(ch);
+            }
+
             ++result;
+        }
     }
 
     return result;
-- 
2.43.0


From 8cb2a57a7851983905910f42d3319fb99b6fc485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 012/108] fix: read an unpaired surrogate as U+FFFD while
 iterating instead of terminating

---
 include/papilio/utf/codepoint.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/papilio/utf/codepoint.hpp b/include/papilio/utf/codepoint.hpp
index bc94e1c..96470f2 100644
--- a/include/papilio/utf/codepoint.hpp
+++ b/include/papilio/utf/codepoint.hpp
@@ -768,6 +768,13 @@ public:
 
         constexpr operator codepoint() const noexcept
         {
+            if constexpr(char16_like<CharT>)
+            {
+                // Called in noexcept context, but the decoder throws on unpaired surrogates
+                if(m_len == 1 && (PAPILIO_NS utf::is_high_surrogate(*m_ptr) || PAPILIO_NS utf::is_low_surrogate(*m_ptr))) [[unlikely]]
+                    return codepoint(U'\uFFFD');
+            }
+
             return decoder<CharT>::to_codepoint(std::basic_string_view<CharT>(m_ptr, m_len)).first;
         }
 
-- 
2.43.0


From 8f7e94c443266019fac41f8a7ae2785055d1a3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 013/108] fix: decode an indexed code point only from units
 inside the string

---
 include/papilio/utf/string.hpp | 36 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 9f9585c..c9bef9f 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,8 +104,7 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
-        const CharT* p = data() + off;
-        return const_reference(p, ch_size_for_cp(*p));
+        return const_reference(data() + off, ch_size_at(get_view(), off));
     }
 
 public:
@@ -386,26 +385,27 @@ protected:
         }
     }
 
-    constexpr codepoint cp_from_off(size_type off) const noexcept
+    // Size of the sequence at the offset, limited to the units of the string
+    static constexpr std::uint8_t ch_size_at(string_view_type str, size_type off) noexcept
     {
-        string_view_type str = get_view();
-        PAPILIO_ASSERT(off < str.size());
+        std::uint8_t ch_size = ch_size_for_cp(str[off]);
+        if(ch_size > str.size() - off) [[unlikely]]
+            ch_size = static_cast<std::uint8_t>(str.size() - off);
 
-        if constexpr(char8_like<CharT>)
-        {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]);
-            return codepoint(str.data() + off, ch_size);
-        }
-        else if constexpr(char16_like<CharT>)
-        {
-            std::uint8_t ch_size = ch_size_for_cp(str[off]) ? 2 : 1;
-            return decoder<CharT>::to_codepoint(str.substr(off, ch_size)).first;
-        }
-        else // char32_like
+        if constexpr(char16_like<CharT>)
         {
-            char32_t ch = static_cast<char32_t>(str[off]);
-            return decoder<char32_t>::to_codepoint(ch).first;
+            if(ch_size == 2 && !PAPILIO_NS utf::is_low_surrogate(str[off + 1])) [[unlikely]]
+                ch_size = 1;
         }
+
+        return ch_size;
+    }
+
+    constexpr codepoint cp_from_off(size_type off) const noexcept
+    {
+        PAPILIO_ASSERT(off < get_view().size());
+
+        return make_const_reference(off);
     }
 
 #endif
-- 
2.43.0


From 70be7f5da5978e28057d2b19cddd7234a161ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 014/108] fix: accept empty strings without data in
 index_offset

---
 include/papilio/utf/stralgo.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/papilio/utf/stralgo.hpp b/include/papilio/utf/stralgo.hpp
index d2be5b1..cc1d97e 100644
--- a/include/papilio/utf/stralgo.hpp
+++ b/include/papilio/utf/stralgo.hpp
@@ -366,7 +366,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -401,7 +401,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -424,7 +424,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::uint8_t len = 0;
     std::size_t ch_count = 0;
@@ -459,7 +459,7 @@ constexpr inline std::size_t index_offset(
     reverse_index_t, std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     std::size_t ch_count = 0;
     for(std::size_t i = max_chars; i != 0; --i)
@@ -482,7 +482,7 @@ constexpr inline std::size_t index_offset(
     std::size_t idx, const CharT* str, std::size_t max_chars
 ) noexcept
 {
-    PAPILIO_ASSERT(str != nullptr);
+    PAPILIO_ASSERT(str != nullptr || max_chars == 0);
 
     (void)str; // Unused
     return idx < max_chars ? idx : npos;
-- 
2.43.0


From 45b02cbccb1d83f88163e299de79078edbcb85fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 015/108] fix: return from string_container::assign(count, ch)

---
 include/papilio/utf/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index c9bef9f..cf29644 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -963,6 +963,8 @@ public:
     {
         string_type& str = to_str();
         str.assign(count, ch);
+
+        return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
-- 
2.43.0


From be3a53cc2c0cfbd5654d434fe895e3fa077c4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 016/108] fix: replace the old value in
 string_container::assign(count, cp)

---
 include/papilio/utf/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index cf29644..f285d70 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -970,6 +970,7 @@ public:
     basic_string_container& assign(size_type count, codepoint cp)
     {
         string_type& str = to_str();
+        str.clear();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
-- 
2.43.0


From 7d5b8c87e48287dbaa4777be977cc58287223104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 017/108] fix: read the current unit when advancing a
 string_container iterator

---
 include/papilio/utf/string.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index f285d70..0c8d6f6 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1310,7 +1310,7 @@ public:
 
         void assign_cp(const codepoint& cp) const
         {
-            std::uint8_t len = m_str->ch_size_for_cp(*&*this);
+            std::uint8_t len = m_str->ch_size_at(m_str->get_view(), m_offset);
 
             string_type& str = m_str->to_str();
             cp.replace(str, m_offset, len);
@@ -1452,9 +1452,8 @@ public:
         constexpr void next_pos()
         {
             PAPILIO_ASSERT(*this);
-            m_offset += m_str->ch_size_for_cp(to_address()[m_offset]);
-            if(m_offset > m_str->size())
-                m_offset = m_str->size();
+            PAPILIO_ASSERT(m_offset < m_str->size());
+            m_offset += m_str->ch_size_at(m_str->get_view(), m_offset);
         }
 
         constexpr void prev_pos()
@@ -1494,7 +1493,9 @@ public:
 
                 PAPILIO_ASSERT(m_offset != 0);
                 --m_offset;
-                while(PAPILIO_NS utf::is_low_surrogate(p[m_offset]))
+                if(m_offset != 0 &&
+                   PAPILIO_NS utf::is_low_surrogate(p[m_offset]) &&
+                   PAPILIO_NS utf::is_high_surrogate(p[m_offset - 1]))
                     --m_offset;
             }
             else
-- 
2.43.0


From 306ed6a535da1d7e704170dfcf8f5c1083c16d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 018/108] fix: let exceptions leave
 string_container::assign_range

---
 include/papilio/utf/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 0c8d6f6..78875d4 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1039,7 +1039,7 @@ public:
     }
 
     template <std::ranges::input_range R>
-    basic_string_container& assign_range(R&& r) noexcept
+    basic_string_container& assign_range(R&& r)
     {
         if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
         {
-- 
2.43.0


From f2eef6bceb6fecbe94d40a43b9285c4f07507fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 019/108] fix: assign an independent copy from a view of the
 container itself

---
 include/papilio/utf/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 78875d4..7f95bc7 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1010,7 +1010,7 @@ public:
 
     basic_string_container& assign(independent_t, string_view_type str)
     {
-        emplace_data<string_type>(str);
+        emplace_data<string_type>(string_type(str));
         return *this;
     }
 
@@ -1022,7 +1022,7 @@ public:
 
     basic_string_container& assign(independent_t, const string_type& str)
     {
-        emplace_data<string_type>(str);
+        emplace_data<string_type>(string_type(str));
         return *this;
     }
 
-- 
2.43.0


From d08f2942902e69c3082f8d26f8585e21c83fa4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 020/108] fix: avoid the overflow of the lowest index in substr

---
 include/papilio/utf/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7f95bc7..4d819b7 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -322,12 +322,10 @@ public:
             }
             else
             {
-                idx = -idx; // abs(idx)
-
                 const auto sentinel = cbegin();
 
                 const_iterator it = cend();
-                for(index_range::index_type i = 0; i < idx; ++i)
+                for(index_range::index_type i = idx; i < 0; ++i)
                 {
                     if(it == sentinel)
                     {
-- 
2.43.0


From b41448db8c9fa3a7fae6f55bc3d8d0f23853462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 021/108] fix: let exceptions leave formatter_traits::skip_spec

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3b39259..3e99e2c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2921,7 +2921,7 @@ struct formatter_traits
      * @param parse_ctx Parse context
      */
     template <typename ParseContext>
-    static void skip_spec(ParseContext& parse_ctx) noexcept
+    static void skip_spec(ParseContext& parse_ctx)
     {
         if constexpr(parsable<ParseContext>())
         {
-- 
2.43.0


From 5475e23b5325e2ae9080159bb07ed32ac2321fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 022/108] fix: reject unterminated string literals in scripts

---
 include/papilio/core.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3e99e2c..14b2a47 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3431,7 +3431,7 @@ protected:
                     else if(ch == U'\'')
                     {
                         ++it; // skip '\''
-                        break;
+                        return std::make_pair(std::move(result), it);
                     }
                     else
                     {
@@ -3439,7 +3439,7 @@ protected:
                     }
                 }
 
-                return std::make_pair(std::move(result), it);
+                throw_end_of_string();
             }
             else if(ch == U'\'')
             {
@@ -3447,6 +3447,9 @@ protected:
             }
         }
 
+        if(it == stop) [[unlikely]]
+            throw_end_of_string();
+
         return std::make_pair(
             string_container_type(start, it),
             std::next(it) // +1 to skip '\''
-- 
2.43.0


From f820f8a1f8f9cf2dad074d414272934772d788a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 023/108] fix: do not read past the end after an index

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 14b2a47..1d0ce10 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3475,7 +3475,7 @@ protected:
                 start, stop
             );
 
-            if(*next_it == U':')
+            if(next_it != stop && *next_it == U':')
             {
                 ++next_it;
                 if(next_it == stop) [[unlikely]]
-- 
2.43.0


From 9cc2c27eeb3af002dc5c1b993f2af618ef1c34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 024/108] fix: report integers out of range in scripts and
 indices

---
 include/papilio/core.hpp | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1d0ce10..8a82b70 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3329,17 +3329,28 @@ protected:
             if(!utf::is_digit(ch))
                 break;
 
-            value *= 10;
-            value += ch - U'0';
-            ++start;
-        }
+            const T digit = static_cast<T>(ch - U'0');
+            using limits = std::numeric_limits<T>;
 
-        if(negative)
-        {
-            if constexpr(std::is_signed_v<T>)
-                value = -value;
+            // Negative values are accumulated downwards so that the lowest value is representable
+            if(!negative)
+            {
+                if(value > (limits::max() - digit) / 10) [[unlikely]]
+                    throw std::out_of_range("integer value out of range");
+                value = static_cast<T>(value * 10 + digit);
+            }
+            else if constexpr(std::is_signed_v<T>)
+            {
+                if(value < (limits::min() + digit) / 10) [[unlikely]]
+                    throw std::out_of_range("integer value out of range");
+                value = static_cast<T>(value * 10 - digit);
+            }
             else
+            {
                 throw std::out_of_range("integer value out of range");
+            }
+
+            ++start;
         }
 
         return std::make_pair(value, start);
-- 
2.43.0


From 19e8e342ca733ee2a4e0db13a9584aa6a48a8b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 025/108] fix: reject an argument index that does not fit in
 the index type

---
 include/papilio/core.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8a82b70..a6341e8 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4109,8 +4109,13 @@ private:
                 if(!utf::is_digit(ch))
                     break;
 
-                idx *= 10;
-                idx += static_cast<std::size_t>(ch - U'0');
+                const std::size_t digit = static_cast<std::size_t>(ch - U'0');
+                constexpr std::size_t max_idx = static_cast<std::size_t>(
+                    (std::numeric_limits<ssize_t>::max)()
+                );
+                if(idx > (max_idx - digit) / 10) [[unlikely]]
+                    my_base::throw_error(script_error_code::invalid_field_name, start);
+                idx = idx * 10 + digit;
                 ++start;
             }
 
-- 
2.43.0


From 1d016f3d2aba05aea78635f604d5d0122c5364dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 026/108] fix: accept all upper case letters in field names

---
 src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core.cpp b/src/core.cpp
index 5cbaee3..6adfae0 100644
--- a/src/core.cpp
+++ b/src/core.cpp
@@ -137,7 +137,7 @@ bool script_base::is_field_name_ch(char32_t ch, bool first) noexcept
         return false;
 
     return digit ||
-           (U'A' <= ch && ch <= U'A') ||
+           (U'A' <= ch && ch <= U'Z') ||
            (U'a' <= ch && ch <= U'z') ||
            ch == U'_' ||
            ch >= 128;
-- 
2.43.0


From 27ddb5b9dbc370777965c138b24fd10271c686f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 027/108] fix: keep the ownership of strings in variables

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a6341e8..06ab8bd 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -456,7 +456,7 @@ private:
             {
                 return convert_arg(std::forward<T>(v));
             },
-            var
+            std::forward<Variant>(var)
         );
     }
 
@@ -584,7 +584,7 @@ public:
     [[nodiscard]]
     variant_type&& to_variant() && noexcept
     {
-        return m_var;
+        return std::move(m_var);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 4b7985bd00fd1cd31dbe17187be3f5ccd0581063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 028/108] fix: saturate unsigned values that do not fit in a
 script variable

---
 include/papilio/core.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 06ab8bd..97efc9f 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -416,6 +416,20 @@ public:
         string_container_type>;
 
 private:
+    // Converts to int_type and keeps the order of values that are too large
+    template <std::integral T>
+    static int_type convert_int(T val) noexcept
+    {
+        if constexpr(std::is_unsigned_v<T> && sizeof(T) >= sizeof(int_type))
+        {
+            constexpr int_type max_val = (std::numeric_limits<int_type>::max)();
+            if(val > static_cast<T>(max_val))
+                return max_val;
+        }
+
+        return static_cast<int_type>(val);
+    }
+
     template <typename T>
     static variant_type convert_arg(T&& arg)
     {
@@ -432,7 +446,7 @@ private:
         }
         else if constexpr(integral<arg_type>)
         {
-            return variant_type(in_place_type<int_type>, arg);
+            return variant_type(in_place_type<int_type>, convert_int(arg));
         }
         else if constexpr(floating_point<arg_type>)
         {
@@ -470,7 +484,7 @@ public:
 
     template <std::integral T>
     basic_variable(T i)
-        : m_var(std::in_place_type<int_type>, i)
+        : m_var(std::in_place_type<int_type>, convert_int(i))
     {}
 
     template <std::floating_point T>
-- 
2.43.0


From fca89ed81350f66aa45878f410af7b44ab92b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 029/108] fix: own the temporary objects returned by accessors

---
 include/papilio/access.hpp | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index b28282d..c75a958 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -348,7 +348,8 @@ public:
         }
         else
         {
-            return format_arg_type(accessor_type::index(std::forward<U>(object), i));
+            return make_arg([&]() -> decltype(auto)
+                            { return accessor_type::index(std::forward<U>(object), i); });
         }
     }
 
@@ -362,7 +363,8 @@ public:
         }
         else
         {
-            return format_arg_type(accessor_type::index(std::forward<U>(object), s));
+            return make_arg([&]() -> decltype(auto)
+                            { return accessor_type::index(std::forward<U>(object), s); });
         }
     }
 
@@ -376,10 +378,32 @@ public:
         }
         else
         {
-            return format_arg_type(accessor_type::index(std::forward<U>(object), str));
+            return make_arg([&]() -> decltype(auto)
+                            { return accessor_type::index(std::forward<U>(object), str); });
         }
     }
 
+private:
+    // A format argument only refers to an object of user-defined type,
+    // so an object that is returned by value must be stored in the argument.
+    template <typename Func>
+    static format_arg_type make_arg(Func&& func)
+    {
+        using result_type = std::invoke_result_t<Func>;
+        using handle_type = typename format_arg_type::handle;
+
+        if constexpr(
+            !std::is_reference_v<result_type> &&
+            !std::is_same_v<std::remove_cv_t<result_type>, format_arg_type> &&
+            std::is_constructible_v<format_arg_type, independent_t, result_type> &&
+            !basic_string_like<result_type, char_type>
+        )
+            return format_arg_type(std::in_place_type<handle_type>, independent, std::forward<Func>(func)());
+        else
+            return format_arg_type(std::forward<Func>(func)());
+    }
+
+public:
     [[nodiscard]]
     static constexpr bool attribute_available() noexcept
     {
@@ -394,7 +418,8 @@ public:
     {
         if constexpr(attribute_available())
         {
-            return format_arg_type(accessor_type::attribute(std::forward<U>(object), attr));
+            return make_arg([&]() -> decltype(auto)
+                            { return accessor_type::attribute(std::forward<U>(object), attr); });
         }
         else
         {
-- 
2.43.0


From 39fd0d8391d3893273a3be8976ccf25b4c8cb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 030/108] fix: let exceptions leave the constructor of an
 independent format argument

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 97efc9f..f4bbe3e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1379,7 +1379,7 @@ public:
 
     template <typename T>
     requires(use_handle_v<T>)
-    basic_format_arg(independent_t, T&& val) noexcept
+    basic_format_arg(independent_t, T&& val)
         : m_val(std::in_place_type<handle>, independent, std::forward<T>(val))
     {}
 
-- 
2.43.0


From 8cef9c57215485d76265db76e5d70170e1d316df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 031/108] fix: keep intermediate objects alive in chained
 access

---
 include/papilio/core.hpp | 135 ++++++++++++++++++++++++++++-----------
 include/papilio/core.inl |   2 +-
 2 files changed, 100 insertions(+), 37 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f4bbe3e..3aed8e3 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -14,6 +14,7 @@
 #include <variant>
 #include <typeinfo>
 #include <map>
+#include <forward_list>
 #include <span>
 #include <array>
 #include <charconv>
@@ -1535,7 +1536,7 @@ public:
 
     void format(parse_context& parse_ctx, Context& out_ctx) const;
 
-    void skip_spec(parse_context& parse_ctx);
+    void skip_spec(parse_context& parse_ctx) const;
 
 private:
     variant_type m_val;
@@ -3582,7 +3583,9 @@ public:
      */
     static std::pair<format_arg_type, iterator> access(parse_context& ctx)
     {
-        return access_impl(ctx, ctx.begin(), ctx.end());
+        access_result result = access_impl(ctx, ctx.begin(), ctx.end());
+
+        return std::make_pair(std::move(result).release(), result.next());
     }
 
     class interpreter_context
@@ -3785,29 +3788,96 @@ public:
     }
 
 private:
-    static std::pair<format_arg_type, iterator> access_impl(parse_context& ctx, iterator start, iterator stop)
+    /**
+     * @brief Result of accessing the format argument
+     *
+     * The result of an accessor may refer to the object it came from.
+     * Therefore, all the intermediate objects are stored here until the result is no longer used.
+     */
+    class access_result
+    {
+    public:
+        explicit access_result(const format_arg_type& arg)
+            : m_arg(&arg) {}
+
+        access_result(const access_result&) = delete;
+        access_result(access_result&&) noexcept = default;
+
+        const format_arg_type& arg() const noexcept
+        {
+            return *m_arg;
+        }
+
+        const iterator& next() const noexcept
+        {
+            return m_next;
+        }
+
+        void advance_to(iterator it)
+        {
+            m_next = std::move(it);
+        }
+
+        void push(format_arg_type arg)
+        {
+            m_chain.push_front(std::move(arg));
+            m_arg = &m_chain.front();
+        }
+
+        format_arg_type release() &&
+        {
+            if(m_chain.empty())
+                return *m_arg;
+
+            format_arg_type result = std::move(m_chain.front());
+            if(result.template holds<string_container_type>())
+            {
+                // The string may be referring to an intermediate object
+                auto& str = *std::get_if<string_container_type>(&result.to_variant());
+                if(std::next(m_chain.begin()) != m_chain.end())
+                    str.obtain_ownership();
+            }
+
+            return result;
+        }
+
+    private:
+        const format_arg_type* m_arg;
+        std::forward_list<format_arg_type> m_chain;
+        iterator m_next{};
+    };
+
+    static access_result access_impl(parse_context& ctx, iterator start, iterator stop)
     {
         if(start == stop) [[unlikely]]
             my_base::throw_end_of_string();
 
         auto [arg, next_it] = parse_field_name(ctx, start, stop);
 
-        std::tie(arg, next_it) = parse_chained_access(arg, next_it, stop);
+        access_result result(*arg);
+        parse_chained_access(result, next_it, stop);
 
-        return std::make_pair(std::move(arg), next_it);
+        return result;
     }
 
-    static void skip_repl(parse_context& parse_ctx)
+    // Find the beginning of format specification after the field name
+    static iterator find_spec(iterator it, iterator stop)
     {
-        auto [arg, next_it] = access(parse_ctx);
-
-        if(next_it == parse_ctx.end()) [[unlikely]]
+        if(it == stop) [[unlikely]]
             my_base::throw_end_of_string();
-        if(*next_it == U':')
-            ++next_it;
 
-        parse_ctx.advance_to(next_it);
-        arg.skip_spec(parse_ctx);
+        if(*it == U':')
+            ++it;
+
+        return it;
+    }
+
+    static void skip_repl(parse_context& parse_ctx)
+    {
+        const access_result result = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end());
+        parse_ctx.advance_to(find_spec(result.next(), parse_ctx.end()));
+
+        result.arg().skip_spec(parse_ctx);
     }
 
     /**
@@ -3971,15 +4041,10 @@ private:
      */
     static void exec_repl(parse_context& parse_ctx, FormatContext& fmt_ctx)
     {
-        auto [arg, next_it] = access(parse_ctx);
-
-        if(next_it == parse_ctx.end()) [[unlikely]]
-            my_base::throw_end_of_string();
-        if(*next_it == U':')
-            ++next_it;
+        const access_result result = access_impl(parse_ctx, parse_ctx.begin(), parse_ctx.end());
+        parse_ctx.advance_to(find_spec(result.next(), parse_ctx.end()));
 
-        parse_ctx.advance_to(next_it);
-        arg.format(parse_ctx, fmt_ctx);
+        result.arg().format(parse_ctx, fmt_ctx);
     }
 
     static std::pair<variable_type, iterator> parse_variable(parse_context& ctx, iterator start, iterator stop)
@@ -3991,15 +4056,17 @@ private:
         if(first_ch == U'{')
         {
             ++start;
-            auto [arg, next_it] = access_impl(ctx, start, stop);
+            access_result result = access_impl(ctx, start, stop);
+            iterator next_it = result.next();
+
             if(next_it == stop) [[unlikely]]
                 my_base::throw_end_of_string();
             if(*next_it != U'}') [[unlikely]]
                 my_base::throw_error(script_error_code::unenclosed_brace, next_it);
-
             ++next_it;
+
             return std::make_pair(
-                variable_type(std::move(arg).to_variant()),
+                variable_type(std::move(result).release().to_variant()),
                 next_it
             );
         }
@@ -4105,7 +4172,7 @@ private:
         my_base::throw_error(script_error_code::invalid_condition, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_field_name(
+    static std::pair<const format_arg_type*, iterator> parse_field_name(
         parse_context& ctx, iterator start, iterator stop
     )
     {
@@ -4134,7 +4201,7 @@ private:
             }
 
             ctx.check_arg_id(idx);
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return std::make_pair(&ctx.get_args()[static_cast<ssize_t>(idx)], start);
         }
         else if(my_base::is_field_name_ch(first_ch, true))
         {
@@ -4145,7 +4212,7 @@ private:
             string_ref_type name(str_start, str_end);
 
             return std::make_pair(
-                ctx.get_args().get(string_view_type(name)),
+                &ctx.get_args().get(string_view_type(name)),
                 str_end
             );
         }
@@ -4153,18 +4220,14 @@ private:
         {
             std::size_t idx = ctx.current_arg_id();
             ctx.next_arg_id();
-            return std::make_pair(ctx.get_args()[static_cast<ssize_t>(idx)], start);
+            return std::make_pair(&ctx.get_args()[static_cast<ssize_t>(idx)], start);
         }
 
         my_base::throw_error(script_error_code::invalid_field_name, start);
     }
 
-    static std::pair<format_arg_type, iterator> parse_chained_access(
-        format_arg_type& base_arg, iterator start, iterator stop
-    )
+    static void parse_chained_access(access_result& result, iterator start, iterator stop)
     {
-        format_arg_type current = base_arg;
-
         while(start != stop)
         {
             char32_t first_ch = *start;
@@ -4179,7 +4242,7 @@ private:
                 if(attr_name.empty())
                     my_base::throw_error(script_error_code::invalid_attribute, str_end);
 
-                current = current.attribute(attr_name);
+                result.push(result.arg().attribute(attr_name));
 
                 start = str_end;
             }
@@ -4193,7 +4256,7 @@ private:
                     my_base::throw_error(script_error_code::invalid_index, next_it);
                 ++next_it;
 
-                current = current.index(idx);
+                result.push(result.arg().index(idx));
 
                 start = next_it;
             }
@@ -4203,7 +4266,7 @@ private:
             }
         }
 
-        return std::make_pair(std::move(current), start);
+        result.advance_to(start);
     }
 };
 
diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index 5621600..e0df92b 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -108,7 +108,7 @@ void basic_format_arg<Context>::format(parse_context& parse_ctx, Context& out_ct
 }
 
 template <typename Context>
-void basic_format_arg<Context>::skip_spec(parse_context& parse_ctx)
+void basic_format_arg<Context>::skip_spec(parse_context& parse_ctx) const
 {
     visit(
         [&]<typename T>(const T& v)
-- 
2.43.0


From d4ca68adfbf50379acd9a7e759a42ff4270bb27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 032/108] fix: reject characters between the field name and the
 end of a replacement field

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 3aed8e3..70b9d97 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -3868,6 +3868,8 @@ private:
 
         if(*it == U':')
             ++it;
+        else if(*it != U'}') [[unlikely]]
+            my_base::throw_error(script_error_code::unenclosed_brace, it);
 
         return it;
     }
-- 
2.43.0


From 713a3a6591e4a8c798437df6f1cd81a08c59909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 033/108] fix: end the script after its last branch

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 70b9d97..e6a4a1a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4032,6 +4032,8 @@ private:
                 start = exec_branch_if(
                     exec_this_branch, parse_ctx, fmt_ctx
                 );
+
+                break; // Nothing can follow the default branch
             }
         }
 
-- 
2.43.0


From 1b3894b8d332acb8003a6e8cbf69aca9048f2641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 034/108] fix: reject width and precision values that do not
 fit in int

---
 include/papilio/core.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index e6a4a1a..170c699 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4368,6 +4368,8 @@ namespace detail
         template <bool IsPrecision>
         static std::pair<std::size_t, iterator> parse_value(ParseContext& ctx)
         {
+            constexpr ssize_t max_value = (std::numeric_limits<int>::max)();
+
             iterator start = ctx.begin();
             const iterator stop = ctx.end();
             PAPILIO_ASSERT(start != stop);
@@ -4400,6 +4402,9 @@ namespace detail
                 if(!var.holds_int())
                     throw format_error("invalid type");
                 ssize_t val = var.as<ssize_t>();
+                if(val > max_value) [[unlikely]]
+                    throw format_error("invalid format");
+
                 if constexpr(IsPrecision)
                 {
                     if(val < 0)
@@ -4425,6 +4430,8 @@ namespace detail
                         break;
                     val *= 10;
                     val += static_cast<std::size_t>(ch - U'0');
+                    if(std::cmp_greater(val, max_value)) [[unlikely]]
+                        throw format_error("invalid format");
 
                     ++start;
                 }
-- 
2.43.0


From 6a103df9593ff4823bea4531fcd01807bae11653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 035/108] fix: align code points to the left by default

---
 include/papilio/core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 170c699..f5a5548 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5206,6 +5206,8 @@ public:
         data() = dt;
         data().type = dt.type_or(U'c');
         data().fill = dt.fill_or(U' ');
+        if(data().align == format_align::default_align)
+            data().align = format_align::left;
     }
 
     void set_debug_format() noexcept
-- 
2.43.0


From 23679cc884584b35a8a5860a99957cf54fc7af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 036/108] fix: reject integers outside the range of code points
 for the type c

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f5a5548..9c71fd2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5648,7 +5648,7 @@ public:
     {
         if(m_data.type == U'c')
         {
-            if(std::cmp_greater(val, std::numeric_limits<std::uint32_t>::max()))
+            if(std::cmp_less(val, 0) || std::cmp_greater(val, 0x10FFFFu))
                 throw format_error("integer value out of range");
 
             codepoint_formatter fmt;
-- 
2.43.0


From 15bde47654f3022efcbb7f93a8a7294c20ba3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 037/108] fix: only parse precision for types that use it

---
 include/papilio/core.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 9c71fd2..1c9689b 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4623,10 +4623,12 @@ public:
             goto parse_end;
         if(*start == U'.')
         {
+            if constexpr(!EnablePrecision)
+                throw format_error("invalid precision");
+
             ++start;
             if(start == stop)
                 throw format_error("invalid precision");
-
             ctx.advance_to(start);
             std::tie(result.precision, start) = utils::template parse_value<true>(ctx);
         }
@@ -5685,10 +5687,8 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, false>;
-
+        using parser_t = std_formatter_parser<ParseContext, true>;
         parser_t parser;
-
         typename ParseContext::iterator it{};
         std::tie(m_data, it) = parser.parse(ctx, U"fFgGeEaA"sv);
 
@@ -5917,10 +5917,8 @@ public:
     {
         using namespace std::literals;
 
-        using parser_t = std_formatter_parser<ParseContext, true>;
-
+        using parser_t = std_formatter_parser<ParseContext, false>;
         parser_t parser;
-
         typename ParseContext::iterator it{};
         std::tie(m_data, it) = parser.parse(ctx, U"pP"sv);
 
-- 
2.43.0


From 6f36dca477005fbc1a6a9d6540e7c099bd8d55cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 038/108] fix: distinguish an explicit precision of zero from
 no precision

---
 include/papilio/core.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 1c9689b..5e9005e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -251,6 +251,7 @@ PAPILIO_EXPORT struct std_formatter_data
     bool fill_zero = false;
     bool alternate_form = false;
     bool use_locale = false;
+    bool has_precision = false;
 
     [[nodiscard]]
     constexpr bool contains_type(char32_t type_ch) const noexcept
@@ -4631,6 +4632,7 @@ public:
                 throw format_error("invalid precision");
             ctx.advance_to(start);
             std::tie(result.precision, start) = utils::template parse_value<true>(ctx);
+            result.has_precision = true;
         }
 
         if(utils::check_stop(start, stop))
@@ -5136,16 +5138,19 @@ private:
         }
 
         int precision = static_cast<int>(data().precision);
-        if(precision == 0 &&
+        bool has_precision = data().has_precision || precision != 0;
+
+        if(!has_precision &&
            U"fFeEgG"sv.find(data().type) != std::u32string::npos)
         {
             precision = 6;
+            has_precision = true;
         }
 
         char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
         char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
 
-        if(precision == 0)
+        if(!has_precision)
             result = std::to_chars(start, stop, val, ch_fmt);
         else
             result = std::to_chars(start, stop, val, ch_fmt, precision);
@@ -5288,7 +5293,7 @@ public:
         std::size_t used = 0; // Used width
 
         // The "precision" for a string means the max width can be used.
-        if(data().precision != 0)
+        if(data().has_precision || data().precision != 0)
         {
             for(auto it = str.begin(); it != str.end(); ++it)
             {
-- 
2.43.0


From 0164553667940a7aa2a2e092ae0829f873fbc6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 039/108] fix: use the shortest representation of floating
 points without type and precision

---
 include/papilio/core.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 5e9005e..4a8c8eb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4966,7 +4966,7 @@ private:
  * - `g`, `G`: General format. The precision will be 6 if not specified.
  * - `e`, `E`: Scientific format. The precision will be 6 if not specified.
  * - `a`, `A`: Hexadecimal format.
- * - none: Same as the general (`g`) format.
+ * - none: Same as the general (`g`) format if the precision is specified. Otherwise, the shortest representation is used.
  *
  * The uppercase types will replace all letters with their uppercase version.
  * For example, `E` format will use the letter E to indicate the exponent.
@@ -5150,10 +5150,12 @@ private:
         char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
         char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
 
-        if(!has_precision)
-            result = std::to_chars(start, stop, val, ch_fmt);
-        else
+        if(has_precision)
             result = std::to_chars(start, stop, val, ch_fmt, precision);
+        else if(data().type == U'\0')
+            result = std::to_chars(start, stop, val);
+        else
+            result = std::to_chars(start, stop, val, ch_fmt);
 
         if(result.ec == std::errc::value_too_large) [[unlikely]]
         {
-- 
2.43.0


From b5ac9a0519f54b82d7267156121f8d7aea3c1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 040/108] fix: format floating points of any length

---
 include/papilio/core.hpp | 101 ++++++++++++++-------------------------
 1 file changed, 36 insertions(+), 65 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 4a8c8eb..00a1790 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4993,16 +4993,13 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
-        CharT buf[buf_size];
-
-        std::size_t fp_size = 0;
-
         bool neg = std::signbit(val);
         val = std::abs(val);
 
-        fp_size = conv<CharT>(buf, val);
-
-        std::size_t used = fp_size;
+        char buf[buf_size];
+        std::string long_buf; // For the results that do not fit in the stack buffer
+        const std::string_view digits = conv(buf, long_buf, val);
+        std::size_t used = digits.size();
 
         switch(data().sign)
         {
@@ -5045,7 +5042,8 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        context_t::append(ctx, buf, buf + fp_size);
+        for(char ch : digits)
+            context_t::append(ctx, static_cast<CharT>(ch));
 
         fill(ctx, right);
 
@@ -5096,45 +5094,19 @@ private:
         return std::make_pair(ch_fmt, uppercase);
     }
 
-    template <char8_like U>
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
+    std::string_view conv(std::span<char, buf_size> buf, std::string& long_buf, T val) const
     {
         using namespace std::literals;
 
-        std::to_chars_result result;
         auto [ch_fmt, uppercase] = get_chars_fmt();
 
         if(std::isinf(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'I';
-                buf[1] = 'N';
-                buf[2] = 'F';
-            }
-            else
-            {
-                buf[0] = 'i';
-                buf[1] = 'n';
-                buf[2] = 'f';
-            }
-            return 3;
+            return uppercase ? "INF"sv : "inf"sv;
         }
         else if(std::isnan(val)) [[unlikely]]
         {
-            if(uppercase)
-            {
-                buf[0] = 'N';
-                buf[1] = 'A';
-                buf[2] = 'N';
-            }
-            else
-            {
-                buf[0] = 'n';
-                buf[1] = 'a';
-                buf[2] = 'n';
-            }
-            return 3;
+            return uppercase ? "NAN"sv : "nan"sv;
         }
 
         int precision = static_cast<int>(data().precision);
@@ -5147,15 +5119,30 @@ private:
             has_precision = true;
         }
 
-        char* start = std::bit_cast<char*>(std::to_address(buf.begin()));
-        char* stop = std::bit_cast<char*>(std::to_address(buf.end()));
+        auto to_chars_impl = [&](char* start, char* stop) -> std::to_chars_result
+        {
+            if(has_precision)
+                return std::to_chars(start, stop, val, ch_fmt, precision);
+            else if(data().type == U'\0')
+                return std::to_chars(start, stop, val);
+            else
+                return std::to_chars(start, stop, val, ch_fmt);
+        };
+
+        char* start = buf.data();
+        std::to_chars_result result = to_chars_impl(start, start + buf.size());
 
-        if(has_precision)
-            result = std::to_chars(start, stop, val, ch_fmt, precision);
-        else if(data().type == U'\0')
-            result = std::to_chars(start, stop, val);
-        else
-            result = std::to_chars(start, stop, val, ch_fmt);
+        if(result.ec == std::errc::value_too_large) [[unlikely]]
+        {
+            // All digits of the integral part and the fractional part, the decimal point, and the exponent
+            long_buf.resize(
+                static_cast<std::size_t>(std::numeric_limits<T>::max_exponent10) +
+                static_cast<std::size_t>(precision) +
+                buf_size
+            );
+            start = long_buf.data();
+            result = to_chars_impl(start, start + long_buf.size());
+        }
 
         if(result.ec == std::errc::value_too_large) [[unlikely]]
         {
@@ -5166,32 +5153,16 @@ private:
             PAPILIO_UNREACHABLE();
         }
 
-        std::size_t size = static_cast<std::size_t>(
-            result.ptr - std::bit_cast<char*>(buf.data())
-        );
-
         if(uppercase)
         {
-            for(std::size_t i = 0; i < size; ++i)
+            for(char* it = start; it != result.ptr; ++it)
             {
-                if('a' <= buf[i] && buf[i] <= 'z')
-                    buf[i] -= 'a' - 'A'; // to upper
+                if('a' <= *it && *it <= 'z')
+                    *it -= 'a' - 'A'; // to upper
             }
         }
 
-        return size;
-    }
-
-    template <typename U>
-    requires(!char8_like<U>)
-    std::size_t conv(std::span<U, buf_size> buf, T val) const
-    {
-        char narrow_buf[buf_size];
-        std::size_t size = conv<char>(narrow_buf, val);
-        PAPILIO_ASSERT(size <= buf.size());
-
-        std::copy_n(narrow_buf, size, buf.begin());
-        return size;
+        return std::string_view(start, static_cast<std::size_t>(result.ptr - start));
     }
 };
 
-- 
2.43.0


From 136d7caf3dac0787b1529aa0f448b4867aaa2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 041/108] fix: pad floating points with zeros

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 00a1790..c126e32 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4983,7 +4983,9 @@ public:
 
         data() = dt;
         data().fill = dt.fill_or(U' ');
-        if(data().align == format_align::default_align)
+        if(data().align != format_align::default_align)
+            data().fill_zero = false;
+        else
             data().align = format_align::right;
     }
 
@@ -4993,6 +4995,9 @@ public:
     {
         using context_t = format_context_traits<FormatContext>;
 
+        // Infinity and NaN are never padded with zeros
+        const bool fill_zero = data().fill_zero && std::isfinite(val);
+
         bool neg = std::signbit(val);
         val = std::abs(val);
 
@@ -5018,7 +5023,9 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
-        auto [left, right] = fill_size(used);
+        auto [left, right] = fill_zero ?
+                                 std::make_pair<std::size_t, std::size_t>(0, 0) :
+                                 fill_size(used);
 
         fill(ctx, left);
 
@@ -5042,6 +5049,9 @@ public:
             PAPILIO_UNREACHABLE();
         }
 
+        if(fill_zero && used < data().width)
+            context_t::append(ctx, static_cast<CharT>('0'), data().width - used);
+
         for(char ch : digits)
             context_t::append(ctx, static_cast<CharT>(ch));
 
-- 
2.43.0


From 02cf9dc989d0ef411fa6e4a46031c97f69a50868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 042/108] fix: format enumeration values outside of the
 supported range as integers

---
 include/papilio/core.hpp    | 14 ++++++++++++++
 include/papilio/utility.hpp |  8 ++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c126e32..90ca272 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5352,6 +5352,20 @@ public:
             fmt.set_data(m_data);
             return fmt.format(PAPILIO_NS to_underlying(e), ctx);
         }
+
+#ifdef PAPILIO_HAS_ENUM_NAME
+        if(enum_name<Enum>(e).empty())
+        {
+            // No name is available, fallback to integer representation
+            std_formatter_data dt = m_data;
+            dt.type = U'd';
+
+            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
+            fmt.set_data(dt);
+            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+        }
+#endif
+
 #ifdef PAPILIO_HAS_ENUM_NAME
         else
         {
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 8a41c03..892d358 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -981,7 +981,7 @@ constexpr std::string_view static_enum_name()
  * @param value The enum value.
  *
  * @warning This function has some limitations.
- * - It can only convert valid enum values ranging from -128 to 128.
+ * - It can only convert valid enum values ranging from -128 to 128. The result is empty for other values.
  *
  * @sa static_enum_name
  */
@@ -996,7 +996,11 @@ constexpr std::string_view enum_name(T value) noexcept
         };
     }(std::make_index_sequence<256>());
 
-    return names[static_cast<std::size_t>(value) + 128];
+    const auto val = static_cast<std::underlying_type_t<T>>(value);
+    if(std::cmp_less(static_cast<ssize_t>(val), -128) || static_cast<ssize_t>(val) >= 128)
+        return std::string_view();
+
+    return names[static_cast<std::size_t>(static_cast<ssize_t>(val) + 128)];
 }
 
 #if defined PAPILIO_COMPILER_CLANG
-- 
2.43.0


From 14647b63c74bfad8ea55ea8259e7e19ad144b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 043/108] fix: escape exactly the invalid code units of a
 string

---
 include/papilio/core.hpp | 124 +++++++++++++++++++++++----------------
 1 file changed, 73 insertions(+), 51 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 90ca272..a8276ca 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2489,66 +2489,84 @@ public:
 #endif
 
 private:
-    static void append_escaped_impl(context_type& ctx, string_view_type str)
+    // Returns size of the valid UTF-8 sequence at the beginning of the string, or 0 if it is invalid
+    static std::size_t valid_sequence_size(string_view_type str) noexcept
         requires(char8_like<char_type>)
     {
-        std::size_t i = 0;
-        while(i < str.size())
+        PAPILIO_ASSERT(!str.empty());
+
+        const std::uint8_t first = static_cast<std::uint8_t>(str[0]);
+        if(first < 0x80)
+            return 1;
+
+        std::size_t size_bytes = 0;
+        char32_t min_value = 0;
+        char32_t value = 0;
+
+        if(0xC0 <= first && first < 0xE0)
         {
-            if(PAPILIO_NS utf::is_leading_byte(str[i]))
-            {
-                std::uint8_t size_bytes = PAPILIO_NS utf::byte_count(str[i]);
-                if(i + size_bytes > str.size())
-                {
-                    for(std::size_t j = i; j < str.size(); ++j)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(str[j]), false);
-                    }
-                    return;
-                }
+            size_bytes = 2;
+            min_value = 0x80;
+            value = first & 0x1Fu;
+        }
+        else if(0xE0 <= first && first < 0xF0)
+        {
+            size_bytes = 3;
+            min_value = 0x800;
+            value = first & 0x0Fu;
+        }
+        else if(0xF0 <= first && first < 0xF8)
+        {
+            size_bytes = 4;
+            min_value = 0x10000;
+            value = first & 0x07u;
+        }
+        else
+            return 0;
 
-                if(has_esc_seq<true, false>(str[i]))
-                {
-                    append_as_esc_seq<true, false>(ctx, str[i]);
-                }
-                else if(std::all_of(
-                            str.begin() + i + 1,
-                            str.begin() + i + size_bytes,
-                            &utf::is_trailing_byte
-                        ))
-                {
-                    append(
-                        ctx,
-                        string_view_type(
-                            str.begin() + i,
-                            str.begin() + i + size_bytes
-                        )
-                    );
-                }
-                else
-                {
-                    auto stop = std::find_if_not(
-                        str.begin() + i + 1,
-                        str.begin() + i + size_bytes,
-                        &utf::is_trailing_byte
-                    );
+        if(str.size() < size_bytes)
+            return 0;
 
-                    for(auto it = str.begin() + i; it != stop; ++it)
-                    {
-                        append_hex_digits(ctx, static_cast<std::uint8_t>(*it), false);
-                    }
+        for(std::size_t i = 1; i < size_bytes; ++i)
+        {
+            const std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
+            if((ch & 0xC0u) != 0x80u)
+                return 0;
+            value = (value << 6) | (ch & 0x3Fu);
+        }
 
-                    i += std::distance(str.begin() + i, stop);
-                    continue;
-                }
+        return value >= min_value && is_scalar_value(value) ? size_bytes : 0;
+    }
 
-                i += size_bytes;
+    static bool is_scalar_value(char32_t ch) noexcept
+    {
+        return ch < 0xD800 || (0xDFFF < ch && ch <= 0x10FFFF);
+    }
+
+    static void append_escaped_impl(context_type& ctx, string_view_type str)
+        requires(char8_like<char_type>)
+    {
+        std::size_t i = 0;
+        while(i < str.size())
+        {
+            const std::uint8_t ch = static_cast<std::uint8_t>(str[i]);
+            const std::size_t size_bytes = valid_sequence_size(str.substr(i));
+
+            if(size_bytes == 0)
+            {
+                append_hex_digits(ctx, ch, false);
+                ++i;
             }
-            else
+            else if(size_bytes == 1 && has_esc_seq<true, false>(ch))
             {
-                append_hex_digits(ctx, str[i], false);
+                append_as_esc_seq<true, false>(ctx, ch);
                 ++i;
             }
+            else
+            {
+                append(ctx, str.substr(i, size_bytes));
+                i += size_bytes;
+            }
         }
     }
 
@@ -2574,13 +2592,13 @@ private:
                 else if(!PAPILIO_NS utf::is_low_surrogate(str[i + 1]))
                 {
                     append_hex_digits(ctx, ch, false);
+                    ++i;
                 }
                 else
                 {
                     append(ctx, str.begin() + i, str.begin() + i + 2);
+                    i += 2;
                 }
-
-                i += 2;
             }
             else
             {
@@ -2607,6 +2625,10 @@ private:
             {
                 append_as_esc_seq<true, false>(ctx, static_cast<std::uint32_t>(ch));
             }
+            else if(!is_scalar_value(static_cast<char32_t>(ch)))
+            {
+                append_hex_digits(ctx, static_cast<std::uint32_t>(ch), false);
+            }
             else
             {
                 append(ctx, ch, 1);
-- 
2.43.0


From e5aa384d43239fc4c590cb2e5eb0fd45a3382457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 044/108] fix: keep the explicit specification of range
 elements

---
 include/papilio/core.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a8276ca..f1ba6eb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5486,6 +5486,7 @@ public:
     auto parse(ParseContext& ctx)
         -> typename ParseContext::iterator
     {
+        bool has_underlying_spec = false;
         auto it = ctx.begin();
         if(it == ctx.end())
             return it;
@@ -5525,6 +5526,7 @@ public:
         if(it != ctx.end() && *it == U':')
         {
             ++it;
+            has_underlying_spec = it != ctx.end() && *it != U'}';
             ctx.advance_to(it);
             it = m_underlying.parse(ctx);
         }
@@ -5535,7 +5537,7 @@ public:
             fmt_t::try_set_brackets(m_underlying, string_view_type(), string_view_type());
             fmt_t::try_set_separator(m_underlying, PAPILIO_TSTRING_VIEW(CharT, ": "));
         }
-        else if(m_type == U'\0')
+        else if(m_type == U'\0' && !has_underlying_spec)
         {
             fmt_t::try_set_debug_format(m_underlying);
         }
-- 
2.43.0


From 04fbc621f77e3bef4f9a132ab2143d5b65f1d085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 045/108] fix: reserve memory for the existing elements in
 small_vector::append_range

---
 include/papilio/container.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 80079e0..09dba7d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -853,7 +853,8 @@ private:
             Iterator>;
         if constexpr(sized)
         {
-            reserve(static_cast<size_type>(last - first));
+            reserve(this->size() + static_cast<size_type>(last - first));
+
             for(auto it = first; it != last; ++it)
             {
                 emplace_back_impl(*it);
-- 
2.43.0


From 48ffde5c64b9a88d22f0d17e357a9deefab0087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 046/108] fix: access the allocator of a constant small_vector

---
 include/papilio/container.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 09dba7d..dfa4112 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -568,6 +568,11 @@ private:
         return m_data.second();
     }
 
+    const allocator_type& get_alloc() const noexcept
+    {
+        return m_data.second();
+    }
+
     void set_ptrs(pointer p_begin, size_type capacity_offset) noexcept
     {
         m_p_begin = p_begin;
-- 
2.43.0


From 5eb17e3032f60d4dcec56b0f7bd94ec44333d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 047/108] fix: allow inserting an element of the small_vector
 itself

---
 include/papilio/container.hpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index dfa4112..5b1e7ea 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -441,9 +441,15 @@ public:
     {
         if(m_p_end == m_p_capacity)
         {
+            // The arguments may refer to the elements that are going to be moved
+            value_type tmp(std::forward<Args>(args)...);
+
             size_type current = this->size();
             reserve(this->get_mem_size(current, current + 1));
+
+            return emplace_back_impl(std::move(tmp));
         }
+
         return emplace_back_impl(std::forward<Args>(args)...);
     }
 
@@ -496,9 +502,20 @@ public:
         }
         else if(count > this->size())
         {
-            reserve(count);
-            while(this->size() != count)
-                emplace_back_impl(val);
+            if(count > this->capacity())
+            {
+                // The value may refer to an element that is going to be moved
+                const value_type tmp(val);
+
+                reserve(count);
+                while(this->size() != count)
+                    emplace_back_impl(tmp);
+            }
+            else
+            {
+                while(this->size() != count)
+                    emplace_back_impl(val);
+            }
         }
     }
 
@@ -631,14 +648,16 @@ private:
     template <typename... Args>
     iterator emplace_impl(size_type off, Args&&... args)
     {
-        reserve(this->size() + 1);
-
         if(off == this->size())
         {
-            emplace_back_impl(std::forward<Args>(args)...);
+            emplace_back(std::forward<Args>(args)...);
             return std::prev(this->end());
         }
 
+        // The arguments may refer to the elements that are going to be moved
+        value_type tmp(std::forward<Args>(args)...);
+
+        reserve(this->size() + 1);
         emplace_back_impl(std::move(this->back()));
 
         auto move_dst = std::prev(this->end());
@@ -646,7 +665,7 @@ private:
         auto move_src_begin = this->begin() + off;
         std::move_backward(move_src_begin, move_src_end, move_dst);
 
-        *move_src_begin = value_type(std::forward<Args>(args)...);
+        *move_src_begin = std::move(tmp);
 
         return this->begin() + static_cast<difference_type>(off);
     }
-- 
2.43.0


From df023cfa81d486583a58c32cf85fa6b64d024c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 048/108] fix: keep the elements of small_vector when moving
 them throws an exception

---
 include/papilio/container.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 5b1e7ea..8103dc6 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -322,12 +322,9 @@ public:
         else [[likely]]
         {
             set_ptrs(getbuf(), static_capacity());
-
             PAPILIO_ASSERT(other.size() <= this->capacity());
-            for(auto&& i : other)
-            {
-                emplace_back_impl(std::move(i));
-            }
+            std::uninitialized_move(other.begin(), other.end(), m_p_begin);
+            m_p_end += other.size();
             other.clear();
         }
     }
@@ -720,16 +717,14 @@ private:
         try
         {
             std::uninitialized_move_n(tmp_ptr, tmp_size, m_p_begin);
-            std::destroy_n(tmp_ptr, tmp_size);
         }
         catch(...)
         {
-            std::allocator_traits<Allocator>::deallocate(
-                get_alloc(), tmp_ptr, tmp_capacity
-            );
+            set_ptrs(tmp_ptr, tmp_size, tmp_capacity);
             throw;
         }
 
+        std::destroy_n(tmp_ptr, tmp_size);
         std::allocator_traits<Allocator>::deallocate(
             get_alloc(), tmp_ptr, tmp_capacity
         );
-- 
2.43.0


From f55644ce2c2e211d5543aae56a1de4928920b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 049/108] fix: allow inserting an element of the fixed_vector
 itself

---
 include/papilio/container.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 8103dc6..cf40b03 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1096,6 +1096,9 @@ public:
             throw_length_error();
         }
 
+        // The arguments may refer to the elements that are going to be moved
+        value_type tmp(std::forward<Args>(args)...);
+
         emplace_back(std::move(back()));
         if(size() > 2)
         {
@@ -1106,7 +1109,7 @@ public:
         }
 
         iterator nonconst_pos = const_cast<iterator>(pos);
-        *nonconst_pos = std::move(value_type(std::forward<Args>(args)...));
+        *nonconst_pos = std::move(tmp);
 
         return nonconst_pos;
     }
-- 
2.43.0


From 9d3d12bb993d3b83d4230b740ce558822224ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 050/108] fix: destroy the elements when the constructor of
 fixed_vector throws an exception

---
 include/papilio/container.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index cf40b03..eb69586 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -927,6 +927,7 @@ public:
         : m_size(0) {}
 
     fixed_vector(const fixed_vector& other) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -935,6 +936,7 @@ public:
     }
 
     fixed_vector(fixed_vector&& other) noexcept(std::is_nothrow_move_constructible_v<T>)
+        : fixed_vector()
     {
         for(size_type i = 0; i < other.size(); ++i)
         {
@@ -943,6 +945,7 @@ public:
     }
 
     fixed_vector(size_type count, const T& value)
+        : fixed_vector()
     {
         for(size_type i = 0; i < count; ++i)
         {
-- 
2.43.0


From ee0a67b1c262e58de03ef3dc3459ab6e62a0641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 051/108] fix: do not compare the end iterator in
 fixed_flat_map::find

---
 include/papilio/container.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index eb69586..aac55a5 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1404,28 +1404,28 @@ public:
     iterator find(const Key& k)
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     iterator find(const K& k) requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
     const_iterator find(const Key& k) const
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     template <typename K>
     const_iterator find(const K& k) const requires is_transparent_v<Compare>
     {
         auto it = lower_bound(k);
-        return is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
+        return it != end() && is_equal(it->first, k, get_comp().as_key_comp()) ? it : end();
     }
 
     [[nodiscard]]
-- 
2.43.0


From f008060dea750cbe53e3df1fc09c18f670867733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 052/108] fix: construct the mapped value from all arguments in
 fixed_flat_map::try_emplace

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index aac55a5..add1c9b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -1391,7 +1391,7 @@ public:
             pos,
             std::piecewise_construct,
             std::forward_as_tuple(k),
-            std::forward_as_tuple(std::forward<Args>(args))...
+            std::forward_as_tuple(std::forward<Args>(args)...)
         );
         return std::make_pair(
             pos, true
-- 
2.43.0


From c55621373785f3284677a064a4583b25f09abf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 053/108] fix: set the correct ownership of optional_unique_ptr
 constructed from unique_ptr

---
 include/papilio/memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9d9bea8..9c92daf 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -195,7 +195,7 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
@@ -369,7 +369,7 @@ public:
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
         : m_ptr(ptr.release())
     {
-        m_has_ownership = !m_ptr;
+        m_has_ownership = static_cast<bool>(m_ptr);
     }
 
     ~optional_unique_ptr()
-- 
2.43.0


From 662936a432db73079ed5ebc28f84e3e2cb70286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 054/108] fix: make optional_unique_ptr assignable

---
 include/papilio/memory.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 9c92daf..5b71dc7 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -205,7 +205,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+        }
         return *this;
     }
 
@@ -379,7 +390,18 @@ public:
 
     optional_unique_ptr& operator=(const optional_unique_ptr& other)
     {
-        reset(other.get());
+        if(this != &other)
+            reset(other.get(), false);
+        return *this;
+    }
+
+    optional_unique_ptr& operator=(optional_unique_ptr&& other) noexcept
+    {
+        if(this != &other)
+        {
+            const bool ownership = other.has_ownership();
+            reset(other.release(), ownership);
+        }
         return *this;
     }
 
-- 
2.43.0


From 51b41148c7a77b89757f57261ba468922f35a566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 055/108] fix: return the type information of a handle by
 reference

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index f1ba6eb..a80eab6 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1191,7 +1191,7 @@ public:
         }
 
         [[nodiscard]]
-        std::type_info type()
+        const std::type_info& type() const noexcept
         {
             return ptr()->type();
         }
-- 
2.43.0


From 1e3d8f8c12d033f5c9f2a7909fef8ea20cc07175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 056/108] fix: refer to the mapped value instead of a temporary
 copy in map accessors

---
 include/papilio/accessor/ranges.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index f336043..ad1bdcd 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -213,7 +213,7 @@ struct map_accessor
 
         auto it = m.find(static_cast<key_type>(i));
         return it != m.end() ?
-                   static_cast<mapped_type>(it->second) :
+                   format_arg_type(it->second) :
                    format_arg_type();
     }
 
@@ -225,14 +225,14 @@ struct map_accessor
         {
             auto it = m.find(k);
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
         else
         {
             auto it = m.find(static_cast<key_type>(k));
             return it != m.end() ?
-                       static_cast<mapped_type>(it->second) :
+                       format_arg_type(it->second) :
                        format_arg_type();
         }
     }
-- 
2.43.0


From 84967486cc45fb3363259e31dbfc92ba71d315ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 057/108] fix: do not truncate the index in map accessors

---
 include/papilio/accessor/ranges.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index ad1bdcd..a21e114 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -211,7 +211,11 @@ struct map_accessor
                 return format_arg_type();
         }
 
-        auto it = m.find(static_cast<key_type>(i));
+        const auto key = static_cast<key_type>(i);
+        if(static_cast<ssize_t>(key) != i)
+            return format_arg_type();
+
+        auto it = m.find(key);
         return it != m.end() ?
                    format_arg_type(it->second) :
                    format_arg_type();
-- 
2.43.0


From 6935b2f669c28d9e409a65b7df53b6c767245c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 058/108] fix: clamp the beginning of a slice of contiguous
 ranges

---
 include/papilio/accessor/ranges.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/accessor/ranges.hpp b/include/papilio/accessor/ranges.hpp
index a21e114..d0c447d 100644
--- a/include/papilio/accessor/ranges.hpp
+++ b/include/papilio/accessor/ranges.hpp
@@ -94,6 +94,9 @@ struct contiguous_range_accessor
         std::size_t sz = stdr::size(rng);
         s = s.normalize(sz);
 
+        if(s.first < 0)
+            s.first = 0;
+
         if(std::cmp_greater_equal(s.first, sz))
             return format_arg_type();
         else if(std::cmp_greater(s.second, sz))
-- 
2.43.0


From 13a43283d24a14822a87dfd9b2c3abeb4ba4f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:20 +0000
Subject: [PATCH 059/108] fix: accept ranges starting from zero in
 index_range::length

---
 include/papilio/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 892d358..25c4e65 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -208,8 +208,8 @@ public:
     [[nodiscard]]
     constexpr size_type length() const noexcept
     {
-        PAPILIO_ASSERT(first > 0);
-        PAPILIO_ASSERT(second > 0);
+        PAPILIO_ASSERT(first >= 0);
+        PAPILIO_ASSERT(second >= first);
         PAPILIO_ASSERT(second != npos);
         return static_cast<size_type>(second - first);
     }
-- 
2.43.0


From f731de1c46bc453e48899cd1fccdce8e151eae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 060/108] fix: pass the string of the format string in
 format_to for external character types

---
 include/papilio/xchar.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/xchar.hpp b/include/papilio/xchar.hpp
index f9b2007..d0b7cc9 100644
--- a/include/papilio/xchar.hpp
+++ b/include/papilio/xchar.hpp
@@ -60,7 +60,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char8_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -157,7 +157,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char16_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
@@ -255,7 +255,7 @@ OutputIt format_to(
     return PAPILIO_NS detail::vformat_to_impl<char32_t, OutputIt, context_type>(
         std::move(out),
         nullptr,
-        fmt,
+        fmt.get(),
         PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
     );
 }
-- 
2.43.0


From d2ec0cb64baf95b491999b73ed040350466b9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 061/108] fix: check the parse context when selecting the
 formatter of joined elements

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 207b09f..397e1f7 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -615,7 +615,7 @@ public:
     {
         using formatter_t = typename FormatContext::template formatter_type<value_type>;
 
-        if constexpr(formatter_traits<formatter_t>::template parsable<FormatContext>())
+        if constexpr(formatter_traits<formatter_t>::template parsable<ParseContext>())
         {
             formatter_t fmt;
             parse_ctx.advance_to(fmt.parse(parse_ctx));
-- 
2.43.0


From ca0afc0e9739f4040c9613742a0d618174d9b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 062/108] fix: keep the position when moving an iterator of
 formatted_range

---
 include/papilio/format.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 397e1f7..97cb628 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -67,8 +67,10 @@ public:
               m_intp(),
               m_intp_ctx(m_intp.create_context(other.m_intp_ctx.input_context(), m_fmt_ctx)),
               m_buf(std::move(other.m_buf)),
-              m_offset(std::exchange(other.m_offset, 0)) {}
-
+              m_offset(std::exchange(other.m_offset, 0))
+        {
+            m_intp_ctx.advance_input_to(other.m_intp_ctx.input());
+        }
         const_iterator(parse_context& ictx)
             : m_fmt_ctx(std::back_inserter(m_buf), ictx.get_args()),
               m_intp(),
@@ -78,10 +80,12 @@ public:
         {
             m_fmt_ctx = format_context_type(std::back_inserter(m_buf), rhs.m_intp_ctx.input_context().get_args());
             m_intp_ctx = m_intp.create_context(rhs.m_intp_ctx.input_context(), m_fmt_ctx);
+            m_intp_ctx.advance_input_to(rhs.m_intp_ctx.input());
             m_buf = std::move(rhs.m_buf);
             m_offset = std::exchange(rhs.m_offset, 0);
-        }
 
+            return *this;
+        }
         bool operator==(sentinel_t) const
         {
             if(m_offset < m_buf.size())
-- 
2.43.0


From c0b3f251c90db1b782349f0f2d0e563badb89ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 063/108] fix: skip replacement fields without output in
 formatted_range

---
 include/papilio/format.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index 97cb628..f3d36a2 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -88,9 +88,8 @@ public:
         }
         bool operator==(sentinel_t) const
         {
-            if(m_offset < m_buf.size())
-                return false;
-            return m_intp_ctx.input_at_end();
+            fill_buffer();
+            return m_offset >= m_buf.size();
         }
 
         /**
@@ -109,14 +108,19 @@ public:
 
         CharT operator*() const
         {
-            if(m_offset >= m_buf.size())
-            {
-                m_intp.run_n(m_intp_ctx, m_buf.size() - m_offset + 1);
-            }
+            fill_buffer();
+            PAPILIO_ASSERT(m_offset < m_buf.size());
             return m_buf[m_offset];
         }
 
     private:
+        // Run until the current character is available or the input is exhausted
+        void fill_buffer() const
+        {
+            while(m_offset >= m_buf.size() && !m_intp_ctx.input_at_end())
+                m_intp.run_once(m_intp_ctx);
+        }
+
         mutable format_context_type m_fmt_ctx;
         mutable intp_t m_intp;
         mutable intp_ctx_t m_intp_ctx;
-- 
2.43.0


From 08e0c215b85f42c4474b00698c1e42e0a0e09bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 064/108] fix: report the failure of flushing in output_nonconv

---
 src/os/general.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 3b0438c..496cd68 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -20,7 +20,12 @@ void output_nonconv(
         );
     }
 
-    fflush(file);
+    if(fflush(file) != 0)
+    {
+        throw std::system_error(
+            std::make_error_code(std::errc::io_error)
+        );
+    }
 }
 } // namespace papilio::os
 
-- 
2.43.0


From b941ad64b2701a0c694d4a725ba354ed3dc83302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 065/108] fix: output the background color without a foreground
 color

---
 include/papilio/color.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index b9c95f6..040dbe4 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -151,7 +151,7 @@ public:
                 it = set_style(it, 4);
         }
 
-        if(has_foreground())
+        if(has_foreground() || has_background())
         {
             it = set_color(it, to_underlying(m_fg), to_underlying(m_bg));
         }
@@ -163,7 +163,7 @@ public:
     Iterator reset(Iterator it) const
     {
         constexpr char esc[] = "\033[0m";
-        if(has_style() || has_foreground())
+        if(has_style() || has_foreground() || has_background())
             it = std::copy_n(esc, 4, it);
         return it;
     }
@@ -191,9 +191,9 @@ private:
     {
         if(bg_val)
         {
-            PAPILIO_ASSERT(fg_val != 0);
             bg_val += 10;
-
+            if(!fg_val)
+                return PAPILIO_NS format_to(it, "\033[{}m", bg_val);
             return PAPILIO_NS format_to(it, "\033[{};{}m", fg_val, bg_val);
         }
         else
-- 
2.43.0


From 021a3935fc96a402fe1af1287184ad8f02574112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:08 +0000
Subject: [PATCH 066/108] fix: format std::tm with fields of any value

---
 include/papilio/formatter/chrono.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 96c8684..8a7de82 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -73,12 +73,11 @@ public:
     {
         if(m_data.chrono_spec.empty())
         {
-            CharT buf[24];
-            default_tm_fmt_impl(val, buf);
-
+            CharT buf[96];
+            std::size_t buf_size = default_tm_fmt_impl(val, buf);
             string_formatter<CharT> fmt;
             fmt.set_data(m_data.basic);
-            return fmt.format(std::basic_string_view<CharT>(buf, 24), ctx);
+            return fmt.format(std::basic_string_view<CharT>(buf, buf_size), ctx);
         }
         else
         {
@@ -99,7 +98,7 @@ private:
     chrono_formatter_data<CharT> m_data;
 
     // Simulating `asctime()` but without the trailing newline
-    static void default_tm_fmt_impl(const std::tm& val, std::span<CharT, 24> buf)
+    static std::size_t default_tm_fmt_impl(const std::tm& val, std::span<CharT, 96> buf)
     {
         constexpr CharT weekdays[7][3] = {
             {'S', 'u', 'n'},
@@ -124,19 +123,24 @@ private:
             {'N', 'o', 'v'},
             {'D', 'e', 'c'}
         };
+        constexpr CharT unknown[3] = {'?', '?', '?'};
 
-        PAPILIO_NS format_to_n(
+        const bool valid_wday = 0 <= val.tm_wday && val.tm_wday < 7;
+        const bool valid_mon = 0 <= val.tm_mon && val.tm_mon < 12;
+        auto result = PAPILIO_NS format_to_n(
             buf.data(),
             buf.size(),
             PAPILIO_TSTRING_VIEW(CharT, "{} {} {:2d} {:02d}:{:02d}:{:02d} {:4d}"),
-            std::basic_string_view<CharT>(weekdays[val.tm_wday], 3),
-            std::basic_string_view<CharT>(months[val.tm_mon], 3),
+            std::basic_string_view<CharT>(valid_wday ? weekdays[val.tm_wday] : unknown, 3),
+            std::basic_string_view<CharT>(valid_mon ? months[val.tm_mon] : unknown, 3),
             val.tm_mday,
             val.tm_hour,
             val.tm_min,
             val.tm_sec,
-            val.tm_year + 1900
+            static_cast<long long int>(val.tm_year) + 1900
         );
+
+        return static_cast<std::size_t>(result.size);
     }
 };
 } // namespace papilio
-- 
2.43.0


From 6bcf30eeb6b39fadf7e93a9da0297bf663c2080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 067/108] fix: escape a character that is not a valid code
 point

---
 include/papilio/core.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a80eab6..17315a2 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -2476,6 +2476,10 @@ public:
             {
                 append_as_esc_seq<false, true>(ctx, ch);
             }
+            else if(!is_scalar_value(ch))
+            {
+                append_hex_digits(ctx, ch, false);
+            }
             else
             {
                 advance_to(ctx, cp.append_to_as<char_type>(out(ctx)));
-- 
2.43.0


From ed9be321d23915d7627ab39a127add2d1365eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 068/108] fix: do not move from an object bound to a named
 argument

---
 include/papilio/core.hpp    | 17 +++++++++--------
 include/papilio/utility.hpp |  8 +++++---
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 17315a2..19e0dfe 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1814,10 +1814,10 @@ private:
     requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
     void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
     {
-        m_named_args.insert_or_assign(
-            na.name,
-            PAPILIO_NS forward_like<T>(na.value)
-        );
+        if constexpr(T::is_temporary)
+            m_named_args.insert_or_assign(na.name, PAPILIO_NS forward_like<T>(na.value));
+        else
+            m_named_args.insert_or_assign(na.name, na.value);
     }
 };
 
@@ -1863,10 +1863,11 @@ public:
                 "Invalid char type"
             );
 
-            m_named_args.emplace(std::make_pair(
-                PAPILIO_NS forward_like<T>(val.name),
-                PAPILIO_NS forward_like<T>(val.value)
-            ));
+            // Construct the argument in place, because it may refer to the value
+            if constexpr(T::is_temporary)
+                m_named_args.emplace(val.name, PAPILIO_NS forward_like<T>(val.value));
+            else
+                m_named_args.emplace(val.name, val.value);
         }
         else
         {
diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 25c4e65..6063d84 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -218,11 +218,13 @@ public:
 /**
  * @brief Proxy of named argument.
  */
-PAPILIO_EXPORT template <typename CharT, typename T>
+PAPILIO_EXPORT template <typename CharT, typename T, bool IsTemporary = false>
 struct basic_named_arg
 {
     static_assert(!std::is_reference_v<T>, "T cannot be a reference");
 
+    // The value is a temporary object that can be moved
+    static constexpr bool is_temporary = IsTemporary;
     using named_arg_tag = void;
 
     using char_type = CharT;
@@ -274,13 +276,13 @@ constexpr inline bool is_named_arg_v = is_named_arg<T>::value;
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const CharT* name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_lvalue_reference_v<T>>(name, value);
 }
 
 PAPILIO_EXPORT template <typename CharT, typename T>
 constexpr auto arg(const std::basic_string_view<CharT> name, T&& value) noexcept
 {
-    return basic_named_arg<CharT, std::remove_reference_t<T>>(name, value);
+    return basic_named_arg<CharT, std::remove_reference_t<T>, !std::is_lvalue_reference_v<T>>(name, value);
 }
 
 namespace detail
-- 
2.43.0


From 80e0aaf963230b813561e49470e8852e94a4f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 069/108] fix: accept named arguments that are not temporary

---
 include/papilio/core.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 19e0dfe..8f3ccbf 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1804,17 +1804,17 @@ private:
     map_type m_named_args;
 
     template <typename T>
-    requires(!is_named_arg_v<T>)
+    requires(!is_named_arg_v<std::remove_cvref_t<T>>)
     void emplace(T&& val) noexcept(std::is_nothrow_constructible_v<format_arg_type, T>)
     {
         m_indexed_args.emplace_back(std::forward<T>(val));
     }
 
-    template <typename T>
-    requires(is_named_arg_v<T> && std::is_same_v<char_type, typename T::char_type>)
-    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename T::value_type>)
+    template <typename T, typename NamedArg = std::remove_cvref_t<T>>
+    requires(is_named_arg_v<NamedArg> && std::is_same_v<char_type, typename NamedArg::char_type>)
+    void emplace(T&& na) noexcept(std::is_nothrow_constructible_v<format_arg_type, typename NamedArg::value_type>)
     {
-        if constexpr(T::is_temporary)
+        if constexpr(NamedArg::is_temporary)
             m_named_args.insert_or_assign(na.name, PAPILIO_NS forward_like<T>(na.value));
         else
             m_named_args.insert_or_assign(na.name, na.value);
@@ -1856,15 +1856,17 @@ public:
     template <typename T>
     void emplace(T&& val)
     {
-        if constexpr(is_named_arg_v<std::remove_cvref_t<T>>)
+        using value_type = std::remove_cvref_t<T>;
+
+        if constexpr(is_named_arg_v<value_type>)
         {
             static_assert(
-                std::is_same_v<char_type, typename T::char_type>,
+                std::is_same_v<char_type, typename value_type::char_type>,
                 "Invalid char type"
             );
 
             // Construct the argument in place, because it may refer to the value
-            if constexpr(T::is_temporary)
+            if constexpr(value_type::is_temporary)
                 m_named_args.emplace(val.name, PAPILIO_NS forward_like<T>(val.value));
             else
                 m_named_args.emplace(val.name, val.value);
-- 
2.43.0


From c6175c931b8c8d898532bfa513ff36db384d1985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:24 +0000
Subject: [PATCH 070/108] fix: do not terminate when building
 static_format_args throws

---
 include/papilio/core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8f3ccbf..bfa5566 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1786,7 +1786,7 @@ public:
 
 private:
     template <typename... Args>
-    void construct(Args&&... args) noexcept
+    void construct(Args&&... args)
     {
         static_assert(
             detail::get_indexed_arg_count<Args...>() == IndexedArgumentCount,
-- 
2.43.0


From becc36c06df1c033191540bcccd27504f6bc9908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 071/108] fix: refuse a second alignment after the fill and
 alignment

---
 include/papilio/core.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index bfa5566..728349d 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4493,6 +4493,7 @@ public:
     std::pair<result_type, iterator> parse(ParseContext& ctx)
     {
         result_type result;
+        bool has_align = false;
 
         iterator start = ctx.begin();
         const iterator stop = ctx.end();
@@ -4501,7 +4502,6 @@ public:
             goto parse_end;
         if(*start == U'}')
             goto parse_end;
-
         if(iterator next = start + 1; next != stop)
         {
             if(char32_t ch = *next; is_align_ch(ch))
@@ -4510,12 +4510,13 @@ public:
                 result.align = get_align(ch);
                 ++next;
                 start = next;
+                has_align = true;
             }
         }
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; !has_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
@@ -4581,6 +4582,7 @@ public:
     std::pair<result_type, iterator> parse(ParseContext& ctx, std::u32string_view types)
     {
         result_type result;
+        bool has_align = false;
 
         iterator start = ctx.begin();
         const iterator stop = ctx.end();
@@ -4589,7 +4591,6 @@ public:
             goto parse_end;
         if(*start == U'}')
             goto parse_end;
-
         if(iterator next = start + 1; next != stop)
         {
             if(char32_t ch = *next; is_align_ch(ch))
@@ -4598,12 +4599,13 @@ public:
                 result.align = get_align(ch);
                 ++next;
                 start = next;
+                has_align = true;
             }
         }
 
         if(utils::check_stop(start, stop))
             goto parse_end;
-        if(char32_t ch = *start; is_align_ch(ch))
+        if(char32_t ch = *start; !has_align && is_align_ch(ch))
         {
             result.align = get_align(ch);
             ++start;
-- 
2.43.0


From 137bba8e292dd7d8067d3aeb26c41b984f4405cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 072/108] fix: infinite values in variables are equal to
 themselves

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 728349d..8a9c861 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -748,7 +748,8 @@ private:
 
     static bool equal_impl(float_type epsilon, float_type lhs, float_type rhs) noexcept
     {
-        return std::abs(lhs - rhs) < epsilon;
+        // The difference of two infinite values is not a number
+        return lhs == rhs || std::abs(lhs - rhs) < epsilon;
     }
 
     template <std::integral T>
-- 
2.43.0


From 2761c39c1133aec898b6d5e6f3a4efbd0582b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 073/108] fix: ordering with a standard string on the left does
 not compile

---
 include/papilio/utf/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 4d819b7..7f9ee3a 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -807,7 +807,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const U* rhs
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -819,7 +819,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, std::basic_s
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -831,7 +831,7 @@ constexpr std::strong_ordering operator<=>(basic_string_ref<T> lhs, const std::b
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, basic_string_ref<U> rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(rhs) <=> 0;
 }
 
 PAPILIO_EXPORT using string_ref = basic_string_ref<char>;
@@ -1666,7 +1666,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const T* lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1678,7 +1678,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(std::basic_string_view<T> lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT template <char_like T, char_like U>
@@ -1690,7 +1690,7 @@ constexpr std::strong_ordering operator<=>(const basic_string_container<T>& lhs,
 PAPILIO_EXPORT template <char_like T, char_like U>
 constexpr std::strong_ordering operator<=>(const std::basic_string<T>& lhs, const basic_string_container<U>& rhs) noexcept
 {
-    return basic_string_ref(lhs).compare(rhs) <=> 0;
+    return basic_string_ref<T>(lhs).compare(basic_string_ref<U>(rhs)) <=> 0;
 }
 
 PAPILIO_EXPORT using string_container = basic_string_container<char>;
-- 
2.43.0


From 95f70c2fbc255b51da981f223faa2165f1b91d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 074/108] fix: assign_range truncates ranges of code points

---
 include/papilio/utf/string.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 7f9ee3a..62929b7 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -1039,7 +1039,11 @@ public:
     template <std::ranges::input_range R>
     basic_string_container& assign_range(R&& r)
     {
-        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT>)
+        using elem_t = std::remove_cvref_t<std::ranges::range_reference_t<R>>;
+
+        // A code point is implicitly convertible to an integer, but it must not be truncated to a single CharT
+        if constexpr(std::convertible_to<std::ranges::range_reference_t<R>, CharT> &&
+                     !(std::is_class_v<elem_t> && std::convertible_to<std::ranges::range_reference_t<R>, utf::codepoint>))
         {
             string_type buf;
             if constexpr(std::ranges::sized_range<R>)
-- 
2.43.0


From 7b15a5882ecc98c77f4503eb5c831f97915f7fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:32 +0000
Subject: [PATCH 075/108] fix: an empty string contains the empty string

---
 include/papilio/utf/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 62929b7..546504e 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -528,7 +528,7 @@ public:
     [[nodiscard]]
     constexpr bool contains(basic_string_ref str) const noexcept
     {
-        return this->find(str) != this->cend();
+        return str.empty() || this->find(str) != this->cend();
     }
 
     using my_base::starts_with;
@@ -1162,7 +1162,7 @@ public:
     [[nodiscard]]
     constexpr bool contains(string_view_type str) const noexcept
     {
-        return find(str) != this->cend();
+        return str.empty() || find(str) != this->cend();
     }
 
     [[nodiscard]]
-- 
2.43.0


From 907ba05ba18b65b95822ccd3166f8cc8804b8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 076/108] fix: do not read outside the string when its last
 character is malformed

---
 include/papilio/utf/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 546504e..51bb8ae 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -104,6 +104,9 @@ public:
 private:
     constexpr const_reference make_const_reference(size_type off) const noexcept
     {
+        // No such character, for example the last one of a string that only contains trailing units
+        if(off == npos) [[unlikely]]
+            return const_reference(data(), 0);
         return const_reference(data() + off, ch_size_at(get_view(), off));
     }
 
-- 
2.43.0


From 29a932ccd3396963b4d449588e54972fb324ba14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 077/108] fix: assigning repeated characters reads the text
 being replaced

---
 include/papilio/utf/string.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index 51bb8ae..a70d6af 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -962,16 +962,14 @@ public:
 
     basic_string_container& assign(size_type count, CharT ch)
     {
-        string_type& str = to_str();
+        string_type& str = empty_str();
         str.assign(count, ch);
-
         return *this;
     }
 
     basic_string_container& assign(size_type count, codepoint cp)
     {
-        string_type& str = to_str();
-        str.clear();
+        string_type& str = empty_str();
         if constexpr(char8_like<CharT>)
         {
             for(size_type i = 0; i < count; ++i)
@@ -1573,6 +1571,21 @@ private:
         }
     }
 
+    // Obtain an empty owned string without reading the current content
+    string_type& empty_str()
+    {
+        string_type* p_str = std::get_if<string_type>(&m_data);
+        if(p_str)
+        {
+            p_str->clear();
+            return *p_str;
+        }
+        else
+        {
+            return m_data.template emplace<string_type>();
+        }
+    }
+
     template <typename T, typename... Args>
     constexpr T& emplace_data(Args&&... args) const noexcept(std::is_nothrow_constructible_v<T, Args...>)
     {
-- 
2.43.0


From 78a24540f8dbbb33d3d4f96bbfee81d6710ce415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 078/108] fix: swapping two small vectors through the free
 function does not compile

---
 include/papilio/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index add1c9b..574f36b 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -551,7 +551,7 @@ public:
             swap(get_alloc(), other.get_alloc());
     }
 
-    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(std::is_nothrow_swappable_v<small_vector>)
+    friend void swap(small_vector& lhs, small_vector& rhs) noexcept(noexcept(lhs.swap(rhs)))
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From b5d8f7b15ce56fd5dec7db64266c2bf6e5e6e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 079/108] fix: piecewise construction of a compressed pair with
 an empty first type copies the tuple

---
 include/papilio/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 6063d84..09e6e7f 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -506,7 +506,7 @@ namespace detail
     protected:
         template <typename Tuple1, typename Tuple2, std::size_t... Indices1, std::size_t... Indices2>
         constexpr compressed_pair_impl(
-            Tuple1& args1, Tuple2 args2, std::index_sequence<Indices1...>, std::index_sequence<Indices2...>
+            Tuple1& args1, Tuple2& args2, std::index_sequence<Indices1...>, std::index_sequence<Indices2...>
         )
             : T1(std::get<Indices1>(std::move(args1))...), m_second(std::get<Indices2>(std::move(args2))...)
         {}
-- 
2.43.0


From a88e26c40655b3e2ec76b32f9f254b3f052e82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 080/108] fix: a compressed pair with an empty second type
 moves from lvalues

---
 include/papilio/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 09e6e7f..19ddaaf 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -563,7 +563,7 @@ namespace detail
 
         template <typename U1, typename U2>
         constexpr compressed_pair_impl(U1&& v1, U2&& v2)
-            : T2(std::forward<U1>(v2)), m_first(std::forward<U2>(v1))
+            : T2(std::forward<U2>(v2)), m_first(std::forward<U1>(v1))
         {}
 
 
-- 
2.43.0


From bfc3efad93f81c8df42bb2c01b3b37604fdfcffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 081/108] fix: move assignment of a small vector mixes
 allocators and is not safe when moving elements throws

---
 include/papilio/container.hpp | 41 ++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 574f36b..9fcf86d 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -357,13 +357,48 @@ public:
         return *this;
     }
 
-    small_vector& operator=(small_vector&& rhs) noexcept(std::is_nothrow_move_constructible_v<small_vector>)
+    small_vector& operator=(small_vector&& rhs) noexcept(
+        std::is_nothrow_move_constructible_v<value_type> &&
+        (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || std::allocator_traits<Allocator>::is_always_equal::value)
+    )
     {
-        small_vector(std::move(rhs)).swap(*this);
+        if(this == &rhs)
+            return *this;
+
+        constexpr bool propagate = std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value;
+
+        if constexpr(!propagate && !std::allocator_traits<Allocator>::is_always_equal::value)
+        {
+            if(get_alloc() != rhs.get_alloc())
+            {
+                // The memory cannot be transferred between different allocators
+                assign(std::make_move_iterator(rhs.begin()), std::make_move_iterator(rhs.end()));
+                rhs.clear();
+
+                return *this;
+            }
+        }
+
+        destroy_all();
+        free_mem();
+        set_ptrs(getbuf(), static_capacity());
+        if constexpr(propagate)
+            get_alloc() = std::move(rhs.get_alloc());
+
+        if(rhs.dynamic_allocated())
+        {
+            set_ptrs(rhs.m_p_begin, rhs.size(), rhs.capacity());
+            rhs.set_ptrs(rhs.getbuf(), static_capacity());
+        }
+        else [[likely]]
+        {
+            std::uninitialized_move(rhs.begin(), rhs.end(), m_p_begin);
+            m_p_end += rhs.size();
+            rhs.clear();
+        }
 
         return *this;
     }
-
     template <typename Iterator>
     void assign(Iterator first, Iterator last)
     {
-- 
2.43.0


From ad8f9b83709117f6102758c2bb98eb6fcd63b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 082/108] fix: moving, swapping and adopting optional unique
 pointers loses the deleter

---
 include/papilio/memory.hpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 5b71dc7..82a92a1 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -123,6 +123,15 @@ namespace detail
         std::is_same_v<U, std::nullptr_t> ||
         optional_arr_ptr_helper<U, Pointer, Element>;
 
+    template <typename Deleter, typename D>
+    Deleter adopt_deleter(D& del)
+    {
+        if constexpr(std::is_constructible_v<Deleter, D&&>)
+            return Deleter(std::move(del));
+        else
+            return Deleter();
+    }
+
     template <typename Derived, typename Element>
     class optional_ptr_base // non-void type
     {
@@ -176,9 +185,9 @@ public:
           m_has_ownership(false)
     {}
 
-    optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
+    optional_unique_ptr(optional_unique_ptr&& other) noexcept(std::is_nothrow_move_constructible_v<Deleter>)
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     optional_unique_ptr(pointer ptr, bool ownership) noexcept(std::is_nothrow_default_constructible_v<Deleter>)
@@ -193,11 +202,11 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()),
+          m_del(detail::adopt_deleter<Deleter>(ptr.get_deleter()))
     {
         m_has_ownership = static_cast<bool>(m_ptr);
     }
-
     ~optional_unique_ptr()
     {
         reset(nullptr);
@@ -216,6 +225,8 @@ public:
         {
             const bool ownership = other.has_ownership();
             reset(other.release(), ownership);
+            if constexpr(std::is_move_assignable_v<Deleter>)
+                m_del = std::move(other.m_del);
         }
         return *this;
     }
@@ -261,6 +272,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::move(ptr.get_deleter());
         }
     }
 
@@ -291,6 +304,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<D, Deleter> && std::is_swappable_v<Deleter>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
@@ -367,7 +382,7 @@ public:
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
         : m_ptr(std::exchange(other.m_ptr, pointer())),
-          m_del(),
+          m_del(std::move(other.m_del)),
           m_has_ownership(std::exchange(other.m_has_ownership, false)) {}
 
     template <typename U>
@@ -378,11 +393,11 @@ public:
 
     template <typename D>
     optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
-        : m_ptr(ptr.release())
+        : m_ptr(ptr.release()),
+          m_del(detail::adopt_deleter<Deleter>(ptr.get_deleter()))
     {
         m_has_ownership = static_cast<bool>(m_ptr);
     }
-
     ~optional_unique_ptr()
     {
         reset(nullptr);
@@ -401,6 +416,8 @@ public:
         {
             const bool ownership = other.has_ownership();
             reset(other.release(), ownership);
+            if constexpr(std::is_move_assignable_v<Deleter>)
+                m_del = std::move(other.m_del);
         }
         return *this;
     }
@@ -441,6 +458,8 @@ public:
         {
             m_ptr = ptr.release();
             m_has_ownership = true;
+            if constexpr(std::is_assignable_v<Deleter&, D&&>)
+                m_del = std::move(ptr.get_deleter());
         }
     }
 
@@ -471,6 +490,8 @@ public:
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
+        if constexpr(std::is_same_v<D, Deleter> && std::is_swappable_v<Deleter>)
+            swap(m_del, other.m_del);
         swap(m_has_ownership, other.m_has_ownership);
     }
 
-- 
2.43.0


From edcf780c8019b8cf0589cb9a38b12404d05bcd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 083/108] fix: an array optional unique pointer takes over
 unique pointers to single objects instead of arrays

---
 include/papilio/memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 82a92a1..b06a073 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -392,7 +392,7 @@ public:
     {}
 
     template <typename D>
-    optional_unique_ptr(std::unique_ptr<T, D>&& ptr) noexcept
+    optional_unique_ptr(std::unique_ptr<T[], D>&& ptr) noexcept
         : m_ptr(ptr.release()),
           m_del(detail::adopt_deleter<Deleter>(ptr.get_deleter()))
     {
@@ -451,7 +451,7 @@ public:
     }
 
     template <typename D>
-    void reset(std::unique_ptr<T, D>&& ptr) noexcept
+    void reset(std::unique_ptr<T[], D>&& ptr) noexcept
     {
         reset(nullptr);
         if(ptr)
-- 
2.43.0


From 442656ed1704e791194e331b84b9cd65943b6801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 084/108] fix: copying an optional unique pointer with another
 deleter does not compile

---
 include/papilio/memory.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index b06a073..568e5a0 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -181,7 +181,8 @@ public:
 
     template <typename D>
     optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr),
+        : m_ptr(other.get()),
+          m_del(),
           m_has_ownership(false)
     {}
 
@@ -376,8 +377,8 @@ public:
           m_has_ownership(false) {}
 
     template <typename D>
-    optional_unique_ptr(const optional_unique_ptr<T, D>& other)
-        : m_ptr(other.m_ptr), m_del(), m_has_ownership(false)
+    optional_unique_ptr(const optional_unique_ptr<T[], D>& other)
+        : m_ptr(other.get()), m_del(), m_has_ownership(false)
     {}
 
     optional_unique_ptr(optional_unique_ptr&& other) noexcept
-- 
2.43.0


From 4219cc65c4a2a7881b113ff94ff6f07d0786d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:16 +0000
Subject: [PATCH 085/108] fix: two array optional unique pointers cannot be
 swapped

---
 include/papilio/memory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/memory.hpp b/include/papilio/memory.hpp
index 568e5a0..e7fbdf3 100644
--- a/include/papilio/memory.hpp
+++ b/include/papilio/memory.hpp
@@ -487,7 +487,7 @@ public:
     }
 
     template <typename D>
-    void swap(optional_unique_ptr<T, D>& other) noexcept
+    void swap(optional_unique_ptr<T[], D>& other) noexcept
     {
         using std::swap;
         swap(m_ptr, other.m_ptr);
-- 
2.43.0


From e195bf44149224dcec7bd4e821b4c01cf9182556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 086/108] fix: an exception while copying a value into a format
 argument destroys a handle that was never created

---
 include/papilio/core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 8a9c861..b304613 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1125,9 +1125,10 @@ public:
             construct<T>(std::forward<T>(val));
         }
 
+        // Don't delegate to the default constructor.
+        // Otherwise, the destructor would be called if copying the value throws an exception.
         template <typename T>
         handle(independent_t, T&& val)
-            : handle()
         {
             construct<T>(independent, std::forward<T>(val));
         }
-- 
2.43.0


From b4dd101b352b68c4decefa9eda399ebacc9333c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 087/108] fix: printing to a C++ stream leaves partial output
 behind and is padded to the width of the stream

---
 include/papilio/print.hpp | 26 +++++++++++++++++---------
 src/print.cpp             | 17 +++++++++++++++--
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/papilio/print.hpp b/include/papilio/print.hpp
index 3a42222..dca5993 100644
--- a/include/papilio/print.hpp
+++ b/include/papilio/print.hpp
@@ -33,8 +33,14 @@ namespace detail
         bool newline,
         text_style st = text_style()
     );
-} // namespace detail
 
+    void vprint_impl(
+        std::ostream& os,
+        std::string_view fmt,
+        format_args_ref args,
+        bool newline
+    );
+} // namespace detail
 /// @defgroup PrintFile Print to file
 /// @{
 
@@ -120,13 +126,11 @@ void println(text_style st, format_string<Args...> fmt, Args&&... args)
 PAPILIO_EXPORT template <typename... Args>
 void print(std::ostream& os, format_string<Args...> fmt, Args&&... args)
 {
-    using iter_t = std::ostream_iterator<char>;
-    using context_type = basic_format_context<iter_t>;
-    PAPILIO_NS vformat_to(
-        iter_t(os),
-        os.getloc(),
+    detail::vprint_impl(
+        os,
         fmt.get(),
-        PAPILIO_NS make_format_args<context_type>(std::forward<Args>(args)...)
+        PAPILIO_NS make_format_args(std::forward<Args>(args)...),
+        false
     );
 }
 
@@ -135,8 +139,12 @@ PAPILIO_EXPORT void println(std::ostream& os);
 PAPILIO_EXPORT template <typename... Args>
 void println(std::ostream& os, format_string<Args...> fmt, Args&&... args)
 {
-    PAPILIO_NS print(os, fmt.get(), std::forward<Args>(args)...);
-    PAPILIO_NS println(os);
+    detail::vprint_impl(
+        os,
+        fmt.get(),
+        PAPILIO_NS make_format_args(std::forward<Args>(args)...),
+        true
+    );
 }
 
 /// @}
diff --git a/src/print.cpp b/src/print.cpp
index 6fe7c43..9d14783 100644
--- a/src/print.cpp
+++ b/src/print.cpp
@@ -40,8 +40,21 @@ namespace detail
 
         output_impl(file, out, conv_unicode);
     }
-} // namespace detail
 
+    void vprint_impl(
+        std::ostream& os,
+        std::string_view fmt,
+        format_args_ref args,
+        bool newline
+    )
+    {
+        std::string out = PAPILIO_NS vformat(os.getloc(), fmt, args);
+        if(newline)
+            out.push_back('\n');
+
+        os.write(out.data(), static_cast<std::streamsize>(out.size()));
+    }
+} // namespace detail
 void println(std::FILE* file)
 {
     detail::output_impl(file, "\n", os::is_terminal(file));
@@ -54,7 +67,7 @@ void println()
 
 void println(std::ostream& os)
 {
-    os << '\n';
+    os.put('\n');
 }
 } // namespace papilio
 
-- 
2.43.0


From e6074bd2ef73a723a1aeb7990e2e14055389a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 088/108] fix: a failed write to a buffered C stream is
 reported as success

---
 src/os/general.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/os/general.cpp b/src/os/general.cpp
index 496cd68..7dfb37f 100644
--- a/src/os/general.cpp
+++ b/src/os/general.cpp
@@ -10,6 +10,8 @@ void output_nonconv(
 {
     using namespace std;
 
+    const bool had_error = ferror(file) != 0;
+
     size_t result = fwrite(
         out.data(), 1, out.size(), file
     );
@@ -20,7 +22,8 @@ void output_nonconv(
         );
     }
 
-    if(fflush(file) != 0)
+    // Content lost inside fwrite() is only reported by the error indicator
+    if(fflush(file) != 0 || (!had_error && ferror(file) != 0))
     {
         throw std::system_error(
             std::make_error_code(std::errc::io_error)
-- 
2.43.0


From 06f87389b385a93fff8119354edb5067ffb19bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 089/108] fix: a range of elements whose formatting function is
 found by ADL, a stream operator or a combined formatter does not compile

---
 include/papilio/core.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index b304613..44566eb 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5435,6 +5435,17 @@ private:
     std_formatter_data m_data{.type = U's'};
 };
 
+namespace detail
+{
+    // For elements without a formatter class
+    template <typename CharT>
+    class empty_underlying_formatter
+    {
+    public:
+        using char_type = CharT;
+    };
+} // namespace detail
+
 /**
  * @brief Base formatter for ranges.
  *
@@ -5449,7 +5460,10 @@ class range_formatter
 {
 public:
     using underlying_type = std::remove_cvref_t<std::ranges::range_value_t<R>>;
-    using underlying_formatter_type = formatter<underlying_type, CharT>;
+    using underlying_formatter_type = std::conditional_t<
+        std::semiregular<formatter<underlying_type, CharT>>,
+        formatter<underlying_type, CharT>,
+        detail::empty_underlying_formatter<CharT>>;
     using string_view_type = std::basic_string_view<CharT>;
 
     range_formatter()
@@ -5539,9 +5553,10 @@ public:
             ++it;
             has_underlying_spec = it != ctx.end() && *it != U'}';
             ctx.advance_to(it);
-            it = m_underlying.parse(ctx);
+            // Elements that cannot be parsed separately only accept an empty specification
+            if constexpr(detail::check_parse_method<underlying_formatter_type, ParseContext>)
+                it = m_underlying.parse(ctx);
         }
-
         using fmt_t = formatter_traits<underlying_formatter_type>;
         if(m_type == U'm')
         {
@@ -5605,10 +5620,11 @@ end_parse:
             }
             first = false;
 
-            context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            if constexpr(requires { m_underlying.format(i, ctx); })
+                context_t::advance_to(ctx, m_underlying.format(i, ctx));
+            else
+                context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
         }
-
-
 #ifdef PAPILIO_COMPILER_CLANG
 #    pragma clang diagnostic pop
 #endif
-- 
2.43.0


From 91a6fac044b236e9c8720186668fac6984bb3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 090/108] fix: format_to_n does not compile with an iterator
 that only accepts output

---
 include/papilio/format.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index f3d36a2..eef8ade 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -246,7 +246,7 @@ namespace detail
     {
     public:
         using iterator_category = std::output_iterator_tag;
-        using value_type = std::iter_value_t<OutputIt>;
+        using value_type = void;
         using difference_type = std::iter_difference_t<OutputIt>;
         using pointer = void;
         using reference = void;
-- 
2.43.0


From f375f8438e00e95c94ba4e2561548d9a54892784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 091/108] fix: a styled string is printed as a range of
 characters, and styled pointers and optional values are refused

---
 include/papilio/color.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/papilio/color.hpp b/include/papilio/color.hpp
index 040dbe4..47f10a0 100644
--- a/include/papilio/color.hpp
+++ b/include/papilio/color.hpp
@@ -229,12 +229,12 @@ namespace detail
 } // namespace detail
 
 PAPILIO_EXPORT template <typename T>
-requires(formattable<T>)
-class formatter<detail::styled_arg<T>, char> : public formatter<T>
+requires(formattable<T> || std::is_pointer_v<T> || std::is_null_pointer_v<T>)
+class formatter<detail::styled_arg<T>, char>
 {
 public:
-    template <typename FormatContext>
-    auto format(const detail::styled_arg<T>& arg, FormatContext& ctx) const
+    template <typename ParseContext, typename FormatContext>
+    auto format(const detail::styled_arg<T>& arg, ParseContext& parse_ctx, FormatContext& ctx) const
         -> typename FormatContext::iterator
     {
         using context_t = format_context_traits<FormatContext>;
@@ -247,8 +247,8 @@ public:
             context_t::advance_to(ctx, st.set(ctx.out()));
         }
 
-        context_t::advance_to(ctx, formatter<T>::format(arg.get(), ctx));
-
+        // Same as formatting the value as an argument
+        basic_format_arg<FormatContext>(arg.get()).format(parse_ctx, ctx);
         if(has_style)
         {
             context_t::advance_to(ctx, st.reset(ctx.out()));
-- 
2.43.0


From 3ecf8568a81b791e68dd6a574e2ac5f6a5162b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:50 +0000
Subject: [PATCH 092/108] fix: a thread identifier is printed with the digits
 and separators of the global locale, and as nothing in char8_t, char16_t and
 char32_t

---
 include/papilio/formatter/misc.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 14e81e8..36a93d7 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <thread>
+#include <locale>
 #include <sstream>
 #ifdef PAPILIO_HAS_LIB_STACKTRACE
 #    include <stacktrace>
@@ -28,12 +29,17 @@ public:
     template <typename FormatContext>
     auto format(const std::thread::id& id, FormatContext& ctx) const
     {
-        std::basic_stringstream<CharT> ss;
+        // The streams of the standard library can only print numbers
+        // as char and wchar_t
+        std::stringstream ss;
+        ss.imbue(std::locale::classic());
         ss << id;
 
         using context_t = format_context_traits<FormatContext>;
-        context_t::append(ctx, std::move(ss).str());
-
+        context_t::append(
+            ctx,
+            utf::string_ref(ss.view()).to_string<CharT>()
+        );
         return ctx.out();
     }
 };
-- 
2.43.0


From a30bf25afa29f3ca5ad66b86d90b628a3951ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 093/108] fix: strings in a range are printed as ranges of
 characters

---
 include/papilio/core.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 44566eb..419f613 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5951,6 +5951,32 @@ private:
     std_formatter_data m_data;
 };
 
+namespace detail
+{
+    template <typename CharT>
+    class std_string_formatter : public formatter<utf::basic_string_container<CharT>, CharT>
+    {
+        using my_base = formatter<utf::basic_string_container<CharT>, CharT>;
+
+    public:
+        template <typename FormatContext>
+        auto format(std::basic_string_view<CharT> str, FormatContext& ctx) const -> typename FormatContext::iterator
+        {
+            return my_base::format(utf::basic_string_container<CharT>(str), ctx);
+        }
+    };
+} // namespace detail
+
+PAPILIO_EXPORT template <typename CharT, typename Allocator>
+class formatter<std::basic_string<CharT, std::char_traits<CharT>, Allocator>, CharT> :
+    public detail::std_string_formatter<CharT>
+{};
+
+PAPILIO_EXPORT template <typename CharT>
+class formatter<std::basic_string_view<CharT>, CharT> :
+    public detail::std_string_formatter<CharT>
+{};
+
 /**
  * @brief Formatter for pointers.
  *
-- 
2.43.0


From bf8387ec19b93ee41a47f36e543fe0e02cc16b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 094/108] fix: an array in a range or a tuple does not compile
 because two formatters match

---
 include/papilio/formatter/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/papilio/formatter/tuple.hpp b/include/papilio/formatter/tuple.hpp
index 7085346..5888f42 100644
--- a/include/papilio/formatter/tuple.hpp
+++ b/include/papilio/formatter/tuple.hpp
@@ -4,6 +4,7 @@
 #pragma once
 
 #include <tuple>
+#include <ranges>
 #include "../core.hpp"
 #include "../format.hpp"
 #include "../detail/prefix.hpp"
@@ -50,6 +51,7 @@ namespace detail
 } // namespace detail
 
 PAPILIO_EXPORT template <tuple_like Tuple, typename CharT>
+requires(!std::ranges::input_range<Tuple>)
 class formatter<Tuple, CharT> : public detail::tuple_fmt_base<CharT>
 {
     using my_base = detail::tuple_fmt_base<CharT>;
-- 
2.43.0


From c91acc936601eccc6bfdb875cf70950b9c083390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 095/108] fix: a value without an enumerator is printed as a
 piece of a cast expression

---
 include/papilio/utility.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 19ddaaf..2976872 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -966,6 +966,9 @@ constexpr std::string_view static_enum_name()
 {
     constexpr std::string_view name = detail::static_enum_name_impl<Value>();
 
+    // A cast expression, the value has no enumerator
+    if(name.starts_with('('))
+        return std::string_view();
     // Remove qualifier
     std::size_t qual_end = name.rfind("::");
     if(qual_end != std::string_view::npos)
-- 
2.43.0


From 3812b01344186f07264ae66df01436872128b537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:35 +0000
Subject: [PATCH 096/108] fix: the kinds disabled, string and debug_string of a
 range have no effect

---
 include/papilio/core.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 419f613..c322e7c 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5484,8 +5484,11 @@ public:
             use_seq_brackets();
             break;
 
-        case range_format::string:
         case range_format::debug_string:
+            set_debug_format();
+            [[fallthrough]];
+        case range_format::string:
+            m_type = U's';
             clear_brackets();
             break;
         }
@@ -6055,11 +6058,22 @@ requires std::is_enum_v<T>
 class formatter<T, CharT> : public enum_formatter<T, CharT>
 {};
 
+namespace detail
+{
+    template <typename R, typename CharT>
+    consteval bool is_range_formattable()
+    {
+        if constexpr(format_kind<std::remove_cvref_t<R>> == range_format::disabled)
+            return false;
+        else
+            return formattable<std::ranges::range_value_t<R>, CharT>;
+    }
+} // namespace detail
+
 template <std::ranges::input_range R, typename CharT>
 class formatter<R, CharT> :
-    public std::conditional_t<formattable<std::ranges::range_value_t<R>, CharT>, range_formatter<R, CharT>, disabled_formatter>
+    public std::conditional_t<detail::is_range_formattable<R, CharT>(), range_formatter<R, CharT>, disabled_formatter>
 {};
-
 /// @}
 
 /// @addtogroup Format
-- 
2.43.0


From 5063aae956d992b1d86b639088eecffa4c02de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:32 +0000
Subject: [PATCH 097/108] fix: calendar time with a format is printed as
 nothing in char8_t, char16_t and char32_t

---
 include/papilio/formatter/chrono.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index 8a7de82..b9fdb2e 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -81,16 +81,29 @@ public:
         }
         else
         {
-            std::basic_stringstream<CharT> ss;
+            // The standard library only provides the facets for char and wchar_t
+            using stream_char = std::conditional_t<std::same_as<CharT, wchar_t>, wchar_t, char>;
+
+            std::basic_stringstream<stream_char> ss;
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
                 ss.imbue(std::locale::classic());
-            ss << std::put_time(&val, m_data.chrono_spec.c_str());
 
             string_formatter<CharT> fmt;
             fmt.set_data(m_data.basic);
-            return fmt.format(std::move(ss).str(), ctx);
+
+            if constexpr(std::same_as<CharT, stream_char>)
+            {
+                ss << std::put_time(&val, m_data.chrono_spec.c_str());
+                return fmt.format(std::move(ss).str(), ctx);
+            }
+            else
+            {
+                const std::string spec = utf::basic_string_ref<CharT>(m_data.chrono_spec).to_string();
+                ss << std::put_time(&val, spec.c_str());
+                return fmt.format(utf::string_ref(ss.str()).to_string<CharT>(), ctx);
+            }
         }
     }
 
-- 
2.43.0


From f00acfac6de18b9d40c60f32edd534eb4f567887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 098/108] fix: the integer form of an enumeration of bool
 overflows its buffer

---
 include/papilio/core.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index c322e7c..5e14d8e 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -5381,9 +5381,9 @@ public:
     {
         if(m_data.type_or(U's') != U's')
         {
-            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
+            int_formatter<int_type, CharT> fmt;
             fmt.set_data(m_data);
-            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+            return fmt.format(static_cast<int_type>(e), ctx);
         }
 
 #ifdef PAPILIO_HAS_ENUM_NAME
@@ -5393,9 +5393,9 @@ public:
             std_formatter_data dt = m_data;
             dt.type = U'd';
 
-            int_formatter<std::underlying_type_t<Enum>, CharT> fmt;
+            int_formatter<int_type, CharT> fmt;
             fmt.set_data(dt);
-            return fmt.format(PAPILIO_NS to_underlying(e), ctx);
+            return fmt.format(static_cast<int_type>(e), ctx);
         }
 #endif
 
@@ -5433,6 +5433,12 @@ public:
 
 private:
     std_formatter_data m_data{.type = U's'};
+
+    // The integer formatter cannot calculate with bool
+    using int_type = std::conditional_t<
+        std::is_same_v<std::underlying_type_t<Enum>, bool>,
+        unsigned char,
+        std::underlying_type_t<Enum>>;
 };
 
 namespace detail
-- 
2.43.0


From 3561cbdc29e03f72ef77a392987e9a0713bf25bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 099/108] fix: a string as dynamic width or precision is
 reported as another error in character types other than char

---
 include/papilio/core.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index 5e14d8e..a74774a 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -4430,10 +4430,10 @@ namespace detail
                 }
                 ++next_it;
 
-                auto var = variable(arg.to_variant());
+                auto var = basic_variable<typename ParseContext::char_type>(arg.to_variant());
                 if(!var.holds_int())
                     throw format_error("invalid type");
-                ssize_t val = var.as<ssize_t>();
+                ssize_t val = var.template as<ssize_t>();
                 if(val > max_value) [[unlikely]]
                     throw format_error("invalid format");
 
-- 
2.43.0


From a6d53e674fbca19af306fb7981c863b3d1c669d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:50 +0000
Subject: [PATCH 100/108] fix: formatted_size and format_to_n miscount a
 formatter that writes with a postfix increment

---
 include/papilio/format.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index eef8ade..a8523ff 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -282,7 +282,8 @@ namespace detail
             return *this;
         }
 
-        format_to_n_wrapper operator++(int) noexcept
+        // The counter must not be lost with a copy in "*it++ = ch"
+        format_to_n_wrapper& operator++(int) noexcept
         {
             return *this;
         }
@@ -465,11 +466,10 @@ namespace detail
             return *this;
         }
 
-        constexpr formatted_size_counter operator++(int) noexcept
+        // The counter must not be lost with a copy in "*it++ = ch"
+        constexpr formatted_size_counter& operator++(int) noexcept
         {
-            formatted_size_counter tmp(*this);
-            ++(*this);
-            return tmp;
+            return *this;
         }
     };
 
-- 
2.43.0


From 2bca4012dda4a10a4252b317884acd395e50810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 101/108] fix: a failed allocation terminates the program where
 an unknown attribute is reported or an owning string is made

---
 include/papilio/access.hpp     | 2 +-
 include/papilio/utf/string.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index c75a958..6c30a94 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -143,7 +143,7 @@ public:
     {}
 
     template <basic_string_like<CharT> String>
-    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, String>)
+    basic_attribute_name(independent_t, String&& str) noexcept(std::is_nothrow_constructible_v<string_container_type, independent_t, String>)
         : m_name(independent, std::forward<String>(str))
     {}
 
diff --git a/include/papilio/utf/string.hpp b/include/papilio/utf/string.hpp
index a70d6af..9eba8a9 100644
--- a/include/papilio/utf/string.hpp
+++ b/include/papilio/utf/string.hpp
@@ -934,10 +934,10 @@ public:
     constexpr basic_string_container(const CharT* str, size_type count) noexcept
         : m_data(std::in_place_type<string_view_type>, str, count) {}
 
-    basic_string_container(independent_t, const CharT* str) noexcept
+    basic_string_container(independent_t, const CharT* str)
         : m_data(std::in_place_type<string_type>, str) {}
 
-    constexpr basic_string_container(independent_t, const CharT* str, size_type count) noexcept
+    constexpr basic_string_container(independent_t, const CharT* str, size_type count)
         : m_data(std::in_place_type<string_type>, str, count) {}
 
     basic_string_container(const_iterator start, const_iterator stop) noexcept
-- 
2.43.0


From 379dce8532d49b3c8d056108568d3ee85d128125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:16 +0000
Subject: [PATCH 102/108] fix: an exception is lost and the text cut off when
 it is thrown while a streamed value or a calendar time is written

---
 include/papilio/core.inl             | 5 +++--
 include/papilio/formatter/chrono.hpp | 2 ++
 include/papilio/formatter/misc.hpp   | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.inl b/include/papilio/core.inl
index e0df92b..de05814 100644
--- a/include/papilio/core.inl
+++ b/include/papilio/core.inl
@@ -160,9 +160,10 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     if(use_iter_stream)
     {
         os_t os(ctx.out());
+        // Let exceptions pass, the stream would only set the flag
+        os.exceptions(std::ios_base::badbit);
 
         setup_locale(os, ctx);
-
         os << val;
 
         return os.base();
@@ -170,9 +171,9 @@ auto streamable_formatter<T, CharT>::format(const T& val, Context& ctx) const
     else
     {
         std::basic_stringstream<CharT> ss;
+        ss.exceptions(std::ios_base::badbit);
 
         setup_locale(ss, ctx);
-
         ss << val;
 
         string_formatter<CharT> fmt;
diff --git a/include/papilio/formatter/chrono.hpp b/include/papilio/formatter/chrono.hpp
index b9fdb2e..bc56117 100644
--- a/include/papilio/formatter/chrono.hpp
+++ b/include/papilio/formatter/chrono.hpp
@@ -85,6 +85,8 @@ public:
             using stream_char = std::conditional_t<std::same_as<CharT, wchar_t>, wchar_t, char>;
 
             std::basic_stringstream<stream_char> ss;
+            // Let exceptions pass, the stream would only set the flag
+            ss.exceptions(std::ios_base::badbit);
             if(m_data.basic.use_locale)
                 ss.imbue(ctx.getloc());
             else
diff --git a/include/papilio/formatter/misc.hpp b/include/papilio/formatter/misc.hpp
index 36a93d7..623fff5 100644
--- a/include/papilio/formatter/misc.hpp
+++ b/include/papilio/formatter/misc.hpp
@@ -32,6 +32,8 @@ public:
         // The streams of the standard library can only print numbers
         // as char and wchar_t
         std::stringstream ss;
+        // Let exceptions pass, the stream would only set the flag
+        ss.exceptions(std::ios_base::badbit);
         ss.imbue(std::locale::classic());
         ss << id;
 
-- 
2.43.0


From 73ccadd3ed700ab322f4c2ea65d41a9e7e283d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:16 +0000
Subject: [PATCH 103/108] fix: swapping a small vector leaks the other one's
 memory when moving an element throws

---
 include/papilio/container.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/include/papilio/container.hpp b/include/papilio/container.hpp
index 9fcf86d..b2c7e8a 100644
--- a/include/papilio/container.hpp
+++ b/include/papilio/container.hpp
@@ -845,16 +845,10 @@ private:
         pointer tmp_p_begin = other.m_p_begin;
         pointer tmp_p_end = other.m_p_end;
         pointer tmp_p_capacity = other.m_p_capacity;
-        other.set_ptrs(other.getbuf(), static_capacity());
-
-        for(size_type i = 0; i < this->size(); ++i)
-        {
-            other.emplace_back_impl(
-                std::move(*(m_p_begin + i))
-            );
-        }
+        // Both containers are unchanged except for the moved elements if an exception is thrown here
+        std::uninitialized_move_n(m_p_begin, this->size(), other.getbuf());
+        other.set_ptrs(other.getbuf(), this->size(), static_capacity());
         destroy_all();
-
         set_ptrs(tmp_p_begin, tmp_p_end, tmp_p_capacity);
     }
 
-- 
2.43.0


From 4856103b4298d2e375f5e1d99663e96d0c81150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:28 +0000
Subject: [PATCH 104/108] fix: a type that cannot be copied does not compile as
 an argument with clang

---
 include/papilio/core.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/papilio/core.hpp b/include/papilio/core.hpp
index a74774a..8c91ff3 100755
--- a/include/papilio/core.hpp
+++ b/include/papilio/core.hpp
@@ -1235,12 +1235,22 @@ public:
             new(ptr()) Impl(std::forward<Args>(args)...);
         }
 
+        // Take care not to instantiate handle_impl_soo for a type that it cannot store
+        template <typename T>
+        static constexpr bool fits_soo() noexcept
+        {
+            if constexpr(detail::use_soo_handle<T>)
+                return sizeof(handle_impl_soo<T>) <= storage_size;
+            else
+                return false;
+        }
+
         template <typename T>
         void construct(T&& val) noexcept
         {
             using type = std::remove_cvref_t<T>;
             using impl_t = std::conditional_t<
-                detail::use_soo_handle<type> && sizeof(handle_impl_soo<type>) <= storage_size,
+                fits_soo<type>(),
                 handle_impl_soo<type>,
                 handle_impl_ptr<type>>;
 
@@ -1252,7 +1262,7 @@ public:
         {
             using type = std::remove_cvref_t<T>;
             using impl_t = std::conditional_t<
-                detail::use_soo_handle<type> && sizeof(handle_impl_soo<type>) <= storage_size,
+                fits_soo<type>(),
                 handle_impl_soo<type>,
                 handle_impl_ptr<type>>;
 
-- 
2.43.0


From c6f8cac088720572e38063ec2636e1a8d7b331a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:21 +0000
Subject: [PATCH 105/108] fix: enumerators of a type in an unnamed namespace
 have no name with clang

---
 include/papilio/utility.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/papilio/utility.hpp b/include/papilio/utility.hpp
index 2976872..f278b18 100644
--- a/include/papilio/utility.hpp
+++ b/include/papilio/utility.hpp
@@ -966,11 +966,12 @@ constexpr std::string_view static_enum_name()
 {
     constexpr std::string_view name = detail::static_enum_name_impl<Value>();
 
+    std::size_t qual_end = name.rfind("::");
     // A cast expression, the value has no enumerator
-    if(name.starts_with('('))
+    // An enumerator may begin with a parenthesis as well, e.g. "(anonymous namespace)::E::value"
+    if(name.starts_with('(') && (qual_end == std::string_view::npos || qual_end < name.rfind(')')))
         return std::string_view();
     // Remove qualifier
-    std::size_t qual_end = name.rfind("::");
     if(qual_end != std::string_view::npos)
     {
         qual_end += 2; // skip "::"
-- 
2.43.0


From 29c0e7e11dbca3ac1b655922938acda0bb793ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:50 +0000
Subject: [PATCH 106/108] fix: an attribute name cannot be compared with a
 null-terminated text unless it is made of char

---
 include/papilio/access.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index 6c30a94..05a0694 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -174,12 +174,12 @@ public:
         return lhs == rhs.m_name;
     }
 
-    friend bool operator==(const basic_attribute_name& lhs, const char* rhs) noexcept
+    friend bool operator==(const basic_attribute_name& lhs, const CharT* rhs) noexcept
     {
         return lhs.m_name == rhs;
     }
 
-    friend bool operator==(const char* lhs, const basic_attribute_name& rhs) noexcept
+    friend bool operator==(const CharT* lhs, const basic_attribute_name& rhs) noexcept
     {
         return lhs == rhs.m_name;
     }
-- 
2.43.0


From b2aa06d9475f1aa8024048efe6023067fc5b132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:24 +0000
Subject: [PATCH 107/108] fix: the attribute name in a copied exception refers
 to the original exception

---
 include/papilio/access.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/papilio/access.hpp b/include/papilio/access.hpp
index 05a0694..5b4972f 100644
--- a/include/papilio/access.hpp
+++ b/include/papilio/access.hpp
@@ -229,6 +229,9 @@ public:
     basic_invalid_attribute(const attribute_name_type& attr)
         : m_attr(independent, attr.name()) {}
 
+    basic_invalid_attribute(const basic_invalid_attribute& other)
+        : invalid_attribute_base(other), m_attr(independent, other.m_attr.name()) {}
+
     [[nodiscard]]
     const basic_attribute_name<CharT>& name() const noexcept
     {
-- 
2.43.0


From c17ca3e5aa8f0c28a39368cfb68d536c219912c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:15 +0000
Subject: [PATCH 108/108] fix: joined values without own specification lose the
 locale and are encoded as char

---
 include/papilio/format.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/papilio/format.hpp b/include/papilio/format.hpp
index a8523ff..8c91f9c 100644
--- a/include/papilio/format.hpp
+++ b/include/papilio/format.hpp
@@ -621,8 +621,8 @@ public:
     requires formattable_with<value_type, FormatContext>
     auto format(const joiner_t& j, ParseContext& parse_ctx, FormatContext& fmt_ctx) const
     {
+        using context_t = format_context_traits<FormatContext>;
         using formatter_t = typename FormatContext::template formatter_type<value_type>;
-
         if constexpr(formatter_traits<formatter_t>::template parsable<ParseContext>())
         {
             formatter_t fmt;
@@ -649,9 +649,7 @@ public:
                     append_sep(fmt_ctx, j);
                 first = false;
 
-                fmt_ctx.advance_to(
-                    PAPILIO_NS format_to(fmt_ctx.out(), "{}", i)
-                );
+                context_t::format_to(fmt_ctx, PAPILIO_TSTRING_VIEW(CharT, "{}"), i);
             }
         }
 
-- 
2.43.0

