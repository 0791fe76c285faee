From f0cc4079cd2efc5baa383f70f96b5c279be1a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 01/52] fix: don't forget the end of the content when writing
 to an overflowed char array

basic_cstr_destination::do_write and array_destination::do_write took the end
of the internal garbage buffer as the end of the content when called after the
array had already overflowed. finish() then wrote '\0' past the garbage buffer
and returned a pointer unrelated to the destination array.
---
 include/strf/destination.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..1bd9658 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,6 +372,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if (!this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
@@ -507,6 +511,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if (!this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-- 
2.43.0


From 4002e4c8e694beb9a1aa7c60a0f871b20961755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 02/52] fix: use sized_destination_type in tr-string printing
 with reserve_calc

`strf::to_string.reserve_calc().tr(...)` (and the other destinations whose
sized_destination_type differs from destination_type) did not compile.
---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From 7f8271c82a41e335393670019b88edfb0376f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 03/52] fix: width_t::compare with 16-bit integers overflowed

The difference was computed in int32_t, hence `width_max < int16_t(-1)` was
true, and `compare` was undefined behaviour.
---
 include/strf/width_t.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 736a21f..3dc23a0 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -413,15 +413,15 @@ public:
         return *this;
     }
 
-    constexpr STRF_HD int compare(detail::tag_i16, std::int16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return value_ - cast_i32(cast_u32(cast_u16(x)) << 16);
+        return cast_i64(value_) - cast_i64(cast_u64(cast_i64(x)) << 16);
     }
-    constexpr STRF_HD int compare(detail::tag_u16, std::uint16_t x) const noexcept
+    constexpr STRF_HD std::int64_t compare(detail::tag_u16, std::uint16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
-        return x >= cast_u16(0x8000) ? -1 : (value_ - cast_i32(cast_u32(x) << 16));
+        return cast_i64(value_) - cast_i64(cast_u64(x) << 16);
     }
 
     constexpr STRF_HD std::int64_t compare(detail::tag_i32, std::int32_t x) const noexcept
-- 
2.43.0


From 4f597ef79b8a9a7dc256c346504959daf4048549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 04/52] fix: width_t division of negative values

operator/= zero-extended the dividend, so that `-2_w / 2` was 32767.
---
 include/strf/width_t.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 3dc23a0..432e47d 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -407,9 +407,8 @@ public:
     STRF_HD width_t& operator/=(width_t other) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        const std::uint64_t vu64 = cast_u32(value_);
-        const std::int64_t tmp = cast_i64(vu64 << 16) / other.value_;
-        value_ = detail::cast_i32(cast_i64(tmp));
+        const std::int64_t tmp = (cast_i64(value_) * 0x10000) / other.value_;
+        value_ = detail::cast_i32(tmp);
         return *this;
     }
 
-- 
2.43.0


From 08c63397043414cdebe66cc2cacc7d359b99f522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 05/52] fix: bounds in width_t::sat_sub with 64-bit integers

Values as large as 1 << 47 were not treated as out of range, so that the shift
discarded their most significant bits.
---
 include/strf/width_t.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 432e47d..9e5d09d 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -298,12 +298,12 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i64, std::int64_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
-        if (x >= (cast_i64(max().value_) << 17))  {
+        if (x >= 0x10000) {
             value_ = min().value_;
-        } else if (x <= cast_i64(cast_u64(cast_i64(min().value_)) << 17)) {
+        } else if (x <= -0x10000) {
             value_ = max().value_;
         } else {
-            auto result = value_ - cast_i64(cast_u64(cast_i64(x)) << 16);
+            auto result = value_ - cast_i64(cast_u64(x) << 16);
             value_ = ( result >= max().value_ ? max().value_
                      : result <= min().value_ ? min().value_
                      : cast_i32(result) );
-- 
2.43.0


From f95ac5048d2e9782ddbf234ac5b93337e03e2053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 06/52] fix: basic_streambuf_writer must stop after a short
 sputn

do_write continued with the next string after the stream buffer had accepted
only part of the buffered content, leaving a hole in the output.
---
 include/strf/to_streambuf.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..114467c 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,9 +86,12 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
             count_ += count_inc;
-            this->set_good(count_inc == count + str_slen);
+            STRF_IF_LIKELY (count_inc == count) {
+                count_inc = dst_.sputn(str, str_slen);
+                count_ += count_inc;
+                this->set_good(count_inc == str_slen);
+            }
         }
     }
 
-- 
2.43.0


From 083517dcc2d3fae6a9204f3c4c0116a87d0879aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 07/52] fix: no_grouping ignored its decimal point

no_grouping::decimal_point() always returned '.', whatever had been set with
decimal_point(ch), and the member was left uninitialized (and yet compared by
operator==).
---
 include/strf/detail/facets/numpunct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..ecdae5e 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
-    constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From e3a3331d068a11f149f7268471760eb9c8369700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 08/52] fix: CHAR_MAX in the grouping string means no further
 grouping

digits_grouping(const char*) takes a string with the format of lconv::grouping,
where CHAR_MAX (0x7F where char is signed) ends the grouping. It was handled as
an invalid group size, which discarded the grouping altogether.
---
 include/strf/detail/facets/numpunct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index ecdae5e..483daea 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -410,7 +410,7 @@ STRF_FUNC_IMPL STRF_HD digits_grouping::digits_grouping(const char* str) noexcep
             *this = creator.finish();
             break;
         }
-        if (0 != (ch & 0x80)) {
+        if (0 != (ch & 0x80) || ch == CHAR_MAX) {
             *this = creator.finish_no_more_sep();
             break;
         }
-- 
2.43.0


From 0c8cc1313e9ab8955d6198a5fab899175e868278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 09/52] fix: buffer overrun when printing decimal integers with
 operator+ or operator~

Wrong operator precedence caused int_printer_no_pad0_nor_punct<CharT, 10> to
ensure room for just one character before writing the sign and all the digits.
---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..e6440ab 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From 7882dcc3e83f92b2bd09ef2a0e170cb165b852ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 10/52] fix: buffer overrun when printing punctuated binary
 integers

The digits before the first separator were written without checking whether
there was room for them in the destination.
---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From 24bb00e11114f6e314330aafba977dea1d6d3b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 11/52] fix: width of integers whose separator can not be
 encoded

When the charset does not have the thousands separator, integers are printed
without it, but the omitted separators were still counted in the width. Hence
alignment and pad0 resulted in text shorter than requested.
---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index e6440ab..fc580b6 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1788,6 +1788,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
             data.sepsize = 0;
+            data.sepcount = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
         }
-- 
2.43.0


From 218bae4d71a8a74e819b1cf69bf5cdfff81f8e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/52] fix: conversion between value_and_format types with
 int_format_specifier_full_dynamic

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index fc580b6..fd6998c 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -879,7 +879,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From 2509ef06404d2d856d30d2c7094ce63a2e487c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 13/52] fix: return type of hex/dec/oct/bin in lvalue formats
 with dynamic base

---
 include/strf/detail/printable_types/int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index fd6998c..2b59f95 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -888,7 +888,7 @@ public:
         data_.base = 16;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& hex() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& hex() &
     {
         data_.base = 16;
         return static_cast<T&>(*this);
@@ -898,7 +898,7 @@ public:
         data_.base = 10;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& dec() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& dec() &
     {
         data_.base = 10;
         return static_cast<T&>(*this);
@@ -908,7 +908,7 @@ public:
         data_.base = 8;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& oct() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& oct() &
     {
         data_.base = 8;
         return static_cast<T&>(*this);
@@ -918,7 +918,7 @@ public:
         data_.base = 2;
         return static_cast<T&&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& bin() &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& bin() &
     {
         data_.base = 2;
         return static_cast<T&>(*this);
-- 
2.43.0


From 48130e845794bfac6d3c1b8294c47941cef24fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 14/52] fix: base(int) discarded the other integer format
 options

---
 include/strf/detail/printable_types/int.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 2b59f95..117ce8c 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -779,9 +779,8 @@ public:
         , int_format_specifier_full_dynamic >
     base(int b) const
     {
-        int_format_full_dynamic data;
+        int_format_full_dynamic data = data_;
         data.base = b;
-        data.punctuate = Punctuate;
         return { *static_cast<const T*>(this)
                , strf::tag<int_format_specifier_full_dynamic>{}
                , data };
-- 
2.43.0


From 467b964240f4080b347f05cb8477c687fb4432f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 15/52] fix: printing of punctuated floats terminated when the
 destination throws

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..7769b31 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2310,16 +2310,16 @@ public:
 private:
 
     STRF_HD void print_fixed_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_scientific_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_hexadecimal_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     STRF_HD void print_inf_or_nan_
-        ( strf::destination<CharT>& dst ) const noexcept;
+        ( strf::destination<CharT>& dst ) const;
 
     strf::encode_char_f<CharT> encode_char_ = nullptr;
     strf::encode_fill_f<CharT> encode_fill_;
@@ -2359,7 +2359,7 @@ STRF_HD void punct_double_printer<CharT>::operator()
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_fixed_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2457,7 +2457,7 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_scientific_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
@@ -2473,7 +2473,7 @@ STRF_HD void punct_double_printer<CharT>::print_scientific_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     const auto sub_size = data_.sub_chars_count + decimal_point_size_ - data_.showpoint;
     STRF_ASSERT(data_.showpoint == (decimal_point_size_ != 0));
@@ -2539,7 +2539,7 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
 
 template <typename CharT>
 STRF_HD void punct_double_printer<CharT>::print_inf_or_nan_
-    ( strf::destination<CharT>& dst ) const noexcept
+    ( strf::destination<CharT>& dst ) const
 {
     if (data_.showsign) {
         put(dst, static_cast<CharT>(data_.sign));
-- 
2.43.0


From 06d0ec69e802fc38c03f630c5b7c2d62287f4c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 16/52] fix: fill and replacement character functions
 terminated when the destination throws

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 include/strf/detail/utf.hpp                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..17353ad 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2924,7 +2924,7 @@ public:
     {
         return 1;
     }
-    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst) noexcept
+    static STRF_HD void write_replacement_char(strf::transcode_dst<CharT>& dst)
     {
         strf::put(dst, static_cast<CharT>('?'));
     }
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..413c321 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -28,7 +28,7 @@ inline STRF_HD void repeat_sequence
     ( strf::transcode_dst<CharT>& dst
     , std::ptrdiff_t count
     , CharT ch0
-    , CharT ch1 ) noexcept
+    , CharT ch1 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 2;
@@ -61,7 +61,7 @@ inline STRF_HD void repeat_sequence
     , std::ptrdiff_t count
     , CharT ch0
     , CharT ch1
-    , CharT ch2 ) noexcept
+    , CharT ch2 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 3;
@@ -96,7 +96,7 @@ inline STRF_HD void repeat_sequence
     , CharT ch0
     , CharT ch1
     , CharT ch2
-    , CharT ch3 ) noexcept
+    , CharT ch3 )
 {
     auto *p = dst.buffer_ptr();
     constexpr std::ptrdiff_t seq_size = 4;
-- 
2.43.0


From 76faca0df537c4cb5706fdf60401426c1286fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 17/52] fix: overflow when accumulating widths beyond width_max

---
 include/strf/detail/premeasurements.hpp      | 4 ++--
 include/strf/detail/printable_types/char.hpp | 4 ++--
 include/strf/detail/printable_types/join.hpp | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..84c73b7 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -31,7 +31,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_width(strf::width_t w) noexcept
     {
-        width_ += w;
+        width_.sat_add(w);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void checked_add_width(strf::width_t w) noexcept
     {
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return strf::sat_add(width_, w) < limit_;
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
diff --git a/include/strf/detail/printable_types/char.hpp b/include/strf/detail/printable_types/char.hpp
index f39a9f0..e44dcad 100644
--- a/include/strf/detail/printable_types/char.hpp
+++ b/include/strf/detail/printable_types/char.hpp
@@ -78,7 +78,7 @@ STRF_HD void fmt_char_printer<CharT>::init_
     int fillcount = 0;
     if (content_width < afmt_.width) {
         fillcount = (afmt_.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount));
+        pre->add_width(strf::sat_add(content_width, static_cast<strf::width_t>(fillcount)));
     } else {
         fillcount = 0;
         pre->add_width(content_width);
@@ -209,7 +209,7 @@ void STRF_HD fmt_conv_char32_printer<DstCharT>::init_
     alignment_ = afmt.alignment;
     if (content_width < afmt.width) {
         fillcount_ = (afmt.width - content_width).round();
-        pre->add_width(content_width + static_cast<strf::width_t>(fillcount_));
+        pre->add_width(strf::sat_add(content_width, static_cast<strf::width_t>(fillcount_)));
     } else {
         fillcount_ = 0;
         pre->add_width(content_width);
diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..58ffba3 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -246,7 +246,7 @@ struct join_printing
         strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
+            wdiff = strf::sat_sub(wmax, afmt.width);
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
-- 
2.43.0


From 4c8e8205be3084cdcd3f9c915d1641f8fb6e790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 18/52] fix: overflow in the width premeasurement of tr-strings

---
 include/strf/detail/tr_printer.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/strf/detail/tr_printer.hpp b/include/strf/detail/tr_printer.hpp
index 2ac8fdc..e50a46a 100644
--- a/include/strf/detail/tr_printer.hpp
+++ b/include/strf/detail/tr_printer.hpp
@@ -161,7 +161,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_arg(std::ptrdiff_t index)
     {
         if (width_ < limit_) {
-            width_ += (index < array_size_ ? width_array_[index] : strf::width_t(1));
+            width_.sat_add(index < array_size_ ? width_array_[index] : strf::width_t(1));
             return width_ >= limit_;
         }
         return false;
@@ -169,7 +169,7 @@ public:
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool account_string(const CharT* begin, const CharT* end)
     {
         if (width_ < limit_) {
-            width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+            width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
             return width_ >= limit_;
         }
         return false;
@@ -219,10 +219,10 @@ public:
     {
         if (index < array_size_) {
             size_ += size_array_[index];
-            width_ += width_array_[index];
+            width_.sat_add(width_array_[index]);
         } else {
             size_ += charset_.replacement_char_size();
-            width_ += 1;
+            width_.sat_add(strf::width_t(1));
         }
         return {};
     }
@@ -230,7 +230,7 @@ public:
         ( const CharT* begin, const CharT* end )
     {
         size_ += (end - begin);
-        width_ += wcalc_.str_width(charset_, limit_ - width_, begin, end);
+        width_.sat_add(wcalc_.str_width(charset_, limit_ - width_, begin, end));
         return {};
     }
     STRF_HD std::ptrdiff_t accumulated_ssize() const
-- 
2.43.0


From ab6be50d119e9e09bc1c08137570e9c9653504c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 19/52] fix: wrong assertion in width_as_u32len_t::str_width

---
 include/strf/detail/facets/width_calculator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..811d527 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -134,7 +134,7 @@ public:
         STRF_ASSERT(str <= str_end);
         auto lim = limit.non_negative_ceil();
         auto res = charset.count_codepoints(str, str_end, lim);
-        STRF_ASSERT(res.count <= strf::width_max.floor());
+        STRF_ASSERT(res.count <= strf::width_max.ceil());
         return strf::width_t::sat_cast(res.count);
     }
 
-- 
2.43.0


From e51b7b1bbdd649dde97e765ec4c68bc288ebbef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:16 +0000
Subject: [PATCH 20/52] fix: premature saturation in width of nested aligned
 joins

---
 include/strf/detail/printable_types/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 58ffba3..f774bc7 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -258,7 +258,7 @@ struct join_printing
             ? (sub_pre.remaining_width() - wdiff).round()
             : 0 );
         pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+            ( strf::sat_add(strf::sat_sub(wmax, sub_pre.remaining_width()), pf.fillcount_) );
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From c421bf89560b8389af8c0b704a3af31d0318d490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 21/52] fix: sign not counted in the width of floats rounded to
 a single digit

---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 7769b31..79ff40e 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1652,7 +1652,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1661,7 +1661,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From 64e1c30804732dc73dfcffb21b511ef3f93404a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 22/52] fix: lettercase facet constrained to double was ignored
 by unformatted doubles

---
 include/strf/detail/printable_types/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 79ff40e..2ee7d66 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2590,7 +2590,7 @@ struct float_printing
         ( strf::tag<CharT>, PreMeasurements* pre, const FPack& fp, FloatT x ) noexcept
         -> strf::detail::fast_double_printer<CharT>
     {
-        const fast_double_printer<CharT> p(x, strf::get_facet<strf::lettercase_c, float>(fp));
+        const fast_double_printer<CharT> p(x, strf::get_facet<strf::lettercase_c, FloatT>(fp));
         if (pre->has_remaining_width() || PreMeasurements::size_demanded) {
             const auto s = p.size();
             pre->add_width(static_cast<std::int16_t>(s));
-- 
2.43.0


From 1c35bc01989b034f508467b0663f3d11020436e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 23/52] fix: thousands separator of floats not encoded in
 single-byte charsets

---
 include/strf/detail/printable_types/float.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 2ee7d66..3502bb4 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2374,9 +2374,15 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            CharT sep;
+            if (thousands_sep_ < 0x80) {
+                sep = static_cast<CharT>(thousands_sep_);
+            } else {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
                 ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                , sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0


From fab5bf45204c14320b3880e65cdeb668d570b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 24/52] fix: carry and tie when rounding hexadecimal floats

---
 include/strf/detail/printable_types/float.hpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 3502bb4..9df3b4b 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1609,11 +1609,27 @@ inline STRF_HD strf::detail::float_init_result init_hex_double_printer_data
                 auto d = 1ULL << s;
                 auto mask = d - 1;
                 auto mantissa_low = data.mantissa & mask;
-                if ( mantissa_low > (d >> 1)
-                 || (mantissa_low == (d >> 1) && (data.mantissa & d))) {
+                const bool odd = ( fdata.precision == 0
+                                 ? ! data.subnormal
+                                 : (data.mantissa & d) != 0 );
+                if ( mantissa_low > (d >> 1) || (mantissa_low == (d >> 1) && odd)) {
                     data.mantissa += d;
                 }
                 data.mantissa_digcount = fdata.precision;
+                if ((data.mantissa >> 52) != 0) { // carry to the digit before the point
+                    data.mantissa = 0;
+                    data.mantissa_digcount = 0;
+                    data.extra_zeros = fdata.precision;
+                    if (data.subnormal) {
+                        data.subnormal = false;
+                    } else {
+                        data.sub_chars_count -= data.exponent_digcount;
+                        ++ data.exponent;
+                        data.exponent_digcount =
+                            strf::detail::exponent_hex_digcount(data.exponent);
+                        data.sub_chars_count += data.exponent_digcount;
+                    }
+                }
                 data.showpoint = fdata.precision || fdata.showpoint;
                 data.sub_chars_count += data.showpoint + data.mantissa_digcount;
             }
-- 
2.43.0


From 851e6ed5207a7fe072b11f4f47e8e15d404fa787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 25/52] Revert "fix: lettercase facet constrained to double was
 ignored by unformatted doubles"

This reverts commit 64e1c30804732dc73dfcffb21b511ef3f93404a7.
---
 include/strf/detail/printable_types/float.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 9df3b4b..b95f311 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2612,7 +2612,7 @@ struct float_printing
         ( strf::tag<CharT>, PreMeasurements* pre, const FPack& fp, FloatT x ) noexcept
         -> strf::detail::fast_double_printer<CharT>
     {
-        const fast_double_printer<CharT> p(x, strf::get_facet<strf::lettercase_c, FloatT>(fp));
+        const fast_double_printer<CharT> p(x, strf::get_facet<strf::lettercase_c, float>(fp));
         if (pre->has_remaining_width() || PreMeasurements::size_demanded) {
             const auto s = p.size();
             pre->add_width(static_cast<std::int16_t>(s));
-- 
2.43.0


From dcee7ad3766ce5bfdc5a996e94d9142d6bcbe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 26/52] fix: separator missing when rounding a fixed float adds
 a digit

---
 include/strf/detail/printable_types/float.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index b95f311..544c485 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1937,6 +1937,11 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        // the additional digit may demand an additional separator
+                        const auto sep_count = static_cast<detail::chars_count_t>
+                            (grouping.separators_count(int_digcount + 1));
+                        data.sub_chars_count += sep_count - data.sep_count;
+                        data.sep_count = sep_count;
                     }
                 }
             }
-- 
2.43.0


From 3d7b7acebad5e9b6d4ad743450395bd30fe83665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 27/52] fix: std_width_calc_t::str_width_and_pos returned
 negative width for negative limit

---
 include/strf/detail/facets/width_calculator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 811d527..f6c22a9 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -509,6 +509,7 @@ public:
         char32_t buff32[buff32_size];
         constexpr auto flags = strf::transcode_flags::none;
         const auto to_u32 = charset.to_u32();
+        limit = limit <= 0 ? 0 : limit;
         detail::std_width_calc_func_return resw{limit, 0, nullptr};
         while(1) {
             auto res_tr = to_u32.transcode(str, str_end, buff32, buff32 + buff32_size, nullptr, flags);
-- 
2.43.0


From ccc05a887c26ff8746c6df16bcf167a43d646f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 28/52] fix: str_width_and_pos overstated the width when the
 next grapheme cluster did not fit

---
 include/strf/detail/facets/width_calculator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index f6c22a9..237591e 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -220,7 +220,7 @@ STRF_FUNC_IMPL STRF_HD std_width_calc_func_return std_width_calc_func
             return {0, 0, nullptr};
         }
         if (ch_width > width) {
-            return {0, 0, str -1};
+            return {width, state, str -1};
         }
         width = 0;
         goto next_codepoint; // because there might be more codepoints in this grapheme cluster
@@ -517,6 +517,7 @@ public:
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
             if ( resw.remaining_width <= 0 ||
+                 resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From 84bc437dd4b7cf51d2f56af9312cc40eb9d49e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 29/52] fix: str_width_and_pos could split a grapheme cluster
 at the end of its internal buffer

---
 include/strf/detail/facets/width_calculator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 237591e..546c1a4 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -516,8 +516,7 @@ public:
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
-                 resw.ptr != res_tr.dst_ptr ||
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From b06dfa88978d0bfa0ebfcae5b780faca8a070485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 30/52] fix: windows-1254 encoded code points it does not have
 (U+D0, U+DD, U+DE, U+F0, U+FD, U+FE)

---
 include/strf/detail/single_byte_charsets.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 17353ad..69ea441 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2001,6 +2001,12 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x90: return 0x90;
         case 0x9D: return 0x9D;
         case 0x9E: return 0x9E;
+        case 0xD0:
+        case 0xDD:
+        case 0xDE:
+        case 0xF0:
+        case 0xFD:
+        case 0xFE: return 0x100;
         case 0x011E: return 0xD0;
         case 0x011F: return 0xF0;
         case 0x0130: return 0xDD;
-- 
2.43.0


From 9cc662524e8b8d8d373f89b5f582d3282298a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 31/52] fix: windows-1258 encoded U+009F, which it does not
 have

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 69ea441..d63d3c6 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2405,7 +2405,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From 898c3a1c35bdca030a34dba4b6533dfa0305f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 32/52] fix: transcode() with a dynamic charset did not compile
 when destination is not of char

---
 include/strf/detail/printable_types/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index ace8449..7a8989e 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -1598,7 +1598,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
@@ -1691,7 +1691,7 @@ public:
         underlying_printer_().~clonable_polymorphic_printer();
     }
 
-    STRF_HD void operator()(strf::destination<char>& dst) const
+    STRF_HD void operator()(strf::destination<DstCharT>& dst) const
     {
         underlying_printer_().print_to(dst);
     }
-- 
2.43.0


From 24e1359143d38ed4d76ef8cd8258faf7e8cfba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 33/52] fix: width of string with explicit charset was measured
 in the charset of the facets

---
 .../strf/detail/printable_types/string.hpp    | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/include/strf/detail/printable_types/string.hpp b/include/strf/detail/printable_types/string.hpp
index 7a8989e..b1d1806 100644
--- a/include/strf/detail/printable_types/string.hpp
+++ b/include/strf/detail/printable_types/string.hpp
@@ -523,6 +523,33 @@ template <typename SrcCharT>
 struct string_printing;
 
 
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
+{
+    return strf::get_facet
+        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
+        ( facets );
+}
+
+template <typename SrcCharT, typename Facets, typename FmtArg>
+constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
+{
+    return arg.get_charset();
+}
+
+template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
+         , typename Charset, transcoding_policy TranscPoli >
+constexpr STRF_HD auto get_src_charset
+    ( const FPack& facets
+    , const strf::value_and_format
+        < string_printing<SrcCharT>
+        , strf::detail::string_precision_format_specifier<HasPrecision>
+        , strf::alignment_format_specifier_q<HasAlignment>
+        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
+{
+    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
+}
+
 template <typename SrcCharT, typename DstCharT>
 class strcpy_printer
 {
@@ -565,7 +592,7 @@ public:
         STRF_IF_CONSTEXPR(PreMeasurements::width_demanded) {
             auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
             auto w = wcalc.str_width
-                ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+                ( strf::detail::get_src_charset(facets, arg)
                 , pre->remaining_width()
                 , str_
                 , str_end_ );
@@ -588,7 +615,7 @@ public:
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
         auto res = wcalc.str_width_and_pos
-            ( get_facet_<strf::charset_c<SrcCharT>>(facets)
+            ( strf::detail::get_src_charset(facets, arg)
             , arg.precision(), str_, arg.value().end() );
         str_end_ = res.ptr;
         pre->add_width(res.width);
@@ -642,7 +669,7 @@ public:
     {
 
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         const strf::width_t limit =
             ( pre->remaining_width_greater_than(afmt_.width)
@@ -668,7 +695,7 @@ public:
         , afmt_(arg.get_alignment_format())
     {
         auto&& wcalc = get_facet_<strf::width_calculator_c>(facets);
-        auto src_charset = get_facet_<strf::charset_c<SrcCharT>>(facets);
+        auto src_charset = strf::detail::get_src_charset(facets, arg);
         auto dst_charset = get_facet_<strf::charset_c<DstCharT>>(facets);
         auto res = wcalc.str_width_and_pos
             ( src_charset, arg.precision(), str_, arg.value().end() );
@@ -764,33 +791,6 @@ void STRF_HD aligned_strcpy_printer<SrcCharT, DstCharT>::operator()
 }
 
 
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::false_type, const Facets& facets, const FmtArg&)
-{
-    return strf::get_facet
-        <strf::charset_c<SrcCharT>, strf::string_input_tag<SrcCharT>>
-        ( facets );
-}
-
-template <typename SrcCharT, typename Facets, typename FmtArg>
-constexpr STRF_HD auto do_get_src_charset(std::true_type, const Facets&, const FmtArg& arg)
-{
-    return arg.get_charset();
-}
-
-template < typename FPack, typename SrcCharT, bool HasPrecision, bool HasAlignment
-         , typename Charset, transcoding_policy TranscPoli >
-constexpr STRF_HD auto get_src_charset
-    ( const FPack& facets
-    , const strf::value_and_format
-        < string_printing<SrcCharT>
-        , strf::detail::string_precision_format_specifier<HasPrecision>
-        , strf::alignment_format_specifier_q<HasAlignment>
-        , transcoding_format_specifier_q<SrcCharT, Charset, TranscPoli> >& arg )
-{
-    return strf::detail::do_get_src_charset<SrcCharT>(is_charset<Charset>(), facets, arg);
-}
-
 template <typename SrcCharT, typename DstCharT>
 class transcode_printer
 {
-- 
2.43.0


From aca3f821db6d9397335d4abc3ee13d9935bb89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:44 +0000
Subject: [PATCH 34/52] fix: transcode_size to single-byte charsets disagreed
 with transcode

- U+FFFD (never an error) was taken as an invalid sequence, 0xD800 and 0xFFFF
  as unsupported, and 0x110000 as unsupported under lax_surrogate_policy.
- negative wchar_t values were not invalid sequences.
---
 include/strf/detail/single_byte_charsets.hpp | 32 ++++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index d63d3c6..0e6947a 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -130,6 +130,12 @@ struct sbcs_never_has_invalid_seq_crtp
 template <typename T>
 struct sbcs_find_unsupported_codepoint_crtp
 {
+    static STRF_HD bool is_invalid_u32(std::uint32_t ch, bool strict_surrogates) noexcept
+    {
+        return ch >= 0x110000
+            || (strict_surrogates && 0xD800 <= ch && ch <= 0xFFFF && ch != 0xFFFD);
+    }
+
     template <typename CharT>
     static STRF_HD strf::transcode_size_result<CharT> find_first_invalid_codepoint
         ( const CharT* src
@@ -143,14 +149,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_u32(detail::cast_u32(*it), true)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (is_invalid_u32(detail::cast_u32(*it), false)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +165,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_u32(detail::cast_u32(*it), true)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +174,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (is_invalid_u32(detail::cast_u32(*it), false)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +194,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (is_invalid_u32(detail::cast_u32(*it), true)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +204,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (is_invalid_u32(detail::cast_u32(*it), false)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +216,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (is_invalid_u32(detail::cast_u32(*it), true)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +228,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (is_invalid_u32(detail::cast_u32(*it), false)) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +252,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( ! is_invalid_u32(detail::cast_u32(*it), true)
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +261,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if ( ! is_invalid_u32(detail::cast_u32(*it), false) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +271,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( ! is_invalid_u32(detail::cast_u32(*it), true)
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +282,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if ( ! is_invalid_u32(detail::cast_u32(*it), false) && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2670,7 +2676,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xFFFF));
-- 
2.43.0


From 4571e70e398300a1b9bd63a3160aea12e4447d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:41 +0000
Subject: [PATCH 35/52] fix: fmt_separated_range(initializer_list, sep) did not
 compile with clang

---
 include/strf/detail/printable_types/range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/range.hpp b/include/strf/detail/printable_types/range.hpp
index 5dc2ebd..a087c3c 100644
--- a/include/strf/detail/printable_types/range.hpp
+++ b/include/strf/detail/printable_types/range.hpp
@@ -818,7 +818,7 @@ template <typename T, typename CharT>
 inline STRF_HD auto fmt_separated_range(std::initializer_list<T> r, const CharT* sep) noexcept
     -> strf::sep_range_with_fmt<const T*, CharT>
 {
-    std::size_t sep_len = strf::detail::str_ssize<CharT>(sep);
+    const auto sep_len = strf::detail::str_ssize<CharT>(sep);
     strf::separated_range_p<const T*, CharT> rr
     { r.begin(), r.end(), sep, sep_len };
     return strf::sep_range_with_fmt<const T*, CharT>{rr};
-- 
2.43.0


From 9754433862f1b88ec664862bf95daf3f0609ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 36/52] fix: chained with() after a constrained facet did not
 compile

---
 include/strf/facets_pack.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/strf/facets_pack.hpp b/include/strf/facets_pack.hpp
index f1eb9da..1f90ab9 100644
--- a/include/strf/facets_pack.hpp
+++ b/include/strf/facets_pack.hpp
@@ -358,6 +358,24 @@ public:
     {
     }
 
+    template
+        < typename F = FPE
+        , strf::detail::enable_if_t<std::is_copy_constructible<F>::value, int> = 0 >
+    constexpr STRF_HD explicit fpe_wrapper(const FPE& fpe)
+        noexcept(noexcept(F(std::declval<const F&>())))
+        : fpe_(fpe)
+    {
+    }
+
+    template
+        < typename F = FPE
+        , strf::detail::enable_if_t<std::is_move_constructible<F>::value, int> = 0 >
+    constexpr STRF_HD explicit fpe_wrapper(FPE&& fpe)
+        noexcept(noexcept(F(std::declval<F>())))
+        : fpe_(std::move(fpe))
+    {
+    }
+
     template <typename Tag, typename Category>
     constexpr STRF_HD
     STRF_DECLTYPE_AUTO((strf::detail::do_get_facet<Category, Tag>(std::declval<const FPE&>())))
-- 
2.43.0


From f92579c33e060f6f75f1f76221a08ca9fcd2551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 37/52] fix: decode_encode notified twice the invalid sequences
 at the end of its pivot buffer

---
 include/strf/detail/facets/charset.hpp | 44 ++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index d005123..8871b94 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -1066,6 +1066,44 @@ struct decode_encode_size_result
     transcode_stop_reason stop_reason;
 };
 
+namespace detail {
+
+// A transcoder notifies an invalid sequence before it realizes there is no space
+// left in the pivot buffer, and then again in the next call. This class ensures
+// that the user's notifier is called only once for each of them.
+class invalid_sequence_notifier_once final: public strf::transcoding_error_notifier
+{
+public:
+    STRF_HD explicit invalid_sequence_notifier_once(strf::transcoding_error_notifier* notifier)
+        : notifier_(notifier)
+    {
+    }
+
+    STRF_HD strf::transcoding_error_notifier* get()
+    {
+        return notifier_ ? this : nullptr;
+    }
+
+    STRF_HD void invalid_sequence
+        ( int code_unit_size
+        , const char* charset_name
+        , const void* sequence_ptr
+        , std::ptrdiff_t code_units_count ) override
+    {
+        if (sequence_ptr != last_sequence_) {
+            last_sequence_ = sequence_ptr;
+            notifier_->invalid_sequence
+                (code_unit_size, charset_name, sequence_ptr, code_units_count);
+        }
+    }
+
+private:
+    strf::transcoding_error_notifier* notifier_;
+    const void* last_sequence_ = nullptr;
+};
+
+} // namespace detail
+
 template <typename SrcCharT, typename DstCharT>
 STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     ( strf::transcode_f<SrcCharT, char32_t> to_u32
@@ -1078,11 +1116,12 @@ STRF_HD strf::decode_encode_result<SrcCharT, DstCharT> decode_encode
     , strf::transcode_flags flags = strf::transcode_flags::none )
 {
     using stop_reason = strf::transcode_stop_reason;
+    detail::invalid_sequence_notifier_once src_notifier{err_notifier};
     char32_t pivot_buff[16] = {};
     while (true) {
         char32_t* pivot = pivot_buff;
         char32_t* pivot_end = pivot_buff + sizeof(pivot_buff) / sizeof(pivot_buff[0]);
-        const auto src_res = to_u32(src, src_end, pivot, pivot_end, err_notifier, flags);
+        const auto src_res = to_u32(src, src_end, pivot, pivot_end, src_notifier.get(), flags);
         const auto dst_res = from_u32
             (pivot_buff, src_res.dst_ptr, dst, dst_end, err_notifier, flags);
 
@@ -1168,13 +1207,14 @@ STRF_HD strf::decode_encode_size_result<SrcCharT> decode_encode
     if (!dst.good()) {
         return {0, src, 0, stop_reason::insufficient_output_space};
     }
+    detail::invalid_sequence_notifier_once src_notifier{err_notifier};
     char32_t pivot_buff[16] = {};
     char32_t* const pivot_end = pivot_buff + sizeof(pivot_buff) / sizeof(pivot_buff[0]);
     std::ptrdiff_t count = 0;
     auto* dst_it = dst.buffer_ptr();
     auto* dst_end = dst.buffer_end();
     while (true) {
-        const auto src_res = to_u32(src, src_end, pivot_buff, pivot_end, err_notifier, flags);
+        const auto src_res = to_u32(src, src_end, pivot_buff, pivot_end, src_notifier.get(), flags);
 
         char32_t* pivot_it = pivot_buff;
         while (true) {
-- 
2.43.0


From 0500bd8143f34908d14db5f95ab910d882f8740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 38/52] fix: transcode_size from UTF-8 to UTF-8 stopped one
 piece early when the limit is exactly what is needed

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 413c321..9b8a796 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 2256d0cf0dfaf5489838aed165b5037b269006b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 39/52] fix: unsafe_transcode_size from UTF-8 to UTF-32 stopped
 after the first unit of a sequence when the limit was reached

---
 include/strf/detail/utf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 9b8a796..c1fcfb3 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,10 +1671,10 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
+            const unsigned ch = detail::cast_u8(*src_it);
+            if (size >= limit && detail::not_utf8_continuation(ch)) {
                 return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
             }
-            const unsigned ch = detail::cast_u8(*src_it);
             size += detail::not_utf8_continuation(ch);
         }
     }
-- 
2.43.0


From b0b06666b68c996ae3902aba2db32ed206441dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 40/52] fix: UTF-32 transcode_size did not see that negative
 wchar_t values are invalid

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index c1fcfb3..2b24bd8 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3010,13 +3010,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3025,7 +3025,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3034,7 +3034,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From 66ad6ce6e6c6de83667f85f719261d3589baa669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 41/52] fix: decode_unit did not give U+FFFD for invalid units
 in UTF-8 (signed char) and UTF-32

---
 include/strf/detail/utf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 2b24bd8..a6b321d 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,7 +962,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
+        STRF_IF_LIKELY (detail::cast_u8(ch) < 0x80)
             return static_cast<char32_t>(ch);
         return 0xFFFD;
     }
@@ -1273,7 +1273,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        return static_cast<char32_t>(ch);
+        return detail::cast_u32(ch) < 0x110000 ? static_cast<char32_t>(ch) : 0xFFFD;
     }
     static STRF_HD strf::encode_char_f<CharT> encode_char_func() noexcept
     {
-- 
2.43.0


From dca016590286a034be0e22c04cb6f8b4dbe4b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 42/52] fix: overflow in _w literals with 15 or more fractional
 digits

---
 include/strf/width_t.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 9e5d09d..72e9ea3 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -815,11 +815,13 @@ template <unsigned Q, char... C>
 class mp_fixed_point_parser
 {
     using helper = detail::mp_fp_parser_2<Q, C...>;
-    static constexpr auto divisor = detail::mp_pow10<helper::fdigcount>();
-    static constexpr auto frac_ = (helper::fvalue << Q) / divisor;
-    static constexpr auto rem_ = (helper::fvalue << Q) % divisor;
-    static constexpr bool round_up = (rem_ > (divisor >> 1))
-                           || (rem_ == (divisor >> 1) && (frac_ & 1) == 1);
+    // (fvalue << Q) could overflow, hence both terms are divided by 2^fdigcount.
+    // The divisor is then an odd number ( 5^fdigcount ), so there are no ties.
+    static constexpr auto dividend = helper::fvalue << (Q - helper::fdigcount);
+    static constexpr auto divisor = detail::mp_pow10<helper::fdigcount>() >> helper::fdigcount;
+    static constexpr auto frac_ = dividend / divisor;
+    static constexpr auto rem_ = dividend % divisor;
+    static constexpr bool round_up = rem_ > (divisor >> 1);
     static constexpr auto frac = frac_ + round_up;
 
 public:
-- 
2.43.0


From 103f2cd53362ec5d8a34575107d47c20e1cc9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:08 +0000
Subject: [PATCH 43/52] fix: _w literals from 32768 to 65535 were accepted and
 gave negative widths

---
 include/strf/width_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 72e9ea3..67e9ec5 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -838,7 +838,7 @@ template <char... C>
 class mp_width_parser
 {
     using helper = strf::detail::mp_fixed_point_parser<16, C...>;
-    static_assert(helper::abs_value < 0x100000000, "width value too big");
+    static_assert(helper::abs_value < 0x80000000, "width value too big");
     static constexpr auto abs_value = static_cast<std::int32_t>(helper::abs_value);
     static constexpr auto negative = helper::negative;
 
-- 
2.43.0


From 4569d73d8c6bb8912072df4f35788838ea9fcf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 44/52] fix: sat_add, sat_sub, sat_mul and compare did not
 compile with unsigned and 8-bit integers, nor compare with two widths

---
 include/strf/width_t.hpp | 64 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 64 insertions(+)

diff --git a/include/strf/width_t.hpp b/include/strf/width_t.hpp
index 67e9ec5..dca4146 100644
--- a/include/strf/width_t.hpp
+++ b/include/strf/width_t.hpp
@@ -273,6 +273,26 @@ public:
         }
         return *this;
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_add(detail::tag_i8, std::int8_t x) noexcept
+    {
+        return sat_add(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_add(detail::tag_u8, std::uint8_t x) noexcept
+    {
+        return sat_add(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_add(detail::tag_u16, std::uint16_t x) noexcept
+    {
+        return sat_add(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_add(detail::tag_u32, std::uint32_t x) noexcept
+    {
+        return sat_add(detail::tag_i64(), strf::detail::cast_i64(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_add(detail::tag_u64, std::uint64_t x) noexcept
+    {
+        return sat_add(detail::tag_i64(), x < 0x10000 ? strf::detail::cast_i64(x) : 0x10000);
+    }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(width_t x) noexcept
     {
         using namespace strf::detail::cast_sugars;
@@ -310,6 +330,38 @@ public:
         }
         return *this;
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_i8, std::int8_t x) noexcept
+    {
+        return sat_sub(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_u8, std::uint8_t x) noexcept
+    {
+        return sat_sub(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_u16, std::uint16_t x) noexcept
+    {
+        return sat_sub(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_u32, std::uint32_t x) noexcept
+    {
+        return sat_sub(detail::tag_i64(), strf::detail::cast_i64(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_sub(detail::tag_u64, std::uint64_t x) noexcept
+    {
+        return sat_sub(detail::tag_i64(), x < 0x10000 ? strf::detail::cast_i64(x) : 0x10000);
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_mul(detail::tag_i8, std::int8_t x) noexcept
+    {
+        return sat_mul(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_mul(detail::tag_u8, std::uint8_t x) noexcept
+    {
+        return sat_mul(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_mul(detail::tag_u16, std::uint16_t x) noexcept
+    {
+        return sat_mul(detail::tag_i32(), strf::detail::cast_i32(x));
+    }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD width_t& sat_mul(detail::tag_i16, std::int16_t x) noexcept
     {
         return sat_mul(width_t(x));
@@ -412,6 +464,14 @@ public:
         return *this;
     }
 
+    constexpr STRF_HD std::int64_t compare(detail::tag_i8, std::int8_t x) const noexcept
+    {
+        return compare(detail::tag_i16(), strf::detail::cast_i16(x));
+    }
+    constexpr STRF_HD std::int64_t compare(detail::tag_u8, std::uint8_t x) const noexcept
+    {
+        return compare(detail::tag_u16(), strf::detail::cast_u16(x));
+    }
     constexpr STRF_HD std::int64_t compare(detail::tag_i16, std::int16_t x) const noexcept
     {
         using namespace strf::detail::cast_sugars;
@@ -498,6 +558,10 @@ STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::width_t sat_mul(IntT i, strf::width_t w) n
     return w.sat_mul(detail::int_tag<IntT>(), i);
 }
 
+constexpr STRF_HD std::int64_t compare(strf::width_t lhs, strf::width_t rhs) noexcept
+{
+    return detail::cast_i64(lhs.underlying_value()) - detail::cast_i64(rhs.underlying_value());
+}
 template <typename IntT, detail::enable_if_t<std::is_integral<IntT>::value, int> = 0>
 constexpr STRF_HD auto compare(strf::width_t w, IntT i) noexcept
 {
-- 
2.43.0


From 18b9b4aaf549af1c35417f6332d33b4676f79cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 45/52] fix: locale_numpunct() was not noexcept with
 STRF_SEPARATE_COMPILATION

---
 include/strf/locale.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/locale.hpp b/include/strf/locale.hpp
index 6d46964..474d899 100644
--- a/include/strf/locale.hpp
+++ b/include/strf/locale.hpp
@@ -27,7 +27,7 @@ namespace strf {
 
 #if defined(STRF_OMIT_IMPL)
 
-strf::numpunct<10> locale_numpunct();
+strf::numpunct<10> locale_numpunct() noexcept;
 
 namespace detail {
 
-- 
2.43.0


From 727337354d9d768cff30db53e8be06991c704c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:54 +0000
Subject: [PATCH 46/52] fix: printing floats did not compile with
 STRF_FREESTANDING (std::abs is not declared)

---
 include/strf/detail/printable_types/float.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 544c485..17095d7 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1135,7 +1135,7 @@ STRF_HD void print_scientific_notation
 
     unsigned adv = 4;
     CharT* it = nullptr;
-    int abs_e10 = std::abs(exponent);
+    int abs_e10 = exponent >= 0 ? exponent : -exponent;
     STRF_ASSERT(abs_e10 < 1000);
 
     if (abs_e10 >= 100) {
@@ -1355,7 +1355,7 @@ STRF_HD void fast_double_printer<CharT>::operator()
         }
         it[0] = static_cast<CharT>('E' | ((lettercase_ != strf::uppercase) << 5));
         it[1] = static_cast<CharT>('+' + ((e10 < 0) << 1));
-        int abs_e10 = std::abs(e10);
+        int abs_e10 = e10 >= 0 ? e10 : -e10;
         if (abs_e10 >= 100) {
             it[4] = static_cast<CharT>('0' + abs_e10 % 10);
             abs_e10 /= 10;
@@ -1841,7 +1841,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_s
         data.m10_digcount += xz;
 #if defined(__GNUC__) && __GNUC__ <= 10
         // silent a false warning of GCC
-        data.m10_digcount = std::abs(data.m10_digcount);
+        data.m10_digcount = data.m10_digcount >= 0 ? data.m10_digcount : -data.m10_digcount;
 #endif
         data.e10 -= xz;
         auto p10 = strf::detail::pow10(-xz);
-- 
2.43.0


From 98b2c8200fb69f1e66791a04b29bd3cce06b026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 47/52] fix: make_printer() was given an argument of a
 tr-string in other form than when it is printed directly

---
 include/strf/detail/printing_helpers.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printing_helpers.hpp b/include/strf/detail/printing_helpers.hpp
index fcd7a76..69c0669 100644
--- a/include/strf/detail/printing_helpers.hpp
+++ b/include/strf/detail/printing_helpers.hpp
@@ -371,7 +371,9 @@ struct printer_wrapper_maker_without_premeasurements
         , const Arg& arg )
    {
        strf::no_premeasurements no_pre;
-       return tof.make_printer(strf::tag<CharT>{}, &no_pre, fp, arg);
+       return tof.make_printer
+           ( strf::tag<CharT>{}, &no_pre, fp
+           , PrintableArgConverter::convert_printable_arg(arg) );
    }
 };
 
-- 
2.43.0


From e446916f3cfb9fdebf75d04bacec1464c75b5977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 48/52] fix: fmt() kept a reference to a temporary when
 forwarded_type is a reference (GCC)

---
 include/strf/detail/printable_def.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 70490dd..017d5f5 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -307,9 +307,9 @@ inline namespace format_functions {
 
 template <typename T>
 constexpr STRF_HD fmt_type<T> fmt(T&& value)
-    noexcept(noexcept(fmt_type<T>{fmt_value_type<T>{value}}))
+    noexcept(noexcept(fmt_type<T>{static_cast<fmt_value_type<T>>(value)}))
 {
-    return fmt_type<T>{fmt_value_type<T>{value}};
+    return fmt_type<T>{static_cast<fmt_value_type<T>>(value)};
 }
 
 #else //defined (STRF_NO_GLOBAL_CONSTEXPR_VARIABLE)
@@ -324,9 +324,9 @@ struct fmt_fn
              , typename FmtType = fmt_type<T>
              , typename FmtValueType = typename FmtType::value_type >
     constexpr STRF_HD fmt_type<T> operator()(T&& value) const
-        noexcept(noexcept(FmtType{FmtValueType{(T&&)value}}))
+        noexcept(noexcept(FmtType{static_cast<FmtValueType>((T&&)value)}))
     {
-        return FmtType{FmtValueType{(T&&)value}};
+        return FmtType{static_cast<FmtValueType>((T&&)value)};
     }
 
     template < typename T
-- 
2.43.0


From 7f887e1f366610ea95a6f8026ad0163f56b216b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:26 +0000
Subject: [PATCH 49/52] fix: representative was ignored in the printable_defs
 of built-in types, so pointers could not be overridden

---
 include/strf/detail/printable_def.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_def.hpp b/include/strf/detail/printable_def.hpp
index 017d5f5..97d962e 100644
--- a/include/strf/detail/printable_def.hpp
+++ b/include/strf/detail/printable_def.hpp
@@ -451,7 +451,14 @@ namespace detail {
 template <typename PrintableDef>
 struct representative_from_printable_def
 {
-    using type = PrintableDef;
+    template <typename U>
+    static STRF_HD strf::tag<typename U::representative> test_(const U*);
+
+    template <typename U>
+    static STRF_HD strf::tag<U> test_(...);
+
+    using tag_type = decltype(test_<PrintableDef>((PrintableDef*)nullptr));
+    using type = typename tag_type::type;
 };
 
 template <typename P>
-- 
2.43.0


From 5f636685a798933efc456d9ba10fc6b6f3e2a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:09 +0000
Subject: [PATCH 50/52] fix: find_transcoder() asked for find_transcoder_from
 where it should ask for find_transcoder_to

---
 include/strf/detail/facets/charset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/facets/charset.hpp b/include/strf/detail/facets/charset.hpp
index 8871b94..3b6deec 100644
--- a/include/strf/detail/facets/charset.hpp
+++ b/include/strf/detail/facets/charset.hpp
@@ -834,7 +834,7 @@ class has_find_transcoder_to_impl
     template < typename D
              , typename S
              , typename = decltype
-                 ( std::declval<const S&>().find_transcoder_from
+                 ( std::declval<const S&>().find_transcoder_to
                    (strf::tag<D>(), strf::csid_utf8) ) >
     static std::true_type test(strf::tag<D> dtag, const S* s);
 
-- 
2.43.0


From ea0c055b37a88d51ca7f7e5f70cde8409a94d343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 51/52] fix: std_width_calc took wchar_t and char32_t units for
 code points whatever their charset

---
 include/strf/detail/facets/width_calculator.hpp | 14 +-------------
 include/strf/detail/utf.hpp                     |  2 +-
 2 files changed, 2 insertions(+), 14 deletions(-)

diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index 546c1a4..8f59fde 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -448,19 +448,7 @@ public:
         return 1_w;
     }
 
-    template < typename Charset
-             , typename CodeUnit = typename Charset::code_unit
-             , strf::detail::enable_if_t<sizeof(CodeUnit) == 4, int> = 0 >
-    static constexpr STRF_HD strf::width_t char_width
-        ( Charset
-        , typename Charset::code_unit ch )
-    {
-        return char32_width(static_cast<char32_t>(ch));
-    }
-
-    template < typename Charset
-             , typename CodeUnit = typename Charset::code_unit
-             , strf::detail::enable_if_t<sizeof(CodeUnit) != 4, int> = 0 >
+    template <typename Charset>
     static constexpr STRF_HD strf::width_t char_width
         ( Charset charset
         , typename Charset::code_unit ch )
diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index a6b321d..e7c3f63 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1271,7 +1271,7 @@ public:
     static STRF_HD void write_replacement_char
         ( strf::transcode_dst<CharT>& );
 
-    static STRF_HD char32_t decode_unit(CharT ch) noexcept
+    static constexpr STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
         return detail::cast_u32(ch) < 0x110000 ? static_cast<char32_t>(ch) : 0xFFFD;
     }
-- 
2.43.0


From ebfb17b8a0de2d4a0e6f19637d3abd9adc7e8ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:45 +0000
Subject: [PATCH 52/52] fix: size_accumulator::add_size ignores negative
 values, as documented, instead of asserting

---
 include/strf/detail/premeasurements.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index 84c73b7..641e884 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -133,7 +133,6 @@ public:
              , strf::detail::enable_if_t<std::is_integral<IntT>::value, int> =0>
     STRF_CONSTEXPR_IN_CXX14 STRF_HD void add_size(IntT s) noexcept
     {
-        STRF_ASSERT(detail::ge_zero(s));
         size_ += detail::safe_cast_size_t(s);
     }
 
-- 
2.43.0

