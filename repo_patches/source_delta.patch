From c65601632b1430f4a4a6a11f3a8819cc3e168899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 01/79] fix: do not read past the end of the string when the
 last UTF-8 character is truncated

detect_next_encoding() compared the length of the whole string with the
length of the character, ignoring the offset, so a truncated multi-byte
character at a non-zero offset was read beyond the end.
---
 src/jogasaki/utils/utf8_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..feea7f4 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (offset_2nd < size && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From cb692356aab80f46143dba5c1815b9c9d1f1179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 02/79] fix: include the additional text in the supplemental
 text of error_info

---
 src/jogasaki/error/error_info.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/error/error_info.cpp b/src/jogasaki/error/error_info.cpp
index 2f33478..5b9ef26 100644
--- a/src/jogasaki/error/error_info.cpp
+++ b/src/jogasaki/error/error_info.cpp
@@ -98,6 +98,7 @@ std::string_view error_info::additional_text() const noexcept {
 
 void error_info::additional_text(std::string_view arg) noexcept {
     additional_text_ = arg;
+    supplemental_text_ = create_supplemental_text();
 }
 
 }
-- 
2.43.0


From 452fc22700075cbd10aaac852fe001d85fe46cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 03/79] fix: round down values larger than the largest power of
 two

---
 src/jogasaki/utils/round.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..47b931b 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -38,7 +38,7 @@ namespace jogasaki::utils {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    return static_cast<std::size_t>(v >> 1U) + 1;
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 39d71af9fcec36885f0d531137b52bbc0a01c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 04/79] fix: subtract_vectors underflowed when the subtrahend
 repeats an element more often

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From 136f099a6d673fe5166afbb49b21884154464189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 05/79] fix: lifo resource aborted on releasing a region after
 two failed requests

---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..6602979 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -110,14 +110,14 @@ void *lifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
 }
 
 void lifo_paged_memory_resource::do_deallocate(void *p, std::size_t bytes, std::size_t alignment) {
+    while (!pages_.empty() && pages_.back().empty()) {
+        // release first if the trailing pages are empty (there can be two or more after failed allocations)
+        release_deallocated_page(pages_.back().head());
+        pages_.pop_back();
+    }
     if (pages_.empty()) {
         std::abort();
     }
-    if(auto&& last = pages_.back(); last.empty()) {
-        // release first if the current page is empty
-        release_deallocated_page(last.head());
-        pages_.pop_back();
-    }
     auto&& last = pages_.back();
     if (!last.try_deallocate_back(p, bytes, alignment)) {
         std::abort();
-- 
2.43.0


From 528cdb0c2e2c876f9b00f2bb5cbffb1c422231ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 06/79] fix: avoid signed overflow on writing the decimal whose
 coefficient is the minimum of int64

---
 src/jogasaki/serializer/value_output.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..0c474d1 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -216,10 +216,9 @@ bool write_decimal(
         buffer_view::const_iterator end) {
     // small coefficient
     if (has_small_coefficient(value)) {
-        auto coefficient = static_cast<std::int64_t>(value.coefficient_low());
-        if (value.sign() < 0) {
-            coefficient = -coefficient;
-        }
+        auto magnitude = value.coefficient_low();
+        // negate as unsigned, because the magnitude of the minimum value cannot be represented in std::int64_t
+        auto coefficient = static_cast<std::int64_t>(value.sign() < 0 ? ~magnitude + 1 : magnitude);
 
         // just write as int if exponent is just 0
         if (value.exponent() == 0) {
-- 
2.43.0


From 4aa0a5e293a639881f1243b2f28c699c45a59056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:52 +0000
Subject: [PATCH 07/79] fix: count the reference tag in the space to write LOB
 references

---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index 0c474d1..0f24afd 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -525,6 +525,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -543,6 +544,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From c3d999cc5c512a80d760ec688b2b6178f848433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 08/79] fix: report data corruption when a character field ends
 without its terminator

---
 src/jogasaki/kvs/readable_stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..162c2cf 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -166,11 +166,12 @@ public:
     template<class T>
     std::enable_if_t<std::is_same_v<T, accessor::text>, T> read(order odr, bool discard, memory::paged_memory_resource* resource = nullptr) {
         auto len = read_text_length(odr);
-        if(!(pos_ + len <= capacity_)) throw_exception(std::domain_error{ //NOLINT
-                string_builder{} << base_filename() << " condition pos_ + len <= capacity_ failed with pos_:" << pos_ << " len:" << len << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
+        auto sz = len + details::text_terminator::byte_size;
+        if(!(pos_ + sz <= capacity_)) throw_exception(std::domain_error{ //NOLINT
+                string_builder{} << base_filename() << " condition pos_ + sz <= capacity_ failed with pos_:" << pos_ << " sz:" << sz << " capacity_:" << capacity_ << string_builder::to_string //NOLINT
             });
         auto pos = pos_;
-        pos_ += len + details::text_terminator::byte_size;
+        pos_ += sz;
         if (!discard && len > 0) {
             auto p = static_cast<char*>(resource->allocate(len));
             if (odr == order::ascending) {
-- 
2.43.0


From 29d5ca206c265cf92156420ca2e2f1ddeabe96c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 09/79] fix: null flags of value_store were misplaced when
 values span multiple pages

---
 src/jogasaki/data/value_store.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index b09de86..20a7a5b 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -108,8 +108,14 @@ public:
         range_(range),
         base_(base),
         offset_(offset),
-        null_flag_base_(null_flag_base)
-    {}
+        null_flag_base_(null_flag_base),
+        index_(offset)
+    {
+        // null flags are laid out continuously over all ranges
+        for (auto it = ranges.begin(); it != range; ++it) {
+            index_ += static_cast<std::size_t>(it->e_ - it->b_);
+        }
+    }
 
     /**
      * @brief construct new iterator
@@ -136,6 +142,7 @@ public:
      */
     iterator& operator++() {
         ++offset_;
+        ++index_;
         if (offset_ >= static_cast<std::size_t>(range_->e_ - range_->b_)) {
             ++range_;
             if(range_ != ranges_->end()) {
@@ -179,7 +186,7 @@ public:
         if (null_flag_base_ == nullptr) {
             return false;
         }
-        return *(null_flag_base_ + offset_) == static_cast<null_flag_type>(1);
+        return *(null_flag_base_ + index_) == static_cast<null_flag_type>(1);
     }
 
     /// @brief equivalent comparison
@@ -217,6 +224,7 @@ private:
     value_pointer base_{};
     std::size_t offset_{};
     null_flag_const_pointer null_flag_base_{};
+    std::size_t index_{}; // position in the whole store
 };
 
 class cache_align typed_store {
-- 
2.43.0


From 5d8c3043e83dcfa537c675a211814d61cbd73270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 10/79] fix: reset of value_store kept the position of the null
 flags of the previous values

---
 src/jogasaki/data/value_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/data/value_store.h b/src/jogasaki/data/value_store.h
index 20a7a5b..fe8a8e0 100644
--- a/src/jogasaki/data/value_store.h
+++ b/src/jogasaki/data/value_store.h
@@ -642,6 +642,7 @@ public:
         prev_ = nullptr;
         ranges_.clear();
         null_prev_ = nullptr;
+        null_flag_base_ = nullptr;
     }
 
 private:
-- 
2.43.0


From 674a2286cb0da5554b11382894074f6c2834b8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 11/79] fix: fifo_record_store dereferenced the varlen resource
 that is allowed to be null

---
 src/jogasaki/data/fifo_record_store.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index 27367db..d7fbf64 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -30,7 +30,7 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
     // this is spsc queue and only one thread call the function at a time
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_->get_checkpoint();
+    auto cp = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
     copier_(p, original_record_size_, record);
     queue_.push({p, cp});
     ++count_;
@@ -62,7 +62,7 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
 fifo_record_store::record_pointer fifo_record_store::allocate_record() {
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_->get_checkpoint();
+    auto cp = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
     queue_.push({p, cp});
     ++count_;
     return p;
-- 
2.43.0


From 2f09cfe5dfcfaa84e28c0b3147f16a34088f9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 12/79] fix: popping from fifo_record_store released the varlen
 data of records yet to be popped

---
 src/jogasaki/data/fifo_record_store.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index d7fbf64..45a34b1 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -30,8 +30,14 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
     // this is spsc queue and only one thread call the function at a time
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
+    // remember the position after the varlen data of this record, so that the memory up to there can be released when
+    // the record is no longer used. If the record has no varlen data in the resource, there is nothing to release.
+    auto before = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
     copier_(p, original_record_size_, record);
+    auto cp = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
+    if(cp.head_ == before.head_ && cp.offset_ == before.offset_) {
+        cp = {};
+    }
     queue_.push({p, cp});
     ++count_;
     return p;
@@ -62,8 +68,8 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
 fifo_record_store::record_pointer fifo_record_store::allocate_record() {
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
-    auto cp = varlen_resource_ != nullptr ? varlen_resource_->get_checkpoint() : checkpoint{};
-    queue_.push({p, cp});
+    // varlen data filled by caller (if any) is released together with that of the succeeding records
+    queue_.push({p, checkpoint{}});
     ++count_;
     return p;
 }
-- 
2.43.0


From 82c6e186109734102565cbaff7a22517f1fa0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 13/79] fix: forward input_partition initialized its members
 concurrently and was not readable before the first push

---
 .../executor/exchange/forward/input_partition.cpp   | 13 ++++++++-----
 .../executor/exchange/forward/input_partition.h     |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/input_partition.cpp b/src/jogasaki/executor/exchange/forward/input_partition.cpp
index 2d1c13d..97d39f9 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.cpp
+++ b/src/jogasaki/executor/exchange/forward/input_partition.cpp
@@ -35,7 +35,9 @@ input_partition::input_partition(
     std::shared_ptr<forward_info> info
 ) :
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 input_partition::input_partition(
     std::unique_ptr<memory::fifo_paged_memory_resource> resource,
@@ -45,15 +47,15 @@ input_partition::input_partition(
     resource_(std::move(resource)),
     varlen_resource_(std::move(varlen_resource)),
     info_(std::move(info))
-{}
+{
+    initialize();
+}
 
 void input_partition::push(accessor::record_ref record) {
-    initialize_lazy();
     records_->push(record);
 }
 
 bool input_partition::try_pop(accessor::record_ref& out) {
-    initialize_lazy();
     return records_->try_pop(out);
 }
 
@@ -61,7 +63,8 @@ void input_partition::flush() {
     // no-op
 }
 
-void input_partition::initialize_lazy() {
+void input_partition::initialize() {
+    // this object is shared by the sink and source working concurrently, so the members must be ready in advance
     if (! resource_) {
         resource_=
             std::make_unique<memory::fifo_paged_memory_resource>(std::addressof(global::page_pool()));
diff --git a/src/jogasaki/executor/exchange/forward/input_partition.h b/src/jogasaki/executor/exchange/forward/input_partition.h
index 6631615..36dbba1 100644
--- a/src/jogasaki/executor/exchange/forward/input_partition.h
+++ b/src/jogasaki/executor/exchange/forward/input_partition.h
@@ -111,7 +111,7 @@ private:
     std::unique_ptr<data::fifo_record_store> records_{};
     std::atomic_bool active_{true};
 
-    void initialize_lazy();
+    void initialize();
 };
 
 }  // namespace jogasaki::executor::exchange::forward
-- 
2.43.0


From f51fda8047606d8086618d0e30a8bc4d727a717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 14/79] fix: fifo_record_store used the memory resources from
 pushing and popping threads without synchronization

---
 src/jogasaki/data/fifo_record_store.cpp | 23 +++++++++++++++--------
 src/jogasaki/data/fifo_record_store.h   |  3 ++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/jogasaki/data/fifo_record_store.cpp b/src/jogasaki/data/fifo_record_store.cpp
index 45a34b1..d9e876c 100644
--- a/src/jogasaki/data/fifo_record_store.cpp
+++ b/src/jogasaki/data/fifo_record_store.cpp
@@ -16,6 +16,7 @@
 #include "fifo_record_store.h"
 
 #include <cstdlib>
+#include <mutex>
 #include <type_traits>
 #include <utility>
 
@@ -27,7 +28,9 @@
 namespace jogasaki::data {
 
 fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record_ref record) {
-    // this is spsc queue and only one thread call the function at a time
+    // this is spsc queue and only one thread call the function at a time, but the memory resources are shared with the
+    // thread calling try_pop()
+    std::lock_guard lock{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     // remember the position after the varlen data of this record, so that the memory up to there can be released when
@@ -45,13 +48,16 @@ fifo_record_store::record_pointer fifo_record_store::push(accessor::const_record
 
 bool fifo_record_store::try_pop(accessor::record_ref& out) {
     // when next record is requested, the previous record can be deallocated
-    if(prev_) {
-        resource_->deallocate(prev_, positive_record_size_, meta_->record_alignment());
-        prev_ = nullptr;
-    }
-    if(prev_cp_.head_) {
-        varlen_resource_->deallocate_before(prev_cp_);
-        prev_cp_ = {};
+    if(prev_ || prev_cp_.head_) {
+        std::lock_guard lock{mutex_};
+        if(prev_) {
+            resource_->deallocate(prev_, positive_record_size_, meta_->record_alignment());
+            prev_ = nullptr;
+        }
+        if(prev_cp_.head_) {
+            varlen_resource_->deallocate_before(prev_cp_);
+            prev_cp_ = {};
+        }
     }
     queue_entry e{};
     if(! queue_.try_pop(e)) {
@@ -66,6 +72,7 @@ bool fifo_record_store::try_pop(accessor::record_ref& out) {
 }
 
 fifo_record_store::record_pointer fifo_record_store::allocate_record() {
+    std::lock_guard lock{mutex_};
     auto* p = resource_->allocate(positive_record_size_, meta_->record_alignment());
     if (!p) std::abort();
     // varlen data filled by caller (if any) is released together with that of the succeeding records
diff --git a/src/jogasaki/data/fifo_record_store.h b/src/jogasaki/data/fifo_record_store.h
index a2544b2..5976001 100644
--- a/src/jogasaki/data/fifo_record_store.h
+++ b/src/jogasaki/data/fifo_record_store.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstring>
+#include <mutex>
 #include <vector>
 
 #include <takatori/util/maybe_shared_ptr.h>
@@ -134,7 +135,7 @@ private:
     tbb::concurrent_queue<queue_entry> queue_{};
     record_pointer prev_{};
     checkpoint prev_cp_{};
-
+    std::mutex mutex_{};  // guards memory resources
 };
 
 } // namespace
-- 
2.43.0


From e7af4c0a92f95cfe1e74f3b94edd4aa6e694b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 15/79] fix: limit of forward exchange was counted separately
 for each of upstreams

---
 src/jogasaki/executor/exchange/forward/flow.cpp | 9 +++++----
 src/jogasaki/executor/exchange/forward/flow.h   | 2 ++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/exchange/forward/flow.cpp b/src/jogasaki/executor/exchange/forward/flow.cpp
index 9dcdb42..8e5c659 100644
--- a/src/jogasaki/executor/exchange/forward/flow.cpp
+++ b/src/jogasaki/executor/exchange/forward/flow.cpp
@@ -55,16 +55,17 @@ takatori::util::sequence_view<std::shared_ptr<model::task>> flow::create_tasks()
 void flow::setup_partitions(std::size_t partitions) {
     // additional sinks/sources for requested partitions
     std::vector<std::shared_ptr<input_partition>> shared_partitions{};
-    std::shared_ptr<std::atomic_size_t> write_count{
-        info_->limit().has_value() ? std::make_shared<std::atomic_size_t>(0) : nullptr
-    };
+    if(info_->limit().has_value() && ! write_count_) {
+        // the limit applies to the whole exchange even if this function is called multiple times (e.g. UNION ALL)
+        write_count_ = std::make_shared<std::atomic_size_t>(0);
+    }
     shared_partitions.reserve(partitions);
     for(std::size_t i=0; i < partitions; ++i) {
         shared_partitions.emplace_back(std::make_shared<input_partition>(info_));
     }
     for(std::size_t i=0; i < partitions; ++i) {
         sinks_.emplace_back(
-            std::make_unique<forward::sink>(info_, context_, write_count, shared_partitions[i])
+            std::make_unique<forward::sink>(info_, context_, write_count_, shared_partitions[i])
         );
     }
     for(std::size_t i=0; i < partitions; ++i) {
diff --git a/src/jogasaki/executor/exchange/forward/flow.h b/src/jogasaki/executor/exchange/forward/flow.h
index db9a614..fc9b4c5 100644
--- a/src/jogasaki/executor/exchange/forward/flow.h
+++ b/src/jogasaki/executor/exchange/forward/flow.h
@@ -15,6 +15,7 @@
  */
 #pragma once
 
+#include <atomic>
 #include <cstddef>
 #include <memory>
 #include <vector>
@@ -93,6 +94,7 @@ private:
     std::deque<std::unique_ptr<forward::source>> sources_{}; // use deque to avoid relocation
     request_context* context_{};
     step* owner_{};
+    std::shared_ptr<std::atomic_size_t> write_count_{};
 };
 
 }  // namespace jogasaki::executor::exchange::forward
-- 
2.43.0


From dcd4a22d1398e0180f9506577afe0e297ea4e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:31 +0000
Subject: [PATCH 16/79] fix: hash of NaN depended on its sign and payload so
 equivalent rows were partitioned separately

---
 src/jogasaki/executor/hash.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index 55631de..6c84ed2 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -15,8 +15,10 @@
  */
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 #include <functional>
+#include <type_traits>
 
 #include <jogasaki/meta/record_meta.h>
 #include <jogasaki/accessor/const_record_ref.h>
@@ -76,6 +78,12 @@ private:
         hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
             using rtype = runtime_t<K>;
             auto l = a.get_value<rtype>(offset);
+            if constexpr (std::is_floating_point_v<rtype>) {
+                // NaNs are equivalent on comparison regardless of their sign and payload
+                if(std::isnan(l)) {
+                    return static_cast<hash_value>(-2);
+                }
+            }
             return std::hash<rtype>{}(l);
         }
     };
-- 
2.43.0


From 4f2c756b37a94f81ec4be0f9888ae9088b8b9f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 17/79] fix: hash of decimal depended on its scale so
 equivalent rows were partitioned separately

---
 src/jogasaki/executor/hash.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index 6c84ed2..449906a 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -17,6 +17,7 @@
 
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <type_traits>
 
@@ -73,6 +74,26 @@ private:
 
     using kind = meta::field_type_kind;
 
+    // remove trailing zeros from the coefficient
+    [[nodiscard]] static runtime_t<kind::decimal> reduce(runtime_t<kind::decimal> value) {
+        auto coefficient =
+            (static_cast<unsigned __int128>(value.coefficient_high()) << 64U) | value.coefficient_low();
+        if(coefficient == 0) {
+            return runtime_t<kind::decimal>{0, 0, 0, 0};
+        }
+        auto exponent = value.exponent();
+        while(coefficient % 10 == 0) {
+            coefficient /= 10;
+            ++exponent;
+        }
+        return runtime_t<kind::decimal>{
+            value.sign(),
+            static_cast<std::uint64_t>(coefficient >> 64U),
+            static_cast<std::uint64_t>(coefficient),
+            exponent
+        };
+    }
+
     template <kind K>
     struct hash_calculator {
         hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
@@ -84,7 +105,12 @@ private:
                     return static_cast<hash_value>(-2);
                 }
             }
-            return std::hash<rtype>{}(l);
+            if constexpr (K == kind::decimal) {
+                // values with different scales (e.g. 1.0 and 1.00) are equivalent on comparison
+                return std::hash<rtype>{}(reduce(l));
+            } else {
+                return std::hash<rtype>{}(l);
+            }
         }
     };
 
-- 
2.43.0


From 80bc01f1d25bcb4ad9e05c85172b8bb7a520da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 18/79] fix: sorted_vector_reader split groups and applied
 limit by sort keys

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 .../executor/exchange/group/sorted_vector_reader.h    |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..468430e 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,8 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info()),
+    sort_key_comparator_(info_->sort_compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +88,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +116,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -168,7 +169,7 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_key_comparator_(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
index d72c98f..8d6fb74 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.h
@@ -79,6 +79,7 @@ private:
     std::unique_ptr<char[]> buf_{}; //NOLINT
     reader_state state_{reader_state::init};
     comparator key_comparator_{};
+    comparator sort_key_comparator_{};
     std::vector<pointer> aggregated_pointer_table_{};
     bool aggregated_pointer_table_initialized = false;
     std::vector<pointer>::iterator current_{};
-- 
2.43.0


From 9be8abc2a568d3fc92a88dd45acbed596d8cea33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 19/79] fix: sum and avg of decimal rounded to the default
 decimal context of the thread

---
 .../executor/function/incremental/builtin_functions.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/function/incremental/builtin_functions.cpp b/src/jogasaki/executor/function/incremental/builtin_functions.cpp
index ccaaf22..f0c6e5e 100644
--- a/src/jogasaki/executor/function/incremental/builtin_functions.cpp
+++ b/src/jogasaki/executor/function/incremental/builtin_functions.cpp
@@ -43,6 +43,7 @@
 #include <jogasaki/accessor/binary.h>
 #include <jogasaki/accessor/record_ref.h>
 #include <jogasaki/accessor/text.h>
+#include <jogasaki/executor/expr/details/decimal_context.h>
 #include <jogasaki/executor/function/field_locator.h>
 #include <jogasaki/executor/function/incremental/aggregate_function_info.h>
 #include <jogasaki/executor/function/incremental/aggregate_function_kind.h>
@@ -667,7 +668,7 @@ static T plus(T a, T b) {
 
 template <>
 runtime_t<kind::decimal> plus(runtime_t<kind::decimal> a, runtime_t<kind::decimal> b) {
-    // TODO use context
+    expr::details::ensure_decimal_context();
     auto aa = static_cast<decimal::Decimal>(a);
     auto bb = static_cast<decimal::Decimal>(b);
     return runtime_t<kind::decimal>{(aa + bb).as_uint128_triple()};
@@ -791,7 +792,7 @@ static T div_by_count(T a, runtime_t<kind::int8> b) {
 
 template <>
 runtime_t<kind::decimal> div_by_count(runtime_t<kind::decimal> a, runtime_t<kind::int8> b) {
-    // TODO add context
+    expr::details::ensure_decimal_context();
     auto aa = static_cast<decimal::Decimal>(a);
     return runtime_t<kind::decimal>{(aa / b).as_uint128_triple()};
 }
-- 
2.43.0


From 6bca745c4bfa7817aa93b51a65e2ea7212c71c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 20/79] fix: avoid reading backward over string beginning when
 trimming string of spaces only

---
 src/jogasaki/executor/expr/details/common.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/common.h b/src/jogasaki/executor/expr/details/common.h
index bec8bfc..5388865 100644
--- a/src/jogasaki/executor/expr/details/common.h
+++ b/src/jogasaki/executor/expr/details/common.h
@@ -15,8 +15,12 @@
  */
 #pragma once
 
+#include <algorithm>
+#include <cctype>
 #include <cstddef>
 #include <functional>
+#include <iterator>
+#include <string_view>
 
 #include <takatori/scalar/binary.h>
 #include <takatori/scalar/cast.h>
@@ -52,7 +56,8 @@ inline std::string_view trim_spaces(std::string_view src) {
     auto b = std::find_if(src.begin(), src.end(), [](char c){
         return c != ' ';
     });
-    auto e = std::find_if(src.rbegin(), src.rend(), [](char c){
+    // find the end only in [b, src.end()) so that string consisting of spaces only becomes empty
+    auto e = std::find_if(src.rbegin(), std::make_reverse_iterator(b), [](char c){
         return c != ' ';
     });
     return {b, static_cast<std::size_t>(std::distance(b, e.base()))};
-- 
2.43.0


From 453bbbed0a76d87b5bd502c542a0e66eb9406543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:29 +0000
Subject: [PATCH 21/79] fix: pad char value truncated at UTF-8 character
 boundary

---
 .../executor/expr/details/cast_evaluation.h        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.h b/src/jogasaki/executor/expr/details/cast_evaluation.h
index 1f882a7..d1ee420 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.h
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.h
@@ -225,23 +225,25 @@ any truncate_or_pad_if_needed(
         return any{std::in_place_type<T>, T{ctx.resource(), src}};
     }
     if(dlen < src.length()) {
+        auto truncated_len = dlen;
         if constexpr(std::is_same_v<T, accessor::text>) {
             // text should be truncated at the correct utf8 character boundary
             auto truncated = takatori::value::truncate_utf8(src, dlen);
-            dlen = truncated.length();
+            truncated_len = truncated.length();
         }
         if(lenient_remove_padding) {
             // check if truncation occurs only for padding or not
-            if(! std::all_of(src.begin()+dlen, src.end(), [](auto c) { return c == PaddingChar; })) {
+            if(! std::all_of(src.begin()+truncated_len, src.end(), [](auto c) { return c == PaddingChar; })) {
                 lost_precision = true;
             }
         } else {
             lost_precision = true;
         }
-        return any{
-            std::in_place_type<T>,
-            T{ctx.resource(), std::string_view{src.data(), dlen}}  //NOLINT(bugprone-suspicious-stringview-data-usage)
-        };
+        src = std::string_view{src.data(), truncated_len};  //NOLINT(bugprone-suspicious-stringview-data-usage)
+        if(truncated_len == dlen) {
+            return any{std::in_place_type<T>, T{ctx.resource(), src}};
+        }
+        // truncated in front of a multi-byte character, padding is needed to fill the length
     }
     // dlen > src.length()
     if(add_padding) {
-- 
2.43.0


From cafde7593fb47117211edc4c4a85d4289003551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 22/79] fix: accept NaN surrounded by spaces on cast from
 string to float

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 9fe1d32..1622f1c 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -582,7 +582,8 @@ static any string_to_lob(
 
 namespace from_character {
 
-static bool is_valid_nan(std::string_view s) {
+static bool is_valid_nan(std::string_view src) {
+    auto s = trim_spaces(src);
     // sign for nan is not meaningful, but we accept it for usability
     return
         equals_case_insensitive(s, "NaN") ||
-- 
2.43.0


From 57f953e7fb6fc9ecee9d605d2e6e3316aa201c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 23/79] fix: respect precision and scale on cast from infinity
 to decimal

---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 1622f1c..125ed06 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -987,6 +987,10 @@ static any float_to_decimal(
     }
     if(std::isinf(src)) {
         auto tgt = std::signbit(src) ? triple_min : triple_max;
+        if(precision.has_value() || scale.has_value()) {
+            // the value must be validated and limited by the precision and scale
+            return handle_ps(decimal::Decimal{tgt}, ctx, precision, scale);
+        }
         if(auto a = handle_precision_lost(src, tgt, ctx); a.error()) {
             return a;
         }
-- 
2.43.0


From 3b077b7f5cbf08795dd7b7bdb91a122d77898254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 24/79] fix: integer division of the smallest value by -1 no
 longer kills the process

---
 src/jogasaki/executor/expr/evaluator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..f579d1e 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -317,7 +318,12 @@ static any multiply(
 template <class T>
 static std::enable_if_t<! std::is_same_v<T, runtime_t<meta::field_type_kind::decimal>>, any>
 divide(T const& l, T const& r, evaluator_context& ctx) {
-    if (r == 0) {
+    // dividing the smallest integer by -1 overflows, and is undefined behavior in C++
+    bool overflow = false;
+    if constexpr (std::is_integral_v<T>) {
+        overflow = l == std::numeric_limits<T>::min() && r == -1;
+    }
+    if (r == 0 || overflow) {
         auto& e = ctx.add_error(
             {error_kind::arithmetic_error,
              "arithmetic error while performing division"}
@@ -351,6 +357,10 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if (r == -1) {
+        // the result is always zero - calculating for the smallest integer is undefined behavior in C++
+        return any{std::in_place_type<T>, T{}};
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
-- 
2.43.0


From f45b2e46b92f7555eb51f64d66d137af726966cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 25/79] fix: LIKE backtracks by characters so that _ after %
 never matches a part of a character

---
 src/jogasaki/executor/expr/evaluator.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index f579d1e..200d08b 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -778,6 +778,12 @@ static std::vector<token> tokenize_like_pattern(std::string_view pattern, std::s
     if (!buffer.empty()) { tokens.emplace_back(token::kind::literal, std::move(buffer)); }
     return tokens;
 }
+// Get the position of the character following the one at the position (size + 1 at the end of the string)
+static std::size_t next_character(std::string_view str, std::size_t pos) {
+    if (pos >= str.size()) { return str.size() + 1; }
+    std::size_t char_size = utils::get_byte(utils::detect_next_encoding(str, pos));
+    return pos + (char_size == 0 ? 1 : char_size);
+}
 static bool starts_with(std::string_view str, std::string_view prefix) {
     return str.size() >= prefix.size() && str.substr(0, prefix.size()) == prefix;
 }
@@ -791,7 +797,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return true;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index = next_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -811,7 +817,7 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
         return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
-        ++backtrack_input_index;
+        backtrack_input_index = next_character(input, backtrack_input_index);
         input_index   = backtrack_input_index;
         pattern_index = backtrack_pattern_index + 1;
         return true;
@@ -857,11 +863,11 @@ static void match_wildcard_any_token(std::size_t& pattern_index, std::size_t& in
  *       backtrack_input_index   = input_index(1);
  *       ++pattern_i(2);
  *  d -> not match  "bcde"
- *        ++backtrack_input_index(2);
+ *        backtrack_input_index moves to the next character(2);
  *        input_index   = backtrack_input_index(1)
  *        pattern_index = backtrack_pattern_index(1) + 1;
  *  d -> not match  "cde"
- *        ++backtrack_input_index(3);
+ *        backtrack_input_index moves to the next character(3);
  *        input_index   = backtrack_input_index(3)
  *        pattern_index = backtrack_pattern_index(1) + 1;
  *  d  -> match  "de"
@@ -910,7 +916,7 @@ static bool match_like_pattern(std::string_view input, std::vector<token> const&
             if (input_index == input.size()) { return true; }
             // input 'a' and pattern '%' reaches here
             if (backtrack_pattern_index != std::string::npos) {
-                ++backtrack_input_index;
+                backtrack_input_index = next_character(input, backtrack_input_index);
                 input_index   = backtrack_input_index;
                 pattern_index = backtrack_pattern_index + 1;
                 // input 'abcde' and pattern 'abc' reaches here
-- 
2.43.0


From a164c470ec4e39ad09957143260034608256655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 26/79] fix: LIKE gives null for an input of invalid UTF-8 even
 if the pattern is empty

---
 src/jogasaki/executor/expr/evaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 200d08b..0092eec 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -956,6 +956,7 @@ any engine::operator()(takatori::scalar::match const& match) {
         }
         auto pattern_text = pattern_val.to<runtime_t<kind::character>>();
         auto input_text   = input_val.to<runtime_t<kind::character>>();
+        if (!utils::is_valid_utf8(static_cast<std::string_view>(input_text))) { return {}; }
         if (pattern_text.empty()) {
             if (input_text.empty()) { return any{std::in_place_type<bool>, true}; }
             return any{std::in_place_type<bool>, false};
@@ -968,7 +969,6 @@ any engine::operator()(takatori::scalar::match const& match) {
         }
         std::vector<token> token = tokenize_like_pattern(pattern_str, escape_str);
         auto input_str           = static_cast<std::string_view>(input_text);
-        if (!utils::is_valid_utf8(input_str)) { return {}; }
         auto res = match_like_pattern(input_str, token);
         return any{std::in_place_type<bool>, res};
     }
-- 
2.43.0


From a5b04935558c5a132a2eb242598403c83b9dcbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:23 +0000
Subject: [PATCH 27/79] fix: an error in the body of a conditional expression
 is not hidden by the type conversion

---
 src/jogasaki/executor/expr/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 0092eec..21c8258 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -983,6 +983,9 @@ static any convert_return_type_if_needed(
     any const& v,
     engine::memory_resource* resource
 ) {
+    if(v.error()) {
+        return v;
+    }
     auto& src_type = info.type_of(e);
     if(conv::to_require_conversion(src_type, dest_type)) {
         data::any converted{};
-- 
2.43.0


From 8e8ce3b3e5cd418e39e8f8f9178cafb9002343ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 28/79] fix: ROUND of a decimal with no digit to round gives
 the value instead of an error

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..029285d 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1155,6 +1155,11 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
         return data::any{std::in_place_type<error>, error(error_kind::unsupported)};
     }
     auto value  = src.to<runtime_t<kind::decimal>>();
+    if (value.exponent() >= -precision) {
+        // there is no digit to round
+        // (the quotient of the remainder calculation below can have too many digits in this case)
+        return src;
+    }
     auto type   = std::in_place_type<runtime_t<kind::decimal>>;
     auto one    = data::any{type, takatori::decimal::triple{+1, 0, 1, -precision}};
     auto remain = expr::remainder_any(src, one, ctx);
-- 
2.43.0


From 3ed70e2354eb5a4f5c7048460b13296dcd05420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 29/79] fix: string functions no longer read over the end of
 text that ends inside a character

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 029285d..9f66c8e 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (offset_2nd < view.size() && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 08dcafe8f825468035144530840eb26a55a5d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 30/79] fix: SUBSTRING with a large length stops at the end of
 the string

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 9f66c8e..d2e6b99 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1035,7 +1035,7 @@ static size_t get_size_byte(std::string_view view, const size_t start_byte, cons
     if (!is_character_type) { return letter_count; }
     size_t tmp_byte = 0;
     size_t offset   = start_byte;
-    for (size_t i = 0; i < letter_count; ++i) {
+    for (size_t i = 0; i < letter_count && offset < view.size(); ++i) {
         tmp_byte = get_byte(detect_next_encoding(view, offset));
         offset += tmp_byte;
     }
-- 
2.43.0


From 064d2825594aa37151db2f594340bde5642e601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 31/79] fix: ROUND of an integer reports an error if the
 rounded value does not fit the type

---
 .../executor/function/builtin_scalar_functions.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index d2e6b99..073814a 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1187,6 +1187,12 @@ static data::any round_decimal(data::any src, int32_t precision, evaluator_conte
     return res;
 }
 
+static data::any round_out_of_range(evaluator_context& ctx, const char* type_name) {
+    ctx.add_error({error_kind::overflow,
+        std::string("rounded value out of range for ") + type_name});
+    return data::any{std::in_place_type<error>, error(error_kind::overflow)};
+}
+
 template <jogasaki::meta::field_type_kind Kind>
 static data::any round_integral(data::any src, int32_t precision, evaluator_context& ctx,
     int32_t min_precision, const char* type_name) {
@@ -1209,8 +1215,14 @@ static data::any round_integral(data::any src, int32_t precision, evaluator_cont
     auto remain    = value - fix_value;
 
     if (remain > 0 && remain >= divide / 2) {
+        if (fix_value > std::numeric_limits<T>::max() - divide) {
+            return round_out_of_range(ctx, type_name);
+        }
         fix_value += divide;
     } else if (remain < 0 && remain <= -divide / 2) {
+        if (fix_value < std::numeric_limits<T>::min() + divide) {
+            return round_out_of_range(ctx, type_name);
+        }
         fix_value -= divide;
     }
 
-- 
2.43.0


From 1b31ea9ffb64e1f57d30cca26369cebef356a882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 32/79] fix: ROUND of a large REAL or DOUBLE no longer gives
 infinity

---
 .../executor/function/builtin_scalar_functions.cpp         | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 073814a..9f4abe1 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1244,7 +1244,12 @@ static data::any round_floating_point(data::any src, int32_t precision, evaluato
 
     auto value  = src.to<T>();
     auto factor = std::pow(static_cast<FactorType>(10.0), static_cast<FactorType>(precision));
-    auto result = std::round(value * factor) / factor;
+    auto scaled = value * factor;
+    if (std::isfinite(value) && ! std::isfinite(scaled)) {
+        // the value is too large to have digits to round
+        return src;
+    }
+    auto result = std::round(scaled) / factor;
 
     return data::any{std::in_place_type<T>, result};
 }
-- 
2.43.0


From ff6a4ef604899dde4287012f861cce320ead9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 33/79] fix: SUBSTRING no longer overflows for the smallest
 start position

---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 9f4abe1..fcdece1 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -1283,13 +1283,15 @@ data::any substring(evaluator_context&, sequence_view<data::any> args) {
     auto& start = static_cast<data::any&>(args[1]);
     if (start.empty()) { return {}; }
 
-    const auto zero_based_start = start.to<runtime_t<kind::int8>>() - 1;
+    const auto one_based_start = start.to<runtime_t<kind::int8>>();
 
     if (args.size() > 2) {
         length = static_cast<data::any&>(args[2]);
         if (!length || length->get().empty()) { return {}; }
         casted_length = length->get().to<runtime_t<kind::int8>>();
     }
+    if (one_based_start < 1) { return {}; }
+    const auto zero_based_start = one_based_start - 1;
     if (src.type_index() == data::any::index<accessor::binary>) {
         auto bin = src.to<runtime_t<kind::octet>>();
         return impl::extract_substring(static_cast<std::string_view>(bin),
-- 
2.43.0


From 0cb451cbd3e958cdc60bee33c3aa7a78105e360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 34/79] fix: sequence range check overflowed for wide
 minimum/maximum ranges

---
 src/jogasaki/executor/sequence/sequence.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..86fb7ac 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -16,6 +16,7 @@
 #include "sequence.h"
 
 #include <atomic>
+#include <memory>
 #include <utility>
 
 #include <jogasaki/common_types.h>
@@ -53,20 +54,20 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        // the distance to the bound may not be representable, so check the sum instead
+        bool const overflow = __builtin_add_overflow(cur.value_, info_->increment(), std::addressof(val));
+        if (info_->increment() > 0 && (overflow || val > info_->maximum_value())) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && (overflow || val < info_->minimum_value())) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
                 return sequence_error::out_of_lower_bound;
             }
-        } else {
-            val = cur.value_ + info_->increment();
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
-- 
2.43.0


From 4e4860345054747786dd6e271f863372b49626b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 35/79] fix: failed sequence creation left an entry with
 invalid sequence id

---
 src/jogasaki/executor/sequence/manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index bd44a19..7f25e89 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -108,6 +108,8 @@ sequence* manager::register_sequence(
             return {};
         }
         if(auto rc = db_->create_sequence(seq_id); rc != status::ok) {
+            // don't leave the entry without valid sequence id, otherwise it will be saved to the id map later
+            sequences_.erase(acc);
             (void) tx->abort_transaction();
             throw_exception(exception{rc});
         }
-- 
2.43.0


From 4a056a55084cadedadb3fbb20e20fbbc2da86494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 36/79] fix: secondary index on a primary key column with the
 opposite direction could not be written

---
 src/jogasaki/index/secondary_target.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/index/secondary_target.cpp b/src/jogasaki/index/secondary_target.cpp
index 8259fba..38a6e47 100644
--- a/src/jogasaki/index/secondary_target.cpp
+++ b/src/jogasaki/index/secondary_target.cpp
@@ -157,7 +157,7 @@ secondary_target::field_mapping_type secondary_target::create_fields(
     for(auto&& k : idx.keys()) {
         bool found = false;
         for(std::size_t i=0, n=primary->keys().size(); i<n; ++i) {
-            if(primary->keys().at(i) == k) {
+            if(primary->keys().at(i).column() == k.column()) {
                 auto spec = k.direction() == takatori::relation::sort_direction::ascendant ?
                     kvs::spec_key_ascending : kvs::spec_key_descending;
                 ret.emplace_back(
-- 
2.43.0


From 1b3887a0bd01cb4227ba17ab07cbd5e080bb5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 37/79] fix: descending primary key columns were stored in the
 values also, and drew their sequence twice

---
 src/jogasaki/plan/storage_processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/plan/storage_processor.cpp b/src/jogasaki/plan/storage_processor.cpp
index b4dcfaf..bb10952 100644
--- a/src/jogasaki/plan/storage_processor.cpp
+++ b/src/jogasaki/plan/storage_processor.cpp
@@ -51,7 +51,7 @@ using ::takatori::util::unsafe_downcast;
 static bool contains(std::vector<index::key>& keys, yugawara::storage::column& c) {
     bool contained = false;
     for(auto&& tc : keys) {
-        if(tc == c) {
+        if(tc.column() == c) {
             contained = true;
             break;
         }
-- 
2.43.0


From 8849563f7be6529bda40e36ad7ff41e21ffd77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 38/79] fix: identity value overran a column smaller than
 BIGINT

---
 .../executor/wrt/fill_record_fields.cpp       | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/wrt/fill_record_fields.cpp b/src/jogasaki/executor/wrt/fill_record_fields.cpp
index c5cc149..7187b32 100644
--- a/src/jogasaki/executor/wrt/fill_record_fields.cpp
+++ b/src/jogasaki/executor/wrt/fill_record_fields.cpp
@@ -21,6 +21,7 @@
 #include <vector>
 
 #include <takatori/descriptor/variable.h>
+#include <takatori/type/primitive.h>
 #include <takatori/util/exception.h>
 #include <takatori/util/string_builder.h>
 #include <yugawara/storage/index.h>
@@ -33,6 +34,7 @@
 #include <jogasaki/executor/common/step.h>
 #include <jogasaki/executor/conv/assignment.h>
 #include <jogasaki/executor/conv/create_default_value.h>
+#include <jogasaki/executor/conv/require_conversion.h>
 #include <jogasaki/executor/global.h>
 #include <jogasaki/executor/process/impl/ops/default_value_kind.h>
 #include <jogasaki/executor/process/impl/ops/write_kind.h>
@@ -166,9 +168,25 @@ status fill_default_value(
                 handle_generic_error(ctx, res, error_code::sql_service_exception);
                 return res;
             }
-            out.ref().set_null(f.nullity_offset_, false);
-            out.ref().set_value<std::int64_t>(f.offset_, v);
-            break;
+            // the sequence value is bigint, while the column type can be smaller
+            takatori::type::int8 source_type{};
+            data::any src{std::in_place_type<std::int64_t>, v};
+            if (conv::to_require_conversion(source_type, *f.target_type_)) {
+                data::any converted{};
+                if (auto res = conv::conduct_assignment_conversion(
+                        source_type,
+                        *f.target_type_,
+                        src,
+                        converted,
+                        ctx,
+                        std::addressof(resource)
+                    );
+                    res != status::ok) {
+                    return res;
+                }
+                src = converted;
+            }
+            return assign_value_to_field(f, src, ctx, resource, out);
         }
         case process::impl::ops::default_value_kind::function: {
             // function assignable as default value don't allow blob-related functions or udf,
-- 
2.43.0


From b0a33cf8a0835962b1308cbd18a8c24b0e9ed9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 39/79] fix: a statement failing midway left a part of its
 changes in an active transaction

---
 src/jogasaki/executor/executor.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a413c00..e654ef3 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -615,6 +615,21 @@ static bool acquire_shared_lock(
     return false;
 }
 
+/**
+ * @brief return whether the statement possibly modifies storages
+ */
+static bool modifies_storages(plan::executable_statement const& e) {
+    for(auto&& [stg_id, acts] : e.mirrors()->storage_operation()) {
+        (void) stg_id;
+        if(acts.has_action(auth::action_kind::insert) ||
+            acts.has_action(auth::action_kind::update) ||
+            acts.has_action(auth::action_kind::delete_)) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static bool validate_transaction(
     transaction_context& tx,
     error_info_stats_callback on_completion //NOLINT(performance-unnecessary-value-param)
@@ -759,6 +774,13 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
             }
             rctx->storage_lock(nullptr); // release storage lock as soon as request complete
             external_log_stmt_end(*rctx, req_info, statement);
+            if(rctx->transaction() &&
+                rctx->status_code() != status::ok &&
+                rctx->transaction()->state() != transaction_state_kind::aborted &&
+                modifies_storages(*unsafe_downcast<api::impl::executable_statement&>(*statement).body())) {
+                // the failed statement possibly applied a part of its changes, so they must not be committed
+                abort_transaction(rctx->transaction(), req_info);
+            }
             on_completion(rctx->status_code(), rctx->error_info(), rctx->stats());
         });
 
-- 
2.43.0


From a3d56ffe02102ae606cd1c6d18b4584b381f8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:46 +0000
Subject: [PATCH 40/79] fix: field names of a result set were read out of
 bounds

---
 src/jogasaki/api/impl/result_set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/impl/result_set.cpp b/src/jogasaki/api/impl/result_set.cpp
index b913aa4..6313bbb 100644
--- a/src/jogasaki/api/impl/result_set.cpp
+++ b/src/jogasaki/api/impl/result_set.cpp
@@ -36,7 +36,8 @@ result_set::result_set(std::unique_ptr<data::result_store> store) noexcept:
         store_->meta() ?
         store_->meta() :
         std::make_shared<meta::record_meta>(), // it's possible store has no result and no metadata
-        std::vector<std::optional<std::string>>{}
+        // names are not kept in the store - each field has no name
+        std::vector<std::optional<std::string>>(store_->meta() ? store_->meta()->field_count() : 0)
     ))
 {}
 
-- 
2.43.0


From 945b48f5c19347ac6d96f987afb037067a723552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:34 +0000
Subject: [PATCH 41/79] fix: left outer index join gave null rows besides the
 matching ones

---
 .../executor/process/impl/ops/index_join.h    | 24 ++++++++++++-------
 .../process/impl/ops/index_join_context.h     |  3 +++
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_join.h b/src/jogasaki/executor/process/impl/ops/index_join.h
index d49355c..606cced 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join.h
@@ -344,6 +344,9 @@ public:
                 }
                 return operation_status_kind::ok;
             }
+            if (join_kind_ == join_kind::left_outer && ! ctx.joined_) {
+                goto resume_calling_child_without_match;  //NOLINT
+            }
             goto resume_calling_child;  //NOLINT
         }
         {
@@ -410,7 +413,8 @@ public:
             return operation_status_kind::ok;
         }
         // inner or left_outer join
-        if(ctx.matched_ || join_kind_ == join_kind::left_outer) {
+        ctx.joined_ = false;
+        if(ctx.matched_) {
             do {
                 if (condition_) {
                     // newly create c instead of re-using ectx since errors in ectx might have bad impact //TODO resolve this
@@ -427,21 +431,17 @@ public:
                         return operation_status_kind::aborted;
                     }
                     if(! r.template to<bool>()) {
-                        if(join_kind_ != join_kind::left_outer) {
-                            // inner join: skip record
-                            continue;
-                        }
-                        // left outer join: nullify output variables and send record downstream
-                        nullify_output_variables(ctx.variables().ref());
+                        continue;
                     }
                 }
+                ctx.joined_ = true;
 resume_calling_child:
                 if (auto call_st = call_downstream(ctx, context); ! call_st) {
                     return call_st;
                 }
                 // clean output variables for next record just in case
                 nullify_output_variables(ctx.variables().ref());
-            } while (ctx.matched_ && ctx.matcher_->next(*ctx.req_context()));
+            } while (ctx.matcher_->next(*ctx.req_context()));
         }
         // normally `res` is not_found here indicating there are no more records to process
         if(auto res = ctx.matcher_->result(); res != status::ok && res != status::not_found) {
@@ -449,6 +449,14 @@ resume_calling_child:
             ctx.abort();
             return operation_status_kind::aborted;
         }
+        if(join_kind_ == join_kind::left_outer && ! ctx.joined_) {
+            // no record matched - nullify output variables and send record downstream
+            nullify_output_variables(ctx.variables().ref());
+resume_calling_child_without_match:
+            if (auto call_st = call_downstream(ctx, context); ! call_st) {
+                return call_st;
+            }
+        }
         return operation_status_kind::ok;
     }
 
diff --git a/src/jogasaki/executor/process/impl/ops/index_join_context.h b/src/jogasaki/executor/process/impl/ops/index_join_context.h
index c8e7305..2efdb72 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join_context.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join_context.h
@@ -102,6 +102,9 @@ private:
 
     // frame variables for yield
     bool matched_{};
+
+    // whether the current left record has been joined with any matching record
+    bool joined_{};
 };
 
 }  // namespace jogasaki::executor::process::impl::ops
-- 
2.43.0


From b4b94b401cb23a66e5faa46ab338cfc23c37940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:31 +0000
Subject: [PATCH 42/79] fix: parallel scan gave rows excluded by a prefixed
 exclusive lower bound

---
 src/jogasaki/dist/uniform_key_distribution.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jogasaki/dist/uniform_key_distribution.cpp b/src/jogasaki/dist/uniform_key_distribution.cpp
index 2cb2f56..a7b8748 100644
--- a/src/jogasaki/dist/uniform_key_distribution.cpp
+++ b/src/jogasaki/dist/uniform_key_distribution.cpp
@@ -16,6 +16,7 @@
 
 #include "uniform_key_distribution.h"
 
+#include <algorithm>
 #include <glog/logging.h>
 
 #include <takatori/util/exception.h>
@@ -195,6 +196,16 @@ std::vector<uniform_key_distribution::pivot_type> uniform_key_distribution::comp
     }
 
     std::vector<pivot_type> pivots = generate_strings2(max_count, low, high);
+    if(range.begin_endpoint() == kvs::end_point_kind::prefixed_exclusive) {
+        // entries prefixed with the begin key are out of the range, so they must not come after a pivot
+        auto prefix = range.begin_key();
+        pivots.erase(
+            std::remove_if(pivots.begin(), pivots.end(), [&](auto const& p) {
+                return std::string_view{p}.substr(0, prefix.size()) == prefix;
+            }),
+            pivots.end()
+        );
+    }
 
     if(VLOG_IS_ON(log_debug)) {
         std::stringstream ss{};
-- 
2.43.0


From 9385a8b7959308b0d930e5de95b812f65e1d7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 43/79] fix: a failed CREATE TABLE/INDEX left its storage entry
 and could throw to the client

When the storage engine refused to create the storage, the exception went through
to the caller, and the entry of the storage was left in the storage manager, so that
the name was mapped to an entry with no storage ever after.
---
 src/jogasaki/executor/common/ddl_common.cpp | 79 +++++++++++++++++++--
 1 file changed, 75 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index da65a95..a32c83e 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -16,7 +16,9 @@
 #include "ddl_common.h"
 
 #include <cstddef>
+#include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <glog/logging.h>
@@ -32,6 +34,7 @@
 #include <jogasaki/executor/sequence/manager.h>
 #include <jogasaki/executor/sequence/metadata_store.h>
 #include <jogasaki/kvs/database.h>
+#include <jogasaki/kvs/storage.h>
 #include <jogasaki/kvs/transaction.h>
 #include <jogasaki/logging.h>
 #include <jogasaki/logging_helper.h>
@@ -157,6 +160,62 @@ bool lock_storage_entry(
     return true;
 }
 
+/**
+ * @brief removes the storage entry unless its storage has been created successfully
+ */
+class storage_entry_guard {
+public:
+    storage_entry_guard(storage::storage_manager& manager, storage::storage_entry entry) noexcept :
+        manager_(std::addressof(manager)),
+        entry_(entry)
+    {}
+
+    storage_entry_guard(storage_entry_guard const& other) = delete;
+    storage_entry_guard& operator=(storage_entry_guard const& other) = delete;
+    storage_entry_guard(storage_entry_guard&& other) noexcept = delete;
+    storage_entry_guard& operator=(storage_entry_guard&& other) noexcept = delete;
+
+    ~storage_entry_guard() {
+        if(manager_ != nullptr) {
+            manager_->remove_entry(entry_);
+        }
+    }
+
+    void release() noexcept {
+        manager_ = nullptr;
+    }
+
+private:
+    storage::storage_manager* manager_{};
+    storage::storage_entry entry_{};
+};
+
+/**
+ * @brief create the storage, setting the error in the context if it cannot be created
+ * @return false if the creation failed unexpectedly
+ * @note `out` is left empty if the storage already exists
+ */
+static bool create_kvs_storage(
+    request_context& context,
+    std::string_view name,
+    sharksfin::StorageOptions const& options,
+    std::unique_ptr<kvs::storage>& out
+) {
+    try {
+        out = context.database()->create_storage(name, options);
+    } catch(std::logic_error const& e) {
+        // unexpected error from the storage engine
+        set_error_context(
+            context,
+            error_code::sql_execution_exception,
+            e.what(),
+            status::err_unknown
+        );
+        return false;
+    }
+    return true;
+}
+
 bool create_primary_storage(
     request_context& context,
     yugawara::storage::index const& primary_idx,
@@ -180,6 +239,8 @@ bool create_primary_storage(
         return false;
     }
 
+    storage_entry_guard entry_guard{smgr, entry_id};
+
     auto new_se = smgr.find_entry(entry_id);
     if(! new_se) {
         set_error_context(
@@ -218,8 +279,11 @@ bool create_primary_storage(
 
     sharksfin::StorageOptions options{};
     options.payload(std::move(storage));
-    if(auto stg = context.database()->create_storage(
-           (opt.has_value() ? opt.value() : primary_idx.simple_name()), options); ! stg) {
+    std::unique_ptr<kvs::storage> stg{};
+    if(! create_kvs_storage(context, (opt.has_value() ? opt.value() : primary_idx.simple_name()), options, stg)) {
+        return false;
+    }
+    if(! stg) {
         set_error_context(
             context,
             error_code::target_already_exists_exception,
@@ -229,6 +293,7 @@ bool create_primary_storage(
         );
         return false;
     }
+    entry_guard.release();
     tid = entry_id;
     return true;
 }
@@ -255,6 +320,8 @@ bool create_secondary_storage(
         return false;
     }
 
+    storage_entry_guard entry_guard{smgr, entry_id};
+
     std::string storage{};
     if(auto err = recovery::create_storage_option(
            sec_idx,
@@ -271,8 +338,11 @@ bool create_secondary_storage(
 
     sharksfin::StorageOptions options{};
     options.payload(std::move(storage));
-    if(auto stg = context.database()->create_storage(
-           (opt.has_value() ? opt.value() : sec_idx.simple_name()), options); ! stg) {
+    std::unique_ptr<kvs::storage> stg{};
+    if(! create_kvs_storage(context, (opt.has_value() ? opt.value() : sec_idx.simple_name()), options, stg)) {
+        return false;
+    }
+    if(! stg) {
         VLOG_LP(log_warning) << "storage " << sec_idx.simple_name() << " already exists ";
         set_error_context(
             context,
@@ -282,6 +352,7 @@ bool create_secondary_storage(
         );
         return false;
     }
+    entry_guard.release();
     tid = entry_id;
     return true;
 }
-- 
2.43.0


From 285e96689fbca9710cbe17e7fd7dee28d2a11cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 44/79] fix: CREATE INDEX reported success when reading the
 table failed

An error of the first iteration which has no mapping of its own was not set in the
request context, so the statement looked successful although no index was created.
---
 src/jogasaki/executor/common/create_index.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index a9b0b18..5e6f7aa 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -97,6 +97,7 @@ bool create_index::validate_empty_table(request_context& context, std::string_vi
         return true;
     }
     handle_kvs_errors(context, st);
+    handle_generic_error(context, st, error_code::sql_execution_exception);
     return false;
 }
 
-- 
2.43.0


From 37c65cda09e97bf5f379c2c5c4ba0119849a6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:47 +0000
Subject: [PATCH 45/79] fix: a decimal default could be rounded to 16 digits

Values are also converted outside of expression evaluation (default values, assignments),
which may be the first use of decimals on the thread: the conversion was then
conducted under the library's initial context in place of the standard one.
---
 src/jogasaki/executor/expr/details/cast_evaluation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/expr/details/cast_evaluation.cpp b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
index 125ed06..3e9c176 100644
--- a/src/jogasaki/executor/expr/details/cast_evaluation.cpp
+++ b/src/jogasaki/executor/expr/details/cast_evaluation.cpp
@@ -49,6 +49,7 @@
 #include <jogasaki/error/error_info.h>
 #include <jogasaki/error/error_info_factory.h>
 #include <jogasaki/executor/diagnostic_record.h>
+#include <jogasaki/executor/expr/details/decimal_context.h>
 #include <jogasaki/executor/expr/details/decimal_context_guard.h>
 #include <jogasaki/executor/expr/error.h>
 #include <jogasaki/executor/expr/evaluator_context.h>
@@ -1694,6 +1695,9 @@ any conduct_cast(
     any const& a
 ) {
     using k = takatori::type::type_kind;
+    // conversions are also conducted outside expression evaluation (e.g. assignments of default values), so the decimal
+    // context of the current thread might not be prepared yet
+    ensure_decimal_context();
     // until we officially support boolean and small integers, these types are only available for testing
     // src unknown is the special case allowed
     if(src.kind() != k::unknown) {
-- 
2.43.0


From 4e87948bba808be699f9462693e9a2cd8a457e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 46/79] fix: report a transaction as available once its
 accepted commit is done

---
 src/jogasaki/executor/executor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index e654ef3..f539efb 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -949,6 +949,7 @@ static void process_commit_callback(
             if(last_less_equals_accepted) {
                 log_end_of_tx_and_commit_request(*rctx);
             }
+            rctx->transaction()->state(transaction_state_kind::committed_available);
             rctx->commit_ctx()->on_response()(commit_response_kind::accepted);
             if(last_less_equals_accepted) {
                 // if the last response is accepted or requested, we can finish job and clean up resource here
-- 
2.43.0


From 881d914d182889b8ceb1b05a35e27e5720c71af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:59 +0000
Subject: [PATCH 47/79] fix: answer a commit of an unknown transaction instead
 of dereferencing null

---
 src/jogasaki/api/impl/service.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index dbbc698..c424ae6 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -605,6 +605,16 @@ void service::command_commit(
     opt.auto_dispose_on_success(cm.has_option() ? cm.option().auto_dispose() : cm.auto_dispose()).commit_response(cr);
 
     auto tctx = get_transaction_context(tx);
+    if(! tctx) {
+        // invalid handle
+        auto err_info = create_error_info(
+            error_code::transaction_not_found_exception,
+            "Transaction handle is invalid.",
+            status::err_invalid_argument
+        );
+        details::error<sql::response::ResultOnly>(*res, err_info.get(), req_info);
+        return;
+    }
     executor::commit_async(
         get_impl(*db_),
         std::move(tctx),
-- 
2.43.0


From 68a36c68103a98f4be6b9a8ce1dd8be066c8aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 48/79] fix: dispose the statement of a failing explain by text

---
 src/jogasaki/api/impl/service.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index c424ae6..31c0759 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -785,11 +785,19 @@ void service::command_explain_by_text(
         return;
     }
 
+    // the statement is prepared only for this request
+    auto dispose_statement = [&]() {
+        if(auto rc = get_impl(*db_).destroy_statement_internal(statement); rc != jogasaki::status::ok) {
+            // normally this should not happen
+            VLOG_LP(log_warning) << "destroying statement failed for explained statement " << statement;
+        }
+    };
     std::unique_ptr<jogasaki::api::executable_statement> e{};
     err_info = {};
     auto params = jogasaki::api::create_parameter_set();
     if(auto rc = get_impl(*db_).resolve(statement, maybe_shared_ptr{params.get()}, e, err_info);
        rc != jogasaki::status::ok) {
+        dispose_statement();
         details::error<sql::response::Explain>(*res, err_info.get(), req_info);
         req->status(scheduler::request_detail_status::finishing);
         log_request(*req, false);
@@ -799,15 +807,13 @@ void service::command_explain_by_text(
     if (auto st = get_impl(*db_).explain(*e, ss, err_info, req_info); st == jogasaki::status::ok) {
         details::success<sql::response::Explain>(*res, ss.str(), e->meta(), req_info);
     } else {
+        dispose_statement();
         details::error<sql::response::Explain>(*res, err_info.get(), req_info);
         req->status(scheduler::request_detail_status::finishing);
         log_request(*req, false);
         return;
     }
-    if(auto rc = get_impl(*db_).destroy_statement_internal(statement); rc != jogasaki::status::ok) {
-        // normally this should not happen
-        VLOG_LP(log_warning) << "destroying statement failed for explained statement " << statement;
-    }
+    dispose_statement();
     req->status(scheduler::request_detail_status::finishing);
     log_request(*req);
 }
-- 
2.43.0


From 3ebe3d213ec3a63e7efef1fcca9f23a9ecd10d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 49/79] fix: look handles up without session when session
 stores are disabled

---
 src/jogasaki/utils/extract_sql_and_tx_id.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jogasaki/utils/extract_sql_and_tx_id.cpp b/src/jogasaki/utils/extract_sql_and_tx_id.cpp
index 0307305..2191b1b 100644
--- a/src/jogasaki/utils/extract_sql_and_tx_id.cpp
+++ b/src/jogasaki/utils/extract_sql_and_tx_id.cpp
@@ -33,6 +33,7 @@
 #include <jogasaki/api/statement_handle_internal.h>
 #include <jogasaki/api/transaction_handle.h>
 #include <jogasaki/api/transaction_handle_internal.h>
+#include <jogasaki/configuration.h>
 #include <jogasaki/datastore/get_lob_data.h>
 #include <jogasaki/error/error_info.h>
 #include <jogasaki/error/error_info_factory.h>
@@ -105,6 +106,10 @@ bool extract_sql_and_tx_id(
     std::shared_ptr<error::error_info>& err_info,
     std::optional<std::size_t> session_id
 ) {
+    if(! global::config_pool()->enable_session_store()) {
+        // handles don't belong to sessions
+        session_id = std::nullopt;
+    }
     switch (req.request_case()) {
         case sql::request::Request::RequestCase::kExecuteStatement: {
             auto& msg = req.execute_statement();
-- 
2.43.0


From 6566812905decbbfa582749cb0b445e5bd2a111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:38 +0000
Subject: [PATCH 50/79] fix: refuse a parameter whose decimal value is out of
 range

---
 src/jogasaki/api/impl/service.cpp | 38 ++++++++++++++++++++++++++-----
 src/jogasaki/api/impl/service.h   |  8 ++++++-
 src/jogasaki/utils/decimal.cpp    | 18 +++++----------
 3 files changed, 45 insertions(+), 19 deletions(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index 31c0759..e782489 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -531,7 +531,11 @@ void service::command_execute_prepared_statement(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(pq.parameters(), params, req_info);
+    if(auto err = set_params(pq.parameters(), params, req_info)) {
+        abort_transaction(tx, req_info, err);
+        details::error<sql::response::ExecuteResult>(*res, err.get(), req_info);
+        return;
+    }
 
     std::unique_ptr<jogasaki::api::executable_statement> e{};
     std::shared_ptr<error::error_info> err_info{};
@@ -561,7 +565,11 @@ void service::command_execute_prepared_query(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(pq.parameters(), params, req_info);
+    if(auto err = set_params(pq.parameters(), params, req_info)) {
+        abort_transaction(tx, req_info, err);
+        details::error<sql::response::ResultOnly>(*res, err.get(), req_info);
+        return;
+    }
     execute_query(res, details::query_info{handle, std::shared_ptr{std::move(params)}}, tx, req_info);
 }
 
@@ -716,7 +724,10 @@ void service::command_explain(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ex.parameters(), params, req_info);
+    if(auto err = set_params(ex.parameters(), params, req_info)) {
+        details::error<sql::response::Explain>(*res, err.get(), req_info);
+        return;
+    }
 
     // log explain event here to include db_->resolve duration as well as db_->explain
     auto req = std::make_shared<scheduler::request_detail>(scheduler::request_detail_kind::explain);
@@ -999,7 +1010,10 @@ void service::command_execute_dump(
     }
 
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ed.parameters(), params, req_info);
+    if(auto err = set_params(ed.parameters(), params, req_info)) {
+        details::error<sql::response::ResultOnly>(*res, err.get(), req_info);
+        return;
+    }
 
     executor::io::dump_config opts{};
     opts.max_records_per_file_ = (ed.has_option() && ed.option().max_record_count_per_file() > 0) ?
@@ -1057,7 +1071,10 @@ void service::command_execute_load(
     }
 
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ed.parameters(), params, req_info);
+    if(auto err = set_params(ed.parameters(), params, req_info)) {
+        details::error<sql::response::ExecuteResult>(*res, err.get(), req_info);
+        return;
+    }
     auto list = ed.file();
     std::vector<std::string> files{};
     for(auto&& f : list) {
@@ -1342,7 +1359,7 @@ static takatori::decimal::triple to_triple(::jogasaki::proto::sql::common::Decim
     return utils::read_decimal(buf, -exp);
 }
 
-void service::set_params(
+std::shared_ptr<error::error_info> service::set_params(
     ::google::protobuf::RepeatedPtrField<sql::request::Parameter> const& ps,
     std::unique_ptr<jogasaki::api::parameter_set>& params,
     request_info const& req_info
@@ -1372,6 +1389,14 @@ void service::set_params(
                 params->set_octet(p.name(), p.octet_value());
                 break;
             case sql::request::Parameter::ValueCase::kDecimalValue:
+                if(! utils::validate_decimal_coefficient(p.decimal_value().unscaled_value())) {
+                    return create_error_info(
+                        error_code::sql_execution_exception,
+                        string_builder{} << "Invalid request format - invalid decimal value for parameter '"
+                                         << p.name() << "'" << string_builder::to_string,
+                        status::err_invalid_argument
+                    );
+                }
                 params->set_decimal(p.name(), to_triple(p.decimal_value()));
                 break;
             case sql::request::Parameter::ValueCase::kDateValue:
@@ -1446,6 +1471,7 @@ void service::set_params(
                 break;
         }
     }
+    return {};
 }
 
 void service::execute_query(
diff --git a/src/jogasaki/api/impl/service.h b/src/jogasaki/api/impl/service.h
index e74da44..5d62b9b 100644
--- a/src/jogasaki/api/impl/service.h
+++ b/src/jogasaki/api/impl/service.h
@@ -720,7 +720,13 @@ private:
         std::vector<std::string> const& files,
         request_info const& req_info
     );
-    void set_params(
+
+    /**
+     * @brief set the parameters of the request to the parameter set
+     * @return the error info if the request has a malformed value
+     * @return nullptr otherwise
+     */
+    [[nodiscard]] std::shared_ptr<error::error_info> set_params(
         ::google::protobuf::RepeatedPtrField<sql::request::Parameter> const& ps,
         std::unique_ptr<jogasaki::api::parameter_set>& params,
         request_info const& req_info
diff --git a/src/jogasaki/utils/decimal.cpp b/src/jogasaki/utils/decimal.cpp
index 62d043c..ff5e205 100644
--- a/src/jogasaki/utils/decimal.cpp
+++ b/src/jogasaki/utils/decimal.cpp
@@ -104,21 +104,15 @@ bool validate_decimal_coefficient(
     if(buf.size() < max_decimal_coefficient_size) {
         return true;
     }
-    auto first = static_cast<std::uint8_t>(buf[0]);
-    // positive is OK because coefficient is [0, 2^128)
-    if (first == 0) {
+    // octets in addition to those of the coefficient must repeat the sign
+    auto const* coefficient = buf.end() - (max_decimal_coefficient_size - 1);
+    if(std::all_of(buf.begin(), coefficient, [](auto c) { return c == '\0'; })) {
+        // positive is OK because coefficient is [0, 2^128)
         return true;
     }
-
-    if (first == 0xffU) {
+    if(std::all_of(buf.begin(), coefficient, [](auto c) { return c == '\xff'; })) {
         // check negative value to avoid -2^128 (0xff 0x00.. 0x00)
-        auto const* found = std::find_if(
-            buf.begin() + 1,
-            buf.end(),
-            [](auto c) { return c != '\0'; });
-        if (found != buf.end()) {
-            return true;
-        }
+        return std::any_of(coefficient, buf.end(), [](auto c) { return c != '\0'; });
     }
     return false;
 }
-- 
2.43.0


From 8f9b3f75ee2bd2b1973357971cb22e61e6945c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:41 +0000
Subject: [PATCH 51/79] fix: widen an int4 parameter assigned to an int8
 placeholder

---
 src/jogasaki/plan/compiler.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index f2fa5fd..1f95cb2 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -1035,8 +1035,22 @@ std::shared_ptr<executor::process::impl::variable_table> create_host_variables(
             // value_to_any does not support blob or clob
             utils::value_to_any(e.value(), a);
         }
+        auto type = e.type();
+        if (type.kind() == meta::field_type_kind::int4) {
+            auto& vtype = info->meta()->at(os.index());
+            if (vtype.kind() == meta::field_type_kind::int8) {
+                // int4 parameter is admissible for int8 host variable - see validate_host_variables
+                type = vtype;
+                if (a) {
+                    a = data::any{
+                        std::in_place_type<runtime_t<meta::field_type_kind::int8>>,
+                        a.to<runtime_t<meta::field_type_kind::int4>>()
+                    };
+                }
+            }
+        }
         utils::copy_nullable_field(
-            e.type(),
+            type,
             target,
             os.value_offset(),
             os.nullity_offset(),
-- 
2.43.0


From 2d7097a471f9ec3ccdfcae92d0a30d338f89ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:11 +0000
Subject: [PATCH 52/79] fix: abort a transaction whose error is reported so
 that it cannot be committed

---
 src/jogasaki/executor/executor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index f539efb..5b6a198 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -776,9 +776,10 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
             external_log_stmt_end(*rctx, req_info, statement);
             if(rctx->transaction() &&
                 rctx->status_code() != status::ok &&
-                rctx->transaction()->state() != transaction_state_kind::aborted &&
-                modifies_storages(*unsafe_downcast<api::impl::executable_statement&>(*statement).body())) {
-                // the failed statement possibly applied a part of its changes, so they must not be committed
+                (rctx->transaction()->error_info() ||
+                    modifies_storages(*unsafe_downcast<api::impl::executable_statement&>(*statement).body()))) {
+                // the transaction is reported as aborted once it has an error, and the failed statement possibly
+                // applied a part of its changes, so they must not be committed
                 abort_transaction(rctx->transaction(), req_info);
             }
             on_completion(rctx->status_code(), rctx->error_info(), rctx->stats());
-- 
2.43.0


From f9c8d420133a7eb5b550916474c57ca93af59a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:06 +0000
Subject: [PATCH 53/79] fix: a task that throws leaves the transaction so that
 it can be terminated

---
 src/jogasaki/scheduler/flat_task.cpp | 52 +++++++++++++++++-----------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..c6f7132 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -207,6 +207,21 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
         }
     }
 
+    auto leave_transaction = [this]() {
+        if (in_transaction_ && req_context_ && req_context_->transaction()) {
+            auto& tctx = *req_context_->transaction();
+            termination_state ts{};
+            tctx.termination_mgr().decrement_task_use_count(ts);
+            if (ts.going_to_abort() && ts.task_empty()) {
+                (void) req_context_->transaction()->abort_transaction();
+                // request_info in the request context might not be the cause of the abort
+                // rather it is the request processing SQL that is interrupted by the abort
+                // TODO fix if that is a problem.
+                log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
+            }
+        }
+    };
+
     // The variables begin and end are needed only for timing event log.
     // Avoid calling clock::now() if log level is low. In case its cost is unexpectedly high.
     std::chrono::time_point<clock> begin{};
@@ -217,15 +232,21 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " kind:" << kind_ << " sticky:" << sticky_ << " worker:" << ctx.index()
                             << " stolen:" << ctx.task_is_stolen() << " last_steal_from:" << ctx.last_steal_from();
     bool to_finish_job = false;
-    switch(kind_) {
-        using kind = flat_task_kind;
-        case kind::dag_events: dag_schedule(); break;
-        case kind::bootstrap: bootstrap(ctx); break;
-        case kind::resolve: resolve(ctx); break;
-        case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
-        case kind::wrapped: to_finish_job = execute_wrapped(); break;
-        case kind::write: to_finish_job = write(); break;
-        case kind::load: to_finish_job = load(); break;
+    try {
+        switch(kind_) {
+            using kind = flat_task_kind;
+            case kind::dag_events: dag_schedule(); break;
+            case kind::bootstrap: bootstrap(ctx); break;
+            case kind::resolve: resolve(ctx); break;
+            case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
+            case kind::wrapped: to_finish_job = execute_wrapped(); break;
+            case kind::write: to_finish_job = write(); break;
+            case kind::load: to_finish_job = load(); break;
+        }
+    } catch(...) {
+        // otherwise the transaction could not be terminated any more
+        leave_transaction();
+        throw;
     }
     std::chrono::time_point<clock> end{};
     std::size_t took_ns{};
@@ -247,18 +268,7 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " job_id:" << utils::hex(req_context_->job()->id()) << " kind:" << kind_
                             << " sticky:" << sticky_ << " worker:" << ctx.index() << " stolen:" << ctx.task_is_stolen();
 
-    if (in_transaction_ && req_context_ && req_context_->transaction()) {
-        auto& tctx = *req_context_->transaction();
-        termination_state ts{};
-        tctx.termination_mgr().decrement_task_use_count(ts);
-        if (ts.going_to_abort() && ts.task_empty()) {
-            (void) req_context_->transaction()->abort_transaction();
-            // request_info in the request context might not be the cause of the abort
-            // rather it is the request processing SQL that is interrupted by the abort
-            // TODO fix if that is a problem.
-            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
-        }
-    }
+    leave_transaction();
     return to_finish_job;
 }
 
-- 
2.43.0


From 3daf79aa8d4a0fceb0ae187fb532134df9880010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:46 +0000
Subject: [PATCH 54/79] fix: do not read past the end of an empty decimal
 coefficient

---
 src/jogasaki/utils/decimal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/decimal.cpp b/src/jogasaki/utils/decimal.cpp
index ff5e205..178408c 100644
--- a/src/jogasaki/utils/decimal.cpp
+++ b/src/jogasaki/utils/decimal.cpp
@@ -143,7 +143,8 @@ takatori::decimal::triple read_decimal(std::string_view data, std::size_t scale)
         shift += 8;
     }
 
-    bool negative = (static_cast<std::uint8_t>(data[0]) & 0x80U) != 0;
+    // empty data is zero
+    bool negative = ! data.empty() && (static_cast<std::uint8_t>(data[0]) & 0x80U) != 0;
 
     if (negative) {
         // sign extension
-- 
2.43.0


From ead3063f6c4e48e58f762eae058a27d02a90efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:46 +0000
Subject: [PATCH 55/79] fix: do not hand a stack allocated error detail over to
 protobuf

---
 src/jogasaki/api/kvsservice/impl/service.cpp | 26 +++++---------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/impl/service.cpp b/src/jogasaki/api/kvsservice/impl/service.cpp
index c041ae3..f763168 100644
--- a/src/jogasaki/api/kvsservice/impl/service.cpp
+++ b/src/jogasaki/api/kvsservice/impl/service.cpp
@@ -80,13 +80,11 @@ static void set_error(status status, tateyama::proto::kvs::response::Error &erro
     error.set_code(static_cast<google::protobuf::int32>(status));
 }
 
-static bool set_error(status status, std::string *message, tateyama::proto::kvs::response::Error &error) {
+static void set_error(status status, std::string const *message, tateyama::proto::kvs::response::Error &error) {
     set_error(status, error);
     if (message != nullptr) {
-        error.set_allocated_detail(message);
-        return true;
+        error.set_detail(*message);
     }
-    return false;
 }
 
 /*
@@ -158,11 +156,8 @@ static void error_begin(status status, std::shared_ptr<tateyama::api::server::re
     tateyama::proto::kvs::response::Response proto_res { };
     auto* begin = proto_res.mutable_begin();
     auto* error = begin->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 static status_message check_supported(transaction_option &opt) {
@@ -232,11 +227,8 @@ static void error_commit(status status, std::shared_ptr<tateyama::api::server::r
     tateyama::proto::kvs::response::Response proto_res { };
     auto* commit = proto_res.mutable_commit();
     auto* error = commit->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 static status_message check_supported(tateyama::proto::kvs::request::CommitStatus const status) {
@@ -360,11 +352,8 @@ static void error_put(status status, std::shared_ptr<tateyama::api::server::resp
     tateyama::proto::kvs::response::Response proto_res { };
     auto* put = proto_res.mutable_put();
     auto* error = put->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 void service::command_put(tateyama::proto::kvs::request::Request const &proto_req,
@@ -494,11 +483,8 @@ static void error_remove(status status, std::shared_ptr<tateyama::api::server::r
     tateyama::proto::kvs::response::Response proto_res { };
     auto* remove = proto_res.mutable_remove();
     auto* error = remove->mutable_error();
-    auto alloc_detail = set_error(status, message, *error);
+    set_error(status, message, *error);
     reply(proto_res, res);
-    if (alloc_detail) {
-        (void)error->release_detail();
-    }
 }
 
 void service::command_remove(tateyama::proto::kvs::request::Request const &proto_req,
-- 
2.43.0


From 7de003e97ec195b94cb542f1d5f1b9f34422ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:23 +0000
Subject: [PATCH 56/79] fix: keep the direction of key columns in key-value
 requests

---
 src/jogasaki/api/kvsservice/column_data.h      | 13 +++++++++++--
 src/jogasaki/api/kvsservice/record_columns.cpp |  3 ++-
 src/jogasaki/api/kvsservice/serializer.cpp     |  3 ++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/column_data.h b/src/jogasaki/api/kvsservice/column_data.h
index ef1912d..6814819 100644
--- a/src/jogasaki/api/kvsservice/column_data.h
+++ b/src/jogasaki/api/kvsservice/column_data.h
@@ -22,8 +22,9 @@ namespace jogasaki::api::kvsservice {
 
 class column_data {
 public:
-    column_data(yugawara::storage::column const *column, tateyama::proto::kvs::data::Value const *value) :
-        column_(column), value_(value) {  }
+    column_data(yugawara::storage::column const *column, tateyama::proto::kvs::data::Value const *value,
+        bool descending = false) :
+        column_(column), value_(value), descending_(descending) {  }
 
     [[nodiscard]] yugawara::storage::column const *column() const noexcept {
         return column_;
@@ -32,8 +33,16 @@ public:
     [[nodiscard]] tateyama::proto::kvs::data::Value const *value() const noexcept {
         return value_;
     }
+
+    /**
+     * @brief returns whether the column is a key column in descending order
+     */
+    [[nodiscard]] bool descending() const noexcept {
+        return descending_;
+    }
 private:
     yugawara::storage::column const *column_{};
     tateyama::proto::kvs::data::Value const *value_{};
+    bool descending_{};
 };
 }
diff --git a/src/jogasaki/api/kvsservice/record_columns.cpp b/src/jogasaki/api/kvsservice/record_columns.cpp
index 3490de1..9d29d20 100644
--- a/src/jogasaki/api/kvsservice/record_columns.cpp
+++ b/src/jogasaki/api/kvsservice/record_columns.cpp
@@ -49,7 +49,8 @@ record_columns::record_columns(std::shared_ptr<yugawara::storage::table const> &
         // TODO should be case-insensitive, NULL value
         const auto value = m_rec.get_value(column.simple_name());
         if (value != nullptr) {
-            primary_keys_.emplace_back(&column, value);
+            primary_keys_.emplace_back(&column, value,
+                key_col.direction() == yugawara::storage::sort_direction::descendant);
         }
     }
     if (only_keys) {
diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 81d5dc0..9455ccc 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -97,9 +97,10 @@ static status check_character(column_data const &cd, std::string_view view) {
     return status::ok;
 }
 
-status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list,
+status serialize(jogasaki::kvs::coding_spec const &list_spec, std::vector<column_data> const &list,
                  jogasaki::kvs::writable_stream &results) {
     for (auto &cd : list) {
+        auto const spec = list_spec.is_key() && cd.descending() ? jogasaki::kvs::spec_key_descending : list_spec;
         const auto value = cd.value();
         const auto nullable = cd.column()->criteria().nullity().nullable();
         const auto is_null = value->value_case() == tateyama::proto::kvs::data::Value::VALUE_NOT_SET;
-- 
2.43.0


From 3faa2783c989af0ea0dfc71963fffc3f91a5a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:18 +0000
Subject: [PATCH 57/79] fix: pad fixed length strings of key-value requests as
 SQL does

---
 .../api/kvsservice/record_columns.cpp         | 24 +++++++++++++++++--
 src/jogasaki/api/kvsservice/record_columns.h  |  9 +++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/record_columns.cpp b/src/jogasaki/api/kvsservice/record_columns.cpp
index 9d29d20..88dee28 100644
--- a/src/jogasaki/api/kvsservice/record_columns.cpp
+++ b/src/jogasaki/api/kvsservice/record_columns.cpp
@@ -21,6 +21,8 @@
 #include <type_traits>
 #include <unordered_set>
 
+#include <takatori/type/character.h>
+#include <takatori/type/type_kind.h>
 #include <takatori/util/optional_ptr.h>
 #include <takatori/util/reference_extractor.h>
 #include <takatori/util/reference_iterator.h>
@@ -49,7 +51,7 @@ record_columns::record_columns(std::shared_ptr<yugawara::storage::table const> &
         // TODO should be case-insensitive, NULL value
         const auto value = m_rec.get_value(column.simple_name());
         if (value != nullptr) {
-            primary_keys_.emplace_back(&column, value,
+            primary_keys_.emplace_back(&column, pad(column, value),
                 key_col.direction() == yugawara::storage::sort_direction::descendant);
         }
     }
@@ -61,11 +63,29 @@ record_columns::record_columns(std::shared_ptr<yugawara::storage::table const> &
         // TODO should be case-insensitive, NULL value
         const auto value = m_rec.get_value(column.simple_name());
         if (value != nullptr) {
-            values_.emplace_back(&column, value);
+            values_.emplace_back(&column, pad(column, value));
         }
     }
 }
 
+tateyama::proto::kvs::data::Value const* record_columns::pad(
+    yugawara::storage::column const& column,
+    tateyama::proto::kvs::data::Value const* value
+) {
+    if (column.type().kind() != takatori::type::type_kind::character ||
+        value->value_case() != tateyama::proto::kvs::data::Value::ValueCase::kCharacterValue) {
+        return value;
+    }
+    auto const& type = static_cast<takatori::type::character const&>(column.type());
+    if (type.varying() || ! type.length().has_value() ||
+        value->character_value().size() >= type.length().value()) {
+        return value;
+    }
+    auto& padded = padded_.emplace_back(*value);
+    padded.mutable_character_value()->resize(type.length().value(), ' ');
+    return &padded;
+}
+
 bool record_columns::has_unknown_column() const noexcept {
     std::unordered_set<std::string_view> col_names{};
     for (const auto &col: table_->columns()) {
diff --git a/src/jogasaki/api/kvsservice/record_columns.h b/src/jogasaki/api/kvsservice/record_columns.h
index c5bb69c..f796f0b 100644
--- a/src/jogasaki/api/kvsservice/record_columns.h
+++ b/src/jogasaki/api/kvsservice/record_columns.h
@@ -17,6 +17,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <deque>
 #include <vector>
 
 #include <yugawara/yugawara/storage/provider.h>
@@ -63,6 +64,14 @@ private:
     std::vector<column_data> values_{};
     std::size_t table_keys_size_{};
     std::size_t table_values_size_{};
+
+    std::deque<tateyama::proto::kvs::data::Value> padded_{};
+
+    // fixed length strings are stored with padding
+    [[nodiscard]] tateyama::proto::kvs::data::Value const* pad(
+        yugawara::storage::column const& column,
+        tateyama::proto::kvs::data::Value const* value
+    );
 };
 
 }
-- 
2.43.0


From 8f7025e4bfa39be7da70c20542312e48b6799fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:18 +0000
Subject: [PATCH 58/79] fix: answer key-value requests with unknown options
 instead of throwing

---
 src/jogasaki/api/kvsservice/impl/service.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/impl/service.cpp b/src/jogasaki/api/kvsservice/impl/service.cpp
index f763168..87849ff 100644
--- a/src/jogasaki/api/kvsservice/impl/service.cpp
+++ b/src/jogasaki/api/kvsservice/impl/service.cpp
@@ -197,7 +197,13 @@ static status_message check_supported(transaction_option &opt) {
 void service::command_begin(tateyama::proto::kvs::request::Request const &proto_req,
                                  std::shared_ptr<tateyama::api::server::response> &res) {
     auto &begin = proto_req.begin();
-    auto option = convert(begin.transaction_option());
+    auto &proto_opt = begin.transaction_option();
+    if (!tateyama::proto::kvs::transaction::Type_IsValid(proto_opt.type()) ||
+        !tateyama::proto::kvs::transaction::Priority_IsValid(proto_opt.priority())) {
+        error_begin(status::err_invalid_argument, res);
+        return;
+    }
+    auto option = convert(proto_opt);
     if (auto sm = check_supported(option); sm.status_code() != status::ok) {
         error_begin(sm.status_code(), res, sm.message());
         return;
@@ -251,6 +257,10 @@ static status_message check_supported(tateyama::proto::kvs::request::CommitStatu
 void service::command_commit(tateyama::proto::kvs::request::Request const&proto_req,
                                   std::shared_ptr<tateyama::api::server::response> &res) {
     auto &commit = proto_req.commit();
+    if (!tateyama::proto::kvs::request::CommitStatus_IsValid(commit.notification_type())) {
+        error_commit(status::err_invalid_argument, res);
+        return;
+    }
     if (auto sm = check_supported(commit.notification_type()); sm.status_code() != status::ok) {
         error_commit(sm.status_code(), res, sm.message());
         return;
@@ -359,6 +369,10 @@ static void error_put(status status, std::shared_ptr<tateyama::api::server::resp
 void service::command_put(tateyama::proto::kvs::request::Request const &proto_req,
                                std::shared_ptr<tateyama::api::server::response> &res) {
     auto &put = proto_req.put();
+    if (!tateyama::proto::kvs::request::Put_Type_IsValid(put.type())) {
+        error_put(status::err_invalid_argument, res);
+        return;
+    }
     if (put.records_size() != 1) {
         error_put(status::err_unsupported, res);
         return;
@@ -490,6 +504,10 @@ static void error_remove(status status, std::shared_ptr<tateyama::api::server::r
 void service::command_remove(tateyama::proto::kvs::request::Request const &proto_req,
                                   std::shared_ptr<tateyama::api::server::response> &res) {
     auto &remove = proto_req.remove();
+    if (!tateyama::proto::kvs::request::Remove_Type_IsValid(remove.type())) {
+        error_remove(status::err_invalid_argument, res);
+        return;
+    }
     if (remove.keys_size() != 1) {
         error_remove(status::err_unsupported, res);
         return;
-- 
2.43.0


From 55d6d971a71739dd913e0cc1bec58e3016205e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 59/79] fix: return stored values for columns given besides the
 key of a get request

---
 src/jogasaki/api/kvsservice/transaction_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/transaction_utils.cpp b/src/jogasaki/api/kvsservice/transaction_utils.cpp
index 2d770bf..f40755e 100644
--- a/src/jogasaki/api/kvsservice/transaction_utils.cpp
+++ b/src/jogasaki/api/kvsservice/transaction_utils.cpp
@@ -18,6 +18,8 @@
 
 #include <cstddef>
 #include <stdexcept>
+#include <string_view>
+#include <unordered_set>
 #include <vector>
 
 #include <takatori/type/data.h>
@@ -28,6 +30,8 @@
 #include <takatori/util/reference_list_view.h>
 #include <yugawara/storage/basic_configurable_provider.h>
 #include <yugawara/storage/column.h>
+#include <yugawara/storage/index.h>
+#include <yugawara/storage/table.h>
 #include <yugawara/variable/criteria.h>
 #include <yugawara/variable/nullity.h>
 
@@ -217,9 +221,15 @@ status make_record(std::shared_ptr<yugawara::storage::table const> &table,
     jogasaki::kvs::readable_stream stream{input.data(), input.size()};
     //
     mapped_record m_key {primary_key};
+    const auto primary = table->owner()->find_primary_index(*table);
+    std::unordered_set<std::string_view> key_names{};
+    for (auto &key_col : primary->keys()) {
+        key_names.insert(key_col.column().simple_name());
+    }
     for (auto &col : table->columns()) {
         auto col_name = col.simple_name();
-        auto value = m_key.get_value(col_name);
+        // columns other than keys come from the stored entry even when the request has them
+        auto value = key_names.count(col_name) != 0 ? m_key.get_value(col_name) : nullptr;
         if (value != nullptr) {
             add_key_column(col_name, value, record);
         } else if (auto s = add_value_column(col, stream, record);
-- 
2.43.0


From 265e2be50b2db6235ea9218bd6c521189f56eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:28 +0000
Subject: [PATCH 60/79] fix: keep the sign of a decimal value in the answer to
 a get request

---
 src/jogasaki/api/kvsservice/serializer.cpp | 29 +++-------------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 9455ccc..b3d4138 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -253,32 +253,11 @@ static status decode_character(jogasaki::kvs::coding_spec const &spec, yugawara:
 
 static inline void set_decimal(data::any &dest, tateyama::proto::kvs::data::Value *value) {
     auto triple = dest.to<takatori::decimal::triple>();
-    const auto lo = triple.coefficient_low();
-    const auto hi = triple.coefficient_high();
-    std::string buf{};
-    const auto buflen = sizeof(lo) + sizeof(hi);
-    buf.resize(buflen);
-    auto v = lo;
-    for (int i = 0; i < 8; i++) {
-        buf[15 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    v = hi;
-    for (int i = 0; i < 8; i++) {
-        buf[7 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    // skip zero-padding
-    std::size_t start = 0;
-    while (start < buflen - 1) {
-        if (buf[start] != 0) {
-            break;
-        }
-        start++;
-    }
+    auto [hi, lo, size] = jogasaki::utils::make_signed_coefficient_full(triple);
+    jogasaki::utils::decimal_buffer buf{};
+    jogasaki::utils::create_decimal(static_cast<std::int8_t>(triple.sign()), lo, hi, size, buf);
     auto *decimal = value->mutable_decimal_value();
-    // NOTE: buf.size() returns 0, not 16
-    decimal->set_unscaled_value(std::addressof(buf[start]), buflen - start);
+    decimal->set_unscaled_value(buf.data(), size);
     decimal->set_exponent(triple.exponent());
 }
 
-- 
2.43.0


From 8843660c77ca582cc2cb90197feefb3ce6c5c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:01 +0000
Subject: [PATCH 61/79] fix: refuse decimals out of range in key-value requests

---
 src/jogasaki/api/kvsservice/serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index b3d4138..6210d22 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -165,6 +165,9 @@ status serialize(jogasaki::kvs::coding_spec const &list_spec, std::vector<column
             }
             case takatori::type::type_kind::decimal: {
                 const auto &dec = value->decimal_value();
+                if (!jogasaki::utils::validate_decimal_coefficient(dec.unscaled_value())) {
+                    return status::err_invalid_argument;
+                }
                 auto triple = jogasaki::utils::read_decimal(dec.unscaled_value(), -dec.exponent());
                 auto ctype = cd.column()->optional_type();
                 if (ctype.empty()) {
-- 
2.43.0


From e6096a86781a1dbda3438a9b1374959c20dff56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:06 +0000
Subject: [PATCH 62/79] fix: return NULL of a boolean column in key-value
 requests

---
 src/jogasaki/api/kvsservice/serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 6210d22..5af3739 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -361,7 +361,7 @@ status deserialize(jogasaki::kvs::coding_spec const &spec, yugawara::storage::co
         case takatori::type::type_kind::boolean: {
             auto type = meta::field_type{meta::field_enum_tag<kind::boolean>};
             s = decode(nullable, stream, type, spec, dest);
-            if (s == status::ok) {
+            if (s == status::ok && !dest.empty()) {
                 value->set_boolean_value(dest.to<bool>());
             }
             break;
-- 
2.43.0


From 2665d069f4bfd0dabebb0c4a905ed6ac8d22daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:32 +0000
Subject: [PATCH 63/79] fix: refuse decimals with huge exponents in key-value
 requests

---
 src/jogasaki/api/kvsservice/serializer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 5af3739..58681e5 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -18,6 +18,7 @@
 
 #include <cmath>
 #include <cstdint>
+#include <limits>
 #include <memory>
 #include <optional>
 #include <string>
@@ -62,6 +63,13 @@ using kind = jogasaki::meta::field_type_kind;
 
 namespace jogasaki::api::kvsservice {
 
+/**
+ * @brief limit of the exponent (absolute value) of decimals in requests
+ * @details a coefficient has at most 39 digits and the scale of a column is at most 38,
+ * so that no column can store a non-zero value beyond this limit.
+ */
+constexpr static std::int32_t max_decimal_exponent = 80;
+
 status get_bufsize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list,
                    std::size_t &size) {
     // NOTE empty_stream is created just for getting enough buffer size
@@ -168,6 +176,10 @@ status serialize(jogasaki::kvs::coding_spec const &list_spec, std::vector<column
                 if (!jogasaki::utils::validate_decimal_coefficient(dec.unscaled_value())) {
                     return status::err_invalid_argument;
                 }
+                if (dec.exponent() < -max_decimal_exponent || max_decimal_exponent < dec.exponent()) {
+                    // no column can store the value, and it is expensive to scale
+                    return status::err_invalid_argument;
+                }
                 auto triple = jogasaki::utils::read_decimal(dec.unscaled_value(), -dec.exponent());
                 auto ctype = cd.column()->optional_type();
                 if (ctype.empty()) {
-- 
2.43.0


From 9142510ceb07ae64e1493de6550ee6fa15bf118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:32 +0000
Subject: [PATCH 64/79] fix: do not dispose a key-value transaction while other
 requests use it

---
 include/jogasaki/api/kvsservice/transaction.h | 4 ++++
 src/jogasaki/api/kvsservice/transaction.cpp   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/include/jogasaki/api/kvsservice/transaction.h b/include/jogasaki/api/kvsservice/transaction.h
index 7f199dc..78dac2a 100644
--- a/include/jogasaki/api/kvsservice/transaction.h
+++ b/include/jogasaki/api/kvsservice/transaction.h
@@ -183,6 +183,8 @@ public:
      * @brief dispose the transaction
      * @details dispose the transaction.
      * You should call this after commit/abort.
+     * This waits for the operations running with transaction_mutex(), so don't call it with the mutex held.
+     * The operations called after this are rejected with status::err_inactive_transaction.
      * @return status::ok if the operation is successful
      * @return other status code when error occurs
      */
@@ -200,6 +202,8 @@ private:
     tateyama::proto::kvs::response::Error error_{};
     // commit/abort called flag, locked by mtx_tx_
     bool commit_abort_called_{};
+    // disposed flag, locked by mtx_tx_
+    bool disposed_{};
 
     status is_active() const noexcept;
     status get_storage(std::string_view name, sharksfin::StorageHandle &storage);
diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index c297acc..b25c4b8 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -295,6 +295,13 @@ tateyama::proto::kvs::response::Error const &transaction::get_error_info() const
 }
 
 status transaction::dispose() {
+    // other requests may be still using the handle
+    std::unique_lock<std::mutex> lock{mtx_tx_};
+    if (disposed_) {
+        return status::ok;
+    }
+    disposed_ = true;
+    commit_abort_called_ = true;
     auto code = sharksfin::transaction_dispose(ctrl_handle_);
     return convert(code);
 }
-- 
2.43.0


From 66098b3189e3c5d1d1d3940b77e63a1892460a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:15 +0000
Subject: [PATCH 65/79] fix: a load in a transaction that does not exist is
 refused

---
 src/jogasaki/api/impl/service.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index e782489..6592986 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -1762,14 +1762,24 @@ void service::execute_load( //NOLINT
     assert_with_exception(! q.has_sql());
     auto statement = q.handle();
 
+    std::shared_ptr<transaction_context> t{};
+    if(tx) {
+        t = get_impl(*db_).find_transaction(tx);
+        if(! t) {
+            // invalid handle
+            auto err_info = create_error_info(error_code::transaction_not_found_exception,
+                "Transaction handle is invalid.", status::err_invalid_argument);
+            details::error<sql::response::ExecuteResult>(*res, err_info.get(), req_info);
+            return;
+        }
+    }
     auto c = std::make_shared<callback_control>(res);
     auto* cbp = c.get();
     auto cid = c->id_;
     if(! callbacks_.emplace(cid, std::move(c))) {
         throw_exception(std::logic_error{"callback already exists"});
     }
-    if(tx) {
-        auto t = get_impl(*db_).find_transaction(tx);
+    if(t) {
         if (auto rc = executor::execute_load(  //NOLINT
                 get_impl(*db_),
                 t,
-- 
2.43.0


From 600adfeaf2a34a0ac9e1323e6338c8a81e8010d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:15 +0000
Subject: [PATCH 66/79] fix: a load in a transaction reads all row groups of a
 file

---
 src/jogasaki/executor/file/loader.cpp | 11 ++++++++---
 src/jogasaki/executor/file/loader.h   |  2 ++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index 22d8535..7cefa93 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -178,7 +178,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
         // read records, assign host variables, submit tasks
         auto ps = std::shared_ptr<api::parameter_set>{parameters_->clone()};
         if(! reader_) {
-            if(next_file_ == files_.end()) {
+            if(row_group_ == 0 && next_file_ == files_.end()) {
                 // reading all files completed
                 more_to_read_ = false;
                 return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
@@ -186,8 +186,11 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
 
             reader_option opt{};
             create_reader_option_and_mapping(*parameters_, *statement_, mapping_, opt);
-            reader_ = parquet_reader::open(*next_file_, std::addressof(opt));
-            ++next_file_;
+            if(row_group_ == 0) {
+                current_file_ = *next_file_;
+                ++next_file_;
+            }
+            reader_ = parquet_reader::open(current_file_, std::addressof(opt), row_group_);
             if(! reader_) {
                 status_ = status::err_io_error;
                 msg_ = "opening parquet file failed.";
@@ -199,6 +202,8 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
 
         accessor::record_ref ref{};
         if(! reader_->next(ref)) {
+            // move to next row group, or next file if all row groups are completed
+            row_group_ = row_group_ + 1 < reader_->row_group_count() ? row_group_ + 1 : 0;
             reader_->close();
             reader_.reset();
             continue;
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index 5feb226..e891a00 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -167,6 +167,8 @@ private:
     std::atomic_size_t records_loaded_{0};
     maybe_shared_ptr<meta::external_record_meta> meta_{};
     decltype(files_)::const_iterator next_file_{};
+    std::string current_file_{};
+    std::size_t row_group_{};
     std::unordered_map<std::string, parameter> mapping_{};
     std::size_t bulk_size_{};
     bool more_to_read_{true};
-- 
2.43.0


From 13af19e652cf6292e567106f84ca7d65e42481e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 67/79] fix: the privileges of the user apply to loads

---
 src/jogasaki/api/impl/database.cpp                   |  9 ++++++---
 src/jogasaki/api/impl/database.h                     |  3 ++-
 src/jogasaki/api/impl/service.cpp                    |  3 ++-
 src/jogasaki/executor/batch/batch_block_executor.cpp |  4 +++-
 src/jogasaki/executor/batch/batch_execution_info.cpp | 10 ++++++++--
 src/jogasaki/executor/batch/batch_execution_info.h   | 11 ++++++++++-
 src/jogasaki/executor/executor.cpp                   |  5 +++--
 src/jogasaki/executor/file/loader.cpp                | 12 ++++++++----
 src/jogasaki/executor/file/loader.h                  |  5 ++++-
 9 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/jogasaki/api/impl/database.cpp b/src/jogasaki/api/impl/database.cpp
index 3a823f1..ced45e3 100644
--- a/src/jogasaki/api/impl/database.cpp
+++ b/src/jogasaki/api/impl/database.cpp
@@ -1628,7 +1628,8 @@ bool database::execute_load(
     api::statement_handle prepared,
     maybe_shared_ptr<api::parameter_set const> parameters,
     std::vector<std::string> files,
-    callback on_completion
+    callback on_completion,
+    request_info const& req_info
 ) {
     auto stmt = get_statement(prepared);
     if (stmt == nullptr) {
@@ -1647,7 +1648,7 @@ bool database::execute_load(
         nullptr,
         nullptr,
         std::make_shared<memory::lifo_paged_memory_resource>(&global::page_pool()),
-        {},
+        req_info,
         false,
         req
     );
@@ -1660,7 +1661,9 @@ bool database::execute_load(
             this,
             [rctx]() {
                 scheduler::submit_teardown(*rctx);
-            }
+            },
+            {},
+            req_info
         }
     );
     rctx->job()->callback([on_completion=std::move(on_completion), rctx, ldr](){  // callback is copy-based
diff --git a/src/jogasaki/api/impl/database.h b/src/jogasaki/api/impl/database.h
index 2f67015..5c58c7d 100644
--- a/src/jogasaki/api/impl/database.h
+++ b/src/jogasaki/api/impl/database.h
@@ -259,7 +259,8 @@ public:
         api::statement_handle prepared,
         maybe_shared_ptr<api::parameter_set const> parameters,
         std::vector<std::string> files,
-        callback on_completion
+        callback on_completion,
+        request_info const& req_info = {}
     );
 
     [[nodiscard]] std::shared_ptr<transaction_context> find_transaction(api::transaction_handle handle);
diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index 6592986..d479598 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -1820,7 +1820,8 @@ void service::execute_load( //NOLINT
                     if (!callbacks_.erase(cbp->id_)) {
                         throw_exception(std::logic_error{"missing callback"});
                     }
-                }
+                },
+                req_info
             ); !rc) {
             // for now, any errors from execute_load are reported via callback, so there is nothing to do here
         }
diff --git a/src/jogasaki/executor/batch/batch_block_executor.cpp b/src/jogasaki/executor/batch/batch_block_executor.cpp
index 785a0ad..a5c5b06 100644
--- a/src/jogasaki/executor/batch/batch_block_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_block_executor.cpp
@@ -238,7 +238,9 @@ std::pair<bool, bool> batch_block_executor::next_statement() {
                 return;
             }
             end_of_statement();
-        }
+        },
+        false,
+        info_.req_info()
     );
     return {true, true};
 }
diff --git a/src/jogasaki/executor/batch/batch_execution_info.cpp b/src/jogasaki/executor/batch/batch_execution_info.cpp
index 2463ade..6e9d266 100644
--- a/src/jogasaki/executor/batch/batch_execution_info.cpp
+++ b/src/jogasaki/executor/batch/batch_execution_info.cpp
@@ -28,13 +28,15 @@ batch_execution_info::batch_execution_info(
     maybe_shared_ptr<const api::parameter_set> parameters,
     api::impl::database *db,
     std::function<void(void)> cb,
-    batch_executor_option opt
+    batch_executor_option opt,
+    request_info req_info
 ) noexcept:
     statement_(std::move(statement)),
     parameters_(std::move(parameters)),
     db_(db),
     completion_callback_(std::move(cb)),
-    options_(std::move(opt))
+    options_(std::move(opt)),
+    req_info_(std::move(req_info))
 {}
 
 std::shared_ptr<api::impl::prepared_statement> const& batch_execution_info::statement() const noexcept {
@@ -57,4 +59,8 @@ batch_executor_option const &batch_execution_info::options() const noexcept {
     return options_;
 }
 
+request_info const& batch_execution_info::req_info() const noexcept {
+    return req_info_;
+}
+
 }
diff --git a/src/jogasaki/executor/batch/batch_execution_info.h b/src/jogasaki/executor/batch/batch_execution_info.h
index db3a7cc..f442009 100644
--- a/src/jogasaki/executor/batch/batch_execution_info.h
+++ b/src/jogasaki/executor/batch/batch_execution_info.h
@@ -23,6 +23,7 @@
 
 #include <jogasaki/api/impl/database.h>
 #include <jogasaki/api/statement_handle.h>
+#include <jogasaki/request_info.h>
 #include "jogasaki/api/parameter_set.h"
 
 #include "batch_executor_option.h"
@@ -59,13 +60,15 @@ public:
      * @param db the database instance
      * @param cb the callback to be called on batch execution completion
      * @param opt options to customize executor behavior
+     * @param req_info the original request information (e.g. used to check authorization)
      */
     batch_execution_info(
         std::shared_ptr<api::impl::prepared_statement> statement,
         maybe_shared_ptr<api::parameter_set const> parameters,
         api::impl::database* db,
         completion_callback_type cb = {},
-        batch_executor_option opt = {}
+        batch_executor_option opt = {},
+        request_info req_info = {}
     ) noexcept;
 
     /**
@@ -93,12 +96,18 @@ public:
      */
     [[nodiscard]] batch_executor_option const& options() const noexcept;
 
+    /**
+     * @brief accessor to the original request information
+     */
+    [[nodiscard]] request_info const& req_info() const noexcept;
+
 private:
     std::shared_ptr<api::impl::prepared_statement> statement_{};
     maybe_shared_ptr<api::parameter_set const> parameters_{};
     api::impl::database* db_{};
     completion_callback_type completion_callback_{};
     batch_executor_option options_{};
+    request_info req_info_{};
 };
 
 
diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 5b6a198..375dcd0 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -851,7 +851,6 @@ bool execute_load(
     error_info_callback on_completion,
     request_info const& req_info
 ) {
-    (void) req_info;
     auto req = std::make_shared<scheduler::request_detail>(scheduler::request_detail_kind::load);
     req->status(scheduler::request_detail_status::accepted);
     auto stmt = get_statement(prepared);
@@ -878,7 +877,9 @@ bool execute_load(
         std::move(stmt),
         std::move(parameters),
         tx,
-        database
+        database,
+        executor::file::loader::default_bulk_size,
+        req_info
     );
     rctx->job()->callback([on_completion=std::move(on_completion), rctx, ldr](){  // callback is copy-based
         (void)ldr; // to keep ownership
diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index 7cefa93..c1f7233 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -58,7 +58,8 @@ loader::loader(
     maybe_shared_ptr<api::parameter_set const> parameters,
     std::shared_ptr<transaction_context> tx,
     api::impl::database& db,
-    std::size_t bulk_size
+    std::size_t bulk_size,
+    request_info req_info
 ) noexcept:
     files_(std::move(files)),
     statement_(std::move(statement)),
@@ -66,7 +67,8 @@ loader::loader(
     tx_(std::move(tx)),
     db_(std::addressof(db)),
     next_file_(files_.begin()),
-    bulk_size_(bulk_size)
+    bulk_size_(bulk_size),
+    req_info_(std::move(req_info))
 {}
 
 static meta::field_type_kind
@@ -160,7 +162,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             // currently err_aborted should be used in order to report tx aborted. When abort can be reported
             // in different channel, original status code should be passed. TODO
             status_ = status::err_aborted;
-            executor::abort_transaction(tx_, {}); // TODO fill request info
+            executor::abort_transaction(tx_, req_info_);
             VLOG_LP(log_info) << "transaction aborted";
             error_aborted_ = true;
             return loader_result::error;
@@ -236,7 +238,9 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
                     return;
                 }
                 ++records_loaded_;
-            }
+            },
+            false,
+            req_info_
         );
     }
     return loader_result::running;
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index e891a00..f9c18e1 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -34,6 +34,7 @@
 #include <jogasaki/executor/file/file_reader.h>
 #include <jogasaki/meta/external_record_meta.h>
 #include <jogasaki/meta/field_type_kind.h>
+#include <jogasaki/request_info.h>
 #include <jogasaki/status.h>
 #include <jogasaki/utils/interference_size.h>
 
@@ -126,7 +127,8 @@ public:
         maybe_shared_ptr<api::parameter_set const> parameters,
         std::shared_ptr<transaction_context> tx,
         api::impl::database& db,
-        std::size_t bulk_size = default_bulk_size
+        std::size_t bulk_size = default_bulk_size,
+        request_info req_info = {}
     ) noexcept;
 
     /**
@@ -171,6 +173,7 @@ private:
     std::size_t row_group_{};
     std::unordered_map<std::string, parameter> mapping_{};
     std::size_t bulk_size_{};
+    request_info req_info_{};
     bool more_to_read_{true};
     status status_{status::ok};
     std::string msg_{};
-- 
2.43.0


From 80bbfb82dd038b05b91d6b0554552f6b088280d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 68/79] fix: finish the request of a statement that is refused
 before its execution

---
 src/jogasaki/executor/executor.cpp   | 28 ++++++++++++++++++++++++++++
 src/jogasaki/scheduler/flat_task.cpp |  6 ++++++
 2 files changed, 34 insertions(+)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 375dcd0..39479d8 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -705,6 +705,30 @@ static bool validate_authorization(
     return true;
 }
 
+/**
+ * @brief finish the job of a statement that is refused before any task is scheduled for its execution
+ * @details otherwise the job is left registered in the task scheduler. The caller must have called the completion
+ * callback already.
+ */
+static void finish_refused_job(
+    std::shared_ptr<request_context> const& rctx,
+    maybe_shared_ptr<api::executable_statement> const& statement,
+    bool sync
+) {
+    auto& ts = *rctx->scheduler();
+    auto job = rctx->job();
+    auto jobid = job->id();
+    job->callback([statement, rctx](){  // callback is copy-based
+        // let lambda own the statement and the context so that they live longer by the end of callback
+        (void)statement;
+        (void)rctx;
+    });
+    scheduler::submit_teardown(*rctx);
+    if(sync) {
+        ts.wait_for_progress(jobid);
+    }
+}
+
 bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexity)
     api::impl::database& database,
     std::shared_ptr<request_context> rctx,  //NOLINT
@@ -715,6 +739,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
 ) {
     auto& s = unsafe_downcast<api::impl::executable_statement&>(*statement);
     if(! validate_statement(*s.body(), rctx->record_channel(), on_completion)) {
+        finish_refused_job(rctx, statement, sync);
         return false;
     }
     rctx->enable_stats();
@@ -728,11 +753,13 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     // currently only DML is checked, but in future, DDL should be checked too.
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
         if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
+            finish_refused_job(rctx, statement, sync);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
     }
 
     if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
+        finish_refused_job(rctx, statement, sync);
         return true; // inactive tx error - this is normal error so return true
     }
 
@@ -751,6 +778,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
                     res
                 ), nullptr);
             utils::print_error(*rctx, msg);
+            finish_refused_job(rctx, statement, sync);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
         // pin primary storages in the transaction so that lazy deletion waits for tx completion
diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index c6f7132..2c2645c 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -459,7 +459,13 @@ void flat_task::resolve(tateyama::task_scheduler::context& ctx) {
     std::shared_ptr<error::error_info> info{};
     if(auto res = sctx_->database_->resolve_common(*sctx_->statement_, maybe_shared_ptr{sctx_->parameters_},
         e, info); res != status::ok) {
+        // the statement is not executed, so nothing else completes the request
         set_error_info(*req_context_, info);
+        req_context_->job()->callback([sctx=sctx_, rctx=req_context_.ownership(), res, info](){
+            (void)rctx; // let callback own the context
+            sctx->callback_(res, info, nullptr);
+        });
+        submit_teardown(*req_context_);
     } else {
         executor::execute_async_on_context(
                 *sctx_->database_,
-- 
2.43.0


From 21da460c1ee69d3e35d2d81c54fe7e49fd2ea211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:05 +0000
Subject: [PATCH 69/79] fix: a dump whose output cannot be completed fails

---
 src/jogasaki/executor/executor.cpp               |  8 ++++++++
 src/jogasaki/executor/io/dump_channel.cpp        |  4 +++-
 src/jogasaki/executor/io/dump_channel.h          | 15 +++++++++++++++
 src/jogasaki/executor/io/dump_channel_writer.cpp | 10 ++++++++--
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 39479d8..e5ae51f 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -416,6 +416,14 @@ bool execute_dump(
             std::shared_ptr<request_statistics> stats  //NOLINT(performance-unnecessary-value-param)
         ) {
             (void) stats; // no stats for dump yet
+            if(st == status::ok && dump_ch->failed()) {
+                st = status::err_io_error;
+                info = create_error_info(
+                    error_code::sql_execution_exception,
+                    "an error occurred in writing dump output",
+                    st
+                );
+            }
             if(st != status::ok) {
                 if (! cfg.keep_files_on_error_) {
                     dump_ch->clean_output_files();
diff --git a/src/jogasaki/executor/io/dump_channel.cpp b/src/jogasaki/executor/io/dump_channel.cpp
index b804921..1ca71b2 100644
--- a/src/jogasaki/executor/io/dump_channel.cpp
+++ b/src/jogasaki/executor/io/dump_channel.cpp
@@ -61,7 +61,9 @@ dump_channel::dump_channel(
 
 status dump_channel::acquire(std::shared_ptr<record_writer>& wrt) {
     std::shared_ptr<record_writer> w{};
-    channel_->acquire(w);
+    if(auto res = channel_->acquire(w); res != status::ok) {
+        return res;
+    }
     auto wid = writer_id_src_++;
     wrt = std::make_shared<dump_channel_writer>(*this, w, wid, cfg_);
     return status::ok;
diff --git a/src/jogasaki/executor/io/dump_channel.h b/src/jogasaki/executor/io/dump_channel.h
index ac414c3..519cb32 100644
--- a/src/jogasaki/executor/io/dump_channel.h
+++ b/src/jogasaki/executor/io/dump_channel.h
@@ -106,6 +106,20 @@ public:
         output_files_.push(std::string{path});
     }
 
+    /**
+     * @brief mark that some part of the output has been lost after the record was accepted by the writer
+     */
+    void set_failed() noexcept {
+        failed_ = true;
+    }
+
+    /**
+     * @brief return whether some part of the output has been lost
+     */
+    [[nodiscard]] bool failed() const noexcept {
+        return failed_;
+    }
+
     auto output_file_begin() {
         return output_files_.unsafe_begin();
     }
@@ -154,6 +168,7 @@ private:
     std::atomic_size_t writer_id_src_{0};
     tbb::concurrent_queue<std::string> output_files_{};
     executor::io::record_channel_stats stats_{};
+    std::atomic_bool failed_{false};
 };
 
 }  // namespace jogasaki::executor::io
diff --git a/src/jogasaki/executor/io/dump_channel_writer.cpp b/src/jogasaki/executor/io/dump_channel_writer.cpp
index eb00da1..cbf995f 100644
--- a/src/jogasaki/executor/io/dump_channel_writer.cpp
+++ b/src/jogasaki/executor/io/dump_channel_writer.cpp
@@ -115,13 +115,19 @@ void dump_channel_writer::write_file_path(std::string_view path) {
     accessor::record_ref ref{std::addressof(buf[0]), sz};
     ref.set_value(meta.value_offset(0), accessor::text(path));
     ref.set_null(meta.nullity_offset(0), false);
-    writer_->write(ref);
+    if(! writer_->write(ref)) {
+        VLOG_LP(log_error) << "writing dump file name failed for path " << path;
+        parent_->set_failed();
+    }
     writer_->flush();
     parent_->add_output_file(path);
 }
 
 void dump_channel_writer::close_file_writer() {
-    file_writer_->close();
+    if(! file_writer_->close()) {
+        VLOG_LP(log_error) << "closing dump file failed on path " << file_writer_->path();
+        parent_->set_failed();
+    }
     write_file_path(file_writer_->path());
     file_writer_.reset();
     ++current_sequence_number_;
-- 
2.43.0


From 7cce328ecc3bb9e522c7e562f1708480c133ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:05 +0000
Subject: [PATCH 70/79] fix: a query whose records cannot be committed to the
 channel fails

---
 src/jogasaki/executor/io/data_channel_writer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/io/data_channel_writer.cpp b/src/jogasaki/executor/io/data_channel_writer.cpp
index c1a6c1a..5d27fe0 100644
--- a/src/jogasaki/executor/io/data_channel_writer.cpp
+++ b/src/jogasaki/executor/io/data_channel_writer.cpp
@@ -142,11 +142,11 @@ bool data_channel_writer::write(accessor::record_ref rec) {
             }
         }
     }
-    ++write_record_count_;
     {
         trace_scope_name("writer::commit");  //NOLINT
-        writer_->commit();
+        check_writer_rc(writer_->commit());
     }
+    ++write_record_count_;
     log_exit << "this:" << this;
     return true;
 }
-- 
2.43.0


From 118e4d7d68e4b0d91e288bb31bc3779877484640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:13 +0000
Subject: [PATCH 71/79] fix: dumps started within a second do not overwrite
 each other

---
 src/jogasaki/executor/io/dump_channel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/io/dump_channel.cpp b/src/jogasaki/executor/io/dump_channel.cpp
index 1ca71b2..2b0b9de 100644
--- a/src/jogasaki/executor/io/dump_channel.cpp
+++ b/src/jogasaki/executor/io/dump_channel.cpp
@@ -15,6 +15,7 @@
  */
 #include "dump_channel.h"
 
+#include <atomic>
 #include <chrono>
 #include <cstdint>
 #include <optional>
@@ -56,7 +57,9 @@ dump_channel::dump_channel(
 {
     auto now = std::chrono::system_clock::now();
     auto secs_since_epoch = std::chrono::duration_cast<std::chrono::seconds>(now.time_since_epoch()).count();
-    prefix_ = std::string("d") + std::to_string(secs_since_epoch);
+    // dumps started within a second must not share the file names
+    static std::atomic_size_t channel_id_src{0};
+    prefix_ = std::string("d") + std::to_string(secs_since_epoch) + "_" + std::to_string(channel_id_src++);
 }
 
 status dump_channel::acquire(std::shared_ptr<record_writer>& wrt) {
-- 
2.43.0


From 68b0cb7d7d05f9580cf1bfefd98e454aad33aca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:41 +0000
Subject: [PATCH 72/79] fix: loads complete whatever order their blocks
 complete in

---
 src/jogasaki/executor/batch/batch_executor.cpp    |  8 +++-----
 .../executor/batch/batch_file_executor.cpp        | 15 +++++++++++----
 src/jogasaki/executor/batch/batch_file_executor.h | 11 ++++++++++-
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 4beb30f..04e50b5 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -51,7 +51,8 @@ std::pair<bool, bool> batch_executor::create_blocks(std::shared_ptr<batch_file_e
     }
     if(file->remaining_block_count() == 0) {
         // blocks might have been created, but they finished already, so handle as if they are not created
-        block_created = false;
+        // unless the thread that completed the last block finalizes the file
+        block_created = ! file->try_complete();
     }
     return {true, block_created};
 }
@@ -179,10 +180,7 @@ void batch_executor::end_of_file(batch_file_executor *arg) {
 
     auto [f, cnt] = release(arg);
     (void) f;
-
-    if (file) {
-        return;
-    }
+    (void) file; // the next file is possibly complete already, so don't leave finalizing batch to it unconditionally
 
     // no more file
     if(cnt != 0) {
diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index abc805d..3edfdbf 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -158,6 +158,8 @@ std::shared_ptr<batch_execution_state> const &batch_file_executor::state() const
 }
 
 void batch_file_executor::end_of_block(batch_block_executor *arg) {
+    // keep this object by the end of this scope, as other thread possibly releases it once all blocks are complete
+    auto file = shared_from_this();
     auto [success, next] = next_block();
     if(! success) {
         return;
@@ -165,20 +167,25 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
 
     auto [self, cnt] = release(arg); // keep self by the end of this scope
     (void) self;
-
-    if(next) {
-        return;
-    }
+    (void) next; // the next block is possibly complete already, so don't leave finalizing file to it unconditionally
 
     if(cnt != 0) {
         // other block in the file are in progress, so leave finalizing file to it
         return;
     }
+    if(! try_complete()) {
+        // the thread creating blocks of this file has noticed the completion and finalizes the file
+        return;
+    }
 
     if(! parent_) return; //for testing
     parent_->end_of_file(this);
 }
 
+bool batch_file_executor::try_complete() noexcept {
+    return ! completed_.exchange(true);
+}
+
 std::size_t batch_file_executor::remaining_block_count() const noexcept {
     return remaining_block_count_;
 }
diff --git a/src/jogasaki/executor/batch/batch_file_executor.h b/src/jogasaki/executor/batch/batch_file_executor.h
index 08a553a..21e272d 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.h
+++ b/src/jogasaki/executor/batch/batch_file_executor.h
@@ -43,7 +43,7 @@ class batch_executor;
  * @brief batch file executor
  * @details part of the block executor object tree and handles one of the bulk files for batch execution
  */
-class cache_align batch_file_executor {
+class cache_align batch_file_executor : public std::enable_shared_from_this<batch_file_executor> {
 public:
 
     /**
@@ -119,6 +119,14 @@ public:
 
     void end_of_block(batch_block_executor* arg);
 
+    /**
+     * @brief declare the completion of this file
+     * @details all blocks being complete can be noticed by the thread creating the blocks and by the one that completed
+     * the last of them, while only one of them must release the file.
+     * @return true if the caller is the first to declare, and so is in charge of releasing this object
+     * @return false otherwise
+     */
+    bool try_complete() noexcept;
 
 private:
     std::string file_{};
@@ -130,6 +138,7 @@ private:
     std::atomic_size_t next_block_index_{};
     std::size_t block_count_{};
     std::atomic_size_t remaining_block_count_{};
+    std::atomic_bool completed_{false};
 
     /**
      * @brief create new object
-- 
2.43.0


From 7bd19a869fa899a494f3022e21690e661a16d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:15 +0000
Subject: [PATCH 73/79] fix: a failure of the last statement of a load is not
 lost

---
 src/jogasaki/executor/file/loader.cpp | 38 +++++++++++++++++++--------
 src/jogasaki/executor/file/loader.h   |  8 +++++-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index c1f7233..b2893eb 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -170,7 +170,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
         return loader_result::running;
     }
     if (! more_to_read_) {
-        return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+        return completed();
     }
     auto slots = bulk_size_ - running_statement_count_;
     if (slots == 0) {
@@ -183,7 +183,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             if(row_group_ == 0 && next_file_ == files_.end()) {
                 // reading all files completed
                 more_to_read_ = false;
-                return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+                return completed();
             }
 
             reader_option opt{};
@@ -194,10 +194,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             }
             reader_ = parquet_reader::open(current_file_, std::addressof(opt), row_group_);
             if(! reader_) {
-                status_ = status::err_io_error;
-                msg_ = "opening parquet file failed.";
-                VLOG_LP(log_error) << msg_;
-                error_aborting_ = true;
+                set_error(status::err_io_error, "opening parquet file failed.");
                 return loader_result::running;
             }
         }
@@ -226,18 +223,17 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
                 std::shared_ptr<request_statistics> stats  //NOLINT(performance-unnecessary-value-param)
             ){
                 (void) stats; // TODO
-                --running_statement_count_;
                 if(st != status::ok) {
                     std::stringstream ss{};
                     ss << "load failed with the statement position:" << records_loaded_ << " status:" << st
                        << " with message \"" << (info ? info->message() : "") << "\"";
-                    status_ = st;
-                    msg_ = ss.str();
-                    VLOG_LP(log_error) << msg_;  //NOLINT
-                    error_aborting_ = true;
+                    set_error(st, ss.str());
+                    // the loader can complete once the count gets zero, so decrement it after the error is set
+                    --running_statement_count_;
                     return;
                 }
                 ++records_loaded_;
+                --running_statement_count_;
             },
             false,
             req_info_
@@ -246,6 +242,26 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
     return loader_result::running;
 }
 
+loader_result loader::completed() const noexcept {
+    // check the error after the count, since the last statement possibly failed just now
+    if(running_statement_count_ != 0 || error_aborting_) {
+        return loader_result::running;
+    }
+    return loader_result::ok;
+}
+
+void loader::set_error(status st, std::string msg) {
+    VLOG_LP(log_error) << msg;  //NOLINT
+    std::lock_guard lk{error_mutex_};
+    if(error_aborting_) {
+        // keep the original error
+        return;
+    }
+    status_ = st;
+    msg_ = std::move(msg);
+    error_aborting_ = true;
+}
+
 std::atomic_size_t& loader::running_statement_count() noexcept {
     return running_statement_count_;
 }
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index f9c18e1..edf1473 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <iosfwd>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -177,8 +178,13 @@ private:
     bool more_to_read_{true};
     status status_{status::ok};
     std::string msg_{};
-    bool error_aborting_{false};
+    std::mutex error_mutex_{};
+    std::atomic_bool error_aborting_{false};
     bool error_aborted_{false};
+
+    [[nodiscard]] loader_result completed() const noexcept;
+
+    void set_error(status st, std::string msg);
 };
 
 }  // namespace executor::file
-- 
2.43.0


From 5921576781af42cee220e51346f0e73ce87e0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:15 +0000
Subject: [PATCH 74/79] fix: loads discard the records of a query

---
 src/jogasaki/executor/batch/batch_block_executor.cpp | 3 ++-
 src/jogasaki/executor/file/loader.cpp                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_block_executor.cpp b/src/jogasaki/executor/batch/batch_block_executor.cpp
index a5c5b06..5dff7c3 100644
--- a/src/jogasaki/executor/batch/batch_block_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_block_executor.cpp
@@ -40,6 +40,7 @@
 #include <jogasaki/executor/file/file_reader.h>
 #include <jogasaki/executor/file/loader.h>
 #include <jogasaki/executor/file/parquet_reader.h>
+#include <jogasaki/executor/io/null_record_channel.h>
 #include <jogasaki/executor/process/impl/variable_table_info.h>
 #include <jogasaki/kvs/transaction_option.h>
 #include <jogasaki/logging.h>
@@ -210,7 +211,7 @@ std::pair<bool, bool> batch_block_executor::next_statement() {
         tx_,
         info_.statement(),
         std::move(ps),
-        nullptr,
+        std::make_shared<io::null_record_channel>(), // discard the results if any
         [&, state = state_, root = std::move(r)](
             status st,
             std::shared_ptr<error::error_info> err_info,  //NOLINT(performance-unnecessary-value-param)
diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index b2893eb..13cb2b3 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -35,6 +35,7 @@
 #include <jogasaki/executor/executor.h>
 #include <jogasaki/executor/file/file_reader.h>
 #include <jogasaki/executor/file/parquet_reader.h>
+#include <jogasaki/executor/io/null_record_channel.h>
 #include <jogasaki/executor/process/impl/variable_table_info.h>
 #include <jogasaki/logging.h>
 #include <jogasaki/logging_helper.h>
@@ -216,7 +217,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             tx_,
             statement_,
             std::move(ps),
-            nullptr,
+            std::make_shared<io::null_record_channel>(), // discard the results if any
             [&](
                 status st,
                 std::shared_ptr<error::error_info> info,  //NOLINT(performance-unnecessary-value-param)
-- 
2.43.0


From 2949666a6d867ad847380f15aaab442e86fc9968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:57 +0000
Subject: [PATCH 75/79] fix: a channel that cannot provide a writer is not an
 internal error

---
 src/jogasaki/executor/io/writer_seat.cpp | 7 ++++---
 src/jogasaki/executor/io/writer_seat.h   | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jogasaki/executor/io/writer_seat.cpp b/src/jogasaki/executor/io/writer_seat.cpp
index 32bc575..7594460 100644
--- a/src/jogasaki/executor/io/writer_seat.cpp
+++ b/src/jogasaki/executor/io/writer_seat.cpp
@@ -54,9 +54,10 @@ std::shared_ptr<record_writer> const& writer_seat::writer() {
     assert_with_exception(channel_ != nullptr, channel_);
 
     if (! writer_) {
-        auto res = channel_->acquire(writer_);
-        // acquire never fails here because reserved seat ensures that a writer can be acquired
-        assert_with_exception(res == status::ok, res);
+        if (channel_->acquire(writer_) != status::ok) {
+            // a reserved seat ensures that the number of writers is within the limit, but the channel can still fail
+            writer_ = nullptr;
+        }
     }
     return writer_;
 }
diff --git a/src/jogasaki/executor/io/writer_seat.h b/src/jogasaki/executor/io/writer_seat.h
index 549ccfb..514a40d 100644
--- a/src/jogasaki/executor/io/writer_seat.h
+++ b/src/jogasaki/executor/io/writer_seat.h
@@ -76,7 +76,8 @@ public:
      * lazily acquired from the underlying channel the first time this function is called.
      * @return reference to the acquired writer
      * @pre the seat must be reserved. Otherwise, behavior is undefined.
-     * @post after calling this function, has_writer() returns true.
+     * @return reference to nullptr if the channel failed to provide the writer
+     * @post after calling this function, has_writer() returns true unless the channel failed.
      */
     std::shared_ptr<record_writer> const& writer();
 
-- 
2.43.0


From a85c19976a973856f14c19f817f8a250b8159f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:57 +0000
Subject: [PATCH 76/79] fix: an internal error of a task does not finish the
 request under its other tasks

---
 .../process/impl/process_executor.cpp         | 21 ++++++++++++++-----
 src/jogasaki/scheduler/flat_task.cpp          |  3 ++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/process_executor.cpp b/src/jogasaki/executor/process/impl/process_executor.cpp
index 32c70e1..dbb7ab0 100644
--- a/src/jogasaki/executor/process/impl/process_executor.cpp
+++ b/src/jogasaki/executor/process/impl/process_executor.cpp
@@ -78,14 +78,25 @@ process_executor::status process_executor::run() {
         impl_ctx->writer_seat() = std::move(seat);
     }
 
+    auto release_seat = [&]() {
+        if (needs_seat) {
+            rctx->writer_pool()->release(std::move(impl_ctx->writer_seat()));
+            VLOG_LP(log_trace) << "writer_pool::release() success";
+        }
+    };
+
     // execute task
-    auto rc = processor_->run(context.get());
+    process_executor::status rc{};
+    try {
+        rc = processor_->run(context.get());
+    } catch(...) {
+        // otherwise other tasks would wait for the seat forever
+        release_seat();
+        throw;
+    }
 
     // release seat if acquired
-    if (needs_seat) {
-        rctx->writer_pool()->release(std::move(impl_ctx->writer_seat()));
-        VLOG_LP(log_trace) << "writer_pool::release() success";
-    }
+    release_seat();
 
     switch(rc) {
         case status::completed:
diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 2c2645c..639272a 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -352,8 +352,9 @@ bool flat_task::execute_with_catch(tateyama::task_scheduler::context& ctx) {
 
         // try to complete the current job in order to reply back to client.
         // Otherwise, the request appears to remain running and shutdown of session or database is hindered.
-        job_completes = true;
         set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
+        // other tasks of the job may still refer the request context, so the job is finished after them
+        job_completes = kind_ == flat_task_kind::teardown || check_or_submit_teardown(*req_context_, true);
     }
     return job_completes;
 
-- 
2.43.0


From 76981624d1732aa67c62c8240ddd6cb4826b1fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:16 +0000
Subject: [PATCH 77/79] fix: a refused commit is not logged as a second end of
 the transaction

---
 src/jogasaki/executor/executor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index e5ae51f..bb752cc 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1067,7 +1067,8 @@ scheduler::job_context::job_id_type commit_async(
             << utils::hex(jobid);
 
         auto handle_error = [](request_context& rctx) {
-            log_end_of_tx_and_commit_request(rctx);
+            // only the request ends here - the end of the transaction is logged by those who terminate it
+            log_end_of_commit_request(rctx);
             rctx.commit_ctx()->on_error()(commit_response_kind::available, rctx.status_code(), rctx.error_info());
             scheduler::submit_teardown(rctx, true);
         };
-- 
2.43.0


From 36eb3ff144532ce595aa72e1a9609555110c6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:16 +0000
Subject: [PATCH 78/79] fix: a statement refused before its execution is logged
 as finished

---
 src/jogasaki/executor/executor.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index bb752cc..2ef7adc 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -758,15 +758,27 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
     external_log_stmt_start(*rctx, req_info, statement);
     external_log_stmt_explain(database, *rctx, req_info, statement);
 
+    // the statement is logged as started, so it must be logged as finished even if it is refused below
+    auto on_refused = [&](
+        status st,
+        std::shared_ptr<error::error_info> info,
+        std::shared_ptr<request_statistics> stats
+    ) {
+        rctx->status_code(st);
+        rctx->error_info(info);
+        external_log_stmt_end(*rctx, req_info, statement);
+        on_completion(st, std::move(info), std::move(stats));
+    };
+
     // currently only DML is checked, but in future, DDL should be checked too.
     if (e->is_execute() || (!e->is_ddl() && !e->is_empty())) {
-        if(! validate_authorization(*rctx, *e, req_info, on_completion)) {
+        if(! validate_authorization(*rctx, *e, req_info, on_refused)) {
             finish_refused_job(rctx, statement, sync);
             return true; // false is for unrecoverable abnormal error. This case is normal error.
         }
     }
 
-    if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_completion)) {
+    if(rctx->transaction() && ! validate_transaction(*rctx->transaction(), on_refused)) {
         finish_refused_job(rctx, statement, sync);
         return true; // inactive tx error - this is normal error so return true
     }
@@ -779,7 +791,7 @@ bool execute_async_on_context(  //NOLINT(readability-function-cognitive-complexi
             }
             auto msg = "DML operation was blocked by DDL operation";
             auto res = status::err_illegal_operation;
-            on_completion(res,
+            on_refused(res,
                 create_error_info(
                     error_code::sql_execution_exception,
                     msg,
-- 
2.43.0


From a5fec45a2698e4eb022b501ae0ef93b3080a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:07 +0000
Subject: [PATCH 79/79] fix: a stream assigned to wakes the consumers waiting
 on it

---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..b062df6 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all(); // what was moved in may be what a consumer of this stream waits for
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0

