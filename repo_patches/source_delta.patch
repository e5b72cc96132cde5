From 8377a98f638c74e53b84c02186a18cc256e4de47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 01/69] fix: Queue::clone copies every element of non-trivial
 types

---
 rpp/queue.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index d036f02..2534086 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -77,17 +77,15 @@ struct Queue {
         if constexpr(Trivially_Copyable<T>) {
             Libc::memcpy(ret.data_, data_, capacity_ * sizeof(T));
         } else if constexpr(Clone<T>) {
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i].clone()};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx].clone()};
             }
         } else {
             static_assert(Copy_Constructable<T>);
-            u64 start = start_idx();
-            u64 end = end_idx();
-            for(u64 i = start; i != end; i = i == capacity_ - 1 ? 0 : i + 1) {
-                new(&ret.data_[i]) T{data_[i]};
+            for(u64 i = 0; i < length_; i++) {
+                u64 idx = idx_at(i);
+                new(&ret.data_[idx]) T{data_[idx]};
             }
         }
         return ret;
-- 
2.43.0


From 2995aac5f6bb51642bc82521c4002e4fb2e8f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:13 +0000
Subject: [PATCH 02/69] fix: Queue::erase_first moves later elements back over
 the erased one

---
 rpp/queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index 2534086..f9e0c4d 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -244,11 +244,12 @@ struct Queue {
         while(consumed < length_) {
             u64 next = idx == capacity_ - 1 ? 0 : idx + 1;
             if(found) {
+                u64 prev = idx == 0 ? capacity_ - 1 : idx - 1;
                 if constexpr(Trivially_Movable<T>) {
-                    Libc::memcpy(&data_[next], &data_[idx], sizeof(T));
+                    Libc::memcpy(&data_[prev], &data_[idx], sizeof(T));
                 } else {
                     static_assert(Move_Constructable<T>);
-                    new(&data_[next]) T{rpp::move(data_[idx])};
+                    new(&data_[prev]) T{rpp::move(data_[idx])};
                 }
             } else if(data_[idx] == value) {
                 if constexpr(Must_Destruct<T>) {
-- 
2.43.0


From cca8711c0e8d33765b216c40a2aa2826cf6e0107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 03/69] fix: Map::get_or_insert(K&&) compiles

---
 rpp/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/map.h b/rpp/map.h
index d3ddf09..4b1e39d 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -330,7 +330,7 @@ struct Map {
         requires Default_Constructable<V>
     {
         Opt<Ref<V>> entry = try_get(key);
-        if(entry) {
+        if(entry.ok()) {
             return **entry;
         }
         return insert(rpp::move(key), V{});
-- 
2.43.0


From 7c3924c20a2f2caf5e8d5d17895ed3df5beba4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 04/69] fix: Map::insert and emplace do not count an
 overwritten key twice

---
 rpp/map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 4b1e39d..c3cf954 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -163,6 +163,7 @@ struct Map {
         Libc::memset(data_, 0, capacity_ * sizeof(Slot));
         usable_ = (capacity_ / 4) * 3;
         shift_ = Math::ctlz(capacity_) + 1;
+        length_ = 0;
 
         for(u64 i = 0; i < old_capacity; i++) {
             if(old_data[i].hash != Slot::EMPTY)
@@ -219,7 +220,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), rpp::move(value)};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -229,7 +229,6 @@ struct Map {
         if(full()) grow();
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
         Slot& placed = insert_slot(rpp::move(slot));
-        length_ += 1;
         return placed.data->second;
     }
 
@@ -412,6 +411,7 @@ private:
             u64 hash = data_[idx].hash;
             if(hash == Slot::EMPTY) {
                 data_[idx] = rpp::move(slot);
+                length_ += 1;
                 return placement ? *placement : data_[idx];
             }
             if(hash == slot.hash && data_[idx].data->first == slot.data->first) {
-- 
2.43.0


From 5c65083590c3fad58d983f678f49a3cda4be23f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 05/69] fix: Map capacities are powers of two of at least four
 slots

---
 rpp/map.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index c3cf954..629afb0 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -78,12 +78,7 @@ struct Map {
     Map() noexcept = default;
 
     explicit Map(u64 capacity) noexcept {
-        capacity_ = Math::next_pow2(capacity);
-        shift_ = Math::ctlz(capacity_) + 1;
-        usable_ = (capacity_ / 4) * 3;
-        length_ = 0;
-        data_ = reinterpret_cast<Slot*>(A::alloc(capacity_ * sizeof(Slot)));
-        Libc::memset(data_, 0, capacity_ * sizeof(Slot));
+        if(capacity) reserve(capacity);
     }
 
     template<typename... Ss>
@@ -154,6 +149,7 @@ struct Map {
 
     void reserve(u64 new_capacity) noexcept {
         if(new_capacity <= capacity_) return;
+        new_capacity = new_capacity < MIN_CAPACITY ? MIN_CAPACITY : Math::next_pow2(new_capacity);
 
         Slot* old_data = data_;
         u64 old_capacity = capacity_;
@@ -461,6 +457,9 @@ private:
         }
     }
 
+    // At least one slot must always be empty.
+    constexpr static u64 MIN_CAPACITY = 4;
+
     Slot* data_ = null;
     u64 capacity_ = 0;
     u64 length_ = 0;
-- 
2.43.0


From 95932c9254eafc6618a7d335776c249cdc5d0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 06/69] fix: Map::get(String_View) on an empty map dies instead
 of reading null

---
 rpp/map.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 629afb0..8d6f536 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -285,10 +285,9 @@ struct Map {
     [[nodiscard]] V& get(String_View key) noexcept
         requires(Any_String<K>)
     {
-        if(auto idx = try_get_<String_View>(key); idx.ok()) {
-            return data_[*idx].data->second;
-        }
-        die("Failed to find key %!", key);
+        Opt<Ref<V>> value = try_get(key);
+        if(!value.ok()) die("Failed to find key %!", key);
+        return **value;
     }
 
     [[nodiscard]] bool contains(const K& key) const noexcept {
-- 
2.43.0


From 3ea87d7472bb8d678c06c8a8424ee5d81590e422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:11 +0000
Subject: [PATCH 07/69] fix: equal floating point zeros hash equally

---
 rpp/hash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/hash.h b/rpp/hash.h
index 206eba5..632a018 100644
--- a/rpp/hash.h
+++ b/rpp/hash.h
@@ -54,6 +54,7 @@ struct Hash<char> {
 template<>
 struct Hash<f32> {
     [[nodiscard]] static u64 hash(f32 key) noexcept {
+        if(key == 0.0f) key = 0.0f; // -0.0f == 0.0f
         return squirrel5(static_cast<u64>(*reinterpret_cast<u32*>(&key)));
     }
 };
@@ -61,6 +62,7 @@ struct Hash<f32> {
 template<>
 struct Hash<f64> {
     [[nodiscard]] static u64 hash(f64 key) noexcept {
+        if(key == 0.0) key = 0.0; // -0.0 == 0.0
         return squirrel5(*reinterpret_cast<u64*>(&key));
     }
 };
-- 
2.43.0


From 766f05abccf01c2114f11bdeccc4c4b1ad6fbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 08/69] fix: Box move assignment from a box owned by the old
 value

---
 rpp/box.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/box.h b/rpp/box.h
index c8c2c2d..e100883 100644
--- a/rpp/box.h
+++ b/rpp/box.h
@@ -40,9 +40,11 @@ struct Box {
         src.data_ = null;
     }
     Box& operator=(Box&& src) noexcept {
-        this->~Box();
-        data_ = src.data_;
+        // src may be owned by the current value, so take its data first.
+        T* data = src.data_;
         src.data_ = null;
+        this->~Box();
+        data_ = data;
         return *this;
     }
 
-- 
2.43.0


From 9bee797f67c48cdcf934e1240cbf6b87898bd581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 09/69] fix: Rc and Arc move assignment from a handle owned by
 the old value

---
 rpp/rc.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/rc.h b/rpp/rc.h
index 1012d2c..d57480d 100644
--- a/rpp/rc.h
+++ b/rpp/rc.h
@@ -81,9 +81,11 @@ struct Rc {
         src.data_ = null;
     }
     Rc& operator=(Rc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may be owned by the current value, so take its data first.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
@@ -184,9 +186,11 @@ struct Arc {
         src.data_ = null;
     }
     Arc& operator=(Arc&& src) noexcept {
-        drop();
-        data_ = src.data_;
+        // src may be owned by the current value, so take its data first.
+        Data* data = src.data_;
         src.data_ = null;
+        drop();
+        data_ = data;
         return *this;
     }
 
-- 
2.43.0


From a0a92257fca78aa55d9c5f86150c4b9b976bf722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 10/69] fix: Mpool accepts types whose size is not a power of
 two

---
 rpp/alloc1.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/alloc1.h b/rpp/alloc1.h
index 2f89c61..f5753b8 100644
--- a/rpp/alloc1.h
+++ b/rpp/alloc1.h
@@ -57,7 +57,8 @@ private:
     using Backing = Mallocator<name>;
 
     struct Block {
-        alignas(Math::min<u64>(N, 16)) u8 data[N];
+        // A type's size is a multiple of its alignment, so no T needs more than this.
+        alignas(Math::min<u64>(N & (~N + 1), 16)) u8 data[N];
     };
 
     struct Finalizer {
-- 
2.43.0


From 49b4cf4eed7f7bc63530ff5ef6e6678d04108369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:17 +0000
Subject: [PATCH 11/69] fix: Region allocations are aligned for every
 fundamental and SIMD type

---
 rpp/impl/alloc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index e5efca6..9cc2425 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -10,12 +10,15 @@ static Thread::Atomic g_net_allocs;
 
 using Regions = Mallocator<"Regions", false>;
 
-struct Chunk {
+// Allocations are aligned like malloc's, so any fundamental or SIMD type can be stored.
+constexpr u64 REGION_ALIGN = 16;
+
+struct alignas(REGION_ALIGN) Chunk {
     Chunk* up = null;
     u64 size = 0;
     u64 used = 0;
 };
-static_assert(sizeof(Chunk) == 24);
+static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
@@ -49,6 +52,8 @@ static void assert_brand(Region brand) noexcept {
 
 [[nodiscard]] void* Region_Allocator::alloc(Region brand, u64 size) noexcept {
     assert_brand(brand);
+
+    size = Math::align_pow2(size, REGION_ALIGN);
     if(chunks->size - chunks->used < size) {
         new_chunk(size);
     }
-- 
2.43.0


From 7bda12de447aa8412c56cf63d117f3d732b21b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 12/69] fix: exceeding the region depth limit reports a fatal
 error instead of overflowing the stack

---
 rpp/impl/alloc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/impl/alloc.cpp b/rpp/impl/alloc.cpp
index 9cc2425..1db6a44 100644
--- a/rpp/impl/alloc.cpp
+++ b/rpp/impl/alloc.cpp
@@ -22,6 +22,8 @@ static_assert(sizeof(Chunk) == 32);
 
 constexpr u64 FIRST_CHUNK_SIZE = Math::KB(1);
 constexpr u64 MAX_REGION_DEPTH = 128;
+// Reporting that the limit was exceeded uses regions itself.
+constexpr u64 RESERVED_REGION_DEPTH = 16;
 
 struct First_Chunk {
     Chunk chunk = {null, FIRST_CHUNK_SIZE - sizeof(Chunk), 0};
@@ -30,8 +32,8 @@ struct First_Chunk {
 static_assert(sizeof(First_Chunk) == FIRST_CHUNK_SIZE);
 
 thread_local u64 current_region = 0;
-thread_local u64 region_offsets[MAX_REGION_DEPTH] = {};
-thread_local Region region_brands[MAX_REGION_DEPTH] = {};
+thread_local u64 region_offsets[MAX_REGION_DEPTH + RESERVED_REGION_DEPTH] = {};
+thread_local Region region_brands[MAX_REGION_DEPTH + RESERVED_REGION_DEPTH] = {};
 thread_local First_Chunk first_chunk;
 thread_local Chunk* chunks = &first_chunk.chunk;
 
@@ -69,7 +71,7 @@ void Region_Allocator::free(Region brand, void*) noexcept {
 
 void Region_Allocator::begin(Region brand) noexcept {
     current_region++;
-    assert(current_region < MAX_REGION_DEPTH);
+    assert(current_region != MAX_REGION_DEPTH);
     region_offsets[current_region] = region_offsets[current_region - 1];
     region_brands[current_region] = brand;
 }
-- 
2.43.0


From f5e46fc8b49cd7b7111377e20607256adb1df4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 13/69] fix: Range_Allocator rejects requests whose padded size
 overflows

---
 rpp/range_allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d65b490..d320458 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -90,7 +90,7 @@ struct Range_Allocator {
         u64 padding = 0;
         while(block) {
             padding = Math::align(block->start, alignment) - block->start;
-            if(block->size >= size + padding) {
+            if(block->size >= padding && block->size - padding >= size) {
                 break;
             }
             block = block->next_free;
-- 
2.43.0


From 02af140da6f2494d36aa5af1246f32805db24ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 14/69] fix: a moved-to Range_Allocator keeps a usable mutex

---
 rpp/range_allocator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index d320458..523a8cd 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -30,7 +30,12 @@ struct Range_Allocator {
         *this = rpp::move(src);
     }
     Range_Allocator& operator=(Range_Allocator&& src) noexcept {
-        this->~Range_Allocator();
+        if(this == &src) return *this;
+        {
+            // The mutex must outlive the move.
+            Thread::Lock lock(mutex);
+            reset();
+        }
 
         Thread::Lock lock(src.mutex);
 
-- 
2.43.0


From 40482b2c3c4fc75aff1df17434c164b8da172da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 15/69] fix: Range_Allocator::statistics reads a consistent
 snapshot

---
 rpp/range_allocator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/range_allocator.h b/rpp/range_allocator.h
index 523a8cd..dfb5e1f 100644
--- a/rpp/range_allocator.h
+++ b/rpp/range_allocator.h
@@ -218,6 +218,7 @@ struct Range_Allocator {
     };
 
     [[nodiscard]] Stats statistics() noexcept {
+        Thread::Lock lock(mutex);
         return stats;
     }
 
-- 
2.43.0


From 0a8800bc1eed2180bccf9ab41e3a8b157c45f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 16/69] fix: strings compare every byte, including after an
 embedded NUL

---
 rpp/string0.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rpp/string0.h b/rpp/string0.h
index d692e42..d0679b9 100644
--- a/rpp/string0.h
+++ b/rpp/string0.h
@@ -198,8 +198,7 @@ template<Allocator A>
 
 [[nodiscard]] constexpr bool operator==(String_View l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 [[nodiscard]] constexpr bool operator<(String_View l, String_View r) noexcept {
@@ -214,22 +213,19 @@ template<Allocator A>
 template<Allocator A>
 [[nodiscard]] bool operator==(const String<A>& l, String_View r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator B>
 [[nodiscard]] bool operator==(String_View l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
 [[nodiscard]] bool operator==(const String<A>& l, const String<B>& r) noexcept {
     if(l.length() != r.length()) return false;
-    return Libc::strncmp(reinterpret_cast<const char*>(l.data()),
-                         reinterpret_cast<const char*>(r.data()), l.length()) == 0;
+    return Libc::memcmp(l.data(), r.data(), l.length()) == 0;
 }
 
 template<Allocator A, Allocator B>
-- 
2.43.0


From bd7cf39acbcfc97a53c044739fbb9653aba301f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 17/69] fix: path helpers see a separator or dot in the first
 byte

---
 rpp/string1.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index bdf9b9c..442cba8 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -66,48 +66,36 @@ template<Allocator RA>
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::file_extension() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    u64 i = length_ - 1;
-    u64 offset = 0;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '.' || data_[i] == '\\' || data_[i] == '/') {
-            offset = 1;
-            break;
-        }
+        if(data_[i - 1] == '.' || data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_ + i + offset, length_ - i - offset};
+    return String_View{data_ + i, length_ - i};
 }
 
 [[nodiscard]] constexpr String_View String_View::remove_file_suffix() const noexcept {
 
     if(length_ == 0) return String_View{};
 
-    bool found = 0;
-    u64 i = length_ - 1;
+    u64 i = length_;
 
     for(; i != 0; i--) {
-        if(data_[i] == '\\' || data_[i] == '/') {
-            found = 1;
-            break;
-        }
+        if(data_[i - 1] == '\\' || data_[i - 1] == '/') break;
     }
-    return String_View{data_, i + found};
+    return String_View{data_, i};
 }
 
 template<Allocator A>
-- 
2.43.0


From a8e3b3d98d1acf96836d327f331fdb865cedde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 18/69] fix: parse_string accepts one-character tokens and
 drops a trailing separator

---
 rpp/format1.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rpp/format1.h b/rpp/format1.h
index 3b8215f..ef333a8 100644
--- a/rpp/format1.h
+++ b/rpp/format1.h
@@ -59,16 +59,14 @@ template<Enum E>
     while(start < s.length() && ascii::is_whitespace(s[start])) {
         start++;
     }
-    for(u64 i = start; i < s.length(); i++) {
-        if((i + 1 == s.length() && start < i)) {
-            return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, i + 1), String_View{}}};
-        }
-        if(ascii::is_whitespace(s[i])) {
-            return Opt<Pair<String_View, String_View>>{
-                Pair{s.sub(start, i), s.sub(i + 1, s.length())}};
-        }
+    if(start == s.length()) return {};
+    u64 end = start;
+    while(end < s.length() && !ascii::is_whitespace(s[end])) {
+        end++;
     }
-    return {};
+    String_View rest;
+    if(end < s.length()) rest = s.sub(end + 1, s.length());
+    return Opt<Pair<String_View, String_View>>{Pair{s.sub(start, end), rpp::move(rest)}};
 }
 
 template<Enum E>
-- 
2.43.0


From 24236fcf1c5aa24168d3d6b12c2e1b2df9c1037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 19/69] fix: String::write bounds check cannot overflow

---
 rpp/string1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/string1.h b/rpp/string1.h
index 442cba8..09fb368 100644
--- a/rpp/string1.h
+++ b/rpp/string1.h
@@ -108,14 +108,14 @@ template<Allocator A>
 template<Allocator A>
 template<Allocator B>
 [[nodiscard]] u64 String<A>::write(u64 i, const String<B>& text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
 
 template<Allocator A>
 [[nodiscard]] u64 String<A>::write(u64 i, String_View text) noexcept {
-    assert(i + text.length() <= length_);
+    assert(i <= length_ && text.length() <= length_ - i);
     Libc::memcpy(data_ + i, text.data(), text.length());
     return i + text.length();
 }
-- 
2.43.0


From 9f0e10d1674bc5a284bffc473b021ee8fc51d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:53 +0000
Subject: [PATCH 20/69] fix: unsubscribing an unknown log token dies instead of
 deadlocking

---
 rpp/impl/log.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 11dc892..c133313 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -185,11 +185,16 @@ subscribe(Function<void(Level, Thread::Id, Time, Location, String_View)> f) noex
 }
 
 void unsubscribe(Token token) noexcept {
-    Thread::Lock lock(g_log_data.lock);
-    g_log_data.callbacks.erase(token);
-    if(g_log_data.callbacks.empty()) {
-        g_log_data.callbacks.~Map();
+    bool found = false;
+    {
+        Thread::Lock lock(g_log_data.lock);
+        found = g_log_data.callbacks.try_erase(token);
+        if(found && g_log_data.callbacks.empty()) {
+            g_log_data.callbacks.~Map();
+        }
     }
+    // A failed assert logs, so it must not run under the log lock.
+    assert(found);
 }
 
 } // namespace Log
-- 
2.43.0


From f9d3737d36698e061a6e7465a9d02fb283e46384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:29 +0000
Subject: [PATCH 21/69] fix: re-entering a profile scope restarts that scope,
 not its parent

---
 rpp/impl/profile.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index f1b40a3..c536181 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -117,26 +117,22 @@ void Profile::enter(Log::Location loc) noexcept {
 
 void Profile::Frame_Profile::enter(Log::Location loc) noexcept {
 
-    bool repeat = false;
     Timing_Node& node = nodes[current_node];
 
     for(u64 child_idx : node.children) {
         Timing_Node& child = nodes[child_idx];
         if(child.loc == loc) {
             current_node = child_idx;
-            repeat = true;
+            child.begin = timestamp();
+            child.calls++;
+            return;
         }
     }
 
-    if(!repeat) {
-        u64 child_idx = nodes.length();
-        node.children.push(child_idx);
-        nodes.push(Timing_Node::make(rpp::move(loc), current_node));
-        current_node = child_idx;
-    } else {
-        node.begin = timestamp();
-        node.calls++;
-    }
+    u64 child_idx = nodes.length();
+    node.children.push(child_idx);
+    nodes.push(Timing_Node::make(rpp::move(loc), current_node));
+    current_node = child_idx;
 }
 
 void Profile::exit() noexcept {
-- 
2.43.0


From 430182af80dea5f333d0fd08ef256d4b5ec16a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 22/69] fix: a thread may end, or the profile be finalized,
 inside a frame

---
 rpp/profile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index 62d2369..dc26bd1 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -141,9 +141,9 @@ private:
         }
 
         void finalize() noexcept {
-            frames = {};
             if(during_frame) Profile::end_frame();
             if(registered) Profile::unregister_thread();
+            frames = {};
         }
 
         bool ready() noexcept {
-- 
2.43.0


From 5dcfe3cd0a94ed291fd7eba45caf2df506872466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 23/69] fix: allocations in thread-local destructors do not
 lock a destroyed profile mutex

---
 rpp/impl/profile.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rpp/impl/profile.cpp b/rpp/impl/profile.cpp
index c536181..f7d3d70 100644
--- a/rpp/impl/profile.cpp
+++ b/rpp/impl/profile.cpp
@@ -185,11 +185,11 @@ void Profile::alloc(Alloc a) noexcept {
                 }
             }
         }
-        {
+        // Only this thread writes during_frame. The lock may already be destroyed if we are called
+        // from another thread_local destructor, in which case the thread is not in a frame.
+        if(this_thread.during_frame) {
             Thread::Lock lock(this_thread.frames_lock);
-            if(this_thread.during_frame) {
-                this_thread.frames.back().allocations.push(rpp::move(a));
-            }
+            this_thread.frames.back().allocations.push(rpp::move(a));
         }
     }
 }
-- 
2.43.0


From fc3cf32e834d9bde7c66f5e9ec89228baa318181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:30 +0000
Subject: [PATCH 24/69] fix: assigning to a Lock releases the mutex it holds

---
 rpp/thread0.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rpp/thread0.h b/rpp/thread0.h
index efe4e20..44ceedb 100644
--- a/rpp/thread0.h
+++ b/rpp/thread0.h
@@ -64,7 +64,11 @@ struct Lock {
     Lock& operator=(const Lock&) noexcept = delete;
 
     Lock(Lock&& src) noexcept = default;
-    Lock& operator=(Lock&& src) noexcept = default;
+    Lock& operator=(Lock&& src) noexcept {
+        this->~Lock();
+        mutex_ = rpp::move(src.mutex_);
+        return *this;
+    }
 
 private:
     Ref<Mutex> mutex_;
-- 
2.43.0


From 6e6bd8556dfba11ecd60ec96dd064d2a2c9bf228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 25/69] fix: iterate_timings callbacks may allocate and trace
 during a frame

---
 rpp/profile.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rpp/profile.h b/rpp/profile.h
index dc26bd1..2996d1c 100644
--- a/rpp/profile.h
+++ b/rpp/profile.h
@@ -86,20 +86,26 @@ struct Profile {
 
             Thread::Id id = entry.first;
             Thread_Profile& thread = *entry.second;
-            Thread::Lock frames_lock(thread.frames_lock);
+
+            // Only the owning thread changes its frames, so it may read them without the lock.
+            // This lets f trace and allocate.
+            bool own = &thread == &this_thread;
+            if(!own) thread.frames_lock.lock();
 
             Frame_Profile* frame = null;
             if(thread.during_frame && thread.frames.length() > 1u) {
                 frame = &thread.frames.penultimate();
             } else if(!thread.during_frame && !thread.frames.empty()) {
                 frame = &thread.frames.back();
-            } else {
-                continue;
             }
 
-            for(auto& node : frame->nodes) {
-                f(id, node);
+            if(frame) {
+                for(auto& node : frame->nodes) {
+                    f(id, node);
+                }
             }
+
+            if(!own) thread.frames_lock.unlock();
         }
     }
 
-- 
2.43.0


From 38f4edd74787cd32fbdb0bcd7b7a4658cbfb4fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 26/69] fix: Flag::block continues waiting when interrupted by
 a signal

---
 rpp/pos/thread_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index 949ec4a..bee9967 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -161,7 +161,7 @@ void Flag::block() noexcept {
 #ifdef RPP_OS_LINUX
     while(__atomic_load_n(&value_, __ATOMIC_SEQ_CST) == 0) {
         int ret = syscall(SYS_futex, &value_, FUTEX_WAIT, 0, NULL, NULL, 0);
-        if(ret == -1 && errno != EAGAIN) {
+        if(ret == -1 && errno != EAGAIN && errno != EINTR) {
             die("Failed to wait on futex: %", error(errno));
         }
     }
-- 
2.43.0


From 348c84eb1519c0f7aa018ad0cec1320cfe2b15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 27/69] fix: Thread::sleep sleeps for the whole interval

---
 rpp/pos/thread_pos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/thread_pos.cpp b/rpp/pos/thread_pos.cpp
index bee9967..f857e53 100644
--- a/rpp/pos/thread_pos.cpp
+++ b/rpp/pos/thread_pos.cpp
@@ -17,6 +17,7 @@
 #include <errno.h>
 #include <string.h>
 #include <sys/syscall.h>
+#include <time.h>
 #include <unistd.h>
 
 namespace rpp::Thread {
@@ -35,7 +36,12 @@ namespace rpp::Thread {
 static_assert(sizeof(Id) == sizeof(pthread_t), "Id != pthread_t");
 
 void sleep(u64 ms) noexcept {
-    usleep(ms * 1000);
+    // usleep takes a 32-bit count, and both calls return early when a signal is handled.
+    struct timespec left;
+    left.tv_sec = static_cast<time_t>(ms / 1000);
+    left.tv_nsec = static_cast<long>((ms % 1000) * 1000000);
+    while(nanosleep(&left, &left) == -1 && errno == EINTR) {
+    }
 }
 
 [[nodiscard]] u64 id_len() noexcept {
-- 
2.43.0


From d19bd8f667f941e1cac88790d0745653e5e35bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 28/69] fix: resetting an event that is not signaled does
 nothing

---
 rpp/pos/async_pos.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 7877f47..8a06eb3 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -56,7 +56,8 @@ void Event::signal() const noexcept {
 void Event::reset() const noexcept {
     u64 value = 0;
     int ret = read(fd, &value, sizeof(value));
-    if(ret == -1) {
+    // EAGAIN means that the event was not signaled.
+    if(ret == -1 && errno != EAGAIN) {
         die("Failed to reset event: %", Log::sys_error());
     }
 }
-- 
2.43.0


From 8741bcfbb048100f2872f2a33a4988049b2df6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 29/69] fix: Event::try_wait reports whether the event is
 signaled

---
 rpp/pos/async_pos.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index 8a06eb3..b4fc97f 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -1,6 +1,8 @@
 
 #include "../async.h"
 
+#include <errno.h>
+#include <poll.h>
 #include <sys/epoll.h>
 #include <sys/eventfd.h>
 #include <unistd.h>
@@ -63,7 +65,19 @@ void Event::reset() const noexcept {
 }
 
 [[nodiscard]] bool Event::try_wait() const noexcept {
-    return false;
+    pollfd poll_fd = {};
+    poll_fd.fd = fd;
+    poll_fd.events = static_cast<short>(mask);
+
+    int ret;
+    do {
+        ret = poll(&poll_fd, 1, 0);
+    } while(ret == -1 && errno == EINTR);
+
+    if(ret == -1) {
+        die("Failed to check event: %", Log::sys_error());
+    }
+    return ret > 0;
 }
 
 [[nodiscard]] u64 Event::wait_any(Slice<Event> events) noexcept {
-- 
2.43.0


From 739919895e36368004a652c46e398de2a6e3bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 30/69] fix: Event::wait_any continues waiting when interrupted
 by a signal

---
 rpp/pos/async_pos.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpp/pos/async_pos.cpp b/rpp/pos/async_pos.cpp
index b4fc97f..d99cd51 100644
--- a/rpp/pos/async_pos.cpp
+++ b/rpp/pos/async_pos.cpp
@@ -98,7 +98,10 @@ void Event::reset() const noexcept {
     }
 
     epoll_event ev;
-    int ret = epoll_wait(epfd, &ev, 1, -1);
+    int ret;
+    do {
+        ret = epoll_wait(epfd, &ev, 1, -1);
+    } while(ret == -1 && errno == EINTR);
 
     if(ret == -1) {
         die("Failed to wait on events: %", Log::sys_error());
-- 
2.43.0


From 99361cb386f4837e89f2a5719baa0b0b23d796bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:13 +0000
Subject: [PATCH 31/69] fix: waiting for zero milliseconds completes

---
 rpp/pos/asyncio_pos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 8748b85..264d82d 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -74,6 +74,8 @@ namespace rpp::Async {
     itimerspec spec = {};
     spec.it_value.tv_sec = ms / 1000;
     spec.it_value.tv_nsec = (ms % 1000) * 1000000;
+    // An all-zero value would disarm the timer.
+    if(ms == 0) spec.it_value.tv_nsec = 1;
 
     if(timerfd_settime(fd, 0, &spec, null) == -1) {
         die("Failed to set timerfd: %", Log::sys_error());
-- 
2.43.0


From d0e26464012ccc0e5abaf16403ffcc2a398ab30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:27 +0000
Subject: [PATCH 32/69] fix: Files::read returns exactly the file's bytes and
 never leaks its descriptor

---
 rpp/pos/files_pos.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 1a9af7f..83d74d0 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -1,6 +1,7 @@
 
 #include "../files.h"
 
+#include <errno.h>
 #include <fcntl.h>
 #include <sys/stat.h>
 #include <unistd.h>
@@ -20,19 +21,36 @@ namespace rpp::Files {
         return {};
     }
 
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= RPP_UINT32_MAX);
-
-    Vec<u8, Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
+    struct stat info;
+    if(fstat(fd, &info) == -1) {
+        warn("Failed to size file %: %", path_, Log::sys_error());
+        close(fd);
         return {};
     }
 
+    // The reported size is only a hint: special files report zero, directories anything.
+    u64 size = S_ISREG(info.st_mode) ? static_cast<u64>(info.st_size) : 0;
+    assert(size <= RPP_UINT32_MAX);
+
+    Vec<u8, Alloc> data(size + 1);
+    data.resize(size + 1);
+
+    u64 length = 0;
+    for(;;) {
+        if(length == data.length()) data.resize(length * 2);
+        ssize_t ret = ::read(fd, data.data() + length, data.length() - length);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret == -1) {
+            warn("Failed to read file %: %", path_, Log::sys_error());
+            close(fd);
+            return {};
+        }
+        if(ret == 0) break;
+        length += static_cast<u64>(ret);
+        assert(length <= RPP_UINT32_MAX);
+    }
+    data.resize(length);
+
     close(fd);
     return Opt{rpp::move(data)};
 }
-- 
2.43.0


From 68e64005445aaeb6e34654b738f64853e86c4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:27 +0000
Subject: [PATCH 33/69] fix: Files::write creates or replaces the file and
 reports incomplete writes

---
 rpp/pos/files_pos.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rpp/pos/files_pos.cpp b/rpp/pos/files_pos.cpp
index 83d74d0..f257be5 100644
--- a/rpp/pos/files_pos.cpp
+++ b/rpp/pos/files_pos.cpp
@@ -60,7 +60,7 @@ namespace rpp::Files {
     int fd = -1;
     Region(R) {
         auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
+        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC, 0666);
     }
 
     if(fd == -1) {
@@ -68,12 +68,22 @@ namespace rpp::Files {
         return false;
     }
 
-    if(::write(fd, data.data(), data.length()) == -1) {
+    u64 written = 0;
+    while(written < data.length()) {
+        ssize_t ret = ::write(fd, data.data() + written, data.length() - written);
+        if(ret == -1 && errno == EINTR) continue;
+        if(ret <= 0) {
+            warn("Failed to write file %: %", path_, Log::sys_error());
+            close(fd);
+            return false;
+        }
+        written += static_cast<u64>(ret);
+    }
+
+    if(close(fd) == -1) {
         warn("Failed to write file %: %", path_, Log::sys_error());
         return false;
     }
-
-    close(fd);
     return true;
 }
 
-- 
2.43.0


From c572a95a9c38521027fc539267af5d46a74a24dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:27 +0000
Subject: [PATCH 34/69] fix: Async::read and write complete their transfer and
 close their file

---
 rpp/pos/asyncio_pos.cpp | 54 +++--------------------------------------
 1 file changed, 4 insertions(+), 50 deletions(-)

diff --git a/rpp/pos/asyncio_pos.cpp b/rpp/pos/asyncio_pos.cpp
index 264d82d..437a0b3 100644
--- a/rpp/pos/asyncio_pos.cpp
+++ b/rpp/pos/asyncio_pos.cpp
@@ -2,9 +2,7 @@
 #include "../asyncio.h"
 #include "../files.h"
 
-#include <fcntl.h>
 #include <sys/epoll.h>
-#include <sys/stat.h>
 #include <sys/timerfd.h>
 #include <unistd.h>
 
@@ -12,56 +10,12 @@
 
 namespace rpp::Async {
 
-[[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path_) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_RDONLY);
-    }
-
-    if(fd == -1) {
-        warn("Failed to open file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    off_t full_size = lseek(fd, 0, SEEK_END);
-    lseek(fd, 0, SEEK_SET);
-
-    assert(full_size <= UINT32_MAX);
-
-    Vec<u8, Files::Alloc> data(static_cast<u64>(full_size));
-    data.resize(static_cast<u64>(full_size));
-
-    if(::read(fd, data.data(), full_size) == -1) {
-        warn("Failed to read file %: %", path_, Log::sys_error());
-        co_return {};
-    }
-
-    close(fd);
-    co_return Opt{rpp::move(data)};
+[[nodiscard]] Task<Opt<Vec<u8, Files::Alloc>>> read(Pool<>& pool, String_View path) noexcept {
+    co_return Files::read(path);
 }
 
-[[nodiscard]] Task<bool> write(Pool<>& pool, String_View path_, Slice<u8> data) noexcept {
-
-    int fd = -1;
-    Region(R) {
-        auto path = path_.terminate<Mregion<R>>();
-        fd = open(reinterpret_cast<const char*>(path.data()), O_WRONLY | O_CREAT | O_TRUNC);
-    }
-
-    if(fd == -1) {
-        warn("Failed to create file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    if(::write(fd, data.data(), data.length()) == -1) {
-        warn("Failed to write file %: %", path_, Log::sys_error());
-        co_return false;
-    }
-
-    close(fd);
-    co_return true;
+[[nodiscard]] Task<bool> write(Pool<>& pool, String_View path, Slice<u8> data) noexcept {
+    co_return Files::write(path, data);
 }
 
 [[nodiscard]] Task<void> wait(Pool<>& pool, u64 ms) noexcept {
-- 
2.43.0


From 78b030425c462050b3455da60aab17db5fa44232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:04 +0000
Subject: [PATCH 35/69] fix: Pool::enqueue does not race with workers on the
 queue length

---
 rpp/pool.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index eaad301..f20182a 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -115,9 +115,8 @@ private:
     void enqueue(Handle<> job) noexcept {
         for(u64 i = 0; i < thread_states.length(); i++) {
             Thread_State& state = thread_states[i];
-            // Race on empty
+            Thread::Lock lock(state.mut);
             if(state.jobs.empty()) {
-                Thread::Lock lock(state.mut);
                 state.jobs.push(rpp::move(job));
                 state.cond.signal();
                 return;
-- 
2.43.0


From 715022383906b7c092880f7f57fcf99695f9c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 36/69] fix: a Pool has a worker on a machine with one hardware
 thread

---
 rpp/pool.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rpp/pool.h b/rpp/pool.h
index f20182a..f84698a 100644
--- a/rpp/pool.h
+++ b/rpp/pool.h
@@ -52,16 +52,17 @@ template<Allocator A = Alloc>
 struct Pool {
 
     explicit Pool() noexcept
-        : thread_states{Vec<Thread_State, A>::make(Thread::hardware_threads() - 1)} {
+        : thread_states{Vec<Thread_State, A>::make(
+              Math::max(Thread::hardware_threads(), static_cast<u64>(2)) - 1)} {
 
         u64 h_threads = Thread::hardware_threads();
         u64 n_threads = thread_states.length();
-        assert(n_threads <= h_threads && n_threads <= 64);
+        assert(n_threads > 0 && n_threads <= h_threads && n_threads <= 64);
 
         for(u64 i = 0; i < n_threads; i++) {
             threads.push(Thread::Thread([this, i, h_threads] {
                 u64 j = i < h_threads / 2 ? i * 2 : (i - h_threads / 2) * 2 + 1;
-                Thread::set_affinity(j);
+                Thread::set_affinity(j % h_threads);
                 do_work(i);
             }));
         }
-- 
2.43.0


From 22a2fda9adb4b0b99aa213371720bd9f3e2d004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 37/69] fix: Net::Address reads past the end of an unterminated
 address text

---
 rpp/pos/net_pos.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 5da2d9b..e7f6a4b 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -12,9 +12,17 @@ Address::Address(String_View address, u16 port) noexcept {
     sockaddr_.sin_family = AF_INET;
     sockaddr_.sin_port = htons(port);
 
-    if(inet_pton(AF_INET, reinterpret_cast<const char*>(address.data()),
-                 &sockaddr_.sin_addr.s_addr) != 1) {
-        die("Failed to create address: %", Log::sys_error());
+    // inet_pton expects a null-terminated string
+    char text[INET_ADDRSTRLEN] = {};
+    if(address.length() >= sizeof(text)) {
+        die("Failed to create address: Invalid address.");
+    }
+    for(u64 i = 0; i < address.length(); i++) {
+        text[i] = static_cast<char>(address[i]);
+    }
+
+    if(inet_pton(AF_INET, text, &sockaddr_.sin_addr.s_addr) != 1) {
+        die("Failed to create address: Invalid address.");
     }
 }
 
-- 
2.43.0


From 598591ac714bceb54b09256370bb36f74ec34a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 38/69] fix: Udp move assignment leaks the assigned-to socket

---
 rpp/pos/net_pos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index e7f6a4b..705fec0 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -52,6 +52,10 @@ Udp::Udp(Udp&& src) noexcept {
 }
 
 Udp& Udp::operator=(Udp&& src) noexcept {
+    if(this == &src) return *this;
+    if(fd != -1) {
+        close(fd);
+    }
     fd = src.fd;
     src.fd = -1;
     return *this;
-- 
2.43.0


From 97bf2242b6246e1018eb08b80804483b03533626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 39/69] fix: Udp::recv reports a failed receive as a datagram
 of length 2^64-1

---
 rpp/pos/net_pos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/pos/net_pos.cpp b/rpp/pos/net_pos.cpp
index 705fec0..867a4b8 100644
--- a/rpp/pos/net_pos.cpp
+++ b/rpp/pos/net_pos.cpp
@@ -75,7 +75,7 @@ void Udp::bind(Address address) noexcept {
     i64 ret = ::recvfrom(fd, in.begin(), in.capacity, MSG_DONTWAIT | MSG_TRUNC,
                          reinterpret_cast<sockaddr*>(&src.sockaddr_), &src_len);
 
-    if(ret == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+    if(ret == -1) {
         return Opt<Data>{};
     }
 
-- 
2.43.0


From 2a80bcf3864f8079aba5dec44650501daff9bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 40/69] fix: Math::pow squares the base once too often,
 overflowing for representable results

---
 rpp/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/math.h b/rpp/math.h
index 24f550f..3c371b4 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -68,7 +68,7 @@ template<Int I>
             result *= base;
         }
         exp >>= 1;
-        base *= base;
+        if(exp) base *= base; // the last square is not part of the result and may overflow
     }
     return result;
 }
-- 
2.43.0


From 0217c456aaacf3b8ecf6376365f06d171e89ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 41/69] fix: Math::min/max of a list of infinities returns a
 finite value

---
 rpp/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/math.h b/rpp/math.h
index 3c371b4..3ef55e1 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -25,7 +25,7 @@ template<typename T>
 
 template<typename T>
 [[nodiscard]] constexpr T min(std::initializer_list<T> list) noexcept {
-    T result = Limits<T>::max();
+    T result = list.size() ? *list.begin() : Limits<T>::max();
     for(T v : list) {
         result = min(result, v);
     }
@@ -34,7 +34,7 @@ template<typename T>
 
 template<typename T>
 [[nodiscard]] constexpr T max(std::initializer_list<T> list) noexcept {
-    T result = Limits<T>::min();
+    T result = list.size() ? *list.begin() : Limits<T>::min();
     for(T v : list) {
         result = max(result, v);
     }
-- 
2.43.0


From 7460b14c220438af04e6cc4908dbba417ef52e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 42/69] fix: Math::frac is undefined for arguments that do not
 fit in an i64

---
 rpp/math.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/math.h b/rpp/math.h
index 3ef55e1..178b717 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -130,6 +130,8 @@ template<typename T>
 }
 
 [[nodiscard]] constexpr f32 frac(f32 x) noexcept {
+    // At this magnitude there is no fractional part (and x may not fit in an i64)
+    if(!(x > -8388608.0f && x < 8388608.0f)) return x - x;
     return x - (i64)x;
 }
 
-- 
2.43.0


From b2f28480691111d193e29bc043d8cd84c5281905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:58 +0000
Subject: [PATCH 43/69] fix: Math::radians/degrees of an f64 are only accurate
 to single precision

---
 rpp/math.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/math.h b/rpp/math.h
index 178b717..13b32d9 100644
--- a/rpp/math.h
+++ b/rpp/math.h
@@ -53,11 +53,11 @@ template<typename T>
 
 template<typename T>
 [[nodiscard]] constexpr T radians(T v) noexcept {
-    return v * T{PI32 / 180.0f};
+    return v * T{PI64 / 180.0};
 }
 template<typename T>
 [[nodiscard]] constexpr T degrees(T v) noexcept {
-    return v * T{180.0f / PI32};
+    return v * T{180.0 / PI64};
 }
 
 template<Int I>
-- 
2.43.0


From 8b3f71c4bed57dacc63efc97b81793e7e2e79f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 44/69] fix: unary minus of a Vect negates its operand in place

---
 rpp/vmath.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index e3d5f3e..c2462be 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -242,14 +242,15 @@ struct Vect : Vect_Base<T, N> {
             for(u64 i = 0; i < N; i++) r.data[i] = Math::abs(this->data[i]);
         return r;
     }
-    constexpr Vect operator-() noexcept
+    constexpr Vect operator-() const noexcept
         requires is_float || Signed_Int<T>
     {
+        Vect r;
         if constexpr(is_simd)
-            this->pack = F32x4::sub(F32x4::zero(), this->pack);
+            r.pack = F32x4::sub(F32x4::zero(), this->pack);
         else
-            for(u64 i = 0; i < N; i++) this->data[i] = -this->data[i];
-        return *this;
+            for(u64 i = 0; i < N; i++) r.data[i] = -this->data[i];
+        return r;
     }
 
     constexpr Vect normalize() noexcept
-- 
2.43.0


From 38406ff341d68db89908e738ef9f5f8bee7a5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 45/69] fix: scalar - Vec4 computes Vec4 - scalar

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index c2462be..5542f28 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -901,7 +901,7 @@ constexpr Math::Vect<T, N> operator+(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator-(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::sub(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::sub(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s - v.data[i];
-- 
2.43.0


From 34eb27d7fc4900e754b17813766e8a8ffcc292dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:20 +0000
Subject: [PATCH 46/69] fix: scalar / Vec4 computes Vec4 / scalar

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 5542f28..ab02ef1 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -923,7 +923,7 @@ constexpr Math::Vect<T, N> operator*(T s, Math::Vect<T, N> v) noexcept {
 template<typename T, u64 N>
 constexpr Math::Vect<T, N> operator/(T s, Math::Vect<T, N> v) noexcept {
     if constexpr(Math::Vect<T, N>::is_simd)
-        return Math::Vect<T, N>{SIMD::F32x4::div(v.pack, SIMD::F32x4::set1(s))};
+        return Math::Vect<T, N>{SIMD::F32x4::div(SIMD::F32x4::set1(s), v.pack)};
     else {
         Math::Vect<T, N> r;
         for(u64 i = 0; i < N; i++) r.data[i] = s / v.data[i];
-- 
2.43.0


From 6158b03469c41cb1a70ade1cbc61ed5a9af26731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 47/69] fix: Mat4::rotate_y_to of the negative y axis is a
 reflection, not a rotation

---
 rpp/impl/vmath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/impl/vmath.cpp b/rpp/impl/vmath.cpp
index 585bceb..debfc28 100644
--- a/rpp/impl/vmath.cpp
+++ b/rpp/impl/vmath.cpp
@@ -255,7 +255,7 @@ Mat4 Mat4::rotate_y_to(Vec3 dir) noexcept {
         return Mat4::I;
     else if(Math::abs(dir.y + 1.0f) < Math::EPS_F)
         return Mat4{Vec4{1.0f, 0.0f, 0.0f, 0.0f}, Vec4{0.0f, -1.0f, 0.0f, 0.0f},
-                    Vec4{0.0f, 0.0f, 1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
+                    Vec4{0.0f, 0.0f, -1.0f, 0.0f}, Vec4{0.0f, 0.0f, 0.0f, 1.0f}};
     else {
         Vec3 x = cross(dir, Vec3{0.0f, 1.0f, 0.0f}).unit();
         Vec3 z = cross(x, dir).unit();
-- 
2.43.0


From 8285650c16e83370fcfd2d0e67a52d97ac72b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 48/69] fix: Quat::euler turns a half turn about x into one
 about z

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index ab02ef1..44f355e 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -672,7 +672,7 @@ struct Quat : detail::Vect_Base<f32, 4> {
         return Quat(x, y, z, w).unit();
     }
     static Quat euler(Vec3 angles) noexcept {
-        if(angles == Vec3{0.0f, 0.0f, 180.0f} || angles == Vec3{180.0f, 0.0f, 0.0f})
+        if(angles == Vec3{0.0f, 0.0f, 180.0f})
             return Quat{0.0f, 0.0f, -1.0f, 0.0f};
         f32 c1 = Math::cos(Math::radians(angles[2] * 0.5f));
         f32 c2 = Math::cos(Math::radians(angles[1] * 0.5f));
-- 
2.43.0


From bdf7d89e2696d69a7b7ccf2efcf9109ba18b561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 49/69] fix: transforming an empty BBox makes it enclose
 everything

---
 rpp/vmath.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 44f355e..8830747 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -816,6 +816,7 @@ struct BBox {
     }
 
     constexpr void transform(const Mat4& T) noexcept {
+        if(empty()) return;
         Vec3 amin = min, amax = max;
         min = max = Vec3{T[3].x, T[3].y, T[3].z};
         for(u64 i = 0; i < 3; i++) {
-- 
2.43.0


From b9dd98dd45e221b78078a11950b5b10a59238cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:24 +0000
Subject: [PATCH 50/69] fix: BBox::project omits the perspective divide

---
 rpp/vmath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/vmath.h b/rpp/vmath.h
index 8830747..b168339 100644
--- a/rpp/vmath.h
+++ b/rpp/vmath.h
@@ -845,7 +845,7 @@ struct BBox {
 
         bool partially_behind = false, all_behind = true;
         for(auto& v : c) {
-            Vec3 p = proj * v;
+            Vec3 p = (proj * Vec4{v, 1.0f}).proj();
             if(p.z < 0.0f) {
                 partially_behind = true;
             } else {
-- 
2.43.0


From 06b8f74a67513063f0bf2ed44d19c6c94e0738cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 51/69] fix: RNG::Stream::unit scales by a power of ten and is
 practically always zero

---
 rpp/rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 7a3a5f1..00324f0 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -29,11 +29,11 @@ struct Stream {
     [[nodiscard]] constexpr F unit() noexcept {
         if constexpr(Same<F, f32>) {
             u64 r = operator()() >> 40;
-            return r * 1e-24f;
+            return r * 0x1p-24f;
         } else {
             static_assert(Same<F, f64>);
             u64 r = operator()() >> 11;
-            return r * 1e-53;
+            return r * 0x1p-53;
         }
     }
 
-- 
2.43.0


From 9256c67aea653bf363a7e8dacc117941a2efaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 52/69] fix: RNG::Stream::range leaves signed ranges and
 overflows on wide ones

---
 rpp/rng.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 00324f0..5e27694 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -57,8 +57,9 @@ struct Stream {
 
     template<Int I>
     [[nodiscard]] constexpr I range(I min, I max) noexcept {
-        I r = max - min;
-        return min + static_cast<I>(operator()()) % r;
+        // Unsigned, as the span of a signed range may not be representable
+        u64 r = static_cast<u64>(max) - static_cast<u64>(min);
+        return static_cast<I>(static_cast<u64>(min) + operator()() % r);
     }
 
 private:
-- 
2.43.0


From c458906be788cada6b403497e1d91d87989c9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 53/69] fix: RNG::Stream::shuffle of an empty Vec divides by
 zero

---
 rpp/rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/rng.h b/rpp/rng.h
index 5e27694..e25ed42 100644
--- a/rpp/rng.h
+++ b/rpp/rng.h
@@ -44,7 +44,7 @@ struct Stream {
 
     template<Allocator A, Move_Constructable T>
     constexpr void shuffle(Vec<T, A>& vec) noexcept {
-        for(u64 i = 0; i < vec.length() - 1; i++) {
+        for(u64 i = 0; i + 1 < vec.length(); i++) {
             u64 j = range(i, vec.length());
             swap(vec[i], vec[j]);
         }
-- 
2.43.0


From 80527249a757af82ca3bb50b791500de19f90981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 54/69] fix: the reflected cases of Reflect::Kind omit char_

---
 rpp/reflect.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rpp/reflect.h b/rpp/reflect.h
index 7b8ea33..3fb77c4 100644
--- a/rpp/reflect.h
+++ b/rpp/reflect.h
@@ -496,10 +496,11 @@ struct Refl<Kind> {
     constexpr static Literal name = "Kind";
     constexpr static Kind kind = Kind::enum_;
     constexpr static Kind default_ = Kind::void_;
-    using members = List<RPP_CASE(void_), RPP_CASE(i8_), RPP_CASE(i16_), RPP_CASE(i32_),
-                         RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_), RPP_CASE(u32_),
-                         RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_), RPP_CASE(bool_),
-                         RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_), RPP_CASE(record_)>;
+    using members = List<RPP_CASE(void_), RPP_CASE(char_), RPP_CASE(i8_), RPP_CASE(i16_),
+                         RPP_CASE(i32_), RPP_CASE(i64_), RPP_CASE(u8_), RPP_CASE(u16_),
+                         RPP_CASE(u32_), RPP_CASE(u64_), RPP_CASE(f32_), RPP_CASE(f64_),
+                         RPP_CASE(bool_), RPP_CASE(array_), RPP_CASE(pointer_), RPP_CASE(enum_),
+                         RPP_CASE(record_)>;
 };
 
 } // namespace Reflect
-- 
2.43.0


From ee9bfefc9da44093fe412dc4c9f367fb878615ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:09 +0000
Subject: [PATCH 55/69] fix: formatting an enumerator whose value has several
 names concatenates them

---
 rpp/format.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rpp/format.h b/rpp/format.h
index b505300..6cbb122 100644
--- a/rpp/format.h
+++ b/rpp/format.h
@@ -111,13 +111,13 @@ struct Measure {
             iterate_record(iterator, value);
             return 2 + name_len + iterator.length;
         } else if constexpr(R::kind == Kind::enum_) {
-            u64 length = String_View{R::name}.length() + 2;
+            u64 length = 0;
             iterate_enum<T>([&](const Literal& name, T check) {
                 if(value == check) {
-                    length += String_View{name}.length();
+                    length = String_View{name}.length();
                 }
             });
-            return length;
+            return String_View{R::name}.length() + 2 + length;
         }
     }
 };
@@ -180,12 +180,13 @@ struct Write {
         } else if constexpr(R::kind == Kind::enum_) {
             idx = output.write(idx, String_View{R::name});
             idx = output.write(idx, "::"_v);
+            Literal match{""};
             iterate_enum<T>([&](const Literal& name, T check) {
                 if(value == check) {
-                    idx = output.write(idx, String_View{name});
+                    match = name;
                 }
             });
-            return idx;
+            return output.write(idx, String_View{match});
         }
     }
 };
-- 
2.43.0


From 372303f4f352d73534c78d576e577e8581030c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 56/69] fix: Heap::top of an empty heap reads unowned memory

---
 rpp/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rpp/heap.h b/rpp/heap.h
index dc65cae..fe6ab72 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -174,9 +174,11 @@ struct Heap {
     }
 
     [[nodiscard]] T& top() noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
     [[nodiscard]] const T& top() const noexcept {
+        assert(length_ > 0);
         return data_[0];
     }
 
-- 
2.43.0


From 07584b0ecb8b167e1fc342f33deb8ac2e6cf665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:52 +0000
Subject: [PATCH 57/69] fix: the bounds check of Slice::sub wraps around

---
 rpp/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpp/slice.h b/rpp/slice.h
index f2f2058..ff1c062 100644
--- a/rpp/slice.h
+++ b/rpp/slice.h
@@ -114,7 +114,7 @@ struct Slice {
     }
 
     [[nodiscard]] constexpr Slice sub(u64 start, u64 length) const noexcept {
-        assert(start + length <= length_);
+        assert(start <= length_ && length <= length_ - start);
         return Slice{data_ + start, length};
     }
 
-- 
2.43.0


From 610428dee425fd7e08555489e66da44906ae2f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 58/69] fix: logging from a log callback deadlocks, so a failed
 assert there hangs

---
 rpp/impl/log.cpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index c133313..906e128 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -42,6 +42,7 @@ struct Static_Data {
 
 static Static_Data g_log_data;
 static thread_local u64 g_log_indent = 0;
+static thread_local bool g_in_callback = false;
 
 #ifdef RPP_OS_WINDOWS
 
@@ -147,24 +148,33 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     Thread::Id thread = Thread::this_id();
     ::time_t timer = ::time(null);
 
-    Thread::Lock lock(g_log_data.lock);
-
     String_View time = sys_time_string(timer);
 
-    printf(format_str, time.length(), time.data(), level_str, thread, loc.file.length(),
-           loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "", msg.length(), msg.data());
-    fflush(stdout);
+    auto write = [&](FILE* file) {
+        fprintf(file, format_str, time.length(), time.data(), level_str, thread, loc.file.length(),
+                loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "", msg.length(),
+                msg.data());
+        fflush(file);
+    };
+
+    if(g_in_callback) {
+        // Logged by a callback (e.g. its assert failed): this thread already holds the lock.
+        write(stdout);
+        if(g_log_data.file) write(g_log_data.file);
+        return;
+    }
 
+    Thread::Lock lock(g_log_data.lock);
+
+    write(stdout);
+
+    g_in_callback = true;
     for(auto& [_, callback] : g_log_data.callbacks) {
         callback(level, thread, timer, loc, msg);
     }
+    g_in_callback = false;
 
-    if(g_log_data.file) {
-        fprintf(g_log_data.file, format_str, time.length(), time.data(), level_str, thread,
-                loc.file.length(), loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "",
-                msg.length(), msg.data());
-        fflush(g_log_data.file);
-    }
+    if(g_log_data.file) write(g_log_data.file);
 }
 
 Scope::Scope() noexcept {
-- 
2.43.0


From c4ae30e73d3dc3627a0a581ca15992c38b9d7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 59/69] fix: Vec::push and emplace of an own element read freed
 memory when growing

---
 rpp/vec.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rpp/vec.h b/rpp/vec.h
index 9bde9cc..48be2c1 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -174,7 +174,13 @@ struct Vec {
     T& push(T&& value) noexcept
         requires Move_Constructable<T>
     {
-        if(full()) grow();
+        if(full()) {
+            // value may be an element of this Vec
+            T temp{rpp::move(value)};
+            grow();
+            new(&data_[length_]) T{rpp::move(temp)};
+            return data_[length_++];
+        }
         assert(length_ < capacity_);
         new(&data_[length_]) T{rpp::move(value)};
         return data_[length_++];
@@ -183,7 +189,7 @@ struct Vec {
     template<typename... Args>
         requires Constructable<T, Args...>
     T& emplace(Args&&... args) noexcept {
-        if(full()) grow();
+        if(full()) return push(T{rpp::forward<Args>(args)...});
         assert(length_ < capacity_);
         new(&data_[length_]) T{rpp::forward<Args>(args)...};
         return data_[length_++];
-- 
2.43.0


From bfa337dcd47845251227949c70a806ca6ea8883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 60/69] fix: Queue::push and emplace of an own element read
 freed memory when growing

---
 rpp/queue.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index f9e0c4d..8b1a61b 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -142,7 +142,12 @@ struct Queue {
     T& push(T&& value) noexcept
         requires Move_Constructable<T>
     {
-        if(full()) grow();
+        if(full()) {
+            // value may be an element of this Queue
+            T temp{rpp::move(value)};
+            grow();
+            return push(rpp::move(temp));
+        }
 
         new(&data_[last_]) T{rpp::move(value)};
         T& ret = data_[last_];
@@ -156,7 +161,7 @@ struct Queue {
     T& emplace(Args&&... args) noexcept
         requires Constructable<T, Args...>
     {
-        if(full()) grow();
+        if(full()) return push(T{rpp::forward<Args>(args)...});
 
         new(&data_[last_]) T{rpp::forward<Args>(args)...};
         T& ret = data_[last_];
-- 
2.43.0


From 0858c55749546924167f51aba280742c88a06065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 61/69] fix: Heap::push and emplace of an own element read
 freed memory when growing

---
 rpp/heap.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rpp/heap.h b/rpp/heap.h
index fe6ab72..8d3b38f 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -138,7 +138,12 @@ struct Heap {
     void push(T&& value) noexcept
         requires Move_Constructable<T>
     {
-        if(full()) grow();
+        if(full()) {
+            // value may be an element of this Heap
+            T temp{rpp::move(value)};
+            grow();
+            return push(rpp::move(temp));
+        }
         new(&data_[length_++]) T{rpp::move(value)};
         reheap_up(length_ - 1);
     }
@@ -147,7 +152,7 @@ struct Heap {
     void emplace(Args&&... args) noexcept
         requires Constructable<T, Args...>
     {
-        if(full()) grow();
+        if(full()) return push(T{rpp::forward<Args>(args)...});
         new(&data_[length_++]) T{rpp::forward<Args>(args)...};
         reheap_up(length_ - 1);
     }
-- 
2.43.0


From ece983c36b201aab5cbbd44faf4c4db634506042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:46 +0000
Subject: [PATCH 62/69] fix: Map::insert and emplace of an own value read freed
 memory when growing

---
 rpp/map.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 8d6f536..9a9e348 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -213,8 +213,9 @@ struct Map {
     }
 
     V& insert(K&& key, V&& value) noexcept {
-        if(full()) grow();
+        // key and value may be part of this Map
         Slot slot{rpp::move(key), rpp::move(value)};
+        if(full()) grow();
         Slot& placed = insert_slot(rpp::move(slot));
         return placed.data->second;
     }
@@ -222,8 +223,9 @@ struct Map {
     template<typename... Args>
         requires Constructable<V, Args...>
     V& emplace(K&& key, Args&&... args) noexcept {
-        if(full()) grow();
+        // key and args may be part of this Map
         Slot slot{rpp::move(key), V{rpp::forward<Args>(args)...}};
+        if(full()) grow();
         Slot& placed = insert_slot(rpp::move(slot));
         return placed.data->second;
     }
-- 
2.43.0


From 0528af708fb624bd8644d9b50dc70fddf6c23b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 63/69] fix: Vec move assignment from a vector owned by its own
 elements read freed memory

---
 rpp/vec.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/vec.h b/rpp/vec.h
index 48be2c1..a170242 100644
--- a/rpp/vec.h
+++ b/rpp/vec.h
@@ -53,13 +53,17 @@ struct Vec {
         src.capacity_ = 0;
     }
     Vec& operator=(Vec&& src) noexcept {
-        this->~Vec();
-        data_ = src.data_;
-        length_ = src.length_;
-        capacity_ = src.capacity_;
+        // src may be owned by the current value, so take its data first.
+        T* data = src.data_;
+        u64 length = src.length_;
+        u64 capacity = src.capacity_;
         src.data_ = null;
         src.length_ = 0;
         src.capacity_ = 0;
+        this->~Vec();
+        data_ = data;
+        length_ = length;
+        capacity_ = capacity;
         return *this;
     }
 
-- 
2.43.0


From c5aae93d1e3e5e06992ccde93b968c92e3c4e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 64/69] fix: Heap move assignment from a heap owned by its own
 elements read freed memory

---
 rpp/heap.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rpp/heap.h b/rpp/heap.h
index 8d3b38f..f5ee6a6 100644
--- a/rpp/heap.h
+++ b/rpp/heap.h
@@ -44,13 +44,17 @@ struct Heap {
         src.capacity_ = 0;
     }
     Heap& operator=(Heap&& src) noexcept {
-        this->~Heap();
-        data_ = src.data_;
-        length_ = src.length_;
-        capacity_ = src.capacity_;
+        // src may be owned by the current value, so take its data first.
+        T* data = src.data_;
+        u64 length = src.length_;
+        u64 capacity = src.capacity_;
         src.data_ = null;
         src.length_ = 0;
         src.capacity_ = 0;
+        this->~Heap();
+        data_ = data;
+        length_ = length;
+        capacity_ = capacity;
         return *this;
     }
 
-- 
2.43.0


From 79f68afbfd4a8275bde155725dd93fc8f4c7bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 65/69] fix: Queue move assignment from a queue owned by its
 own elements read freed memory

---
 rpp/queue.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rpp/queue.h b/rpp/queue.h
index 8b1a61b..4524183 100644
--- a/rpp/queue.h
+++ b/rpp/queue.h
@@ -45,15 +45,20 @@ struct Queue {
         src.capacity_ = 0;
     }
     Queue& operator=(Queue&& src) noexcept {
-        this->~Queue();
-        data_ = src.data_;
-        length_ = src.length_;
-        last_ = src.last_;
-        capacity_ = src.capacity_;
+        // src may be owned by the current value, so take its data first.
+        T* data = src.data_;
+        u64 length = src.length_;
+        u64 last = src.last_;
+        u64 capacity = src.capacity_;
         src.data_ = null;
         src.length_ = 0;
         src.last_ = 0;
         src.capacity_ = 0;
+        this->~Queue();
+        data_ = data;
+        length_ = length;
+        last_ = last;
+        capacity_ = capacity;
         return *this;
     }
 
-- 
2.43.0


From 2a14df7f0b0fbf4e37066e5344cb83b62be48683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 66/69] fix: Map move assignment from a map owned by its own
 values read freed memory

---
 rpp/map.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rpp/map.h b/rpp/map.h
index 9a9e348..cee2d0a 100644
--- a/rpp/map.h
+++ b/rpp/map.h
@@ -103,17 +103,23 @@ struct Map {
         src.shift_ = 0;
     }
     Map& operator=(Map&& src) noexcept {
-        this->~Map();
-        data_ = src.data_;
-        capacity_ = src.capacity_;
-        length_ = src.length_;
-        usable_ = src.usable_;
-        shift_ = src.shift_;
+        // src may be owned by the current value, so take its data first.
+        Slot* data = src.data_;
+        u64 capacity = src.capacity_;
+        u64 length = src.length_;
+        u64 usable = src.usable_;
+        u64 shift = src.shift_;
         src.data_ = null;
         src.capacity_ = 0;
         src.length_ = 0;
         src.usable_ = 0;
         src.shift_ = 0;
+        this->~Map();
+        data_ = data;
+        capacity_ = capacity;
+        length_ = length;
+        usable_ = usable;
+        shift_ = shift;
         return *this;
     }
 
-- 
2.43.0


From 41e88c44e561d155cc4382a828f434a1a912cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 67/69] fix: Opt move assignment from something its own value
 owns read freed memory

---
 rpp/opt.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rpp/opt.h b/rpp/opt.h
index 0342799..0dcb243 100644
--- a/rpp/opt.h
+++ b/rpp/opt.h
@@ -52,9 +52,11 @@ struct Opt {
     Opt& operator=(Opt&& src) noexcept
         requires Move_Constructable<T>
     {
+        // src may be owned by the current value, so take its value first.
+        Opt next{rpp::move(src)};
         clear();
-        if(src.ok_) {
-            value_.construct(rpp::move(*src.value_));
+        if(next.ok_) {
+            value_.construct(rpp::move(*next.value_));
             ok_ = true;
         }
         return *this;
@@ -63,8 +65,10 @@ struct Opt {
     Opt& operator=(T&& value) noexcept
         requires Move_Constructable<T>
     {
+        // value may be owned by the current value, so take it first.
+        Opt next{rpp::move(value)};
         clear();
-        value_.construct(rpp::move(value));
+        value_.construct(rpp::move(*next.value_));
         ok_ = true;
         return *this;
     }
-- 
2.43.0


From 435424129c8736f6b6d8451d386cc6cc01c6f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:11 +0000
Subject: [PATCH 68/69] fix: Variant move assignment from something its own
 value owns read freed memory

---
 rpp/variant.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rpp/variant.h b/rpp/variant.h
index d4700eb..0d62a97 100644
--- a/rpp/variant.h
+++ b/rpp/variant.h
@@ -61,12 +61,14 @@ struct Variant {
     Variant& operator=(Variant&& src) noexcept
         requires(Move_Constructable<Ts> && ...)
     {
+        // src may be owned by the current value, so take its value first.
+        Variant next{rpp::move(src)};
         destruct();
         if constexpr((Trivially_Movable<Ts> && ...)) {
-            index_ = src.index_;
-            Libc::memcpy(data_, src.data_, size);
+            index_ = next.index_;
+            Libc::memcpy(data_, next.data_, size);
         } else {
-            src.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
+            next.match(Overload{[this](Ts& v) { this->construct(rpp::move(v)); }...});
         }
         return *this;
     }
-- 
2.43.0


From b2c79cfb086456b6ef775793485849ad79009186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:14 +0000
Subject: [PATCH 69/69] fix: write log messages containing null bytes
 completely

---
 rpp/impl/log.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rpp/impl/log.cpp b/rpp/impl/log.cpp
index 906e128..82647c9 100644
--- a/rpp/impl/log.cpp
+++ b/rpp/impl/log.cpp
@@ -127,20 +127,20 @@ static_assert(alignof(::time_t) <= alignof(Time));
 void output(Level level, const Location& loc, String_View msg) noexcept {
 
     const char* level_str;
-    const char* format_str;
+    const char* prefix = "\033[0;31m";
+    const char* suffix = "\033[0m\n";
 
     switch(level) {
     case Level::info: {
         level_str = "info";
-        format_str = "%.*s [%s/%zu] [%.*s:%zu]: %*s%.*s\n";
+        prefix = "";
+        suffix = "\n";
     } break;
     case Level::warn: {
         level_str = "warn";
-        format_str = "\033[0;31m%.*s [%s/%zu] [%.*s:%zu]: %*s%.*s\033[0m\n";
     } break;
     case Level::fatal: {
         level_str = "fatal";
-        format_str = "\033[0;31m%.*s [%s/%zu] [%.*s:%zu]: %*s%.*s\033[0m\n";
     } break;
     default: RPP_UNREACHABLE;
     }
@@ -151,9 +151,12 @@ void output(Level level, const Location& loc, String_View msg) noexcept {
     String_View time = sys_time_string(timer);
 
     auto write = [&](FILE* file) {
-        fprintf(file, format_str, time.length(), time.data(), level_str, thread, loc.file.length(),
-                loc.file.data(), loc.line, g_log_indent * INDENT_SIZE, "", msg.length(),
-                msg.data());
+        fprintf(file, "%s%.*s [%s/%zu] [%.*s:%zu]: %*s", prefix, static_cast<int>(time.length()),
+                time.data(), level_str, thread, static_cast<int>(loc.file.length()),
+                loc.file.data(), loc.line, static_cast<int>(g_log_indent * INDENT_SIZE), "");
+        // The message may contain null bytes.
+        fwrite(msg.data(), 1, msg.length(), file);
+        fputs(suffix, file);
         fflush(file);
     };
 
-- 
2.43.0

