From 5585e562d31ed321eef1c21f07e830e23bfa0ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 01/28] fix: static_heap_allocator::allocate no longer wraps
 around on huge counts

size * sizeof(Type) could overflow and return a block far smaller than
requested; such requests now throw std::bad_alloc like any other request
that cannot be served.
---
 include/xitren/allocators/static_heap_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..b577303 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -42,6 +42,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > static_cast<size_t>(-1) / sizeof(Type)) {
+            throw std::bad_alloc();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From 30390cd51d36f2bcc5d5f563c74e001637d08468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 02/28] fix: static_heap_allocators of one heap compare equal

Equality compared the addresses of the allocator objects, so a copy never
equalled its original and e.g. std::list::splice between two lists of the
same heap aborted.
---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index b577303..c3e6ad0 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -60,14 +60,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From e8a2b43ab0b0de5878bf17e326b265c7d1534a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 03/28] fix: make static_heap::v_port_get_heap_stats usable

It called a helper by a name that does not exist, and its parameter type was
private, so any use of it failed to compile.
---
 include/xitren/allocators/static_heap.hpp | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..e8d9b49 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -28,17 +28,6 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
-    /* Used to pass information about the heap. */
-    using heap_stats_t = struct {
-        size_t x_available_heap_space_in_bytes;
-        size_t x_size_of_largest_free_block_in_bytes;
-        size_t x_size_of_smallest_free_block_in_bytes;
-        size_t x_number_of_free_blocks;
-        size_t x_minimum_ever_free_bytes_remaining;
-        size_t x_number_of_successful_allocations;
-        size_t x_number_of_successful_frees;
-    };
-
     static constexpr std::size_t port_byte_alignment = 8;
 
     // static constexpr auto
@@ -157,6 +146,17 @@ class static_heap {
     }
 
 public:
+    /* Used to pass information about the heap. */
+    using heap_stats_t = struct {
+        size_t x_available_heap_space_in_bytes;
+        size_t x_size_of_largest_free_block_in_bytes;
+        size_t x_size_of_smallest_free_block_in_bytes;
+        size_t x_number_of_free_blocks;
+        size_t x_minimum_ever_free_bytes_remaining;
+        size_t x_number_of_successful_allocations;
+        size_t x_number_of_successful_frees;
+    };
+
     void
     on_fail(callback_t callback)
     {
@@ -489,7 +489,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -509,7 +509,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From 7f6b29df3365e724b86e868de69c1fdc086d935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 04/28] fix: refuse modules beyond the capacity of the manager

add_module wrote past the end of the module array (onto the module counter).
It now throws std::out_of_range, as every other access to the array does.
---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..e5c83c1 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        modules_cnt_++;
     }
 
     /**
-- 
2.43.0


From 7d25bb73cef9364790c8a7bf61a46f4f83c4e3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 05/28] fix: removing a module from a full manager wrote past
 its module array

The slot cleared was one past the last occupied one; with a full manager that
is the module counter itself, which then wrapped around.
---
 include/xitren/comm/mediator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index e5c83c1..9411c19 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -294,8 +294,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = 0;
                 return;
             }
         }
-- 
2.43.0


From 572b4df8d8862f604d7558a8b860d370dbd7e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 06/28] fix: pre-decrement of an observable value returned and
 published value + 1

fetch_sub returns the old value, so the new one is that minus one.
---
 include/xitren/comm/values/observable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..ac02fe3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From c0ce89af6bf528fb7af2354d313ebc103eef10b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 07/28] fix: post-increment and post-decrement published the
 old value

After a++ every observer still held the value before the increment.
---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index ac02fe3..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
-- 
2.43.0


From beca46c79395025abf09075872e74e3c830a6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 08/28] fix: remove_observer of the dynamic observable value
 did not remove

std::remove without erase left the list as long as before: the removed (last)
observer was still notified, or its successor was notified twice.
---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From b867aa1f9ca301fe57c80a1c2bf0d11dcdc24299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 09/28] fix: string options keep the whole argument

Extraction with >> cut a value at its first blank and ignored an empty one.
---
 include/xitren/func/argv_parser.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..b1688c9 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -73,9 +73,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<decltype(this->*arg), std::string&>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0


From e628c8f2969ce5ae4602edf4c7c4ddf6fa9e854e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 10/28] fix: reject frames shorter than their fixed part or
 longer than the storage

size_ - length wrapped around for a short frame, and the checksum was then
read from outside the storage.
---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..92cacb8 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -199,7 +199,7 @@ public:
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
         size_type const variable_part = (size_ - length) / sizeof(Type);
-        if (((size_ - length) % sizeof(Type))) {
+        if ((size_ < length) || (size_ > Max) || ((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
         }
         auto header_conv = data<Header>::deserialize(storage_.begin());
-- 
2.43.0


From 6644a42e64f4fdbcbc72abd7cd5f215ce37643bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 11/28] fix: packet_accessor::serialize no longer wraps around
 on huge element counts

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 92cacb8..44040ce 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -219,7 +219,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 41872cefaa4176acf3200e802c7356e0ad0feeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 12/28] fix: packet accessors that did not compile

The const accessors dropped const, and crc() returned the wrong type.
---
 include/xitren/func/packet.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 44040ce..57de0b2 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -61,13 +61,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +79,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
-- 
2.43.0


From 8cf205f28e45c5daad4ae9d3c4fe519cbb5fa16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:57 +0000
Subject: [PATCH 13/28] fix: packet::deserialize(array) did not compile and
 checked nothing

It serialized instead of deserializing and computed the checksum of an
uninitialised array.
---
 include/xitren/func/packet.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 57de0b2..8b919ca 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -10,8 +10,10 @@ __ _(_) |_ _ _ ___ _ _
 #include <xitren/crc_concept.hpp>
 #include <xitren/func/data.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -115,13 +117,14 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size == length);
+        auto [header, fields, crc] = data<struct_type>::deserialize(array.begin());
+        typename Crc::value_type const calc_crc
+            = Crc::calculate(array.begin(), array.end() - sizeof(typename Crc::value_type));
+        return {crc == calc_crc, Header{header}, Fields{fields}};
     }
 
-    template <typename InputIterator>
+    template <std::input_iterator InputIterator>
     static constexpr packet
     deserialize(InputIterator begin) noexcept
     {
-- 
2.43.0


From 21ff4cc564aa491c031a99a4149d3318ea76eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 14/28] fix: interval_event started its thread before its
 periods were set

The thread member came before the periods it reads, so a constructor delayed
for more than the initial 10 ms left the thread with uninitialised periods.
---
 include/xitren/func/interval_event.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..3686f52 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 39361d7dea43f8526676818fe79ed31c149229fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 15/28] fix: data race between the period setters of
 interval_event and its thread

The periods are set by the owner while the worker reads them; they are atomic
now and read by value.
---
 include/xitren/func/interval_event.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 3686f52..b881bb4 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,11 +47,12 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  time_type const period{period_};
+                  if ((std::chrono::system_clock::now() - last_time).count() >= period.count()) {
+                      last_time += period;
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(period_between_checks_.load());
               }
               keep_running_.notify_one();
           }}
@@ -89,7 +90,7 @@ public:
     /**
      * Returns the interval at which the function is called, in milliseconds.
      */
-    auto&
+    time_type
     period() const noexcept
     {
         return period_;
@@ -98,7 +99,7 @@ public:
     /**
      * Returns the interval between checks for whether the function should be called, in milliseconds.
      */
-    auto&
+    time_type
     period_between_checks() const noexcept
     {
         return period_between_checks_;
@@ -129,8 +130,8 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    time_type                 period_{};
-    time_type                 period_between_checks_{};
+    std::atomic<time_type>    period_{};
+    std::atomic<time_type>    period_between_checks_{};
     bool                      stop_{false};
     std::thread               thread_;
 };
-- 
2.43.0


From b7243f321ccfccc17c8e387d2649d5e5787c65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 16/28] fix: pipelines handled stale or half-written items

A slot was taken for ready as soon as it held any value, so from the second
lap on an item handled before was handled again in place of the one just being
written, and every hand-over was a data race. Each slot now has an atomic
ready flag, set after the item is written and cleared when it is taken.
---
 include/xitren/comm/pipeline_stage.hpp      | 14 +++++++++-----
 include/xitren/comm/pipeline_stage_pool.hpp | 20 ++++++++++++--------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..436e1a2 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -37,8 +37,9 @@ class pipeline_stage {
     using measure_type       = std::pair<int, int>;
     using statistics_type    = std::deque<measure_type>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        atomic_cnt_type                    tail;
+        std::array<ready_type, BufferSize>         array;
+        std::array<atomic_closed_type, BufferSize> ready;
+        atomic_cnt_type                            tail;
     };
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_type)>;
 
@@ -58,6 +59,7 @@ public:
     {
         auto const i                          = queue_.tail++;
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -68,6 +70,7 @@ public:
     {
         auto const i                          = queue_.tail++;
         queue_.array[i % queue_.array.size()] = data;
+        queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
 #endif
@@ -107,7 +110,7 @@ private:
 #endif
         while (!closed_ || ((queue_.tail - tail_) > 0)) {
             while (tail_ < queue_.tail) {
-                if (!(queue_.array[(tail_) % queue_.array.size()])) {
+                if (!(queue_.ready[(tail_) % queue_.array.size()])) {
                     std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                     Log::trace() << "Data are not ready!\n";
@@ -118,8 +121,9 @@ private:
 #ifdef DEBUG
                 Log::trace() << "Index to process: " << i << "\n";
 #endif
-                auto& data = queue_.array[i % queue_.array.size()];
-                auto  last_time{std::chrono::system_clock::now()};
+                auto const data = std::exchange(queue_.array[i % queue_.array.size()], std::nullopt);
+                queue_.ready[i % queue_.array.size()] = false;
+                auto last_time{std::chrono::system_clock::now()};
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..fcbc99f 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -41,10 +41,11 @@ class pipeline_stage_pool {
     using ready_type         = std::optional<Type>;
     using statistics_type    = std::deque<measure_data>;
     using queue_type         = struct type_tag {
-        std::array<ready_type, BufferSize> array;
-        statistics_type                    stat;
-        atomic_cnt_type                    tail;
-        atomic_cnt_type                    head;
+        std::array<ready_type, BufferSize>         array;
+        std::array<atomic_closed_type, BufferSize> ready;
+        statistics_type                            stat;
+        atomic_cnt_type                            tail;
+        atomic_cnt_type                            head;
     };
     using pool_type     = std::array<queue_type, 8>;
     using thread_type   = std::vector<std::thread>;
@@ -58,11 +59,11 @@ public:
 #ifdef DEBUG
             Log::debug() << "Started thread " << pool_thread_n << "... \n";
 #endif
-            auto& [array_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
+            auto& [array_l, ready_l, stat_l, tail_l, head_l] = pool_[pool_thread_n];
 
             while (!closed_ || ((tail_l - head_l) > 0)) {
                 while (head_l < tail_l) {
-                    if (!(array_l[(head_l) % array_l.size()])) {
+                    if (!(ready_l[(head_l) % array_l.size()])) {
                         std::this_thread::sleep_for(0ms);
 #ifdef DEBUG
                         Log::trace() << "[" << pool_thread_n << "] Data are not ready!\n";
@@ -73,8 +74,9 @@ public:
 #ifdef DEBUG
                     Log::trace() << "[" << pool_thread_n << "] Index to process: " << i << "\n";
 #endif
-                    auto& data = array_l[i % array_l.size()];
-                    auto  last_time{std::chrono::system_clock::now()};
+                    auto const data = std::exchange(array_l[i % array_l.size()], std::nullopt);
+                    ready_l[i % array_l.size()] = false;
+                    auto last_time{std::chrono::system_clock::now()};
                     func_(pipeline_stage_exception::no_error, data.value(),
                           measure_data{pool_thread_n, time_for_unit(stat_l), buffer_utilization(stat_l)});
                     auto elapsed = std::chrono::system_clock::now() - last_time;
@@ -114,6 +116,7 @@ public:
         auto const min_id{min_thread()};
         auto const i                                        = pool_[min_id].tail++;
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
@@ -125,6 +128,7 @@ public:
         auto const min_id{min_thread()};
         auto const i                                        = pool_[min_id].tail++;
         pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
 #endif
-- 
2.43.0


From e112909ab90f31fc2d1d3c9cb51c8e6618877110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 17/28] fix: a pool has as many queues as threads

The number of queues was 8 whatever the pool size: with fewer threads items
went to queues nobody served, with more the threads ran past the array.
---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index fcbc99f..a5bd90f 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -47,7 +47,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                            tail;
         atomic_cnt_type                            head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From 880c936bd5dc29cf746bd3147991949f15e9eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 18/28] fix: data race between the statistics of a pipeline
 stage and its worker

time_for_unit() and buffer_utilization() walked the deque while the worker
modified it.
---
 include/xitren/comm/pipeline_stage.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 436e1a2..7307638 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -79,7 +79,8 @@ public:
     auto
     time_for_unit() const
     {
-        int calc{};
+        std::unique_lock<std::mutex> lock(stat_access_);
+        int                          calc{};
         for (auto& item : stat_) {
             calc += item.first;
         }
@@ -89,7 +90,8 @@ public:
     auto
     buffer_utilization() const
     {
-        int calc{};
+        std::unique_lock<std::mutex> lock(stat_access_);
+        int                          calc{};
         for (auto& item : stat_) {
             calc += item.second;
         }
@@ -102,6 +104,7 @@ private:
     queue_type         queue_{};
     function_type      func_{};
     statistics_type    stat_{};
+    mutable std::mutex stat_access_{};
 
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
@@ -127,6 +130,7 @@ private:
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
+                std::unique_lock<std::mutex> lock(stat_access_);
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
-- 
2.43.0


From 8e87301d52f94115d0f059094209251548ba1fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 19/28] fix: make the lru cache usable

Neither put nor get compiled, and the constructor took a point in time instead
of the period of the README. put did not store the new value of a key it had
and left evicted keys in the map; get returned nothing and did not count as a
use.
---
 include/xitren/cache/lru.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..02a4595 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -23,13 +23,14 @@ namespace xitren::cache {
 template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
     using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
+    using duration           = std::chrono::system_clock::duration;
     using data_item          = std::tuple<Key, Value, timestamp>;
     using double_linked_list = std::list<data_item>;
     using hash_map           = std::unordered_map<Key, data_item>;
     using return_type        = std::optional<data_item>;
 
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
@@ -38,10 +39,10 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
+            auto is_key = [&key](data_item const& item) { return std::get<0>(item) == key; };
             auto it     = std::find_if(list_.begin(), list_.end(), is_key);
             if (it != list_.end()) {
-                auto obj = *it;
+                auto obj = data_item{key, value, get_time()};
                 list_.erase(it);
                 list_.push_front(obj);
                 map_[key] = obj;
@@ -52,6 +53,7 @@ public:
             }
         } else {
             if (list_.size() >= Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
             auto obj = data_item{key, value, get_time()};
@@ -67,13 +69,16 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+            auto const obj = map_[key];
+            if ((get_time() - std::get<2>(obj)) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            auto is_key = [&key](data_item const& item) { return std::get<0>(item) == key; };
+            list_.splice(list_.begin(), list_, std::find_if(list_.begin(), list_.end(), is_key));
+            return obj;
         } else {
             return std::nullopt;
         }
@@ -86,7 +91,7 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
-- 
2.43.0


From 1f275c5f6008bddf4478f5b036ad39ad4e0b23ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 20/28] fix: the lru cache was not locked with glibc

PTHREAD_MUTEX_DEFAULT is an enumerator there, not a macro, so the mutex was never compiled in.
---
 include/xitren/cache/lru.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 02a4595..1602afa 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -35,7 +35,7 @@ public:
     void
     put(Key key, Value value)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
@@ -65,7 +65,7 @@ public:
     return_type
     get(Key key)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
@@ -94,7 +94,7 @@ private:
     const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
     std::mutex access_{};
 #endif
 
-- 
2.43.0


From a192d2c43f891c7548160f88a884d77999752695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 21/28] fix: the dynamic observable was not locked with glibc

PTHREAD_MUTEX_DEFAULT is an enumerator there, so #ifdef never saw it. The mutex is recursive, so that
callbacks that use the observable go on working.
---
 include/xitren/comm/observer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index f2632b4..108eca2 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -254,8 +254,8 @@ public:
     void
     add_observer(observer<observable_type>& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!contains(observer)) [[likely]] {
             observers_.push_back(&observer);
@@ -275,8 +275,8 @@ public:
     void
     remove_observer(observer<observable_type> const& observer)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         if (!std::erase(observers_, &observer)) {
             throw exception{observer_errors::not_found};
@@ -289,8 +289,8 @@ public:
     inline void
     clear_observers()
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
             item->disconnect(static_cast<void*>(this));
@@ -309,8 +309,8 @@ public:
     void
     notify_observers(observable_type const& n)
     {
-#ifdef PTHREAD_MUTEX_DEFAULT
-        std::unique_lock<std::mutex> lock(access_);
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
+        std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
         for (auto& item : observers_) {
             item->notification(static_cast<void*>(this), n);
@@ -319,8 +319,8 @@ public:
 
 private:
     observer_list observers_{};
-#ifdef PTHREAD_MUTEX_DEFAULT
-    std::mutex access_{};
+#if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
+    std::recursive_mutex access_{};
 #endif
 
     /**
-- 
2.43.0


From 4fe3a7a8b87960b837e20990b37e0cd3691ba83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 22/28] fix: fast_pimpl ended the program when a constructor
 threw

Its constructors promised not to throw when initialization with braces
does not, but they initialize with parentheses.
---
 include/xitren/func/fast_pimpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..ba32c06 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,7 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
-    explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
+    explicit fast_pimpl(Args&&... args) noexcept(noexcept(new (std::declval<void*>()) type(std::declval<Args>()...)))
     {
         new (get()) type(std::forward<Args>(args)...);
     }
@@ -60,14 +60,14 @@ public:
      *
      * @param rhs The fast_pimpl instance to be moved.
      */
-    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}
+    fast_pimpl(fast_pimpl&& rhs) noexcept(noexcept(new (std::declval<void*>()) type(std::declval<type>()))) : fast_pimpl{std::move(*rhs)} {}
 
     /**
      * @brief Copy-constructs a fast_pimpl instance that manages an object of type T.
      *
      * @param rhs The fast_pimpl instance to be copied.
      */
-    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(type{std::declval<const_reference>()})) : fast_pimpl{*rhs} {}
+    fast_pimpl(fast_pimpl const& rhs) noexcept(noexcept(new (std::declval<void*>()) type(std::declval<const_reference>()))) : fast_pimpl{*rhs} {}
 
     /**
      * @brief Destroys the fast_pimpl instance and the object it manages.
-- 
2.43.0


From d2d0b6252acc02e4326a5084bb16788d3d47e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 23/28] fix: copying a fast_pimpl that is not const did not
 compile

The constructor from any arguments was a better match.
---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index ba32c06..2430e0c 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(new (std::declval<void*>()) type(std::declval<Args>()...)))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From e04959147cbd8f59c38d97e379d699211aa40eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 24/28] fix: a put or get of the lru cache that failed left it
 inconsistent

---
 include/xitren/cache/lru.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1602afa..ca46c66 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -43,22 +43,26 @@ public:
             auto it     = std::find_if(list_.begin(), list_.end(), is_key);
             if (it != list_.end()) {
                 auto obj = data_item{key, value, get_time()};
+                // Whatever can throw comes first
+                double_linked_list fresh{obj};
+                map_[key] = std::move(obj);
                 list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
+                list_.splice(list_.begin(), fresh);
             } else {
                 if constexpr (Exception) {
                     throw cache_missed();
                 }
             }
         } else {
+            auto obj = data_item{key, value, get_time()};
+            // Whatever can throw comes first
+            double_linked_list fresh{obj};
+            map_.emplace(key, std::move(obj));
             if (list_.size() >= Size) {
                 map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
+            list_.splice(list_.begin(), fresh);
         }
     }
 
@@ -69,8 +73,8 @@ public:
         std::unique_lock<std::mutex> lock(access_);
 #endif
         if (map_.contains(key)) {
-            auto const obj = map_[key];
-            if ((get_time() - std::get<2>(obj)) >= expired_after_) {
+            return_type obj{map_[key]};
+            if ((get_time() - std::get<2>(*obj)) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
-- 
2.43.0


From 4460394ba27dacdb59c21e9bd1711c5408e0e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 25/28] fix: a push whose copy of the item failed blocked the
 pipeline for good

---
 include/xitren/comm/pipeline_stage.hpp      | 6 ++++--
 include/xitren/comm/pipeline_stage_pool.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 7307638..864363a 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -57,8 +57,9 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};    // may throw: before a place is taken for it
         auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
@@ -68,8 +69,9 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};    // may throw: before a place is taken for it
         auto const i                          = queue_.tail++;
-        queue_.array[i % queue_.array.size()] = data;
+        queue_.array[i % queue_.array.size()] = std::move(item);
         queue_.ready[i % queue_.array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index: " << queue_.tail << "\n";
diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index a5bd90f..2e47859 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -113,9 +113,10 @@ public:
     void
     push(Type const&& data)
     {
+        ready_type item{data};    // may throw: before a place is taken for it
         auto const min_id{min_thread()};
         auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
@@ -125,9 +126,10 @@ public:
     void
     push(Type const& data)
     {
+        ready_type item{data};    // may throw: before a place is taken for it
         auto const min_id{min_thread()};
         auto const i                                        = pool_[min_id].tail++;
-        pool_[min_id].array[i % pool_[min_id].array.size()] = data;
+        pool_[min_id].array[i % pool_[min_id].array.size()] = std::move(item);
         pool_[min_id].ready[i % pool_[min_id].array.size()] = true;
 #ifdef DEBUG
         Log::trace() << "Index[" << min_id << "]: " << pool_[min_id].tail << "\n";
-- 
2.43.0


From ec1bea09baad591e24865d631b39a977ace814f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:54 +0000
Subject: [PATCH 26/28] fix: observers that leave from within a notification or
 disconnection

The others were skipped or called twice, and with a growing list memory
that was free already was read.
---
 include/xitren/comm/list_walk.hpp | 93 +++++++++++++++++++++++++++++++
 include/xitren/comm/observer.hpp  | 27 ++++++---
 2 files changed, 112 insertions(+), 8 deletions(-)
 create mode 100644 include/xitren/comm/list_walk.hpp

diff --git a/include/xitren/comm/list_walk.hpp b/include/xitren/comm/list_walk.hpp
new file mode 100644
index 0000000..5bf701e
--- /dev/null
+++ b/include/xitren/comm/list_walk.hpp
@@ -0,0 +1,93 @@
+/*!
+_ _
+__ _(_) |_ _ _ ___ _ _
+\ \ / |  _| '_/ -_) ' \
+/_\_\_|\__|_| \___|_||_|
+* @date 20.11.2026
+*/
+#pragma once
+
+#include <cstddef>
+
+namespace xitren::comm {
+
+/**
+ * @brief A walk through a list whose members may leave while they are called: those that stay are reached exactly
+ * once, those that have left are not reached any more.
+ */
+class list_walk {
+public:
+    /**
+     * @brief Starts a walk
+     *
+     * @param list the list
+     * @param count the number of its members
+     */
+    list_walk(void const* list, std::size_t count) noexcept : end{count}, outer_{innermost()}, list_{list}
+    {
+        innermost() = this;
+    }
+    list_walk(list_walk const&) = delete;
+    list_walk&
+    operator=(list_walk const&)
+        = delete;
+    ~list_walk() { innermost() = outer_; }
+
+    /**
+     * @brief Tells the walks under way that a member has left the list
+     *
+     * @param list the list
+     * @param index the place of the member
+     */
+    static void
+    removed(void const* list, std::size_t index) noexcept
+    {
+        for (auto* walk = innermost(); walk != nullptr; walk = walk->outer_) {
+            if (walk->list_ == list) {
+                walk->end -= index < walk->end;
+                walk->next -= index < walk->next;
+            }
+        }
+    }
+
+    /**
+     * @brief Tells the walks under way that the list is empty
+     *
+     * @param list the list
+     */
+    static void
+    cleared(void const* list) noexcept
+    {
+        for (auto* walk = innermost(); walk != nullptr; walk = walk->outer_) {
+            if (walk->list_ == list) {
+                walk->next = walk->end = 0;
+            }
+        }
+    }
+
+    /**
+     * @brief The place of the member that is reached next
+     */
+    std::size_t next{0};
+
+    /**
+     * @brief One past the place of the last one
+     */
+    std::size_t end;
+
+private:
+    list_walk*  outer_;
+    void const* list_;
+
+    /**
+     * @brief The last one that was started and is still under way, of this thread
+     */
+    static list_walk*&
+    innermost() noexcept
+    {
+        static thread_local list_walk* walk{nullptr};
+        return walk;
+    }
+};
+
+}    // namespace xitren::comm
diff --git a/include/xitren/comm/observer.hpp b/include/xitren/comm/observer.hpp
index 108eca2..4a7cd81 100644
--- a/include/xitren/comm/observer.hpp
+++ b/include/xitren/comm/observer.hpp
@@ -7,6 +7,7 @@ __ _(_) |_ _ _ ___ _ _
 */
 #pragma once
 
+#include <xitren/comm/list_walk.hpp>
 #include <xitren/comm/observer_errors.hpp>
 
 #include <algorithm>
@@ -118,9 +119,11 @@ public:
             return observer_errors::internal_data_broken;
         if (count_ == 0) [[unlikely]]
             return observer_errors::not_found;
+        auto const at = std::find(observers_.begin(), observers_.begin() + count_, &observer) - observers_.begin();
         auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);
         if ((observers_.begin() + count_) - it) {
             count_ = it - observers_.begin();
+            list_walk::removed(this, at);
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
@@ -133,10 +136,12 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->disconnect(static_cast<void*>(this));
+        list_walk walk{this, count_};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->disconnect(static_cast<void*>(this));
         }
         count_ = 0;
+        list_walk::cleared(this);
     }
 
     /**
@@ -155,8 +160,9 @@ public:
         if (inside) [[unlikely]]
             return observer_errors::notify_recursion_detected;
         inside = true;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        list_walk walk{this, count_};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->notification(static_cast<void*>(this), n);
         }
         inside = false;
         return observer_errors::ok;
@@ -278,9 +284,11 @@ public:
 #if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
         std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
+        auto const at = std::find(observers_.begin(), observers_.end(), &observer) - observers_.begin();
         if (!std::erase(observers_, &observer)) {
             throw exception{observer_errors::not_found};
         }
+        list_walk::removed(this, at);
     }
 
     /**
@@ -292,10 +300,12 @@ public:
 #if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
         std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
-            item->disconnect(static_cast<void*>(this));
+        list_walk walk{this, observers_.size()};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->disconnect(static_cast<void*>(this));
         }
         observers_.clear();
+        list_walk::cleared(this);
     }
 
     /**
@@ -312,8 +322,9 @@ public:
 #if defined(PTHREAD_MUTEX_DEFAULT) || defined(__GLIBC__)
         std::unique_lock<std::recursive_mutex> lock(access_);
 #endif
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        list_walk walk{this, observers_.size()};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->notification(static_cast<void*>(this), n);
         }
     }
 
-- 
2.43.0


From 655a75f2fb2965fdd8b76b2b3e8c32a4e9feffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:54 +0000
Subject: [PATCH 27/28] fix: mirrors that leave from within a handler or
 disconnection

The others missed the change or were told twice, and a growing list was
read beyond its end.
---
 include/xitren/comm/values/observable.hpp | 30 +++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 92ee7db..0a24269 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -7,6 +7,7 @@ __ _(_) |_ _ _ ___ _ _
 */
 #pragma once
 
+#include <xitren/comm/list_walk.hpp>
 #include <xitren/comm/observer_errors.hpp>
 #include <xitren/comm/values/observed.hpp>
 
@@ -198,9 +199,11 @@ public:
             return observer_errors::internal_data_broken;
         if (count_ == 0) [[unlikely]]
             return observer_errors::not_found;
+        auto const at = std::find(observers_.begin(), observers_.begin() + count_, &observer) - observers_.begin();
         auto it = std::remove(observers_.begin(), observers_.begin() + count_, &observer);
         if ((observers_.begin() + count_) - it) {
             count_ = it - observers_.begin();
+            list_walk::removed(this, at);
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
@@ -213,10 +216,12 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->disconnect(static_cast<void*>(this));
+        list_walk walk{this, count_};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->disconnect(static_cast<void*>(this));
         }
         count_ = 0;
+        list_walk::cleared(this);
     }
 
     /**
@@ -232,8 +237,9 @@ public:
     {
         if (count_ > max_observers) [[unlikely]]
             return observer_errors::internal_data_broken;
-        for (auto& item : std::views::counted(observers_.begin(), count_)) {
-            item->notification(static_cast<void*>(this), n);
+        list_walk walk{this, count_};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->notification(static_cast<void*>(this), n);
         }
         return observer_errors::ok;
     }
@@ -441,9 +447,10 @@ public:
         if (observers_.empty()) [[unlikely]] {
             return observer_errors::not_found;
         }
-        auto it = std::remove(observers_.begin(), observers_.end(), &observer);
+        auto it = std::find(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
-            observers_.erase(it, observers_.end());
+            list_walk::removed(this, it - observers_.begin());
+            observers_.erase(it);
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
@@ -456,10 +463,12 @@ public:
     inline void
     clear_observers() noexcept
     {
-        for (auto& item : observers_) {
-            item->disconnect(static_cast<void*>(this));
+        list_walk walk{this, observers_.size()};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->disconnect(static_cast<void*>(this));
         }
         observers_.clear();
+        list_walk::cleared(this);
     }
 
     /**
@@ -473,8 +482,9 @@ public:
     observer_errors
     notify_observers(observable_type const& n) noexcept
     {
-        for (auto& item : observers_) {
-            item->notification(static_cast<void*>(this), n);
+        list_walk walk{this, observers_.size()};
+        while (walk.next < walk.end) {
+            observers_[walk.next++]->notification(static_cast<void*>(this), n);
         }
         return observer_errors::ok;
     }
-- 
2.43.0


From 1fa7fbd3342c5fa634c1bcb75537b187ebf27f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:54 +0000
Subject: [PATCH 28/28] fix: modules that leave from within a handler

The next module missed the message.
---
 include/xitren/comm/mediator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 9411c19..13fb13e 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -7,6 +7,8 @@ __ _(_) |_ _ _ ___ _ _
 */
 #pragma once
 
+#include <xitren/comm/list_walk.hpp>
+
 #include <array>
 #include <cstdint>
 #include <string>
@@ -291,11 +293,13 @@ public:
     {
         for (std::size_t i = 0; i < modules_cnt_; i++) {
             if (modules_[i] == &c) {
+                auto const at = i;
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
                 --modules_cnt_;
                 modules_[modules_cnt_] = 0;
+                list_walk::removed(this, at);
                 return;
             }
         }
@@ -310,7 +314,9 @@ public:
     void
     send(Data data)
     {
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
+        list_walk walk{this, modules_cnt_};
+        while (walk.next < modules_cnt_) {
+            auto const           i      = walk.next++;
             std::size_t          loc_id = std::hash<std::string>{}(typeid(Data).name());
             data_converter<Data> cnv    = {data};
             if (modules_.at(i)->id_ != loc_id) {
@@ -341,7 +347,9 @@ public:
     distribute(base::module const& sender, std::uint8_t* ptr, std::size_t sz) override
     {
         data(sender.id_, ptr, sz);
-        for (std::size_t i = 0; i < modules_cnt_; i++) {
+        list_walk walk{this, modules_cnt_};
+        while (walk.next < modules_cnt_) {
+            auto const i = walk.next++;
             if (modules_.at(i)->id_ != sender.id_) {
                 modules_.at(i)->receive(sender.id_, ptr, sz);
             }
-- 
2.43.0

