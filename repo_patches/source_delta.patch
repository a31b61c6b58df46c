From 0b09affbeda014901ed6e1b22fe1b5628ec96f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:39 +0000
Subject: [PATCH 01/33] fix: stack_pool::clear() must forget the stacks it gave
 back

---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From 6cd115d5216071d1aa363c566055e90b33f8bfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 02/33] fix: stack_pool::gc() must read the counters under its
 lock

---
 include/libcopp/stack/stack_pool.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..c90acc4 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -224,6 +224,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
   }
 
   size_t gc() {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
     size_t ret = 0;
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
@@ -241,11 +245,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
-- 
2.43.0


From 9d2dc35d130004641b2e6780542eb18aeb592f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 03/33] fix: stack_allocator_memory must not hand out more than
 the attached memory

---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..916db0a 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,7 +101,14 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
-  assert(size > 0 && size_ > 0 && size_ <= memory_size_);
+  // never reach outside the attached memory
+  if (size_ > memory_size_) {
+    size_ = memory_size_ - memory_size_ % stack_traits::page_size();
+  }
+  if (0 == size_) {
+    ctx.sp = nullptr;
+    return;
+  }
 
   ctx.size = size_;
   ctx.sp = static_cast<char *>(start_ptr_) + ctx.size;  // stack down
-- 
2.43.0


From 39161c0a6e458d5b539fba344cf290717b47cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 04/33] fix: stack allocators must fail when the rounded stack
 size overflows

---
 src/libcopp/stack/allocator/stack_allocator_malloc.cpp | 4 ++++
 src/libcopp/stack/allocator/stack_allocator_posix.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
index 343c88b..cd2fdf9 100755
--- a/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_malloc.cpp
@@ -50,6 +50,10 @@ LIBCOPP_COPP_API void stack_allocator_malloc::allocate(stack_context &ctx, std::
   size = (std::min)(size, stack_traits::maximum_size());
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
 
   void *start_ptr = malloc(size_);
 
diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index efb5b11..a028ba5 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -62,6 +62,10 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
 
   std::size_t size_ = stack_traits::round_to_page_size(size) + stack_traits::page_size();  // add one protected page
   assert(size > 0 && size_ > 0);
+  if (size_ < size) {  // overflow
+    ctx.sp = nullptr;
+    return;
+  }
 
   // conform to POSIX.4 (POSIX.1b-1993, _POSIX_C_SOURCE=199309L)
   void *start_ptr =
-- 
2.43.0


From db0714714651e1628395b4fe310ba087bdf06b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 05/33] fix: lock_holder move assignment must take the lock
 over from its source

---
 include/libcopp/utils/lock_holder.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..09c5e5b 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -91,11 +91,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
       return *this;
     }
 
-    if (lock_flag_ != other.lock_flag_) {
-      reset();
-    }
+    reset();
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From 76517ba75aa8ce9f5e9132d448e3f0bf961fc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 06/33] fix: uint64_id_allocator must not hand out ids again
 when the clock steps back

---
 src/libcopp/utils/uint64_id_allocator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libcopp/utils/uint64_id_allocator.cpp b/src/libcopp/utils/uint64_id_allocator.cpp
index b197308..f36896b 100644
--- a/src/libcopp/utils/uint64_id_allocator.cpp
+++ b/src/libcopp/utils/uint64_id_allocator.cpp
@@ -40,6 +40,12 @@ static uint64_t allocate_id_by_atomic() {
       uint64_t now_time = time_part;
       while (time_part == now_time) {
         now_time = (static_cast<uint64_t>(time(nullptr)) & time_mask) - 1577836800;  // 2020-01-01 00:00:00+00:00 UTC
+        now_time = (now_time << seq_bits) >> seq_bits;
+      }
+
+      // the clock may step back, but the time part must not, or IDs would be allocated again
+      if (now_time < time_part) {
+        now_time = time_part + 1;
       }
 
       // if failed, maybe another thread do it
-- 
2.43.0


From 8638692fd3bdfef295374f22fc4797b29e0e1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 07/33] fix: swapping two trivially copyable results must swap
 the whole union

---
 include/libcopp/future/storage.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..2136686 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -433,13 +433,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
   }
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
-    using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
-    swap(mode_, other.mode_);
+    // The two sides may hold different members of the union, so swap them as a whole
+    result_base tmp = *this;
+    *this = other;
+    other = tmp;
   }
 
   UTIL_FORCEINLINE friend void swap(result_base &l, result_base &r) LIBCOPP_MACRO_NOEXCEPT { l.swap(r); }
-- 
2.43.0


From c56189947ba99f1fce72a40694fa43deacefe9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:36 +0000
Subject: [PATCH 08/33] fix: killing or cancelling a task that already ended
 must be refused

---
 include/libcotask/task.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..2d4d75f 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -569,6 +569,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       if (EN_TS_RUNNING == from_status) {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
@@ -602,6 +606,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From 4efb3c99eef39f7d705b6629119424a82ca816fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 09/33] fix: creating a coroutine or task must not wrap around
 on huge private buffers

---
 include/libcopp/coroutine/coroutine_context_container.h | 5 +++++
 include/libcotask/task.h                                | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..fcee634 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -75,6 +75,11 @@ class coroutine_context_container : public coroutine_context {
       stack_sz = stack_traits::default_size();
     }
 
+    // can never fit, and the sizes below must not wrap
+    if (private_buffer_size >= stack_sz || coroutine_size >= stack_sz - private_buffer_size) {
+      return ret;
+    }
+
     // padding to sizeof size_t
     coroutine_size = align_address_size(coroutine_size);
     const size_t this_align_size = align_address_size(sizeof(this_type));
diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2d4d75f..b1458e5 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -101,7 +101,8 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     size_t action_size = coroutine_type::align_address_size(sizeof(a_t));
     size_t task_size = coroutine_type::align_address_size(sizeof(self_type));
 
-    if (stack_size <= sizeof(impl::task_impl *) + private_buffer_size + action_size + task_size) {
+    if (private_buffer_size >= stack_size ||
+        stack_size - private_buffer_size <= sizeof(impl::task_impl *) + action_size + task_size) {
       return ptr_type();
     }
 
-- 
2.43.0


From c6827dbc2a6c193c652c61154e8262be27c278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 10/33] fix: a pending task must be ended before its action is
 destroyed

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index b1458e5..203838b 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -793,6 +793,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     size_t left = --p->ref_count_;
     if (0 == left) {
+      // a pending task runs to its end first, as long as its action is still available
+      EN_TASK_STATUS status = p->get_status();
+      if (status > EN_TS_CREATED && status < EN_TS_DONE) {
+        ++p->ref_count_;
+        p->kill(EN_TS_TIMEOUT);
+        if (0 != --p->ref_count_) {
+          return;
+        }
+      }
+
       // save coroutine context first, make sure it's still available after destroy task
       using this_coroutine_type = typename task<TCO_MACRO>::coroutine_type;
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
-- 
2.43.0


From 938e80985686d403c9deffb972cf649bf92b4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 11/33] fix: a coroutine must not be placed in a stack that is
 smaller than requested

---
 include/libcopp/coroutine/coroutine_context_container.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index fcee634..123503f 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -97,6 +97,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // the allocator may hand out less than requested(stack pool or attached memory)
+    if (callee_stack.size <= coroutine_context::align_stack_size(coroutine_size + private_buffer_size)) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
-- 
2.43.0


From d6f5dbd580e119a572de8319de36f6420a7d9ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 12/33] fix: sizes of a coroutine must not wrap around when the
 stack size is huge as well

---
 include/libcopp/coroutine/coroutine_context_container.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 123503f..4fbd879 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -76,7 +76,7 @@ class coroutine_context_container : public coroutine_context {
     }
 
     // can never fit, and the sizes below must not wrap
-    if (private_buffer_size >= stack_sz || coroutine_size >= stack_sz - private_buffer_size) {
+    if (private_buffer_size > static_cast<size_t>(-1) / 4 || coroutine_size > static_cast<size_t>(-1) / 4) {
       return ret;
     }
 
-- 
2.43.0


From deec3b5c4e82232422a3b4c888d888bdfb96c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 13/33] fix: a task manager must refuse new tasks while it is
 being reset or destroyed

---
 include/libcotask/task_manager.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..ac3d0e7 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -235,7 +235,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
@@ -939,7 +938,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
-- 
2.43.0


From 0f140942146a153de30dcb26fa92a9da6dfbcc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 14/33] fix: task timers must carry nanoseconds into seconds

---
 include/libcotask/task_manager.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index ac3d0e7..8d6adba 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -70,6 +70,14 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY tickspec_t {
 #endif
 };
 
+// carry nanoseconds into seconds, time points are compared by seconds first
+inline void normalize_tickspec(tickspec_t &t) {
+  while (t.tv_nsec >= 1000000000) {
+    t.tv_nsec -= 1000000000;
+    ++t.tv_sec;
+  }
+}
+
 template <class TTASK_ID_TYPE>
 struct LIBCOPP_COTASK_API_HEAD_ONLY task_timer_node {
   tickspec_t expired_time;
@@ -705,6 +713,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::normalize_tickspec(new_checkpoint.expired_time);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -829,6 +838,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     timer_node.task_id = node.task_->get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1312,6 +1322,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        detail::normalize_tickspec(new_checkpoint.expired_time);
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1425,6 +1436,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     timer_node.task_id = node.task_.get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    detail::normalize_tickspec(timer_node.expired_time);
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From 671815ded5ca2c24826abb2e27cc94293ad01f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 15/33] fix: a refused cancel must not take a running task out
 of its manager

---
 include/libcotask/task_manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 8d6adba..0042b65 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -593,6 +593,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_NOT_FOUND;
       }
 
+      // a running task can not be canceled and stays in the manager
+      if (iter->second.task_ && EN_TS_RUNNING == iter->second.task_->get_status()) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
+      }
+
       task_inst = std::move(iter->second.task_);
 
       remove_timeout_timer(iter->second);
-- 
2.43.0


From 4966eaf1e1164698bb3595462d848332025d47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 16/33] fix: tasks that leave a manager by reset, destruction
 or timeout must not refer to it any more

---
 include/libcotask/task_manager.h | 34 ++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 0042b65..54e3514 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -247,6 +247,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       last_tick_time_.tv_nsec = 0;
     }
 
+    // they do not belong to this manager any more, which may be destroyed before they end
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+      task_type::task_manager_helper::cleanup_task_manager(**iter, reinterpret_cast<void *>(this));
+    }
+#endif
+
     // then, kill all tasks
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
       if (!(*iter)->is_exiting()) {
@@ -772,13 +779,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         }
       }
 
-      // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      }
 #endif
+
+      // task call can not be used when lock is on
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
@@ -957,15 +967,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       last_tick_time_.tv_nsec = 0;
     }
 
-    // then, kill all tasks
-    for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
-      if (!(*iter).is_exiting()) {
+    // they do not belong to this manager any more, which may be destroyed before they end
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-        using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
-        task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+    for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+      task_type::task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+    }
 #  endif
 
+    // then, kill all tasks
+    for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+      if (!(*iter).is_exiting()) {
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1378,13 +1389,16 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         }
       }
 
-      // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+
+      // task call can not be used when lock is on
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From 3ebd1540a8c3bd952d9891c765085b5409d901e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:51 +0000
Subject: [PATCH 17/33] fix: a task must not call a manager that its followers
 destroyed

---
 include/libcotask/task.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 203838b..542e75a 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -692,10 +692,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   void active_next_tasks() {
 #endif
     std::list<std::pair<ptr_type, void *> > next_list;
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-    void *manager_ptr;
-    void (*manager_fn)(void *, self_type &);
-#endif
     // first, lock and swap container
     {
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
@@ -703,12 +699,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
           inner_action_lock_);
 #endif
       next_list.swap(next_list_.member_list_);
-#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
-      manager_ptr = binding_manager_ptr_;
-      manager_fn = binding_manager_fn_;
-      binding_manager_ptr_ = nullptr;
-      binding_manager_fn_ = nullptr;
-#endif
     }
 
     // then, do all the pending tasks
@@ -739,6 +729,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     // finally, notify manager to cleanup(maybe start or resume with task's API but not task_manager's)
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+    // the manager may be reset or destroyed by the tasks above, so read it only now
+    void *manager_ptr;
+    void (*manager_fn)(void *, self_type &);
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#  endif
+      manager_ptr = binding_manager_ptr_;
+      manager_fn = binding_manager_fn_;
+      binding_manager_ptr_ = nullptr;
+      binding_manager_fn_ = nullptr;
+    }
     if (nullptr != manager_ptr && nullptr != manager_fn) {
       (*manager_fn)(manager_ptr, *this);
     }
-- 
2.43.0


From d7508b5c6fffa7a84e0477caaefe165486af4d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 18/33] fix: callers removed while their callee is resuming
 must not be resumed, and all of them must see the value

---
 .../libcopp/coroutine/std_coroutine_common.h  | 15 ++++
 .../coroutine/std_coroutine_common.cpp        | 82 +++++++++++++------
 2 files changed, 72 insertions(+), 25 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..acc92cc 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -190,6 +190,21 @@ class promise_caller_manager {
   // Mostly, there is only one caller for a promise, we needn't hash map to store one handle
   std::unique_ptr<multi_caller_set> multiple_callers_;
 #  endif
+
+  // Callers picked by a running resume_callers(), they can be removed before they are resumed
+  struct LIBCOPP_COPP_API_HEAD_ONLY resume_scope {
+    promise_caller_manager *owner;
+    resume_scope *outer;
+    multi_caller_set callers;
+
+    explicit resume_scope(promise_caller_manager &manager) noexcept;
+    ~resume_scope();
+    resume_scope(const resume_scope &) = delete;
+    resume_scope &operator=(const resume_scope &) = delete;
+
+    size_t resume_all();
+  };
+  resume_scope *resuming_;
 };
 
 class promise_base_type {
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..e27eee1 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -24,10 +24,42 @@ LIBCOPP_COPP_API promise_caller_manager::promise_caller_manager()
 #  else
       unique_caller_(nullptr)
 #  endif
-{
+      ,
+      resuming_(nullptr) {
 }
 
-LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {}
+LIBCOPP_COPP_API promise_caller_manager::~promise_caller_manager() {
+  // resume_callers() may be still running, it should not access this object any more
+  for (resume_scope *scope = resuming_; nullptr != scope; scope = scope->outer) {
+    scope->owner = nullptr;
+  }
+}
+
+promise_caller_manager::resume_scope::resume_scope(promise_caller_manager &manager) noexcept
+    : owner(&manager), outer(manager.resuming_) {
+  manager.resuming_ = this;
+}
+
+promise_caller_manager::resume_scope::~resume_scope() {
+  if (nullptr != owner) {
+    owner->resuming_ = outer;
+  }
+}
+
+size_t promise_caller_manager::resume_scope::resume_all() {
+  size_t resume_count = 0;
+  // Any waiting caller may be removed and even be destroyed by the callers resumed before, so always pick the first one
+  while (!callers.empty()) {
+    handle_delegate caller = *callers.begin();
+    callers.erase(callers.begin());
+    if (caller.handle && !caller.handle.done() &&
+        (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
+      caller.handle.resume();
+      ++resume_count;
+    }
+  }
+  return resume_count;
+}
 
 LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegate) noexcept {
   if (!delegate.handle || delegate.handle.done()) {
@@ -89,6 +121,11 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
 #  endif
   } while (false);
 
+  // Callers which are picked by resume_callers() but not resumed yet
+  for (resume_scope *scope = resuming_; nullptr != scope; scope = scope->outer) {
+    has_caller = scope->callers.erase(delegate) > 0 || has_caller;
+  }
+
   return has_caller;
 }
 
@@ -104,45 +141,40 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
       ++resume_count;
     }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
+    // The promise object may be destroyed when resuming
+    resume_scope scope{*this};
+    scope.callers.swap(std::get<multi_caller_set>(callers_));
+    resume_count += scope.resume_all();
   }
 #  else
+  // The promise object may be destroyed when resuming
   auto unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
+  resume_scope scope{*this};
+  if (multiple_callers_) {
+    scope.callers.swap(*multiple_callers_);
+    multiple_callers_.reset();
+  }
 
-  // The promise object may be destroyed after first caller.resume()
   if (unique_caller.handle && !unique_caller.handle.done() &&
       (nullptr == unique_caller.promise || !unique_caller.promise->check_flag(promise_flag::kDestroying))) {
     unique_caller.handle.resume();
     ++resume_count;
   }
 
-  if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
-      if (caller.handle && !caller.handle.done() &&
-          (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
-        type_erased_handle_type handle = caller.handle;
-        handle.resume();
-        ++resume_count;
-      }
-    }
-  }
+  resume_count += scope.resume_all();
 #  endif
   return resume_count;
 }
 
 LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexcept {
+  // There are still callers waiting to be resumed
+  for (resume_scope *scope = resuming_; nullptr != scope; scope = scope->outer) {
+    if (!scope->callers.empty()) {
+      return true;
+    }
+  }
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
   if (std::holds_alternative<handle_delegate>(callers_)) {
     return false;
-- 
2.43.0


From 64263a9a8c577afa31c334518977dba4b892d4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:08 +0000
Subject: [PATCH 19/33] fix: killing a stackless task must not use its context
 after the last handle is gone

---
 include/libcotask/task_promise.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..4dd81ab 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -974,7 +974,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return false;
     }
 
-    COPP_UNLIKELY_IF (!context_) {
+    // The last reference of the context may be dropped when resuming, keep it until the lock is released
+    context_pointer_type context = context_;
+    COPP_UNLIKELY_IF (!context) {
       return false;
     }
 
@@ -984,19 +986,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
             LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock>,
         LIBCOPP_COPP_NAMESPACE_ID::util::lock::detail::default_try_unlock_action<
             LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock>>
-        lock_holder{context_->internal_operation_lock_};
+        lock_holder{context->internal_operation_lock_};
 
     if (!lock_holder.is_available()) {
       return false;
     }
 
-    auto& handle = context_->get_handle_delegate().handle;
+    auto& handle = context->get_handle_delegate().handle;
     COPP_UNLIKELY_IF (!handle) {
       return false;
     }
 
     bool ret = true;
-    while (context_) {
+    while (true) {
       COPP_UNLIKELY_IF (!handle) {
         ret = false;
         break;
@@ -1007,13 +1009,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
         break;
       }
 
-      task_status_type current_status = get_status();
+      task_status_type current_status = context->get_status();
       if (current_status >= task_status_type::kDone) {
         ret = false;
         break;
       }
 
-      auto promise = context_->get_handle_delegate().promise;
+      auto promise = context->get_handle_delegate().promise;
       COPP_UNLIKELY_IF (nullptr == promise) {
         return false;
       }
-- 
2.43.0


From 2dde2a39c6109e50ac89d604192deb5fa69f8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 20/33] fix: a generator must survive its waiters dropping it
 while its value is set

---
 include/libcopp/coroutine/generator_promise.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..d06bcda 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -232,7 +232,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_context
   using base_type::is_pending;
   using base_type::is_ready;
   using base_type::reset_value;
-  using base_type::set_value;
+
+  template <class... TARGS>
+  UTIL_FORCEINLINE void set_value(TARGS&&... args) {
+    // The callers may drop the last reference of this object
+    std::shared_ptr<generator_context> self = this->weak_from_this().lock();
+    base_type::set_value(std::forward<TARGS>(args)...);
+  }
 };
 
 template <class TCONTEXT>
-- 
2.43.0


From a76e468b55df2cc667414f251f1c807ac58be974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 21/33] fix: the suspend callback of a generator must survive
 until it returns

---
 include/libcopp/coroutine/generator_promise.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index d06bcda..f242e91 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -336,8 +336,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
       // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Keep the callback alive until it returns
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
@@ -569,8 +571,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
     generator.get_context()->add_caller(caller);
 
     // Custom event. awaitable object may be deleted after this call
-    if (generator.vtable_ && generator.vtable_->get_await_suspend_callback()) {
-      generator.vtable_->get_await_suspend_callback()(generator.get_context());
+    // Keep the callback alive until it returns
+    auto vtable = generator.vtable_;
+    if (vtable && vtable->get_await_suspend_callback()) {
+      vtable->get_await_suspend_callback()(generator.get_context());
     }
   }
 
-- 
2.43.0


From 7e5e56a13b67b9e071863fe498630bd067a909d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 22/33] fix: assigning to a callable must end the callable it
 held

---
 include/libcopp/coroutine/callable_promise.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..43ee488 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -317,12 +317,19 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    if (this != &other) {
+      handle_type handle = other.current_handle_;
+      other.current_handle_ = nullptr;
+      reset();
+      current_handle_ = handle;
+    }
     return *this;
   }
 
-  ~callable_future() {
+  ~callable_future() { reset(); }
+
+ private:
+  void reset() {
     // Move current_handle_ to stack here to allow recursive call of force_destroy
     handle_type current_handle = current_handle_;
     current_handle_ = nullptr;
@@ -341,6 +348,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
     }
   }
 
+ public:
   awaitable_type operator co_await() { return awaitable_type{current_handle_}; }
 
   inline bool is_ready() const noexcept {
-- 
2.43.0


From 8f09757d997455bd2c225072f4bbba4b3102eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:16 +0000
Subject: [PATCH 23/33] fix: some() and all() must count members which are
 ready from the beginning

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 43ee488..99a0a47 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -633,8 +633,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From 1f0e651d27a2c25b912a1c0bc7540763dc5f34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:24 +0000
Subject: [PATCH 24/33] fix: some() must notice members that become ready while
 it is being attached

---
 include/libcopp/coroutine/callable_promise.h | 30 ++++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 99a0a47..b72ba9e 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -474,6 +474,8 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   size_t scan_bound = 0;
   promise_status status = promise_status::kCreated;
   promise_caller_manager::handle_delegate caller_handle = promise_caller_manager::handle_delegate(nullptr);
+  // Set to true when this context is finished while it's still being attached to the pending futures
+  bool* attaching_finished = nullptr;
 };
 
 template <class TFUTURE, class TDELEGATE_ACTION>
@@ -496,6 +498,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     }
 
     context.caller_handle = nullptr;
+    if (nullptr != context.attaching_finished) {
+      *context.attaching_finished = true;
+      context.attaching_finished = nullptr;
+    }
     if (context.status < promise_status::kDone) {
       context.status = promise_status::kKilled;
     }
@@ -553,11 +559,29 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
       // set caller for all futures
       if (!context_->caller_handle) {
-        context_->caller_handle = caller;
+        // The callback may resume the caller, which may destroy this awaitable object and even the whole context and the
+        // futures.
+        context_type* context = context_;
+        promise_caller_manager::handle_delegate caller_handle{caller};
+        bool finished = false;
+        context->caller_handle = caller_handle;
+        context->attaching_finished = &finished;
         // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
+        std::list<future_type*> copy_pending = context->pending;
         for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
+          // Futures which are already finished by the callback of the previous ones will not wake the caller any more
+          if (!delegate_action_type::is_pending(*pending_future)) {
+            ++context->scan_bound;
+            continue;
+          }
+          delegate_action_type::suspend_future(caller_handle, *pending_future);
+          if (finished) {
+            return true;
+          }
+        }
+        context->attaching_finished = nullptr;
+        if (context->scan_bound >= context->ready_bound) {
+          caller_handle.handle.resume();
         }
       }
 
-- 
2.43.0


From f6693e62478230080363522ce9491a856a384054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 25/33] fix: removing a stackless task from its manager must
 report success as 0

---
 include/libcotask/task_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 54e3514..9e4c965 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -1154,7 +1154,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       task_status_type task_status = task_inst.get_status();
       if (task_status > task_status_type::kCreated && task_status < task_status_type::kDone) {
-        return task_inst.kill(task_status_type::kKilled);
+        task_inst.kill(task_status_type::kKilled);
       }
     }
 
-- 
2.43.0


From 6e71230be5d7b851873b3329fe48df02e7c425ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:53 +0000
Subject: [PATCH 26/33] fix: a coroutine must not be entered by another thread
 before it has left its stack

yield() published the status before the context was saved, so a second thread could resume the old context on the same
stack. The status now changes in start(), after the callee has been left.
---
 src/libcopp/coroutine/coroutine_context.cpp | 35 ++++++++++-----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/libcopp/coroutine/coroutine_context.cpp b/src/libcopp/coroutine/coroutine_context.cpp
index 4abd2f6..b33f7a8 100755
--- a/src/libcopp/coroutine/coroutine_context.cpp
+++ b/src/libcopp/coroutine/coroutine_context.cpp
@@ -346,10 +346,6 @@ LIBCOPP_COPP_API int coroutine_context::start(std::exception_ptr &unhandled, voi
 #else
 LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
 #endif
-  if (nullptr == callee_) {
-    return COPP_EC_NOT_INITED;
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   {
     coroutine_context_base *this_ctx = detail::get_this_coroutine_context();
@@ -382,6 +378,12 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
     }
   } while (true);
 
+  // only the thread which owns this coroutine may access callee_
+  if (nullptr == callee_) {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+    return COPP_EC_NOT_INITED;
+  }
+
   jump_src_data_t jump_data;
 #if defined(LIBCOPP_MACRO_ENABLE_WIN_FIBER) && LIBCOPP_MACRO_ENABLE_WIN_FIBER
   jump_data.from_co = LIBCOPP_COPP_NAMESPACE_ID::this_coroutine::get_coroutine();
@@ -397,18 +399,20 @@ LIBCOPP_COPP_API int coroutine_context::start(void *priv_data) {
   jump_to(callee_, callee_stack_, callee_stack_, jump_data);
 #endif
 
-  // Move changing status to EN_CRS_EXITED is finished
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    // if in finished status, change it to exited
-    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
-  }
-
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
   COPP_UNLIKELY_IF (unhandle_exception_) {
     std::swap(unhandled, unhandle_exception_);
   }
 #endif
 
+  // The callee has left its stack and its context is saved, now other threads may enter it
+  if (check_flags(flag_type::EN_CFT_FINISHED)) {
+    // if in finished status, change it to exited
+    status_.store(status_type::EN_CRS_EXITED, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  } else {
+    status_.store(status_type::EN_CRS_READY, LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
+  }
+
   return COPP_EC_SUCCESS;
 }
 
@@ -424,14 +428,9 @@ LIBCOPP_COPP_API int coroutine_context::yield(void **priv_data) LIBCOPP_MACRO_NO
     return COPP_EC_NOT_INITED;
   }
 
-  int from_status = status_type::EN_CRS_RUNNING;
-  int to_status = status_type::EN_CRS_READY;
-  if (check_flags(flag_type::EN_CFT_FINISHED)) {
-    to_status = status_type::EN_CRS_FINISHED;
-  }
-  if (false == status_.compare_exchange_strong(from_status, to_status,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acq_rel,
-                                               LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire)) {
+  // this coroutine is still running here, start() changes the status after the context is saved
+  int from_status = status_.load(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_acquire);
+  if (status_type::EN_CRS_RUNNING != from_status) {
     switch (from_status) {
       case status_type::EN_CRS_INVALID:
         return COPP_EC_NOT_INITED;
-- 
2.43.0


From fac4a93e99c20901234959616245ebf2ccbe7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:53 +0000
Subject: [PATCH 27/33] fix: the data passed to kill() of a task running on
 another thread could be lost

kill() stored it after the new status was already visible to the running thread.
---
 include/libcotask/task.h | 48 ++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 542e75a..6527f12 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -503,7 +503,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         }
       }
 
-      finish_priv_data_ = priv_data;
+      {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+        LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+            inner_action_lock_);
+#endif
+        finish_priv_data_ = priv_data;
+      }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
       _notify_finished(unhandled, priv_data);
 #else
@@ -514,10 +520,19 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 
     while (true) {
       if (from_status >= EN_TS_DONE) {  // canceled or killed
+        void *finish_priv_data;
+        {
+          // kill() holds this lock until finish_priv_data_ is set
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+          LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+              inner_action_lock_);
+#endif
+          finish_priv_data = finish_priv_data_;
+        }
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
-        _notify_finished(unhandled, finish_priv_data_);
+        _notify_finished(unhandled, finish_priv_data);
 #else
-        _notify_finished(finish_priv_data_);
+        _notify_finished(finish_priv_data);
 #endif
         break;
       }
@@ -606,15 +621,26 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #endif
     EN_TASK_STATUS from_status = get_status();
 
-    do {
-      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
-        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
-      }
+    {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
+#endif
+      do {
+        COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+          return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+        }
 
-      COPP_LIKELY_IF (_cas_status(from_status, status)) {
-        break;
+        COPP_LIKELY_IF (_cas_status(from_status, status)) {
+          break;
+        }
+      } while (true);
+
+      // the thread which is running this task reads it after it saw the status
+      if (EN_TS_RUNNING == from_status) {
+        finish_priv_data_ = priv_data;
       }
-    } while (true);
+    }
 
     if (EN_TS_RUNNING != from_status) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
@@ -622,8 +648,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
 #else
       _notify_finished(priv_data);
 #endif
-    } else {
-      finish_priv_data_ = priv_data;
     }
 
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
-- 
2.43.0


From 8da5b7625390e4a3239b6f915eb7d74d65d5c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 28/33] fix: tick() of a task manager could read an empty timer
 set when another thread removed the last task

The set was checked before the lock was taken; the last tick time was written without the lock.
---
 include/libcotask/task_manager.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 9e4c965..7d50aae 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -748,7 +748,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -758,6 +758,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        // other threads may have removed the last one
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
@@ -797,7 +802,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    {
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#endif
+      last_tick_time_ = now_tick_time;
+    }
 
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
     task_type::maybe_rethrow(eptrs);
@@ -1358,7 +1369,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1368,6 +1379,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        // other threads may have removed the last one
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
@@ -1403,7 +1419,13 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
     }
 
-    last_tick_time_ = now_tick_time;
+    {
+#  if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard{
+          action_lock_};
+#  endif
+      last_tick_time_ = now_tick_time;
+    }
     return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_SUCCESS;
   }
 
-- 
2.43.0


From 3785550fe339fd679c9512c770bd282989a8efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 29/33] fix: stack_allocator_posix handed out a stack without
 guard page when mprotect failed

---
 src/libcopp/stack/allocator/stack_allocator_posix.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/stack/allocator/stack_allocator_posix.cpp b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
index a028ba5..0c349fb 100755
--- a/src/libcopp/stack/allocator/stack_allocator_posix.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_posix.cpp
@@ -81,7 +81,11 @@ LIBCOPP_COPP_API void stack_allocator_posix::allocate(stack_context &ctx, std::s
   }
 
   // memset(start_ptr, 0, size_);
-  ::mprotect(start_ptr, stack_traits::page_size(), PROT_NONE);
+  if (0 != ::mprotect(start_ptr, stack_traits::page_size(), PROT_NONE)) {  // never hand out a stack without its guard
+    ::munmap(start_ptr, size_);
+    ctx.sp = nullptr;
+    return;
+  }
 
   ctx.size = size_;
   ctx.sp = static_cast<char *>(start_ptr) + ctx.size;  // stack down
-- 
2.43.0


From cf210eaf694ef799c2f0b7984c9fb8c2e79adc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 30/33] fix: moving into a result from a result that its value
 owns read freed memory

---
 include/libcopp/future/storage.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 2136686..1d16c6e 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -490,8 +490,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, false> {
   }
 
   result_base &operator=(result_base &&other) {
-    swap(other);
-    other.reset();
+    // other may be owned by the value this object holds, so take it over before that value is destroyed
+    result_base holder(std::move(other));
+    swap(holder);
     return *this;
   }
 
-- 
2.43.0


From af8f4596a4174690010fc171f0f85bc9b6150212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 31/33] fix: assigning a generator from one that its own value
 owns read freed memory

---
 include/libcopp/coroutine/generator_promise.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index f242e91..184a751 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -504,8 +504,19 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_future {
 
   generator_future(generator_future&&) = default;
   generator_future(const generator_future&) = default;
-  generator_future& operator=(generator_future&&) = default;
-  generator_future& operator=(const generator_future&) = default;
+  generator_future& operator=(generator_future&& other) noexcept {
+    // other may be owned by the value of the old context, so take over all of it before the old context is released
+    generator_future holder{std::move(other)};
+    context_.swap(holder.context_);
+    vtable_.swap(holder.vtable_);
+    return *this;
+  }
+  generator_future& operator=(const generator_future& other) {
+    generator_future holder{other};
+    context_.swap(holder.context_);
+    vtable_.swap(holder.vtable_);
+    return *this;
+  }
 
   ~generator_future() {
     if (context_) {
-- 
2.43.0


From 9d5145971b0faa960268f3f63e58be3eb3997535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 32/33] fix: a callable assigned by the body that the
 assignment ends was leaked

---
 include/libcopp/coroutine/callable_promise.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index b72ba9e..626ade2 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -318,9 +318,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
     if (this != &other) {
-      handle_type handle = other.current_handle_;
-      other.current_handle_ = nullptr;
-      reset();
+      // The old coroutine may assign this object when it's ended by the holder
+      callable_future holder{std::move(other)};
+      handle_type handle = holder.current_handle_;
+      holder.current_handle_ = current_handle_;
       current_handle_ = handle;
     }
     return *this;
-- 
2.43.0


From 7b49116a8be75194303242b66698eba2533b9c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:58 +0000
Subject: [PATCH 33/33] fix: assigning a task handle from one that the old task
 owns read freed memory

---
 include/libcotask/task_promise.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 4dd81ab..8a23469 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -804,12 +804,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-
-    COPP_LIKELY_IF (other.context_) {
-      ++other.context_->future_counter_;
-    }
-    context_ = other.context_;
+    // other may be owned by the old task, and the old task may assign this object when it's ended by the holder
+    task_future_base holder{other};
+    context_.swap(holder.context_);
   }
 
   void assign(task_future_base&& other) noexcept {
@@ -817,10 +814,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-    context_.swap(other.context_);
-
-    return;
+    // other may be owned by the old task, and the old task may assign this object when it's ended by the holder
+    task_future_base holder{std::move(other)};
+    context_.swap(holder.context_);
   }
 
   void reset() {
-- 
2.43.0

