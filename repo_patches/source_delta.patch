From 84f434f312feeb94f64b7665db8f2d4481112268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 01/30] fix: stack_pool::clear() must forget the stacks it
 released

The freed stacks stayed in the free list and were handed out again by the next allocate().
---
 include/libcopp/stack/stack_pool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 374d1b8..4283200 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -301,6 +301,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
     for (typename std::list<stack_context>::iterator iter = free_list_.begin(); iter != free_list_.end(); ++iter) {
       alloc_.deallocate(*iter);
     }
+    free_list_.clear();
 
     LIBCOPP_UTIL_LOCK_ATOMIC_THREAD_FENCE(LIBCOPP_COPP_NAMESPACE_ID::util::lock::memory_order_release);
   }
-- 
2.43.0


From 0e14f0b11586d78fd9f55410645df0cda17a62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 02/30] fix: stack_pool::allocate() leaked a cached stack that
 is too small

It was dropped from the free list without being returned to the allocator.
---
 include/libcopp/stack/stack_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 4283200..31eb325 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -160,7 +160,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
         limits_.used_stack_size += ctx.size;
         return;
       } else {
-        // just pop cache
+        // release the stack which is too small to be reused
+        alloc_.deallocate(*iter);
         free_list_.pop_back();
       }
     }
-- 
2.43.0


From 0748078e86a4ccdb945b60046510b24aec3452e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 03/30] fix: stack_pool::gc() decided on the counters before
 taking the lock

The counters are written by other threads under the lock.
---
 include/libcopp/stack/stack_pool.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcopp/stack/stack_pool.h b/include/libcopp/stack/stack_pool.h
index 31eb325..4b10adc 100755
--- a/include/libcopp/stack/stack_pool.h
+++ b/include/libcopp/stack/stack_pool.h
@@ -226,6 +226,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
 
   size_t gc() {
     size_t ret = 0;
+#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
+    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+        action_lock_);
+#endif
+
     // gc only if free stacks is greater than used
     if (limits_.used_stack_size >= limits_.free_stack_size && limits_.used_stack_number >= limits_.free_stack_number) {
       return ret;
@@ -242,11 +247,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY stack_pool {
       }
     }
 
-#if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        action_lock_);
-#endif
-
     size_t keep_size = limits_.free_stack_size >> 1;
     size_t keep_number = limits_.free_stack_number >> 1;
     size_t left_gc = conf_.gc_number;
-- 
2.43.0


From a21065ad15c69d2de46dbe299f75ba898cf97a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 04/30] fix: do not construct a coroutine outside of a stack
 smaller than requested

Pool and attached-memory allocators may return a smaller stack than asked for; the context object was
placement-constructed below its start before the size was checked.
---
 include/libcopp/coroutine/coroutine_context_container.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcopp/coroutine/coroutine_context_container.h b/include/libcopp/coroutine/coroutine_context_container.h
index 3d5a46c..62d6216 100755
--- a/include/libcopp/coroutine/coroutine_context_container.h
+++ b/include/libcopp/coroutine/coroutine_context_container.h
@@ -92,6 +92,12 @@ class coroutine_context_container : public coroutine_context {
       return ret;
     }
 
+    // the allocator may provide a smaller stack than required
+    if (callee_stack.size <= coroutine_size + private_buffer_size) {
+      alloc.deallocate(callee_stack);
+      return ret;
+    }
+
     // placement new
     unsigned char *this_addr = reinterpret_cast<unsigned char *>(callee_stack.sp);
     // stack down
-- 
2.43.0


From 04867d992d66c5e0d37ba324dadf56e68f39860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 05/30] fix: stack_allocator_memory must not hand out more than
 the attached buffer

Rounding up to a page could place the stack end behind the buffer.
---
 src/libcopp/stack/allocator/stack_allocator_memory.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libcopp/stack/allocator/stack_allocator_memory.cpp b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
index 2616a69..e556731 100755
--- a/src/libcopp/stack/allocator/stack_allocator_memory.cpp
+++ b/src/libcopp/stack/allocator/stack_allocator_memory.cpp
@@ -101,6 +101,14 @@ LIBCOPP_COPP_API void stack_allocator_memory::allocate(stack_context &ctx, std::
   size = (std::min)(size, memory_size_);
 
   std::size_t size_ = stack_traits::round_to_page_size(size);
+  if (size_ > memory_size_) {
+    // never exceed the attached buffer, only whole pages inside it can be used
+    size_ = memory_size_ - memory_size_ % stack_traits::page_size();
+  }
+  if (0 == size_) {
+    ctx.sp = nullptr;
+    return;
+  }
   assert(size > 0 && size_ > 0 && size_ <= memory_size_);
 
   ctx.size = size_;
-- 
2.43.0


From 05613b412ac74bf257c5ee5ea134353e4c56e364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 06/30] fix: lock_holder move assignment left two holders of
 one lock

---
 include/libcopp/utils/lock_holder.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libcopp/utils/lock_holder.h b/include/libcopp/utils/lock_holder.h
index 4a4ebf7..96d09e4 100755
--- a/include/libcopp/utils/lock_holder.h
+++ b/include/libcopp/utils/lock_holder.h
@@ -96,6 +96,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY lock_holder {
     }
 
     lock_flag_ = other.lock_flag_;
+    other.lock_flag_ = nullptr;
     return *this;
   }
 
-- 
2.43.0


From bbd1b36a05b5d74c718e1463603a210f665bec7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 07/30] fix: task kill() must not hold its lock while it
 resumes the coroutine

---
 include/libcotask/task_promise.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index c407ca4..d7e3a79 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -1022,6 +1022,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
         continue;
       }
 
+      // the status is settled now and the resumed coroutine may drop the last reference to the context and its lock
+      lock_holder.reset();
+
       if ((force_resume || promise->is_waiting()) && !promise->check_flag(promise_flag::kHasReturned) &&
           !promise->check_flag(promise_flag::kDestroying)) {
         // rethrow a exception in c++20 coroutine will crash when using MSVC now(VS2022)
-- 
2.43.0


From df0cf437cf58f3979cdb6ebc0ed3d9626d48632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 08/30] fix: task_manager::reset() and tick() left removed
 tasks bound to the manager

---
 include/libcotask/task_manager.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index a7dc903..85dbcec 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -242,6 +242,12 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
     // then, kill all tasks
     for (typename std::vector<task_ptr_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
+#if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      using task_manager_helper = typename task_type::task_manager_helper;
+      // this manager may be destroyed before the task finishes
+      task_manager_helper::cleanup_task_manager(*(*iter), reinterpret_cast<void *>(this));
+#endif
+
       if (!(*iter)->is_exiting()) {
         (*iter)->kill(EN_TS_KILLED);
       }
@@ -760,12 +766,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
       }
 
       // task call can not be used when lock is on
-      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst, reinterpret_cast<void *>(this));
+      }
 #endif
+      if (task_inst && !task_inst->is_exiting()) {
 #if defined(LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR) && LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR
         task_inst->kill(eptrs, EN_TS_TIMEOUT, nullptr);
 #else
@@ -946,13 +954,15 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
     // then, kill all tasks
     for (typename std::vector<task_type>::iterator iter = all_tasks.begin(); iter != all_tasks.end(); ++iter) {
-      if (!(*iter).is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if ((*iter).get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
-        // already cleanup, there is no need to cleanup again
+        // this manager may be destroyed before the task finishes
         task_manager_helper::cleanup_task_manager(*(*iter).get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
 
+      if (!(*iter).is_exiting()) {
         (*iter).kill(task_status_type::kKilled);
       }
     }
@@ -1365,12 +1375,14 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
       }
 
       // task call can not be used when lock is on
-      if (!task_inst.is_exiting()) {
 #  if defined(LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER) && LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER
+      if (task_inst.get_context()) {
         using task_manager_helper = typename task_type::task_manager_helper;
         // already cleanup, there is no need to cleanup again
         task_manager_helper::cleanup_task_manager(*task_inst.get_context(), reinterpret_cast<void *>(this));
+      }
 #  endif
+      if (!task_inst.is_exiting()) {
         task_inst.kill(task_status_type::kTimeout);
       }
     }
-- 
2.43.0


From 9a5060610191f5d127cf3b8781af18afaf0219c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 09/30] fix: task_manager::reset() dropped its in-reset mark
 before it killed the tasks

---
 include/libcotask/task_manager.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 85dbcec..402d838 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -235,7 +235,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
@@ -947,7 +946,6 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
 
       tasks_.clear();
       task_timeout_timer_.clear();
-      flags_ = 0;
       last_tick_time_.tv_sec = 0;
       last_tick_time_.tv_nsec = 0;
     }
-- 
2.43.0


From b85d27bbfa1a4b96c316a3269f538ae84b94a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 10/30] fix: timeouts with a carry of nanoseconds expired early

---
 include/libcotask/task_manager.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 402d838..41f7643 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -711,6 +711,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        if (new_checkpoint.expired_time.tv_nsec >= 1000000000) {
+          new_checkpoint.expired_time.tv_sec += new_checkpoint.expired_time.tv_nsec / 1000000000;
+          new_checkpoint.expired_time.tv_nsec %= 1000000000;
+        }
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -837,6 +841,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     timer_node.task_id = node.task_->get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    if (timer_node.expired_time.tv_nsec >= 1000000000) {
+      timer_node.expired_time.tv_sec += timer_node.expired_time.tv_nsec / 1000000000;
+      timer_node.expired_time.tv_nsec %= 1000000000;
+    }
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
@@ -1322,6 +1330,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
         detail::task_timer_node<id_type> new_checkpoint = (*iter);
         new_checkpoint.expired_time.tv_sec += sec;
         new_checkpoint.expired_time.tv_nsec += nsec;
+        if (new_checkpoint.expired_time.tv_nsec >= 1000000000) {
+          new_checkpoint.expired_time.tv_sec += new_checkpoint.expired_time.tv_nsec / 1000000000;
+          new_checkpoint.expired_time.tv_nsec %= 1000000000;
+        }
         real_checkpoints.insert(new_checkpoint);
       }
 
@@ -1437,6 +1449,10 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     timer_node.task_id = node.task_.get_id();
     timer_node.expired_time.tv_sec = last_tick_time_.tv_sec + timeout_sec;
     timer_node.expired_time.tv_nsec = last_tick_time_.tv_nsec + timeout_nsec;
+    if (timer_node.expired_time.tv_nsec >= 1000000000) {
+      timer_node.expired_time.tv_sec += timer_node.expired_time.tv_nsec / 1000000000;
+      timer_node.expired_time.tv_nsec %= 1000000000;
+    }
 
     std::pair<typename std::set<detail::task_timer_node<id_type>>::iterator, bool> res =
         task_timeout_timer_.insert(timer_node);
-- 
2.43.0


From 65167d03ed4fac89c15a0423fec3be39469cedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 11/30] fix: task_manager::tick() looked at the timers without
 its lock

---
 include/libcotask/task_manager.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/libcotask/task_manager.h b/include/libcotask/task_manager.h
index 41f7643..5d69b0e 100755
--- a/include/libcotask/task_manager.h
+++ b/include/libcotask/task_manager.h
@@ -737,7 +737,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
     std::list<std::exception_ptr> eptrs;
 #endif
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_ptr_type task_inst;
 
       {
@@ -747,6 +747,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task<TCO_MACRO>> {
             action_lock_};
 #endif
 
+        // other threads may have removed the last one
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
@@ -1353,7 +1358,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
     }
 
     // remove timeout tasks
-    while (false == task_timeout_timer_.empty()) {
+    while (true) {
       task_type task_inst;
 
       {
@@ -1363,6 +1368,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_manager<task_future<TVALUE, TPRIVATE_DAT
             action_lock_};
 #  endif
 
+        // other threads may have removed the last one
+        if (task_timeout_timer_.empty()) {
+          break;
+        }
+
         const typename std::set<detail::task_timer_node<id_type>>::value_type &timer_node =
             *task_timeout_timer_.begin();
         // all tasks those expired time less than now are timeout
-- 
2.43.0


From 1ab72efc9100c08cb14b5eb1067c30e6a3d7d4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 12/30] fix: task cancel() and kill() leave a finished task
 alone instead of notifying it again

---
 include/libcotask/task.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 7b87efc..2e9a26b 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -573,6 +573,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
         return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_IS_RUNNING;
       }
 
+      // already finished, canceled or killed, and notified only once
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, EN_TS_CANCELED)) {
         break;
       }
@@ -602,6 +607,11 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
     EN_TASK_STATUS from_status = get_status();
 
     do {
+      // already finished, canceled or killed, and notified only once
+      COPP_UNLIKELY_IF (from_status >= EN_TS_DONE) {
+        return LIBCOPP_COPP_NAMESPACE_ID::COPP_EC_ALREADY_FINISHED;
+      }
+
       COPP_LIKELY_IF (_cas_status(from_status, status)) {
         break;
       }
-- 
2.43.0


From 6290777c51f232c15cde4031575c9b332781c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 13/30] fix: task next() checks for a finished task and adds
 under one lock

---
 include/libcotask/task.h | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2e9a26b..2ff8df9 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -234,24 +234,27 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       return ptr_type(this);
     }
 
-    // can not add next task when finished
-    if (is_exiting() || is_completed()) {
-      // run next task immedialy
-      EN_TASK_STATUS next_task_status = next_task->get_status();
-      if (EN_TS_CREATED == next_task_status) {
-        next_task->start(priv_data);
-      } else if (EN_TS_WAITING == next_task_status) {
-        next_task->resume(priv_data);
-      }
-      return next_task;
-    }
-
+    {
+      // check and push together, or the finishing task may take the list just before the push
 #if !defined(LIBCOPP_DISABLE_ATOMIC_LOCK) || !(LIBCOPP_DISABLE_ATOMIC_LOCK)
-    LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
-        inner_action_lock_);
+      LIBCOPP_COPP_NAMESPACE_ID::util::lock::lock_holder<LIBCOPP_COPP_NAMESPACE_ID::util::lock::spin_lock> lock_guard(
+          inner_action_lock_);
 #endif
 
-    next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+      if (!is_exiting() && !is_completed()) {
+        next_list_.member_list_.push_back(std::make_pair(next_task, priv_data));
+        return next_task;
+      }
+    }
+
+    // can not add next task when finished
+    // run next task immedialy
+    EN_TASK_STATUS next_task_status = next_task->get_status();
+    if (EN_TS_CREATED == next_task_status) {
+      next_task->start(priv_data);
+    } else if (EN_TS_WAITING == next_task_status) {
+      next_task->resume(priv_data);
+    }
     return next_task;
   }
 
-- 
2.43.0


From 00f1f394a3dd5ea95079da3bce75609260387371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 14/30] fix: releasing a waiting task destroys its action after
 the task has resumed it

---
 include/libcotask/task.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 2ff8df9..704d207 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -802,15 +802,18 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
       using this_coroutine_ptr_type = typename this_coroutine_type::ptr_type;
       this_coroutine_ptr_type coro = p->coroutine_obj_;
 
-      // then, find and destroy action
+      // then, find action
       void *action_ptr = reinterpret_cast<void *>(p->_get_action());
-      if (nullptr != p->action_destroy_fn_ && nullptr != action_ptr) {
-        (*p->action_destroy_fn_)(action_ptr);
-      }
+      void (*action_destroy_fn)(void *) = p->action_destroy_fn_;
 
-      // then, destruct task
+      // then, destruct task, this may resume the action to make it finish
       p->~task();
 
+      // then, destroy action
+      if (nullptr != action_destroy_fn && nullptr != action_ptr) {
+        (*action_destroy_fn)(action_ptr);
+      }
+
       // at last, destroy the coroutine and maybe recycle the stack space
       coro.reset();
     }
-- 
2.43.0


From 55ef61f8bc7719d3e02d04163f68c95fa8a37a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 15/30] fix: task then() used a null coroutine after it had
 added the next task

---
 include/libcotask/task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcotask/task.h b/include/libcotask/task.h
index 704d207..6c835f8 100755
--- a/include/libcotask/task.h
+++ b/include/libcotask/task.h
@@ -390,7 +390,7 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task : public impl::task_impl {
   template <typename Ty>
   inline ptr_type then(Ty &&functor, void *priv_data = nullptr) {
     if (!coroutine_obj_) {
-      then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
+      return then(create(std::forward<Ty>(functor), stack_size_, get_private_buffer_size()), priv_data);
     }
 
     return then(
-- 
2.43.0


From 4ecd66187d4766877c6ca055e467a5ed5fbda4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:39 +0000
Subject: [PATCH 16/30] fix: an awaited value is not moved out while other
 callers still have to get it

---
 src/libcopp/coroutine/std_coroutine_common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index b08f415..ed01258 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -147,7 +147,8 @@ LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexc
   if (std::holds_alternative<handle_delegate>(callers_)) {
     return false;
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    return std::get<multi_caller_set>(callers_).size() > 1;
+    // callers which are already being resumed count, too: the value must not be moved away from the others
+    return true;
   }
   return false;
 #  else
-- 
2.43.0


From 83626de3e65f38500fa471275352e62c17badc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 17/30] fix: a waiting caller destroyed while other callers are
 resumed is not resumed any more

---
 .../libcopp/coroutine/std_coroutine_common.h  |  2 +
 .../coroutine/std_coroutine_common.cpp        | 40 ++++++++++++++-----
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/libcopp/coroutine/std_coroutine_common.h b/include/libcopp/coroutine/std_coroutine_common.h
index 8f86aca..10df77b 100644
--- a/include/libcopp/coroutine/std_coroutine_common.h
+++ b/include/libcopp/coroutine/std_coroutine_common.h
@@ -190,6 +190,8 @@ class promise_caller_manager {
   // Mostly, there is only one caller for a promise, we needn't hash map to store one handle
   std::unique_ptr<multi_caller_set> multiple_callers_;
 #  endif
+  // Callers taken out by resume_callers() which are still waiting for their turn
+  std::shared_ptr<multi_caller_set> resuming_callers_;
 };
 
 class promise_base_type {
diff --git a/src/libcopp/coroutine/std_coroutine_common.cpp b/src/libcopp/coroutine/std_coroutine_common.cpp
index ed01258..3436ae3 100644
--- a/src/libcopp/coroutine/std_coroutine_common.cpp
+++ b/src/libcopp/coroutine/std_coroutine_common.cpp
@@ -66,9 +66,13 @@ LIBCOPP_COPP_API void promise_caller_manager::add_caller(handle_delegate delegat
 LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate delegate) noexcept {
   bool has_caller = false;
   do {
+    if (resuming_callers_ && resuming_callers_->erase(delegate) > 0) {
+      has_caller = true;
+    }
+
 #  if defined(LIBCOPP_MACRO_ENABLE_STD_VARIANT) && LIBCOPP_MACRO_ENABLE_STD_VARIANT
     if (std::holds_alternative<multi_caller_set>(callers_)) {
-      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0;
+      has_caller = std::get<multi_caller_set>(callers_).erase(delegate) > 0 || has_caller;
       break;
     }
 
@@ -84,7 +88,7 @@ LIBCOPP_COPP_API bool promise_caller_manager::remove_caller(handle_delegate dele
     }
 
     if (multiple_callers_) {
-      has_caller = multiple_callers_->erase(delegate) > 0;
+      has_caller = multiple_callers_->erase(delegate) > 0 || has_caller;
     }
 #  endif
   } while (false);
@@ -104,9 +108,16 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
       ++resume_count;
     }
   } else if (std::holds_alternative<multi_caller_set>(callers_)) {
-    multi_caller_set callers;
-    callers.swap(std::get<multi_caller_set>(callers_));
-    for (auto &caller : callers) {
+    // Keep it shared, so remove_caller() still reaches the callers which are destroyed before it's their turn
+    if (!resuming_callers_) {
+      resuming_callers_ = std::make_shared<multi_caller_set>();
+    }
+    std::shared_ptr<multi_caller_set> callers = resuming_callers_;
+    callers->insert(std::get<multi_caller_set>(callers_).begin(), std::get<multi_caller_set>(callers_).end());
+    std::get<multi_caller_set>(callers_).clear();
+    while (!callers->empty()) {
+      auto caller = *callers->begin();
+      callers->erase(callers->begin());
       if (caller.handle && !caller.handle.done() &&
           (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
         type_erased_handle_type handle = caller.handle;
@@ -118,8 +129,16 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
 #  else
   auto unique_caller = unique_caller_;
   unique_caller_ = nullptr;
-  std::unique_ptr<multi_caller_set> multiple_callers;
-  multiple_callers.swap(multiple_callers_);
+  std::shared_ptr<multi_caller_set> multiple_callers;
+  if (multiple_callers_) {
+    // Keep it shared, so remove_caller() still reaches the callers which are destroyed before it's their turn
+    if (!resuming_callers_) {
+      resuming_callers_ = std::make_shared<multi_caller_set>();
+    }
+    multiple_callers = resuming_callers_;
+    multiple_callers->insert(multiple_callers_->begin(), multiple_callers_->end());
+    multiple_callers_.reset();
+  }
 
   // The promise object may be destroyed after first caller.resume()
   if (unique_caller.handle && !unique_caller.handle.done() &&
@@ -129,7 +148,9 @@ LIBCOPP_COPP_API size_t promise_caller_manager::resume_callers() {
   }
 
   if (multiple_callers) {
-    for (auto &caller : *multiple_callers) {
+    while (!multiple_callers->empty()) {
+      auto caller = *multiple_callers->begin();
+      multiple_callers->erase(multiple_callers->begin());
       if (caller.handle && !caller.handle.done() &&
           (nullptr == caller.promise || !caller.promise->check_flag(promise_flag::kDestroying))) {
         type_erased_handle_type handle = caller.handle;
@@ -161,7 +182,8 @@ LIBCOPP_COPP_API bool promise_caller_manager::has_multiple_callers() const noexc
   if (multiple_callers_) {
     count += multiple_callers_->size();
   }
-  return count > 1;
+  // callers which are already being resumed count, too
+  return count > 1 || resuming_callers_;
 #  endif
 }
 
-- 
2.43.0


From b22c7963c46d9484eeabf2d7b5a327dc7f74b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:37 +0000
Subject: [PATCH 18/30] fix: callable_future move assignment leaked the
 coroutine it held

---
 include/libcopp/coroutine/callable_promise.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 88e72f1..a60ebf5 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -317,8 +317,12 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_future {
 
   callable_future& operator=(const callable_future&) = delete;
   callable_future& operator=(callable_future&& other) noexcept {
-    current_handle_ = other.current_handle_;
-    other.current_handle_ = nullptr;
+    if (this != &other) {
+      // The old coroutine is killed and destroyed with this object
+      callable_future old_future{std::move(*this)};
+      current_handle_ = other.current_handle_;
+      other.current_handle_ = nullptr;
+    }
     return *this;
   }
 
-- 
2.43.0


From 744474fa1a9c222cc5434accf2af7ceb66abca3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:41 +0000
Subject: [PATCH 19/30] fix: some/any/all count the futures that are ready from
 the start

---
 include/libcopp/coroutine/callable_promise.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index a60ebf5..0974cb6 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -629,8 +629,8 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       co_return promise_status::kDone;
     }
 
-    if (ready_count >= context.pending.size() + ready_futures.size()) {
-      ready_count = context.pending.size() + ready_futures.size();
+    if (ready_count >= context.pending.size() + context.ready.size()) {
+      ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
     context.scan_bound = context.ready.size();
-- 
2.43.0


From 0b6d20a1ba4fe6ea15f9a9ecde3ca944f6a9191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:25 +0000
Subject: [PATCH 20/30] fix: assigning a task_future from one owned by the task
 it replaces used freed memory

---
 include/libcotask/task_promise.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index d7e3a79..bf58329 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -804,12 +804,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-
-    COPP_LIKELY_IF (other.context_) {
-      ++other.context_->future_counter_;
-    }
-    context_ = other.context_;
+    // The old coroutine may own other or use this object when it ends, so it must go last
+    task_future_base new_future{other};
+    context_.swap(new_future.context_);
   }
 
   void assign(task_future_base&& other) noexcept {
@@ -817,10 +814,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_future_base {
       return;
     }
 
-    reset();
-    context_.swap(other.context_);
-
-    return;
+    // The old coroutine may own other or use this object when it ends, so it must go last
+    task_future_base new_future{std::move(other)};
+    context_.swap(new_future.context_);
   }
 
   void reset() {
-- 
2.43.0


From 47ba23fb5216db97f0a4dcce65f78282a6cb1b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 21/30] fix: an await of a generator or task that has no value
 read one if its caller was killed with kDone

---
 include/libcopp/coroutine/generator_promise.h | 4 +++-
 include/libcotask/task_promise.h              | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 75db8e8..1b6844c 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -361,7 +361,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
         caller.promise->set_flag(promise_flag::kInternalWaitting, false);
       }
       if (nullptr != context_) {
-        if (!context_->is_ready() && nullptr != caller.promise) {
+        // Nothing has been returned even if the caller is killed with kDone
+        if (!context_->is_ready() && nullptr != caller.promise &&
+            promise_status::kDone != caller.promise->get_status()) {
           result_status = caller.promise->get_status();
         }
 
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index bf58329..3effbdb 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -647,7 +647,9 @@ class LIBCOPP_COTASK_API_HEAD_ONLY task_awaitable_base : public LIBCOPP_COPP_NAM
         caller.promise->set_flag(promise_flag::kInternalWaitting, false);
       }
       COPP_LIKELY_IF (nullptr != context_) {
-        if (!context_->is_ready() && nullptr != caller.promise) {
+        // Nothing has been returned even if the caller is killed with kDone
+        if (!context_->is_ready() && nullptr != caller.promise &&
+            task_status_type::kDone != caller.promise->get_status()) {
           result_status = caller.promise->get_status();
         }
 
-- 
2.43.0


From a9c06efa67e7135c82e5791e806bcad89023b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:29 +0000
Subject: [PATCH 22/30] fix: awaiting a callable_future that has been moved
 away dereferenced a null coroutine

---
 include/libcopp/coroutine/callable_promise.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 0974cb6..7813faa 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -169,6 +169,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable_base : public awaitable_base
 
  protected:
   void detach() noexcept {
+    // callee maybe null if the callable is already moved
+    if (!get_callee()) {
+      return;
+    }
+
     // caller maybe null if the callable is already ready when co_await
     auto caller = get_caller();
     auto& callee_promise = get_callee().promise();
@@ -215,7 +220,9 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
 
   UTIL_FORCEINLINE void await_resume() {
     detach();
-    get_callee().promise().resume_waiting(get_callee(), true);
+    if (get_callee()) {
+      get_callee().promise().resume_waiting(get_callee(), true);
+    }
   }
 };
 
@@ -239,6 +246,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
 
   inline value_type await_resume() {
     detach();
+    if (!get_callee()) {
+      return TERROR_TRANSFORM()(promise_status::kInvalid);
+    }
+
     auto& callee_promise = get_callee().promise();
     callee_promise.resume_waiting(get_callee(), true);
 
-- 
2.43.0


From 7d012d9b4159a7bab69274b194e85022014b736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 23/30] fix: the value of a callable is not moved out while
 other callers still have to get it

---
 include/libcopp/coroutine/callable_promise.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 7813faa..42b5c79 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -245,6 +245,7 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
   callable_awaitable(handle_type handle) : base_type(handle) {}
 
   inline value_type await_resume() {
+    bool has_multiple_callers = get_callee() && get_callee().promise().has_multiple_callers();
     detach();
     if (!get_callee()) {
       return TERROR_TRANSFORM()(promise_status::kInvalid);
@@ -257,6 +258,13 @@ class LIBCOPP_COPP_API_HEAD_ONLY callable_awaitable<TPROMISE, TERROR_TRANSFORM,
       return TERROR_TRANSFORM()(callee_promise.get_status());
     }
 
+    if constexpr (std::is_copy_constructible<value_type>::value) {
+      // The other callers need the value, too
+      if (has_multiple_callers) {
+        return callee_promise.data();
+      }
+    }
+
     return std::move(callee_promise.data());
   }
 };
-- 
2.43.0


From b9f4084d14c6706b7ae9b91c9ead5558aa76a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 24/30] fix: keep the await callbacks of a generator alive
 while they run

---
 include/libcopp/coroutine/generator_promise.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 1b6844c..16b24e0 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -329,9 +329,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY generator_awaitable_base : public awaitable_bas
       // Allow kill resume to forward error information
       caller.promise().set_flag(promise_flag::kInternalWaitting, true);
 
-      // Custom event. awaitable object may be deleted after this call
-      if (vtable_ && vtable_->get_await_suspend_callback()) {
-        vtable_->get_await_suspend_callback()(context_->shared_from_this());
+      // Custom event. awaitable object and generator may be deleted in this call, but the callback should be kept
+      copp::util::intrusive_ptr<vtable_type> vtable = vtable_;
+      if (vtable && vtable->get_await_suspend_callback()) {
+        vtable->get_await_suspend_callback()(context_->shared_from_this());
       }
 
       return true;
@@ -564,9 +565,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
   inline static void suspend_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
     generator.get_context()->add_caller(caller);
 
-    // Custom event. awaitable object may be deleted after this call
-    if (generator.vtable_ && generator.vtable_->get_await_suspend_callback()) {
-      generator.vtable_->get_await_suspend_callback()(generator.get_context());
+    // Custom event. awaitable object and generator may be deleted in this call, but the callback should be kept
+    auto vtable = generator.vtable_;
+    if (vtable && vtable->get_await_suspend_callback()) {
+      vtable->get_await_suspend_callback()(generator.get_context());
     }
   }
 
-- 
2.43.0


From c791097430ef12c601cadc4c317cba873a48a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:53 +0000
Subject: [PATCH 25/30] fix: some, any and all missed futures that became ready
 without a wake-up of their own

---
 include/libcopp/coroutine/callable_promise.h | 50 +++++++++++++++-----
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 42b5c79..513081c 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -7,6 +7,7 @@
 // clang-format off
 #include <libcopp/utils/config/stl_include_prefix.h>  // NOLINT(build/include_order)
 // clang-format on
+#include <algorithm>
 #include <cstdlib>
 #include <type_traits>
 // clang-format off
@@ -486,9 +487,10 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_context {
   std::list<future_type*> pending;
   ready_output_type ready;
   size_t ready_bound = 0;
-  size_t scan_bound = 0;
   promise_status status = promise_status::kCreated;
   promise_caller_manager::handle_delegate caller_handle = promise_caller_manager::handle_delegate(nullptr);
+  // Set when this object is finished while the futures are being suspended
+  bool* detached = nullptr;
 };
 
 template <class TFUTURE, class TDELEGATE_ACTION>
@@ -511,6 +513,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
     }
 
     context.caller_handle = nullptr;
+    if (nullptr != context.detached) {
+      *context.detached = true;
+      context.detached = nullptr;
+    }
     if (context.status < promise_status::kDone) {
       context.status = promise_status::kKilled;
     }
@@ -568,11 +574,34 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
       // set caller for all futures
       if (!context_->caller_handle) {
-        context_->caller_handle = caller;
+        // The callback may call resume, and both the context and this object may be destroyed then
+        context_type* context = context_;
+        promise_caller_manager::handle_delegate caller_handle{caller};
+        bool detached = false;
+        context->caller_handle = caller_handle;
+        context->detached = &detached;
         // Copy pending here, the callback may call resume and will change the pending list
-        std::list<future_type*> copy_pending = context_->pending;
+        std::list<future_type*> copy_pending = context->pending;
         for (auto& pending_future : copy_pending) {
-          delegate_action_type::suspend_future(context_->caller_handle, *pending_future);
+          // Already moved into ready list
+          if (!delegate_action_type::is_pending(*pending_future) &&
+              std::find(context->pending.begin(), context->pending.end(), pending_future) == context->pending.end()) {
+            continue;
+          }
+
+          delegate_action_type::suspend_future(caller_handle, *pending_future);
+          if (detached) {
+            return true;
+          }
+        }
+        context->detached = nullptr;
+
+        // Some futures may be already ready before the caller is added and nobody will resume the caller for them
+        for (auto& pending_future : context->pending) {
+          if (!delegate_action_type::is_pending(*pending_future)) {
+            caller_handle.handle.resume();
+            break;
+          }
         }
       }
 
@@ -593,14 +622,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
         return;
       }
 
-      ++context_->scan_bound;
-      if (context_->scan_bound >= context_->ready_bound) {
-        scan_ready(*context_);
-        context_->scan_bound = context_->ready.size();
-
-        if (context_->scan_bound >= context_->ready_bound && context_->status < promise_status::kDone) {
-          context_->status = promise_status::kDone;
-        }
+      // The caller may be resumed only once for several ready futures
+      scan_ready(*context_);
+      if (context_->ready.size() >= context_->ready_bound && context_->status < promise_status::kDone) {
+        context_->status = promise_status::kDone;
       }
     }
 
@@ -652,7 +677,6 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
       ready_count = context.pending.size() + context.ready.size();
     }
     context.ready_bound = ready_count;
-    context.scan_bound = context.ready.size();
     context.status = promise_status::kRunning;
 
     {
-- 
2.43.0


From 883e607759cf3030d6913218abc0ba19158f2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 26/30] fix: swapping a success and an error of trivial types
 lost a part of the larger one

---
 include/libcopp/future/storage.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcopp/future/storage.h b/include/libcopp/future/storage.h
index 6350f4d..0ea189a 100644
--- a/include/libcopp/future/storage.h
+++ b/include/libcopp/future/storage.h
@@ -433,13 +433,10 @@ class LIBCOPP_COPP_API_HEAD_ONLY result_base<TOK, TERR, true> {
   }
 
   inline void swap(result_base &other) LIBCOPP_MACRO_NOEXCEPT {
-    using std::swap;
-    if (is_success()) {
-      swap(success_data_, other.success_data_);
-    } else {
-      swap(error_data_, other.error_data_);
-    }
-    swap(mode_, other.mode_);
+    // The modes may be different, so the whole (trivially copyable) data should be exchanged
+    result_base tmp(*this);
+    *this = other;
+    other = tmp;
   }
 
   UTIL_FORCEINLINE friend void swap(result_base &l, result_base &r) LIBCOPP_MACRO_NOEXCEPT { l.swap(r); }
-- 
2.43.0


From 0478aba6533838ec18172ed779025306a9871c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:48 +0000
Subject: [PATCH 27/30] fix: some() must not be resumed by a callback while it
 is already running

---
 include/libcopp/coroutine/callable_promise.h  | 49 ++++++++++++++-----
 include/libcopp/coroutine/generator_promise.h | 12 ++++-
 include/libcotask/task_promise.h              | 16 ++++--
 3 files changed, 61 insertions(+), 16 deletions(-)

diff --git a/include/libcopp/coroutine/callable_promise.h b/include/libcopp/coroutine/callable_promise.h
index 513081c..ea40403 100644
--- a/include/libcopp/coroutine/callable_promise.h
+++ b/include/libcopp/coroutine/callable_promise.h
@@ -504,6 +504,11 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
 
  private:
   static void force_resume_all(context_type& context) {
+    // Custom events may finish other futures, which must not resume the caller because it's running now
+    for (auto& pending_future : context.pending) {
+      delegate_action_type::remove_caller(context.caller_handle, *pending_future);
+    }
+
     for (auto& pending_future : context.pending) {
       delegate_action_type::resume_future(context.caller_handle, *pending_future);
     }
@@ -523,18 +528,32 @@ class LIBCOPP_COPP_API_HEAD_ONLY some_delegate_base {
   }
 
   static void scan_ready(context_type& context) {
-    auto iter = context.pending.begin();
+    // Custom events may finish other futures, which must not resume the caller because it's running now
+    for (auto& pending_future : context.pending) {
+      delegate_action_type::remove_caller(context.caller_handle, *pending_future);
+    }
 
-    while (iter != context.pending.end()) {
-      if (delegate_action_type::is_pending(**iter)) {
-        ++iter;
-        continue;
+    bool has_ready = true;
+    while (has_ready) {
+      has_ready = false;
+      auto iter = context.pending.begin();
+
+      while (iter != context.pending.end()) {
+        if (delegate_action_type::is_pending(**iter)) {
+          ++iter;
+          continue;
+        }
+        future_type& future = **iter;
+        context.ready.push_back(gsl::make_not_null(&future));
+        iter = context.pending.erase(iter);
+        has_ready = true;
+
+        delegate_action_type::resume_future(context.caller_handle, future);
       }
-      future_type& future = **iter;
-      context.ready.push_back(gsl::make_not_null(&future));
-      iter = context.pending.erase(iter);
+    }
 
-      delegate_action_type::resume_future(context.caller_handle, future);
+    for (auto& pending_future : context.pending) {
+      delegate_action_type::add_caller(context.caller_handle, *pending_future);
     }
   }
 
@@ -709,12 +728,20 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_callable_action {
   using future_type = callable_future<TVALUE, TERROR_TRANSFORM>;
   using context_type = some_delegate_context<future_type>;
 
-  inline static void suspend_future(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
+  inline static void add_caller(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
     callee.get_internal_promise().add_caller(caller);
   }
 
-  inline static void resume_future(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
+  inline static void remove_caller(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
     callee.get_internal_promise().remove_caller(caller, false);
+  }
+
+  inline static void suspend_future(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
+    add_caller(caller, callee);
+  }
+
+  inline static void resume_future(const promise_caller_manager::handle_delegate& caller, future_type& callee) {
+    remove_caller(caller, callee);
     // Do not force resume callee here, we allow to await the unready callable later.
   }
 
diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index 16b24e0..c69b9bd 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -562,8 +562,16 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
   using future_type = generator_future<TVALUE, TERROR_TRANSFORM>;
   using context_type = some_delegate_context<future_type>;
 
-  inline static void suspend_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
+  inline static void add_caller(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
     generator.get_context()->add_caller(caller);
+  }
+
+  inline static void remove_caller(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
+    generator.get_context()->remove_caller(caller);
+  }
+
+  inline static void suspend_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
+    add_caller(caller, generator);
 
     // Custom event. awaitable object and generator may be deleted in this call, but the callback should be kept
     auto vtable = generator.vtable_;
@@ -573,7 +581,7 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
   }
 
   inline static void resume_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
-    generator.get_context()->remove_caller(caller);
+    remove_caller(caller, generator);
 
     // Custom event
     if (generator.vtable_ && generator.vtable_->get_await_resume_callback()) {
diff --git a/include/libcotask/task_promise.h b/include/libcotask/task_promise.h
index 3effbdb..ed0d542 100644
--- a/include/libcotask/task_promise.h
+++ b/include/libcotask/task_promise.h
@@ -1707,20 +1707,30 @@ struct LIBCOPP_COTASK_API_HEAD_ONLY some_delegate_task_action {
   using future_type = task_future<TVALUE, TPRIVATE_DATA, TERROR_TRANSFORM>;
   using context_type = LIBCOPP_COPP_NAMESPACE_ID::some_delegate_context<future_type>;
 
-  inline static void suspend_future(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
-                                    future_type& task_object) {
+  inline static void add_caller(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
+                                future_type& task_object) {
     if (task_object.get_context()) {
       task_object.get_context()->add_caller(caller);
     }
   }
 
-  inline static void resume_future(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
+  inline static void remove_caller(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
                                    future_type& task_object) {
     if (task_object.get_context()) {
       task_object.get_context()->remove_caller(caller);
     }
   }
 
+  inline static void suspend_future(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
+                                    future_type& task_object) {
+    add_caller(caller, task_object);
+  }
+
+  inline static void resume_future(const LIBCOPP_COPP_NAMESPACE_ID::promise_caller_manager::handle_delegate& caller,
+                                   future_type& task_object) {
+    remove_caller(caller, task_object);
+  }
+
   inline static bool is_pending(future_type& future_object) noexcept { return !future_object.is_exiting(); }
 };
 
-- 
2.43.0


From 3f7d8b72f34d5c8854a08b2682675fdd609c4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:29 +0000
Subject: [PATCH 28/30] fix: keep the generator callback that some() runs when
 the wait ends

---
 include/libcopp/coroutine/generator_promise.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libcopp/coroutine/generator_promise.h b/include/libcopp/coroutine/generator_promise.h
index c69b9bd..0eb8c67 100644
--- a/include/libcopp/coroutine/generator_promise.h
+++ b/include/libcopp/coroutine/generator_promise.h
@@ -583,9 +583,11 @@ struct LIBCOPP_COPP_API_HEAD_ONLY some_delegate_generator_action {
   inline static void resume_future(const promise_caller_manager::handle_delegate& caller, future_type& generator) {
     remove_caller(caller, generator);
 
-    // Custom event
-    if (generator.vtable_ && generator.vtable_->get_await_resume_callback()) {
-      generator.vtable_->get_await_resume_callback()(*generator.get_context());
+    // Custom event. generator may be replaced in this call, but the callback and its context should be kept
+    auto context = generator.get_context();
+    auto vtable = generator.vtable_;
+    if (vtable && vtable->get_await_resume_callback()) {
+      vtable->get_await_resume_callback()(*context);
     }
   }
 
-- 
2.43.0


From e6081608dca537b2de7b6a5103623e26dd162d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:59 +0000
Subject: [PATCH 29/30] fix: save the stack guard in the new context and not on
 the stack of the caller (LIBCOPP_MACRO_TLS_STACK_PROTECTOR)

---
 src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S b/src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S
index 1ba2b58..f4a6e52 100755
--- a/src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/libcopp/fcontext/asm/make_x86_64_sysv_elf_gas.S
@@ -72,7 +72,7 @@ copp_make_fcontext_v2:
 #if defined(LIBCOPP_FCONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From 5cae4e594f529e9071e57ec80dd988b6ad957ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:23 +0000
Subject: [PATCH 30/30] fix: uint64_id_allocator never goes back when the clock
 does

When the clock was set back, or before 2020, the time part of the block went
backward (or lost its upper bits), so blocks were allocated again. It also
spun for the rest of the second when all blocks of a second were used up.
---
 src/libcopp/utils/uint64_id_allocator.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libcopp/utils/uint64_id_allocator.cpp b/src/libcopp/utils/uint64_id_allocator.cpp
index b197308..e824c63 100644
--- a/src/libcopp/utils/uint64_id_allocator.cpp
+++ b/src/libcopp/utils/uint64_id_allocator.cpp
@@ -37,9 +37,11 @@ static uint64_t allocate_id_by_atomic() {
     uint64_t next_ret = res + 1;
     uint64_t next_time_part = next_ret >> seq_bits;
     if (0 == time_part || time_part != next_time_part) {
-      uint64_t now_time = time_part;
-      while (time_part == now_time) {
-        now_time = (static_cast<uint64_t>(time(nullptr)) & time_mask) - 1577836800;  // 2020-01-01 00:00:00+00:00 UTC
+      // 2020-01-01 00:00:00+00:00 UTC
+      uint64_t now_time = (static_cast<uint64_t>(time(nullptr)) - 1577836800) & time_mask;
+      // never go back, the clock may be adjusted or all sequences of this second may be used up
+      if (now_time <= time_part) {
+        now_time = time_part + 1;
       }
 
       // if failed, maybe another thread do it
-- 
2.43.0

