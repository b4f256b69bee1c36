From 8dcfe57663e143c580beae65510730f3b48736cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:27 +0000
Subject: [PATCH 01/52] fix: latch::remaining() reports zero once the count has
 been passed

---
 include/coro/latch.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/coro/latch.hpp b/include/coro/latch.hpp
index ffd8b6a..8e8448c 100644
--- a/include/coro/latch.hpp
+++ b/include/coro/latch.hpp
@@ -40,7 +40,12 @@ public:
     /**
      * @return The number of tasks this latch is still waiting to complete.
      */
-    auto remaining() const noexcept -> std::size_t { return m_count.load(std::memory_order::acquire); }
+    auto remaining() const noexcept -> std::size_t
+    {
+        // The count goes below zero if it started negative or is counted down further than its initial value.
+        const auto count = m_count.load(std::memory_order::acquire);
+        return count > 0 ? static_cast<std::size_t>(count) : 0;
+    }
 
     /**
      * If the latch counter goes to zero then the task awaiting the latch is resumed.
-- 
2.43.0


From 797b08f762827e669556b2f4eab3899bb8901215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:44 +0000
Subject: [PATCH 02/52] fix: scoped_lock releases the mutex it owns when
 assigned over, and gives it up before waking a waiter

---
 include/coro/mutex.hpp | 4 +++-
 src/mutex.cpp          | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..547dba8 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,7 +99,9 @@ public:
     {
         if (std::addressof(other) != this)
         {
-            m_mutex = std::exchange(other.m_mutex, nullptr);
+            // Release the mutex currently owned, if any, once this has taken over the other lock's mutex.
+            scoped_lock current{std::move(other)};
+            std::swap(m_mutex, current.m_mutex);
         }
         return *this;
     }
diff --git a/src/mutex.cpp b/src/mutex.cpp
index 98a00c0..a9b1ae8 100644
--- a/src/mutex.cpp
+++ b/src/mutex.cpp
@@ -53,11 +53,11 @@ scoped_lock::~scoped_lock()
 
 auto scoped_lock::unlock() -> void
 {
-    if (m_mutex != nullptr)
+    // Give up ownership first, unlocking can resume a waiter inline which might use this object again.
+    if (auto* owned = std::exchange(m_mutex, nullptr); owned != nullptr)
     {
         std::atomic_thread_fence(std::memory_order::acq_rel);
-        m_mutex->unlock();
-        m_mutex = nullptr;
+        owned->unlock();
     }
 }
 
-- 
2.43.0


From 52abb7165611a20637d6e12341941b67ffd5a9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/52] fix: shared_mutex scoped locks are released when the
 scoped task throws

---
 include/coro/shared_mutex.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..0eb2df2 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+        // The lock must be released before any exception from the scoped task is passed on.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock_shared();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +154,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+        // The lock must be released before any exception from the scoped task is passed on.
+        std::exception_ptr exception{nullptr};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            exception = std::current_exception();
+        }
         co_await unlock();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From 1fdbee25fc6e258b83a7b66917821784f0b28613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:52 +0000
Subject: [PATCH 04/52] fix: an acquired semaphore resource is not reported as
 shutdown

---
 include/coro/semaphore.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/coro/semaphore.hpp b/include/coro/semaphore.hpp
index ee362e0..a0b48ee 100644
--- a/include/coro/semaphore.hpp
+++ b/include/coro/semaphore.hpp
@@ -39,11 +39,13 @@ class acquire_operation
 public:
     explicit acquire_operation(semaphore<max_value>& s) : m_semaphore(s) { }
 
-    [[nodiscard]] auto await_ready() const noexcept -> bool
+    [[nodiscard]] auto await_ready() noexcept -> bool
     {
         // If the semaphore is shutdown or a resources can be acquired without suspending release the lock and resume execution.
-        if (m_semaphore.m_shutdown.load(std::memory_order::acquire) || m_semaphore.try_acquire())
+        const bool shutdown = m_semaphore.m_shutdown.load(std::memory_order::acquire);
+        if (shutdown || m_semaphore.try_acquire())
         {
+            m_acquired = !shutdown;
             m_semaphore.m_mutex.unlock();
             return true;
         }
@@ -67,16 +69,15 @@ public:
 
     [[nodiscard]] auto await_resume() const -> semaphore_acquire_result
     {
-        if (m_semaphore.m_shutdown.load(std::memory_order::acquire))
-        {
-            return semaphore_acquire_result::shutdown;
-        }
-        return semaphore_acquire_result::acquired;
+        // A shutdown after the resource was acquired doesn't take it away again.
+        return m_acquired ? semaphore_acquire_result::acquired : semaphore_acquire_result::shutdown;
     }
 
     acquire_operation<max_value>* m_next{nullptr};
     semaphore<max_value>&         m_semaphore;
     std::coroutine_handle<>       m_awaiting_coroutine;
+    /// @brief Set once a resource has been given to this operation.
+    bool m_acquired{false};
 };
 
 } // namespace detail
@@ -125,6 +126,7 @@ public:
         auto* waiter = detail::awaiter_list_pop(m_acquire_waiters);
         if (waiter != nullptr)
         {
+            waiter->m_acquired = true;
             m_mutex.unlock();
             waiter->m_awaiting_coroutine.resume();
         }
-- 
2.43.0


From 2ba827eaea6bd8c798e56ba106240110519c8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:44 +0000
Subject: [PATCH 05/52] fix: queue::shutdown_drain looks at the elements only
 while holding the lock

---
 include/coro/queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..282fb8a 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -377,12 +377,15 @@ public:
         {
             co_return;
         }
-        lk.unlock();
 
+        // The elements can only be looked at while holding the lock.
         while (!empty() && m_running_state.load(std::memory_order::acquire) == running_state_t::draining)
         {
+            lk.unlock();
             co_await e->yield();
+            lk = co_await m_mutex.scoped_lock();
         }
+        lk.unlock();
 
         co_return co_await shutdown();
     }
-- 
2.43.0


From 39046e4673b5b5cff7808ab6538b85a757eee8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:04 +0000
Subject: [PATCH 06/52] fix: queue::shutdown takes effect when racing with
 shutdown_drain

---
 include/coro/queue.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 282fb8a..6e81e0a 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -333,16 +333,15 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         // We use the lock to guarantee the m_running_state has propagated.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        // The queue could have started draining since, that doesn't prevent it from being stopped now.
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From da0e8c4230de49e26670a0c3cd41ba3cb9074c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 07/52] fix: ring_buffer::shutdown_drain reports the producers
 it turns away as stopped

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..4d69e2c 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From 71e17e3ae1eea7e6cea3467ffcfc6d547bae76df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 08/52] fix: ring_buffer::shutdown takes effect when racing
 with shutdown_drain

---
 include/coro/ring_buffer.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 4d69e2c..534dbda 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -320,15 +320,14 @@ public:
     auto shutdown() -> coro::task<void>
     {
         // Only wake up waiters once.
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 207f0663d939a64d67a46c2d88d466dbc04bbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 09/52] fix: concurrent condition_variable notifies don't look
 at a waiter another one already resumed

---
 include/coro/condition_variable.hpp | 12 +++++++++++-
 src/condition_variable.cpp          | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 654bca5..d095d99 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <condition_variable>
 #include <functional>
+#include <mutex>
 #include <optional>
 
 #ifdef LIBCORO_FEATURE_NETWORKING
@@ -387,7 +388,7 @@ public:
     template<coro::concepts::executor executor_type>
     auto notify_all(std::unique_ptr<executor_type>& executor) -> void
     {
-        auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+        auto* waiter = pop_all_awaiters();
 
         while (waiter != nullptr)
         {
@@ -530,6 +531,15 @@ public:
 private:
     /// @brief The list of waiters.
     std::atomic<awaiter_base*> m_awaiters{nullptr};
+    /// @brief Only one notifier at a time can take waiters off the list, a waiter that has been taken by another
+    ///        notifier could be resumed and destroyed while its still being looked at.
+    std::mutex m_pop_mutex{};
+
+    /// @brief Takes the next waiter off the list, nullptr if there are none.
+    auto pop_awaiter() -> awaiter_base*;
+
+    /// @brief Takes all of the waiters off the list, nullptr if there are none.
+    auto pop_all_awaiters() -> awaiter_base*;
 
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index aa641d4..075d375 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -196,12 +196,24 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
 
 #endif
 
+auto condition_variable::pop_awaiter() -> awaiter_base*
+{
+    std::scoped_lock lk{m_pop_mutex};
+    return detail::awaiter_list_pop(m_awaiters);
+}
+
+auto condition_variable::pop_all_awaiters() -> awaiter_base*
+{
+    std::scoped_lock lk{m_pop_mutex};
+    return detail::awaiter_list_pop_all(m_awaiters);
+}
+
 auto condition_variable::notify_one() -> coro::task<void>
 {
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
     while (true)
     {
-        auto* waiter = detail::awaiter_list_pop(m_awaiters);
+        auto* waiter = pop_awaiter();
         if (waiter == nullptr)
         {
             co_return; // There is nobody to currently notify.
@@ -225,7 +237,7 @@ auto condition_variable::notify_one() -> coro::task<void>
 
 auto condition_variable::notify_all() -> coro::task<void>
 {
-    auto* waiter = detail::awaiter_list_pop_all(m_awaiters);
+    auto* waiter = pop_all_awaiters();
 
     while (waiter != nullptr)
     {
-- 
2.43.0


From 9075c5c997f6df3d76fc4d6e52a58ada32812ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:01 +0000
Subject: [PATCH 10/52] fix: a condition_variable waiter that isn't ready waits
 again before the lock is released

---
 include/coro/condition_variable.hpp |  8 +++-----
 src/condition_variable.cpp          | 24 ++++++++++++++++--------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index d095d99..97907a8 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -39,7 +39,7 @@ private:
     {
         /// @brief The waiter is ready to be resumed, either the predicate passed or its been requested to stop.
         ready,
-        /// @brief The waiter is not ready to be resumed
+        /// @brief The waiter is not ready to be resumed, it has put itself back on the list of waiters.
         not_ready,
         /// @brief The waiter is a hook and has timed out and is dead.
         awaiter_dead,
@@ -546,12 +546,10 @@ private:
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter has re-enqueued itself since the predicate isn't ready.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
+                // Nothing to do for awaiters that are ready or dead.
                 break;
         }
     }
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 075d375..9a497e8 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -74,7 +74,11 @@ auto condition_variable::awaiter_with_predicate::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before giving up the lock, the waiter must not miss a notify that follows the next change made under
+    // the lock. Once its unlocked another notifier can resume and destroy this awaiter.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -119,7 +123,11 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
         co_return notify_status_t::ready;
     }
 
-    m_lock.m_mutex->unlock();
+    // Re-enqueue before giving up the lock, the waiter must not miss a notify that follows the next change made under
+    // the lock. Once its unlocked another notifier can resume and destroy this awaiter.
+    auto* waiter_mutex = m_lock.m_mutex;
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+    waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
 
@@ -190,6 +198,9 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         co_return notify_status_t::ready;
     }
 
+    // Re-enqueue before giving up the lock, the waiter must not miss a notify that follows the next change made under
+    // the lock.
+    coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -225,8 +236,7 @@ auto condition_variable::notify_one() -> coro::task<void>
                 // The predicate was ready and the awaiter is resumed.
                 co_return;
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
+                // The waiter has re-enqueued itself since the predicate isn't ready, the notify has been satisfied.
                 co_return;
             case notify_status_t::awaiter_dead:
                 // This is an awaiter_with_wait_hook that timed out, try the next awaiter.
@@ -247,12 +257,10 @@ auto condition_variable::notify_all() -> coro::task<void>
         switch (co_await waiter->on_notify())
         {
             case notify_status_t::not_ready:
-                // Re-enqueue since the predicate isn't ready and return since the notify has been satisfied.
-                coro::detail::awaiter_list_push(m_awaiters, waiter);
-                break;
+                // The waiter has re-enqueued itself since the predicate isn't ready.
             case notify_status_t::ready:
             case notify_status_t::awaiter_dead:
-                // Don't re-enqueue any awaiters that are ready or dead.
+                // Nothing to do for awaiters that are ready or dead.
                 break;
         }
 
-- 
2.43.0


From 256ea1bd1d35e92b1b8e945946de2667978040df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 11/52] fix: a stop request and its notify reach a
 condition_variable waiter being checked by another notifier

---
 include/coro/condition_variable.hpp |  4 +++
 src/condition_variable.cpp          | 43 +++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 97907a8..d8da8cf 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -541,6 +541,10 @@ private:
     /// @brief Takes all of the waiters off the list, nullptr if there are none.
     auto pop_all_awaiters() -> awaiter_base*;
 
+    /// @brief Takes the given waiter off the list.
+    /// @return False if it isn't on the list, a notifier has already taken it.
+    auto remove_awaiter(awaiter_base* waiter) -> bool;
+
     auto make_notify_all_executor_individual_task(awaiter_base* waiter) -> coro::task<void>
     {
         switch (co_await waiter->on_notify())
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 9a497e8..23d67a7 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -127,6 +127,14 @@ auto condition_variable::awaiter_with_predicate_stop_token::on_notify() -> coro:
     // the lock. Once its unlocked another notifier can resume and destroy this awaiter.
     auto* waiter_mutex = m_lock.m_mutex;
     coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+
+    // The stop can be requested without the lock, its notify doesn't find this waiter if it wasn't on the list.
+    if (m_stop_token.stop_requested() && m_condition_variable.remove_awaiter(this))
+    {
+        m_awaiting_coroutine.resume();
+        co_return notify_status_t::ready;
+    }
+
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -201,6 +209,18 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     // Re-enqueue before giving up the lock, the waiter must not miss a notify that follows the next change made under
     // the lock.
     coro::detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(this));
+
+    // The stop can be requested without the lock, its notify doesn't find this waiter if it wasn't on the list.
+    if (m_data.m_stop_token.has_value() && m_data.m_stop_token.value().stop_requested() &&
+        m_condition_variable.remove_awaiter(this))
+    {
+        m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
+        m_data.m_status = {std::cv_status::no_timeout};
+        event_lock.unlock();
+        m_data.m_notify_callback.set();
+        co_return notify_status_t::ready;
+    }
+
     waiter_mutex->unlock();
     co_return notify_status_t::not_ready;
 }
@@ -219,6 +239,29 @@ auto condition_variable::pop_all_awaiters() -> awaiter_base*
     return detail::awaiter_list_pop_all(m_awaiters);
 }
 
+auto condition_variable::remove_awaiter(awaiter_base* waiter) -> bool
+{
+    std::scoped_lock lk{m_pop_mutex};
+    auto*            current = waiter;
+    if (m_awaiters.compare_exchange_strong(
+            current, waiter->m_next, std::memory_order::acq_rel, std::memory_order::acquire))
+    {
+        return true;
+    }
+
+    // Waiters are only ever added at the head of the list, everything behind it stays put while holding the mutex.
+    for (; current != nullptr; current = current->m_next)
+    {
+        if (current->m_next == waiter)
+        {
+            current->m_next = waiter->m_next;
+            return true;
+        }
+    }
+
+    return false;
+}
+
 auto condition_variable::notify_one() -> coro::task<void>
 {
     // The loop is here in case there are *dead* awaiter_hook_tasks that need to be skipped.
-- 
2.43.0


From c1dc3c6a7610d7777b91d2b3271d4692933b0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:24 +0000
Subject: [PATCH 12/52] fix: the scheduler closes its timer descriptor

---
 include/coro/detail/timer_handle.hpp |  6 ++++++
 src/detail/timer_handle.cpp          | 15 +++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..aed29de 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -16,6 +16,12 @@ class timer_handle
 
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
+    ~timer_handle();
+
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
 
     coro::fd_t get_fd() const { return m_fd; }
 
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..d893bcb 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -2,6 +2,10 @@
 
 #include "coro/io_notifier.hpp"
 
+#if defined(__linux__)
+    #include <unistd.h>
+#endif
+
 namespace coro::detail
 {
 
@@ -16,6 +20,8 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +31,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 27855918d6876389f9e12f54c297850cb8963f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:56 +0000
Subject: [PATCH 13/52] fix: a polled coroutine is handed to the event loop
 with an atomic

---
 include/coro/detail/poll_info.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..f2229ad 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,7 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -72,8 +71,9 @@ struct poll_info
     /// This is needed so that if the event occurs first then the event loop can immediately disable
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
-    /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    /// The awaiting coroutine for this poll info to resume upon event or timeout.  The event or timeout can be processed
+    /// before the coroutine has suspended, the event loop waits for this to be set.
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{nullptr};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
-- 
2.43.0


From 55a71057b8944cd958df2902dd71bbf68a980b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:56 +0000
Subject: [PATCH 14/52] fix: the scheduler's next timeout is updated while
 holding the timed events lock

---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..9e242cc 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -464,6 +464,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From ac12a491f74bee427fc826f35b8c828d9495514b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:54 +0000
Subject: [PATCH 15/52] fix: condition_variable wait_for/wait_until doesn't
 touch a completed wait nor leave timed out waits behind

---
 include/coro/condition_variable.hpp | 27 ++++++++++++++++++++++-----
 src/condition_variable.cpp          |  9 ++++++---
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index d8da8cf..9aba3fc 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -158,6 +158,9 @@ private:
         coro::event m_notify_callback{};
         /// @brief Flag to notify if the awaiter has completed via no_timeout or timeout.
         std::atomic<bool> m_awaiter_completed{false};
+        /// @brief Set prior to the notify callback when the awaiter has been completed by a notify. The awaiter and its
+        /// status are gone by the time of the notify callback if it has been completed by the timeout.
+        bool m_notified{false};
         /// @brief The status of the wait() call, this is _ONLY_ valid if the m_awaiter_completed flag was obtained,
         /// otherwise its a dangling reference.
         std::optional<std::cv_status>& m_status;
@@ -226,7 +229,7 @@ private:
             co_await data.m_notify_callback;
 
             // If this is the condition and not a timeout resume from this task.
-            if (m_status.value() == std::cv_status::no_timeout)
+            if (data.m_notified)
             {
                 // The condition coroutine is resumed from here instead of the awaiter hook task to
                 // guarantee the controller is still alive until the caller's coroutine is completed.
@@ -241,11 +244,16 @@ private:
          * @brief Task to handle the timeout case, this will always wait the duration of the timeout before exiting.
          *
          * @param data The controller task data.
+         * @param hook The hook on the condition variable's list of waiters.
+         * @param executor The executor to wait on, the awaiter can be gone before this task is started.
+         * @param wait_for The amount of time to wait for, the awaiter can be gone before this task is started.
          * @return coro::task<void>
          */
-        auto make_timeout_task(controller_data& data) -> coro::task<void>
+        auto make_timeout_task(
+            controller_data& data, awaiter_base& hook, io_executor_type& executor, const std::chrono::nanoseconds wait_for)
+            -> coro::task<void>
         {
-            co_await m_executor->schedule_after(m_wait_for);
+            co_await executor.schedule_after(wait_for);
             auto lock = co_await data.m_event_mutex.scoped_lock();
             bool expected{false};
             if (data.m_awaiter_completed.compare_exchange_strong(
@@ -254,6 +262,13 @@ private:
                 m_status = {std::cv_status::timeout};
                 lock.unlock();
 
+                // The hook is of no use anymore, if a notify has already taken it off the list then the notify will
+                // see that the awaiter has timed out and lets the callback task complete.
+                if (m_condition_variable.remove_awaiter(&hook))
+                {
+                    data.m_notify_callback.set();
+                }
+
                 // This means the timeout has occurred first. Before resuming the wait_[for|until]() caller the lock
                 // must be re-acquired.
                 co_await m_lock.m_mutex->lock();
@@ -283,7 +298,8 @@ private:
             detail::awaiter_list_push(m_condition_variable.m_awaiters, static_cast<awaiter_base*>(&hook_task));
             m_lock.m_mutex->unlock(); // Unlock the actual lock now that we are setup, not the fake hook task.
 
-            co_await coro::when_all(make_on_notify_callback_task(data), make_timeout_task(data));
+            co_await coro::when_all(
+                make_on_notify_callback_task(data), make_timeout_task(data, hook_task, *m_executor, m_wait_for));
             co_return;
         }
 
@@ -309,7 +325,8 @@ private:
 
             // Make the background controller which proxies between the notify task and the timeout task.
             auto controller = make_controller_task();
-            controller.resume();
+            // The controller can be completed and deleted upon returning, do not touch it afterwards.
+            controller.handle().resume();
             return true;
         }
 
diff --git a/src/condition_variable.cpp b/src/condition_variable.cpp
index 23d67a7..ab7b667 100644
--- a/src/condition_variable.cpp
+++ b/src/condition_variable.cpp
@@ -188,7 +188,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     if (!m_data.m_predicate.has_value())
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
-        m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_status   = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
@@ -200,7 +201,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
     if (m_data.m_predicate_result || (m_data.m_stop_token.has_value() && m_data.m_stop_token.value().stop_requested()))
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
-        m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_status   = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
@@ -215,7 +217,8 @@ auto condition_variable::awaiter_with_wait_hook::on_notify() -> coro::task<condi
         m_condition_variable.remove_awaiter(this))
     {
         m_data.m_awaiter_completed.exchange(true, std::memory_order::release);
-        m_data.m_status = {std::cv_status::no_timeout};
+        m_data.m_status   = {std::cv_status::no_timeout};
+        m_data.m_notified = true;
         event_lock.unlock();
         m_data.m_notify_callback.set();
         co_return notify_status_t::ready;
-- 
2.43.0


From 43c81f14661c06a5672126f217eb93c67222af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:54 +0000
Subject: [PATCH 16/52] fix: schedule_operation isn't touched once its on the
 scheduler's list

---
 include/coro/scheduler.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..1728622 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -150,15 +150,18 @@ public:
             {
                 m_scheduler.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+
+                // Once its on the list this operation can be resumed and destroyed by the event loop.
+                auto& s = m_scheduler;
+                detail::awaiter_list_push(s.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (s.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = s.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
-- 
2.43.0


From 7486a5b8f073ceb2aaefbe66826583f7f35ffc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 17/52] fix: a finished generator isn't resumed by begin()

---
 include/coro/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coro/generator.hpp b/include/coro/generator.hpp
index f303709..4343054 100644
--- a/include/coro/generator.hpp
+++ b/include/coro/generator.hpp
@@ -157,7 +157,8 @@ public:
 
     auto begin() -> iterator
     {
-        if (m_coroutine != nullptr)
+        // A generator that has already run to its end has no further values.
+        if (m_coroutine != nullptr && !m_coroutine.done())
         {
             m_coroutine.resume();
             if (m_coroutine.done())
-- 
2.43.0


From 0634ba7f75b43eac52eebd1ce67bcd6a1464fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 18/52] fix: when_any completes with an exception if every task
 threw

---
 include/coro/when_any.hpp | 91 ++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 15 deletions(-)

diff --git a/include/coro/when_any.hpp b/include/coro/when_any.hpp
index ba73d79..926defc 100644
--- a/include/coro/when_any.hpp
+++ b/include/coro/when_any.hpp
@@ -14,6 +14,7 @@
     #include <atomic>
     #include <cassert>
     #include <coroutine>
+    #include <exception>
     #include <optional>
     #include <stop_token>
     #include <utility>
@@ -37,6 +38,21 @@ struct when_any_variant_traits<void>
     using type = std::monostate;
 };
 
+/// If every task threw there is no first result to wake the awaiting coroutine with, it is woken up with an exception.
+inline auto when_any_none_completed(when_all_task<void>& task, coro::event& notify, std::exception_ptr& exception)
+    -> void
+{
+    try
+    {
+        task.return_value();
+    }
+    catch (...)
+    {
+        exception = std::current_exception();
+    }
+    notify.set();
+}
+
 template<size_t index, typename return_type, concepts::awaitable awaitable>
 auto make_when_any_tuple_task(
     std::atomic<bool>& first_completed, coro::event& notify, std::optional<return_type>& return_value, awaitable a)
@@ -71,11 +87,16 @@ template<typename return_type, concepts::awaitable... awaitable_type, size_t...
     std::index_sequence<indices...>,
     coro::event&                notify,
     std::optional<return_type>& return_value,
+    std::exception_ptr&         exception,
     awaitable_type... awaitables) -> coro::detail::task_self_deleting
 {
     std::atomic<bool> first_completed{false};
-    co_await coro::when_all(
+    auto results = co_await coro::when_all(
         make_when_any_tuple_task<indices>(first_completed, notify, return_value, std::move(awaitables))...);
+    if (!first_completed.load(std::memory_order::acquire))
+    {
+        when_any_none_completed(std::get<0>(results), notify, exception);
+    }
     co_return;
 }
 
@@ -111,8 +132,8 @@ static auto make_when_any_task(
 }
 
 template<std::ranges::range range_type, concepts::awaitable awaitable_type = std::ranges::range_value_t<range_type>>
-static auto make_when_any_controller_task_return_void(range_type awaitables, coro::event& notify)
-    -> coro::detail::task_self_deleting
+static auto make_when_any_controller_task_return_void(
+    range_type awaitables, coro::event& notify, std::exception_ptr& exception) -> coro::detail::task_self_deleting
 {
     std::atomic<bool>             first_completed{false};
     std::vector<coro::task<void>> tasks{};
@@ -127,7 +148,11 @@ static auto make_when_any_controller_task_return_void(range_type awaitables, cor
         tasks.emplace_back(make_when_any_task_return_void<awaitable_type>(std::move(a), first_completed, notify));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto results = co_await coro::when_all(std::move(tasks));
+    if (!first_completed.load(std::memory_order::acquire) && !results.empty())
+    {
+        when_any_none_completed(results.front(), notify, exception);
+    }
     co_return;
 }
 
@@ -137,8 +162,10 @@ template<
     typename return_type               = typename concepts::awaitable_traits<awaitable_type>::awaiter_return_type,
     typename return_type_base          = std::remove_reference_t<return_type>>
 static auto make_when_any_controller_task(
-    range_type awaitables, coro::event& notify, std::optional<return_type_base>& return_value)
-    -> coro::detail::task_self_deleting
+    range_type                       awaitables,
+    coro::event&                     notify,
+    std::optional<return_type_base>& return_value,
+    std::exception_ptr&              exception) -> coro::detail::task_self_deleting
 {
     // This must live for as long as the longest running when_any task since each task tries to see
     // if it was the first to complete. Only the very first task to complete will set the return_value
@@ -159,7 +186,11 @@ static auto make_when_any_controller_task(
             make_when_any_task<awaitable_type, return_type_base>(std::move(a), first_completed, notify, return_value));
     }
 
-    co_await coro::when_all(std::move(tasks));
+    auto results = co_await coro::when_all(std::move(tasks));
+    if (!first_completed.load(std::memory_order::acquire) && !results.empty())
+    {
+        when_any_none_completed(results.front(), notify, exception);
+    }
     co_return;
 }
 
@@ -175,16 +206,22 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
     stop_source.request_stop();
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -198,15 +235,21 @@ template<concepts::awaitable... awaitable_type>
 
     coro::event                notify{};
     std::optional<return_type> return_value{std::nullopt};
+    std::exception_ptr         exception{nullptr};
 
     auto controller_task = detail::make_when_any_tuple_controller_task(
         std::index_sequence_for<awaitable_type...>{},
         notify,
         return_value,
+        exception,
         std::forward<awaitable_type>(awaitables)...);
     controller_task.handle().resume();
 
     co_await notify;
+    if (exception != nullptr)
+    {
+        std::rethrow_exception(exception);
+    }
     co_return std::move(return_value.value());
 }
 
@@ -217,16 +260,21 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(std::stop_source stop_source, range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
@@ -234,12 +282,16 @@ template<
         // Using an std::optional to prevent the need to default construct the type on the stack.
         std::optional<return_type_base> return_value{std::nullopt};
 
-        auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+        auto controller_task = detail::make_when_any_controller_task(
+            std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
         stop_source.request_stop();
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
@@ -251,26 +303,35 @@ template<
     typename return_type_base          = std::remove_reference_t<return_type>>
 [[nodiscard]] auto when_any(range_type awaitables) -> coro::task<return_type_base>
 {
-    coro::event notify{};
+    coro::event        notify{};
+    std::exception_ptr exception{nullptr};
 
     if constexpr (std::is_void_v<return_type_base>)
     {
         auto controller_task =
-            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify);
+            detail::make_when_any_controller_task_return_void(std::forward<range_type>(awaitables), notify, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
     else
     {
         std::optional<return_type_base> return_value{std::nullopt};
 
-        auto controller_task =
-            detail::make_when_any_controller_task(std::forward<range_type>(awaitables), notify, return_value);
+        auto controller_task = detail::make_when_any_controller_task(
+            std::forward<range_type>(awaitables), notify, return_value, exception);
         controller_task.handle().resume();
 
         co_await notify;
+        if (exception != nullptr)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return std::move(return_value.value());
     }
 }
-- 
2.43.0


From f429549055e10de1db6d2497e603bf27b4de746e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:00 +0000
Subject: [PATCH 19/52] fix: invoke doesn't resume its task again while the
 user's task is suspended

---
 include/coro/invoke.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/invoke.hpp b/include/coro/invoke.hpp
index 1111888..91aa494 100644
--- a/include/coro/invoke.hpp
+++ b/include/coro/invoke.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <coroutine>
 #include <utility>
 
 namespace coro
@@ -12,6 +13,9 @@ template<typename functor_type, typename... args_types>
 auto make_invoker_task(functor_type functor, args_types&&... args) -> decltype(functor(std::forward<args_types>(args)...))
 {
     auto user_task = functor(std::forward<args_types>(args)...);
+    // invoke() drives this task up to here to hand over the arguments, only whoever awaits this task can drive it through
+    // the user's task since it might suspend.
+    co_await std::suspend_always{};
     co_return co_await user_task;
 }
 
-- 
2.43.0


From 8d9b5dc309fda0aabb1524ea7d257d907ee534f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 20/52] fix: the thread pool doesn't lose or leave behind a
 coroutine scheduled while it is shutting down

---
 include/coro/thread_pool.hpp | 26 +++++++++++++++--------
 src/thread_pool.cpp          | 41 +++++++++++++++++++++++++++++-------
 2 files changed, 50 insertions(+), 17 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..f8e49a0 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -54,19 +54,22 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing thread
+         * to resume from, unless the thread pool has been shutdown since this operation was created.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool;
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the thread pool's executing thread.
+         * @throw std::runtime_error If the thread pool was `shutdown()` before the coroutine could be scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void;
 
     private:
         /// @brief The thread pool that this schedule operation will execute on.
         thread_pool& m_thread_pool;
+        /// @brief Was the coroutine refused since the thread pool is shutdown?
+        bool m_refused{false};
     };
 
     struct options
@@ -166,14 +169,16 @@ public:
     /**
      * Schedules any coroutine handle that is ready to be resumed.
      * @param handle The coroutine handle to schedule.
-     * @return True if the coroutine is resumed, false if it is a nullptr or the coroutine is already done.
+     * @return True if the coroutine is resumed, false if it is a nullptr, the coroutine is already done or the
+     *         thread pool is shutdown.
      */
     auto resume(std::coroutine_handle<> handle) noexcept -> bool;
 
     /**
      * Schedules the set of coroutine handles that are ready to be resumed.
      * @param handles The coroutine handles to schedule.
-     * @return std::size_t The number of tasks resumed, if any are null they are discarded.
+     * @return std::size_t The number of tasks resumed, if any are null or done they are discarded.  If the thread
+     *         pool is shutdown then none are resumed.
      */
     template<coro::concepts::sized_range_of<std::coroutine_handle<>> range_type>
     auto resume(const range_type& handles) noexcept -> std::size_t
@@ -184,9 +189,11 @@ public:
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            // Once shutdown the executor threads might already be gone.
+            const bool refused = m_shutdown_requested.load(std::memory_order::acquire);
             for (const auto& handle : handles)
             {
-                if (handle != nullptr) [[likely]]
+                if (!refused && handle != nullptr && !handle.done()) [[likely]]
                 {
                     m_queue.emplace_back(handle);
                 }
@@ -278,8 +285,9 @@ private:
     auto executor(std::size_t idx) -> void;
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
+     * @return False if the thread pool is shutdown, the coroutine isn't executed.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..4152190 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,26 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    // Once its scheduled this operation can be resumed and destroyed by an executor thread.
+    auto& tp = m_thread_pool;
+    if (tp.schedule_impl(awaiting_coroutine))
+    {
+        return true;
+    }
+
+    tp.m_size.fetch_sub(1, std::memory_order::release);
+    m_refused = true;
+    return false;
+}
+
+auto thread_pool::schedule_operation::await_resume() -> void
+{
+    if (m_refused)
+    {
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -90,7 +107,11 @@ auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
         return false;
     }
 
-    schedule_impl(handle);
+    if (!schedule_impl(handle))
+    {
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
     return true;
 }
 
@@ -169,18 +190,22 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
+    std::scoped_lock lk{m_wait_mutex};
+    // Checked while holding the lock, the executor threads empty the queue after a shutdown before they exit.
+    if (m_shutdown_requested.load(std::memory_order::acquire))
     {
-        std::scoped_lock lk{m_wait_mutex};
-        m_queue.emplace_back(handle);
-        m_wait_cv.notify_one();
+        return false;
     }
+    m_queue.emplace_back(handle);
+    m_wait_cv.notify_one();
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From a1c19b961f66c59841f0aac63a0d8e77f55566ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 21/52] fix: thread_pool::queue_size holds the queue's lock

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index f8e49a0..a046c50 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -257,7 +257,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -272,7 +272,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// FIFO queue of tasks waiting to be executed.
-- 
2.43.0


From 4705d812c61f810d9f50c6b1fbb353957e5cb229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 22/52] fix: tasks refused by a shutdown executor are destroyed
 and not counted

---
 include/coro/task_group.hpp | 2 ++
 src/scheduler.cpp           | 9 ++++++++-
 src/thread_pool.cpp         | 9 ++++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..5292dae 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -105,6 +105,8 @@ public:
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // It'll never run and therefore never delete itself.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 9e242cc..214b367 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,7 +87,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It'll never run and therefore never delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 4152190..d897e1f 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -84,7 +84,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It'll never run and therefore never delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From f49af730a7981f971fb130ea5e848dd7883b2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 23/52] fix: a task group's event isn't triggered while a task
 that was started is unfinished

---
 include/coro/task_group.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 5292dae..352c697 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -8,6 +8,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 namespace coro
@@ -96,9 +97,19 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
-        m_size.fetch_add(1, std::memory_order::release);
+        {
+            // Make sure the event isn't triggered, or can trigger again until this task has completed. The first task of
+            // an empty group has to let the previous last task trigger the event before resetting it.
+            std::scoped_lock lk{m_start_mutex};
+            if (m_size.fetch_add(1, std::memory_order::acq_rel) == 0)
+            {
+                while (!m_on_empty_event.is_set())
+                {
+                    std::this_thread::yield();
+                }
+                m_on_empty_event.reset();
+            }
+        }
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
 
@@ -135,6 +146,8 @@ private:
     executor_type* m_executor{nullptr};
     /// The number of alive tasks.
     std::atomic<uint64_t> m_size{};
+    /// Only one task at a time can make the group non-empty.
+    std::mutex m_start_mutex{};
     /// Event to trigger if m_size goes to zero.
     coro::event m_on_empty_event{true};
 
-- 
2.43.0


From ef8336cb18ecffc72c9448eebb315be7f10d1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:58 +0000
Subject: [PATCH 24/52] fix: a task group's destructor waits for the last task
 to be done with the group

---
 include/coro/task_group.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 352c697..e54e928 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -82,7 +82,8 @@ public:
      */
     ~task_group()
     {
-        while (!empty())
+        // The last task triggers the event after its no longer counted.
+        while (!empty() || !m_on_empty_event.is_set())
         {
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
-- 
2.43.0


From 6602398bd114bf8191839bb9e6c45c7f0d223f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 25/52] fix: the scheduler doesn't lose a coroutine that is
 scheduled while it is shutting down

---
 include/coro/scheduler.hpp | 74 ++++++++++++++++++++++++++++++++------
 src/scheduler.cpp          | 14 +++++---
 2 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 1728622..f026ffd 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -19,6 +19,7 @@
 #include <map>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <stop_token>
 #include <thread>
 #include <type_traits>
@@ -141,14 +142,18 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Suspending returns to the caller and stores the coroutine internally for the executing thread to
+         * resume from, unless the scheduler has been shutdown and can no longer resume it.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                if (!m_scheduler.try_add_work())
+                {
+                    m_refused = true;
+                    return false;
+                }
                 m_awaiting_coroutine = awaiting_coroutine;
 
                 // Once its on the list this operation can be resumed and destroyed by the event loop.
@@ -169,21 +174,36 @@ public:
                             << written << "\n";
                     }
                 }
+                return true;
             }
             else
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                // Once its resumed by the thread pool this operation can be destroyed.
+                if (m_scheduler.m_thread_pool->resume(awaiting_coroutine))
+                {
+                    return true;
+                }
+                m_refused = true;
+                return false;
             }
         }
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the executing thread.
+         * @throw std::runtime_error If the scheduler is shutdown and can no longer resume the coroutine.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void
+        {
+            if (m_refused)
+            {
+                throw std::runtime_error("coro::scheduler is shutdown, unable to schedule new tasks.");
+            }
+        }
 
         std::coroutine_handle<> m_awaiting_coroutine;
         schedule_operation*     m_next{nullptr};
         bool                    m_allocated{false};
+        bool                    m_refused{false};
 
     private:
         /// The thread pool that this operation will execute on.
@@ -435,13 +455,14 @@ public:
      */
     auto size() const noexcept -> std::size_t
     {
+        const auto size = m_size.load(std::memory_order::acquire) & ~m_ended;
         if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
         {
-            return m_size.load(std::memory_order::acquire);
+            return size;
         }
         else
         {
-            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();
+            return size + m_thread_pool->size();
         }
     }
 
@@ -477,8 +498,41 @@ private:
     /// @brief Scheduled operations waiting to be resumed.
     std::atomic<schedule_operation*> m_scheduled_ops{nullptr};
 
-    /// The number of tasks executing or awaiting events in this io scheduler.
+    /// The number of tasks executing or awaiting events in this io scheduler.  The dedicated event processor adds
+    /// m_ended to it when it finds nothing left to do after a shutdown, nothing is processed any more from then on.
     std::atomic<std::size_t> m_size{0};
+    static constexpr const std::size_t m_ended{~(~std::size_t{0} >> 1)};
+
+    /// Accounts for a task that awaits an event, unless the event processor has ended.
+    auto try_add_work() noexcept -> bool
+    {
+        if ((m_size.fetch_add(1, std::memory_order::acq_rel) & m_ended) == 0)
+        {
+            return true;
+        }
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    /// Like try_add_work() but throws std::runtime_error if the event processor has ended.
+    auto add_work() -> void
+    {
+        if (!try_add_work())
+        {
+            throw std::runtime_error("coro::scheduler is shutdown, unable to schedule new tasks.");
+        }
+    }
+    /// Ends the event processing if there is nothing left to process.
+    auto try_end() noexcept -> bool
+    {
+        // A task on the thread pool is accounted for in m_size before it leaves the thread pool to await an event.
+        if (m_thread_pool != nullptr && !m_thread_pool->empty())
+        {
+            return false;
+        }
+        std::size_t expected{0};
+        return m_size.compare_exchange_strong(
+            expected, m_ended, std::memory_order::acq_rel, std::memory_order::acquire);
+    }
 
     /// The background io worker threads.
     std::thread m_io_thread;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 214b367..34219fe 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -119,7 +119,7 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     }
     else
     {
-        m_size.fetch_add(1, std::memory_order::release);
+        add_work();
 
         auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
 
@@ -138,7 +138,7 @@ auto scheduler::poll(
 {
     // Because the size will drop when this coroutine suspends every poll needs to undo the subtraction
     // on the number of active tasks in the scheduler.  When this task is resumed by the event loop.
-    m_size.fetch_add(1, std::memory_order::release);
+    add_work();
 
     // Setup two events, a timeout event and the actual poll for op event.
     // Whichever triggers first will delete the other to guarantee only one wins.
@@ -181,7 +181,11 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
     {
         auto* schedule_op        = new schedule_operation{*this};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->await_suspend(handle))
+        {
+            delete schedule_op;
+            return false;
+        }
         return true;
     }
     else
@@ -227,7 +231,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // Yield/timeout tasks are considered live in the scheduler and must be accounted for. Note
         // that if the user gives an invalid amount and schedule() is directly called it will account
         // for the scheduled task there.
-        m_size.fetch_add(1, std::memory_order::release);
+        add_work();
 
         // Yielding does not require setting the timer position on the poll info since
         // it doesn't have a corresponding 'event' that can trigger, it always waits for
@@ -259,7 +263,7 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (!m_shutdown_requested.load(std::memory_order::acquire) || !try_end())
     {
         process_events_execute(m_default_timeout);
     }
-- 
2.43.0


From 50458b407465cf2f944d653b30d3599081af48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 26/52] fix: yield_until and schedule_at don't resume before
 the requested time

---
 src/scheduler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 34219fe..0e463ce 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -121,10 +121,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     {
         add_work();
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From ba2671051e2a86ef14d5e094dbc91aef74c2442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 27/52] fix: a poll's descriptor, stop token and timeout are
 all unregistered once it has completed

---
 src/detail/io_notifier_epoll.cpp | 15 +++++++--------
 src/scheduler.cpp                | 22 ++++++++++++----------
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..213ebd3 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -118,6 +118,11 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
@@ -137,26 +142,20 @@ auto io_notifier_epoll::next_events(
     int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
     for (int i = 0; i < num_ready; ++i)
     {
+        // Note that udata isn't always a poll_info, and that a poll_info might still be being set up by its poll.
         auto [keep_registered, is_cancel_event, udata] = decode_udata(ready_set[i].data.u64);
         auto* pi                                       = static_cast<poll_info*>(udata);
+        (void)keep_registered;
 
         // If the event issuing fd is the same as the fd of the cancellation trigger of the registered poll_info we
         // this operation was cancelled by the user.
         if (is_cancel_event)
         {
             ready_events.emplace_back(pi, poll_status::cancelled);
-            if (!keep_registered)
-            {
-                unwatch(*pi);
-            }
         }
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
-            {
-                unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
-            }
         }
     }
 }
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 0e463ce..873780b 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -393,6 +393,12 @@ auto scheduler::process_scheduled_execute_inline() -> void
 
 auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status) -> void
 {
+    // The poll can still be registering its events, it is done once it awaits them.
+    while (pi->m_awaiting_coroutine == nullptr)
+    {
+        std::atomic_thread_fence(std::memory_order::acquire);
+    }
+
     if (!pi->m_processed)
     {
         std::atomic_thread_fence(std::memory_order::acquire);
@@ -414,11 +420,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
-        {
-            std::atomic_thread_fence(std::memory_order::acquire);
-        }
-
         m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
     }
 }
@@ -449,6 +450,12 @@ auto scheduler::process_timeout_execute() -> void
 
     for (auto pi : poll_infos)
     {
+        // The poll can still be registering its events, it is done once it awaits them.
+        while (pi->m_awaiting_coroutine == nullptr)
+        {
+            std::atomic_thread_fence(std::memory_order::acquire);
+        }
+
         if (!pi->m_processed)
         {
             // Its possible the event and the timeout occurred in the same epoll, make sure only one
@@ -461,11 +468,6 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
-            {
-                std::atomic_thread_fence(std::memory_order::acquire);
-            }
-
             m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
             pi->m_poll_status = coro::poll_status::timeout;
         }
-- 
2.43.0


From eab9a0fbbc22bc8b57ca68e3dca8f22877565856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 28/52] fix: polling a descriptor that cannot be watched
 reports an error

---
 src/detail/io_notifier_epoll.cpp |  5 ++++-
 src/scheduler.cpp                | 10 ++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 213ebd3..660f1b3 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -101,7 +101,10 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 873780b..ba8fc83 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -146,14 +146,16 @@ auto scheduler::poll(
 
     auto pi = detail::poll_info{fd, op, cancel_trigger};
 
-    if (timeout_requested)
+    if (!m_io_notifier.watch(pi))
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        std::cerr << "Failed to add " << fd << " to watch list\n";
+        m_size.fetch_sub(1, std::memory_order::release);
+        co_return poll_status::error;
     }
 
-    if (!m_io_notifier.watch(pi))
+    if (timeout_requested)
     {
-        std::cerr << "Failed to add " << fd << " to watch list\n";
+        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
-- 
2.43.0


From 46f6d676b70f75d07a890c5441e087e8d0f3973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 29/52] fix: a descriptor or stop token can be polled by
 several coroutines at the same time

---
 include/coro/detail/io_notifier_epoll.hpp |  3 ++
 include/coro/detail/poll_info.hpp         |  4 ++
 src/detail/io_notifier_epoll.cpp          | 47 +++++++++++++++++++++--
 3 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/include/coro/detail/io_notifier_epoll.hpp b/include/coro/detail/io_notifier_epoll.hpp
index 4d949cc..c11cb0d 100644
--- a/include/coro/detail/io_notifier_epoll.hpp
+++ b/include/coro/detail/io_notifier_epoll.hpp
@@ -30,6 +30,9 @@ class io_notifier_epoll
 
     static auto event_to_poll_status(const event_t& event) -> poll_status;
 
+    auto watch(poll_info& pi, fd_t fd, fd_t& watched_fd, poll_op op, bool is_cancel_event) -> bool;
+    auto unwatch(fd_t fd, fd_t& watched_fd, poll_op op) -> bool;
+
 public:
     io_notifier_epoll();
 
diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index f2229ad..d947e4d 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -79,6 +79,10 @@ struct poll_info
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
     /// Once this is set to true all future events on this poll info are null and void.
     bool m_processed{false};
+    /// If m_fd or the descriptor of m_cancel_trigger is already being watched by another poll then these are the
+    /// duplicates which are watched instead.
+    fd_t m_watched_fd{-1};
+    fd_t m_watched_cancel_fd{-1};
     /// Cancellation receiver of this poll operation.
     std::optional<poll_stop_token> m_cancel_trigger = std::nullopt;
 };
diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 660f1b3..7a6df4d 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -1,5 +1,6 @@
 #include "coro/detail/io_notifier_epoll.hpp"
 
+#include <cerrno>
 #include <chrono>
 #include <cstdint>
 #include <stdexcept>
@@ -9,6 +10,9 @@
 #include "coro/fd.hpp"
 #include "coro/poll.hpp"
 
+#include <fcntl.h>
+#include <unistd.h>
+
 using namespace std::chrono_literals;
 
 namespace coro::detail
@@ -99,16 +103,38 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
     return ::epoll_ctl(m_fd, EPOLL_CTL_ADD, fd, &event_data) != -1;
 }
 
+auto io_notifier_epoll::watch(poll_info& pi, fd_t fd, fd_t& watched_fd, poll_op op, bool is_cancel_event) -> bool
+{
+    if (watch(fd, op, static_cast<void*>(&pi), false, is_cancel_event))
+    {
+        return true;
+    }
+
+    if (errno != EEXIST)
+    {
+        return false;
+    }
+
+    // Another poll is watching the descriptor, a descriptor can only be added once but a duplicate of it can be too.
+    watched_fd = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
+    if (watched_fd != -1 && !watch(watched_fd, op, static_cast<void*>(&pi), false, is_cancel_event))
+    {
+        ::close(watched_fd);
+        watched_fd = -1;
+    }
+    return watched_fd != -1;
+}
+
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    if (!watch(pi, pi.m_fd, pi.m_watched_fd, pi.m_op, false))
     {
         return false;
     }
 
     if (pi.m_cancel_trigger.has_value())
     {
-        watch(pi.m_cancel_trigger.value().native_handle(), poll_op::read, static_cast<void*>(&pi), false, true);
+        watch(pi, pi.m_cancel_trigger.value().native_handle(), pi.m_watched_cancel_fd, poll_op::read, true);
     }
 
     return true;
@@ -119,14 +145,27 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
     return ::epoll_ctl(m_fd, EPOLL_CTL_DEL, fd, nullptr) != -1;
 }
 
+auto io_notifier_epoll::unwatch(fd_t fd, fd_t& watched_fd, poll_op op) -> bool
+{
+    if (watched_fd == -1)
+    {
+        return unwatch(fd, op);
+    }
+
+    const auto result = unwatch(watched_fd, op);
+    ::close(watched_fd);
+    watched_fd = -1;
+    return result;
+}
+
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
     if (pi.m_cancel_trigger.has_value())
     {
-        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+        unwatch(pi.m_cancel_trigger.value().native_handle(), pi.m_watched_cancel_fd, poll_op::read);
     }
 
-    return unwatch(pi.m_fd, pi.m_op);
+    return unwatch(pi.m_fd, pi.m_watched_fd, pi.m_op);
 }
 
 auto io_notifier_epoll::unwatch_timer(const timer_handle& timer) -> bool
-- 
2.43.0


From e9069627e50b39421c7e9526d800713683ee5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 30/52] fix: to_string names poll_status::cancelled

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From 0786d93cdf05282f132ad70e92dbc9df7e0f8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:27 +0000
Subject: [PATCH 31/52] fix: an assigned pipe closes its previous descriptors
 and a moved from one owns none

---
 include/coro/detail/pipe.hpp | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From 6ae34c67159fa6ee19a29095f033871b48f53599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 32/52] fix: schedule with a timeout doesn't round the timeout
 down

---
 include/coro/scheduler.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index f026ffd..0274a52 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -269,8 +269,8 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
-        if (timeout_ms == 0ms)
+        auto timeout_ns = std::max(std::chrono::ceil<std::chrono::nanoseconds>(timeout), 0ns);
+        if (timeout_ns == 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
             {
@@ -283,7 +283,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(std::move(task), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -321,8 +321,8 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
-        if (timeout_ms == 0ms)
+        auto timeout_ns = std::max(std::chrono::ceil<std::chrono::nanoseconds>(timeout), 0ns);
+        if (timeout_ns == 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
             {
@@ -335,7 +335,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ms));
+        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -579,7 +579,7 @@ private:
     auto remove_timer_token(timed_events::iterator pos) -> void;
     auto update_timeout(time_point now) -> void;
 
-    auto make_timeout_task(std::chrono::milliseconds timeout) -> coro::task<timeout_status>
+    auto make_timeout_task(std::chrono::nanoseconds timeout) -> coro::task<timeout_status>
     {
         co_await schedule_after(timeout);
         co_return timeout_status::timeout;
-- 
2.43.0


From ea0ab1909885a1c1efb59c9cbd5b87cf27e72038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:03 +0000
Subject: [PATCH 33/52] fix: schedule with a timeout schedules the task on the
 scheduler

---
 include/coro/scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 0274a52..8a2ffb1 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -283,7 +283,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(task), make_timeout_task(timeout_ns));
+        auto result = co_await when_any(schedule(std::move(task)), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
@@ -335,7 +335,7 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(stop_source), std::move(task), make_timeout_task(timeout_ns));
+        auto result = co_await when_any(std::move(stop_source), schedule(std::move(task)), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 5a687d4e178efb4e46490839ab999f6fadd18fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 34/52] fix: schedule with a timeout delivers the exception of
 a task that throws in time

---
 include/coro/scheduler.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 8a2ffb1..cccab57 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -283,16 +283,18 @@ public:
             }
         }
 
-        auto result = co_await when_any(schedule(std::move(task)), make_timeout_task(timeout_ns));
+        auto result = co_await when_any(make_finished_task(std::move(task)), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
+            // The task is finished, this gets its value or throws its exception.
             if constexpr (std::is_void_v<return_type>)
             {
+                co_await std::move(std::get<0>(result));
                 co_return coro::expected<return_type, timeout_status>();
             }
             else
             {
-                co_return coro::expected<return_type, timeout_status>(std::move(std::get<0>(result)));
+                co_return coro::expected<return_type, timeout_status>(co_await std::move(std::get<0>(result)));
             }
         }
         else
@@ -335,16 +337,18 @@ public:
             }
         }
 
-        auto result = co_await when_any(std::move(stop_source), schedule(std::move(task)), make_timeout_task(timeout_ns));
+        auto result = co_await when_any(std::move(stop_source), make_finished_task(std::move(task)), make_timeout_task(timeout_ns));
         if (!std::holds_alternative<timeout_status>(result))
         {
+            // The task is finished, this gets its value or throws its exception.
             if constexpr (std::is_void_v<return_type>)
             {
+                co_await std::move(std::get<0>(result));
                 co_return coro::expected<return_type, timeout_status>();
             }
             else
             {
-                co_return coro::expected<return_type, timeout_status>(std::move(std::get<0>(result)));
+                co_return coro::expected<return_type, timeout_status>(co_await std::move(std::get<0>(result)));
             }
         }
         else
@@ -579,6 +583,20 @@ private:
     auto remove_timer_token(timed_events::iterator pos) -> void;
     auto update_timeout(time_point now) -> void;
 
+    /// Schedules the task and returns it once it is finished, by a value or by an exception.
+    template<typename return_type>
+    auto make_finished_task(coro::task<return_type> task) -> coro::task<coro::task<return_type>>
+    {
+        struct finished_awaiter : public coro::task<return_type>::awaitable_base
+        {
+            auto await_resume() noexcept -> void {}
+        };
+
+        co_await schedule();
+        co_await finished_awaiter{task.handle()};
+        co_return std::move(task);
+    }
+
     auto make_timeout_task(std::chrono::nanoseconds timeout) -> coro::task<timeout_status>
     {
         co_await schedule_after(timeout);
-- 
2.43.0


From a2e123ba1b60aea1df34348469b297873a0f743e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:57 +0000
Subject: [PATCH 35/52] fix: process_events on different threads is ordered

---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ba8fc83..524a703 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -247,7 +247,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acq_rel, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From c4d2ee09c335b4dac60c935dd9be2bad23463af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 36/52] fix: ip_address::from_string parses exactly the text
 given

---
 include/coro/net/ip_address.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..3f99460 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -7,6 +7,7 @@
 #include <span>
 #include <stdexcept>
 #include <string>
+#include <string_view>
 
 namespace coro::net
 {
@@ -62,8 +63,10 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
-        if (success != 1)
+        // The view isn't necessarily null terminated, and a null character within it isn't part of any address.
+        const std::string text{address};
+        auto success = inet_pton(static_cast<int>(addr.m_domain), text.c_str(), addr.m_data.data());
+        if (success != 1 || text.find('\0') != std::string::npos)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
         }
-- 
2.43.0


From 73ccc09393fb08a23829c8473d7dbb82c4f41685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:24 +0000
Subject: [PATCH 37/52] fix: a write to a peer that only shut down its writing
 end isn't reported as closed

---
 src/detail/io_notifier_epoll.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 7a6df4d..c23654d 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -86,9 +86,15 @@ auto io_notifier_epoll::watch_timer(const timer_handle& timer, std::chrono::nano
 auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool is_cancel_event) -> bool
 {
     auto event_data     = event_t{};
-    event_data.events   = static_cast<uint32_t>(op) | EPOLLRDHUP;
+    event_data.events   = static_cast<uint32_t>(op);
     event_data.data.u64 = encode_udata(keep, is_cancel_event, data);
 
+    // A peer that only shut down its writing end can still be written to.
+    if (poll_op_readable(op))
+    {
+        event_data.events |= EPOLLRDHUP;
+    }
+
     if (!keep)
     {
         event_data.events |= EPOLLONESHOT;
-- 
2.43.0


From 1c1cb30c765101ee27871e378226eb94eebccadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:08 +0000
Subject: [PATCH 38/52] fix: tcp reads count elements, not bytes, and don't
 tear an element

---
 include/coro/net/tcp/client.hpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..95b0580 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -10,6 +10,7 @@
 #include "coro/scheduler.hpp"
 #include "coro/task.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <memory>
 #include <optional>
@@ -79,8 +80,30 @@ public:
         {
             co_return {io_status{io_status::kind::ok}, {}};
         }
-        auto [status, buf] = co_await read_some_impl(std::as_writable_bytes(std::span{buffer}), timeout);
-        co_return {status, std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size()}};
+        const auto start_time = std::chrono::steady_clock::now();
+        auto       bytes      = std::as_writable_bytes(std::span{buffer});
+        auto [status, buf]    = co_await read_some_impl(bytes, timeout);
+        if constexpr (sizeof(element_type) > 1)
+        {
+            // The rest of a partially received element has to follow.
+            if (auto partial = buf.size() % sizeof(element_type); status.is_ok() && partial != 0)
+            {
+                auto remaining_timeout = timeout;
+                if (timeout.count() > 0)
+                {
+                    auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(
+                        std::chrono::steady_clock::now() - start_time);
+                    remaining_timeout = std::max(timeout - elapsed, std::chrono::milliseconds{1});
+                }
+                auto rest        = bytes.subspan(buf.size(), sizeof(element_type) - partial);
+                auto [st, extra] = co_await read_exact_impl(rest, remaining_timeout);
+                status           = st;
+                buf              = bytes.first(buf.size() + extra.size());
+            }
+        }
+        co_return {
+            status,
+            std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size() / sizeof(element_type)}};
     }
 
     /**
@@ -118,7 +141,9 @@ public:
             co_return {io_status{io_status::kind::ok}, {}};
         }
         auto [status, buf] = co_await read_exact_impl(std::as_writable_bytes(std::span{buffer}), timeout);
-        co_return {status, std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size()}};
+        co_return {
+            status,
+            std::span<element_type>{reinterpret_cast<element_type*>(buf.data()), buf.size() / sizeof(element_type)}};
     }
 
     /**
-- 
2.43.0


From a4b1b82ce1b708cb42fd608924ffaea6bfa94976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:52 +0000
Subject: [PATCH 39/52] fix: assigning to a socket closes its previous
 descriptor, assigning it to itself keeps it

---
 src/net/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..fd7f841 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -1,5 +1,6 @@
 #include "coro/net/socket.hpp"
 #include "coro/net/socket_address.hpp"
+#include <memory>
 #include <sys/socket.h>
 
 namespace coro::net
@@ -19,8 +20,11 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
     return *this;
 }
 
@@ -28,6 +32,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        this->close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From 1c43c5e907658ddd222eae6cd0f6c6bb262a425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:31 +0000
Subject: [PATCH 40/52] fix: a moved tcp::server takes its cancel trigger along

---
 include/coro/poll.hpp  |  2 +-
 src/net/tcp/server.cpp | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/coro/poll.hpp b/include/coro/poll.hpp
index 22aca81..3bfb240 100644
--- a/include/coro/poll.hpp
+++ b/include/coro/poll.hpp
@@ -88,7 +88,7 @@ public:
     poll_stop_source() = default;
 
     poll_stop_source(const poll_stop_source&) = delete;
-    poll_stop_source(poll_stop_source&& other) { *this = std::move(other); }
+    poll_stop_source(poll_stop_source&& other) : m_pipe(std::move(other.m_pipe)) {}
 
     poll_stop_source& operator=(const poll_stop_source&) = delete;
     poll_stop_source& operator=(poll_stop_source&& other)
diff --git a/src/net/tcp/server.cpp b/src/net/tcp/server.cpp
index 2e5ce33..ff43e09 100644
--- a/src/net/tcp/server.cpp
+++ b/src/net/tcp/server.cpp
@@ -20,7 +20,9 @@ server::server(std::unique_ptr<coro::scheduler>& scheduler, const net::socket_ad
 server::server(server&& other)
     : m_scheduler(std::exchange(other.m_scheduler, nullptr)),
       m_options(std::move(other.m_options)),
-      m_accept_socket(std::move(other.m_accept_socket))
+      m_accept_socket(std::move(other.m_accept_socket)),
+      m_cancel_trigger(std::move(other.m_cancel_trigger)),
+      m_is_read_ready(std::exchange(other.m_is_read_ready, false))
 {
 }
 
@@ -28,9 +30,11 @@ auto server::operator=(server&& other) -> server&
 {
     if (std::addressof(other) != this)
     {
-        m_scheduler     = std::exchange(other.m_scheduler, nullptr);
-        m_options       = std::move(other.m_options);
-        m_accept_socket = std::move(other.m_accept_socket);
+        m_scheduler      = std::exchange(other.m_scheduler, nullptr);
+        m_options        = std::move(other.m_options);
+        m_accept_socket  = std::move(other.m_accept_socket);
+        m_cancel_trigger = std::move(other.m_cancel_trigger);
+        m_is_read_ready  = std::exchange(other.m_is_read_ready, false);
     }
     return *this;
 }
-- 
2.43.0


From 7622fc5a072a732d930e8c6b6b3ef29c52d1a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:30 +0000
Subject: [PATCH 41/52] fix: tls recv delivers decrypted data and recv and send
 follow what the connection waits for

---
 include/coro/net/tls/client.hpp | 202 +++++++++++++++-----------------
 1 file changed, 96 insertions(+), 106 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..2683913 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -78,39 +78,48 @@ public:
         }
 
         auto* tls = m_tls_info.m_tls_ptr.get();
+        if (tls == nullptr)
+        {
+            co_return {recv_status::error, std::span<element_type>{}};
+        }
 
-        auto op = poll_op::read;
-
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto deadline = make_deadline(timeout.value_or(std::chrono::milliseconds{0}));
 
         while (true)
         {
-            if (timeout.has_value())
+            // Try first, there might be data that has already been decrypted and the socket won't become readable for it.
+            size_t bytes_recv{0};
+            ERR_clear_error();
+            int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
+            if (r > 0)
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {recv_status::timeout, std::span<element_type>{}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                co_return {recv_status::ok, std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto op  = poll_op::read;
+            int  err = SSL_get_error(tls, r);
+            if (err == SSL_ERROR_WANT_WRITE)
+            {
+                op = poll_op::write;
+            }
+            else if (err != SSL_ERROR_WANT_READ)
+            {
+                m_tls_info.m_tls_error = (err == SSL_ERROR_SSL || err == SSL_ERROR_SYSCALL);
+                co_return {static_cast<recv_status>(err), std::span<element_type>{}};
+            }
+
+            const auto remaining = remaining_time(deadline);
+            if (!remaining.has_value())
+            {
+                co_return {recv_status::timeout, std::span<element_type>{}};
+            }
+
+            auto pstatus = co_await poll(op, remaining.value());
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -120,36 +129,6 @@ public:
                 case poll_status::cancelled:
                     co_return {recv_status::cancelled, std::span<element_type>{}};
             }
-
-            size_t bytes_recv{0};
-            ERR_clear_error();
-            int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
-            if (r <= 0)
-            {
-                int err = SSL_get_error(tls, r);
-                if (err == SSL_ERROR_WANT_READ)
-                {
-                    op = poll_op::read;
-                    continue;
-                }
-                else if (err == SSL_ERROR_WANT_WRITE)
-                {
-                    op = poll_op::write;
-                    continue;
-                }
-                else
-                {
-                    co_return {static_cast<recv_status>(err), std::span<element_type>{}};
-                }
-            }
-            else
-            {
-                co_return {recv_status::ok, std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};
-            }
         }
     }
 
@@ -174,39 +153,48 @@ public:
         }
 
         auto* tls = m_tls_info.m_tls_ptr.get();
+        if (tls == nullptr)
+        {
+            co_return {send_status::error, std::span<element_type>{buffer.data(), buffer.size()}};
+        }
 
-        auto op = poll_op::write;
-
-        auto                                  first = true;
-        std::chrono::steady_clock::time_point start;
-        std::chrono::steady_clock::time_point stop;
+        const auto deadline = make_deadline(timeout.value_or(std::chrono::milliseconds{0}));
 
         while (true)
         {
-            if (timeout.has_value())
+            size_t bytes_sent{0};
+            ERR_clear_error();
+            int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
+            if (r > 0)
+            {
+                co_return {
+                    send_status::ok, std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};
+            }
+
+            auto op  = poll_op::write;
+            int  err = SSL_get_error(tls, r);
+            if (err == SSL_ERROR_WANT_READ)
+            {
+                op = poll_op::read;
+            }
+            else if (err != SSL_ERROR_WANT_WRITE)
+            {
+                m_tls_info.m_tls_error = (err == SSL_ERROR_SSL || err == SSL_ERROR_SYSCALL);
+                co_return {static_cast<send_status>(err), std::span<element_type>{}};
+            }
+
+            const auto remaining = remaining_time(deadline);
+            if (!remaining.has_value())
             {
-                auto& t = timeout.value();
-                if (!first)
-                {
-                    auto duration = std::chrono::duration_cast<std::chrono::milliseconds>(stop - start);
-                    t -= duration;
-                    if (t <= std::chrono::microseconds{0})
-                    {
-                        co_return {send_status::timeout, std::span<element_type>{}};
-                    }
-                }
-
-                first = false;
-                start = std::chrono::steady_clock::now();
+                co_return {send_status::timeout, std::span<element_type>{}};
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            auto pstatus = co_await poll(op, remaining.value());
             switch (pstatus)
             {
+                case poll_status::read:
                 case poll_status::write:
                     break;
-                case poll_status::read:
-                    continue;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -216,38 +204,6 @@ public:
                 case poll_status::cancelled:
                     co_return {send_status::cancelled, std::span<element_type>{}};
             }
-
-            size_t bytes_sent{0};
-            ERR_clear_error();
-            int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
-            if (timeout.has_value())
-            {
-                stop = std::chrono::steady_clock::now();
-            }
-            if (r <= 0)
-            {
-                int err = SSL_get_error(tls, r);
-
-                if (err == SSL_ERROR_WANT_WRITE)
-                {
-                    op = poll_op::write;
-                    continue;
-                }
-                else if (err == SSL_ERROR_WANT_READ)
-                {
-                    op = poll_op::read;
-                    continue;
-                }
-                else
-                {
-                    co_return {static_cast<send_status>(err), std::span<element_type>{}};
-                }
-            }
-            else
-            {
-                co_return {
-                    send_status::ok, std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};
-            }
         }
     }
 
@@ -282,6 +238,40 @@ public:
     }
 
 private:
+    using time_point = std::chrono::steady_clock::time_point;
+
+    /**
+     * @param timeout How long the operation may take, zero is indefinite.
+     * @return The time the operation has to end at, if there is any.
+     */
+    static auto make_deadline(std::chrono::milliseconds timeout) -> std::optional<time_point>
+    {
+        if (timeout <= std::chrono::milliseconds{0})
+        {
+            return std::nullopt;
+        }
+        return std::chrono::steady_clock::now() + timeout;
+    }
+
+    /**
+     * @return The time that is left for polling, zero is indefinite, std::nullopt if no time is left.
+     */
+    static auto remaining_time(const std::optional<time_point>& deadline) -> std::optional<std::chrono::milliseconds>
+    {
+        if (!deadline.has_value())
+        {
+            return std::chrono::milliseconds{0};
+        }
+
+        const auto remaining =
+            std::chrono::ceil<std::chrono::milliseconds>(deadline.value() - std::chrono::steady_clock::now());
+        if (remaining <= std::chrono::milliseconds{0})
+        {
+            return std::nullopt;
+        }
+        return remaining;
+    }
+
     /**
      * @param timeout How long to allow for the tls handshake to successfully complete?
      * @return The result of the tls handshake.
-- 
2.43.0


From 1519e726d8eec58dc1991913da26c3f97e634f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:54 +0000
Subject: [PATCH 42/52] fix: tls recv and send count elements, not bytes

---
 include/coro/net/tls/client.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 2683913..a533d50 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -17,6 +17,7 @@
     #include <chrono>
     #include <memory>
     #include <optional>
+    #include <span>
 
 namespace coro::net::tls
 {
@@ -84,16 +85,25 @@ public:
         }
 
         const auto deadline = make_deadline(timeout.value_or(std::chrono::milliseconds{0}));
+        auto       bytes    = std::as_writable_bytes(std::span{buffer});
+        size_t     total{0};
 
         while (true)
         {
             // Try first, there might be data that has already been decrypted and the socket won't become readable for it.
             size_t bytes_recv{0};
             ERR_clear_error();
-            int r = SSL_read_ex(tls, buffer.data(), buffer.size(), &bytes_recv);
+            int r = SSL_read_ex(tls, bytes.data() + total, bytes.size() - total, &bytes_recv);
             if (r > 0)
             {
-                co_return {recv_status::ok, std::span<element_type>{buffer.data(), static_cast<size_t>(bytes_recv)}};
+                total += bytes_recv;
+                if (total % sizeof(element_type) != 0)
+                {
+                    // The rest of a partially received element has to follow.
+                    bytes = bytes.first(total + sizeof(element_type) - total % sizeof(element_type));
+                    continue;
+                }
+                co_return {recv_status::ok, std::span<element_type>{buffer.data(), total / sizeof(element_type)}};
             }
 
             auto op  = poll_op::read;
@@ -159,16 +169,17 @@ public:
         }
 
         const auto deadline = make_deadline(timeout.value_or(std::chrono::milliseconds{0}));
+        const auto bytes    = std::as_bytes(std::span{buffer});
 
         while (true)
         {
             size_t bytes_sent{0};
             ERR_clear_error();
-            int r = SSL_write_ex(tls, buffer.data(), buffer.size(), &bytes_sent);
+            int r = SSL_write_ex(tls, bytes.data(), bytes.size(), &bytes_sent);
             if (r > 0)
             {
-                co_return {
-                    send_status::ok, std::span<element_type>{buffer.data() + bytes_sent, buffer.size() - bytes_sent}};
+                const auto sent = bytes_sent / sizeof(element_type);
+                co_return {send_status::ok, std::span<element_type>{buffer.data() + sent, buffer.size() - sent}};
             }
 
             auto op  = poll_op::write;
-- 
2.43.0


From fb74fa8ee4887573d1976fd3fb012017878fac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:55 +0000
Subject: [PATCH 43/52] fix: the timeout of a tls connect or accept covers the
 whole operation

---
 src/net/tls/client.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..bd5b713 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -98,6 +98,8 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
         return s;
     };
 
+    const auto deadline = make_deadline(timeout);
+
     auto [addr, len] = m_endpoint.data();
 
     auto cret = ::connect(m_socket.native_handle(), addr, len);
@@ -123,8 +125,12 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 
                 if (result == 0)
                 {
-                    // TODO: delta the already used time and remove from the handshake timeout.
-                    co_return return_value(co_await handshake(timeout));
+                    const auto remaining = remaining_time(deadline);
+                    if (!remaining.has_value())
+                    {
+                        co_return return_value(connection_status::timeout);
+                    }
+                    co_return return_value(co_await handshake(remaining.value()));
                 }
             }
             else if (pstatus == poll_status::timeout)
@@ -161,10 +167,17 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
         SSL_set_accept_state(tls);
     }
 
+    const auto deadline = make_deadline(timeout);
+
     int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    while (true)
     {
+        ERR_clear_error();
+        if ((r = SSL_do_handshake(tls)) == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
@@ -183,8 +196,13 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
             co_return connection_status::handshake_failed;
         }
 
-        // TODO: adjust timeout based on elapsed time so far.
-        auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
+        const auto remaining = remaining_time(deadline);
+        if (!remaining.has_value())
+        {
+            co_return connection_status::timeout;
+        }
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, op, remaining.value());
         switch (pstatus)
         {
             case poll_status::timeout:
-- 
2.43.0


From 53cf62d7d0b2191feb9f397e0612a02593fb1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 44/52] fix: a tls server reports a failed handshake of an
 accepted client

---
 include/coro/net/tls/client.hpp |  1 +
 src/net/tls/client.cpp          | 11 +++++++++++
 src/net/tls/server.cpp          | 14 ++++++++++++--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index a533d50..8ed373c 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -288,6 +288,7 @@ private:
      * @return The result of the tls handshake.
      */
     auto handshake(std::chrono::milliseconds timeout = std::chrono::milliseconds{0}) -> coro::task<connection_status>;
+    auto perform_handshake(std::chrono::milliseconds timeout) -> coro::task<connection_status>;
 
     /**
      * Polls for the given operation on this client's socket.  This should be done prior to
diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index bd5b713..712428e 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -144,6 +144,17 @@ auto client::connect(std::chrono::milliseconds timeout) -> coro::task<connection
 }
 
 auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connection_status>
+{
+    const auto status = co_await perform_handshake(timeout);
+    if (status != connection_status::connected)
+    {
+        // Without a completed handshake there is no connection to use or to shut down.
+        m_tls_info.m_tls_ptr = nullptr;
+    }
+    co_return status;
+}
+
+auto client::perform_handshake(std::chrono::milliseconds timeout) -> coro::task<connection_status>
 {
     m_tls_info.m_tls_ptr = tls_unique_ptr{SSL_new(m_tls_ctx->native_handle())};
     if (m_tls_info.m_tls_ptr == nullptr)
diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 171b788..8171f17 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -58,8 +58,18 @@ auto server::accept(std::chrono::milliseconds timeout) -> coro::task<coro::net::
 
     auto tls_client = tls::client{m_scheduler, m_tls_ctx, std::move(s), client_endpoint};
 
-    auto hstatus = co_await tls_client.handshake(timeout);
-    (void)hstatus; // user must check result.
+    if (!tls_client.m_socket.is_ok())
+    {
+        tls_client.m_connect_status = connection_status::error;
+        co_return std::move(tls_client);
+    }
+
+    // The result is what the client's connect() reports, on failure its socket is invalid.
+    tls_client.m_connect_status = co_await tls_client.handshake(timeout);
+    if (tls_client.m_connect_status != connection_status::connected)
+    {
+        tls_client.m_socket.close();
+    }
     co_return std::move(tls_client);
 };
 
-- 
2.43.0


From 12cfdcdfac20fb32ffe279de4a728a09b61886d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 45/52] fix: a tls shutdown that would block still notifies the
 peer

---
 src/net/tls/client.cpp | 44 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 712428e..7d7db4a 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -235,47 +235,31 @@ auto client::perform_handshake(std::chrono::milliseconds timeout) -> coro::task<
 
 auto client::tls_shutdown_and_free(std::chrono::milliseconds timeout) -> coro::task<void>
 {
-    auto* tls_ptr = m_tls_info.m_tls_ptr.get();
+    auto*      tls_ptr  = m_tls_info.m_tls_ptr.get();
+    const auto deadline = make_deadline(timeout);
 
     while (true)
     {
         ERR_clear_error();
         auto r = SSL_shutdown(tls_ptr);
-        if (r == 1) // shutdown complete
+        if (r >= 0) // the peer has been notified, it isn't waited for
         {
             co_return;
         }
-        else if (r == 0) // shutdown in progress
+
+        if (SSL_get_error(tls_ptr, r) != SSL_ERROR_WANT_WRITE)
         {
-            coro::poll_op op{coro::poll_op::read_write};
-            auto          err = SSL_get_error(tls_ptr, r);
-            if (err == SSL_ERROR_WANT_WRITE)
-            {
-                op = coro::poll_op::write;
-            }
-            else if (err == SSL_ERROR_WANT_READ)
-            {
-                op = coro::poll_op::read;
-            }
-            else
-            {
-                co_return;
-            }
+            co_return;
+        }
 
-            auto pstatus = co_await m_scheduler->poll(m_socket, op, timeout);
-            switch (pstatus)
-            {
-                case poll_status::timeout:
-                case poll_status::error:
-                case poll_status::closed:
-                case poll_status::cancelled:
-                    co_return;
-                default:
-                    // continue shutdown.
-                    break;
-            }
+        const auto remaining = remaining_time(deadline);
+        if (!remaining.has_value())
+        {
+            co_return;
         }
-        else // r < 0 error
+
+        auto pstatus = co_await m_scheduler->poll(m_socket, coro::poll_op::write, remaining.value());
+        if (pstatus != coro::poll_status::write)
         {
             co_return;
         }
-- 
2.43.0


From 94bdc613cc7366adfed8ed37344539f699ddc5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 46/52] fix: moved tls clients and servers take their shutdown
 state along

---
 src/net/tls/client.cpp |  5 ++++-
 src/net/tls/server.cpp | 12 +++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 7d7db4a..4de374e 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -49,7 +49,8 @@ client::client(client&& other) noexcept
       m_endpoint(std::move(other.m_endpoint)),
       m_socket(std::move(other.m_socket)),
       m_connect_status(std::exchange(other.m_connect_status, std::nullopt)),
-      m_tls_info(std::move(other.m_tls_info))
+      m_tls_info(std::move(other.m_tls_info)),
+      m_shutdown(other.m_shutdown.exchange(false, std::memory_order::acq_rel))
 {
 }
 
@@ -72,6 +73,8 @@ auto client::operator=(client&& other) noexcept -> client&
         m_socket         = std::move(other.m_socket);
         m_connect_status = std::exchange(other.m_connect_status, std::nullopt);
         m_tls_info       = std::move(other.m_tls_info);
+        m_shutdown.store(
+            other.m_shutdown.exchange(false, std::memory_order::acq_rel), std::memory_order::release);
     }
     return *this;
 }
diff --git a/src/net/tls/server.cpp b/src/net/tls/server.cpp
index 8171f17..f05ac64 100644
--- a/src/net/tls/server.cpp
+++ b/src/net/tls/server.cpp
@@ -33,7 +33,8 @@ server::server(server&& other)
     : m_scheduler(std::exchange(other.m_scheduler, nullptr)),
       m_tls_ctx(std::move(other.m_tls_ctx)),
       m_options(std::move(other.m_options)),
-      m_accept_socket(std::move(other.m_accept_socket))
+      m_accept_socket(std::move(other.m_accept_socket)),
+      m_cancel_trigger(std::move(other.m_cancel_trigger))
 {
 }
 
@@ -41,10 +42,11 @@ auto server::operator=(server&& other) -> server&
 {
     if (std::addressof(other) != this)
     {
-        m_scheduler  = std::exchange(other.m_scheduler, nullptr);
-        m_tls_ctx       = std::move(other.m_tls_ctx);
-        m_options       = std::move(other.m_options);
-        m_accept_socket = std::move(other.m_accept_socket);
+        m_scheduler      = std::exchange(other.m_scheduler, nullptr);
+        m_tls_ctx        = std::move(other.m_tls_ctx);
+        m_options        = std::move(other.m_options);
+        m_accept_socket  = std::move(other.m_accept_socket);
+        m_cancel_trigger = std::move(other.m_cancel_trigger);
     }
     return *this;
 }
-- 
2.43.0


From 2fd1879be2d314b8db1741a67f2f125a1e010698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 47/52] fix: dns lookups on different threads don't race and
 the resolver may be destroyed after them

The map of active sockets was used by c-ares' callbacks and by the poll
tasks on any of the executor's threads without synchronisation, and a poll
task still used the resolver after the lookup it completed had been able to
destroy it. A poll whose socket c-ares closed or wanted to poll for other
operations stayed behind, watching a descriptor number that could be reused.
---
 include/coro/net/dns/resolver.hpp | 183 +++++++++++++++++++++++-------
 1 file changed, 141 insertions(+), 42 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index f9e9570..883d79a 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -17,7 +17,10 @@
 #include <functional>
 #include <memory>
 #include <mutex>
+#include <stdexcept>
+#include <unistd.h>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace coro::net::dns
@@ -79,8 +82,7 @@ class resolver
 {
 public:
     explicit resolver(std::unique_ptr<executor_type>& executor, std::chrono::milliseconds timeout)
-        : m_executor(executor),
-          m_timeout(timeout)
+        : m_executor(executor)
     {
         if (m_executor == nullptr)
         {
@@ -102,9 +104,10 @@ public:
 
         ares_options options{};
         options.sock_state_cb      = resolver::ares_socket_state_callback;
-        options.sock_state_cb_data = this;
+        m_state                    = std::make_shared<state>(*m_executor, timeout);
+        options.sock_state_cb_data = m_state.get();
 
-        auto channel_init_status = ares_init_options(&m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
+        auto channel_init_status = ares_init_options(&m_state->m_ares_channel, &options, ARES_OPT_SOCK_STATE_CB);
         if (channel_init_status != ARES_SUCCESS)
         {
             throw std::runtime_error{ares_strerror(channel_init_status)};
@@ -118,10 +121,11 @@ public:
 
     ~resolver()
     {
-        if (m_ares_channel != nullptr)
         {
-            ares_destroy(m_ares_channel);
-            m_ares_channel = nullptr;
+            // The poll tasks might still be running, they'll stop without touching the channel again.
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_destroy(m_state->m_ares_channel);
+            m_state->m_ares_channel = nullptr;
         }
 
         {
@@ -145,13 +149,17 @@ public:
         ares_addrinfo_hints hints{};
         hints.ai_family = AF_UNSPEC; // Request both IPv4 and IPv6
 
-        ares_getaddrinfo(
-            m_ares_channel,
-            hn.data().data(),
-            nullptr, // service name (port number or NULL)
-            &hints,
-            ares_dns_callback,
-            result_ptr.get());
+        {
+            std::scoped_lock lk{m_state->m_mutex};
+            ares_getaddrinfo(
+                m_state->m_ares_channel,
+                hn.data().data(),
+                nullptr, // service name (port number or NULL)
+                &hints,
+                ares_dns_callback,
+                result_ptr.get());
+            m_state->cancel_if_failed();
+        }
 
         // Suspend until this specific result is completed by ares.
         co_await resume_event;
@@ -162,56 +170,127 @@ private:
     /// The executor to drive the events for dns lookups.
     std::unique_ptr<executor_type>& m_executor;
 
-    /// The global timeout per dns lookup request.
-    std::chrono::milliseconds m_timeout{0};
+    /// A socket of the channel that is being polled.
+    struct active_socket
+    {
+        active_socket(fd_t fd, poll_op op) : m_fd(::dup(fd)), m_op(op) {}
+        ~active_socket()
+        {
+            if (m_fd != -1)
+            {
+                ::close(m_fd);
+            }
+        }
+
+        active_socket(const active_socket&)                    = delete;
+        active_socket(active_socket&&)                         = delete;
+        auto operator=(const active_socket&) -> active_socket& = delete;
+        auto operator=(active_socket&&) -> active_socket&      = delete;
+
+        /// Stops the poll task once it isn't needed anymore.
+        poll_stop_source m_stop{};
+        /// A duplicate of the channel's descriptor, c-ares can close its own while it is being polled.
+        fd_t m_fd{-1};
+        /// The operations to poll for.
+        poll_op m_op;
+        /// Cleared when c-ares closes the socket or wants to poll it for other operations.
+        bool m_active{true};
+    };
+
+    /// Everything the poll tasks share, they can outlive the resolver.
+    struct state : std::enable_shared_from_this<state>
+    {
+        state(executor_type& executor, std::chrono::milliseconds timeout) : m_executor(executor), m_timeout(timeout) {}
+
+        /// The executor that polls the sockets.
+        executor_type& m_executor;
 
-    /// The libc-ares channel for looking up dns entries.
-    ares_channel m_ares_channel{nullptr};
+        /// The global timeout per dns lookup request.
+        std::chrono::milliseconds m_timeout{0};
 
-    /// This is the map of sockets that are currently being actively polled so multiple poll tasks
-    /// are not setup when socket state is changed.
-    std::unordered_map<fd_t, poll_op> m_active_sockets{};
+        /// Must be held for everything below and to call into c-ares with the channel.
+        std::mutex m_mutex{};
 
-    auto make_poll_task(fd_t fd) -> coro::task<void>
+        /// The libc-ares channel for looking up dns entries.
+        ares_channel m_ares_channel{nullptr};
+
+        /// This is the map of sockets that are currently being actively polled so multiple poll tasks
+        /// are not setup when socket state is changed.
+        std::unordered_map<fd_t, std::shared_ptr<active_socket>> m_active_sockets{};
+
+        /// Set when a socket cannot be polled, its lookups would never complete.
+        bool m_failed{false};
+
+        auto cancel_if_failed() -> void
+        {
+            while (std::exchange(m_failed, false))
+            {
+                ares_cancel(m_ares_channel);
+            }
+        }
+    };
+
+    /// The state shared with the poll tasks.
+    std::shared_ptr<state> m_state{nullptr};
+
+    static auto make_poll_task(std::shared_ptr<state> self, fd_t fd, std::shared_ptr<active_socket> socket)
+        -> coro::task<void>
     {
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
-        while (m_active_sockets.contains(fd))
+        while (true)
         {
-            auto ops    = m_active_sockets[fd];
-            auto result = co_await m_executor->poll(fd, ops, m_timeout);
+            {
+                std::scoped_lock lk{self->m_mutex};
+                if (!socket->m_active)
+                {
+                    co_return;
+                }
+            }
+
+            auto result = co_await self->m_executor.poll(
+                socket->m_fd, socket->m_op, self->m_timeout, socket->m_stop.get_token());
+
+            std::scoped_lock lk{self->m_mutex};
+            if (!socket->m_active)
+            {
+                co_return;
+            }
+
             switch (result)
             {
                 case poll_status::read:
-                    ares_process_fd(m_ares_channel, fd, ARES_SOCKET_BAD);
+                    ares_process_fd(self->m_ares_channel, fd, ARES_SOCKET_BAD);
                     break;
                 case poll_status::write:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, fd);
+                    ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, fd);
                     break;
-
                 case poll_status::timeout:
-                    ares_process_fd(m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
+                    ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
                     // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
+                    self->m_active_sockets.erase(fd);
+                    socket->m_active = false;
                     break;
                 case poll_status::error:
                     // might need to do something like call with two ARES_SOCKET_BAD?
-                    m_active_sockets.erase(fd);
+                    self->m_active_sockets.erase(fd);
+                    socket->m_active = false;
                     break;
                 case poll_status::cancelled:
-                    m_active_sockets.erase(fd);
+                    self->m_active_sockets.erase(fd);
+                    socket->m_active = false;
                     break;
             }
+            self->cancel_if_failed();
         }
-
-        co_return;
     }
 
+    /// This is only called by c-ares, from within calls that are made with the state's mutex held.
     static auto ares_socket_state_callback(void* data, ares_socket_t socket_fd, int readable, int writable) -> void
     {
-        resolver* self = static_cast<resolver*>(data);
-        uint64_t  ops{0};
+        state*   self = static_cast<state*>(data);
+        uint64_t ops{0};
 
         if (readable)
         {
@@ -224,17 +303,37 @@ private:
 
         auto fd       = static_cast<fd_t>(socket_fd);
         auto poll_ops = static_cast<poll_op>(ops);
-        if (ops != 0)
+
+        if (auto it = self->m_active_sockets.find(fd); it != self->m_active_sockets.end())
         {
-            auto [it, inserted] = self->m_active_sockets.insert_or_assign(fd, poll_ops);
-            if (inserted)
+            if (ops != 0 && it->second->m_op == poll_ops)
             {
-                self->m_executor->spawn_detached(self->make_poll_task(fd));
+                return;
             }
+
+            // The socket is closed or polled for other operations, stop its current poll task.
+            it->second->m_active = false;
+            it->second->m_stop.signal_stop();
+            self->m_active_sockets.erase(it);
         }
-        else
+
+        if (ops != 0)
         {
-            self->m_active_sockets.erase(fd);
+            try
+            {
+                auto socket = std::make_shared<active_socket>(fd, poll_ops);
+                if (socket->m_fd != -1 &&
+                    self->m_executor.spawn_detached(make_poll_task(self->shared_from_this(), fd, socket)))
+                {
+                    self->m_active_sockets.emplace(fd, std::move(socket));
+                    return;
+                }
+            }
+            catch (...)
+            {
+                // Exceptions must not pass through c-ares.
+            }
+            self->m_failed = true;
         }
     }
 
-- 
2.43.0


From debf07481594cd86f497a36c17961926ec059fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 48/52] fix: a dns lookup whose socket fails goes on or ends
 instead of waiting forever

---
 include/coro/net/dns/resolver.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 883d79a..9d5478d 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -268,18 +268,14 @@ private:
                     ares_process_fd(self->m_ares_channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
                     break;
                 case poll_status::closed:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    self->m_active_sockets.erase(fd);
-                    socket->m_active = false;
+                    // c-ares finds out for itself what has happened to the socket.
+                    ares_process_fd(self->m_ares_channel, fd, fd);
                     break;
                 case poll_status::error:
-                    // might need to do something like call with two ARES_SOCKET_BAD?
-                    self->m_active_sockets.erase(fd);
-                    socket->m_active = false;
-                    break;
                 case poll_status::cancelled:
-                    self->m_active_sockets.erase(fd);
-                    socket->m_active = false;
+                    ares_process_fd(self->m_ares_channel, fd, fd);
+                    // If c-ares has no complaint then the socket couldn't be polled.
+                    self->m_failed = self->m_failed || socket->m_active;
                     break;
             }
             self->cancel_if_failed();
-- 
2.43.0


From 5275592b62b94b0b4a80f78791d27544e9feee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:35 +0000
Subject: [PATCH 49/52] fix: dns lookups notice lost packets when c-ares
 expects them, whatever the resolver's timeout

---
 include/coro/net/dns/resolver.hpp | 82 ++++++++++++++++++++++++++-----
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/include/coro/net/dns/resolver.hpp b/include/coro/net/dns/resolver.hpp
index 9d5478d..d3c3953 100644
--- a/include/coro/net/dns/resolver.hpp
+++ b/include/coro/net/dns/resolver.hpp
@@ -12,6 +12,7 @@
 #include <arpa/inet.h>
 #include <netdb.h>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -158,6 +159,7 @@ public:
                 &hints,
                 ares_dns_callback,
                 result_ptr.get());
+            poll_until_next_timeout(*m_state);
             m_state->cancel_if_failed();
         }
 
@@ -195,6 +197,8 @@ private:
         poll_op m_op;
         /// Cleared when c-ares closes the socket or wants to poll it for other operations.
         bool m_active{true};
+        /// When the current poll times out.
+        std::chrono::steady_clock::time_point m_poll_until{std::chrono::steady_clock::time_point::min()};
     };
 
     /// Everything the poll tasks share, they can outlive the resolver.
@@ -221,6 +225,22 @@ private:
         /// Set when a socket cannot be polled, its lookups would never complete.
         bool m_failed{false};
 
+        /// @return How long to poll at most before c-ares has to look for lost packets.
+        auto poll_timeout() -> std::chrono::milliseconds
+        {
+            timeval tv{};
+            if (ares_timeout(m_ares_channel, nullptr, &tv) == nullptr)
+            {
+                return m_timeout;
+            }
+
+            // Never zero, that is without a timeout.
+            auto next = std::chrono::ceil<std::chrono::milliseconds>(
+                std::chrono::seconds{tv.tv_sec} + std::chrono::microseconds{tv.tv_usec});
+            next = std::max(next, std::chrono::milliseconds{1});
+            return (m_timeout > std::chrono::milliseconds{0}) ? std::min(m_timeout, next) : next;
+        }
+
         auto cancel_if_failed() -> void
         {
             while (std::exchange(m_failed, false))
@@ -239,16 +259,21 @@ private:
         // The loop ensures non-blocking polling until the socket is closed by c-ares.
         while (true)
         {
+            std::chrono::milliseconds timeout{0};
             {
                 std::scoped_lock lk{self->m_mutex};
                 if (!socket->m_active)
                 {
                     co_return;
                 }
+                timeout              = self->poll_timeout();
+                socket->m_poll_until = (timeout > std::chrono::milliseconds{0})
+                                           ? std::chrono::steady_clock::now() + timeout
+                                           : std::chrono::steady_clock::time_point::max();
             }
 
             auto result = co_await self->m_executor.poll(
-                socket->m_fd, socket->m_op, self->m_timeout, socket->m_stop.get_token());
+                socket->m_fd, socket->m_op, timeout, socket->m_stop.get_token());
 
             std::scoped_lock lk{self->m_mutex};
             if (!socket->m_active)
@@ -315,21 +340,54 @@ private:
 
         if (ops != 0)
         {
-            try
+            if (auto socket = start_poll(*self, fd, poll_ops); socket != nullptr)
             {
-                auto socket = std::make_shared<active_socket>(fd, poll_ops);
-                if (socket->m_fd != -1 &&
-                    self->m_executor.spawn_detached(make_poll_task(self->shared_from_this(), fd, socket)))
-                {
-                    self->m_active_sockets.emplace(fd, std::move(socket));
-                    return;
-                }
+                self->m_active_sockets.emplace(fd, std::move(socket));
             }
-            catch (...)
+        }
+    }
+
+    /// Starts to poll a socket, on failure the state is marked as failed.
+    static auto start_poll(state& self, fd_t fd, poll_op op) noexcept -> std::shared_ptr<active_socket>
+    {
+        // Exceptions must not pass through c-ares.
+        try
+        {
+            auto socket = std::make_shared<active_socket>(fd, op);
+            if (socket->m_fd != -1 &&
+                self.m_executor.spawn_detached(make_poll_task(self.shared_from_this(), fd, socket)))
             {
-                // Exceptions must not pass through c-ares.
+                return socket;
+            }
+        }
+        catch (...)
+        {
+        }
+        self.m_failed = true;
+        return nullptr;
+    }
+
+    /// Polls that would time out only after the channel's next timeout, e.g. of a new lookup, are started anew.
+    static auto poll_until_next_timeout(state& self) -> void
+    {
+        const auto timeout = self.poll_timeout();
+        if (timeout <= std::chrono::milliseconds{0})
+        {
+            return;
+        }
+
+        const auto until = std::chrono::steady_clock::now() + timeout;
+        for (auto& [fd, socket] : self.m_active_sockets)
+        {
+            if (socket->m_poll_until > until)
+            {
+                if (auto restarted = start_poll(self, fd, socket->m_op); restarted != nullptr)
+                {
+                    socket->m_active = false;
+                    socket->m_stop.signal_stop();
+                    socket = std::move(restarted);
+                }
             }
-            self->m_failed = true;
         }
     }
 
-- 
2.43.0


From 1f7d42abaa42dd882adc2fd18e2be121ef2eb315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:58 +0000
Subject: [PATCH 50/52] fix: process_events() never runs the event loop
 alongside the scheduler's own thread

The dedicated event loop thread marked the event loop as taken once it was running, without looking: a process_events()
call made before that ran the event loop concurrently with it. It's marked before the thread is started.
---
 src/scheduler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 524a703..b5a3086 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -56,6 +56,9 @@ auto scheduler::make_unique(options opts) -> std::unique_ptr<scheduler>
     // so it has a full object to work with.
     if (s->m_opts.thread_strategy == thread_strategy_t::spawn)
     {
+        // The event loop belongs to the dedicated thread from now on, not only once the thread is running, a
+        // process_events() call must never process events concurrently with it.
+        s->m_io_processing.exchange(true, std::memory_order::release);
         s->m_io_thread = std::thread([s = s.get()]() { s->process_events_dedicated_thread(); });
     }
     // else manual mode, the user must call process_events.
@@ -261,7 +264,6 @@ auto scheduler::process_events_dedicated_thread() -> void
         m_opts.on_io_thread_start_functor();
     }
 
-    m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
     while (!m_shutdown_requested.load(std::memory_order::acquire) || !try_end())
     {
-- 
2.43.0


From 87bce8e685aa127ca40f6cd62d9c0ab8099e8cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:02 +0000
Subject: [PATCH 51/52] fix: process_events() waits as long as asked for
 timeouts beyond what epoll takes

The timeout was narrowed to int: with 4294967296ms e.g. it didn't wait at all.
---
 src/detail/io_notifier_epoll.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index c23654d..293fea5 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -1,8 +1,10 @@
 #include "coro/detail/io_notifier_epoll.hpp"
 
+#include <algorithm>
 #include <cerrno>
 #include <chrono>
 #include <cstdint>
+#include <limits>
 #include <stdexcept>
 
 #include "coro/detail/poll_info.hpp"
@@ -187,7 +189,9 @@ auto io_notifier_epoll::next_events(
     std::vector<std::pair<poll_info*, poll_status>>& ready_events, std::chrono::milliseconds timeout) -> void
 {
     auto ready_set = std::array<event_t, m_max_events>{};
-    int  num_ready = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), timeout.count());
+    // More milliseconds than epoll can wait for is as long as it can.
+    const auto timeout_ms = std::min<std::chrono::milliseconds::rep>(timeout.count(), std::numeric_limits<int>::max());
+    int        num_ready  = ::epoll_wait(m_fd, ready_set.data(), ready_set.size(), static_cast<int>(timeout_ms));
     for (int i = 0; i < num_ready; ++i)
     {
         // Note that udata isn't always a poll_info, and that a poll_info might still be being set up by its poll.
-- 
2.43.0


From afc97dcec568f25efc2e6b2c19dd852cd51fe37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:02 +0000
Subject: [PATCH 52/52] fix: timeouts and waits too long for nanoseconds don't
 end at once

A timeout like std::chrono::milliseconds::max() overflowed when its deadline was computed, polls, connects, reads, waits
and tasks with such a timeout timed out right away. The deadline is now the last time point there is.
---
 include/coro/condition_variable.hpp |  7 ++++---
 include/coro/net/tls/client.hpp     |  2 +-
 include/coro/scheduler.hpp          |  9 +++++----
 include/coro/time.hpp               | 31 +++++++++++++++++++++++++++++
 src/scheduler.cpp                   |  4 ++--
 5 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/include/coro/condition_variable.hpp b/include/coro/condition_variable.hpp
index 9aba3fc..11b5029 100644
--- a/include/coro/condition_variable.hpp
+++ b/include/coro/condition_variable.hpp
@@ -6,6 +6,7 @@
 #include "coro/event.hpp"
 #include "coro/mutex.hpp"
 #include "coro/task.hpp"
+#include "coro/time.hpp"
 #include "coro/when_any.hpp"
 
 #include <atomic>
@@ -460,7 +461,7 @@ public:
         -> awaiter_with_wait<io_executor_type, std::cv_status>
     {
         return awaiter_with_wait<io_executor_type, std::cv_status>{
-            executor, *this, lock, std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for)};
+            executor, *this, lock, coro::detail::to_nanoseconds(wait_for)};
     }
 
     template<concepts::io_executor io_executor_type, class rep_type, class period_type>
@@ -474,7 +475,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            coro::detail::to_nanoseconds(wait_for),
             std::move(predicate)};
     }
 
@@ -490,7 +491,7 @@ public:
             executor,
             *this,
             lock,
-            std::chrono::duration_cast<std::chrono::nanoseconds>(wait_for),
+            coro::detail::to_nanoseconds(wait_for),
             std::move(predicate),
             std::move(stop_token)};
     }
diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8ed373c..07868a3 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -261,7 +261,7 @@ private:
         {
             return std::nullopt;
         }
-        return std::chrono::steady_clock::now() + timeout;
+        return coro::detail::deadline_after(coro::detail::to_nanoseconds(timeout));
     }
 
     /**
diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index cccab57..f9f8755 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -9,6 +9,7 @@
 #include "coro/io_notifier.hpp"
 #include "coro/poll.hpp"
 #include "coro/thread_pool.hpp"
+#include "coro/time.hpp"
 
 #ifdef LIBCORO_FEATURE_NETWORKING
     #include "coro/net/socket.hpp"
@@ -269,7 +270,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ns = std::max(std::chrono::ceil<std::chrono::nanoseconds>(timeout), 0ns);
+        auto timeout_ns = std::max(detail::to_nanoseconds(timeout), 0ns);
         if (timeout_ns == 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -323,7 +324,7 @@ public:
         using namespace std::chrono_literals;
 
         // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ns = std::max(std::chrono::ceil<std::chrono::nanoseconds>(timeout), 0ns);
+        auto timeout_ns = std::max(detail::to_nanoseconds(timeout), 0ns);
         if (timeout_ns == 0ns)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -366,7 +367,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto schedule_after(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
@@ -389,7 +390,7 @@ public:
     template<class rep_type, class period_type>
     [[nodiscard]] auto yield_for(std::chrono::duration<rep_type, period_type> amount) -> coro::task<void>
     {
-        return yield_for_internal(std::chrono::duration_cast<std::chrono::nanoseconds>(amount));
+        return yield_for_internal(detail::to_nanoseconds(amount));
     }
 
     /**
diff --git a/include/coro/time.hpp b/include/coro/time.hpp
index 7411f3d..f9fe835 100644
--- a/include/coro/time.hpp
+++ b/include/coro/time.hpp
@@ -6,4 +6,35 @@ namespace coro
 {
 using clock      = std::chrono::steady_clock;
 using time_point = clock::time_point;
+
+namespace detail
+{
+/**
+ * @return The amount of time in nanoseconds, rounded up.  The longest or shortest amount of time there is in nanoseconds
+ *         if it is beyond that, e.g. std::chrono::hours::max().
+ */
+template<class rep_type, class period_type>
+auto to_nanoseconds(std::chrono::duration<rep_type, period_type> amount) -> std::chrono::nanoseconds
+{
+    using wide = std::chrono::duration<long double, std::nano>;
+    if (wide{amount} >= wide{std::chrono::nanoseconds::max()})
+    {
+        return std::chrono::nanoseconds::max();
+    }
+    if (wide{amount} <= wide{std::chrono::nanoseconds::min()})
+    {
+        return std::chrono::nanoseconds::min();
+    }
+    return std::chrono::ceil<std::chrono::nanoseconds>(amount);
+}
+
+/**
+ * @return The time point that is the given amount of time from now, the last time point there is if it is beyond that.
+ */
+inline auto deadline_after(std::chrono::nanoseconds amount) -> time_point
+{
+    const auto now = clock::now();
+    return (amount < time_point::max() - now) ? now + amount : time_point::max();
+}
+} // namespace detail
 } // namespace coro
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index b5a3086..6713203 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -158,7 +158,7 @@ auto scheduler::poll(
 
     if (timeout_requested)
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        pi.m_timer_pos = add_timer_token(detail::deadline_after(detail::to_nanoseconds(timeout)), pi);
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
@@ -241,7 +241,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // the timeout to occur before resuming.
 
         detail::poll_info pi{};
-        add_timer_token(clock::now() + amount, pi);
+        add_timer_token(detail::deadline_after(amount), pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0

