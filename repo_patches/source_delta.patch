From 782594ce09aedd72cb8cd6f751e6a38629c825b4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 01/25] fix: lightweight_barrier must not treat a spurious CAS
 failure as an owner

compare_exchange_weak may fail although m_owner still is kNoOwner. wait()
then dereferenced a null waiter and complete() silently dropped the
completion, leaving waiters blocked forever.
---
 src/lightweight_barrier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightweight_barrier.cpp b/src/lightweight_barrier.cpp
index 03c0d5b..c9dac48 100644
--- a/src/lightweight_barrier.cpp
+++ b/src/lightweight_barrier.cpp
@@ -106,7 +106,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
     // try to become the owner of the mutex
     auto candidate = std::make_unique<waiter>();
     previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, candidate.get(), std::memory_order_acq_rel)) {
         // value was incomplete before, we are the owner now so wait
         auto* barrier = candidate.release();
@@ -117,7 +117,7 @@ lightweight_barrier::wait(std::chrono::milliseconds timeout)
         return true;
     }
     // else: somebody else placed a waiter barrier before, use it instead
-    // (previous holds the barrier obtained from compare_exchange_weak above)
+    // (previous holds the barrier obtained from compare_exchange_strong above)
     return previous->wait(timeout);
 }
 
@@ -128,7 +128,7 @@ lightweight_barrier::complete()
     // branches are kept for readability
 
     auto* previous = kNoOwner;
-    if (m_owner.compare_exchange_weak(
+    if (m_owner.compare_exchange_strong(
           previous, kCompleted, std::memory_order_acq_rel)) { // NOLINT
         // nobody was waiting and now marked as complete
     } else if (kCompleted == previous) { // NOLINT
-- 
2.43.0


From 09bfb4b80c7fd8086a201f92691bfcdfa6925f6b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 02/25] fix: manual_thread::run must not miss a cancellation or
 race on its flag

---
 src/naive/naive_manual_thread.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_manual_thread.cpp b/src/naive/naive_manual_thread.cpp
index 4bf5778..9078b97 100644
--- a/src/naive/naive_manual_thread.cpp
+++ b/src/naive/naive_manual_thread.cpp
@@ -56,22 +56,22 @@ manual_thread::run()
 {
     thread_utils::set_current_thread_name(m_name);
     thread_utils::set_current_thread_priority(m_priority);
-    while (!m_cancelled) {
+    bool cancelled = false;
+    while (!cancelled) {
         std::vector<operation_ptr> active_ops;
         {
             std::unique_lock<std::mutex> guard(m_CS);
-            if (m_queued_ops.empty()) {
+            if (m_queued_ops.empty() && !m_cancelled) {
                 m_cond.wait(guard);
             }
             std::swap(m_queued_ops, active_ops);
+            std::swap(m_cancelled, cancelled);
         }
 
         for (const auto& op : active_ops) {
             execute_operation_on_this_thread(*op);
         }
     }
-
-    m_cancelled = false;
 }
 
 void
-- 
2.43.0


From 82a9d7e3fe751fb3b21935b5cf4eead878b11f70 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 03/25] fix: threadpool must not terminate on destruction or on
 an inconsistent counter snapshot

---
 src/naive/naive_threadpool.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index c995561..a50d5de 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -212,7 +212,8 @@ public:
                         break;
                     }
                 }
-                XDISPATCH_ASSERT(op);
+                // there is no operation if we got woken by a cancellation
+                XDISPATCH_ASSERT(op || m_data->m_cancelled);
             }
 
             if (op) {
@@ -256,7 +257,10 @@ threadpool::threadpool()
 threadpool::~threadpool()
 {
     m_data->m_cancelled = true;
-    m_data->m_operations_counter.release(m_data->m_active_threads);
+    const int active_threads = m_data->m_active_threads;
+    if (active_threads > 0) {
+        m_data->m_operations_counter.release(active_threads);
+    }
 }
 
 void
@@ -313,8 +317,9 @@ threadpool::schedule()
       m_data->m_idle_threads.load(std::memory_order_consume);
     XDISPATCH_ASSERT(idle_threads >= 0);
     XDISPATCH_ASSERT(active_threads >= 0);
-    XDISPATCH_ASSERT(idle_threads <= active_threads &&
-                     "We must never have more idle than active threads");
+    // Note: The two counters are not read as one atomic snapshot, so there may
+    //       well be more idle than active threads here if threads have been
+    //       spawned or expired in between
 
     if (idle_threads > 0) {
         // idle count will be decremented by thread waking up again
@@ -324,9 +329,17 @@ threadpool::schedule()
     // check if we are good to create another thread
     else if (active_threads <
              m_data->m_max_threads.load(std::memory_order_consume)) {
-        auto thread = std::make_shared<worker>(m_data);
-        operation_queue_manager::instance().attach(thread);
+        // account for the thread before it starts so that it can never expire
+        // or go idle without being counted as active
         m_data->m_active_threads.fetch_add(1, std::memory_order_release);
+        std::shared_ptr<worker> thread;
+        try {
+            thread = std::make_shared<worker>(m_data);
+        } catch (...) {
+            m_data->m_active_threads.fetch_sub(1, std::memory_order_release);
+            throw;
+        }
+        operation_queue_manager::instance().attach(thread);
 
         XDISPATCH_TP_TRACE(this, active_threads + 1, idle_threads)
           << "Spawned thread " << thread->get_id()
-- 
2.43.0


From 5b4f14d2fe63b167c88740c25356b8e6afac060f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 04/25] fix: group::notify must wait for the group to become
 empty

---
 src/naive/naive_group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 7a7f3e5..765353e 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -84,7 +84,7 @@ public:
             // note: wait(..) will already notify the threadpool that
             //       we are blocking one of its threads through our internal
             //       use of a consumable
-            this_ptr->wait(std::chrono::milliseconds::max());
+            this_ptr->wait(std::chrono::milliseconds(-1));
             q->async(op);
         });
 
-- 
2.43.0


From 8bc4551b508bf43b5c78478b351f43b035587b34 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 05/25] fix: group::wait must cover all operations submitted
 before, also after earlier ones finished

---
 src/naive/naive_consumable.cpp | 36 ++++++++++++++++++++++++++++------
 src/naive/naive_consumable.h   |  7 +++++--
 src/naive/naive_group.cpp      | 17 +++++++++++-----
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/naive/naive_consumable.cpp b/src/naive/naive_consumable.cpp
index f2459c0..43f384f 100644
--- a/src/naive/naive_consumable.cpp
+++ b/src/naive/naive_consumable.cpp
@@ -23,6 +23,8 @@
 #include "naive_threadpool.h"
 #include "naive_backend_internal.h"
 
+#include <algorithm>
+
 __XDISPATCH_BEGIN_NAMESPACE
 namespace naive {
 
@@ -31,10 +33,16 @@ consumable::consumable(size_t resources, const consumable_ptr& preceeding)
   , m_resources(resources)
 {}
 
-void
+bool
 consumable::add_resource()
 {
-    m_resources.fetch_add(size_t(1));
+    size_t resources = m_resources.load();
+    do {
+        if (0 == resources) {
+            return false;
+        }
+    } while (!m_resources.compare_exchange_weak(resources, resources + 1));
+    return true;
 }
 
 void
@@ -55,13 +63,29 @@ consumable::consume_resource()
 bool
 consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
 {
+    const auto start = std::chrono::steady_clock::now();
+    auto remaining = timeout;
     // make sure that the preceeding consumable is satisfied
-    if (m_preceeding && m_preceeding.get() != this) {
-        if (m_preceeding->wait_for_consumed(timeout)) {
-            // satisfied, continue with this
+    const auto preceeding = std::atomic_load(&m_preceeding);
+    if (preceeding && preceeding.get() != this) {
+        if (preceeding->wait_for_consumed(timeout)) {
+            // satisfied, continue with this and stop tracking the chain
+            std::atomic_store(&m_preceeding, consumable_ptr());
         } else {
+            // stop tracking links that have been consumed to bound the chain
+            if (0 == preceeding->m_resources.load()) {
+                std::atomic_store(&m_preceeding,
+                                  std::atomic_load(&preceeding->m_preceeding));
+            }
             return false;
         }
+        if (timeout > std::chrono::milliseconds::zero()) {
+            const auto elapsed =
+              std::chrono::duration_cast<std::chrono::milliseconds>(
+                std::chrono::steady_clock::now() - start);
+            remaining = std::max(std::chrono::milliseconds::zero(),
+                                 timeout - elapsed);
+        }
     }
     // if no resources have been available or consumed
     // the barrier will never be completed but the consumable
@@ -70,7 +94,7 @@ consumable::wait_for_consumed(const std::chrono::milliseconds timeout) // NOLINT
         return true;
     }
     ithreadpool::block_scope blocked;
-    const auto ret = m_barrier.wait(timeout);
+    const auto ret = m_barrier.wait(remaining);
     return ret;
 }
 
diff --git a/src/naive/naive_consumable.h b/src/naive/naive_consumable.h
index 605f770..c7c53ef 100644
--- a/src/naive/naive_consumable.h
+++ b/src/naive/naive_consumable.h
@@ -61,8 +61,11 @@ public:
         If the consumable had already been fully consumed by the
         time this is called, this will have no effect and the
         consumable remain fully consumed.
+
+        @return true if the resource was added, false if the consumable
+                had already been fully consumed
      */
-    void add_resource();
+    bool add_resource();
 
     /**
         @brief Consumes a resource removing it from the list of
@@ -83,7 +86,7 @@ public:
       std::chrono::milliseconds timeout = std::chrono::milliseconds(-1));
 
 private:
-    const consumable_ptr m_preceeding;
+    consumable_ptr m_preceeding;
     std::atomic<size_t> m_resources;
     lightweight_barrier m_barrier;
 };
diff --git a/src/naive/naive_group.cpp b/src/naive/naive_group.cpp
index 765353e..d8eecf6 100644
--- a/src/naive/naive_group.cpp
+++ b/src/naive/naive_group.cpp
@@ -39,16 +39,21 @@ public:
       : igroup_impl()
       , m_pool(pool)
       , m_backend(backend)
-      , m_consumable(std::make_shared<consumable>())
+      , m_consumable(std::make_shared<consumable>(1))
     {}
 
     ~group_impl() override = default;
 
     void async(const operation_ptr& op, const iqueue_impl_ptr& q) final
     {
-        const auto c = std::atomic_load(&m_consumable);
-        XDISPATCH_ASSERT(c);
-        c->add_resource();
+        // the group holds one resource of the current consumable on its own so
+        // that it cannot be consumed before being replaced by wait(). Whenever
+        // it was replaced and consumed in the meantime just retry
+        consumable_ptr c;
+        do {
+            c = std::atomic_load(&m_consumable);
+            XDISPATCH_ASSERT(c);
+        } while (!c->add_resource());
         q->async(std::make_shared<consuming_operation>(op, c));
     }
 
@@ -62,11 +67,13 @@ public:
         consumable_ptr new_c;
         do {
             old_c = std::atomic_load(&m_consumable);
-            new_c = std::make_shared<consumable>(0, old_c);
+            new_c = std::make_shared<consumable>(1, old_c);
         } while (
           !std::atomic_compare_exchange_weak(&m_consumable, &old_c, new_c));
         XDISPATCH_ASSERT(old_c);
         XDISPATCH_ASSERT(new_c);
+        // release the resource held by the group
+        old_c->consume_resource();
         return old_c->wait_for_consumed(timeout);
 
         // FIXME(zwicker): This is blocking and will not work if invoked from
-- 
2.43.0


From 582400d2d7a3a5ba8b1912ced3c2e150e9606ae5 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 06/25] fix: signal_barrier must not race with its handler and
 keep the values of the first raise

---
 include/xdispatch/signals_barrier.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/xdispatch/signals_barrier.h b/include/xdispatch/signals_barrier.h
index 474b546..db18789 100644
--- a/include/xdispatch/signals_barrier.h
+++ b/include/xdispatch/signals_barrier.h
@@ -27,6 +27,7 @@
  * @{
  */
 
+#include <atomic>
 #include <tuple>
 
 #include "xdispatch/signals.h"
@@ -92,11 +93,17 @@ public:
      */
     explicit signal_barrier(signal<void(Args...)>& signal)
       : m_signal(signal)
+      , m_values()
+      , m_raised(false)
       , m_barrier()
       , m_connection(signal.connect([this](Args... values) {
-          m_values.set(values...);
-          m_connection.disconnect();
-          m_barrier.complete();
+          // only the first raise counts. The handler must not make use of
+          // m_connection which may still be under construction or already
+          // be under destruction on another thread
+          if (!m_raised.exchange(true)) {
+              m_values.set(values...);
+              m_barrier.complete();
+          }
       }))
     {}
 
@@ -153,9 +160,12 @@ public:
 
 private:
     signal<void(Args...)>& m_signal;
+    value_holder<0> m_values;
+    std::atomic<bool> m_raised;
     lightweight_barrier m_barrier;
+    // needs to be the last member so that no handler is active
+    // while any of the above is constructed or destroyed
     scoped_connection m_connection;
-    value_holder<0> m_values;
 };
 
 __XDISPATCH_END_NAMESPACE
-- 
2.43.0


From 5740d3c3810fcb6efda0f2f682223c72c8f4b4d6 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 07/25] fix: cancelable must not reject concurrent calls and
 disable must wait for all of them

---
 include/xdispatch/impl/cancelable.h | 34 ++++++++-------------
 src/cancelable.cpp                  | 46 ++++++++++++++++-------------
 2 files changed, 39 insertions(+), 41 deletions(-)

diff --git a/include/xdispatch/impl/cancelable.h b/include/xdispatch/impl/cancelable.h
index 1ecac5e..497eacd 100644
--- a/include/xdispatch/impl/cancelable.h
+++ b/include/xdispatch/impl/cancelable.h
@@ -47,24 +47,17 @@ __XDISPATCH_BEGIN_NAMESPACE
 class XDISPATCH_EXPORT cancelable
 {
 public:
-    enum active_state
-    {
-        /**< Entity is not in a queue right now */
-        active_disabled = 0,
-        /**< Entity has been queued but not executed yet */
-        active_enabled,
-        /**< Entity is actively being executed */
-        active_running
-    };
-
     /**
        @brief Constructs an active (not disabled) cancelable.
      */
     cancelable();
 
     /**
-       Marks the entity as not to be queued anywhere,
-       i.e. sets it to active_disabled
+       Marks the entity as disabled, it cannot be entered anymore
+
+       When the call returns, nobody will be active within the entity
+       anymore. This is safe to be invoked recursively, i.e. by a thread
+       having entered the entity itself in which case the call will not wait.
     */
     void disable();
 
@@ -72,28 +65,27 @@ protected:
     friend class cancelable_scope;
 
     /**
-        Notifies the entity that it is about to be called,
-        i.e. sets it to active_running if the entity had been enabled
+        Notifies the entity that it is about to be called. The entity may
+        be entered by more than one thread at a time.
 
         Make sure to balance this with calls to leave().
         It is recommended to not invoke this directly but go through
         cancelable_scope instead which manages this for you.
 
-        @returns true if the entity had been active_enabled
+        @returns true if the entity had not been disabled
     */
     bool enter();
 
     /**
-        Notifies the entity that the call is done,
-        i.e. sets it to active_enabled again if it had
-        been in the active_running state before
+        Notifies the entity that a call is done
     */
     void leave();
 
 private:
-    // the current state of the handler
-    std::atomic<active_state> m_active;
-    // barrier to ensure defined cancellation
+    // the number of active calls and whether the entity was disabled
+    std::atomic<int> m_active;
+    // barrier to ensure defined cancellation, completed
+    // once the entity is both disabled and no longer active
     lightweight_barrier m_barrier;
 };
 
diff --git a/src/cancelable.cpp b/src/cancelable.cpp
index 46351aa..0fc3d9b 100644
--- a/src/cancelable.cpp
+++ b/src/cancelable.cpp
@@ -27,46 +27,52 @@
 
 __XDISPATCH_BEGIN_NAMESPACE
 
-static thread_local std::set<cancelable*> current_c;
+// Indicates the entity was disabled
+static constexpr int kDisabled{ 1 };
+
+// Added once for every active call
+static constexpr int kActive{ 2 };
+
+static thread_local std::multiset<cancelable*> current_c;
 
 cancelable::cancelable()
-  : m_active(active_enabled)
+  : m_active(0)
 {}
 
 void
 cancelable::disable()
 {
+    const auto previous = m_active.fetch_or(kDisabled);
     if (current_c.find(this) != current_c.end()) {
-        // recursion
-        m_active.store(active_disabled);
+        // recursion, the barrier completes when leaving the last call
+    } else if (0 == previous) {
+        // nobody active and nobody can become active anymore
+        m_barrier.complete();
     } else {
-        auto current = m_active.exchange(active_disabled);
-        if (active_running == current) {
-            // tried to disable while still running
-            m_barrier.wait();
-        }
+        // tried to disable while still running or somebody else just did
+        m_barrier.wait();
     }
 }
 
 bool
 cancelable::enter()
 {
-    auto expected = active_enabled;
-    if (m_active.compare_exchange_strong(expected, active_running)) {
-        current_c.insert(this);
-        return true;
-    }
-    // disabled
-    return false;
+    auto current = m_active.load();
+    do {
+        if (current & kDisabled) {
+            return false;
+        }
+    } while (!m_active.compare_exchange_weak(current, current + kActive));
+    current_c.insert(this);
+    return true;
 }
 
 void
 cancelable::leave()
 {
-    current_c.erase(this);
-    auto expected = active_running;
-    if (!m_active.compare_exchange_strong(expected, active_enabled)) {
-        // disabled in the meantime
+    current_c.erase(current_c.find(this));
+    if ((kActive | kDisabled) == m_active.fetch_sub(kActive)) {
+        // disabled in the meantime and nobody else is active
         m_barrier.complete();
     }
 }
-- 
2.43.0


From 01b9dd1570bdbce541fa2fc51bdf5d9d09e109f1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 08/25] fix: connection must not access a destroyed signal and
 signal must not block its handlers while waiting for them

---
 include/xdispatch/signals.h |  4 ++++
 src/signals.cpp             | 34 ++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index f59ef85..b4f180d 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -187,6 +187,8 @@ enum class notification_mode
  */
 class XDISPATCH_EXPORT signal_p
 {
+    friend class connection;
+
 protected:
     class connection_handler;
     using connection_handler_ptr = std::shared_ptr<connection_handler>;
@@ -251,6 +253,8 @@ protected:
         const queue m_queue;
         // the current state of the handler
         cancelable m_active;
+        // false once the handler got disconnected or its signal destroyed
+        std::atomic<bool> m_connected;
         // the number of items that have been queued
         std::atomic<int> m_pending;
         // the mode in which the handler will be called
diff --git a/src/signals.cpp b/src/signals.cpp
index 3872be6..2df67b9 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -127,8 +127,16 @@ bool
 connection::disconnect()
 {
     bool disconnected = false;
-    if (m_parent) {
-        disconnected = m_parent->disconnect(*this);
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    if (handler) {
+        if (handler->m_connected) {
+            disconnected = m_parent->disconnect(*this);
+        } else {
+            // disconnected via another connection or by destroying the parent,
+            // in any case do not return while the handler is still active
+            handler->disable();
+        }
     }
     m_id.reset();
     m_parent = nullptr;
@@ -138,7 +146,9 @@ connection::disconnect()
 bool
 connection::connected() const
 {
-    return !m_id.expired();
+    const auto handler =
+      std::static_pointer_cast<signal_p::connection_handler>(m_id.lock());
+    return handler && handler->m_connected;
 }
 
 bool
@@ -166,6 +176,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
                                                  notification_mode m)
   : m_queue(q)
   , m_active()
+  , m_connected(true)
   , m_pending(0)
   , m_mode(m)
 {}
@@ -186,12 +197,17 @@ signal_p::signal_p()
 
 signal_p::~signal_p()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
+    std::vector<connection_handler_ptr> handlers;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        handlers.swap(m_handlers);
+    }
 
-    for (const auto& handler : m_handlers) {
+    // not holding the lock as active handlers may be about to disconnect
+    for (const auto& handler : handlers) {
+        handler->m_connected = false;
         handler->disable();
     }
-    m_handlers.clear();
 }
 
 bool
@@ -199,18 +215,20 @@ signal_p::disconnect(connection& c)
 {
     const auto c_void = c.m_id.lock();
     const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
+    bool connected = false;
     if (c_handler) {
         std::lock_guard<std::mutex> lock(m_CS);
         const auto last =
           std::remove(m_handlers.begin(), m_handlers.end(), c_handler);
+        connected = last != m_handlers.end();
         m_handlers.erase(last, m_handlers.end());
+        c_handler->m_connected = false;
     }
     c.m_id.reset();
     if (c_handler) {
         c_handler->disable();
-        return true;
     }
-    return false;
+    return connected;
 }
 
 void
-- 
2.43.0


From bc58d78bd535783ce87151713697216af448b797 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 09/25] fix: signal must not hold its lock while calling
 synchronous handlers

---
 include/xdispatch/signals.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index b4f180d..0e0ab6b 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -389,18 +389,16 @@ public:
     {
         // FIXME(zwicker): Can this be pulled into the signal_p?
         // FIXME(zwicker): Would this allow us to make cancelable private?
-        std::lock_guard<std::mutex> lock(m_CS);
+        std::vector<connection_handler_ptr> synchronous_handlers;
+        std::unique_lock<std::mutex> lock(m_CS);
 
         for (const connection_handler_ptr& handler : m_handlers) {
-            auto pending = handler->m_pending++;
             if (notification_mode::_synchronous_update == handler->m_mode) {
-                cancelable_scope cancel_scope(handler->m_active);
-                if (cancel_scope) {
-                    handler->m_pending--;
-                    std::static_pointer_cast<connection_handler_t>(handler)
-                      ->m_func(argList...);
-                }
-            } else if (notification_mode::single_updates == handler->m_mode ||
+                synchronous_handlers.push_back(handler);
+                continue;
+            }
+            auto pending = handler->m_pending++;
+            if (notification_mode::single_updates == handler->m_mode ||
                        pending < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
@@ -419,6 +417,16 @@ public:
                 handler->m_pending--;
             }
         }
+        lock.unlock();
+
+        // not holding the lock so that these are free to use the signal
+        for (const connection_handler_ptr& handler : synchronous_handlers) {
+            cancelable_scope cancel_scope(handler->m_active);
+            if (cancel_scope) {
+                std::static_pointer_cast<connection_handler_t>(handler)->m_func(
+                  argList...);
+            }
+        }
     }
 };
 
-- 
2.43.0


From b656e575a6f4693827af4feb3552cd87f58098a1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 10/25] fix: signal_p::skip_all must only skip queued calls
 instead of disabling all handlers

---
 include/xdispatch/signals.h | 20 +++++++++++++-------
 src/signals.cpp             |  6 ++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/xdispatch/signals.h b/include/xdispatch/signals.h
index 0e0ab6b..437e1bb 100644
--- a/include/xdispatch/signals.h
+++ b/include/xdispatch/signals.h
@@ -255,8 +255,13 @@ protected:
         cancelable m_active;
         // false once the handler got disconnected or its signal destroyed
         std::atomic<bool> m_connected;
-        // the number of items that have been queued
-        std::atomic<int> m_pending;
+        // the items that have been queued since the last skip
+        struct pending_calls
+        {
+            std::atomic<int> m_count{ 0 };
+            std::atomic<bool> m_skipped{ false };
+        };
+        std::shared_ptr<pending_calls> m_pending;
         // the mode in which the handler will be called
         notification_mode m_mode;
     };
@@ -397,13 +402,14 @@ public:
                 synchronous_handlers.push_back(handler);
                 continue;
             }
-            auto pending = handler->m_pending++;
+            const auto calls = handler->m_pending;
+            auto pending = calls->m_count++;
             if (notification_mode::single_updates == handler->m_mode ||
-                       pending < 1) {
+                pending < 1) {
                 auto invocation = [=] {
                     cancelable_scope cancel_scope(handler->m_active);
-                    if (cancel_scope) {
-                        handler->m_pending--;
+                    calls->m_count--;
+                    if (cancel_scope && !calls->m_skipped) {
                         std::static_pointer_cast<connection_handler_t>(handler)
                           ->m_func(argList...);
                     }
@@ -414,7 +420,7 @@ public:
                     handler->m_queue.async(std::move(invocation));
                 }
             } else {
-                handler->m_pending--;
+                calls->m_count--;
             }
         }
         lock.unlock();
diff --git a/src/signals.cpp b/src/signals.cpp
index 2df67b9..c1e495b 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -177,7 +177,7 @@ signal_p::connection_handler::connection_handler(const queue& q,
   : m_queue(q)
   , m_active()
   , m_connected(true)
-  , m_pending(0)
+  , m_pending(std::make_shared<pending_calls>())
   , m_mode(m)
 {}
 
@@ -237,7 +237,9 @@ signal_p::skip_all()
     std::lock_guard<std::mutex> lock(m_CS);
 
     for (const auto& handler : m_handlers) {
-        handler->disable();
+        handler->m_pending->m_skipped = true;
+        handler->m_pending =
+          std::make_shared<connection_handler::pending_calls>();
     }
 }
 
-- 
2.43.0


From 8fc263fb82d3bfa8b97eac91e3006a2e6b693850 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 11/25] fix: connection_manager must not hold its lock while
 disconnecting

---
 src/signals.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/signals.cpp b/src/signals.cpp
index c1e495b..199b65c 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -34,19 +34,28 @@ connection_manager::~connection_manager()
 void
 connection_manager::reset_connections()
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    m_connections.clear();
+    // not holding the lock while disconnecting as this waits for active
+    // handlers which may be about to use the manager
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        connections.swap(m_connections);
+    }
 }
 
 void
 connection_manager::reset_connections_with(const signal_p& s)
 {
-    std::lock_guard<std::mutex> lock(m_CS);
-    const auto last = std::remove_if(
-      m_connections.begin(),
-      m_connections.end(),
-      [&s](const scoped_connection& sc) { return sc.is_connected_to(s); });
-    m_connections.erase(last, m_connections.end());
+    std::vector<scoped_connection> connections;
+    {
+        std::lock_guard<std::mutex> lock(m_CS);
+        std::vector<scoped_connection> remaining;
+        for (auto& sc : m_connections) {
+            auto& target = sc.is_connected_to(s) ? connections : remaining;
+            target.push_back(std::move(sc));
+        }
+        m_connections.swap(remaining);
+    }
 }
 
 connection_manager&
-- 
2.43.0


From 02795883e2a8a89499aa530433d8045b39b7477d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 12/25] fix: timer must not fire twice per period after being
 suspended and resumed

---
 src/naive/naive_timer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 239de07..3f69752 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -44,6 +44,7 @@ public:
       , m_pool(pool)
       , m_handler()
       , m_running(0)
+      , m_cookie(0)
       , m_cancelable()
     {}
 
@@ -85,16 +86,20 @@ public:
 
         const auto this_ptr = shared_from_this();
 
+        // when suspended and resumed again quickly there may still be a
+        // previous helper active, the cookie makes sure it will terminate
+        const auto cookie = ++m_cookie;
+
         // the timer will execute via a helper borrowed from the
         // global default threadpool. It is ensured that enough
         // threads are available for the pool even though the
         // timer is blocking while it is active
-        auto timer_op = make_operation([this_ptr, delay] {
+        auto timer_op = make_operation([this_ptr, delay, cookie] {
             ithreadpool::block_scope blocked;
             std::this_thread::sleep_for(delay);
 
             std::unique_lock<std::mutex> lock(this_ptr->m_CS);
-            while (this_ptr->m_running > 0) {
+            while (this_ptr->m_running > 0 && this_ptr->m_cookie == cookie) {
                 const auto handler = this_ptr->m_handler;
                 const auto interval = this_ptr->m_interval;
                 const auto queue = this_ptr->m_queue;
@@ -150,6 +155,7 @@ private:
     ithreadpool_ptr m_pool;
     operation_ptr m_handler;
     int m_running;
+    uint64_t m_cookie;
     cancelable m_cancelable;
 };
 
-- 
2.43.0


From bfe41469ac4fa3c9ca36635e683b2903d98fff9f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 13/25] fix: timer helper must not outrun the handler still
 leaving its cancelable

---
 src/naive/naive_timer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/naive/naive_timer.cpp b/src/naive/naive_timer.cpp
index 3f69752..6ff1226 100644
--- a/src/naive/naive_timer.cpp
+++ b/src/naive/naive_timer.cpp
@@ -109,9 +109,13 @@ public:
 
                 lightweight_barrier barrier;
                 queue->async(make_operation([handler, &barrier, &cancelable] {
-                    cancelable_scope scope(cancelable);
-                    if (scope) {
-                        execute_operation_on_this_thread(*handler);
+                    {
+                        // needs to be left before completing the barrier as
+                        // the timer may be gone afterwards
+                        cancelable_scope scope(cancelable);
+                        if (scope) {
+                            execute_operation_on_this_thread(*handler);
+                        }
                     }
                     barrier.complete();
                 }));
-- 
2.43.0


From 355b406a07fde6251909dfc52e645412f050fa4c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:15:54 +0000
Subject: [PATCH 14/25] fix: socket_notifier must stop on closed sockets and
 support descriptors beyond FD_SETSIZE

---
 src/naive/naive_socket_notifier.cpp | 35 +++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 488c74d..59f7369 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -30,7 +30,7 @@
 #if (defined XDISPATCH2_HAVE_WINSOCK2)
     #include <winsock2.h>
 #elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-    #include <sys/select.h>
+    #include <poll.h>
 #else
     #error "naive_socket_notifier is not supported on this platform"
 #endif
@@ -107,9 +107,11 @@ public:
                 const auto type = this_ptr->m_type;
 
                 int res = -1;
+                bool invalid = false;
                 {
                     inverse_lock_guard<std::mutex> unlock(this_ptr->m_CS);
 
+#if (defined XDISPATCH2_HAVE_WINSOCK2)
                     struct timeval timeout;
                     constexpr auto k5sec = 5;
                     timeout.tv_sec = k5sec;
@@ -125,6 +127,20 @@ public:
                     } else {
                         res = select(nfds, nullptr, &fds, nullptr, &timeout);
                     }
+                    invalid = SOCKET_ERROR == res &&
+                              WSAENOTSOCK == WSAGetLastError();
+#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
+                    // note: select() cannot be used as it does not support
+                    //       descriptors beyond FD_SETSIZE
+                    constexpr auto k5sec = 5000;
+                    struct pollfd fds;
+                    fds.fd = static_cast<int>(socket);
+                    fds.events = notifier_type::READ == type ? POLLIN : POLLOUT;
+                    fds.revents = 0;
+
+                    res = poll(&fds, 1, k5sec);
+                    invalid = res > 0 && 0 != (fds.revents & POLLNVAL);
+#endif
                 }
 
                 if (cookie != this_ptr->m_worker_cookie) {
@@ -132,25 +148,16 @@ public:
                     break;
                 }
 
-#if (defined XDISPATCH2_HAVE_WINSOCK2)
-                if (SOCKET_ERROR == res && WSAENOTSOCK == WSAGetLastError()) {
-                    // not a socket anymore
-                    XDISPATCH_WARNING() << "socket_notifier: Socket " << socket
-                                        << " is not a socket";
-                    break;
-                }
-#elif (defined XDISPATCH2_HAVE_SOCKETPAIR)
-                if (EBADF == res) {
-                    // socket was closed somewhere else
+                if (invalid) {
+                    // not a socket anymore or closed somewhere else
                     XDISPATCH_WARNING()
                       << "socket_notifier: Socket " << socket << " is invalid";
                     break;
                 }
-#endif
                 if (res == 0) {
                     // timeout, try again
                 } else if (res > 0) {
-                    XDISPATCH_TRACE() << "socket_notifier: select(" << socket
+                    XDISPATCH_TRACE() << "socket_notifier: wait(" << socket
                                       << ") returned " << res;
 
                     const auto handler = this_ptr->m_handler;
@@ -172,7 +179,7 @@ public:
                       }));
                     barrier.wait();
                 } else {
-                    XDISPATCH_WARNING() << "socket_notifier: select(" << socket
+                    XDISPATCH_WARNING() << "socket_notifier: wait(" << socket
                                         << ") failed: " << strerror(errno);
                 }
             }
-- 
2.43.0


From 8909846abc62a3bb29abbbab89407e6c6f1b6a8d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 15/25] fix: socket_notifier helper must not outrun the handler
 still leaving its cancelable

---
 src/naive/naive_socket_notifier.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_socket_notifier.cpp b/src/naive/naive_socket_notifier.cpp
index 59f7369..b88f01d 100644
--- a/src/naive/naive_socket_notifier.cpp
+++ b/src/naive/naive_socket_notifier.cpp
@@ -170,10 +170,14 @@ public:
                     lightweight_barrier barrier;
                     queue->async(make_operation(
                       [handler, socket, type, &barrier, &handler_cancelable] {
-                          cancelable_scope scope(handler_cancelable);
-                          if (scope) {
-                              execute_operation_on_this_thread(
-                                *handler, socket, type);
+                          {
+                              // needs to be left before completing the barrier
+                              // as the notifier may be gone afterwards
+                              cancelable_scope scope(handler_cancelable);
+                              if (scope) {
+                                  execute_operation_on_this_thread(
+                                    *handler, socket, type);
+                              }
                           }
                           barrier.complete();
                       }));
-- 
2.43.0


From 2039816efe25aebafee0bdb45a27654f0d447ea1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:17:15 +0000
Subject: [PATCH 16/25] fix: waitable_queue::after must not leak its timer

---
 src/waitable_queue.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4876d4a..4ee3ee2 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -157,13 +157,10 @@ public:
     void after(std::chrono::milliseconds delay,
                const operation_ptr& op) override
     {
-        auto timer =
-          backend_for_type(backend()).create_timer(shared_from_this());
-        timer->handler(make_operation([op, timer] {
-            execute_operation_on_this_thread(*op);
-            timer->cancel();
-        }));
-        timer->resume(delay);
+        naive::delayed_operation::create_and_dispatch(
+          backend_for_type(backend()).create_timer(shared_from_this()),
+          delay,
+          op);
     }
 
     backend_type backend() override
-- 
2.43.0


From e08707b676e9cb6ec3f0cf94e5212c840a499d56 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 17/25] fix: mixing backends must throw the documented
 logic_error instead of terminating

---
 src/trace_utils.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trace_utils.cpp b/src/trace_utils.cpp
index e4db999..bcddc36 100644
--- a/src/trace_utils.cpp
+++ b/src/trace_utils.cpp
@@ -57,7 +57,6 @@ trace_utils::assert_same_backend(backend_type a, backend_type b)
                            std::to_string(static_cast<int>(a)) + " and " +
                            std::to_string(static_cast<int>(b));
         std::cerr << XDISPATCH_TRACE_PREFIX << error << std::endl;
-        XDISPATCH_ASSERT(false && "Cannot mix two different backends");
         throw std::logic_error(error);
     }
 }
-- 
2.43.0


From c3d4945d3a7ea52acef2392239b2f2b521de5f25 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 18/25] fix: waitable_queue must not block forever after an
 operation has thrown

---
 src/waitable_queue.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 4ee3ee2..985951f 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -60,7 +60,16 @@ public:
             m_operations.pop_front();
 
             lock.unlock();
-            xdispatch::execute_operation_on_this_thread(*op);
+            try {
+                xdispatch::execute_operation_on_this_thread(*op);
+            } catch (...) {
+                // make sure nobody waits forever for us to complete
+                lock.lock();
+                ++m_completed;
+                m_active = false;
+                m_cond.notify_all();
+                throw;
+            }
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From b3d4b5c0d2c28a5a8f797c619e411206f42770b0 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 19/25] fix: release operations of a waitable_queue without
 holding its lock

---
 src/waitable_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/waitable_queue.cpp b/src/waitable_queue.cpp
index 985951f..0921da9 100644
--- a/src/waitable_queue.cpp
+++ b/src/waitable_queue.cpp
@@ -63,6 +63,9 @@ public:
             try {
                 xdispatch::execute_operation_on_this_thread(*op);
             } catch (...) {
+                // the operation must not get released while holding the lock,
+                // releasing it may call back into this queue
+                op.reset();
                 // make sure nobody waits forever for us to complete
                 lock.lock();
                 ++m_completed;
@@ -70,6 +73,7 @@ public:
                 m_cond.notify_all();
                 throw;
             }
+            op.reset();
             lock.lock();
             ++m_completed;
         }
-- 
2.43.0


From 65dfdde40e4bbeaf979d95d6279b9fe19fd040cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 20/25] fix: signal must not disconnect the connections of
 another signal

---
 src/signals.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/signals.cpp b/src/signals.cpp
index 199b65c..bc58602 100644
--- a/src/signals.cpp
+++ b/src/signals.cpp
@@ -222,6 +222,11 @@ signal_p::~signal_p()
 bool
 signal_p::disconnect(connection& c)
 {
+    if (this != c.m_parent) {
+        // nothing of ours, leave the connections of other signals alone
+        return false;
+    }
+
     const auto c_void = c.m_id.lock();
     const auto c_handler = std::static_pointer_cast<connection_handler>(c_void);
     bool connected = false;
-- 
2.43.0


From f95d53e3ea69fea511c746694cc7fee758db6dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 21/25] fix: Qt thread pool must be able to grow instead of
 shrink while an operation is blocked

---
 src/qt5/qt5_threadpool.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index c6dbbda..4e2e97a 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -89,13 +89,15 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 void
 ThreadPoolProxy::notify_thread_blocked()
 {
-    m_pool->reserveThread();
+    // the blocked thread does not count as active until it is unblocked,
+    // so that the pool may start another one in the meantime
+    m_pool->releaseThread();
 }
 
 void
 ThreadPoolProxy::notify_thread_unblocked()
 {
-    m_pool->releaseThread();
+    m_pool->reserveThread();
 }
 
 } // namespace qt5
-- 
2.43.0


From 39cc42aebb4344974d6a46751357452482a5a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 22/25] fix: queues on a QThreadPool must not use the pool
 after they were released

---
 src/qt5/qt5_threadpool.cpp | 17 ++++++-----------
 src/qt5/qt5_threadpool.h   |  8 ++++++--
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/qt5/qt5_threadpool.cpp b/src/qt5/qt5_threadpool.cpp
index 4e2e97a..f22e184 100644
--- a/src/qt5/qt5_threadpool.cpp
+++ b/src/qt5/qt5_threadpool.cpp
@@ -34,13 +34,6 @@ ThreadPoolProxy::ThreadPoolProxy(QThreadPool* pool)
     XDISPATCH_ASSERT(pool);
 }
 
-ThreadPoolProxy::~ThreadPoolProxy()
-{
-    if (m_pool) {
-        m_pool->waitForDone();
-    }
-}
-
 void
 ThreadPoolProxy::execute(const operation_ptr& work,
                          const queue_priority priority)
@@ -48,7 +41,8 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     class OperationRunnable : public QRunnable
     {
     public:
-        OperationRunnable(const operation_ptr& op, naive::ithreadpool* pool)
+        OperationRunnable(const operation_ptr& op,
+                          const std::shared_ptr<ThreadPoolProxy>& pool)
           : m_operation(op)
           , m_pool(pool)
         {
@@ -57,12 +51,13 @@ ThreadPoolProxy::execute(const operation_ptr& work,
 
         void run() final
         {
-            naive::ithreadpool::run_with_threadpool(*m_operation, m_pool);
+            naive::ithreadpool::run_with_threadpool(*m_operation,
+                                                    m_pool.get());
         }
 
     private:
         const operation_ptr m_operation;
-        naive::ithreadpool* const m_pool;
+        const std::shared_ptr<ThreadPoolProxy> m_pool;
     };
 
     int p = 0;
@@ -83,7 +78,7 @@ ThreadPoolProxy::execute(const operation_ptr& work,
     }
 
     XDISPATCH_ASSERT(m_pool);
-    m_pool->start(new OperationRunnable(work, this), p);
+    m_pool->start(new OperationRunnable(work, shared_from_this()), p);
 }
 
 void
diff --git a/src/qt5/qt5_threadpool.h b/src/qt5/qt5_threadpool.h
index e9f26fd..056bf5f 100644
--- a/src/qt5/qt5_threadpool.h
+++ b/src/qt5/qt5_threadpool.h
@@ -30,12 +30,16 @@
 __XDISPATCH_BEGIN_NAMESPACE
 namespace qt5 {
 
-class ThreadPoolProxy : public naive::ithreadpool
+class ThreadPoolProxy
+  : public naive::ithreadpool
+  , public std::enable_shared_from_this<ThreadPoolProxy>
 {
 public:
     ThreadPoolProxy(QThreadPool* pool);
 
-    ~ThreadPoolProxy() override;
+    // remark: may run at any time after the last queue was released, the
+    // pool might be going out of scope concurrently and must not be used
+    ~ThreadPoolProxy() override = default;
 
     void execute(const operation_ptr& work, queue_priority priority) final;
     void notify_thread_blocked() final;
-- 
2.43.0


From 2ce569c8a485bf571855ee98c037dc1b84ea78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:17 +0000
Subject: [PATCH 23/25] fix: pools of parallel queues must not be destroyed on
 their own threads

---
 src/naive/naive_operation_queue_manager.cpp | 9 +++++----
 src/naive/naive_parallel_queue.cpp          | 6 +++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/naive/naive_operation_queue_manager.cpp b/src/naive/naive_operation_queue_manager.cpp
index 7ce0ab5..d826c8b 100644
--- a/src/naive/naive_operation_queue_manager.cpp
+++ b/src/naive/naive_operation_queue_manager.cpp
@@ -39,11 +39,12 @@ void
 operation_queue_manager::detach(const void* const q)
 {
     m_thread.execute(make_operation([q, this] {
-        for (auto it = m_queues.begin(); it != m_queues.end();) {
+        for (auto it = m_queues.begin(); it != m_queues.end(); ++it) {
             if (it->get() == q) {
-                it = m_queues.erase(it);
-            } else {
-                ++it;
+                // only undo a single attach(), a threadpool is attached once
+                // for each of the queues making use of it
+                m_queues.erase(it);
+                break;
             }
         }
     }));
diff --git a/src/naive/naive_parallel_queue.cpp b/src/naive/naive_parallel_queue.cpp
index be99bed..027bb48 100644
--- a/src/naive/naive_parallel_queue.cpp
+++ b/src/naive/naive_parallel_queue.cpp
@@ -47,7 +47,11 @@ public:
 
     ~parallel_queue_impl() override
     {
-        operation_queue_manager::instance().detach(m_pool.get());
+        // leave it to the manager to release the last reference as we might
+        // be running on one of the threads owned by the pool
+        const auto* const pool = m_pool.get();
+        m_pool.reset();
+        operation_queue_manager::instance().detach(pool);
     }
 
     void async(const operation_ptr& op) final
-- 
2.43.0


From c0d96b3e08195ec15f1cd7ec740dbaf1c167e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 24/25] fix: serial queues must not release their threadpool on
 one of its threads

---
 src/naive/naive_serial_queue.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/naive/naive_serial_queue.cpp b/src/naive/naive_serial_queue.cpp
index 12bd9d6..744f0b1 100644
--- a/src/naive/naive_serial_queue.cpp
+++ b/src/naive/naive_serial_queue.cpp
@@ -49,7 +49,15 @@ public:
         m_queue->attach();
     }
 
-    ~serial_queue_impl() override { m_queue->detach(); }
+    ~serial_queue_impl() override
+    {
+        // leave it to the manager to release the last reference as we might
+        // be running on a thread owned by the threadpool of the queue. The
+        // manager keeps the queue alive until it has been detached.
+        auto* const q = m_queue.get();
+        m_queue.reset();
+        q->detach();
+    }
 
     void async(const operation_ptr& op) final { m_queue->async(op); }
 
-- 
2.43.0


From 379fcd4e91f5e8ab21d2d3d2cfb32bfe1fde986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:37 +0000
Subject: [PATCH 25/25] fix: a running operation must not use a threadpool
 destroyed in the meantime

Blocking within an operation notifies the pool registered for the current
thread, the worker only held a plain pointer to it
---
 src/naive/naive_threadpool.cpp | 12 +++++++++---
 src/naive/naive_threadpool.h   |  4 +++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/naive/naive_threadpool.cpp b/src/naive/naive_threadpool.cpp
index a50d5de..2afd5e5 100644
--- a/src/naive/naive_threadpool.cpp
+++ b/src/naive/naive_threadpool.cpp
@@ -107,8 +107,10 @@ public:
 class threadpool::worker
 {
 public:
-    explicit worker(const threadpool::data_ptr& data)
+    worker(const threadpool::data_ptr& data,
+           const std::weak_ptr<threadpool>& pool)
       : m_data(data)
+      , m_pool(pool)
       , m_thread(&worker::run, this)
     {}
 
@@ -223,7 +225,10 @@ public:
                     last_label = label;
                 }
 
-                run_with_threadpool(*op, m_data->m_pool);
+                // keep the pool while it is in use by the operation, it may
+                // get released on another thread at any moment
+                const auto pool = m_pool.lock();
+                run_with_threadpool(*op, pool.get());
                 op.reset();
             }
         }
@@ -239,6 +244,7 @@ public:
 
 private:
     threadpool::data_ptr m_data;
+    std::weak_ptr<threadpool> m_pool;
     std::thread m_thread;
 };
 
@@ -334,7 +340,7 @@ threadpool::schedule()
         m_data->m_active_threads.fetch_add(1, std::memory_order_release);
         std::shared_ptr<worker> thread;
         try {
-            thread = std::make_shared<worker>(m_data);
+            thread = std::make_shared<worker>(m_data, shared_from_this());
         } catch (...) {
             m_data->m_active_threads.fetch_sub(1, std::memory_order_release);
             throw;
diff --git a/src/naive/naive_threadpool.h b/src/naive/naive_threadpool.h
index 3f624a6..80db5f8 100644
--- a/src/naive/naive_threadpool.h
+++ b/src/naive/naive_threadpool.h
@@ -39,7 +39,9 @@ using thread_ptr = std::shared_ptr<std::thread>;
     An implementation of ithreadpool executing in a single thread
     for sake of simplicity.
  */
-class threadpool : public ithreadpool
+class threadpool
+  : public ithreadpool
+  , public std::enable_shared_from_this<threadpool>
 {
 public:
     enum
-- 
2.43.0

