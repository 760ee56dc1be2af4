From 01c6d10440adbef30292db0557ca934f42e9cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:27 +0000
Subject: [PATCH 01/18] fix: let reactions be bound and unbound while their
 type is being emitted

The list of reactions for a type was iterated by emissions while other threads,
or reactions run by that same emission (such as an inline Once reaction),
modified it.  Emissions now iterate over an immutable snapshot.
---
 src/dsl/operation/TypeBind.hpp      | 14 +-----
 src/dsl/store/TypeCallbackStore.hpp | 75 ++++++++++++++++++++++++++++-
 src/dsl/word/emit/Inline.hpp        | 13 +++--
 src/dsl/word/emit/Local.hpp         | 13 +++--
 4 files changed, 91 insertions(+), 24 deletions(-)

diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..2b1f20b 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -68,21 +68,11 @@ namespace dsl {
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
-                        [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
-                    // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
+                    store::TypeCallbackStore<DataType>::remove(r.id);
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::add(reaction);
             }
         };
 
diff --git a/src/dsl/store/TypeCallbackStore.hpp b/src/dsl/store/TypeCallbackStore.hpp
index 5d0f6f9..821b0de 100644
--- a/src/dsl/store/TypeCallbackStore.hpp
+++ b/src/dsl/store/TypeCallbackStore.hpp
@@ -23,10 +23,14 @@
 #ifndef NUCLEAR_DSL_STORE_TYPECALLBACKSTORE_HPP
 #define NUCLEAR_DSL_STORE_TYPECALLBACKSTORE_HPP
 
+#include <algorithm>
 #include <memory>
+#include <mutex>
+#include <utility>
+#include <vector>
 
+#include "../../id.hpp"
 #include "../../threading/Reaction.hpp"
-#include "../../util/TypeList.hpp"
 
 namespace NUClear {
 namespace dsl {
@@ -41,10 +45,77 @@ namespace dsl {
          * to executing without having to do an expensive lookup.
          * This reduces the latency and computational power involved in spawning a new reaction when a type is emitted.
          *
+         * Reactions can be bound and unbound by any thread at any time, including by a reaction that is being executed by
+         * an emission of this type. The list is therefore copied when it is modified, and users get an immutable snapshot.
+         *
          * @tparam TriggeringType the type that when emitted will start this function
          */
         template <typename TriggeringType>
-        using TypeCallbackStore = util::TypeList<TriggeringType, TriggeringType, std::shared_ptr<threading::Reaction>>;
+        class TypeCallbackStore {
+        public:
+            /// The type of the list of reactions
+            using List = std::vector<std::shared_ptr<threading::Reaction>>;
+
+            /// Deleted rule-of-five as this class is a static class.
+            TypeCallbackStore()                                               = delete;
+            ~TypeCallbackStore()                                              = delete;
+            TypeCallbackStore(const TypeCallbackStore& /*other*/)             = delete;
+            TypeCallbackStore(TypeCallbackStore&& /*other*/) noexcept         = delete;
+            TypeCallbackStore& operator=(const TypeCallbackStore& /*other*/)     = delete;
+            TypeCallbackStore& operator=(TypeCallbackStore&& /*other*/) noexcept = delete;
+
+            /**
+             * Adds a reaction to the end of the list.
+             *
+             * @param reaction the reaction to add
+             */
+            static void add(const std::shared_ptr<threading::Reaction>& reaction) {
+                const std::lock_guard<std::mutex> lock(mutex);
+                auto updated = reactions ? std::make_shared<List>(*reactions) : std::make_shared<List>();
+                updated->push_back(reaction);
+                reactions = std::move(updated);
+            }
+
+            /**
+             * Removes a reaction from the list if it is there.
+             *
+             * @param id the id of the reaction to remove
+             */
+            static void remove(const NUClear::id_t& id) {
+                const std::lock_guard<std::mutex> lock(mutex);
+                auto updated = reactions ? std::make_shared<List>(*reactions) : std::make_shared<List>();
+                updated->erase(
+                    std::remove_if(updated->begin(),
+                                   updated->end(),
+                                   [&id](const std::shared_ptr<threading::Reaction>& item) { return item->id == id; }),
+                    updated->end());
+                reactions = std::move(updated);
+            }
+
+            /**
+             * Gets the reactions that are currently bound in the order that they were bound.
+             *
+             * @return a snapshot of the list of reactions, or nullptr if no reaction was ever bound
+             */
+            static std::shared_ptr<const List> get() {
+                const std::lock_guard<std::mutex> lock(mutex);
+                return reactions;
+            }
+
+        private:
+            /// The list of reactions, replaced whenever it changes
+            static std::shared_ptr<const List> reactions;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+            /// The mutex that protects the list
+            static std::mutex mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        };
+
+        template <typename TriggeringType>
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+        std::shared_ptr<const typename TypeCallbackStore<TriggeringType>::List>
+            TypeCallbackStore<TriggeringType>::reactions;
+        template <typename TriggeringType>
+        // NOLINTNEXTLINE(cppcoreguidelines-avoid-non-const-global-variables)
+        std::mutex TypeCallbackStore<TriggeringType>::mutex;
 
     }  // namespace store
 }  // namespace dsl
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..732d3d9 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -57,11 +57,14 @@ namespace dsl {
 
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
-                    // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
-                        // Set our thread local store data each time (as during inline it can be overwritten)
-                        store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
-                        powerplant.submit(reaction->get_task(true));
+                    // Run all our reactions that are interested (they may be bound and unbound while we do)
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    if (reactions != nullptr) {
+                        for (const auto& reaction : *reactions) {
+                            // Set our thread local store data each time (as during inline it can be overwritten)
+                            store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
+                            powerplant.submit(reaction->get_task(true));
+                        }
                     }
 
                     // Unset our thread local store data
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..91ab2de 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -52,12 +52,15 @@ namespace dsl {
 
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
-                    // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    // Run all our reactions that are interested (they may be bound and unbound while we do)
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    if (reactions != nullptr) {
+                        for (const auto& reaction : *reactions) {
 
-                        // Set our thread local store data
-                        store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
-                        powerplant.submit(reaction->get_task());
+                            // Set our thread local store data
+                            store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
+                            powerplant.submit(reaction->get_task());
+                        }
                     }
 
                     // Unset our thread local store data
-- 
2.43.0


From 572de942fe3f69e5862b48acbbde441a87976de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 02/18] fix: merge the transient data of a reaction under a
 lock

---
 src/util/CallbackGenerator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/util/CallbackGenerator.hpp b/src/util/CallbackGenerator.hpp
index 93ada18..c6f981f 100644
--- a/src/util/CallbackGenerator.hpp
+++ b/src/util/CallbackGenerator.hpp
@@ -23,6 +23,8 @@
 #ifndef NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 #define NUCLEAR_UTIL_CALLBACK_GENERATOR_HPP
 
+#include <memory>
+#include <mutex>
 #include <type_traits>
 
 #include "../dsl/word/emit/Inline.hpp"
@@ -62,6 +64,9 @@ namespace util {
                               const Sequence<DIndex...>& /*d*/,
                               const Sequence<Index...>& /*i*/) {
 
+            // Several threads can be making tasks for this reaction at once
+            const std::lock_guard<std::mutex> lock(*transients_mutex);
+
             // Merge our transient data
             unpack(MergeTransients<std::remove_reference_t<decltype(std::get<DIndex>(data))>>::merge(
                 std::get<Index>(*transients),
@@ -155,7 +160,12 @@ namespace util {
             return task;
         }
 
+        /// When there is no transient data there is nothing to merge
+        template <typename... T>
+        void merge_transients(std::tuple<T...>& /*data*/, const Sequence<>& /*d*/, const Sequence<>& /*i*/) {}
+
         Function callback;
+        std::shared_ptr<std::mutex> transients_mutex{std::make_shared<std::mutex>()};
         std::shared_ptr<typename TransientDataElements<DSL>::type> transients{
             std::make_shared<typename TransientDataElements<DSL>::type>()};
     };
-- 
2.43.0


From 261c9e378a860fac17ba10184db126970dfaf89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 03/18] fix: do not leave a queue block before every item in it
 has been read

---
 src/threading/scheduler/queue/MPSCQueue.hpp |  4 +++-
 src/threading/scheduler/queue/TaskQueue.hpp | 12 ++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..1ca2e8a 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -171,7 +171,9 @@ namespace threading {
                                 return false;
                             }
                         }
-                        else {
+                        else if (published == BLOCK_SIZE) {
+                            // A block which only filled up after we looked at what is published must be looked at
+                            // again, as otherwise the slots we did not see would be lost.
                             // We're the sole consumer so advancing head_block is a plain store. The old
                             // block goes to the graveyard so any producer that still holds a pointer to
                             // it (e.g. one mid-way through link_next_block) doesn't touch freed memory.
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..4c223a9 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -169,10 +169,14 @@ namespace threading {
                                         return false;
                                     }
                                 }
-                                else if (head.compare_exchange_strong(block,
-                                                                      next,
-                                                                      std::memory_order_release,
-                                                                      std::memory_order_relaxed)) {
+                                else if (published == BLOCK_SIZE
+                                         && head.compare_exchange_strong(block,
+                                                                         next,
+                                                                         std::memory_order_release,
+                                                                         std::memory_order_relaxed)) {
+                                    // A block which only filled up after we looked at what is published must be
+                                    // looked at again, as otherwise the slots we did not see would be lost.
+                                    //
                                     // We won the race to advance head past a fully-drained block, so
                                     // we own its retirement. try_reclaim_block() only retires when it
                                     // wins this same head CAS; without retiring here the block would
-- 
2.43.0


From 7ffa1bcefbfac966221c6d9a86d423dec15f9c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 04/18] fix: never let a group run more tasks than its
 concurrency or lose a waiting task

---
 src/threading/scheduler/CombinedLock.cpp |  20 +-
 src/threading/scheduler/CombinedLock.hpp |   5 +
 src/threading/scheduler/Group.cpp        | 350 ++++++++---------------
 src/threading/scheduler/Group.hpp        |  80 +++---
 src/threading/scheduler/Lock.cpp         |   4 +
 src/threading/scheduler/Lock.hpp         |  14 +
 6 files changed, 201 insertions(+), 272 deletions(-)

diff --git a/src/threading/scheduler/CombinedLock.cpp b/src/threading/scheduler/CombinedLock.cpp
index 263195b..1cd1e6e 100644
--- a/src/threading/scheduler/CombinedLock.cpp
+++ b/src/threading/scheduler/CombinedLock.cpp
@@ -21,6 +21,7 @@
  */
 #include "CombinedLock.hpp"
 
+#include <algorithm>
 #include <memory>
 #include <utility>
 
@@ -35,12 +36,23 @@ namespace threading {
         }
 
         bool CombinedLock::lock() {
+            begin();
+            const bool locked =
+                std::all_of(locks.begin(), locks.end(), [](const std::unique_ptr<Lock>& lock) { return lock->lock(); });
+            end(locked);
+            return locked;
+        }
+
+        void CombinedLock::begin() {
+            for (auto& lock : locks) {
+                lock->begin();
+            }
+        }
+
+        void CombinedLock::end(const bool& keep) {
             for (auto& lock : locks) {
-                if (!lock->lock()) {
-                    return false;
-                }
+                lock->end(keep);
             }
-            return true;
         }
 
         void CombinedLock::add(std::unique_ptr<Lock>&& lock) {
diff --git a/src/threading/scheduler/CombinedLock.hpp b/src/threading/scheduler/CombinedLock.hpp
index b1ed515..4a25414 100644
--- a/src/threading/scheduler/CombinedLock.hpp
+++ b/src/threading/scheduler/CombinedLock.hpp
@@ -50,9 +50,14 @@ namespace threading {
             /**
              * Returns the aggregate status of all the locks.
              *
+             * Either all of the locks are acquired or none of them are, so while this fails it does not keep any of its
+             * locks from the tasks that this one has to wait for.
+             *
              * @return true if all of the component locks return true, false otherwise.
              */
             bool lock() override;
+            void begin() override;
+            void end(const bool& keep) override;
 
             /**
              * Adds a new lock to the combined lock.
diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..332ef35 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -59,73 +59,19 @@ namespace threading {
             : group(group), handle(std::move(handle)) {}
 
         Group::GroupLock::~GroupLock() {
-            std::vector<std::shared_ptr<LockHandle>> to_notify;
-            bool removed_from_queue = false;
-            bool was_locked         = false;
-            int prev_tokens         = 0;
-
+            Wake wake;
             /*mutex scope*/ {
                 const std::lock_guard<std::mutex> lock(group.mutex);
+                group.queue.erase(std::find(group.queue.begin(), group.queue.end(), handle));
                 if (handle->locked) {
-                    handle->locked = false;
-                    prev_tokens    = group.tokens.fetch_add(1, std::memory_order_acq_rel);
-                    was_locked     = true;
-                }
-
-                auto it = std::find(group.queue.begin(), group.queue.end(), handle);
-                if (it != group.queue.end()) {
-                    group.queue.erase(it);
-                    removed_from_queue = true;
+                    group.tokens.fetch_add(1);
                 }
-
-                int free_tokens = group.tokens.load(std::memory_order_relaxed);
-                for (const auto& h : group.queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
-                    }
-                }
-            }
-
-            if (removed_from_queue) {
-                group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
-            }
-
-            for (const auto& h : to_notify) {
-                h->notify();
-            }
-
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
-            if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
-            }
-
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
+                else {
+                    group.waiting.fetch_sub(1);
                 }
+                wake = group.hand_out();
             }
+            group.dispatch(std::move(wake));
         }
 
         bool Group::GroupLock::lock() {
@@ -133,210 +79,156 @@ namespace threading {
                 return true;
             }
 
-            const std::lock_guard<std::mutex> lock(group.mutex);
+            const auto lock =
+                held.owns_lock() ? std::unique_lock<std::mutex>() : std::unique_lock<std::mutex>(group.mutex);
+            if (!group.take_token(group.waiting_before(*handle))) {
+                // We must be notified again once there may be a token, even if we were notified before
+                handle->notified = false;
+                return false;
+            }
+            handle->locked = true;
+            group.waiting.fetch_sub(1);
+            return true;
+        }
 
-            int free = group.tokens.load(std::memory_order_relaxed);
-            for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
+        void Group::GroupLock::begin() {
+            held = std::unique_lock<std::mutex>(group.mutex);
+        }
 
-                if (free < 0) {
-                    return false;
-                }
-                if (h == handle) {
-                    handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
-                    return true;
-                }
+        void Group::GroupLock::end(const bool& keep) {
+            // As the mutex was held since the token was taken, nothing that waits can have missed it
+            if (!keep && handle->locked) {
+                handle->locked = false;
+                group.waiting.fetch_add(1);
+                group.tokens.fetch_add(1);
             }
-
-            return false;
+            held.unlock();
         }
 
         Group::Group(std::shared_ptr<const util::GroupDescriptor> descriptor)
             : descriptor(std::move(descriptor)), tokens(this->descriptor->concurrency) {}
 
-        Group::~Group() {
-            // Drain any waiters still parked in the fast-path buckets. WaitEntry holds an
-            // ExternalWaiterRegistration that unregisters from the pool on destruction.
-            WaitEntry entry;
-            for (auto& bucket : wait_buckets) {
-                while (bucket.try_dequeue(entry)) {
-                    entry = WaitEntry{};
-                }
-            }
-        }
+        // Any tasks which are still parked are destroyed with the group, which unregisters them from their pool
+        Group::~Group() = default;
 
         std::unique_ptr<Lock> Group::try_acquire_running_lock() {
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
+            // Don't jump ahead of anything that is waiting for a token
+            if (waiting.load() > 0 || !take_token(0)) {
                 return nullptr;
             }
-            int expected = tokens.load(std::memory_order_acquire);
-            while (expected > 0) {
-                if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        // A multi-group waiter slipped in; restore the token and back off.
-                        release_token();
-                        return nullptr;
-                    }
-                    return make_running_lock();
-                }
-            }
-            return nullptr;
+            return make_running_lock();
         }
 
         bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
-                    }
-                }
+            if (auto running_lock = try_acquire_running_lock()) {
+                pool->submit({std::move(task), std::move(running_lock)}, clear_idle);
+                return true;
             }
 
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
-            return false;
-        }
-
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
-            const std::size_t bucket = queue::priority_index(task->priority);
-            ExternalWaiterRegistration external_waiter;
+            // There is no token for this task yet, so park it until it is given one
+            WaitEntry entry;
+            entry.pool       = pool;
+            entry.clear_idle = clear_idle;
             if (pool != nullptr) {
-                external_waiter = pool->register_external_waiter();
-            }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
-        }
-
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
+                entry.external_waiter = pool->register_external_waiter();
             }
+            auto& bucket = parked[queue::priority_index(task->priority)];
+            entry.task   = std::move(task);
 
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
+            Wake wake;
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                // Tasks which were created at the same time by several threads may get here in any order
+                const auto position = std::upper_bound(
+                    bucket.begin(),
+                    bucket.end(),
+                    entry.task->id,
+                    [](const NUClear::id_t& id, const WaitEntry& other) { return id < other.task->id; });
+                bucket.insert(position, std::move(entry));
+                waiting.fetch_add(1);
+                // A token which was released before we were counted as waiting has not been handed to anyone
+                wake = hand_out();
             }
+            dispatch(std::move(wake));
+            return false;
+        }
 
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
+        void Group::release_token() {
+            tokens.fetch_add(1);
+            if (waiting.load() > 0) {
+                Wake wake;
+                /*mutex scope*/ {
+                    const std::lock_guard<std::mutex> lock(mutex);
+                    wake = hand_out();
                 }
+                dispatch(std::move(wake));
             }
-
-            // The destination pool's "pending idle" latch was set by register_external_waiter
-            // above; that path also notifies one waiting worker so a pool that is parked on its
-            // condition variable can act on the latch immediately. See Pool::register_external_waiter
-            // and Pool::get_task for the full mechanism (it preserves the OLD scheduler's invariant
-            // that a parked waiter always triggered exactly one idle fire on its destination pool,
-            // even when the worker is preempted past the natural idle window).
         }
 
-        void Group::release_token() noexcept {
-            const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
-
-            // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
-            // That waiter committed before any slow waiter and now owns the slot we just freed, so it
-            // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
-            if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
+        bool Group::take_token(const int& reserved) noexcept {
+            int available = tokens.load();
+            while (available > reserved) {
+                if (tokens.compare_exchange_weak(available, available - 1)) {
+                    return true;
                 }
-                return;
             }
+            return false;
+        }
 
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                notify_slow_path();
-                return;
-            }
+        bool Group::before(const ReactionTask& task, const LockHandle& handle) {
+            return task.priority == handle.priority ? task.id < handle.task_id : task.priority > handle.priority;
+        }
 
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
+        int Group::waiting_before(const LockHandle& handle) const {
+            const auto locks     = std::count_if(queue.begin(), queue.end(), [&](const std::shared_ptr<LockHandle>& h) {
+                return !h->locked && *h < handle;
+            });
+            std::ptrdiff_t tasks = 0;
+            for (const auto& bucket : parked) {
+                tasks += std::count_if(bucket.begin(), bucket.end(), [&](const WaitEntry& entry) {
+                    return before(*entry.task, handle);
+                });
             }
+            return static_cast<int>(locks + tasks);
         }
 
-        void Group::notify_slow_path() noexcept {
-            std::vector<std::shared_ptr<LockHandle>> to_notify;
-            /*mutex scope*/ {
-                const std::lock_guard<std::mutex> lock(mutex);
-                int free_tokens = tokens.load(std::memory_order_relaxed);
-                for (const auto& h : queue) {
-                    free_tokens -= h->locked ? 0 : 1;
-                    if (free_tokens >= 0 && !h->locked && !h->notified) {
-                        h->notified = true;
-                        to_notify.push_back(h);
+        Group::Wake Group::hand_out() {
+            Wake wake;
+
+            // Give a token to each parked task for which there is one once the locks before it have had theirs
+            bool available = true;
+            for (auto& bucket : parked) {
+                while (available && !bucket.empty()) {
+                    const auto locks = std::count_if(queue.begin(), queue.end(), [&](const auto& h) {
+                        return !h->locked && !before(*bucket.front().task, *h);
+                    });
+                    available        = take_token(static_cast<int>(locks));
+                    if (available) {
+                        wake.tasks.push_back(std::move(bucket.front()));
+                        bucket.pop_front();
+                        waiting.fetch_sub(1);
                     }
                 }
             }
-            for (const auto& h : to_notify) {
-                h->notify();
+
+            // Notify the locks which could now get a token
+            for (const auto& h : queue) {
+                if (!h->locked && !h->notified && tokens.load() > waiting_before(*h)) {
+                    h->notified = true;
+                    wake.locks.push_back(h);
+                }
             }
+
+            return wake;
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
-            WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
-                    Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
-                }
+        void Group::dispatch(Wake&& wake) {
+            for (auto& entry : wake.tasks) {
+                entry.pool->submit({std::move(entry.task), make_running_lock()}, entry.clear_idle, /*force=*/true);
+            }
+            for (const auto& h : wake.locks) {
+                h->notify();
             }
-            return {};
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
@@ -349,15 +241,13 @@ namespace threading {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
-            slow_pending.fetch_add(1, std::memory_order_acq_rel);
-
             const std::lock_guard<std::mutex> lock(mutex);
             queue.insert(std::lower_bound(queue.begin(), queue.end(), handle), handle);
+            waiting.fetch_add(1);
 
-            int free = tokens.load(std::memory_order_relaxed);
+            // Those that could no longer be locked as this lock is before them must be notified again
             for (const auto& h : queue) {
-                free -= h->locked ? 0 : 1;
-                if (free < 0) {
+                if (!h->locked && tokens.load() <= waiting_before(*h)) {
                     h->notified = false;
                 }
             }
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..a514301 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -24,6 +24,7 @@
 
 #include <array>
 #include <atomic>
+#include <deque>
 #include <functional>
 #include <memory>
 #include <mutex>
@@ -33,7 +34,6 @@
 #include "Lock.hpp"
 #include "Pool.hpp"
 #include "queue/Priority.hpp"
-#include "queue/TaskQueue.hpp"
 
 namespace NUClear {
 namespace threading {
@@ -50,12 +50,15 @@ namespace threading {
          * They are identified by having a common group id along with a maximum concurrency.
          * This class holds the structures that manage the group.
          *
-         * Tasks submitted through the scheduler fast path use lock-free waiter buckets.
-         * The lock() API uses a mutex-protected sorted queue for multi-group and unit-test use.
+         * A token is held by each task of the group from before it is runnable until it has finished. While nothing is
+         * waiting for a token, tasks which are only in this group take and release tokens without locking.
+         * Otherwise tokens are handed out under a mutex in the order of priority and task id, both to the tasks that
+         * are parked in this group and to the locks made by the lock() API for multi-group and unit-test use.
          */
         class Group : public std::enable_shared_from_this<Group> {
 
         private:
+            /// A task that is parked until it is given a token
             struct WaitEntry {
                 std::unique_ptr<ReactionTask> task;
                 /// Non-owning pointer; Pools live for the lifetime of the Scheduler and the
@@ -63,26 +66,10 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -183,11 +170,16 @@ namespace threading {
                  */
                 bool lock() override;
 
+                void begin() override;
+                void end(const bool& keep) override;
+
             private:
                 /// The group this lock is for
                 Group& group;
                 /// The shared state between the group object and the lock objects
                 std::shared_ptr<LockHandle> handle;
+                /// The mutex of the group while it is held between begin() and end()
+                std::unique_lock<std::mutex> held;
             };
 
             /**
@@ -198,10 +190,9 @@ namespace threading {
             explicit Group(std::shared_ptr<const util::GroupDescriptor> descriptor);
 
             /**
-             * Destroy the Group object. Drains any parked waiters in the fast-path buckets so the
-             * `external_waiters` counter on every Pool referenced by a queued WaitEntry is balanced
-             * back to zero; otherwise a Pool worker could spin forever in `get_task()` waiting for
-             * waiters that will never be drained.
+             * Destroy the Group object. Destroys any parked tasks so the `external_waiters` counter on
+             * every Pool referenced by a WaitEntry is balanced back to zero; otherwise a Pool worker could spin forever
+             * in `get_task()` waiting for waiters that will never be drained.
              */
             ~Group();
 
@@ -218,7 +209,7 @@ namespace threading {
             std::unique_ptr<Lock> try_acquire_running_lock();
 
             /**
-             * Try to submit a task through the lock-free fast path.
+             * Try to submit a task through the fast path.
              *
              * If a group token is available the task is submitted to the pool immediately.
              * Otherwise the task is queued until a token is released.
@@ -255,25 +246,38 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
-            void release_token() noexcept;
-            void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+            /// What is to be done once the mutex of the group is released
+            struct Wake {
+                /// Parked tasks that were given a token
+                std::vector<WaitEntry> tasks;
+                /// Locks that may now be obtained
+                std::vector<std::shared_ptr<LockHandle>> locks;
+            };
+
+            /// Gives back a token and hands it to whatever is waiting for it
+            void release_token();
+            /// Takes a token if there are more than `reserved` of them
+            bool take_token(const int& reserved) noexcept;
+            /// If the parked task should be given a token before the lock
+            static bool before(const ReactionTask& task, const LockHandle& handle);
+            /// How many tasks are before this handle for a token. The mutex must be held
+            int waiting_before(const LockHandle& handle) const;
+            /// Hands out the free tokens. The mutex must be held
+            Wake hand_out();
+            /// Submits the tasks and notifies the locks. The mutex must not be held
+            void dispatch(Wake&& wake);
             std::unique_ptr<Lock> make_running_lock();
 
-            /// Available group tokens (signed when waiters are queued on the fast path)
+            /// Available group tokens
             std::atomic<int> tokens;
-            /// Number of unsatisfied slow-path waiters
-            std::atomic<int> slow_pending{0};
-            /// Lock-free wait queues keyed by priority
-            std::array<queue::TaskQueue<WaitEntry>, queue::PRIORITY_BUCKETS> wait_buckets;
+            /// Number of parked tasks and locks which are waiting for a token
+            std::atomic<int> waiting{0};
 
-            /// The mutex which protects the slow-path queue
+            /// The mutex which protects the tasks and locks that are waiting
             std::mutex mutex;
-            /// The queue of tasks for the slow path
+            /// The parked tasks keyed by priority, in the order the tasks were created
+            std::array<std::deque<WaitEntry>, queue::PRIORITY_BUCKETS> parked;
+            /// The locks that exist for this group in the order they should be obtained
             std::vector<std::shared_ptr<LockHandle>> queue;
         };
 
diff --git a/src/threading/scheduler/Lock.cpp b/src/threading/scheduler/Lock.cpp
index 0edb857..15d63c0 100644
--- a/src/threading/scheduler/Lock.cpp
+++ b/src/threading/scheduler/Lock.cpp
@@ -29,6 +29,10 @@ namespace threading {
             return true;
         }
 
+        void Lock::begin() {}
+
+        void Lock::end(const bool& /*keep*/) {}
+
     }  // namespace scheduler
 }  // namespace threading
 }  // namespace NUClear
diff --git a/src/threading/scheduler/Lock.hpp b/src/threading/scheduler/Lock.hpp
index 5f73765..30e8892 100644
--- a/src/threading/scheduler/Lock.hpp
+++ b/src/threading/scheduler/Lock.hpp
@@ -51,6 +51,20 @@ namespace threading {
              * @return True if the lock was successfully acquired, false otherwise.
              */
             virtual bool lock();
+
+            /**
+             * Starts an attempt to acquire several locks together.
+             *
+             * Until end() is called nothing else can acquire what this lock needs.
+             */
+            virtual void begin();
+
+            /**
+             * Ends an attempt to acquire several locks together.
+             *
+             * @param keep If false what was acquired by a call to lock() since begin() is given back.
+             */
+            virtual void end(const bool& keep);
         };
 
     }  // namespace scheduler
-- 
2.43.0


From 4d3cfd9d4a28685e1ade590e2da36ea61832f335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:38 +0000
Subject: [PATCH 05/18] fix: run pool tasks past those whose groups are busy
 and keep a final stop final

---
 src/threading/scheduler/Pool.cpp | 78 ++++++++++++++++++++++----------
 src/threading/scheduler/Pool.hpp | 16 +++++--
 2 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 697fc64..12cc3be 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -114,11 +114,13 @@ namespace threading {
                 std::unique_lock<std::mutex> lock(mutex);
 
                 live = true;
-                accept.store(descriptor->persistent, std::memory_order_release);
+                // Several stops can be in progress at once, an earlier and stronger one must not be undone
+                accept.store(accept.load(std::memory_order_acquire) && descriptor->persistent,
+                             std::memory_order_release);
 
                 switch (type) {
                     case StopType::NORMAL: {
-                        running = descriptor->persistent;
+                        running = running && descriptor->persistent;
                     } break;
                     case StopType::FINAL: {
                         running = false;
@@ -158,7 +160,8 @@ namespace threading {
 
         void Pool::notify(bool clear_idle) {
             const std::lock_guard<std::mutex> lock(mutex);
-            live = true;
+            live          = true;
+            retry_blocked = true;
             if (clear_idle) {
                 pool_idle = nullptr;
             }
@@ -302,23 +305,56 @@ namespace threading {
 
         bool Pool::try_dequeue_task(Task& out) {
             for (std::size_t i = 0; i < queue::PRIORITY_BUCKETS; ++i) {
-                if (buckets[i]->try_dequeue(out)) {
-                    pending_tasks.fetch_sub(1, std::memory_order_release);
-                    return true;
+                auto& blocked = blocked_tasks[i];
+                if (retry_blocked) {
+                    auto it =
+                        std::find_if(blocked.begin(), blocked.end(), [](const Task& t) { return t.lock->lock(); });
+                    if (it != blocked.end()) {
+                        out = std::move(*it);
+                        blocked.erase(it);
+                        pending_tasks.fetch_sub(1, std::memory_order_release);
+                        if (!has_blocked_tasks()) {
+                            // Threads which were not idle because of the blocked tasks may now be idle
+                            condition.notify_all();
+                        }
+                        return true;
+                    }
+                }
+
+                Task task;
+                while (buckets[i]->try_dequeue(task)) {
+                    if (task.lock == nullptr || task.lock->lock()) {
+                        out = std::move(task);
+                        pending_tasks.fetch_sub(1, std::memory_order_release);
+                        return true;
+                    }
+                    // Someone will notify us when the state of its lock changes
+                    blocked.push_back(std::move(task));
                 }
             }
+            retry_blocked = false;
             return false;
         }
 
-        void Pool::drain_queues(std::vector<Task>& out) const {
+        void Pool::drain_queues(std::vector<Task>& out) {
             Task task;
-            for (const auto& bucket : buckets) {
-                while (bucket->try_dequeue(task)) {
+            for (std::size_t i = 0; i < queue::PRIORITY_BUCKETS; ++i) {
+                for (auto& blocked : blocked_tasks[i]) {
+                    out.push_back(std::move(blocked));
+                }
+                blocked_tasks[i].clear();
+                while (buckets[i]->try_dequeue(task)) {
                     out.push_back(std::move(task));
                 }
             }
         }
 
+        bool Pool::has_blocked_tasks() const {
+            return std::any_of(blocked_tasks.begin(), blocked_tasks.end(), [](const std::vector<Task>& tasks) {
+                return !tasks.empty();
+            });
+        }
+
         Pool::Task Pool::get_task() {
             std::unique_lock<std::mutex> lock(mutex);
             while (running || pending_tasks.load(std::memory_order_acquire) > 0
@@ -398,36 +434,28 @@ namespace threading {
                     }
                 }
 
-                bool got = false;
                 if (live) {
                     Task task;
-                    got = try_dequeue_task(task);
-                    if (got) {
-                        if (task.lock == nullptr || task.lock->lock()) {
-                            thread_idle[std::this_thread::get_id()] = nullptr;
-                            pool_idle                               = nullptr;
-                            return task;
-                        }
-                        // The task was dequeued but its lock isn't acquirable. Re-enqueue and
-                        // wait for someone to notify us when the lock state changes.
-                        const std::size_t bucket = queue::priority_index(task.task->priority);
-                        pending_tasks.fetch_add(1, std::memory_order_release);
-                        buckets[bucket]->enqueue(std::move(task));
+                    if (try_dequeue_task(task)) {
+                        thread_idle[std::this_thread::get_id()] = nullptr;
+                        pool_idle                               = nullptr;
+                        return task;
                     }
                 }
                 live = false;
 
                 // Only account for idle when we genuinely found nothing; threads whose locks
                 // fail are not idle, they are blocked waiting for the lock state to change.
-                if (!got) {
+                const bool blocked = has_blocked_tasks();
+                if (!blocked) {
                     auto idle_task = get_idle_task();
                     if (idle_task.task != nullptr) {
                         return idle_task;
                     }
                 }
 
-                condition.wait(lock, [this] {
-                    return live || pending_idle.load(std::memory_order_acquire)
+                condition.wait(lock, [this, blocked] {
+                    return live || (blocked && !has_blocked_tasks()) || pending_idle.load(std::memory_order_acquire)
                            || discard_queues_requested.load(std::memory_order_acquire)
                            || (!running && pending_tasks.load(std::memory_order_acquire) == 0
                                && external_waiters.load(std::memory_order_acquire) == 0);
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index b2004fb..9e49cb2 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -230,9 +230,12 @@ namespace threading {
             /**
              * Try to dequeue a runnable task from the priority buckets.
              *
+             * Tasks whose lock cannot be acquired are set aside (in order) so that they do not prevent the tasks behind
+             * them from running, and are tried again once a lock notifies this pool.
+             *
              * @param out the task to fill if one is available
              *
-             * @return true if a task was dequeued
+             * @return true if a task was dequeued and its lock is held
              */
             bool try_dequeue_task(Task& out);
 
@@ -241,7 +244,10 @@ namespace threading {
              *
              * @param out the drained tasks (destruction deferred by the caller)
              */
-            void drain_queues(std::vector<Task>& out) const;
+            void drain_queues(std::vector<Task>& out);
+
+            /// @return true if there are tasks which were set aside as their lock could not be acquired
+            bool has_blocked_tasks() const;
 
             /**
              * Get an idle task to execute or hold.
@@ -314,7 +320,11 @@ namespace threading {
             /// known to be single-consumer, e.g. MainThread or the Trace pool). The choice
             /// is made at construction based on `descriptor->concurrency`.
             std::array<std::unique_ptr<queue::Queue<Task>>, queue::PRIORITY_BUCKETS> buckets;
-            /// Number of tasks submitted but not yet dequeued
+            /// Tasks for each bucket which were dequeued but whose lock could not be acquired yet
+            std::array<std::vector<Task>, queue::PRIORITY_BUCKETS> blocked_tasks;
+            /// If the locks of the blocked tasks may have become acquirable since they were last tried
+            bool retry_blocked = false;
+            /// Number of tasks submitted but not yet dequeued (including blocked tasks)
             std::atomic<std::size_t> pending_tasks{0};
             /// Number of tasks parked outside the pool (e.g. waiting on a Group token) that point at this pool
             std::atomic<std::size_t> external_waiters{0};
-- 
2.43.0


From 466d10169de78441275ae6be3d61abb6f6abce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 06/18] fix: emit the Shutdown event once however often
 shutdown is requested

---
 src/PowerPlant.cpp | 11 +++++++++--
 src/PowerPlant.hpp |  3 +++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/PowerPlant.cpp b/src/PowerPlant.cpp
index 790eb89..c3dde51 100644
--- a/src/PowerPlant.cpp
+++ b/src/PowerPlant.cpp
@@ -104,8 +104,15 @@ void PowerPlant::submit(std::unique_ptr<threading::ReactionTask>&& task) noexcep
 
 void PowerPlant::shutdown(bool force) {
 
-    // Emit our shutdown event
-    emit(std::make_unique<dsl::word::Shutdown>());
+    // The shutdown event happens once no matter how many times (or from how many threads) shutdown is requested
+    if (!shutting_down.exchange(true)) {
+        // Emit our shutdown event
+        emit(std::make_unique<dsl::word::Shutdown>());
+    }
+    else if (!force) {
+        // Whoever was first will stop the scheduler once the shutdown event has been emitted
+        return;
+    }
 
     // Shutdown the scheduler
     scheduler.stop(force);
diff --git a/src/PowerPlant.hpp b/src/PowerPlant.hpp
index afcf9d9..0ec40de 100644
--- a/src/PowerPlant.hpp
+++ b/src/PowerPlant.hpp
@@ -23,6 +23,7 @@
 #ifndef NUCLEAR_POWER_PLANT_HPP
 #define NUCLEAR_POWER_PLANT_HPP
 
+#include <atomic>
 #include <memory>
 #include <tuple>
 #include <type_traits>
@@ -313,6 +314,8 @@ public:
 
     /// Our TaskScheduler that handles distributing task to the pool threads
     threading::scheduler::Scheduler scheduler;
+    /// If the shutdown event has been (or is being) emitted
+    std::atomic<bool> shutting_down{false};
     /// Our vector of Reactors, will get destructed when this vector is
     std::vector<std::unique_ptr<NUClear::Reactor>> reactors;
     /// Our logger that handles logging messages
-- 
2.43.0


From cd049f22fd71ef7520cfd1c49fad81fc56eaf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:52 +0000
Subject: [PATCH 07/18] fix: Last does not remember missing data as a null
 element

---
 src/dsl/word/Last.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/dsl/word/Last.hpp b/src/dsl/word/Last.hpp
index 49fdaab..1434e87 100644
--- a/src/dsl/word/Last.hpp
+++ b/src/dsl/word/Last.hpp
@@ -52,13 +52,22 @@ namespace dsl {
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(T&& data) : list({std::move(data)}) {}
+            explicit LastItemStorage(T&& data) {
+                // If there is no data then there is nothing to remember
+                if (data) {
+                    list.push_back(std::move(data));
+                }
+            }
             /**
              * Constructs a LastItemStorage object with the given data.
              *
              * @param data The data to store.
              */
-            explicit LastItemStorage(const T& data) : list({data}) {}
+            explicit LastItemStorage(const T& data) {
+                if (data) {
+                    list.push_back(data);
+                }
+            }
 
             /**
              * Converts the stored list to a list of the given type.
-- 
2.43.0


From c58326c486ecc317056a894d840a1acaedd39fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 08/18] fix: concurrent triggers of Single and Buffer no longer
 drop each other

---
 src/dsl/word/Buffer.hpp        |  7 ++++---
 src/threading/Reaction.hpp     |  3 +++
 src/threading/ReactionTask.cpp | 17 +++++++++++++++++
 src/threading/ReactionTask.hpp | 12 ++++++++++++
 4 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/dsl/word/Buffer.hpp b/src/dsl/word/Buffer.hpp
index 8cf395a..a2ac278 100644
--- a/src/dsl/word/Buffer.hpp
+++ b/src/dsl/word/Buffer.hpp
@@ -47,9 +47,10 @@ namespace dsl {
         struct Buffer {
 
             template <typename DSL>
-            static bool precondition(const threading::ReactionTask& task) {
-                // We only run if there are less than the target number of active tasks
-                return task.parent->active_tasks.load(std::memory_order_acquire) < (n + 1);
+            static bool precondition(threading::ReactionTask& task) {
+                // We only run if there are less than the target number of accepted tasks. Tasks which are themselves
+                // about to be dropped don't count, otherwise triggers at the same time could all drop each other
+                return task.reserve(n);
             }
         };
 
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fc8eec2..fad69b2 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -119,6 +119,9 @@ namespace threading {
         /// the number of currently active tasks (existing reaction tasks)
         std::atomic<int> active_tasks{0};
 
+        /// the number of the active tasks which have been accepted by a word which limits how many there can be
+        std::atomic<int> reserved_tasks{0};
+
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
diff --git a/src/threading/ReactionTask.cpp b/src/threading/ReactionTask.cpp
index 5e3eddf..3b829fc 100644
--- a/src/threading/ReactionTask.cpp
+++ b/src/threading/ReactionTask.cpp
@@ -42,9 +42,26 @@ namespace threading {
         // Decrement the number of active tasks
         if (parent != nullptr) {
             parent->active_tasks.fetch_sub(1, std::memory_order_release);
+            if (reserved) {
+                parent->reserved_tasks.fetch_sub(1, std::memory_order_release);
+            }
         }
     }
 
+    bool ReactionTask::reserve(const int& limit) noexcept {
+        auto& places = parent->reserved_tasks;
+        // If another word already took our place then we are included in the count
+        const int allowed = reserved ? limit + 1 : limit;
+        int taken         = places.load(std::memory_order_acquire);
+        while (taken < allowed) {
+            if (reserved || places.compare_exchange_weak(taken, taken + 1, std::memory_order_acq_rel)) {
+                reserved = true;
+                return true;
+            }
+        }
+        return false;
+    }
+
     void ReactionTask::run() noexcept {
         // Update the current task
         auto* t = std::exchange(current_task, this);
diff --git a/src/threading/ReactionTask.hpp b/src/threading/ReactionTask.hpp
index b559d0c..327748d 100644
--- a/src/threading/ReactionTask.hpp
+++ b/src/threading/ReactionTask.hpp
@@ -115,6 +115,15 @@ namespace threading {
          */
         ~ReactionTask();
 
+        /**
+         * Takes one of a limited number of places for the tasks of our reaction, which is held for as long as we exist.
+         *
+         * @param limit The number of places that there are
+         *
+         * @return True if there was a place for this task
+         */
+        bool reserve(const int& limit) noexcept;
+
         /**
          * Runs the internal data bound task.
          */
@@ -134,6 +143,9 @@ namespace threading {
         /// If the task should execute inline
         bool run_inline{false};
 
+        /// If this task holds one of the limited places for tasks of its reaction
+        bool reserved{false};
+
         /// The priority to run this task at
         int priority;
         /// If the task should be executed inline (in the current thread) or not
-- 
2.43.0


From 4775384c73d281f4ad7369ee9725c712c1cef04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 09/18] fix: an unbound reaction makes no more tasks and Once
 runs once

---
 src/dsl/word/Once.hpp      | 6 ++++++
 src/threading/Reaction.cpp | 5 ++++-
 src/threading/Reaction.hpp | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/dsl/word/Once.hpp b/src/dsl/word/Once.hpp
index 7699971..99a732e 100644
--- a/src/dsl/word/Once.hpp
+++ b/src/dsl/word/Once.hpp
@@ -39,6 +39,12 @@ namespace dsl {
          */
         struct Once : Single {
 
+            // A trigger which began before we were unbound may only get its place once the only run has finished
+            template <typename DSL>
+            static bool precondition(threading::ReactionTask& task) {
+                return Single::template precondition<DSL>(task) && task.parent->bound;
+            }
+
             // Post condition to unbind this reaction.
             template <typename DSL>
             static void post_run(threading::ReactionTask& task) {
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..584c482 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -42,7 +42,7 @@ namespace threading {
 
     std::unique_ptr<ReactionTask> Reaction::get_task(const bool& request_inline) {
         // If we are not enabled, don't run
-        if (!enabled) {
+        if (!enabled || !bound) {
             return nullptr;
         }
 
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // An emission which has already found us must not make any more tasks
+        bound = false;
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/threading/Reaction.hpp b/src/threading/Reaction.hpp
index fad69b2..c5464bd 100644
--- a/src/threading/Reaction.hpp
+++ b/src/threading/Reaction.hpp
@@ -125,6 +125,9 @@ namespace threading {
         /// if this reaction object is currently enabled
         std::atomic<bool> enabled{true};
 
+        /// if this reaction object has not been unbound, an unbound reaction cannot be enabled again
+        std::atomic<bool> bound{true};
+
         /// list of functions to use to unbind the reaction and clean
         std::vector<std::function<void(Reaction&)>> unbinders;
 
-- 
2.43.0


From d62edfaa67e2e325a4e44cb31a112a1d0cc926f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 10/18] fix: parked group tasks are ordered by priority as the
 tokens are

---
 src/threading/scheduler/Group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 332ef35..8e86cc1 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -142,8 +142,8 @@ namespace threading {
                 const auto position = std::upper_bound(
                     bucket.begin(),
                     bucket.end(),
-                    entry.task->id,
-                    [](const NUClear::id_t& id, const WaitEntry& other) { return id < other.task->id; });
+                    *entry.task,
+                    [](const ReactionTask& new_task, const WaitEntry& other) { return new_task < *other.task; });
                 bucket.insert(position, std::move(entry));
                 waiting.fetch_add(1);
                 // A token which was released before we were counted as waiting has not been handed to anyone
-- 
2.43.0


From 1532d7ce4a9a31ee5c138e9c3c0c0ca601e20390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 11/18] fix: submitting to a pool which was never created
 before shutdown no longer terminates

---
 src/threading/scheduler/Scheduler.cpp | 29 ++++++++++++++++++---------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index 1419dfe..e69e4ac 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -205,7 +205,9 @@ namespace threading {
                 lock->add(get_group(desc)->lock(task_id, priority, [pool] {
                     const auto current_pool = Pool::current();
                     const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
-                    pool->notify(!current_pool_idle);
+                    if (pool != nullptr) {
+                        pool->notify(!current_pool_idle);
+                    }
                 }));
             }
 
@@ -234,17 +236,22 @@ namespace threading {
             // The cache update is benign-racing: two submitters that miss simultaneously will
             // both call `get_pool()` and store the same pointer; last writer wins, identical
             // value.
-            Pool* pool = nullptr;
-            if (task->parent) {
-                pool = task->parent->scheduler_data.load(std::memory_order_acquire);
-                if (pool == nullptr) {
+            Pool* pool = task->parent ? task->parent->scheduler_data.load(std::memory_order_acquire) : nullptr;
+            if (pool == nullptr) {
+                try {
                     pool = get_pool(task->pool_descriptor).get();
+                }
+                catch (const std::invalid_argument&) {
+                    // The pool was never used before we started shutting down, so there is nothing to run the task
+                    // unless it is able to run inline
+                    if (!task->run_inline) {
+                        return;
+                    }
+                }
+                if (task->parent) {
                     task->parent->scheduler_data.store(pool, std::memory_order_release);
                 }
             }
-            else {
-                pool = get_pool(task->pool_descriptor).get();
-            }
 
             const auto current_pool = Pool::current();
             const bool current_pool_idle = current_pool != nullptr && current_pool->is_idle();
@@ -260,7 +267,9 @@ namespace threading {
                     }
                 }
 
-                group->try_submit(std::move(task), pool, !current_pool_idle);
+                if (pool != nullptr) {
+                    group->try_submit(std::move(task), pool, !current_pool_idle);
+                }
                 return;
             }
 
@@ -270,7 +279,7 @@ namespace threading {
             if (task->run_inline && (group_lock == nullptr || group_lock->lock())) {
                 task->run();
             }
-            else {
+            else if (pool != nullptr) {
                 pool->submit({std::move(task), std::move(group_lock)}, !current_pool_idle);
             }
         }
-- 
2.43.0


From de0b408050dfa00a54d335c252adad3d1c76fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:08 +0000
Subject: [PATCH 12/18] fix: a forced stop discards queued and parked tasks
 without waiting for another thread

---
 src/threading/scheduler/Group.cpp     | 18 ++++++++++
 src/threading/scheduler/Group.hpp     |  7 +++-
 src/threading/scheduler/Pool.cpp      | 51 ++++++++++-----------------
 src/threading/scheduler/Pool.hpp      | 11 +++---
 src/threading/scheduler/Scheduler.cpp | 14 ++++++++
 5 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 8e86cc1..611564a 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -25,6 +25,7 @@
 #include <atomic>
 #include <cstddef>
 #include <functional>
+#include <iterator>
 #include <memory>
 #include <mutex>
 #include <utility>
@@ -125,6 +126,11 @@ namespace threading {
                 return true;
             }
 
+            // The pool will not run any new tasks, so there is nothing to wait for
+            if (pool != nullptr && !pool->accepting()) {
+                return false;
+            }
+
             // There is no token for this task yet, so park it until it is given one
             WaitEntry entry;
             entry.pool       = pool;
@@ -153,6 +159,18 @@ namespace threading {
             return false;
         }
 
+        void Group::discard() {
+            std::vector<WaitEntry> discarded;
+            /*mutex scope*/ {
+                const std::lock_guard<std::mutex> lock(mutex);
+                for (auto& bucket : parked) {
+                    waiting.fetch_sub(static_cast<int>(bucket.size()));
+                    std::move(bucket.begin(), bucket.end(), std::back_inserter(discarded));
+                    bucket.clear();
+                }
+            }
+        }
+
         void Group::release_token() {
             tokens.fetch_add(1);
             if (waiting.load() > 0) {
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index a514301..057e325 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -212,7 +212,7 @@ namespace threading {
              * Try to submit a task through the fast path.
              *
              * If a group token is available the task is submitted to the pool immediately.
-             * Otherwise the task is queued until a token is released.
+             * Otherwise the task is queued until a token is released, or dropped if the pool is not accepting tasks.
              *
              * @param task       the reaction task to submit
              * @param pool       the pool to submit to when runnable (non-owning; must outlive the call)
@@ -222,6 +222,11 @@ namespace threading {
              */
             bool try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle);
 
+            /**
+             * Discard every task which is parked waiting for a token.
+             */
+            void discard();
+
             /**
              * This function will create a new lock for the task and return it.
              *
diff --git a/src/threading/scheduler/Pool.cpp b/src/threading/scheduler/Pool.cpp
index 12cc3be..662f999 100644
--- a/src/threading/scheduler/Pool.cpp
+++ b/src/threading/scheduler/Pool.cpp
@@ -54,7 +54,8 @@ namespace threading {
             // `concurrency = 1`) only ever have one consumer; use the lighter MPSC queue for them.
             // Pools where the default-pool concurrency may differ from the descriptor's nominal value
             // are conservatively given the MPMC queue.
-            single_consumer = this->descriptor->concurrency == 1 && this->descriptor != dsl::word::Pool<>::descriptor();
+            const bool single_consumer =
+                this->descriptor->concurrency == 1 && this->descriptor != dsl::word::Pool<>::descriptor();
             for (auto& bucket : buckets) {
                 if (single_consumer) {
                     bucket = std::make_unique<queue::MPSCQueue<Task>>();
@@ -131,27 +132,12 @@ namespace threading {
                         accept.store(false, std::memory_order_release);
                         running = false;
 
-                        // MPSC buckets permit only one consumer. A cross-thread FORCE stop (e.g.
-                        // PowerPlant::shutdown(true) from TestBase's timeout thread against a
-                        // MainThread or concurrency-1 pool) must delegate queue draining to that
-                        // worker instead of calling try_dequeue here.
-                        const bool mpsc_consumer_alive =
-                            single_consumer && consumer_thread_id != std::thread::id{};
-                        const bool on_mpsc_consumer =
-                            mpsc_consumer_alive && std::this_thread::get_id() == consumer_thread_id;
-
-                        if (mpsc_consumer_alive && !on_mpsc_consumer) {
-                            discard_queues_requested.store(true, std::memory_order_release);
-                            condition.notify_all();
-                            condition.wait(lock, [this] {
-                                return !discard_queues_requested.load(std::memory_order_acquire);
-                            });
-                            pending_tasks.store(0, std::memory_order_relaxed);
-                        }
-                        else {
-                            drain_queues(drained);
-                            pending_tasks.store(0, std::memory_order_relaxed);
-                        }
+                        // Tasks are only ever dequeued while holding the mutex, so it is safe to drain the queues here
+                        // whichever thread normally consumes them. There is no need to wait for that thread, it may
+                        // have already finished or itself be waiting to stop this thread's pool.
+                        discarding.store(true, std::memory_order_release);
+                        drain_queues(drained);
+                        pending_tasks.store(0, std::memory_order_relaxed);
                     } break;
                 }
                 condition.notify_all();
@@ -176,8 +162,12 @@ namespace threading {
             }
         }
 
+        bool Pool::accepting() const {
+            return accept.load(std::memory_order_acquire);
+        }
+
         void Pool::submit(Task&& task, bool clear_idle, bool force) {
-            if (!force && !accept.load(std::memory_order_acquire)) {
+            if (discarding.load(std::memory_order_acquire) || (!force && !accepting())) {
                 return;
             }
 
@@ -288,7 +278,6 @@ namespace threading {
         }
 
         void Pool::run() {
-            consumer_thread_id = std::this_thread::get_id();
             Pool::current_pool = this;
             try {
                 while (true) {
@@ -298,7 +287,6 @@ namespace threading {
             }
             catch (const ShutdownThreadException&) {
                 Pool::current_pool = nullptr;
-                consumer_thread_id = std::thread::id{};
                 return;
             }
         }
@@ -358,18 +346,15 @@ namespace threading {
         Pool::Task Pool::get_task() {
             std::unique_lock<std::mutex> lock(mutex);
             while (running || pending_tasks.load(std::memory_order_acquire) > 0
-                   || external_waiters.load(std::memory_order_acquire) > 0
-                   || discard_queues_requested.load(std::memory_order_acquire)) {
-                if (discard_queues_requested.load(std::memory_order_acquire)) {
+                   || external_waiters.load(std::memory_order_acquire) > 0) {
+                if (discarding.load(std::memory_order_acquire)) {
+                    // Anything which was submitted as we were being forced to stop is discarded too
                     std::vector<Task> discarded;
                     drain_queues(discarded);
                     pending_tasks.store(0, std::memory_order_relaxed);
-                    discard_queues_requested.store(false, std::memory_order_release);
-                    condition.notify_all();
                     lock.unlock();
                     discarded.clear();
-                    lock.lock();
-                    continue;
+                    throw ShutdownThreadException();
                 }
 
                 // A waiter was parked for this pool since the last time this worker looked, so it
@@ -456,7 +441,7 @@ namespace threading {
 
                 condition.wait(lock, [this, blocked] {
                     return live || (blocked && !has_blocked_tasks()) || pending_idle.load(std::memory_order_acquire)
-                           || discard_queues_requested.load(std::memory_order_acquire)
+                           || discarding.load(std::memory_order_acquire)
                            || (!running && pending_tasks.load(std::memory_order_acquire) == 0
                                && external_waiters.load(std::memory_order_acquire) == 0);
                 });
diff --git a/src/threading/scheduler/Pool.hpp b/src/threading/scheduler/Pool.hpp
index 9e49cb2..44c577b 100644
--- a/src/threading/scheduler/Pool.hpp
+++ b/src/threading/scheduler/Pool.hpp
@@ -150,6 +150,9 @@ namespace threading {
              */
             void join() const;
 
+            /// @return True if this pool is accepting new tasks
+            bool accepting() const;
+
             /**
              * Submit a new task to this thread pool
              *
@@ -358,12 +361,8 @@ namespace threading {
             bool idle_relevant() const;
             /// A boolean which is set to true when the queue is modified and set to false when there was no work to do
             bool live = true;
-            /// True when this pool's buckets use MPSCQueue (single consumer).
-            bool single_consumer = false;
-            /// Worker thread that owns MPSC dequeue; default until run() sets it.
-            std::thread::id consumer_thread_id;
-            /// Set by a non-consumer FORCE stop to request the worker discard queued tasks.
-            std::atomic<bool> discard_queues_requested{false};
+            /// Set by a FORCE stop, from then on any task in the queues is discarded
+            std::atomic<bool> discarding{false};
 
             /// The mutex which protects idle tasks and the live flag
             mutable std::mutex mutex;
diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index e69e4ac..bdd73fb 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -118,6 +118,20 @@ namespace threading {
             for (const auto& pool : pools_to_stop) {
                 pool->stop(force ? Pool::StopType::FORCE : Pool::StopType::NORMAL);
             }
+
+            // The tasks which are waiting for a group are not in any pool yet
+            if (force) {
+                std::vector<std::shared_ptr<Group>> groups_to_discard;
+                /*mutex scope*/ {
+                    const std::lock_guard<std::mutex> lock(groups_mutex);
+                    for (const auto& group : groups) {
+                        groups_to_discard.push_back(group.second);
+                    }
+                }
+                for (const auto& group : groups_to_discard) {
+                    group->discard();
+                }
+            }
         }
 
         void Scheduler::add_idle_task(const std::shared_ptr<Reaction>& reaction,
-- 
2.43.0


From 9b46c1df0c234aa8c05c443b6e1ee070cbe56828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:42 +0000
Subject: [PATCH 13/18] fix: discard tasks left in a queue before their groups
 are destroyed

---
 src/threading/scheduler/Scheduler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/threading/scheduler/Scheduler.cpp b/src/threading/scheduler/Scheduler.cpp
index bdd73fb..d59b5de 100644
--- a/src/threading/scheduler/Scheduler.cpp
+++ b/src/threading/scheduler/Scheduler.cpp
@@ -49,6 +49,10 @@ namespace threading {
         }
 
         Scheduler::~Scheduler() {
+            // A task that was being submitted as its pool stopped can still be in a queue. Discard those tasks now as
+            // they hold the locks of groups, which are destroyed before the pools are.
+            stop(true);
+
             // The constructor installed a non-owning pointer to the main thread pool in this thread's
             // Pool::current_pool. Our pools are about to be destroyed, so leave no dangling pointer behind for
             // any later Pool::current() call on this thread (shared_from_this() on a destroyed pool is undefined
-- 
2.43.0


From 1b32145893061f91d524592ea91e079796e28a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 14/18] fix: reactions of one reactor can be bound from several
 threads at once

---
 src/Reactor.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Reactor.hpp b/src/Reactor.hpp
index f90a464..db6ce4d 100644
--- a/src/Reactor.hpp
+++ b/src/Reactor.hpp
@@ -185,6 +185,7 @@ public:
     }
 
 private:
+    std::mutex reaction_handles_mutex;
     std::vector<threading::ReactionHandle> reaction_handles;
 
 public:
@@ -381,7 +382,11 @@ public:
             auto tuple = DSL::bind(reaction, std::move(std::get<Index>(args))...);
 
             auto handle = threading::ReactionHandle(reaction);
-            reactor.reaction_handles.push_back(handle);
+            /*mutex scope*/ {
+                // Reactions can be bound from any thread
+                const std::lock_guard<std::mutex> lock(reactor.reaction_handles_mutex);
+                reactor.reaction_handles.push_back(handle);
+            }
 
             // Return the arguments to the user (if there is only 1 we unwrap it for them since this is the most common
             // case)
-- 
2.43.0


From 53c243b6082421d51a29cbd19d82c8fd097f74f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 15/18] fix: run chrono tasks without holding the lock so
 inline reactions can add or remove timers

---
 src/extension/ChronoController.cpp | 57 ++++++++++++++++++++++++------
 src/extension/ChronoController.hpp | 13 +++++++
 2 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index b42859b..9beb1ce 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -25,8 +25,10 @@
 #include <algorithm>
 #include <atomic>
 #include <chrono>
+#include <exception>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <utility>
 
 #include "../Reactor.hpp"
@@ -79,7 +81,13 @@ namespace extension {
             "Unbind Chrono Task",
             [this](const dsl::operation::Unbind<ChronoTask>& unbind) {
                 // Lock the mutex while we're doing stuff
-                const std::lock_guard<std::mutex> lock(mutex);
+                std::unique_lock<std::mutex> lock(mutex);
+
+                // If this task is running right now it must not be put back, and it must be done before we return
+                if (current != nullptr && current->id == unbind.id) {
+                    current_unbound = true;
+                    wait_for_current(lock);
+                }
 
                 // Find the task
                 auto it = std::find_if(tasks.begin(), tasks.end(), [&](const ChronoTask& task) {
@@ -104,7 +112,10 @@ namespace extension {
         });
 
         on<Trigger<message::TimeTravel>>().then("Time Travel", [this](const message::TimeTravel& travel) {
-            const std::lock_guard<std::mutex> lock(mutex);
+            std::unique_lock<std::mutex> lock(mutex);
+
+            // The time of a running task can not be changed from another thread
+            wait_for_current(lock);
 
             // Adjust clock to target time and leave chrono tasks where they are
             switch (travel.type) {
@@ -115,6 +126,9 @@ namespace extension {
                     for (auto& task : tasks) {
                         task.time += adjustment;
                     }
+                    if (current != nullptr) {
+                        current->time += adjustment;
+                    }
 
                 } break;
                 case message::TimeTravel::Action::NEAREST: {
@@ -145,19 +159,37 @@ namespace extension {
                     auto target = tasks.front().time;
 
                     if (target <= start) {
-                        // Run our task and if it returns false remove it
-                        const bool renew = tasks.front()();
-
-                        // Move this to the back of the list
+                        // Take the task off the list and run it without holding the lock, as it might run reactions
+                        // inline which add, remove or time travel chrono tasks themselves
                         std::pop_heap(tasks.begin(), tasks.end(), std::greater<>());
+                        ChronoTask task = std::move(tasks.back());
+                        tasks.pop_back();
+                        current         = &task;
+                        current_thread  = std::this_thread::get_id();
+                        current_unbound = false;
+                        lock.unlock();
+
+                        bool renew = false;
+                        std::exception_ptr error;
+                        try {
+                            renew = task();
+                        }
+                        catch (...) {
+                            // A task that fails does not get to run again
+                            error = std::current_exception();
+                        }
 
-                        if (renew) {
+                        lock.lock();
+                        if (renew && !current_unbound) {
                             // Put the item back in the list
+                            tasks.push_back(std::move(task));
                             std::push_heap(tasks.begin(), tasks.end(), std::greater<>());
                         }
-                        else {
-                            // Remove the item from the list
-                            tasks.pop_back();
+                        current = nullptr;
+                        wait.notify_all();
+
+                        if (error) {
+                            std::rethrow_exception(error);
                         }
                     }
                     else {
@@ -202,5 +234,10 @@ namespace extension {
         });
     }
 
+    void ChronoController::wait_for_current(std::unique_lock<std::mutex>& lock) {
+        // A task running on this thread can't finish while we wait for it
+        wait.wait(lock, [this] { return current == nullptr || current_thread == std::this_thread::get_id(); });
+    }
+
 }  // namespace extension
 }  // namespace NUClear
diff --git a/src/extension/ChronoController.hpp b/src/extension/ChronoController.hpp
index e3954f6..824d431 100644
--- a/src/extension/ChronoController.hpp
+++ b/src/extension/ChronoController.hpp
@@ -37,8 +37,21 @@ namespace extension {
         explicit ChronoController(std::unique_ptr<NUClear::Environment> environment);
 
     private:
+        /**
+         * Wait until no task is running on another thread.
+         *
+         * @param lock The lock that is held on the mutex
+         */
+        void wait_for_current(std::unique_lock<std::mutex>& lock);
+
         /// The list of tasks we need to process
         std::vector<dsl::operation::ChronoTask> tasks;
+        /// The task that is running now, or nullptr if there is none
+        ChronoTask* current{nullptr};
+        /// The thread that is running the current task
+        std::thread::id current_thread;
+        /// If the current task was unbound while it was running
+        bool current_unbound{false};
         /// The mutex we use to lock the task list
         std::mutex mutex;
         /// The condition variable we use to wait on
-- 
2.43.0


From b0bf8ad6959b4fddbb6f8fce0c08e470cf4e4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 16/18] fix: don't sleep until the next timer when shutdown is
 requested just before the chrono controller waits

---
 src/extension/ChronoController.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index 9beb1ce..fe4d959 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -150,6 +150,11 @@ namespace extension {
                 // Acquire the mutex lock so we can wait on it
                 std::unique_lock<std::mutex> lock(mutex);
 
+                // If we were told to stop before we had the lock, the notification for it has already happened
+                if (!running.load(std::memory_order_acquire)) {
+                    break;
+                }
+
                 // If we have no chrono tasks wait until we are notified
                 if (tasks.empty()) {
                     wait.wait(lock, [this] { return !running.load(std::memory_order_acquire) || !tasks.empty(); });
-- 
2.43.0


From 6881922a1358269fff0a440a354e0396840b1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:33 +0000
Subject: [PATCH 17/18] fix: removing a watchdog leaves others of the same
 group and key working

---
 src/dsl/word/Watchdog.hpp | 49 +++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/dsl/word/Watchdog.hpp b/src/dsl/word/Watchdog.hpp
index f2b2ac7..64ff436 100644
--- a/src/dsl/word/Watchdog.hpp
+++ b/src/dsl/word/Watchdog.hpp
@@ -37,6 +37,16 @@ namespace NUClear {
 namespace dsl {
     namespace word {
 
+        /**
+         * The service state shared by every watchdog that is bound with the same group and runtime argument.
+         */
+        struct WatchdogState {
+            /// The time the watchdogs were last serviced
+            NUClear::clock::time_point service_time;
+            /// The number of watchdogs using this state
+            int watchdogs{0};
+        };
+
         /**
          * Handles the data store for the case when runtime arguments specified.
          *
@@ -51,7 +61,7 @@ namespace dsl {
         template <typename WatchdogGroup, typename RuntimeType = void>
         struct WatchdogDataStore {
             using MapType       = std::remove_cv_t<RuntimeType>;
-            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, NUClear::clock::time_point>>;
+            using WatchdogStore = util::TypeMap<WatchdogGroup, MapType, std::map<MapType, WatchdogState>>;
 
             /**
              * Mutex protecting structural and value updates to the underlying map for this
@@ -73,11 +83,12 @@ namespace dsl {
             static void init(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<std::map<MapType, NUClear::clock::time_point>>());
+                    WatchdogStore::set(std::make_shared<std::map<MapType, WatchdogState>>());
                 }
                 if (WatchdogStore::get()->count(data) == 0) {
-                    WatchdogStore::get()->insert({data, NUClear::clock::now()});
+                    WatchdogStore::get()->insert({data, WatchdogState{NUClear::clock::now(), 0}});
                 }
+                ++WatchdogStore::get()->at(data).watchdogs;
             }
 
             /**
@@ -95,7 +106,7 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return WatchdogStore::get()->at(data);
+                return WatchdogStore::get()->at(data).service_time;
             }
 
             /**
@@ -111,17 +122,18 @@ namespace dsl {
                                             + util::demangle(typeid(MapType).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                WatchdogStore::get()->at(data) = when;
+                WatchdogStore::get()->at(data).service_time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog
+             * Cleans up any allocated storage for the WatchdogGroup/RuntimeType/data watchdog once its last user is gone
              *
              * @param data The runtime argument for the current watchdog in the WatchdogGroup/RuntimeType group
              */
             static void unbind(const RuntimeType& data) {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
+                if (WatchdogStore::get() != nullptr && WatchdogStore::get()->count(data) != 0
+                    && --WatchdogStore::get()->at(data).watchdogs == 0) {
                     WatchdogStore::get()->erase(data);
                 }
             }
@@ -138,7 +150,7 @@ namespace dsl {
          */
         template <typename WatchdogGroup>
         struct WatchdogDataStore<WatchdogGroup, void> {
-            using WatchdogStore = util::TypeMap<WatchdogGroup, void, NUClear::clock::time_point>;
+            using WatchdogStore = util::TypeMap<WatchdogGroup, void, WatchdogState>;
 
             /// See the documentation on the runtime-arg specialisation.
             static std::mutex& mutex() {
@@ -152,8 +164,9 @@ namespace dsl {
             static void init() {
                 const std::lock_guard<std::mutex> lock(mutex());
                 if (WatchdogStore::get() == nullptr) {
-                    WatchdogStore::set(std::make_shared<NUClear::clock::time_point>(NUClear::clock::now()));
+                    WatchdogStore::set(std::make_shared<WatchdogState>(WatchdogState{NUClear::clock::now(), 0}));
                 }
+                ++WatchdogStore::get()->watchdogs;
             }
 
             /**
@@ -168,7 +181,7 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> is trying to field a service call for an unknown data type");
                 }
-                return *WatchdogStore::get();
+                return WatchdogStore::get()->service_time;
             }
 
             /**
@@ -180,16 +193,16 @@ namespace dsl {
                     throw std::domain_error("Store for <" + util::demangle(typeid(WatchdogGroup).name())
                                             + "> has not been created yet or no watchdog has been set up");
                 }
-                *WatchdogStore::get() = when;
+                WatchdogStore::get()->service_time = when;
             }
 
             /**
-             * Cleans up any allocated storage for the WatchdogGroup watchdog.
+             * Cleans up any allocated storage for the WatchdogGroup watchdog once its last user is gone.
              */
             static void unbind() {
                 const std::lock_guard<std::mutex> lock(mutex());
-                if (WatchdogStore::get() != nullptr) {
-                    WatchdogStore::get().reset();
+                if (WatchdogStore::get() != nullptr && --WatchdogStore::get()->watchdogs == 0) {
+                    WatchdogStore::set(nullptr);
                 }
             }
         };
@@ -270,9 +283,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([data](const threading::Reaction& r) {
-                    // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
+                    // Remove the active service time from the data store now that nothing checks it
+                    WatchdogDataStore<WatchdogGroup, RuntimeType>::unbind(data);
                 });
 
                 // Send our configuration out
@@ -297,9 +310,9 @@ namespace dsl {
 
                 // Create our unbinder
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    // Remove the active service time from the data store
-                    WatchdogDataStore<WatchdogGroup>::unbind();
                     r.reactor.emit<emit::Inline>(std::make_unique<operation::Unbind<operation::ChronoTask>>(r.id));
+                    // Remove the active service time from the data store now that nothing checks it
+                    WatchdogDataStore<WatchdogGroup>::unbind();
                 });
 
                 // Send our configuration out
-- 
2.43.0


From a6fd43f0badfe2841f2d5d45eaaab6e8cbcc7ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:14 +0000
Subject: [PATCH 18/18] fix: measure the chrono controller's wait accuracy in
 real time so time travel does not ruin it

---
 src/extension/ChronoController.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/extension/ChronoController.cpp b/src/extension/ChronoController.cpp
index fe4d959..b7458f1 100644
--- a/src/extension/ChronoController.cpp
+++ b/src/extension/ChronoController.cpp
@@ -207,11 +207,15 @@ namespace extension {
                         }
                         else if (time_until_task > cv_accuracy) {  // A long time in the future
                             // Wait on the cv
-                            wait.wait_for(lock, time_until_task - cv_accuracy);
+                            // Measured in real time as the system clock could be adjusted while we wait
+                            const NUClear::clock::duration wait_time = time_until_task - cv_accuracy;
+                            const auto wait_start                    = std::chrono::steady_clock::now();
+                            wait.wait_for(lock, wait_time);
 
                             // Update the accuracy of our cv wait
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - cv_accuracy);  // when ended - when wanted to end
+                            const auto error = std::chrono::duration_cast<NUClear::clock::duration>(
+                                                   std::chrono::steady_clock::now() - wait_start)
+                                               - wait_time;  // how long we waited - how long we wanted to wait
                             if (error.count() > 0) {                          // only if we were late
                                 cv_accuracy = error > cv_accuracy ? error : ((cv_accuracy * 99 + error) / 100);
                             }
@@ -219,11 +223,13 @@ namespace extension {
                         else if (time_until_task > ns_accuracy) {  // Somewhat close in time
                             // Wait on nanosleep
                             const NUClear::clock::duration sleep_time = time_until_task - ns_accuracy;
+                            const auto sleep_start                    = std::chrono::steady_clock::now();
                             util::precise_sleep(sleep_time);
 
                             // Update the accuracy of our precise sleep
-                            const auto end   = NUClear::clock::now();
-                            const auto error = end - (target - ns_accuracy);  // when ended - when wanted to end
+                            const auto error = std::chrono::duration_cast<NUClear::clock::duration>(
+                                                   std::chrono::steady_clock::now() - sleep_start)
+                                               - sleep_time;  // how long we slept - how long we wanted to sleep
                             if (error.count() > 0) {                          // only if we were late
                                 ns_accuracy = error > ns_accuracy ? error : ((ns_accuracy * 99 + error) / 100);
                             }
-- 
2.43.0

