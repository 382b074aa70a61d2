From 06250ed877a3dc9c848b70de75524e3929364477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 01/19] fix: hand a notification over when its waiter timed out

A fiber blocked with a deadline might be taken from the waiting-queue by
notify_one() but be resumed only after the deadline has expired. It then
reports a timeout without consuming the notification, so that other
waiters (e.g. timed_mutex::lock()) were never resumed.
---
 src/waker.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/waker.cpp b/src/waker.cpp
index 1444dea..30b09b9 100644
--- a/src/waker.cpp
+++ b/src/waker.cpp
@@ -36,9 +36,14 @@ wait_queue::suspend_and_wait_until( detail::spinlock_lock & lk,
                 break;
             active_ctx->yield();            
         }
-        // remove from waiting-queue
         if ( w.is_linked()) {
+            // remove from waiting-queue
             slist_.remove( w);
+        } else {
+            // already taken from the waiting-queue by a notification
+            // which is not consumed by this (timed-out) waiter:
+            // hand it over to the next one
+            notify_one();
         }
         lk.unlock();
         return false;
-- 
2.43.0


From 5419d1229213c84401991c141e47fdfc6c87570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 02/19] fix: unbuffered_channel::close() takes back the pending
 value before waking its producer

---
 include/boost/fiber/unbuffered_channel.hpp | 24 +++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 4b8c807..edde67e 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -43,6 +43,7 @@ private:
     struct slot {
         value_type  value;
         waker       w;
+        bool        consumed{ false };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -111,16 +112,16 @@ public:
     void close() noexcept {
         // set flag
         if ( ! closed_.exchange( true, std::memory_order_acquire) ) {
-            // notify current waiting  
-            slot * s = slot_.load( std::memory_order_acquire);
-            if ( nullptr != s) {
-                // notify context
-                s->w.wake();
-            }
             detail::spinlock_lock lk1{ splk_producers_ };
             waiting_producers_.notify_all();
 
             detail::spinlock_lock lk2{ splk_consumers_ };
+            // take back the value which has not been consumed
+            slot * s = try_pop_();
+            if ( nullptr != s) {
+                // notify context
+                s->w.wake();
+            }
             waiting_consumers_.notify_all();
         }
     }
@@ -139,7 +140,7 @@ public:
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! s.consumed) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -173,7 +174,7 @@ public:
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! s.consumed) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -229,7 +230,7 @@ public:
                     return channel_op_status::timeout;
                 }
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! s.consumed) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -275,7 +276,7 @@ public:
                     return channel_op_status::timeout;
                 }
                 // resumed
-                if ( BOOST_UNLIKELY( is_closed() ) ) {
+                if ( BOOST_UNLIKELY( ! s.consumed) ) {
                     // channel was closed before value was consumed
                     return channel_op_status::closed;
                 }
@@ -308,6 +309,7 @@ public:
                 }
                 value = std::move( s->value);
                 // notify context
+                s->consumed = true;
                 s->w.wake();
                 return channel_op_status::success;
             }
@@ -335,6 +337,7 @@ public:
                 // consume value
                 value_type value = std::move( s->value);
                 // notify context
+                s->consumed = true;
                 s->w.wake();
                 return std::move( value);
             }
@@ -374,6 +377,7 @@ public:
                 // consume value
                 value = std::move( s->value);
                 // notify context
+                s->consumed = true;
                 s->w.wake();
                 return channel_op_status::success;
             }
-- 
2.43.0


From 6c37a93fdbec2e4407fed80341be12468b15e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 03/19] fix: unbuffered_channel: a value published after
 close() is taken back instead of suspending for ever

---
 include/boost/fiber/unbuffered_channel.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index edde67e..dd01af9 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -83,6 +83,10 @@ private:
         }
     }
 
+    bool try_retract_( slot * own_slot) {
+        return slot_.compare_exchange_strong( own_slot, nullptr, std::memory_order_acq_rel);
+    }
+
     slot * try_pop_() {
         slot * nil_slot = nullptr;
         for (;;) {
@@ -136,6 +140,10 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
@@ -170,6 +178,10 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend till value has been consumed
                 active_ctx->suspend( lk);
@@ -220,6 +232,10 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
@@ -266,6 +282,10 @@ public:
             s.w = active_ctx->create_waker();
             if ( try_push_( & s) ) {
                 detail::spinlock_lock lk{ splk_consumers_ };
+                if ( BOOST_UNLIKELY( is_closed() ) && try_retract_( & s) ) {
+                    // channel was closed before value was published
+                    return channel_op_status::closed;
+                }
                 waiting_consumers_.notify_one();
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
-- 
2.43.0


From a25e57d8b1307e01c64cfa2c18d8268e10d6d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 04/19] fix: unbuffered_channel: a timed out push must not
 leave a slot which is being consumed

---
 include/boost/fiber/unbuffered_channel.hpp | 49 ++++++++++++++++------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index dd01af9..2375160 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -44,6 +44,8 @@ private:
         value_type  value;
         waker       w;
         bool        consumed{ false };
+        // set by the context which took the slot if the producer has timed out
+        std::atomic_bool    released{ false };
 
         slot( value_type const& value_, waker && w) :
             value{ value_ },
@@ -99,6 +101,13 @@ private:
         }
     }
 
+    // last access to a slot taken by try_pop_()
+    void release_( slot * s) noexcept {
+        if ( ! s->w.wake() ) {
+            s->released.store( true, std::memory_order_release);
+        }
+    }
+
 public:
     unbuffered_channel() = default;
 
@@ -124,7 +133,7 @@ public:
             slot * s = try_pop_();
             if ( nullptr != s) {
                 // notify context
-                s->w.wake();
+                release_( s);
             }
             waiting_consumers_.notify_all();
         }
@@ -240,10 +249,18 @@ public:
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
                     // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
+                    if ( try_retract_( & s) ) {
+                        // slot is free, let another producer proceed
+                        detail::spinlock_lock plk{ splk_producers_ };
+                        waiting_producers_.notify_one();
+                        // resumed, value has not been consumed
+                        return channel_op_status::timeout;
+                    }
+                    // slot has been taken, it must not be destroyed
+                    // before it has been released
+                    while ( ! s.released.load( std::memory_order_acquire) ) {
+                        active_ctx->yield();
+                    }
                 }
                 // resumed
                 if ( BOOST_UNLIKELY( ! s.consumed) ) {
@@ -290,10 +307,18 @@ public:
                 // suspend this producer
                 if ( ! active_ctx->wait_until(timeout_time, lk, waker(s.w))) {
                     // clear slot
-                    slot * nil_slot = nullptr, * own_slot = & s;
-                    slot_.compare_exchange_strong( own_slot, nil_slot, std::memory_order_acq_rel);
-                    // resumed, value has not been consumed
-                    return channel_op_status::timeout;
+                    if ( try_retract_( & s) ) {
+                        // slot is free, let another producer proceed
+                        detail::spinlock_lock plk{ splk_producers_ };
+                        waiting_producers_.notify_one();
+                        // resumed, value has not been consumed
+                        return channel_op_status::timeout;
+                    }
+                    // slot has been taken, it must not be destroyed
+                    // before it has been released
+                    while ( ! s.released.load( std::memory_order_acquire) ) {
+                        active_ctx->yield();
+                    }
                 }
                 // resumed
                 if ( BOOST_UNLIKELY( ! s.consumed) ) {
@@ -330,7 +355,7 @@ public:
                 value = std::move( s->value);
                 // notify context
                 s->consumed = true;
-                s->w.wake();
+                release_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -358,7 +383,7 @@ public:
                 value_type value = std::move( s->value);
                 // notify context
                 s->consumed = true;
-                s->w.wake();
+                release_( s);
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -398,7 +423,7 @@ public:
                 value = std::move( s->value);
                 // notify context
                 s->consumed = true;
-                s->w.wake();
+                release_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From b3acdd5aa6285baaf53133cd8a6d59cbfa390cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 05/19] fix: unbuffered_channel: resume the producer if moving
 the value out of the slot throws

---
 include/boost/fiber/unbuffered_channel.hpp | 32 +++++++++++++++-------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 2375160..57d793e 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -102,12 +102,30 @@ private:
     }
 
     // last access to a slot taken by try_pop_()
-    void release_( slot * s) noexcept {
+    static void release_( slot * s) noexcept {
         if ( ! s->w.wake() ) {
             s->released.store( true, std::memory_order_release);
         }
     }
 
+    // resumes the producer even if moving the value throws
+    struct consume_guard {
+        slot *  s;
+
+        explicit consume_guard( slot * s_) noexcept :
+            s{ s_ } {
+        }
+
+        consume_guard( consume_guard const&) = delete;
+        consume_guard & operator=( consume_guard const&) = delete;
+
+        ~consume_guard() {
+            s->consumed = true;
+            // notify context
+            release_( s);
+        }
+    };
+
 public:
     unbuffered_channel() = default;
 
@@ -352,10 +370,8 @@ public:
                     detail::spinlock_lock lk{ splk_producers_ };
                     waiting_producers_.notify_one();
                 }
+                consume_guard guard{ s };
                 value = std::move( s->value);
-                // notify context
-                s->consumed = true;
-                release_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -380,10 +396,8 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                consume_guard guard{ s };
                 value_type value = std::move( s->value);
-                // notify context
-                s->consumed = true;
-                release_( s);
                 return std::move( value);
             }
             detail::spinlock_lock lk{ splk_consumers_ };
@@ -420,10 +434,8 @@ public:
                     waiting_producers_.notify_one();
                 }
                 // consume value
+                consume_guard guard{ s };
                 value = std::move( s->value);
-                // notify context
-                s->consumed = true;
-                release_( s);
                 return channel_op_status::success;
             }
             detail::spinlock_lock lk{ splk_consumers_ };
-- 
2.43.0


From b57a4aacd0f7e2ea801fbd523cb6a30c5bd22742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 06/19] fix: channel iterators destroyed each value twice on
 increment

---
 include/boost/fiber/buffered_channel.hpp   | 1 -
 include/boost/fiber/unbuffered_channel.hpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index 492486d..a562168 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -409,7 +409,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 57d793e..6201ade 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -505,7 +505,6 @@ public:
         }
 
         iterator & operator++() {
-            reinterpret_cast< value_type * >( std::addressof( storage_) )->~value_type();
             increment_();
             return * this;
         }
-- 
2.43.0


From c6ff1d00543598a118b1074ca0b77c6bc0d99d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 07/19] fix: packaged_task::reset() breaks the promise of the
 abandoned state

---
 include/boost/fiber/future/packaged_task.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/fiber/future/packaged_task.hpp b/include/boost/fiber/future/packaged_task.hpp
index 10cef3c..7fc2ba1 100644
--- a/include/boost/fiber/future/packaged_task.hpp
+++ b/include/boost/fiber/future/packaged_task.hpp
@@ -128,6 +128,8 @@ public:
         packaged_task tmp;
         tmp.task_ = task_;
         task_ = tmp.task_->reset();
+        // break the promise of the abandoned state
+        tmp.obtained_ = obtained_;
         obtained_ = false;
     }
 };
-- 
2.43.0


From 320a0e639ea67d976c2bdd4e5f13094598ea093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 08/19] fix: begin() of a channel must not terminate if
 receiving the first value throws

---
 include/boost/fiber/buffered_channel.hpp   | 2 +-
 include/boost/fiber/unbuffered_channel.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/buffered_channel.hpp b/include/boost/fiber/buffered_channel.hpp
index a562168..b4d8f36 100644
--- a/include/boost/fiber/buffered_channel.hpp
+++ b/include/boost/fiber/buffered_channel.hpp
@@ -384,7 +384,7 @@ public:
 
         iterator() = default;
 
-        explicit iterator( buffered_channel< T > * chan) noexcept :
+        explicit iterator( buffered_channel< T > * chan) :
             chan_{ chan } {
             increment_( true);
         }
diff --git a/include/boost/fiber/unbuffered_channel.hpp b/include/boost/fiber/unbuffered_channel.hpp
index 6201ade..7998176 100644
--- a/include/boost/fiber/unbuffered_channel.hpp
+++ b/include/boost/fiber/unbuffered_channel.hpp
@@ -481,7 +481,7 @@ public:
 
         iterator() = default;
 
-        explicit iterator( unbuffered_channel< T > * chan) noexcept :
+        explicit iterator( unbuffered_channel< T > * chan) :
             chan_{ chan } {
             increment_( true);
         }
-- 
2.43.0


From 4eb5b8345b3d50b2a82dce19b77ebf510a317550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 09/19] fix: return the allocated stack when constructing the
 fiber's context throws

make_worker_context_with_properties() allocates the stack and then copies
or moves the callable and its arguments into the control block placed on
it; an exception from one of those leaked the stack.
---
 include/boost/fiber/context.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/boost/fiber/context.hpp b/include/boost/fiber/context.hpp
index 82d8484..08fd23a 100644
--- a/include/boost/fiber/context.hpp
+++ b/include/boost/fiber/context.hpp
@@ -500,14 +500,21 @@ static intrusive_ptr< context > make_worker_context_with_properties( launch poli
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     const std::size_t size = reinterpret_cast< uintptr_t >( storage) - reinterpret_cast< uintptr_t >( stack_bottom);
     // placement new of context on top of fiber's stack
-    return intrusive_ptr< context >{ 
-            new ( storage) context_t{
-                policy,
-                properties,
-                boost::context::preallocated{ storage, size, sctx },
-                std::forward< StackAlloc >( salloc),
-                std::forward< Fn >( fn),
-                std::forward< Arg >( arg) ... } };
+    try {
+        return intrusive_ptr< context >{ 
+                new ( storage) context_t{
+                    policy,
+                    properties,
+                    boost::context::preallocated{ storage, size, sctx },
+                    std::forward< StackAlloc >( salloc),
+                    std::forward< Fn >( fn),
+                    std::forward< Arg >( arg) ... } };
+    } catch (...) {
+        // copying/moving the callable or an argument threw,
+        // salloc was not consumed yet
+        salloc.deallocate( sctx);
+        throw;
+    }
 }
 
 template< typename StackAlloc, typename Fn, typename ... Arg >
-- 
2.43.0


From c8cd9917af858dd4a062a829dfee1a9d4ce961bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 10/19] fix: release memory order when unlocking the futex
 based spinlocks

fetch_sub with acquire order is the operation that frees an uncontended
lock: writes of the critical section were not published to the next owner
(ThreadSanitizer reports the race).
---
 include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp | 2 +-
 include/boost/fiber/detail/spinlock_ttas_futex.hpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 172b2b4..1628a8c 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -125,7 +125,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index f7a2f68..3aefdc1 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -116,7 +116,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( 1 != value_.fetch_sub( 1, std::memory_order_acquire) ) {
+        if ( 1 != value_.fetch_sub( 1, std::memory_order_release) ) {
             value_.store( 0, std::memory_order_release);
             futex_wake( & value_);
         }
-- 
2.43.0


From d6ce7e340b2fcaf9b0dfbf3b578884cd73918151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 11/19] fix: let spinlock_rtm elide the futex based spinlocks

spinlock_rtm accessed member state_, which the futex based locks do not
have: the documented combinations of BOOST_USE_TSX with
BOOST_FIBERS_SPINLOCK_TTAS_FUTEX and _TTAS_ADAPTIVE_FUTEX did not compile.
---
 include/boost/fiber/detail/spinlock_rtm.hpp               | 8 ++++----
 include/boost/fiber/detail/spinlock_ttas.hpp              | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_adaptive.hpp     | 4 ++++
 .../boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp   | 4 ++++
 include/boost/fiber/detail/spinlock_ttas_futex.hpp        | 4 ++++
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/boost/fiber/detail/spinlock_rtm.hpp b/include/boost/fiber/detail/spinlock_rtm.hpp
index a38f4e7..9774418 100644
--- a/include/boost/fiber/detail/spinlock_rtm.hpp
+++ b/include/boost/fiber/detail/spinlock_rtm.hpp
@@ -41,7 +41,7 @@ public:
             std::uint32_t status;
             if ( rtm_status::success == ( status = rtm_begin() ) ) {
                 // add lock to read-set
-                if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_relaxed) ) {
+                if ( splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     // lock is free, enter critical section
                     return;
                 }
@@ -71,7 +71,7 @@ public:
                 // abort was not caused by a nested transaction
                 // wait till lock becomes free again
                 std::size_t count = 0;
-                while ( spinlock_status::locked == splk_.state_.load( std::memory_order_relaxed) ) {
+                while ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
                     if ( BOOST_FIBERS_SPIN_BEFORE_SLEEP0 > count) {
                         ++count;
                         cpu_relax();
@@ -105,7 +105,7 @@ public:
         }
 
         // add lock to read-set
-        if ( spinlock_status::unlocked != splk_.state_.load( std::memory_order_relaxed) ) {
+        if ( ! splk_.is_unlocked_( std::memory_order_relaxed) ) {
             // lock was acquired by another thread
             // explicit abort of transaction with abort argument 'lock not free'
             rtm_abort_lock_not_free();
@@ -114,7 +114,7 @@ public:
     }
 
     void unlock() noexcept {
-        if ( spinlock_status::unlocked == splk_.state_.load( std::memory_order_acquire) ) {
+        if ( splk_.is_unlocked_( std::memory_order_acquire) ) {
             rtm_end();
         } else {
             splk_.unlock();
diff --git a/include/boost/fiber/detail/spinlock_ttas.hpp b/include/boost/fiber/detail/spinlock_ttas.hpp
index cb89e91..6f16b2c 100644
--- a/include/boost/fiber/detail/spinlock_ttas.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas.hpp
@@ -33,6 +33,10 @@ private:
 
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return spinlock_status::unlocked == state_.load( order);
+    }
+
 public:
     spinlock_ttas() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
index 4ebf1e2..19f58dd 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive.hpp
@@ -34,6 +34,10 @@ private:
     std::atomic< spinlock_status >              state_{ spinlock_status::unlocked };
     std::atomic< std::size_t >                  retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return spinlock_status::unlocked == state_.load( order);
+    }
+
 public:
     spinlock_ttas_adaptive() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
index 1628a8c..a4647d3 100644
--- a/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_adaptive_futex.hpp
@@ -33,6 +33,10 @@ private:
     std::atomic< std::int32_t >                 value_{ 0 };
     std::atomic< std::int32_t >                 retries_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return 0 == value_.load( order);
+    }
+
 public:
     spinlock_ttas_adaptive_futex() = default;
 
diff --git a/include/boost/fiber/detail/spinlock_ttas_futex.hpp b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
index 3aefdc1..09c915b 100644
--- a/include/boost/fiber/detail/spinlock_ttas_futex.hpp
+++ b/include/boost/fiber/detail/spinlock_ttas_futex.hpp
@@ -32,6 +32,10 @@ private:
 
     std::atomic< std::int32_t >                 value_{ 0 };
 
+    bool is_unlocked_( std::memory_order order) const noexcept {
+        return 0 == value_.load( order);
+    }
+
 public:
     spinlock_ttas_futex() = default;
 
-- 
2.43.0


From 6103a2405f738f326078ad09c361ac8f3242c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 12/19] fix: work stealing must not loop forever when there is
 nobody to steal from

With a single scheduler (one hardware thread) or a single logical cpu in the
local NUMA node, pick_next() drew its own id again and again.
---
 src/algo/work_stealing.cpp      | 2 +-
 src/numa/algo/work_stealing.cpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/algo/work_stealing.cpp b/src/algo/work_stealing.cpp
index ae9ece8..614794e 100644
--- a/src/algo/work_stealing.cpp
+++ b/src/algo/work_stealing.cpp
@@ -62,7 +62,7 @@ work_stealing::pick_next() noexcept {
         if ( ! victim->is_context( type::pinned_context) ) {
             context::active()->attach( victim);
         }
-    } else {
+    } else if ( 1 < thread_count_) { // otherwise there is nobody to steal from
         std::uint32_t id = 0;
         std::size_t count = 0, size = schedulers_.size();
         static thread_local std::minstd_rand generator{ std::random_device{}() };
diff --git a/src/numa/algo/work_stealing.cpp b/src/numa/algo/work_stealing.cpp
index d3653d6..11d23da 100644
--- a/src/numa/algo/work_stealing.cpp
+++ b/src/numa/algo/work_stealing.cpp
@@ -112,7 +112,8 @@ work_stealing::pick_next() noexcept {
             0, static_cast< std::uint32_t >( local_cpus_.size() - 1) };
         std::uniform_int_distribution< std::uint32_t > remote_distribution{
             0, static_cast< std::uint32_t >( remote_cpus_.size() - 1) };
-        do {
+        // a single logical cpu has nobody to steal from at its NUMA node
+        while ( 1 < size && nullptr == victim && count < size) {
             do {
                 ++count;
                 // random selection of one logical cpu
@@ -124,7 +125,7 @@ work_stealing::pick_next() noexcept {
             // schedulers_[cpu_id] should never contain a nullptr
             BOOST_ASSERT( nullptr != schedulers_[cpu_id]);
             victim = schedulers_[cpu_id]->steal();
-        } while ( nullptr == victim && count < size);
+        }
         if ( nullptr != victim) {
             boost::context::detail::prefetch_range( victim, sizeof( context) );
             BOOST_ASSERT( ! victim->is_context( type::pinned_context) );
-- 
2.43.0


From ee4b8550f1f5f786d9d6cc296f64501e92b44885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 13/19] fix: publish the grown array of context_spmc_queue with
 release order

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 5f906cf..67dfe9f 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -128,7 +128,8 @@ public:
             array * tmp = a->resize( bottom, top);
             old_arrays_.push_back( a);
             std::swap( a, tmp);
-            array_.store( a, std::memory_order_relaxed);
+            // release: a thief that finds the new array must find it filled
+            array_.store( a, std::memory_order_release);
         }
         a->push( bottom, ctx);
         std::atomic_thread_fence( std::memory_order_release);
-- 
2.43.0


From 748c7b58b4f9a4e360453b0cb893ebbb45989bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:08 +0000
Subject: [PATCH 14/19] fix: pop() of a new context_spmc_queue must not wrap
 around

---
 include/boost/fiber/detail/context_spmc_queue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/fiber/detail/context_spmc_queue.hpp b/include/boost/fiber/detail/context_spmc_queue.hpp
index 67dfe9f..c459a43 100644
--- a/include/boost/fiber/detail/context_spmc_queue.hpp
+++ b/include/boost/fiber/detail/context_spmc_queue.hpp
@@ -90,8 +90,9 @@ private:
         }
     };
 
-    std::atomic< std::size_t >     top_{ 0 };
-    std::atomic< std::size_t >     bottom_{ 0 };
+    // not 0: pop() from an empty queue decrements bottom_ temporarily
+    std::atomic< std::size_t >     top_{ 1 };
+    std::atomic< std::size_t >     bottom_{ 1 };
     std::atomic< array * >         array_;
     std::vector< array * >                                  old_arrays_{};
     char                                                    padding_[cacheline_length];
-- 
2.43.0


From 8e740b5b3d2082ae1420f548b471c5e2254c6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 15/19] fix: notify the algorithm of another thread while its
 scheduler can not go away

schedule_from_remote() called algo_->notify() after releasing the lock of the
remote ready-queue. The fiber just queued might already have been picked up and
run, its thread ended and scheduler and algorithm been destroyed: use after free.
---
 src/scheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 69ae61c..4b7acd8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -208,8 +208,9 @@ scheduler::schedule_from_remote( context * ctx) noexcept {
     BOOST_ASSERT( nullptr != dispatcher_ctx_.get() );
     // push new context to remote ready-queue
     ctx->remote_ready_link( remote_ready_queue_);
-    lk.unlock();
     // notify scheduler
+    // still protected: as soon as the lock is released, ctx might run, the
+    // thread of this scheduler might end and scheduler and algorithm with it
     algo_->notify();
 }
 #endif
-- 
2.43.0


From a2b99ef2e3b19cfb72a2bd053897a5859d02a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 16/19] fix: exchange the algorithm of a scheduler under the
 lock of its notifiers

Another thread might be in notify() of the replaced algorithm, or about to read
the pointer to it.
---
 src/scheduler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 4b7acd8..582befe 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -325,7 +325,11 @@ scheduler::set_algo( algo::algorithm::ptr_t algo) noexcept {
     while ( algo_->has_ready_fibers() ) {
         algo->awakened( algo_->pick_next() );
     }
-    algo_ = std::move( algo);
+#if ! defined(BOOST_FIBERS_NO_ATOMICS)
+    // another thread might notify the current algorithm
+    detail::spinlock_lock lk{ remote_ready_splk_ };
+#endif
+    algo_.swap( algo);
 }
 
 void
-- 
2.43.0


From c9c003a6c991870df2435a6beedba98f4bd8fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 17/19] fix: do not store a null pointer as fiber specific data

release() of, or destroying, a fiber_specific_ptr without a value in this fiber
recorded a null pointer: the cleanup function got called with it at the end of
the fiber.
---
 src/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 97a45a5..474a495 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -363,7 +363,7 @@ context::set_fss_data( void const * vp,
         } else {
             fss_data_.erase( i);
         }
-    } else {
+    } else if ( nullptr != data) {
         fss_data_.insert(
             std::make_pair(
                 key,
-- 
2.43.0


From a7e1ffa66e7266397997254a26b8a60faea15223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:27 +0000
Subject: [PATCH 18/19] fix: clean up fiber specific data before the fiber is
 reported terminated

The cleanup functions ran with the lock of the context held and after the fibers
joining it were notified: a cleanup function that suspended let fiber::join()
spin on the lock for ever, join() from another thread returned before the
values were destroyed, and values stored by a cleanup function got lost.
---
 src/context.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 474a495..1c85417 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -263,6 +263,14 @@ context::suspend_with_cc() noexcept {
 
 boost::context::fiber
 context::terminate() noexcept {
+    // release fiber-specific-data
+    // cleanup functions might suspend this fiber or store other values
+    while ( ! fss_data_.empty() ) {
+        fss_data_t::iterator i = fss_data_.begin();
+        fss_data data = i->second;
+        fss_data_.erase( i);
+        data.do_cleanup();
+    }
     // protect for concurrent access
     std::unique_lock< detail::spinlock > lk{ splk_ };
     // mark as terminated
@@ -270,11 +278,6 @@ context::terminate() noexcept {
     // notify all waiting fibers
     wait_queue_.notify_all();
     BOOST_ASSERT( wait_queue_.empty() );
-    // release fiber-specific-data
-    for ( fss_data_t::value_type & data : fss_data_) {
-        data.second.do_cleanup();
-    }
-    fss_data_.clear();
     // switch to another context
     return get_scheduler()->terminate( lk, this);
 }
-- 
2.43.0


From de154d41aad86517b52f4ea3402147e7473ca198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:54 +0000
Subject: [PATCH 19/19] fix: changing properties before their fiber has become
 ready

---
 src/properties.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index f59ae3a..7b8a581 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -20,14 +20,16 @@ namespace fibers {
 
 void
 fiber_properties::notify() noexcept {
-    BOOST_ASSERT( nullptr != algo_);
     // Application code might change an important property for any fiber at
     // any time. The fiber in question might be ready, running or waiting.
     // Significantly, only a fiber which is ready but not actually running is
     // in the sched_algorithm's ready queue. Don't bother the sched_algorithm
     // with a change to a fiber it's not currently tracking: it will do the
     // right thing next time the fiber is passed to its awakened() method.
-    if ( ctx_->ready_is_linked() ) {
+    // Properties handed to a fiber constructor do not belong to a fiber before
+    // that, and no algorithm has seen them before the fiber becomes ready.
+    if ( nullptr != ctx_ && ctx_->ready_is_linked() ) {
+        BOOST_ASSERT( nullptr != algo_);
         dynamic_cast< algo::algorithm_with_properties_base * >( algo_)->
             property_change_( ctx_, this);
     }
-- 
2.43.0

