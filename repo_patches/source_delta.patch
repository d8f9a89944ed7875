From 9427b8194a14f69faa7d33272f38940dba6fb13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 01/19] fix: include boost/assert.hpp in the spin mutex headers
 that use BOOST_ASSERT

---
 include/boost/sync/detail/mutexes/shared_spin_mutex.hpp | 1 +
 include/boost/sync/detail/mutexes/spin_mutex.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..cf60a45 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -19,6 +19,7 @@
 #ifndef BOOST_SYNC_DETAIL_MUTEXES_SHARED_SPIN_MUTEX_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_MUTEXES_SHARED_SPIN_MUTEX_HPP_INCLUDED_
 
+#include <boost/assert.hpp>
 #include <boost/cstdint.hpp>
 
 #include <boost/sync/detail/atomic.hpp>
diff --git a/include/boost/sync/detail/mutexes/spin_mutex.hpp b/include/boost/sync/detail/mutexes/spin_mutex.hpp
index 2c42527..56c42f6 100644
--- a/include/boost/sync/detail/mutexes/spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/spin_mutex.hpp
@@ -16,6 +16,7 @@
 #ifndef BOOST_SYNC_DETAIL_MUTEXES_SPIN_MUTEX_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_MUTEXES_SPIN_MUTEX_HPP_INCLUDED_
 
+#include <boost/assert.hpp>
 #include <boost/sync/detail/atomic.hpp>
 #include <boost/sync/detail/pause.hpp>
 
-- 
2.43.0


From 207da55ad16171ca37b7466a04ac196f18dc9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:10 +0000
Subject: [PATCH 02/19] fix: make converting constructors between lock types
 compile (no access to private members of other lock types)

---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From a4ffc8bd0079ea456f9d0390bf391eae36253400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 03/19] fix: make lock_error constructible from errc_t so that
 locks compile with BOOST_SYNC_USE_STD_SYSTEM_ERROR

---
 include/boost/sync/exceptions/lock_error.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/sync/exceptions/lock_error.hpp b/include/boost/sync/exceptions/lock_error.hpp
index 0bd7042..20fd380 100644
--- a/include/boost/sync/exceptions/lock_error.hpp
+++ b/include/boost/sync/exceptions/lock_error.hpp
@@ -44,6 +44,10 @@ public:
     {
     }
 
+    lock_error(sync::detail::errc_t sys_err, const char* what) : runtime_exception(static_cast< int >(sys_err), what)
+    {
+    }
+
     ~lock_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
-- 
2.43.0


From 46fa62649a0eb632b8c72b130c129a0103da0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 04/19] fix: compute system_time_point correctly for negative
 durations and times before 1970

---
 include/boost/sync/detail/time_units.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..fa74aef 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -170,10 +170,9 @@ public:
     }
 
     //! Creates time point from duration since 1970-Jan-01
-    explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
+    explicit system_time_point(system_duration dur) BOOST_NOEXCEPT : m_value()
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        operator+= (dur);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +194,17 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
+        // Use signed arithmetics, the duration may be negative
+        const int64_t fraction = static_cast< int64_t >(system_duration::subsecond_fraction);
+        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
+        int64_t tv_nsec = nsec % fraction;
         if (tv_nsec < 0)
         {
             tv_nsec += subsecond_fraction;
             --m_value.tv_sec;
         }
         m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        m_value.tv_sec += dur.get() / fraction + nsec / fraction;
 
         return *this;
     }
-- 
2.43.0


From 3ceca62953c15b0e67d8d26fea2199779172ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 05/19] fix: make manual_reset_event waits until a chrono time
 point of a non-system clock compile

---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..362a7d2 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -193,7 +193,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From d1bf813bec423a6f3e1291622f2ab65ddd79dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 06/19] fix: do not restart the whole timeout of a futex event
 wait on a signal or an unrelated state change

---
 .../detail/events/auto_reset_event_futex.hpp  | 53 +------------------
 .../events/manual_reset_event_futex.hpp       | 38 +------------
 2 files changed, 2 insertions(+), 89 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..136ec40 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -219,58 +219,7 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
-            return false;
-
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index 362a7d2..e18bef7 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -145,43 +145,7 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
-
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From 583838512e5b25e85dec466039a1479a6c8f08e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:36 +0000
Subject: [PATCH 07/19] fix: do not overflow the post counter of
 auto_reset_event

---
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 136ec40..71da150 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -65,6 +65,14 @@ public:
             posts = old_state >> wait_count_bits;
             if (waiters >= posts)
             {
+                if (BOOST_UNLIKELY(posts >= (post_count_mask >> wait_count_bits)))
+                {
+                    // The post counter is full, let the blocked threads consume some posts first
+                    detail::pause();
+                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+                    continue;
+                }
+
                 if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                     break;
 
-- 
2.43.0


From 491bf2b2ad1ef4c14b57900f1a24cd75f9b9bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:01 +0000
Subject: [PATCH 08/19] fix: do not restart the timeout of emulated semaphore
 and event waits on spurious wakeups

---
 .../detail/events/auto_reset_event_emulation.hpp    | 13 +++++++++++--
 .../detail/events/manual_reset_event_emulation.hpp  | 13 +++++++++++--
 .../sync/detail/semaphore/semaphore_emulation.hpp   | 13 +++++++++++--
 3 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..6789e02 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -13,6 +13,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -71,8 +73,15 @@ public:
         return res;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // The timeout must not be restarted on spurious wakeups
+        return timed_wait((sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration)).get());
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (!m_is_set)
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..100b5b1 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -13,6 +13,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -72,8 +74,15 @@ public:
         return m_is_set;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // The timeout must not be restarted on spurious wakeups
+        return timed_wait((sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration)).get());
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (!m_is_set)
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..702f453 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -13,6 +13,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -67,8 +69,15 @@ public:
         return true;
     }
 
-    template< typename Time >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
+    template< typename Duration >
+    typename enable_if< detail::is_time_tag_of< Duration, detail::time_duration_tag >, bool >::type timed_wait(Duration const& duration)
+    {
+        // The timeout must not be restarted on spurious wakeups
+        return timed_wait((sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(duration)).get());
+    }
+
+    template< typename TimePoint >
+    typename enable_if< detail::is_time_tag_of< TimePoint, detail::time_point_tag >, bool >::type timed_wait(TimePoint const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
         while (m_count == 0)
-- 
2.43.0


From 2fac6d0b17ae2233564713b7b6bedfa857846f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:01 +0000
Subject: [PATCH 09/19] fix: do not restart the timeout of
 condition_variable_any waits with a predicate on every wakeup

---
 .../condition_variable_any_generic.hpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..ffb4cc7 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +115,16 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        return this->wait_for(lock, t, pred);
+    }
+
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -161,12 +170,8 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
-        while (!pred())
-        {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
-                return pred();
-        }
-        return true;
+        // The timeout must not be restarted on every wakeup
+        return this->wait_until(lock, (sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(rel_time)).get(), pred);
     }
 
     BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
-- 
2.43.0


From f08a142f45463753261c215feb29917677347c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:01 +0000
Subject: [PATCH 10/19] fix: run thread exit callbacks and cleanups when
 compiler-supported TLS is used

---
 src/tss_pthread.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..b2fa57a 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -37,9 +37,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// The key is also needed with compiler-supported TLS, to be notified about thread termination
+static pthread_key_t tss_key;
 
 extern "C" {
 
@@ -62,10 +62,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
@@ -79,6 +77,7 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    pthread_setspecific(tss_key, p);
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
-- 
2.43.0


From 8d75d93617b654fbc9c629ffb194714a68519032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:46 +0000
Subject: [PATCH 11/19] fix: call the right cleanup function at thread exit
 when thread-specific keys are deleted or reused meanwhile

---
 src/tss_manager.hpp | 45 ++++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..51dc04c 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -149,8 +149,8 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // Run cleanup functions and then destroy TLS. The cleanup functions for TLS may register new functions.
+        while (!p->m_at_exit_functions.empty() || destroy_storage(p))
         {
             std::vector< thread_context::at_exit_entry > at_exit_functions;
             at_exit_functions.swap(p->m_at_exit_functions);
@@ -161,23 +161,6 @@ public:
             }
         }
 
-        // Destroy TLS
-        while (!p->m_storage.empty())
-        {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
-            {
-                void* const value = storage[key];
-                if (value)
-                {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
-                }
-            }
-        }
-
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
         {
@@ -254,6 +237,30 @@ public:
         }
     }
 
+private:
+    //! Cleans up values in the thread-specific storage. Returns \c false if there were none.
+    bool destroy_storage(thread_context* p)
+    {
+        bool result = false;
+        for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
+        {
+            // The keys can be deleted and reused by other threads or by the cleanup functions,
+            // so the value and its cleanup function must be obtained at once
+            sync::unique_lock< mutex_type > lock(m_mutex);
+            void* const value = p->m_storage[key];
+            if (value)
+            {
+                p->m_storage[key] = NULL;
+                const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
+                lock.unlock();
+                if (cleanup)
+                    cleanup(value);
+                result = true;
+            }
+        }
+        return result;
+    }
+
     BOOST_DELETED_FUNCTION(tss_manager(tss_manager const&))
     BOOST_DELETED_FUNCTION(tss_manager& operator= (tss_manager const&))
 };
-- 
2.43.0


From cb3cbe083a676c4170f19ee17eea47a509b82345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:46 +0000
Subject: [PATCH 12/19] fix: do not reallocate the thread-specific storage
 while another thread may be accessing it

---
 src/tss_manager.hpp | 11 ++++++++++-
 src/tss_pthread.cpp |  2 +-
 src/tss_windows.cpp |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 51dc04c..3a0cb65 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -79,10 +79,14 @@ public:
                 return NULL;
         }
 
-        void set_value(thread_specific_key key, void* value)
+        void set_value(thread_specific_key key, void* value, sync::mutex& mtx)
         {
             if (key >= m_storage.size())
+            {
+                // The storage may be accessed by other threads deleting keys
+                sync::lock_guard< sync::mutex > lock(mtx);
                 m_storage.resize(key + 1, static_cast< void* >(NULL));
+            }
             m_storage[key] = value;
         }
 
@@ -176,6 +180,11 @@ public:
         delete p;
     }
 
+    void set_value(thread_context* p, thread_specific_key key, void* value)
+    {
+        p->set_value(key, value, m_mutex);
+    }
+
     thread_specific_key new_key(at_thread_exit_callback cleanup, bool cleanup_at_delete)
     {
         sync::lock_guard< mutex_type > lock(m_mutex);
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index b2fa57a..0a46b24 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -159,7 +159,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
diff --git a/src/tss_windows.cpp b/src/tss_windows.cpp
index 23bf218..480ee2e 100644
--- a/src/tss_windows.cpp
+++ b/src/tss_windows.cpp
@@ -230,7 +230,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
         set_thread_context(ctx);
     }
 
-    ctx->set_value(key, p);
+    tss_mgr->set_value(ctx, key, p);
 }
 
 } // namespace detail
-- 
2.43.0


From 5bd834b11a56d691d243ef1c36a7bbc8f614d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:46 +0000
Subject: [PATCH 13/19] fix: keep thread-specific values accessible while
 thread exit callbacks run

---
 src/tss_pthread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 0a46b24..1daff10 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -41,13 +41,18 @@ static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
 // The key is also needed with compiler-supported TLS, to be notified about thread termination
 static pthread_key_t tss_key;
 
+void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT;
+
 extern "C" {
 
 static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // The context must stay accessible to the callbacks and cleanup functions
+        set_thread_context(ctx);
         tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
     }
 }
 
-- 
2.43.0


From 1df2a7e9f49be82a3776da52018e19b040d30808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:07 +0000
Subject: [PATCH 14/19] fix: make post() on an already signalled
 auto_reset_event synchronize with the wait that consumes the signal

---
 .../boost/sync/detail/events/auto_reset_event_futex.hpp   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 71da150..6ef8e1b 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -80,8 +80,12 @@ public:
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // Still write the state so that the thread that consumes the signal synchronizes with this post.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+
+                detail::pause();
             }
         }
 
-- 
2.43.0


From 0e0b6beb5a9237a641b1fb9c878bfb392157232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:31 +0000
Subject: [PATCH 15/19] fix: make post() on an already signalled
 semaphore-based auto_reset_event synchronize with the wait that consumes the
 signal

---
 .../events/auto_reset_event_semaphore.hpp     | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..33f4dec 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,26 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            if (old_state >= 0)
             {
                 if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                 {
                     m_sem.post();
-                    return; // avoid unnecessary fence
+                    return;
                 }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
             }
-        }
+            else
+            {
+                // Someone else has set the auto_reset_event with no waiters. Still write the state so that
+                // the thread that consumes the signal synchronizes with this post.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
+            }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From f542dbc87cf2914dc93528a1666957ef89741b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:35 +0000
Subject: [PATCH 16/19] fix: do not leave a semaphore-based auto_reset_event
 signalled twice when a failed wait races with posts

---
 .../events/auto_reset_event_semaphore.hpp     | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 33f4dec..5b9ac85 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -79,8 +79,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Time >
@@ -92,8 +91,7 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        return on_wait_failed();
     }
 
     template< typename Duration >
@@ -108,6 +106,33 @@ public:
         return timed_wait(abs_time);
     }
 
+private:
+    //! Removes the waiter or consumes the post that was made for it
+    bool on_wait_failed()
+    {
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        for (;;)
+        {
+            if (old_state > 0)
+            {
+                // There are more waiters than posts, remove one waiter
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+
+                detail::pause();
+            }
+            else
+            {
+                // There are enough posts for all waiters, including this one, although the semaphore may have not been posted yet
+                if (m_sem.try_wait())
+                    return true;
+
+                detail::pause();
+                old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            }
+        }
+    }
+
 private:
     semaphore m_sem;
     detail::atomic_ns::atomic< int32_t > m_state;
-- 
2.43.0


From ee1befa8c482f8309e043ff67a6e0ec5cf56197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:11 +0000
Subject: [PATCH 17/19] fix: report an overflow of the emulated semaphore
 instead of wrapping its counter to zero

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index 702f453..ea924c9 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,8 +10,12 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <limits.h>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
+#include <boost/sync/detail/system_error.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
 #include <boost/sync/detail/time_traits.hpp>
 #include <boost/sync/detail/time_units.hpp>
 #include <boost/sync/support/posix_time.hpp>
@@ -46,6 +50,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == UINT_MAX))
+            BOOST_SYNC_DETAIL_THROW(overflow_error, (static_cast< int >(sync::detail::system_ns::errc::value_too_large))("semaphore post failed: semaphore counter overflow"));
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From 6450af9f054ea28ca835988d0bd389c80e7c0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 18/19] fix: condition_variable: don't lose a notification when
 the system clock runs ahead of the wait's clock

A wait with a time point of a clock other than the system clock blocked again after
the native wait had timed out early, without returning to the caller. A notification
sent between the native timeout and the re-locking of the mutex was lost.
---
 .../condition_variables/condition_variable_posix.hpp       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
index a2078c6..3effd75 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_posix.hpp
@@ -234,11 +234,12 @@ private:
         typedef typename time_point::clock clock;
         typedef typename time_point::duration duration;
         time_point now = clock::now();
-        while (now < t.get())
+        if (now < t.get())
         {
-            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout)
+            // If the system clock has run ahead of the user's clock, this is a spurious wakeup. We cannot block again here
+            // since a notification could have been sent before we re-locked the mutex.
+            if (priv_timed_wait(lock, sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)) == sync::cv_status::no_timeout || clock::now() < t.get())
                 return sync::cv_status::no_timeout;
-            now = clock::now();
         }
         return sync::cv_status::timeout;
     }
-- 
2.43.0


From fd00738d9fb362168d1c12853a0e54184eb1cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:00 +0000
Subject: [PATCH 19/19] fix: accept chrono time points that are coarser than
 their clock

Timed operations with time points of clocks other than the system clock did not compile
if the time point could not represent the clock's current time exactly.
---
 include/boost/sync/support/boost_chrono.hpp | 6 ++++--
 include/boost/sync/support/std_chrono.hpp   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/support/boost_chrono.hpp b/include/boost/sync/support/boost_chrono.hpp
index 7c275a6..89a1f35 100644
--- a/include/boost/sync/support/boost_chrono.hpp
+++ b/include/boost/sync/support/boost_chrono.hpp
@@ -51,13 +51,15 @@ template< typename Clock, typename Duration >
 struct time_traits< boost::chrono::time_point< Clock, Duration > >
 {
     typedef time_point_tag tag;
-    typedef chrono_time_point< boost::chrono::time_point< Clock, Duration > > unit_type;
+    // The precision must be sufficient to represent the current time of the clock
+    typedef boost::chrono::time_point< Clock, typename boost::common_type< Duration, typename Clock::duration >::type > time_point;
+    typedef chrono_time_point< time_point > unit_type;
 
     static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
 
     static unit_type to_sync_unit(boost::chrono::time_point< Clock, Duration > const& point) BOOST_NOEXCEPT
     {
-        return unit_type(point);
+        return unit_type(time_point(point));
     }
 };
 
diff --git a/include/boost/sync/support/std_chrono.hpp b/include/boost/sync/support/std_chrono.hpp
index 8b81a63..e351467 100644
--- a/include/boost/sync/support/std_chrono.hpp
+++ b/include/boost/sync/support/std_chrono.hpp
@@ -49,13 +49,15 @@ template< typename Clock, typename Duration >
 struct time_traits< std::chrono::time_point< Clock, Duration > >
 {
     typedef time_point_tag tag;
-    typedef chrono_time_point< std::chrono::time_point< Clock, Duration > > unit_type;
+    // The precision must be sufficient to represent the current time of the clock
+    typedef std::chrono::time_point< Clock, typename std::common_type< Duration, typename Clock::duration >::type > time_point;
+    typedef chrono_time_point< time_point > unit_type;
 
     static BOOST_CONSTEXPR_OR_CONST bool is_specialized = true;
 
     static unit_type to_sync_unit(std::chrono::time_point< Clock, Duration > const& point) BOOST_NOEXCEPT
     {
-        return unit_type(point);
+        return unit_type(time_point(point));
     }
 };
 
-- 
2.43.0

