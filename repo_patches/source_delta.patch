From 36b440bf771aacfe944761732695535a01508f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:06 +0000
Subject: [PATCH 01/18] fix: shared_spin_mutex::try_lock_shared does not fail
 because of another reader

---
 .../sync/detail/mutexes/shared_spin_mutex.hpp  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
index 87ccfac..ec8d1d4 100644
--- a/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
+++ b/include/boost/sync/detail/mutexes/shared_spin_mutex.hpp
@@ -104,15 +104,17 @@ public:
 
     bool try_lock_shared() BOOST_NOEXCEPT
     {
-        /* with the mask, the cas will fail, locked exclusively */
-        uint32_t current_state    = state.load(detail::atomic_ns::memory_order_acquire) & reader_mask;
-        const uint32_t next_state = current_state + 1;
+        uint32_t current_state = state.load(detail::atomic_ns::memory_order_relaxed);
 
-        if ( state.compare_exchange_strong(current_state, next_state, detail::atomic_ns::memory_order_acquire,
-                                           detail::atomic_ns::memory_order_relaxed) )
-            return true;
-        else
-            return false;
+        /* a failed cas only means locked exclusively if the state says so, it can also be another reader */
+        while ( current_state != locked_state )
+        {
+            if ( state.compare_exchange_weak(current_state, current_state + 1, detail::atomic_ns::memory_order_acquire,
+                                             detail::atomic_ns::memory_order_relaxed) )
+                return true;
+        }
+
+        return false;
     }
 
     void unlock_shared() BOOST_NOEXCEPT
-- 
2.43.0


From 777a053bf9bfb8b1fcfd396edd821d68ac07cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:52 +0000
Subject: [PATCH 02/18] fix: semaphore::try_wait does not give up when it is
 interrupted by a signal

---
 .../sync/detail/semaphore/semaphore_posix.hpp | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/boost/sync/detail/semaphore/semaphore_posix.hpp b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
index 53b525e..bb47380 100644
--- a/include/boost/sync/detail/semaphore/semaphore_posix.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_posix.hpp
@@ -100,20 +100,25 @@ public:
 
     bool try_wait()
     {
-        const int status = sem_trywait(&m_sem);
-        if (status == 0)
-            return true;
-
-        switch (errno)
+        for (;;)
         {
-        case EINTR:
-        case EAGAIN:
-            return false;
+            const int status = sem_trywait(&m_sem);
+            if (status == 0)
+                return true;
 
-        case EINVAL:
-        default:
-            BOOST_ASSERT(false);
-            return false;
+            switch (errno)
+            {
+            case EINTR: // interrupted by a signal handler
+                continue;
+
+            case EAGAIN:
+                return false;
+
+            case EINVAL:
+            default:
+                BOOST_ASSERT(false);
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From ae9222a7561d7975caff0e1a9027290884192087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:35 +0000
Subject: [PATCH 03/18] fix: system_time_point arithmetic with negative and
 large durations

---
 include/boost/sync/detail/time_units.hpp | 26 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/time_units.hpp b/include/boost/sync/detail/time_units.hpp
index e7fe6fe..154dfe1 100644
--- a/include/boost/sync/detail/time_units.hpp
+++ b/include/boost/sync/detail/time_units.hpp
@@ -172,8 +172,9 @@ public:
     //! Creates time point from duration since 1970-Jan-01
     explicit system_time_point(system_duration dur) BOOST_NOEXCEPT
     {
-        m_value.tv_sec = static_cast< ::time_t >(dur.get() / subsecond_fraction);
-        m_value.tv_nsec = dur.get() % subsecond_fraction;
+        m_value.tv_sec = 0;
+        m_value.tv_nsec = 0;
+        operator+= (dur);
     }
 
     native_type const& get() const BOOST_NOEXCEPT { return m_value; }
@@ -195,15 +196,22 @@ public:
 
     system_time_point& operator+= (system_duration const& dur) BOOST_NOEXCEPT
     {
-        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get();
-        int64_t tv_nsec = nsec % system_duration::subsecond_fraction;
-        if (tv_nsec < 0)
+        // The fraction must be signed, otherwise negative durations are converted to unsigned
+        const int64_t fraction = static_cast< int64_t >(subsecond_fraction);
+        int64_t sec = dur.get() / fraction;
+        int64_t nsec = static_cast< int64_t >(m_value.tv_nsec) + dur.get() % fraction;
+        if (nsec < 0)
         {
-            tv_nsec += subsecond_fraction;
-            --m_value.tv_sec;
+            nsec += fraction;
+            --sec;
         }
-        m_value.tv_nsec = static_cast< long >(tv_nsec);
-        m_value.tv_sec += nsec / system_duration::subsecond_fraction;
+        else if (nsec >= fraction)
+        {
+            nsec -= fraction;
+            ++sec;
+        }
+        m_value.tv_sec += static_cast< ::time_t >(sec);
+        m_value.tv_nsec = static_cast< long >(nsec);
 
         return *this;
     }
-- 
2.43.0


From 60b4c834f81be981424779461f0b228314b7cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:30 +0000
Subject: [PATCH 04/18] fix: futex-based events do not restart the whole
 timeout of a relative wait

---
 .../detail/events/auto_reset_event_futex.hpp  | 54 +------------------
 .../events/manual_reset_event_futex.hpp       | 39 +-------------
 2 files changed, 4 insertions(+), 89 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 1ca2db1..4112bd6 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -219,58 +219,8 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        sync::detail::system_duration::native_type time_left = dur.get();
-        if (time_left <= 0)
-            return false;
-
-        // Add one waiter
-        unsigned int old_state = m_state.fetch_add(1, detail::atomic_ns::memory_order_relaxed);
-        while (true)
-        {
-            unsigned int posts = old_state >> wait_count_bits;
-            if (posts == 0)
-            {
-                ++old_state; // account for the waiter added above
-
-                while (true)
-                {
-                    const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state), old_state, time_left);
-                    if (status != 0)
-                    {
-                        const int err = errno;
-                        switch (err)
-                        {
-                        case ETIMEDOUT:
-                            return on_wait_timed_out();
-
-                        case EINTR:       // signal received
-                        case EWOULDBLOCK: // another thread changed the state
-                            break;
-
-                        default:
-                            BOOST_ASSERT(false);
-                        }
-                    }
-
-                    old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-                    posts = old_state >> wait_count_bits;
-                    if (BOOST_LIKELY(posts > 0))
-                        break;
-                }
-            }
-
-            // Remove one post and one waiter from the counters
-            if (BOOST_LIKELY(m_state.compare_exchange_weak(old_state, old_state - (post_count_one + 1u), detail::atomic_ns::memory_order_acquire, detail::atomic_ns::memory_order_relaxed)))
-                break;
-
-            detail::pause();
-        }
-
-        return true;
+        // Interrupted waits have to be restarted with the time that is left, so wait until a fixed point
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index cb8b5c6..b732927 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -145,43 +145,8 @@ private:
 
     bool priv_timed_wait(sync::detail::system_duration dur)
     {
-        // Try the fast path first
-        if (this->try_wait())
-            return true;
-
-        unsigned int old_state = m_state.add(wait_count_one, boost::memory_order_relaxed);
-        while ((old_state & post_bit) == 0u)
-        {
-            sync::detail::system_duration::native_type time_left = dur.get();
-            if (time_left <= 0)
-            {
-                m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                return false;
-            }
-
-            // Check that system time resolution is nanoseconds
-            BOOST_STATIC_ASSERT(sync::detail::system_duration::subsecond_fraction == 1000000000u);
-            do
-            {
-                const int status = sync::detail::linux_::futex_timedwait(reinterpret_cast< int* >(&m_state.value()), old_state, time_left);
-                if (status != 0)
-                {
-                    const int err = errno;
-                    if (BOOST_LIKELY(err == ETIMEDOUT))
-                    {
-                        m_state.opaque_sub(wait_count_one, boost::memory_order_relaxed);
-                        return false;
-                    }
-                }
-
-                old_state = m_state.load(boost::memory_order_relaxed);
-            }
-            while ((old_state & post_bit) == 0u);
-        }
-
-        m_state.opaque_sub(wait_count_one, boost::memory_order_acquire);
-
-        return true;
+        // Interrupted waits have to be restarted with the time that is left, so wait until a fixed point
+        return priv_timed_wait(sync::detail::system_time_point::now() + dur);
     }
 
     template< typename TimePoint >
-- 
2.43.0


From dd6b781e876a079f2a067e46926e3424eef00c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 05/18] fix: manual_reset_event can wait until a time point of
 any clock

---
 include/boost/sync/detail/events/manual_reset_event_futex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/sync/detail/events/manual_reset_event_futex.hpp b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
index b732927..287aa46 100644
--- a/include/boost/sync/detail/events/manual_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_futex.hpp
@@ -158,7 +158,7 @@ private:
         time_point now = clock::now();
         do
         {
-            if (timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
+            if (priv_timed_wait(sync::detail::time_traits< duration >::to_sync_unit(t.get() - now)))
                 return true;
             now = clock::now();
         }
-- 
2.43.0


From b0dc9142a3380cee0dc386da99119e9d95cb6c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 06/18] fix: condition_variable_any does not restart the
 timeout of a relative wait with a predicate

---
 .../condition_variable_any_generic.hpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
index 30fe69e..32abb58 100644
--- a/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
+++ b/include/boost/sync/detail/condition_variables/condition_variable_any_generic.hpp
@@ -21,6 +21,8 @@
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
+#include <boost/sync/detail/time_units.hpp>
+#include <boost/sync/support/posix_time.hpp>
 #include <boost/sync/locks/lock_guard.hpp>
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
@@ -113,9 +115,9 @@ public:
         return m_cond.timed_wait(internal_lock, t);
     }
 
-    template< typename Lock, typename Time, typename Predicate >
-    typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type
-    timed_wait(Lock& lock, Time const& t, Predicate pred)
+    template< typename Lock, typename TimePoint, typename Predicate >
+    typename detail::enable_if_tag< TimePoint, detail::time_point_tag, bool >::type
+    timed_wait(Lock& lock, TimePoint const& t, Predicate pred)
     {
         while (!pred())
         {
@@ -125,6 +127,14 @@ public:
         return true;
     }
 
+    template< typename Lock, typename Duration, typename Predicate >
+    typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
+    timed_wait(Lock& lock, Duration const& t, Predicate pred)
+    {
+        // The timeout must not be restarted after a wakeup that did not satisfy the predicate
+        return this->timed_wait(lock, (sync::detail::system_time_point::now() + sync::detail::time_traits< Duration >::to_sync_unit(t)).get(), pred);
+    }
+
     template< typename Lock, typename TimePoint >
     typename detail::enable_if_tag< TimePoint, detail::time_point_tag, sync::cv_status >::type
     wait_until(Lock& lock, TimePoint const& abs_time)
@@ -161,12 +171,7 @@ public:
     typename detail::enable_if_tag< Duration, detail::time_duration_tag, bool >::type
     wait_for(Lock& lock, Duration const& rel_time, Predicate pred)
     {
-        while (!pred())
-        {
-            if (this->wait_for(lock, rel_time) != sync::cv_status::no_timeout)
-                return pred();
-        }
-        return true;
+        return this->timed_wait(lock, rel_time, pred);
     }
 
     BOOST_DELETED_FUNCTION(condition_variable_any(condition_variable_any const&))
-- 
2.43.0


From 987c04a4e57589b08213d7a3abdcc6fd6d131adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 07/18] fix: emulated semaphores and events do not restart the
 timeout of a relative wait

---
 .../events/auto_reset_event_emulation.hpp     | 23 +++++++++++--------
 .../events/manual_reset_event_emulation.hpp   | 23 +++++++++++--------
 .../detail/semaphore/semaphore_emulation.hpp  | 23 +++++++++++--------
 3 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 358e368..2da4e0c 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -36,6 +36,17 @@ class auto_reset_event
     BOOST_DELETED_FUNCTION(auto_reset_event(auto_reset_event const&));
     BOOST_DELETED_FUNCTION(auto_reset_event& operator= (auto_reset_event const&));
 
+private:
+    //! The condition of timed waits. The condition variable keeps the deadline when it is woken up and the condition is not met.
+    class event_is_set
+    {
+        bool const& m_is_set;
+
+    public:
+        explicit event_is_set(bool const& value) BOOST_NOEXCEPT : m_is_set(value) {}
+        bool operator() () const BOOST_NOEXCEPT { return m_is_set; }
+    };
+
 public:
     auto_reset_event() : m_is_set(false)
     {
@@ -75,16 +86,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, event_is_set(m_is_set)))
+            return false;
 
         m_is_set = false;
         return true;
diff --git a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
index b6183af..873fb0c 100644
--- a/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/manual_reset_event_emulation.hpp
@@ -36,6 +36,17 @@ class manual_reset_event
     BOOST_DELETED_FUNCTION(manual_reset_event(manual_reset_event const&));
     BOOST_DELETED_FUNCTION(manual_reset_event& operator= (manual_reset_event const&));
 
+private:
+    //! The condition of timed waits. The condition variable keeps the deadline when it is woken up and the condition is not met.
+    class event_is_set
+    {
+        bool const& m_is_set;
+
+    public:
+        explicit event_is_set(bool const& value) BOOST_NOEXCEPT : m_is_set(value) {}
+        bool operator() () const BOOST_NOEXCEPT { return m_is_set; }
+    };
+
 public:
     manual_reset_event() : m_is_set(false)
     {
@@ -76,16 +87,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (!m_is_set)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (!m_is_set)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, event_is_set(m_is_set)))
+            return false;
 
         return true;
     }
diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index db69570..771341e 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -36,6 +36,17 @@ class semaphore
     BOOST_DELETED_FUNCTION(semaphore(semaphore const&))
     BOOST_DELETED_FUNCTION(semaphore& operator=(semaphore const&))
 
+private:
+    //! The condition of timed waits. The condition variable keeps the deadline when it is woken up and the condition is not met.
+    class count_is_positive
+    {
+        unsigned int const& m_count;
+
+    public:
+        explicit count_is_positive(unsigned int const& value) BOOST_NOEXCEPT : m_count(value) {}
+        bool operator() () const BOOST_NOEXCEPT { return m_count != 0; }
+    };
+
 public:
     explicit semaphore(unsigned int i = 0) : m_count(i)
     {
@@ -71,16 +82,8 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        while (m_count == 0)
-        {
-            if (!m_cond.timed_wait(lock, timeout))
-            {
-                if (m_count == 0)
-                    return false;
-                else
-                    break;
-            }
-        }
+        if (!m_cond.timed_wait(lock, timeout, count_is_positive(m_count)))
+            return false;
 
         --m_count;
         return true;
-- 
2.43.0


From 07c8755abf8ccd3dac9583d77467fc913b9b03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 08/18] fix: emulated semaphore reports overflow of its counter

---
 include/boost/sync/detail/semaphore/semaphore_emulation.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
index 771341e..8ca5bd3 100644
--- a/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
+++ b/include/boost/sync/detail/semaphore/semaphore_emulation.hpp
@@ -10,6 +10,8 @@
 #ifndef BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 #define BOOST_SYNC_DETAIL_SEMAPHORE_SEMAPHORE_EMULATION_HPP_INCLUDED_
 
+#include <errno.h>
+#include <limits.h>
 #include <boost/core/enable_if.hpp>
 #include <boost/sync/detail/config.hpp>
 #include <boost/sync/detail/time_traits.hpp>
@@ -17,6 +19,8 @@
 #include <boost/sync/locks/unique_lock.hpp>
 #include <boost/sync/mutexes/mutex.hpp>
 #include <boost/sync/condition_variables/condition_variable.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/overflow_error.hpp>
 #include <boost/sync/detail/header.hpp>
 
 #ifdef BOOST_HAS_PRAGMA_ONCE
@@ -55,6 +59,8 @@ public:
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
+        if (BOOST_UNLIKELY(m_count == UINT_MAX))
+            BOOST_SYNC_DETAIL_THROW(overflow_error, (EOVERFLOW)("semaphore post failed: semaphore counter overflow"));
         ++m_count;
         m_cond.notify_one();
     }
-- 
2.43.0


From 18a04c000e3a114e50b5f408d42a86e64831c39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:38 +0000
Subject: [PATCH 09/18] fix: emulated auto_reset_event lost posts made while
 several threads were blocked

Every post releases one of the blocked threads; posts used to be merged until the released thread had run.
---
 .../events/auto_reset_event_emulation.hpp     | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
index 2da4e0c..9b0052d 100644
--- a/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_emulation.hpp
@@ -40,25 +40,38 @@ private:
     //! The condition of timed waits. The condition variable keeps the deadline when it is woken up and the condition is not met.
     class event_is_set
     {
-        bool const& m_is_set;
+        unsigned int const& m_signal_count;
 
     public:
-        explicit event_is_set(bool const& value) BOOST_NOEXCEPT : m_is_set(value) {}
-        bool operator() () const BOOST_NOEXCEPT { return m_is_set; }
+        explicit event_is_set(unsigned int const& signal_count) BOOST_NOEXCEPT : m_signal_count(signal_count) {}
+        bool operator() () const BOOST_NOEXCEPT { return m_signal_count > 0; }
+    };
+
+    //! The thread is counted as a waiter while the object exists. The mutex must be locked on construction and destruction.
+    class waiter_guard
+    {
+        unsigned int& m_waiter_count;
+
+    public:
+        explicit waiter_guard(unsigned int& waiter_count) BOOST_NOEXCEPT : m_waiter_count(waiter_count) { ++m_waiter_count; }
+        ~waiter_guard() { --m_waiter_count; }
+
+        BOOST_DELETED_FUNCTION(waiter_guard(waiter_guard const&));
+        BOOST_DELETED_FUNCTION(waiter_guard& operator= (waiter_guard const&));
     };
 
 public:
-    auto_reset_event() : m_is_set(false)
+    auto_reset_event() : m_signal_count(0), m_waiter_count(0)
     {
     }
 
     void post()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool already_signaled = m_is_set;
-        if (!already_signaled)
+        // Every blocked thread is released by a separate post. At most one signal is kept in addition to that.
+        if (m_signal_count <= m_waiter_count)
         {
-            m_is_set = true;
+            ++m_signal_count;
             m_cond.notify_one();
         }
     }
@@ -66,19 +79,20 @@ public:
     void wait()
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
+        waiter_guard guard(m_waiter_count);
 
-        while (!m_is_set)
+        while (m_signal_count == 0)
             m_cond.wait(lock);
 
-        m_is_set = false;
+        --m_signal_count;
     }
 
     bool try_wait()
     {
         sync::lock_guard< sync::mutex > lock(m_mutex);
-        const bool res = m_is_set;
+        const bool res = m_signal_count > 0;
         if (res)
-            m_is_set = false;
+            --m_signal_count;
         return res;
     }
 
@@ -86,10 +100,12 @@ public:
     typename enable_if_c< sync::detail::time_traits< Time >::is_specialized, bool >::type timed_wait(Time const& timeout)
     {
         sync::unique_lock< sync::mutex > lock(m_mutex);
-        if (!m_cond.timed_wait(lock, timeout, event_is_set(m_is_set)))
+        waiter_guard guard(m_waiter_count);
+
+        if (!m_cond.timed_wait(lock, timeout, event_is_set(m_signal_count)))
             return false;
 
-        m_is_set = false;
+        --m_signal_count;
         return true;
     }
 
@@ -108,7 +124,8 @@ public:
 private:
     sync::mutex m_mutex;
     sync::condition_variable m_cond;
-    bool m_is_set;
+    unsigned int m_signal_count;
+    unsigned int m_waiter_count;
 };
 
 } // namespace abi
-- 
2.43.0


From e21105799105012ae6d25e8afdf284a92f4d84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:46 +0000
Subject: [PATCH 10/18] fix: semaphore-based auto_reset_event kept two signals
 when a wait timed out while the event was posted

A post made between the timeout and the end of the wait counted the leaving thread as a waiter.
---
 .../events/auto_reset_event_semaphore.hpp     | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index ec8a449..02c7e3d 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -71,14 +71,12 @@ public:
 
     bool try_wait()
     {
-        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
-
-        const bool wait_successful = m_sem.try_wait();
-        if (wait_successful)
-            return true;
+        // The semaphore is taken first, so that an unsuccessful attempt is not counted as a waiter by a concurrent post
+        if (!m_sem.try_wait())
+            return false;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        m_state.fetch_add(1, detail::atomic_ns::memory_order_acquire);
+        return true;
     }
 
     template< typename Time >
@@ -90,8 +88,24 @@ public:
         if (wait_successful)
             return true;
 
-        m_state.fetch_add(-1, detail::atomic_ns::memory_order_relaxed);
-        return false;
+        // A post that has counted this thread as a waiter must not leave an extra signal behind
+        int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+        for (;;)
+        {
+            if (old_state > 0)
+            {
+                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_relaxed, detail::atomic_ns::memory_order_relaxed))
+                    return false;
+            }
+            else
+            {
+                if (m_sem.try_wait())
+                    return true;
+
+                detail::pause();
+                old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
+            }
+        }
     }
 
     template< typename Duration >
-- 
2.43.0


From b3e73fe7626a872b33d8b788437b3e656b86fc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 11/18] fix: interrupted pthread_cond_wait could miss a
 notification on platforms where it returns EINTR

Restarting the wait loses a notification that is made before the thread locks the mutex again.
---
 include/boost/sync/detail/pthread.hpp | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/include/boost/sync/detail/pthread.hpp b/include/boost/sync/detail/pthread.hpp
index cb13728..d8376f5 100644
--- a/include/boost/sync/detail/pthread.hpp
+++ b/include/boost/sync/detail/pthread.hpp
@@ -129,26 +129,18 @@ BOOST_FORCEINLINE int pthread_cond_destroy(pthread_cond_t* c) BOOST_NOEXCEPT
     return ret;
 }
 
+// Note: An interrupted wait must not be restarted since the thread may have missed a notification before it locked the mutex. It is reported as a spurious wakeup.
+
 BOOST_FORCEINLINE int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) BOOST_NOEXCEPT
 {
-    int ret;
-    do
-    {
-        ret = ::pthread_cond_wait(c, m);
-    }
-    while (ret == EINTR);
-    return ret;
+    const int ret = ::pthread_cond_wait(c, m);
+    return ret != EINTR ? ret : 0;
 }
 
 BOOST_FORCEINLINE int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct ::timespec* t) BOOST_NOEXCEPT
 {
-    int ret;
-    do
-    {
-        ret = ::pthread_cond_timedwait(c, m, t);
-    }
-    while (ret == EINTR);
-    return ret;
+    const int ret = ::pthread_cond_timedwait(c, m, t);
+    return ret != EINTR ? ret : 0;
 }
 
 #endif // !defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
-- 
2.43.0


From 12bba2f323fd37a381626dfa1f8eeafea2fddfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:10 +0000
Subject: [PATCH 12/18] fix: auto_reset_event::post did not synchronize with
 the waiter when the event was already signalled

The release fence was not followed by a store, so what was written before the post could be missed by the thread consuming the signal.
---
 .../detail/events/auto_reset_event_futex.hpp  | 10 +++++----
 .../events/auto_reset_event_semaphore.hpp     | 22 ++++++++-----------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/boost/sync/detail/events/auto_reset_event_futex.hpp b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
index 4112bd6..244a5d5 100644
--- a/include/boost/sync/detail/events/auto_reset_event_futex.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_futex.hpp
@@ -67,14 +67,16 @@ public:
             {
                 if (m_state.compare_exchange_weak(old_state, old_state + post_count_one, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
                     break;
-
-                detail::pause();
             }
             else
             {
-                detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
-                return; // the event is already set (enough times so that all waiters are released and the event is still left signalled)
+                // The event is already set (enough times so that all waiters are released and the event is still left signalled).
+                // The state has to be written nevertheless, so that the thread that consumes the signal synchronizes with this thread.
+                if (m_state.compare_exchange_weak(old_state, old_state, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
+                    return;
             }
+
+            detail::pause();
         }
 
         if (waiters > 0)
diff --git a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
index 02c7e3d..60bfa6d 100644
--- a/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
+++ b/include/boost/sync/detail/events/auto_reset_event_semaphore.hpp
@@ -43,24 +43,20 @@ public:
     void post() BOOST_NOEXCEPT
     {
         int32_t old_state = m_state.load(detail::atomic_ns::memory_order_relaxed);
-        if (old_state >= 0)
+        for (;;)
         {
-            for (;;)
+            // If someone else has set the auto_reset_event with no waiters, the state is left unchanged. It has to be written nevertheless,
+            // so that the thread that consumes the signal synchronizes with this thread.
+            const bool already_signalled = old_state < 0;
+            if (m_state.compare_exchange_weak(old_state, already_signalled ? old_state : old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
             {
-                if (m_state.compare_exchange_weak(old_state, old_state - 1, detail::atomic_ns::memory_order_release, detail::atomic_ns::memory_order_relaxed))
-                {
+                if (!already_signalled)
                     m_sem.post();
-                    return; // avoid unnecessary fence
-                }
-
-                if (old_state < 0)
-                    break; // someone else has set the auto_reset_event with no waiters
-
-                detail::pause();
+                return;
             }
-        }
 
-        detail::atomic_ns::atomic_thread_fence(detail::atomic_ns::memory_order_release);
+            detail::pause();
+        }
     }
 
     void wait()
-- 
2.43.0


From cdff65e0d58f067e411ec9666b421fcda60a3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:37 +0000
Subject: [PATCH 13/18] fix: lock conversions access private members of other
 lock types

unique_lock(upgrade_lock&&), shared_lock(unique_lock&&), shared_lock(upgrade_lock&&)
and upgrade_lock(unique_lock&&), as well as the corresponding assignments, could not
be instantiated.
---
 include/boost/sync/locks/shared_lock.hpp  | 4 ++--
 include/boost/sync/locks/unique_lock.hpp  | 2 +-
 include/boost/sync/locks/upgrade_lock.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/sync/locks/shared_lock.hpp b/include/boost/sync/locks/shared_lock.hpp
index b825433..f034cc0 100644
--- a/include/boost/sync/locks/shared_lock.hpp
+++ b/include/boost/sync/locks/shared_lock.hpp
@@ -104,7 +104,7 @@ public:
 
     // Conversion from unique locking
     explicit shared_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_shared();
@@ -112,7 +112,7 @@ public:
     }
 
     explicit shared_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock_shared();
diff --git a/include/boost/sync/locks/unique_lock.hpp b/include/boost/sync/locks/unique_lock.hpp
index 98bd74a..4844d90 100644
--- a/include/boost/sync/locks/unique_lock.hpp
+++ b/include/boost/sync/locks/unique_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit unique_lock(BOOST_RV_REF(upgrade_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_upgrade_and_lock();
diff --git a/include/boost/sync/locks/upgrade_lock.hpp b/include/boost/sync/locks/upgrade_lock.hpp
index 765fe24..8fe0645 100644
--- a/include/boost/sync/locks/upgrade_lock.hpp
+++ b/include/boost/sync/locks/upgrade_lock.hpp
@@ -103,7 +103,7 @@ public:
     }
 
     explicit upgrade_lock(BOOST_RV_REF(unique_lock< mutex_type >) that) :
-        m_mutex(that.m_mutex), m_is_locked(that.m_is_locked)
+        m_mutex(that.mutex()), m_is_locked(that.owns_lock())
     {
         if (m_is_locked)
             m_mutex->unlock_and_lock_upgrade();
-- 
2.43.0


From 72fd4c0a23d631a5814c02d318f4dcebcb0d56ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:17 +0000
Subject: [PATCH 14/18] fix: keep thread-specific values and registrations
 working while a thread exits

The pthread key destructor runs with the key already reset, so functions
registered with at_thread_exit saw null thread-specific values, and whatever
they or the cleanup functions registered or stored went to another context,
processed after the notifications, or never when the limit of destructor
iterations was reached. Keep the context current until it is destroyed and
repeat until nothing is left.
---
 src/tss_manager.hpp | 42 ++++++++++++++++++++-----------------
 src/tss_pthread.cpp | 51 ++++++++++++++++++++++++---------------------
 2 files changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 6cd7648..4f7afca 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -149,31 +149,35 @@ public:
 
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
-        // Run cleanup functions
-        while (!p->m_at_exit_functions.empty())
+        // Cleanup functions may register new functions and set new values
+        while (!p->m_at_exit_functions.empty() || !p->m_storage.empty())
         {
-            std::vector< thread_context::at_exit_entry > at_exit_functions;
-            at_exit_functions.swap(p->m_at_exit_functions);
-
-            for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+            // Run cleanup functions
+            while (!p->m_at_exit_functions.empty())
             {
-                it->callback(it->context);
+                std::vector< thread_context::at_exit_entry > at_exit_functions;
+                at_exit_functions.swap(p->m_at_exit_functions);
+
+                for (std::vector< thread_context::at_exit_entry >::reverse_iterator it = at_exit_functions.rbegin(), end = at_exit_functions.rend(); it != end; ++it)
+                {
+                    it->callback(it->context);
+                }
             }
-        }
 
-        // Destroy TLS
-        while (!p->m_storage.empty())
-        {
-            std::vector< void* > storage;
-            storage.swap(p->m_storage);
-            for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
+            // Destroy TLS
+            while (!p->m_storage.empty())
             {
-                void* const value = storage[key];
-                if (value)
+                std::vector< void* > storage;
+                storage.swap(p->m_storage);
+                for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
                 {
-                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                    if (cleanup)
-                        cleanup(value);
+                    void* const value = storage[key];
+                    if (value)
+                    {
+                        const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
+                        if (cleanup)
+                            cleanup(value);
+                    }
                 }
             }
         }
diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index 29d57ca..c942212 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -41,13 +41,40 @@ static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
 static pthread_key_t tss_key;
 #endif
 
+#if defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return tss_context;
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    tss_context = p;
+}
+
+#else // defined(BOOST_SYNC_DETAIL_TLS)
+
+BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
+{
+    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
+}
+BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+{
+    pthread_setspecific(tss_key, p);
+}
+
+#endif // defined(BOOST_SYNC_DETAIL_TLS)
+
 extern "C" {
 
 static void tss_cleanup(void* p)
 {
     if (tss_manager::thread_context* ctx = static_cast< tss_manager::thread_context* >(p))
     {
+        // The thread-specific value was reset by the system. Restore it so that the functions that are called during the cleanup can still access the context.
+        set_thread_context(ctx);
         tss_mgr->destroy_thread_context(ctx);
+        set_thread_context(NULL);
     }
 }
 
@@ -70,30 +97,6 @@ static void init_tss()
 
 } // extern "C"
 
-#if defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return tss_context;
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    tss_context = p;
-}
-
-#else // defined(BOOST_SYNC_DETAIL_TLS)
-
-BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCEPT
-{
-    return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
-}
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
-{
-    pthread_setspecific(tss_key, p);
-}
-
-#endif // defined(BOOST_SYNC_DETAIL_TLS)
-
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
-- 
2.43.0


From 084cdfb834198d20e43df5a4d346d740e032e81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:41 +0000
Subject: [PATCH 15/18] fix: protect the storage of a terminating thread from
 concurrent key creation and deletion

A terminating thread read the table of cleanup functions and its own storage
without locking the mutex, and a thread could grow its storage while another
one was deleting a key. Values that were moved out of the storage were also out of
reach of delete_key, so they could be passed to the cleanup function of another,
later pointer or be lost.
---
 src/tss_manager.hpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/tss_manager.hpp b/src/tss_manager.hpp
index 4f7afca..fa6af1c 100644
--- a/src/tss_manager.hpp
+++ b/src/tss_manager.hpp
@@ -66,11 +66,17 @@ public:
         };
 
     private:
+        //! The mutex that protects the storage from other threads
+        sync::mutex& m_mutex;
         std::vector< void* > m_storage;
         std::vector< at_exit_entry > m_at_exit_functions;
         std::vector< notify_at_exit_entry > m_notify_at_exit;
 
     public:
+        explicit thread_context(sync::mutex& mtx) : m_mutex(mtx)
+        {
+        }
+
         void* get_value(thread_specific_key key) const BOOST_NOEXCEPT
         {
             if (key < m_storage.size())
@@ -82,7 +88,11 @@ public:
         void set_value(thread_specific_key key, void* value)
         {
             if (key >= m_storage.size())
+            {
+                // Other threads may be accessing the storage in order to delete a key
+                sync::lock_guard< sync::mutex > lock(m_mutex);
                 m_storage.resize(key + 1, static_cast< void* >(NULL));
+            }
             m_storage[key] = value;
         }
 
@@ -139,7 +149,7 @@ public:
 
     thread_context* create_thread_context()
     {
-        thread_context* p = new thread_context();
+        thread_context* p = new thread_context(m_mutex);
 
         sync::lock_guard< mutex_type > lock(m_mutex);
         m_thread_contexts.push_back(*p);
@@ -150,7 +160,8 @@ public:
     void destroy_thread_context(thread_context* p) BOOST_NOEXCEPT
     {
         // Cleanup functions may register new functions and set new values
-        while (!p->m_at_exit_functions.empty() || !p->m_storage.empty())
+        bool found;
+        do
         {
             // Run cleanup functions
             while (!p->m_at_exit_functions.empty())
@@ -164,23 +175,24 @@ public:
                 }
             }
 
-            // Destroy TLS
-            while (!p->m_storage.empty())
+            // Destroy TLS. Keys can be created and deleted meanwhile, by other threads and by the cleanup functions.
+            found = false;
+            for (thread_specific_key key = 0; key < p->m_storage.size(); ++key)
             {
-                std::vector< void* > storage;
-                storage.swap(p->m_storage);
-                for (thread_specific_key key = 0, n = static_cast< thread_specific_key >(storage.size()); key < n; ++key)
+                sync::unique_lock< mutex_type > lock(m_mutex);
+                void* const value = p->m_storage[key];
+                if (value)
                 {
-                    void* const value = storage[key];
-                    if (value)
-                    {
-                        const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
-                        if (cleanup)
-                            cleanup(value);
-                    }
+                    const at_thread_exit_callback cleanup = m_storage_cleanup[key].cleanup;
+                    p->m_storage[key] = NULL;
+                    found = true;
+                    lock.unlock();
+                    if (cleanup)
+                        cleanup(value);
                 }
             }
         }
+        while (found);
 
         // Notify about thread termination. This must be performed last, after all TLS variables are destroyed.
         for (std::vector< thread_context::notify_at_exit_entry >::const_iterator it = p->m_notify_at_exit.begin(), end = p->m_notify_at_exit.end(); it != end; ++it)
-- 
2.43.0


From 2082d8b0d1d9713e22d293ca03d2fc41f60d0337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 16/18] fix: report a failure to attach the thread-specific
 context to the thread

The result of pthread_setspecific was ignored: a function registered with
at_thread_exit or a value was silently lost, and so was the notification
at thread exit, with its mutex locked forever.
---
 src/tss_pthread.cpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index c942212..f37a5dd 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -21,6 +21,8 @@
 #include <cstdlib>
 #include <pthread.h>
 #include <boost/sync/detail/tss.hpp>
+#include <boost/sync/detail/throw_exception.hpp>
+#include <boost/sync/exceptions/resource_error.hpp>
 #include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
 #include "tss_manager.hpp"
 #include <boost/sync/detail/header.hpp>
@@ -47,9 +49,10 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return tss_context;
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
     tss_context = p;
+    return 0;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -58,9 +61,9 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 {
     return static_cast< tss_manager::thread_context* >(pthread_getspecific(tss_key));
 }
-BOOST_FORCEINLINE void set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
+BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    pthread_setspecific(tss_key, p);
+    return pthread_setspecific(tss_key, p);
 }
 
 #endif // defined(BOOST_SYNC_DETAIL_TLS)
@@ -97,6 +100,18 @@ static void init_tss()
 
 } // extern "C"
 
+inline tss_manager::thread_context* init_thread_context()
+{
+    tss_manager::thread_context* const ctx = tss_mgr->create_thread_context();
+    const int err = set_thread_context(ctx);
+    if (err != 0)
+    {
+        tss_mgr->destroy_thread_context(ctx);
+        BOOST_SYNC_DETAIL_THROW(resource_error, (err)("boost: failed to store the thread-specific context in pthread_setspecific"));
+    }
+    return ctx;
+}
+
 } // namespace
 
 BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::condition_variable& cond)
@@ -105,10 +120,7 @@ BOOST_SYNC_API void add_thread_exit_notify_entry(sync::mutex& mtx, sync::conditi
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = init_thread_context();
 
     ctx->add_notify_at_exit_entry(&mtx, &cond);
 }
@@ -119,10 +131,7 @@ BOOST_SYNC_API void add_thread_exit_callback(at_thread_exit_callback callback, v
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = init_thread_context();
 
     ctx->add_at_exit_entry(callback, context);
 }
@@ -158,10 +167,7 @@ BOOST_SYNC_API void set_thread_specific(thread_specific_key key, void* p)
     tss_manager::thread_context* ctx = get_thread_context();
 
     if (!ctx)
-    {
-        ctx = tss_mgr->create_thread_context();
-        set_thread_context(ctx);
-    }
+        ctx = init_thread_context();
 
     ctx->set_value(key, p);
 }
-- 
2.43.0


From b498d31e02b059a0b920c9a2fb40590577d70963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 17/18] fix: run the cleanup at thread exit when compiler-based
 TLS is used with pthreads

With BOOST_SYNC_USE_COMPILER_TLS no pthread key was created, so thread-specific
values were never cleaned up, exit functions never called and notifications at
thread exit never sent.
---
 src/tss_pthread.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tss_pthread.cpp b/src/tss_pthread.cpp
index f37a5dd..8d28118 100644
--- a/src/tss_pthread.cpp
+++ b/src/tss_pthread.cpp
@@ -39,9 +39,9 @@ static pthread_once_t init_tss_once_flag = PTHREAD_ONCE_INIT;
 static tss_manager* tss_mgr = NULL;
 #if defined(BOOST_SYNC_DETAIL_TLS)
 static BOOST_SYNC_DETAIL_TLS tss_manager::thread_context* tss_context = NULL;
-#else
-static pthread_key_t tss_key;
 #endif
+// The key is needed even if the compiler supports TLS since its destructor performs the cleanup at thread exit
+static pthread_key_t tss_key;
 
 #if defined(BOOST_SYNC_DETAIL_TLS)
 
@@ -51,8 +51,10 @@ BOOST_FORCEINLINE tss_manager::thread_context* get_thread_context() BOOST_NOEXCE
 }
 BOOST_FORCEINLINE int set_thread_context(tss_manager::thread_context* p) BOOST_NOEXCEPT
 {
-    tss_context = p;
-    return 0;
+    const int err = pthread_setspecific(tss_key, p);
+    if (err == 0)
+        tss_context = p;
+    return err;
 }
 
 #else // defined(BOOST_SYNC_DETAIL_TLS)
@@ -92,10 +94,8 @@ static void init_tss()
         std::abort();
     }
 
-#if !defined(BOOST_SYNC_DETAIL_TLS)
     if (pthread_key_create(&tss_key, &tss_cleanup) != 0)
         std::abort();
-#endif
 }
 
 } // extern "C"
-- 
2.43.0


From ec56fad59a80b0c3ae6fb9fda6ab9157990cf8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 18/18] fix: lock_error could not be made from std::errc, so
 that the lock objects did not compile with BOOST_SYNC_USE_STD_SYSTEM_ERROR

---
 include/boost/sync/exceptions/lock_error.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/sync/exceptions/lock_error.hpp b/include/boost/sync/exceptions/lock_error.hpp
index 0bd7042..2912793 100644
--- a/include/boost/sync/exceptions/lock_error.hpp
+++ b/include/boost/sync/exceptions/lock_error.hpp
@@ -36,6 +36,10 @@ public:
     {
     }
 
+    explicit lock_error(sync::detail::errc_t sys_err) : runtime_exception(static_cast<int>(sys_err), "boost::sync::lock_error")
+    {
+    }
+
     lock_error(int sys_err, const char* what) : runtime_exception(sys_err, what)
     {
     }
@@ -44,6 +48,11 @@ public:
     {
     }
 
+    template< typename ArgString >
+    lock_error(sync::detail::errc_t sys_err, ArgString const& what) : runtime_exception(static_cast<int>(sys_err), what)
+    {
+    }
+
     ~lock_error() BOOST_NOEXCEPT_OR_NOTHROW
     {
     }
-- 
2.43.0

