From 77c357a2f2f6b9663c35da8833e7843515f6a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 01/35] fix: shared_mutex::try_unlock_shared_and_lock_until
 must not ignore upgrade ownership

A thread holding upgrade ownership, or waiting in unlock_upgrade_and_lock for
the last reader, also counts: taking exclusive ownership next to it gave two
threads conflicting ownership.
---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..e68b33e 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,11 @@ namespace boost
                 return shared_count==1;
             }
 
+            bool only_one_shared () const
+            {
+                return shared_count==1 && ! upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -569,7 +574,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::only_one_shared, &state)))
           {
               return false;
           }
-- 
2.43.0


From 603e1a4ba0bf1a0d06f7574c06156ec04673d2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:00 +0000
Subject: [PATCH 02/35] fix: shared_mutex timed conversions miss the wake-up
 that lets them proceed

try_unlock_shared_and_lock_upgrade_until waited on exclusive_cond, which
unlock_upgrade does not notify (and where it could swallow a writer's
notification), and unlock_shared did not notify the last remaining owner
waiting in a timed conversion to exclusive ownership.
---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index e68b33e..d68fd6b 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -266,6 +266,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // let a thread waiting in try_unlock_upgrade_and_lock_until or try_unlock_shared_and_lock_until proceed
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
@@ -628,7 +633,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 243098f013b36adf2afd64e7a5f1abfc56c776d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 03/35] fix: platform_time: keep tv_nsec normalised for
 negative times

A deadline further in the past than the monotonic clock's current reading
gave a timespec with negative tv_nsec; pthread_cond_timedwait rejects it with
EINVAL, so the wait threw condition_error (or asserted, or spun) instead of
timing out.
---
 include/boost/thread/detail/platform_time.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/detail/platform_time.hpp b/include/boost/thread/detail/platform_time.hpp
index c0e40d6..5df72d1 100644
--- a/include/boost/thread/detail/platform_time.hpp
+++ b/include/boost/thread/detail/platform_time.hpp
@@ -117,9 +117,16 @@ inline FP init_steady_clock(kern_return_t & err)
     inline timespec ns_to_timespec(boost::time_max_t const& ns)
     {
       boost::time_max_t s = ns / 1000000000l;
+      boost::time_max_t r = ns % 1000000000l;
+      // tv_nsec must be in [0, 1000000000) even for a time before the epoch of the clock
+      if (r < 0)
+      {
+        --s;
+        r += 1000000000l;
+      }
       timespec ts;
       ts.tv_sec = static_cast<long> (s);
-      ts.tv_nsec = static_cast<long> (ns - s * 1000000000l);
+      ts.tv_nsec = static_cast<long> (r);
       return ts;
     }
     inline boost::time_max_t timespec_to_ns(timespec const& ts)
@@ -145,8 +152,8 @@ inline FP init_steady_clock(kern_return_t & err)
       platform_duration(boost::posix_time::time_duration const& rel_time)
       {
 #if defined BOOST_THREAD_CHRONO_POSIX_API || defined BOOST_THREAD_CHRONO_MAC_API
-        ts_val.tv_sec = rel_time.total_seconds();
-        ts_val.tv_nsec = static_cast<long>(rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
+        ts_val = ns_to_timespec(static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l
+          + rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second()));
 #else
         ns_val = static_cast<boost::time_max_t>(rel_time.total_seconds()) * 1000000000l;
         ns_val += rel_time.fractional_seconds() * (1000000000l / rel_time.ticks_per_second());
-- 
2.43.0


From 4eb4a04303faad7d6a5930c95567cc9564f8b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:26 +0000
Subject: [PATCH 04/35] fix: timed_lock with a special relative time reported
 success without locking

neg_infin and not_a_date_time made timed_mutex::timed_lock and
recursive_timed_mutex::timed_lock return true although the mutex had not been
locked. There is no time to wait, so try once.
---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From 8626843ba047ee7c3e27b86618f294a395aca272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 05/35] fix: get_xtime gave a negative nsec for times before
 1970

xtime requires 0 <= nsec < NANOSECONDS_PER_SECOND.
---
 include/boost/thread/xtime.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/xtime.hpp b/include/boost/thread/xtime.hpp
index d04a0d9..4aeb774 100644
--- a/include/boost/thread/xtime.hpp
+++ b/include/boost/thread/xtime.hpp
@@ -64,6 +64,11 @@ inline ::boost::xtime get_xtime(boost::system_time const& abs_time)
 
     res.sec=static_cast< ::boost::xtime::xtime_sec_t>(time_since_epoch.total_seconds());
     res.nsec=static_cast< ::boost::xtime::xtime_nsec_t>(time_since_epoch.fractional_seconds()*(1000000000/time_since_epoch.ticks_per_second()));
+    if (res.nsec < 0) // a time before 1970 that is not a whole number of seconds
+    {
+        res.nsec += 1000000000;
+        --res.sec;
+    }
     return res;
 }
 
-- 
2.43.0


From 2d0accfdf9c7aa073f2cef64e89a8100bcc26ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 06/35] fix: no_interruption_point::sleep_for returned early
 when a signal interrupted it

nanosleep reports EINTR and the remaining time; continue with that.
---
 src/pthread/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..fbeea54 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -456,7 +456,11 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        timespec remaining = ts.getTs();
+                        while (nanosleep(&remaining, &remaining) == -1 && errno == EINTR)
+                        {
+                            // interrupted by a signal handler: sleep for the remaining time
+                        }
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From 1bdb64cc090551cad7d54900c2b0b8bd290c3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 07/35] fix: v2 shared_mutex: giving up at the second gate lost
 counts and wake-ups

A timed operation that gave up after entering the second gate restored a
stale reader count and did not wake the threads it had been holding back.
---
 include/boost/thread/v2/shared_mutex.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..b8754f7 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +329,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +687,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +709,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -908,9 +912,10 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1019,9 +1024,10 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From b76ca0d1da5c714ef595fb9ccef3f1e7e2cd1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/35] fix: v2 shared_mutex: an interrupted wait at the second
 gate left the mutex closed

The lock operations are not interruption points; like boost::shared_mutex,
disable interruption while they wait.
---
 include/boost/thread/v2/shared_mutex.hpp | 60 ++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index b8754f7..8253824 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -153,6 +153,9 @@ public:
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
 #include <boost/thread/mutex.hpp>
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+#include <boost/thread/detail/thread_interruption.hpp>
+#endif
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -274,6 +277,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +302,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -318,6 +327,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -351,6 +363,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -376,6 +391,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -393,6 +411,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -654,6 +675,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -676,6 +700,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -698,6 +725,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -732,6 +762,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -757,6 +790,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -774,6 +810,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -810,6 +849,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -835,6 +877,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -852,6 +897,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -899,6 +947,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -955,6 +1006,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -985,6 +1039,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1014,6 +1071,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From 02bf8b6a21d6eb57c9972ed5936674390bf5dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 09/35] fix: v2 upgrade_mutex: the release of the last reader
 slot must wake readers too

---
 include/boost/thread/v2/shared_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 8253824..75f3169 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -836,7 +836,7 @@ namespace boost {
       if (no_writer())
       {
         if (num_readers == n_readers_ - 1)
-          gate1_.notify_one();
+          gate1_.notify_all(); // readers and upgraders wait there
       }
       else
       {
-- 
2.43.0


From 037e4163d2eb1a4d27b6de656f38e2a8714491bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 10/35] fix: reverse_lock re-acquires the mutex in the mode of
 the lock it reversed

~reverse_lock() always locked the mutex exclusively and then adopted it into
the lock, so a reversed shared_lock or upgrade_lock ended up holding the mutex
exclusively while releasing it in its own mode.
---
 include/boost/thread/reverse_lock.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/boost/thread/reverse_lock.hpp b/include/boost/thread/reverse_lock.hpp
index 479c314..35eeab3 100644
--- a/include/boost/thread/reverse_lock.hpp
+++ b/include/boost/thread/reverse_lock.hpp
@@ -33,8 +33,7 @@ namespace boost
         ~reverse_lock()
         {
           if (mtx) {
-            mtx->lock();
-            m = BOOST_THREAD_MAKE_RV_REF(Lock(*mtx, adopt_lock));
+            m = BOOST_THREAD_MAKE_RV_REF(Lock(*mtx));
           }
         }
 
-- 
2.43.0


From 345fbbeffbda8dd1dc0ed2c1098e8eae3b016f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 11/35] fix: a moved-from devector claimed to hold elements

Moving from a devector with consumed front elements left front_index_ at its
old value while data_ became empty: size() wrapped around and empty() was
false, so a sync_queue whose underlying_queue() had been taken handed out
elements beyond the end of an empty vector.
---
 include/boost/thread/csbl/devector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..3df0c70 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -64,6 +67,8 @@ namespace boost
       {
         data_ = boost::move(x.data_);
         front_index_ = x.front_index_;
+        x.data_.clear();
+        x.front_index_ = 0;
         return *this;
       }
 
-- 
2.43.0


From 91d31bb990655a95dbfedbf259e94a2a537c28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 12/35] fix: sync_bounded_queue::size() was wrong once the ring
 had wrapped around

The ring has capacity_ == capacity() + 1 slots, but the number of elements was
computed modulo capacity().
---
 include/boost/thread/concurrent_queues/sync_bounded_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3dcc589 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -127,7 +127,7 @@ namespace concurrent
     inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
     {
       if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 163d8680447cc99d0d2cf0b46639a6584a797fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 13/35] fix: sync_bounded_queue::wait_push_back threw when the
 queue was closed while it waited

It has to report queue_op_status::closed, as it does when the queue is closed
before the call and as wait_pull_front does.
---
 .../concurrent_queues/sync_bounded_queue.hpp  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3dcc589..d211ebf 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -542,8 +542,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -588,6 +590,22 @@ namespace concurrent
     }
   }
 
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
+
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
   void sync_bounded_queue<ValueType>::push(const ValueType& elem)
@@ -647,8 +665,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    const size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 0284497f53628d801fe534049e71d0b7806378b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:14 +0000
Subject: [PATCH 14/35] fix: sync_timed_queue::pull_until read the top of an
 empty queue when its clock was set back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..cc14490 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -289,6 +289,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return queue_op_status::success;
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
+      if (super::empty(lk)) continue; // clock was set back while waiting
 
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
-- 
2.43.0


From 43875deaacfbeb15dad37d17b4142ac9b133e415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 15/35] fix: release what was deferred to the end of a thread
 when the thread ends

Locks given to notify_all_at_thread_exit and results set with
set_*_at_thread_exit or make_ready_at_thread_exit were only released by
the destructor of the thread's data, that is not before the last
boost::thread referring to the thread went away, so waiting for them
before joining never ended.
---
 include/boost/thread/pthread/thread_data.hpp |  3 +++
 src/pthread/thread.cpp                       | 21 +++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/pthread/thread_data.hpp b/include/boost/thread/pthread/thread_data.hpp
index c43b276..cce293e 100644
--- a/include/boost/thread/pthread/thread_data.hpp
+++ b/include/boost/thread/pthread/thread_data.hpp
@@ -178,6 +178,9 @@ namespace boost
               async_states_.push_back(as);
             }
 //#endif
+
+            // Unlocks, notifies and makes ready all that was deferred to the end of this thread.
+            void run_deferred_at_thread_exit();
         };
 
         BOOST_THREAD_DECL thread_data_base* get_current_thread_data();
diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index fbeea54..f915644 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -48,14 +48,23 @@ namespace boost
     {
         thread_data_base::~thread_data_base()
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
+            run_deferred_at_thread_exit();
+        }
+
+        void thread_data_base::run_deferred_at_thread_exit()
+        {
+            notify_list_t notify_now;
+            notify_now.swap(notify);
+            for (notify_list_t::iterator i = notify_now.begin(), e = notify_now.end();
                     i != e; ++i)
             {
                 i->second->unlock();
                 i->first->notify_all();
             }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
+            async_states_t async_states_now;
+            async_states_now.swap(async_states_);
+            for (async_states_t::iterator i = async_states_now.begin(), e = async_states_now.end();
                     i != e; ++i)
             {
                 (*i)->notify_deferred();
@@ -92,7 +101,8 @@ namespace boost
 
                     if(thread_info)
                     {
-                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
+                        while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks
+                            || !thread_info->notify.empty() || !thread_info->async_states_.empty())
                         {
 
                             while(thread_info->thread_exit_callbacks)
@@ -116,6 +126,11 @@ namespace boost
                                 }
                                 thread_info->tss_data.erase(current);
                             }
+                            if (!thread_info->thread_exit_callbacks)
+                            {
+                                // the thread ends here, even if something else keeps its data alive
+                                thread_info->run_deferred_at_thread_exit();
+                            }
                         }
                         thread_info->self.reset();
                     }
-- 
2.43.0


From fec7676b792f550ac8aaaca94d0b082a526e9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:12 +0000
Subject: [PATCH 16/35] fix: honour notify_all_at_thread_exit and
 *_at_thread_exit on any thread

On a thread not started by boost the lock was dropped at once or never
released, and the result was lost or the exit of the thread asserted.
Create the thread's data when needed, as at_thread_exit does.
---
 src/pthread/thread.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index f915644..3eb2e76 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -239,8 +239,6 @@ namespace boost
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -808,11 +806,8 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
     }
 
 //#ifndef BOOST_NO_EXCEPTIONS
@@ -820,11 +815,8 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->make_ready_at_thread_exit(as);
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->make_ready_at_thread_exit(as);
     }
 }
 //#endif
-- 
2.43.0


From 374bbf61c8f4917314f061e11db0de9198a5509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 17/35] fix: reject setting a result when a deferred one has
 been given

set_*_deferred and *_at_thread_exit only rejected a promise that was ready
with a value, and set_value, emplace and set_exception only one that was
ready, so that a result given first could be overwritten.
---
 include/boost/thread/future.hpp | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..2778469 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -495,6 +495,12 @@ namespace boost
                 return done && ! exception;
             }
 
+            // a result has been set, even if it is not visible yet
+            bool has_result(unique_lock<boost::mutex>& )  const
+            {
+                return done || is_constructed;
+            }
+
             bool has_exception()  const
             {
                 boost::lock_guard<boost::mutex> lock(this->mutex);
@@ -669,7 +675,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +690,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +816,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +891,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->has_result(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2375,7 +2381,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2386,7 +2392,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2398,7 +2404,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2453,7 +2459,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2466,7 +2472,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2651,7 +2657,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2670,7 +2676,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2836,7 +2842,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2856,7 +2862,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->has_result(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From b6025c0dc9148a87ac5ac6ca2e672c13870092b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 18/35] fix: promise move assignment breaks the promise it
 replaces

The state that was owned before the assignment was dropped without a
result, so that threads waiting for it never woke.
---
 include/boost/thread/future.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2778469..a678f98 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2333,10 +2333,8 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise temp(boost::move(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2624,10 +2622,8 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise temp(boost::move(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2807,10 +2803,8 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            promise temp(boost::move(rhs));
+            swap(temp);
             return *this;
         }
 
-- 
2.43.0


From 9a1b2ee13e1b0fe85ec285f79e8d102610cd85c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 19/35] fix: promise operations report promise_moved instead of
 dereferencing null

set_value, emplace, set_exception and set_wait_callback on a promise that
was moved from dereferenced a null pointer, and the *_at_thread_exit
functions did not create the state of a lazily initialised promise.
---
 include/boost/thread/future.hpp | 56 +++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index a678f98..0c6a936 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2378,6 +2378,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2389,6 +2393,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2401,6 +2409,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2456,6 +2468,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2469,6 +2485,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2501,6 +2521,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2510,6 +2531,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2519,6 +2541,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2527,6 +2550,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2543,6 +2567,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2652,6 +2680,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2671,6 +2703,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2700,6 +2736,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2709,6 +2746,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2725,6 +2763,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2835,6 +2877,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2855,6 +2901,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->has_result(lock))
             {
@@ -2884,6 +2934,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2893,6 +2944,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2909,6 +2961,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
-- 
2.43.0


From 3768e64b7e62630a174b5df883d990e8cb867344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 20/35] fix: wait_for_any locks its futures without deadlock

The mutexes were locked one after the other in argument order, which could
deadlock with another wait_for_any, and with itself when two futures share
their state.
---
 include/boost/thread/future.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 0c6a936..2f8adf6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1152,12 +1152,22 @@ namespace boost
                    boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
                 all_futures_lock(std::vector<registered_waiter>& futures):
-                    count(futures.size()),locks(new boost::unique_lock<boost::mutex>[count])
+                    count(0),locks(new boost::unique_lock<boost::mutex>[futures.size()])
                 {
-                    for(count_type_portable i=0;i<count;++i)
+                    for(count_type i=0;i<futures.size();++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        // futures can share their state, whose mutex is locked once
+                        count_type first=0;
+                        while(futures[first].future_!=futures[i].future_)
+                        {
+                            ++first;
+                        }
+                        if(first==i)
+                        {
+                            locks[count++]=boost::unique_lock<boost::mutex>(futures[i].future_->mutex,boost::defer_lock);
+                        }
                     }
+                    lock();
                 }
 
                 void lock()
-- 
2.43.0


From 64de47ac91ca24a9acb95a77db3bdc10727a8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 21/35] fix: shared_future::get_or returns the alternative for
 an exception

It waited with rethrowing enabled.
---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2f8adf6..bd2a8a8 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2249,7 +2249,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 2f2fc525c0fd2a587524897577b1cf427ae2a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 22/35] fix: make_shared_future() returns a ready future

The promise was never given a value.
---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index bd2a8a8..eaba606 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4531,6 +4531,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From ba3fb20b3247e7917d6a2c8266b144c0e2b60c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 23/35] fix: wait_for_any on a range locks its futures without
 deadlock

As for the other overloads: the mutexes were locked in the order of the
range, and a shared state occurring twice was locked twice.
---
 include/boost/thread/futures/wait_for_any.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..6d5c6b4 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -58,12 +58,22 @@ namespace boost
         boost::scoped_array<boost::unique_lock<boost::mutex> > locks;
 
         all_futures_lock(std::vector<registered_waiter>& waiters) :
-          count(waiters.size()), locks(new boost::unique_lock<boost::mutex>[count])
+          count(0), locks(new boost::unique_lock<boost::mutex>[waiters.size()])
         {
-          for (count_type_portable i = 0; i < count; ++i)
+          for (count_type i = 0; i < waiters.size(); ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            // futures can share their state, whose mutex is locked once
+            count_type first = 0;
+            while (&waiters[first].future_->mutex() != &waiters[i].future_->mutex())
+            {
+              ++first;
+            }
+            if (first == i)
+            {
+              locks[count++] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex(), boost::defer_lock));
+            }
           }
+          lock();
         }
 
         void lock()
@@ -125,7 +135,7 @@ namespace boost
         {
           for (count_type i = 0; i < waiters_.size(); ++i)
           {
-            if (waiters_[i].future_->is_ready(lk.locks[i]))
+            if (waiters_[i].future_->is_ready(lk.locks[0]))
             {
               return waiters_[i].index;
             }
-- 
2.43.0


From 49af2f9e4fcfdb79e3eb738368ee56c5e6c732d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:45 +0000
Subject: [PATCH 24/35] fix: wait_for_any on a range counts futures without
 state

The index of the ready future was counted among the valid futures only,
but used as a position in the whole range.
---
 include/boost/thread/futures/wait_for_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 6d5c6b4..78d44e8 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -115,8 +115,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From 50d5c3f891994baf2013c64c7dcd5a826a229143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 25/35] fix: promise<R&>::set_value_deferred reports
 promise_moved

It reported promise_already_satisfied for a promise without a state.
---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index eaba606..aaad9b8 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2706,7 +2706,7 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
-- 
2.43.0


From 1f3b3c74225a970475fbf44b71789a8052f1999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 26/35] fix: a deferred function returning a reference runs
 without its future's mutex

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index aaad9b8..6dc7c0e 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1087,7 +1087,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From f529f4160735647a9880866ff001d77c2f7a1ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 27/35] fix: async and then do not wait for ever when no thread
 can be started

The destructor of their shared state waited for the result. A running thread
owns a reference to the state, so when it was started the state is ready
already, and when it could not be started nothing makes it ready.
---
 include/boost/thread/future.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6dc7c0e..e4b209f 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -943,9 +943,6 @@ namespace boost
           {
 #ifdef BOOST_THREAD_FUTURE_BLOCKING
             join();
-#elif defined BOOST_THREAD_ASYNC_FUTURE_WAITS
-            unique_lock<boost::mutex> lk(this->mutex);
-            this->waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
 #endif
           }
 
-- 
2.43.0


From 7fe281279448f878abf9ccbec924491e041a4159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 28/35] fix: packaged_task::set_wait_callback without a task
 throws task_moved

---
 include/boost/thread/future.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index e4b209f..ad371bf 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -3872,6 +3872,9 @@ namespace boost
 #endif
         template<typename F>
         void set_wait_callback(F f) {
+            if(!task) {
+                boost::throw_exception(task_moved());
+            }
             task->set_wait_callback(f,this);
         }
     };
-- 
2.43.0


From ebef14cd421b0734cc1b2bfcf294f2c9ee3429ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 29/35] fix: a continuation that cannot be launched reports it
 through its own future

The exception escaped to whoever made the antecedent ready, replaced the
result of a task and left the other continuations unlaunched.
---
 include/boost/thread/future.hpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index ad371bf..f6e05c7 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4686,7 +4686,12 @@ namespace detail
       boost::lock_guard<boost::mutex> lk(this->mutex);
       this->thr_ = boost::thread(&future_async_continuation_shared_state::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      try {
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      } catch(...) {
+        // the failure concerns this future, not the one that became ready
+        this->mark_exceptional_finish();
+      }
 #endif
     }
   };
@@ -4779,8 +4784,13 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch(...) {
+        // the failure concerns this future, not the one that became ready
+        this->mark_exceptional_finish();
+      }
     }
 
     ~future_executor_continuation_shared_state() {}
@@ -4807,7 +4817,12 @@ namespace detail {
       boost::lock_guard<boost::mutex> lk(this->mutex);
       this->thr_ = boost::thread(&base_type::run, static_shared_from_this(this));
 #else
-      boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      try {
+        boost::thread(&base_type::run, static_shared_from_this(this)).detach();
+      } catch(...) {
+        // the failure concerns this future, not the one that became ready
+        this->mark_exceptional_finish();
+      }
 #endif
     }
   };
@@ -4858,8 +4873,13 @@ namespace detail {
     }
 
     void launch_continuation() {
-      run_it<base_type> fct(static_shared_from_this(this));
-      this->get_executor()->submit(boost::move(fct));
+      try {
+        run_it<base_type> fct(static_shared_from_this(this));
+        this->get_executor()->submit(boost::move(fct));
+      } catch(...) {
+        // the failure concerns this future, not the one that became ready
+        this->mark_exceptional_finish();
+      }
     }
 
     ~shared_future_executor_continuation_shared_state() {}
-- 
2.43.0


From 957885b15c75fa0528da895ff5706767f494bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 30/35] fix: continuations inheriting an executor share its
 ownership

They referred to the executor reference owned by their antecedent, which is
destroyed once they have run, and passed it to their own continuations.
---
 include/boost/thread/future.hpp | 36 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index f6e05c7..c2b706d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4783,6 +4783,12 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -4872,6 +4878,12 @@ namespace detail {
       this->base_type::init(lk);
     }
 
+    void init(boost::unique_lock<boost::mutex> &lk, executor_ptr_type& ex)
+    {
+      this->set_executor_policy(ex, lk);
+      this->base_type::init(lk);
+    }
+
     void launch_continuation() {
       try {
         run_it<base_type> fct(static_shared_from_this(this));
@@ -5090,8 +5102,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor(); // shared with the continuation
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5114,8 +5126,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor(); // shared with the continuation
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5216,8 +5228,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
       assert(this->future_->get_executor());
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor(); // shared with the continuation
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                     lock, boost::move(*this), boost::forward<F>(func)
                 )));
@@ -5240,8 +5252,8 @@ namespace detail {
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
           assert(this->future_->get_executor());
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor(); // shared with the continuation
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_future_executor_continuation_shared_state<Ex, BOOST_THREAD_FUTURE<R>, future_type>(ex,
                         lock, boost::move(*this), boost::forward<F>(func)
                     )));
@@ -5342,8 +5354,8 @@ namespace detail {
               )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
     } else if (underlying_cast<int>(policy) & int(launch::executor)) {
-      typedef executor Ex;
-      Ex& ex = *(this->future_->get_executor());
+      typedef executor_ptr_type Ex;
+      Ex ex = this->future_->get_executor(); // shared with the continuation
       return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                     lock, *this, boost::forward<F>(func)
                 )));
@@ -5365,8 +5377,8 @@ namespace detail {
                   )));
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         } else if (underlying_cast<int>(policy_) & int(launch::executor)) {
-          typedef executor Ex;
-          Ex& ex = *(this->future_->get_executor());
+          typedef executor_ptr_type Ex;
+          Ex ex = this->future_->get_executor(); // shared with the continuation
           return BOOST_THREAD_MAKE_RV_REF((boost::detail::make_shared_future_executor_continuation_shared_state<Ex, shared_future<R>, future_type>(ex,
                         lock, *this, boost::forward<F>(func)
                     )));
-- 
2.43.0


From 0a813162ec0217271b7641d6d2884ce355985f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 31/35] fix: waiting for a deferred continuation does not hold
 its mutex, or lose it when interrupted

---
 include/boost/thread/future.hpp | 34 +++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c2b706d..0107669 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -387,12 +387,18 @@ namespace boost
             void wait_internal(boost::unique_lock<boost::mutex> &lk, bool rethrow=true)
             {
               do_callback(lk);
-              if (is_deferred_)
+              while (!done)
               {
-                is_deferred_=false;
-                execute(lk);
+                if (is_deferred_)
+                {
+                  is_deferred_=false;
+                  execute(lk);
+                }
+                else
+                {
+                  waiters.wait(lk);
+                }
               }
-              waiters.wait(lk, boost::bind(&shared_state_base::is_done, this));
               if(rethrow && exception)
               {
                   boost::rethrow_exception(exception);
@@ -4913,7 +4919,15 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      try {
+        relocker relock(lk);
+        this->parent.wait();
+      } catch(...) {
+        // interrupted: left to another waiter
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
+      }
       this->call(lk);
     }
 
@@ -4936,7 +4950,15 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      try {
+        relocker relock(lk);
+        this->parent.wait();
+      } catch(...) {
+        // interrupted: left to another waiter
+        this->is_deferred_ = true;
+        this->waiters.notify_all();
+        throw;
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From 150b0075aa9078718f9dbdabf807e195242d20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 32/35] fix: a pool whose constructor fails half-way joins the
 workers it has started

---
 .../boost/thread/executors/basic_thread_pool.hpp   |  8 ++++++++
 .../thread/executors/scheduled_thread_pool.hpp     | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..e5a92af 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -156,6 +156,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already started use this object, which is about to disappear.
+        join();
         throw;
       }
     }
@@ -182,6 +184,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already started use this object, which is about to disappear.
+        join();
         throw;
       }
     }
@@ -201,6 +205,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already started use this object, which is about to disappear.
+        join();
         throw;
       }
     }
@@ -220,6 +226,8 @@ namespace executors
       catch (...)
       {
         close();
+        // the threads already started use this object, which is about to disappear.
+        join();
         throw;
       }
     }
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..e119a8d 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,19 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        this->close();
+        // the threads already started use this object, which is about to disappear.
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From f61bb0be5ec0074f0595a45a89f8cb00a8ec176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 33/35] fix: thread_executor: closures running during
 destruction can still use its mutex

---
 include/boost/thread/executors/thread_executor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..ac46cf3 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -38,8 +38,9 @@ namespace executors
     bool closed_;
     typedef scoped_thread<> thread_t;
     typedef csbl::vector<thread_t> threads_type;
-    threads_type threads_;
     mutable mutex mtx_;
+    // destroyed (and so joined) before mtx_, which the running closures may still use.
+    threads_type threads_;
 
     /**
      * Effects: try to execute one task.
-- 
2.43.0


From 94f38235ef4e57e56d4e1b1237cd7f04ac9b02bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 34/35] fix: resubmitting an lvalue closure copies it instead
 of moving from it

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..1d244b7 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From 662536e9a785db24651a92a09efa271129385f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:30 +0000
Subject: [PATCH 35/35] fix: a worker interrupted while waiting still runs the
 tasks left when the executor is closed

---
 include/boost/thread/executors/basic_thread_pool.hpp | 12 +++++++++++-
 .../executors/detail/priority_executor_base.hpp      | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index e5a92af..7e2d544 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -90,7 +90,17 @@ namespace executors
           work task;
           try
           {
-            queue_op_status st = work_queue.wait_pull(task);
+            queue_op_status st;
+            try
+            {
+              st = work_queue.wait_pull(task);
+            }
+            catch (boost::thread_interrupted&)
+            {
+              // once closed there is nothing to wait for any more, but the closures already submitted are still to be run.
+              if (!closed()) throw;
+              continue;
+            }
             if (st == queue_op_status::closed) {
               return;
             }
diff --git a/include/boost/thread/executors/detail/priority_executor_base.hpp b/include/boost/thread/executors/detail/priority_executor_base.hpp
index 1eb0c6e..8a0cc5e 100644
--- a/include/boost/thread/executors/detail/priority_executor_base.hpp
+++ b/include/boost/thread/executors/detail/priority_executor_base.hpp
@@ -59,7 +59,17 @@ namespace detail
         {
           try {
             work task;
-            queue_op_status st = _workq.wait_pull(task);
+            queue_op_status st;
+            try
+            {
+              st = _workq.wait_pull(task);
+            }
+            catch (boost::thread_interrupted&)
+            {
+              // once closed there is nothing to wait for any more, but the closures already due are still to be run.
+              if (!closed()) throw;
+              continue;
+            }
             if (st == queue_op_status::closed) return;
             task();
           }
-- 
2.43.0

