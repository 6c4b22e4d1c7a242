#define BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
#include "vc_boost.h"
#include <boost/thread/pthread/shared_mutex.hpp>
// Contract of every shared_mutex operation, for any number of other threads: representation invariant Inv relates the
// private state to ghost ownership counts of the environment (e*) and of the calling thread (my mode).
enum Mode { N, S, U, X, P, NMODE };
typedef boost::shared_mutex SM;
static SM* sm; static int flag; static int my, waitmode; static bool ok[NMODE]; static uint32_t es, eu, ex, ep; static bool released, waited;
static bool inv(int m) {
  uint32_t s = es + (m == S), u = eu + (m == U), x = ex + (m == X), p = ep + (m == P);
  auto& t = sm->state;
  bool excl = (x <= 1) & (u + p <= 1) & ((x == 0) | ((s == 0) & (u == 0) & (p == 0)));
  bool granted = (p == 1) & t.exclusive & !t.upgrade & (t.shared_count == 0) & (s == 0);
  bool pend = (p == 1) & !t.exclusive & t.upgrade & (t.shared_count == s) & (s >= 1);
  bool plain = (p == 0) & (t.shared_count == s + u) & (t.upgrade == (u == 1)) & (t.exclusive == (x == 1));
  return excl & (plain | pend | granted);
}
static void acq(void*) {
  if (released) { released = false; my = ok[my] ? my : ok[waitmode] ? waitmode : my; vc_assert(ok[my], "C06.intermediate_ownership"); }
  for (int m = 0; m < NMODE; m++) ok[m] = false;
  auto& t = sm->state; t.shared_count = vc_nondet_u32("shared_count"); t.exclusive = vc_nondet_bool("exclusive"); t.upgrade = vc_nondet_bool("upgrade"); t.exclusive_waiting_blocked = vc_nondet_bool("blocked");
  es = vc_nondet_u32("env_shared"); eu = vc_nondet_bool("env_upgrade"); ex = vc_nondet_bool("env_exclusive"); ep = vc_nondet_bool("env_pending"); vc_assume(es < 0x7fffffff); vc_assume(inv(my)); flag = 1;
}
static void rel(void*) { for (int m = 0; m < NMODE; m++) ok[m] = inv(m); released = true; flag = 0; }
static void on_wait(pthread_cond_t*, pthread_mutex_t*) { waited = true; my = waitmode; vc_assert(ok[my], "C06.ownership_while_waiting"); released = false; }
static void begin(int m0, int wm) {
  sm = new SM; vc_monitor(sm->state_change.native_handle(), acq, rel, 0); vc_env.wait_hook = on_wait; my = m0; waitmode = wm; released = false; waited = false;
  vc_guard_add(&sm->state, sizeof sm->state, &flag, "C06.guarded_state");
}
static void finish(int m1, bool may_wait) {
  vc_guard_clear(); vc_assert(released, "C06.critical_section_closed"); vc_assert(!flag, "C06.internal_mutex_released"); vc_assert(ok[m1], "C06.result_matches_ownership");
  if (!may_wait) vc_assert(!waited, "C06.nonblocking_op_waits");
  vc_cover("end");
}
static boost::chrono::steady_clock::time_point tp() { int64_t n = vc_range64("deadline", 0, 8000000000000000000LL); return boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(n)); }
static boost::posix_time::ptime pt() { int64_t n = vc_range64("deadline_us", 0, 8000000000000000LL); return vc_ptime_us(n); }
#define OP(name, m0, wm, may_wait, expr, m1) ENTRY(name) { begin(m0, wm); bool r = true; (void)r; expr; if (r) vc_cover("success"); finish(m1, may_wait); }
OP(lock_shared, N, N, 1, sm->lock_shared(), S)
OP(try_lock_shared, N, N, 0, r = sm->try_lock_shared(), r ? S : N)
OP(try_lock_shared_until, N, N, 1, r = sm->try_lock_shared_until(tp()), r ? S : N)
OP(timed_lock_shared, N, N, 1, r = sm->timed_lock_shared(pt()), r ? S : N)
OP(unlock_shared, S, S, 0, sm->unlock_shared(), N)
OP(lock, N, N, 1, sm->lock(), X)
OP(try_lock, N, N, 0, r = sm->try_lock(), r ? X : N)
OP(try_lock_until, N, N, 1, r = sm->try_lock_until(tp()), r ? X : N)
OP(timed_lock, N, N, 1, r = sm->timed_lock(pt()), r ? X : N)
OP(unlock, X, X, 0, sm->unlock(), N)
OP(lock_upgrade, N, N, 1, sm->lock_upgrade(), U)
OP(try_lock_upgrade, N, N, 0, r = sm->try_lock_upgrade(), r ? U : N)
OP(try_lock_upgrade_until, N, N, 1, r = sm->try_lock_upgrade_until(tp()), r ? U : N)
OP(timed_lock_upgrade, N, N, 1, r = sm->timed_lock_upgrade(pt()), r ? U : N)
OP(unlock_upgrade, U, U, 0, sm->unlock_upgrade(), N)
OP(unlock_upgrade_and_lock, U, P, 1, sm->unlock_upgrade_and_lock(), X)
OP(unlock_and_lock_upgrade, X, X, 0, sm->unlock_and_lock_upgrade(), U)
OP(try_unlock_upgrade_and_lock, U, U, 0, r = sm->try_unlock_upgrade_and_lock(), r ? X : U)
OP(try_unlock_upgrade_and_lock_until, U, U, 1, r = sm->try_unlock_upgrade_and_lock_until(tp()), r ? X : U)
OP(unlock_and_lock_shared, X, X, 0, sm->unlock_and_lock_shared(), S)
OP(try_unlock_shared_and_lock, S, S, 0, r = sm->try_unlock_shared_and_lock(), r ? X : S)
OP(try_unlock_shared_and_lock_until, S, S, 1, r = sm->try_unlock_shared_and_lock_until(tp()), r ? X : S)
OP(unlock_upgrade_and_lock_shared, U, U, 0, sm->unlock_upgrade_and_lock_shared(), S)
OP(try_unlock_shared_and_lock_upgrade, S, S, 0, r = sm->try_unlock_shared_and_lock_upgrade(), r ? U : S)
OP(try_unlock_shared_and_lock_upgrade_until, S, S, 1, r = sm->try_unlock_shared_and_lock_upgrade_until(tp()), r ? U : S)
