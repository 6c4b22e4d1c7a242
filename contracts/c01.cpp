#include "vc_boost.h"
#include "scen.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <boost/thread/lock_types.hpp>
// ---------------------------------------------------------------- mutex: contract over the native mutex
enum { EINTR_ = 1, EBUSY_ = 2, EDEADLK_ = 4, EINVAL_ = 8, EAGAIN_ = 16, ENOMEM_ = 32, EPERM_ = 64 };
template <class M> static void ctor() {
  vc_env.minit_err = EAGAIN_ | ENOMEM_ | EPERM_ | EINVAL_; 
  alignas(M) static char raw[sizeof(M)]; memset(raw, 0x5a, sizeof raw);
  M* m = 0; bool threw = false; vc_env.cinit_err = vc_choose("cond") ? ENOMEM_ : 0;
  try { m = new (raw) M; } catch (boost::thread_resource_error& e) { threw = true; }
  vc_env.minit_err = vc_env.cinit_err = 0;
  if (!threw) { VMutex* v = VM((pthread_mutex_t*)m->native_handle()); vc_assert(v->magic == VC_MAGIC_M && v->owner == 0, "C01.constructed_unlocked"); vc_assert(m->try_lock(), "C01.constructed_unlocked"); m->unlock(); m->~M(); vc_cover("constructed"); } else vc_cover("failed");
  vc_cover("end");
}
ENTRY(mutex_ctor) { ctor<boost::mutex>(); }
ENTRY(recursive_mutex_ctor) { ctor<boost::recursive_mutex>(); }
ENTRY(mutex_lock) {
  auto& m = *new boost::mutex; VMutex* v = VM(m.native_handle()); vc_env.lock_err = EINTR_ | EDEADLK_ | EINVAL_ | EAGAIN_ | EPERM_; vc_env.self_relock_ok = 1; bool own = vc_choose("already_own"); if (own) { v->owner = vc_self; v->count = 1; }
  bool threw = false; int code = 0; try { m.lock(); } catch (boost::lock_error& e) { threw = true; code = e.native_error(); }
  if (own) { vc_assert(threw && v->owner == vc_self && v->count == 1, "C01.failed_lock_changes_nothing"); vc_cover("relock"); }
  else { vc_assert(threw == (v->owner != vc_self), "C01.lock_result_matches_ownership"); if (threw) vc_assert(code != 0 && code != EINTR && v->owner == 0, "C01.error_reported"); else vc_assert(v->count == 1, "C01.lock_result_matches_ownership"); vc_cover(threw ? "threw" : "locked"); }
  vc_cover("end");
}
ENTRY(mutex_try_lock) {
  auto& m = *new boost::mutex; VMutex* v = VM(m.native_handle()); vc_env.trylock_err = EINTR_ | EDEADLK_ | EINVAL_ | EAGAIN_; int o = vc_choose("other") ? 9 : vc_choose("self") ? vc_self : 0; v->owner = o; v->count = o != 0;
  bool r = m.try_lock(); if (o) vc_assert(!r && v->owner == o && v->count == 1, "C01.try_lock_never_takes_an_owned_mutex"); else vc_assert(r == (v->owner == vc_self) && (r || v->owner == 0), "C01.try_lock_result_matches_ownership");
  vc_cover(r ? "locked" : "busy"); vc_cover("end");
}
ENTRY(mutex_unlock) { boost::mutex m; VMutex* v = VM(m.native_handle()); vc_env.unlock_err = EINTR_; v->owner = vc_self; v->count = 1; m.unlock(); vc_assert(v->owner == 0, "C01.unlock_releases"); vc_cover("end"); }
// ---------------------------------------------------------------- recursive_mutex: any nesting depth
static int levels(VMutex* v) { return v->owner == vc_self ? v->count : 0; }
ENTRY(recursive_mutex_ops) {
  auto& m = *new boost::recursive_mutex; VMutex* v = VM(m.native_handle()); vc_assert(v->type == PTHREAD_MUTEX_RECURSIVE, "C01.recursive_kind");
  int n = vc_range("depth", 0, 0x7ffffffe); if (vc_fork(n > 0)) { v->owner = vc_self; v->count = n; } bool other = n == 0 && vc_choose("other_owner"); if (vc_fork(other)) { v->owner = 9; v->count = vc_range("other_depth", 1, 1000); }
  vc_env.lock_err = vc_env.trylock_err = vc_env.unlock_err = EINTR_;
  if (n > 0 && vc_choose("op_unlock")) { m.unlock(); vc_assert(levels(v) == n - 1 && (n > 1 || v->owner == 0), "C01.unlock_gives_up_one_level"); }
  else if (vc_choose("op_try")) { bool r = m.try_lock(); vc_assert(r == !other && levels(v) == n + r && (r || v->owner == 9), "C01.try_lock_adds_one_level_or_nothing"); vc_cover(r ? "locked" : "busy"); }
  else { m.lock(); vc_assert(levels(v) == n + 1, "C01.lock_adds_one_level"); }
  vc_cover("end");
}
// ---------------------------------------------------------------- timed mutexes: monitor invariant over their private state
static uint32_t n0; static bool eo, released, waited; static bool ok[3]; static int flag;
struct TM { typedef boost::timed_mutex M; static bool rec() { return false; } static void havoc(M& m) { m.is_locked = vc_nondet_bool("is_locked"); } static bool inv(M& m, uint32_t n) { return (n <= 1) & !(eo & (n > 0)) & (m.is_locked == (eo | (n > 0))); } static void* st(M& m) { return &m.is_locked; } static unsigned sz(M& m) { return sizeof m.is_locked; } };
struct RM { typedef boost::recursive_timed_mutex M; static bool rec() { return true; }
  static void havoc(M& m) { m.is_locked = vc_nondet_bool("is_locked"); m.count = vc_nondet_u32("count"); m.owner = (pthread_t)vc_nondet_u64("owner"); }
  static bool inv(M& m, uint32_t n) { bool me = m.owner == (pthread_t)vc_self; return !(eo & (n > 0)) & (m.is_locked == (eo | (n > 0))) & (eo ? !me & (m.count > 0) : m.count == n) & (n > 0 ? me : true); }
  static void* st(M& m) { return &m.is_locked; } static unsigned sz(M& m) { return (char*)(&m.count + 1) - (char*)&m.is_locked; } };
template <class C> struct H {
  typedef typename C::M M; static M* m;
  static void acq(void*) { if (released) vc_assert(ok[1], "C01.intermediate_ownership"); released = false; for (int i = 0; i < 3; i++) ok[i] = false; C::havoc(*m); eo = vc_nondet_bool("env_owner"); vc_assume(C::inv(*m, n0)); flag = 1; }
  static void rel(void*) { for (int d = -1; d <= 1; d++) ok[d + 1] = (d < 0 && n0 == 0) ? false : C::inv(*m, n0 + d); released = true; flag = 0; }
  static void wait(pthread_cond_t*, pthread_mutex_t*) { waited = true; vc_assert(ok[1], "C01.ownership_while_waiting"); released = false; }
  static void begin(bool own) {
    m = new M; vc_monitor(&m->m, acq, rel, 0); vc_env.wait_hook = wait; n0 = own ? C::rec() ? vc_nondet_u32("depth") : 1 : 0; if (own) vc_assume(n0 > 0 && n0 < 0xfffffff0u); released = waited = false; vc_guard_add(C::st(*m), C::sz(*m), &flag, "C01.guarded_state");
    vc_env.lock_err = vc_env.unlock_err = vc_env.wait_err = EINTR_; vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = SC_NOW; vc_env.clk_late = 5 * SC_FAR;
  }
  static void end(int d, bool may_wait) { vc_guard_clear(); vc_assert(released && !flag, "C01.critical_section_closed"); vc_assert(ok[d + 1], "C01.result_matches_ownership"); if (!may_wait) vc_assert(!waited, "C01.nonblocking_op_waits"); vc_cover("end"); }
};
template <class C> typename C::M* H<C>::m;
template <class Clk> static boost::chrono::time_point<Clk> dl() { return boost::chrono::time_point<Clk>(typename Clk::duration(vc_choose("far") ? SC_FAR : SC_NOW - 1000)); }
static boost::posix_time::ptime pdl() { return vc_ptime_us((vc_choose("far") ? SC_FAR : SC_NOW - 1000) / 1000); }
static boost::posix_time::time_duration rd() { return boost::posix_time::microseconds(vc_choose("far") ? SC_FAR / 1000 : -5); }
#define OP(N, T, name, own, mw, expr, d) ENTRY(N##_##name) { typedef H<T> h; h::begin(own); auto& m = *h::m; bool r = true; (void)r; (void)m; expr; if (r) vc_cover("success"); else vc_cover("failure"); h::end(d, mw); }
typedef boost::chrono::steady_clock Mono; typedef boost::chrono::system_clock Sys;
#define ALL(N, T) \
  OP(N, T, lock, false, 1, m.lock(), 1) OP(N, T, try_lock, false, 0, r = m.try_lock(), r ? 1 : 0) OP(N, T, unlock, true, 0, m.unlock(), -1) \
  OP(N, T, try_lock_until_steady, false, 1, r = m.try_lock_until(dl<Mono>()), r ? 1 : 0) OP(N, T, try_lock_until_system, false, 1, r = m.try_lock_until(dl<Sys>()), r ? 1 : 0) OP(N, T, try_lock_for, false, 1, r = m.try_lock_for(boost::chrono::milliseconds(vc_choose("far") ? 1000000 : -1)), r ? 1 : 0) \
  OP(N, T, timed_lock_abs, false, 1, r = m.timed_lock(pdl()), r ? 1 : 0) OP(N, T, timed_lock_rel, false, 1, r = m.timed_lock(rd()), r ? 1 : 0) \
  OP(N, T, timed_lock_posinf, false, 1, r = m.timed_lock(boost::posix_time::time_duration(boost::posix_time::pos_infin)); vc_assert(r, "C01.infinite_wait_succeeds"), 1) OP(N, T, timed_lock_neginf, false, 1, r = m.timed_lock(boost::posix_time::time_duration(boost::posix_time::neg_infin)), r ? 1 : 0) OP(N, T, timed_lock_nadt, false, 1, r = m.timed_lock(boost::posix_time::time_duration(boost::posix_time::not_a_date_time)), r ? 1 : 0)
ALL(timed, TM) ALL(rectimed, RM)
OP(timed, TM, timed_lock_xtime, false, 1, boost::xtime x; x.sec = vc_choose("far") ? 1000000 : 1; x.nsec = 0; r = m.timed_lock(x), r ? 1 : 0)
OP(timed, TM, try_lock_owned, true, 0, r = m.try_lock(); vc_assert(!r, "C01.try_lock_never_takes_an_owned_mutex"), 0)
OP(rectimed, RM, relock, true, 0, m.lock(), 1) OP(rectimed, RM, re_try_lock, true, 0, r = m.try_lock(); vc_assert(r, "C01.recursive_relock_succeeds"), 1) OP(rectimed, RM, re_try_lock_until, true, 0, r = m.try_lock_until(dl<Mono>()); vc_assert(r, "C01.recursive_relock_succeeds"), 1) OP(rectimed, RM, re_timed_lock, true, 0, r = m.timed_lock(pdl()); vc_assert(r, "C01.recursive_relock_succeeds"), 1)
ENTRY(timed_ctor) { ctor<boost::timed_mutex>(); }
ENTRY(rectimed_ctor) { ctor<boost::recursive_timed_mutex>(); }
// ---------------------------------------------------------------- unlock lets a waiting thread proceed
enum { LOCK, U_LOCK, T_LOCK, TRY = 3, UNLOCK, NOP };
template <class C> struct Cfg : C { typedef typename C::M M; typedef Sc<Cfg> S; enum { NW = 3, NR = NOP }; static M* m; static uint32_t lv; static bool first;
  static void init() { m = new M; } static bool timed(int o) { return o == U_LOCK || o == T_LOCK; } static int pre(int o) { return o == UNLOCK; } static int waitmode(int) { return 0; }
  static void havoc() { C::havoc(*m); int own = S::cnt(1); eo = vc_nondet_bool("env_owner"); vc_assume(eo + own <= 1); int id = 0; for (int i = 1; i <= S::nT; i++) if (S::T[i].mode == 1) id = S::T[i].id; int o = vc_self; vc_self = id ? id : 77; uint32_t n = own; if (C::rec() && own) { n = 1; } vc_assume(C::inv(*m, n)); own_any(*m); vc_self = o; }
  static void own_any(boost::timed_mutex&) {} static void own_any(boost::recursive_timed_mutex& r) { for (int i = 1; i <= S::nT; i++) if (S::T[i].mode == 0) vc_assume(!(r.is_locked && r.owner == (pthread_t)S::T[i].id)); }
  static bool run(int o, int far) { switch (o) { case LOCK: m->lock(); return true; case U_LOCK: return m->try_lock_until(boost::chrono::time_point<Mono>(Mono::duration(sc_dl(far)))); case T_LOCK: return m->timed_lock(vc_ptime_us(sc_dl(far) / 1000)); case TRY: return m->try_lock(); case UNLOCK: m->unlock(); return true; } return false; } };
template <class C> typename C::M* Cfg<C>::m;
#define WK(N, T, name, op) ENTRY(N##_wake_##name) { Sc<Cfg<T>>::go(op, "C01.unlock_lets_a_waiter_proceed"); }
WK(timed, TM, lock, LOCK) WK(timed, TM, try_lock_until, U_LOCK) WK(timed, TM, timed_lock, T_LOCK) WK(rectimed, RM, lock, LOCK) WK(rectimed, RM, try_lock_until, U_LOCK) WK(rectimed, RM, timed_lock, T_LOCK)
