#define BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
#include "vc_boost.h"
#include "scen.h"
#include <boost/thread/v2/shared_mutex.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
// Contracts of the two-gate mutexes. Inv relates the private state word to ghost ownership: es shared owners, eu upgrade
// owners, ex exclusive owners, ep threads that have entered the second gate (P: nobody new may enter, not yet owner).
enum Mode { N, S, U, X, P, NMODE };
typedef boost::thread_v2::shared_mutex V2S; typedef boost::thread_v2::upgrade_mutex V2U; typedef boost::chrono::steady_clock Mono;
static bool shape(V2S& m, uint32_t s, uint32_t u, uint32_t x, uint32_t p) { uint32_t st = m.state_; return (u == 0) & (x + p <= 1) & ((x == 0) | (s == 0)) & (((st >> 31) & 1) == x + p) & ((st & 0x7fffffffu) == s); }
static bool shape(V2U& m, uint32_t s, uint32_t u, uint32_t x, uint32_t p) { uint32_t st = m.state_; return (u + x + p <= 1) & ((x == 0) | (s == 0)) & (((st >> 31) & 1) == x + p) & (((st >> 30) & 1) == u) & ((st & 0x3fffffffu) == s + u); }
static uint32_t es, eu, ex, ep;
static const uint32_t MAXR = 0x3fffffffu;
template <class M> struct C8 {
  static M* m; static int my, pre; static bool ok[NMODE], released, waited; static int flag;
  static bool inv(int q) { return shape(*m, es + (q == S), eu + (q == U), ex + (q == X), ep + (q == P)); }
  static void havoc() { m->state_ = vc_nondet_u32("state"); es = vc_nondet_u32("env_shared"); eu = vc_nondet_bool("env_upgrade"); ex = vc_nondet_bool("env_exclusive"); ep = vc_nondet_bool("env_entered"); vc_assume(es < 0x7ffffff0u); }
  static void acq(void*) { if (released) { released = false; vc_assert(ok[my] | ok[pre] | ok[P], "C08.intermediate_ownership"); my = vc_fork(ok[my]) ? my : vc_fork(ok[pre]) ? pre : P; } for (int q = 0; q < NMODE; q++) ok[q] = false; havoc(); vc_assume(inv(my)); if (my == P && pre != N) vc_assume(es < MAXR); flag = 1; }
  static void rel(void*) { for (int q = 0; q < NMODE; q++) ok[q] = inv(q); released = true; flag = 0; }
  static void on_wait(pthread_cond_t*, pthread_mutex_t*) { waited = true; if (!released) return; released = false; vc_assert(ok[pre] | ok[P], "C08.ownership_while_waiting"); my = vc_fork(ok[pre]) ? pre : P; if (my == P && pre != N) vc_assert(es < MAXR, "C08.entered_gate_keeps_reader_count_in_range"); boost::detail::thread_data_base* t = boost::detail::get_current_thread_data(); if (t) t->interrupt_requested = vc_nondet_bool("interrupt"); }
  static void begin(int m0, bool intr) { m = new M; if (intr) boost::detail::get_or_make_current_thread_data()->interrupt_enabled = true;
    vc_monitor(m->mut_.native_handle(), acq, rel, 0); vc_env.wait_hook = on_wait; my = pre = m0; released = waited = false; vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = SC_NOW; vc_env.clk_late = SC_FAR * 3; vc_guard_add(&m->state_, sizeof m->state_, &flag, "C08.guarded_state"); }
  static void finish(int m1, bool may_wait) { vc_guard_clear(); vc_assert(released, "C08.critical_section_closed"); vc_assert(!flag, "C08.internal_mutex_released"); vc_assert(ok[m1], "C08.result_matches_ownership"); if (!may_wait) vc_assert(!waited, "C08.nonblocking_op_waits"); vc_cover("end"); }
};
template <class M> M* C8<M>::m; template <class M> int C8<M>::my; template <class M> int C8<M>::pre; template <class M> int C8<M>::flag; template <class M> bool C8<M>::ok[NMODE]; template <class M> bool C8<M>::released; template <class M> bool C8<M>::waited;
static Mono::time_point tp(int far) { return Mono::time_point(boost::chrono::nanoseconds(sc_dl(far))); } static boost::posix_time::ptime pt(int far) { return vc_ptime_us(sc_dl(far) / 1000); }
static Mono::time_point tp() { return tp(vc_choose("far")); } static boost::posix_time::ptime pt() { return pt(vc_choose("far")); } static boost::chrono::nanoseconds rd() { return boost::chrono::nanoseconds(vc_choose("far") ? SC_FAR : -5); }
#define OP(T, N_, name, m0, mw, expr, m1) ENTRY(N_##_##name) { typedef C8<T> H; H::begin(m0, mw); T& m = *H::m; bool r = true; (void)r; int after = -1; try { expr; after = m1; if (r) vc_cover("success"); } catch (boost::thread_interrupted&) { after = m0; vc_cover("interrupted"); } H::finish(after, mw); }
#define BASE(T, N_) OP(T, N_, lock_shared, N, 1, m.lock_shared(), S) OP(T, N_, try_lock_shared, N, 0, r = m.try_lock_shared(), r ? S : N) OP(T, N_, try_lock_shared_until, N, 1, r = m.try_lock_shared_until(tp()), r ? S : N) OP(T, N_, try_lock_shared_for, N, 1, r = m.try_lock_shared_for(rd()), r ? S : N) OP(T, N_, timed_lock_shared, N, 1, r = m.timed_lock_shared(pt()), r ? S : N) OP(T, N_, unlock_shared, S, 0, m.unlock_shared(), N) \
  OP(T, N_, lock, N, 1, m.lock(), X) OP(T, N_, try_lock, N, 0, r = m.try_lock(), r ? X : N) OP(T, N_, try_lock_until, N, 1, r = m.try_lock_until(tp()), r ? X : N) OP(T, N_, try_lock_for, N, 1, r = m.try_lock_for(rd()), r ? X : N) OP(T, N_, timed_lock, N, 1, r = m.timed_lock(pt()), r ? X : N) OP(T, N_, unlock, X, 0, m.unlock(), N)
BASE(V2S, shared) BASE(V2U, upgrade)
#define UP(name, m0, mw, expr, m1) OP(V2U, upgrade, name, m0, mw, expr, m1)
UP(lock_upgrade, N, 1, m.lock_upgrade(), U) UP(try_lock_upgrade, N, 0, r = m.try_lock_upgrade(), r ? U : N) UP(try_lock_upgrade_until, N, 1, r = m.try_lock_upgrade_until(tp()), r ? U : N) UP(try_lock_upgrade_for, N, 1, r = m.try_lock_upgrade_for(rd()), r ? U : N) UP(timed_lock_upgrade, N, 1, r = m.timed_lock_upgrade(pt()), r ? U : N) UP(unlock_upgrade, U, 0, m.unlock_upgrade(), N)
UP(unlock_upgrade_and_lock, U, 1, m.unlock_upgrade_and_lock(), X) UP(unlock_and_lock_upgrade, X, 0, m.unlock_and_lock_upgrade(), U) UP(try_unlock_upgrade_and_lock, U, 0, r = m.try_unlock_upgrade_and_lock(), r ? X : U) UP(try_unlock_upgrade_and_lock_until, U, 1, r = m.try_unlock_upgrade_and_lock_until(tp()), r ? X : U) UP(try_unlock_upgrade_and_lock_for, U, 1, r = m.try_unlock_upgrade_and_lock_for(rd()), r ? X : U)
UP(unlock_and_lock_shared, X, 0, m.unlock_and_lock_shared(), S) UP(try_unlock_shared_and_lock, S, 0, r = m.try_unlock_shared_and_lock(), r ? X : S) UP(try_unlock_shared_and_lock_until, S, 1, r = m.try_unlock_shared_and_lock_until(tp()), r ? X : S) UP(try_unlock_shared_and_lock_for, S, 1, r = m.try_unlock_shared_and_lock_for(rd()), r ? X : S)
UP(unlock_upgrade_and_lock_shared, U, 0, m.unlock_upgrade_and_lock_shared(), S) UP(try_unlock_shared_and_lock_upgrade, S, 0, r = m.try_unlock_shared_and_lock_upgrade(), r ? U : S) UP(try_unlock_shared_and_lock_upgrade_until, S, 1, r = m.try_unlock_shared_and_lock_upgrade_until(tp()), r ? U : S) UP(try_unlock_shared_and_lock_upgrade_for, S, 1, r = m.try_unlock_shared_and_lock_upgrade_for(rd()), r ? U : S)
template <class M> static void ctor() { M m; es = eu = ex = ep = 0; vc_assert(shape(m, 0, 0, 0, 0), "C08.constructed_unowned"); vc_cover("end"); } ENTRY(shared_ctor) { ctor<V2S>(); } ENTRY(upgrade_ctor) { ctor<V2U>(); }
// ---------------------------------------------------------------- wake-ups (see scen.h)
template <class M> struct WB { typedef M MT; static bool run2(M&, int, int) { return false; } enum { NWB = 6, NRB = 10 }; };
enum Op { LOCK_SHARED, LOCK, U_LOCK_SHARED, U_LOCK, T_LOCK_SHARED, T_LOCK, LOCK_UPGRADE, U_LOCK_UPGRADE, T_LOCK_UPGRADE, UP_TO_X, U_UP_TO_X, U_SH_TO_X, U_SH_TO_UP, NWAIT,
  TRY_LOCK_SHARED = NWAIT, TRY_LOCK, UNLOCK_SHARED, UNLOCK, TRY_LOCK_UPGRADE, TRY_SH_TO_X, TRY_SH_TO_UP, UNLOCK_UPGRADE, TRY_UP_TO_X, UP_TO_SH, X_TO_UP, X_TO_SH, NOPS };
static int prem(int o) { switch (o) { case UP_TO_X: case U_UP_TO_X: case UNLOCK_UPGRADE: case TRY_UP_TO_X: case UP_TO_SH: return U; case U_SH_TO_X: case U_SH_TO_UP: case UNLOCK_SHARED: case TRY_SH_TO_X: case TRY_SH_TO_UP: return S; case UNLOCK: case X_TO_UP: case X_TO_SH: return X; default: return N; } }
template <class M> static bool runb(M& m, int o, int f) { switch (o) { case LOCK_SHARED: m.lock_shared(); return true; case LOCK: m.lock(); return true; case U_LOCK_SHARED: return m.try_lock_shared_until(tp(f)); case U_LOCK: return m.try_lock_until(tp(f)); case T_LOCK_SHARED: return m.timed_lock_shared(pt(f)); case T_LOCK: return m.timed_lock(pt(f)); case TRY_LOCK_SHARED: return m.try_lock_shared(); case TRY_LOCK: return m.try_lock(); case UNLOCK_SHARED: m.unlock_shared(); return true; case UNLOCK: m.unlock(); return true; } vc_end(); }
static bool runa(V2S& m, int o, int f) { return runb(m, o, f); }
static bool runa(V2U& m, int o, int f) { switch (o) { case LOCK_UPGRADE: m.lock_upgrade(); return true; case U_LOCK_UPGRADE: return m.try_lock_upgrade_until(tp(f)); case T_LOCK_UPGRADE: return m.timed_lock_upgrade(pt(f)); case UP_TO_X: m.unlock_upgrade_and_lock(); return true; case U_UP_TO_X: return m.try_unlock_upgrade_and_lock_until(tp(f)); case U_SH_TO_X: return m.try_unlock_shared_and_lock_until(tp(f)); case U_SH_TO_UP: return m.try_unlock_shared_and_lock_upgrade_until(tp(f));
  case TRY_LOCK_UPGRADE: return m.try_lock_upgrade(); case TRY_SH_TO_X: return m.try_unlock_shared_and_lock(); case TRY_SH_TO_UP: return m.try_unlock_shared_and_lock_upgrade(); case UNLOCK_UPGRADE: m.unlock_upgrade(); return true; case TRY_UP_TO_X: return m.try_unlock_upgrade_and_lock(); case UP_TO_SH: m.unlock_upgrade_and_lock_shared(); return true; case X_TO_UP: m.unlock_and_lock_upgrade(); return true; case X_TO_SH: m.unlock_and_lock_shared(); return true; } return runb(m, o, f); }
template <class M> struct Cfg { typedef Sc<Cfg> Q; enum { NW = NWAIT, NR = NOPS }; static M* m; static void init() { m = new M; } static bool has(int o) { return sizeof(M) && (!is_s(m) || o < LOCK_UPGRADE || (o >= NWAIT && o <= UNLOCK)); } static bool is_s(V2S*) { return true; } static bool is_s(V2U*) { return false; }
  static bool timed(int o) { return o == U_LOCK_SHARED || o == U_LOCK || o == T_LOCK_SHARED || o == T_LOCK || o == U_LOCK_UPGRADE || o == T_LOCK_UPGRADE || o == U_UP_TO_X || o == U_SH_TO_X || o == U_SH_TO_UP; }
  static int pre(int o) { if (!has(o)) vc_end(); return prem(o); }
  // a blocked operation is at the first gate (keeping what it held) or has entered the second one
  static int waitmode(int o) { if (o == UP_TO_X || o == U_UP_TO_X) return P; if (o == LOCK || o == U_LOCK || o == T_LOCK || o == U_SH_TO_X) { for (int i = 1; i <= Q::nT; i++) if (Q::T[i].op == o && vc_sched.t[Q::T[i].id].st == VT_COND && vc_sched.t[Q::T[i].id].c == m->gate2_.native_handle()) return P; } return prem(o); }
  static void havoc() { for (int i = 1; i <= Q::nT; i++) if (vc_sched.t[Q::T[i].id].st == VT_COND && Q::T[i].id != vc_self) { bool g2 = vc_sched.t[Q::T[i].id].c == m->gate2_.native_handle(); Q::T[i].mode = g2 ? (int)P : prem(Q::T[i].op); }
    C8<M>::m = m; C8<M>::havoc(); vc_assume(shape(*m, es + Q::cnt(S), eu + Q::cnt(U), ex + Q::cnt(X), ep + Q::cnt(P))); }
  static bool run(int o, int f) { return runa(*m, o, f); } };
template <class M> M* Cfg<M>::m;
#define WK(T, N_, name, op) ENTRY(N_##_wake_##name) { Sc<Cfg<T>>::go(op, "C08.blocked_operation_able_to_proceed_is_woken"); }
#define WKB(T, N_) WK(T, N_, lock_shared, LOCK_SHARED) WK(T, N_, lock, LOCK) WK(T, N_, try_lock_shared_until, U_LOCK_SHARED) WK(T, N_, try_lock_until, U_LOCK) WK(T, N_, timed_lock_shared, T_LOCK_SHARED) WK(T, N_, timed_lock, T_LOCK)
WKB(V2S, shared) WKB(V2U, upgrade) WK(V2U, upgrade, lock_upgrade, LOCK_UPGRADE) WK(V2U, upgrade, try_lock_upgrade_until, U_LOCK_UPGRADE) WK(V2U, upgrade, timed_lock_upgrade, T_LOCK_UPGRADE) WK(V2U, upgrade, unlock_upgrade_and_lock, UP_TO_X) WK(V2U, upgrade, try_unlock_upgrade_and_lock_until, U_UP_TO_X) WK(V2U, upgrade, try_unlock_shared_and_lock_until, U_SH_TO_X) WK(V2U, upgrade, try_unlock_shared_and_lock_upgrade_until, U_SH_TO_UP)
// an operation that gives up restores the state exactly (nobody else acting meanwhile); try operations fail only if excluded
template <class M> static void gives(int op) { M& m = *new M; C8<M>::m = Cfg<M>::m = &m; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = SC_NOW; C8<M>::havoc(); int pm = prem(op); vc_assume(shape(m, es + (pm == S), eu + (pm == U), ex + (pm == X), ep)); uint32_t b = m.state_; bool r = Cfg<M>::run(op, 0);
  if (!r) { vc_assert(m.state_ == b, "C08.gave_up_restores_state"); bool full = es >= 0x3ffffff0u; bool closed = ex | ep; bool g = true;
    switch (op) { case TRY_LOCK_SHARED: case U_LOCK_SHARED: case T_LOCK_SHARED: g = closed | full; break; case TRY_LOCK: case U_LOCK: case T_LOCK: g = closed | eu | (es > 0); break; case TRY_LOCK_UPGRADE: case U_LOCK_UPGRADE: case T_LOCK_UPGRADE: case TRY_SH_TO_UP: case U_SH_TO_UP: g = closed | eu | full; break; case TRY_SH_TO_X: case U_SH_TO_X: g = closed | eu | (es > 0); break; case TRY_UP_TO_X: case U_UP_TO_X: g = es > 0; break; default: break; } vc_assert(g, "C08.fails_only_if_excluded"); }
  vc_cover("end"); }
#define GV(T, N_, name, op) ENTRY(N_##_giveup_##name) { gives<T>(op); }
#define GVB(T, N_) GV(T, N_, try_lock_shared, TRY_LOCK_SHARED) GV(T, N_, try_lock, TRY_LOCK) GV(T, N_, try_lock_until, U_LOCK) GV(T, N_, timed_lock, T_LOCK) GV(T, N_, try_lock_shared_until, U_LOCK_SHARED) GV(T, N_, timed_lock_shared, T_LOCK_SHARED)
GVB(V2S, shared) GVB(V2U, upgrade) GV(V2U, upgrade, try_lock_upgrade, TRY_LOCK_UPGRADE) GV(V2U, upgrade, try_lock_upgrade_until, U_LOCK_UPGRADE) GV(V2U, upgrade, timed_lock_upgrade, T_LOCK_UPGRADE) GV(V2U, upgrade, try_up_to_x, TRY_UP_TO_X) GV(V2U, upgrade, up_to_x_until, U_UP_TO_X) GV(V2U, upgrade, try_sh_to_x, TRY_SH_TO_X) GV(V2U, upgrade, sh_to_x_until, U_SH_TO_X) GV(V2U, upgrade, try_sh_to_up, TRY_SH_TO_UP) GV(V2U, upgrade, sh_to_up_until, U_SH_TO_UP)
