#define BOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS
#include "vc_boost.h"
#include <boost/thread/pthread/shared_mutex.hpp>
// Wake-up contract of shared_mutex. W is an arbitrary blocked operation, W2 an arbitrary other blocked operation, R an
// arbitrary operation executed by another thread; every further thread is summarised by the ghost counts es/eu/ex/ep,
// which range over all values. W is blocked in an arbitrary state satisfying the representation invariant; if R leaves
// W able to proceed, then W - or the waiter that received the notification and could proceed - must have been notified.
enum Mode { N, S, U, X, P };
typedef boost::shared_mutex SM;
static SM* sm; static const int64_t FAR_ = 1000000000000000LL, NOW_ = 5000000000LL;
static boost::chrono::steady_clock::time_point tp(int far) { return boost::chrono::steady_clock::time_point(boost::chrono::nanoseconds(far ? FAR_ * far : NOW_ - 1)); }
static boost::posix_time::ptime pt(int far) { return vc_ptime_us((far ? FAR_ * far : NOW_ - 1000) / 1000); }
struct Th { int op, mode; int far; bool done, ok; int id; };
static Th T[4]; static int nT; static uint32_t es, eu, ex, ep;
enum Op { LOCK_SHARED, LOCK, LOCK_UPGRADE, UP_TO_X, U_LOCK_SHARED, U_LOCK, U_LOCK_UPGRADE, T_LOCK_SHARED, T_LOCK, T_LOCK_UPGRADE, U_UP_TO_X, U_SH_TO_X, U_SH_TO_UP, NWAIT,
  TRY_LOCK_SHARED = NWAIT, TRY_LOCK, TRY_LOCK_UPGRADE, UNLOCK_SHARED, TRY_SH_TO_X, TRY_SH_TO_UP, UNLOCK_UPGRADE, TRY_UP_TO_X, UP_TO_SH, UNLOCK, X_TO_UP, X_TO_SH, NOPS };
static int pre(int o) { switch (o) { case UP_TO_X: case U_UP_TO_X: case UNLOCK_UPGRADE: case TRY_UP_TO_X: case UP_TO_SH: return U; case U_SH_TO_X: case U_SH_TO_UP: case UNLOCK_SHARED: case TRY_SH_TO_X: case TRY_SH_TO_UP: return S; case UNLOCK: case X_TO_UP: case X_TO_SH: return X; default: return N; } }
static int waitmode(int o) { return o == UP_TO_X ? P : pre(o); }
static bool timed(int o) { return o >= U_LOCK_SHARED && o <= U_SH_TO_UP; }
static int cnt(int m) { int n = 0; for (int i = 1; i <= nT; i++) n += T[i].mode == m; return n; }
static bool inv() {
  uint32_t s = es + cnt(S), u = eu + cnt(U), x = ex + cnt(X), p = ep + cnt(P); auto& t = sm->state;
  bool excl = (x <= 1) & (u + p <= 1) & ((x == 0) | ((s == 0) & (u == 0) & (p == 0)));
  bool granted = (p == 1) & t.exclusive & !t.upgrade & (t.shared_count == 0) & (s == 0);
  bool pend = (p == 1) & !t.exclusive & t.upgrade & (t.shared_count == s) & (s >= 1);
  bool plain = (p == 0) & (t.shared_count == s + u) & (t.upgrade == (u == 1)) & (t.exclusive == (x == 1));
  return excl & (plain | pend | granted);
}
static void havoc() {
  auto& t = sm->state; t.shared_count = vc_nondet_u32("shared_count"); t.exclusive = vc_nondet_bool("exclusive"); t.upgrade = vc_nondet_bool("upgrade"); t.exclusive_waiting_blocked = vc_nondet_bool("blocked");
  es = vc_nondet_u32("env_shared"); eu = vc_nondet_bool("env_upgrade"); ex = vc_nondet_bool("env_exclusive"); ep = vc_nondet_bool("env_pending"); vc_assume(es < 0x7fffffff); vc_assume(inv());
}
static bool run(int o, int far) {
  switch (o) {
  case LOCK_SHARED: sm->lock_shared(); return true; case LOCK: sm->lock(); return true; case LOCK_UPGRADE: sm->lock_upgrade(); return true; case UP_TO_X: sm->unlock_upgrade_and_lock(); return true;
  case U_LOCK_SHARED: return sm->try_lock_shared_until(tp(far)); case U_LOCK: return sm->try_lock_until(tp(far)); case U_LOCK_UPGRADE: return sm->try_lock_upgrade_until(tp(far));
  case T_LOCK_SHARED: return sm->timed_lock_shared(pt(far)); case T_LOCK: return sm->timed_lock(pt(far)); case T_LOCK_UPGRADE: return sm->timed_lock_upgrade(pt(far));
  case U_UP_TO_X: return sm->try_unlock_upgrade_and_lock_until(tp(far)); case U_SH_TO_X: return sm->try_unlock_shared_and_lock_until(tp(far)); case U_SH_TO_UP: return sm->try_unlock_shared_and_lock_upgrade_until(tp(far));
  case TRY_LOCK_SHARED: return sm->try_lock_shared(); case TRY_LOCK: return sm->try_lock(); case TRY_LOCK_UPGRADE: return sm->try_lock_upgrade();
  case UNLOCK_SHARED: sm->unlock_shared(); return true; case TRY_SH_TO_X: return sm->try_unlock_shared_and_lock(); case TRY_SH_TO_UP: return sm->try_unlock_shared_and_lock_upgrade();
  case UNLOCK_UPGRADE: sm->unlock_upgrade(); return true; case TRY_UP_TO_X: return sm->try_unlock_upgrade_and_lock(); case UP_TO_SH: sm->unlock_upgrade_and_lock_shared(); return true;
  case UNLOCK: sm->unlock(); return true; case X_TO_UP: sm->unlock_and_lock_upgrade(); return true; case X_TO_SH: sm->unlock_and_lock_shared(); return true; }
  return false;
}
static void body(void* p) { Th* t = (Th*)p; t->ok = run(t->op, t->far); t->done = true; }
static int spawn(int op, int far) { int i = ++nT; T[i].op = op; T[i].mode = pre(op); T[i].far = far; T[i].done = false; T[i].id = vc_thread(body, &T[i]); return i; }
static bool blocked(int i) { return vc_step(T[i].id) == VT_COND; }
static bool notified(int i) { return vc_sched.t[T[i].id].notified; }
static void pass() { vc_cover("end"); vc_end(); }
static void scenario(int wop) {
  sm = new SM; vc_sched_start(); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW_; nT = 0;
  // R ranges over every operation, and over a timed waiter giving up
  int rop = 0; while (rop < NOPS && !vc_choose("next_r")) rop++;
  int w2op = -1; for (int o = 0; o < NWAIT && w2op < 0; o++) if (vc_choose("w2")) w2op = o;
  if (rop == NOPS && (w2op < 0 || !timed(w2op))) vc_end();
  int w = spawn(wop, 2), w2 = w2op >= 0 ? spawn(w2op, 1) : 0, r = rop < NOPS ? spawn(rop, false) : 0;
  havoc(); if (!blocked(w)) vc_end(); T[w].mode = waitmode(wop);
  if (w2) { havoc(); if (!blocked(w2)) vc_end(); T[w2].mode = waitmode(w2op); }
  havoc(); if (!blocked(w)) vc_end(); if (w2 && !blocked(w2)) vc_end(); if (!blocked(w)) vc_end();
  vc_sched.t[T[w].id].notified = 0; if (w2) vc_sched.t[T[w2].id].notified = 0;
  vc_cover("both_blocked");
  if (r) vc_step(T[r].id); else { vc_env.clk[0] = vc_env.clk[1] = FAR_ + 1; vc_step(T[w2].id, true); if (!T[w2].done) vc_end(); }
  if (notified(w)) { vc_cover("notified"); pass(); }
  if (w2 && r && notified(w2)) { bool to = timed(w2op) && vc_choose("w2_times_out"); if (to) vc_env.clk[0] = vc_env.clk[1] = FAR_ + 1; int st = vc_step(T[w2].id, to); if (T[w2].done && T[w2].ok) pass(); if (notified(w)) pass(); }
  vc_step(T[w].id); // would W proceed if it looked?
  vc_assert(!(T[w].done && T[w].ok), "C07.blocked_operation_able_to_proceed_is_woken"); vc_cover("stays_blocked"); pass();
}
#define W(name, op) ENTRY(wake_##name) { scenario(op); }
W(lock_shared, LOCK_SHARED) W(lock, LOCK) W(lock_upgrade, LOCK_UPGRADE) W(unlock_upgrade_and_lock, UP_TO_X)
W(try_lock_shared_until, U_LOCK_SHARED) W(try_lock_until, U_LOCK) W(try_lock_upgrade_until, U_LOCK_UPGRADE)
W(timed_lock_shared, T_LOCK_SHARED) W(timed_lock, T_LOCK) W(timed_lock_upgrade, T_LOCK_UPGRADE)
W(try_unlock_upgrade_and_lock_until, U_UP_TO_X) W(try_unlock_shared_and_lock_until, U_SH_TO_X) W(try_unlock_shared_and_lock_upgrade_until, U_SH_TO_UP)
// an abandoned wait restores everything: afterwards exactly those who could enter before can enter
static void givesup(int op) {
  sm = new SM; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW_; nT = 1; T[1].mode = pre(op); vc_self = 1;
  havoc(); auto& t = sm->state; vc_assume(!t.exclusive_waiting_blocked); auto b = t;
  bool r = run(op, false); vc_assume(!r);
  vc_assert((t.shared_count == b.shared_count) & (t.exclusive == b.exclusive) & (t.upgrade == b.upgrade), "C07.abandoned_wait_changes_no_ownership");
  bool x = b.exclusive; bool g = vc_choose("probe_upgrade") ? sm->try_lock_upgrade() == !(x || b.upgrade) : sm->try_lock_shared() == !x;
  vc_assert(g, "C07.abandoned_wait_leaves_no_restriction"); vc_cover("end");
}
#define G(name, op) ENTRY(giveup_##name) { givesup(op); }
G(try_lock_until, U_LOCK) G(timed_lock, T_LOCK) G(try_lock_shared_until, U_LOCK_SHARED) G(timed_lock_shared, T_LOCK_SHARED) G(try_lock_upgrade_until, U_LOCK_UPGRADE) G(timed_lock_upgrade, T_LOCK_UPGRADE)
G(try_unlock_upgrade_and_lock_until, U_UP_TO_X) G(try_unlock_shared_and_lock_until, U_SH_TO_X) G(try_unlock_shared_and_lock_upgrade_until, U_SH_TO_UP)
// no operation leaves the mutex closed to newcomers: "new exclusive owners are waited for" holds only while a writer
// waits (ghost ww) or exclusive ownership is held. Checked for each operation in any state and any environment.
static bool mayfail; static uint32_t ww; static int my, my1, waitm; static bool first, selfww;
static bool inv2() { auto& t = sm->state; return !t.exclusive_waiting_blocked | t.exclusive | (ww > 0) | selfww; }
static void acq2(void*) { T[1].mode = first ? my : waitm; first = false; nT = 1; havoc(); ww = vc_nondet_u32("writers_waiting"); vc_assume(ww < 1000); vc_assume(inv2()); selfww = false; mayfail = false; }
static bool isw(int op) { return op == LOCK || op == U_LOCK || op == T_LOCK; } static int curop;
static void rel2(void*) { mayfail = inv2(); }
static void wait2(pthread_cond_t*, pthread_mutex_t*) { selfww = isw(curop); vc_assert(inv2(), "C07.block_on_readers_only_while_a_writer_waits"); }
static void noclose(int op) {
  sm = new SM; vc_monitor(sm->state_change.native_handle(), acq2, rel2, 0); vc_env.wait_hook = wait2; first = true; my = pre(op); waitm = waitmode(op); curop = op; selfww = false;
  vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW_; bool far = vc_choose("deadline_far"); 
  bool r = run(op, far); vc_assert(mayfail, "C07.block_on_readers_only_while_a_writer_waits");
  if (!r) { auto& t = sm->state; bool x = t.exclusive, busy = t.shared_count != 0; bool blk = ww > 0; (void)blk;
    if (op == TRY_LOCK_SHARED) vc_assert(x | (ww > 0), "C07.try_lock_shared_fails_only_if_excluded"); if (op == TRY_LOCK) vc_assert(x | busy, "C07.try_lock_fails_only_if_owned"); if (op == TRY_LOCK_UPGRADE) vc_assert(x | t.upgrade | (ww > 0), "C07.try_lock_upgrade_fails_only_if_excluded");
    if (op == TRY_SH_TO_X) vc_assert(t.shared_count > 1 | t.upgrade | (ww > 0), "C07.try_conversion_fails_only_if_excluded"); if (op == TRY_UP_TO_X) vc_assert(t.shared_count > 1 | (ww > 0), "C07.try_conversion_fails_only_if_excluded"); if (op == TRY_SH_TO_UP) vc_assert(t.upgrade | (ww > 0), "C07.try_conversion_fails_only_if_excluded"); }
  vc_cover("end");
}
#define K(name, op) ENTRY(open_##name) { noclose(op); }
K(lock_shared, LOCK_SHARED) K(lock, LOCK) K(lock_upgrade, LOCK_UPGRADE) K(unlock_upgrade_and_lock, UP_TO_X) K(try_lock_shared_until, U_LOCK_SHARED) K(try_lock_until, U_LOCK) K(try_lock_upgrade_until, U_LOCK_UPGRADE)
K(timed_lock_shared, T_LOCK_SHARED) K(timed_lock, T_LOCK) K(timed_lock_upgrade, T_LOCK_UPGRADE) K(try_unlock_upgrade_and_lock_until, U_UP_TO_X) K(try_unlock_shared_and_lock_until, U_SH_TO_X) K(try_unlock_shared_and_lock_upgrade_until, U_SH_TO_UP)
K(try_lock_shared, TRY_LOCK_SHARED) K(try_lock, TRY_LOCK) K(try_lock_upgrade, TRY_LOCK_UPGRADE) K(unlock_shared, UNLOCK_SHARED) K(try_unlock_shared_and_lock, TRY_SH_TO_X) K(try_unlock_shared_and_lock_upgrade, TRY_SH_TO_UP) K(unlock_upgrade, UNLOCK_UPGRADE) K(try_unlock_upgrade_and_lock, TRY_UP_TO_X) K(unlock_upgrade_and_lock_shared, UP_TO_SH) K(unlock, UNLOCK) K(unlock_and_lock_upgrade, X_TO_UP) K(unlock_and_lock_shared, X_TO_SH)
