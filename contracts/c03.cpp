#include "vc_boost.h"
#include <boost/thread/mutex.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; typedef bc::steady_clock Mono; typedef bc::system_clock Sys;
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL;
static bool far_() { return vc_choose("far"); } static int fardl = -1; // a scenario fixes the deadline
static int64_t dl() { bool f = fardl >= 0 ? fardl : far_(); return f ? FARNS : NOW - 1000; }
static Mono::time_point mono() { return Mono::time_point(bc::nanoseconds(dl())); } static Sys::time_point sys() { return Sys::time_point(bc::nanoseconds(dl())); } static boost::posix_time::ptime pt() { return vc_ptime_us(dl() / 1000); }
static bc::nanoseconds rd() { return bc::nanoseconds(dl() - NOW); } static boost::posix_time::time_duration rt() { return boost::posix_time::microseconds((dl() - NOW) / 1000); }
typedef boost::cv_status CS;
// ------------------------------------------------ every exit re-locks; predicates
static pthread_mutex_t *um, *im; static bool predv, waited; static bd::thread_data_base* td; static bool err_ok;
static void on_wait(pthread_cond_t*, pthread_mutex_t* m) { waited = true; vc_assert(!vc_held(um), "C03.waits_without_callers_lock"); vc_assert(m != um, "C03.waits_without_callers_lock"); }
static void user_acq(void*) { predv = vc_nondet_bool("predicate"); } // the predicate changes only while the caller's lock is released
static void data_acq(void*) { td->interrupt_requested = td->interrupt_requested | vc_nondet_bool("interrupt"); }
static int on_result(pthread_cond_t*, bool timed) { if (timed && vc_choose("etimedout")) return ETIMEDOUT; if (err_ok && vc_choose("wait_error")) return EINVAL; return 0; }
struct Pred { bool operator()() const { vc_assert(vc_held(um), "C03.predicate_called_under_lock"); return predv; } };
struct ALock { boost::mutex& m; void lock() { m.lock(); } void unlock() { m.unlock(); } };
static void env(boost::mutex& mx) { um = mx.native_handle(); vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_late = FARNS * 3; vc_env.wait_hook = on_wait; vc_env.wait_result = on_result;
  if (vc_choose("interruptible")) { td = bd::get_or_make_current_thread_data(); td->interrupt_enabled = true; td->interrupt_requested = vc_nondet_bool("interrupt"); vc_monitor(td->data_mutex.native_handle(), data_acq, 0, 0); }
  vc_monitor(um, user_acq, 0, 0); }
enum Out { RET, INTR, ERR };
#define EX(N, C, LDECL, OWN, IM, name, pred, expr) ENTRY(N##_##name) { boost::mutex& mx = *new boost::mutex; env(mx); C& c = *new C; im = IM; mx.lock(); LDECL; err_ok = true; int out = RET; bool r = true; (void)r; \
  try { expr; } catch (boost::thread_interrupted&) { out = INTR; vc_cover("interrupted"); } catch (boost::condition_error&) { out = ERR; vc_cover("error"); } \
  vc_assert(vc_held(um), "C03.returns_with_lock_held"); vc_assert(OWN, "C03.returns_with_lock_held"); vc_assert(!vc_held(im), "C03.internal_mutex_released"); \
  if (pred && out == RET) vc_assert(r == predv, "C03.predicate_result"); if (out == RET) vc_cover("returned"); mx.unlock(); vc_cover("end"); }
#define LD_CV boost::unique_lock<boost::mutex> l(mx, boost::adopt_lock); struct Rel { boost::unique_lock<boost::mutex>& x; ~Rel() { x.release(); } } rel = {l}
#define LD_ANY ALock l = {mx}
#define FORM(name, pred, expr) EX(cv, boost::condition_variable, LD_CV, l.owns_lock(), &c.internal_mutex, name, pred, expr) EX(any, boost::condition_variable_any, LD_ANY, true, &c.internal_mutex, name, pred, expr)
FORM(wait, 0, c.wait(l)) FORM(wait_until_steady, 0, c.wait_until(l, mono())) FORM(wait_until_system, 0, c.wait_until(l, sys())) FORM(wait_for, 0, c.wait_for(l, rd())) FORM(timed_wait_abs, 0, c.timed_wait(l, pt())) FORM(timed_wait_rel, 0, c.timed_wait(l, rt()))
FORM(wait_pred, 1, (c.wait(l, Pred()), r = true)) FORM(wait_until_steady_pred, 1, r = c.wait_until(l, mono(), Pred())) FORM(wait_until_system_pred, 1, r = c.wait_until(l, sys(), Pred())) FORM(wait_for_pred, 1, r = c.wait_for(l, rd(), Pred())) FORM(timed_wait_abs_pred, 1, r = c.timed_wait(l, pt(), Pred())) FORM(timed_wait_rel_pred, 1, r = c.timed_wait(l, rt(), Pred()))
// a lock that is not held is rejected and stays so
ENTRY(cv_wait_unowned) { boost::mutex mx; boost::condition_variable c; boost::unique_lock<boost::mutex> l(mx, boost::defer_lock); bool t = false; try { if (vc_choose("timed")) c.wait_until(l, mono()); else c.wait(l); } catch (boost::condition_error&) { t = true; } vc_assert(t, "C03.wait_without_lock_rejected"); vc_assert(!l.owns_lock() && !vc_held(mx.native_handle()), "C03.wait_without_lock_rejected"); vc_cover("end"); }
// construction either succeeds or throws and releases what it made
template <class C> static void ctor() { vc_env.minit_err = vc_env.cinit_err = 1 << 5; static char mem[sizeof(C)] __attribute__((aligned(16))); C* c = (C*)mem; bool ok = false; try { new (mem) C; ok = true; vc_cover("made"); } catch (boost::thread_resource_error&) { vc_cover("failed"); }
  if (ok) { vc_assert(VM(&c->internal_mutex)->magic == VC_MAGIC_M && VCn(&c->cond)->magic == VC_MAGIC_C, "C03.constructed"); c->~C(); vc_assert(VCn(&c->cond)->magic == VC_DEAD, "C03.destroyed"); } else vc_assert(VCn(&c->cond)->magic != VC_MAGIC_C, "C03.failed_construction_leaves_nothing"); uint32_t mm = VM(&c->internal_mutex)->magic; vc_assert(mm == VC_DEAD || mm == 0, "C03.no_primitive_left_behind"); vc_cover("end"); }
ENTRY(cv_ctor) { ctor<boost::condition_variable>(); } ENTRY(any_ctor) { ctor<boost::condition_variable_any>(); }
// ------------------------------------------------ schedules: waiter and notifier, every interleaving of their steps
static boost::mutex* sm; static boost::condition_variable* scv; static boost::condition_variable_any* sca; static int form; static bool inwait, all, holding, sent, notified_ok;
static void wait1() { fardl = 1; if (scv) { boost::unique_lock<boost::mutex> l(*sm, boost::adopt_lock); boost::condition_variable& c = *scv; switch (form) { case 0: c.wait(l); break; case 1: c.wait_until(l, mono()); break; case 2: c.wait_until(l, sys()); break; case 3: c.wait_for(l, rd()); break; case 4: c.timed_wait(l, pt()); break; case 5: c.timed_wait(l, rt()); } l.release(); }
  else { ALock l = {*sm}; boost::condition_variable_any& c = *sca; switch (form) { case 0: c.wait(l); break; case 1: c.wait_until(l, mono()); break; case 2: c.wait_until(l, sys()); break; case 3: c.wait_for(l, rd()); break; case 4: c.timed_wait(l, pt()); break; case 5: c.timed_wait(l, rt()); } } }
static void waiter(void*) { if (td) td = bd::get_or_make_current_thread_data(), td->interrupt_enabled = true; sm->lock(); inwait = true; wait1(); sm->unlock(); }
static void ring() { if (scv) { if (all) scv->notify_all(); else scv->notify_one(); } else { if (all) sca->notify_all(); else sca->notify_one(); } }
static void notifier(void*) { sm->lock(); bool w = inwait; if (w && holding) ring(); sm->unlock(); if (w && !holding) ring(); sent = w; }
static void sc_init(bool any) { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; sm = new boost::mutex; if (any) sca = new boost::condition_variable_any; else scv = new boost::condition_variable; form = vc_choose("f0") ? 0 : vc_choose("f1") ? 1 : vc_choose("f2") ? 2 : vc_choose("f3") ? 3 : vc_choose("f4") ? 4 : 5; all = vc_choose("notify_all"); inwait = sent = false; }
static void two(bool any) { sc_init(any); holding = vc_choose("notify_under_lock"); td = vc_choose("interruptible") ? (bd::thread_data_base*)1 : 0; vc_sched_start(); vc_sched.preempt = -1; int w = vc_thread(waiter, 0), n = vc_thread(notifier, 0); vc_run(); vc_assert(vc_done(n), "C03.notifier_finishes"); if (sent) { vc_assert(vc_done(w), "C03.notification_after_release_is_not_missed"); vc_cover("sent"); } vc_cover("end"); }
ENTRY(cv_race) { two(false); } ENTRY(any_race) { two(true); }
static void ringer(void*) { ring(); }
static void blocked2(bool any) { sc_init(any); td = 0; vc_sched_start(); int a = vc_thread(waiter, 0), b = vc_thread(waiter, 0); vc_assert(vc_step(a) == VT_COND && vc_step(b) == VT_COND, "C03.waits_until_notified"); int r = vc_thread(ringer, 0); vc_assert(vc_step(r) == VT_DONE, "C03.notifier_finishes"); int k = vc_sched.t[a].notified + vc_sched.t[b].notified; vc_assert(all ? k == 2 : k >= 1, "C03.notify_wakes_waiters"); vc_run(); vc_assert(vc_done(a) + vc_done(b) >= k, "C03.notified_waiters_proceed"); vc_cover("end"); }
ENTRY(cv_notify_blocked) { blocked2(false); } ENTRY(any_notify_blocked) { blocked2(true); }
