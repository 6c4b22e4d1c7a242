// C14: latch and completion_latch. Thread-modular contracts over any number of other threads, then every interleaving of small groups.
#include "vc_boost.h"
#include <boost/thread/latch.hpp>
#include <boost/thread/completion_latch.hpp>
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL;
static void (*on_assert)(); static bool asserted;
namespace boost { void assertion_failed(char const*, char const*, char const*, long) { asserted = true; if (on_assert) on_assert(); vc_fail("assert", "BOOST_ASSERT"); } void assertion_failed_msg(char const* e, char const*, char const* f, char const* g, long l) { assertion_failed(e, f, g, l); } }
static boost::latch* L; static size_t c0, cn; static size_t g0, gn; static int nacq; static bool opened, all, zero; // opened: the count has been zero at some moment since the operation began
static void acq(void*) {
  if (nacq == 0) { L->count_ = c0 = vc_nondet_u64("count"); L->generation_ = g0 = vc_nondet_u64("generation"); opened = c0 == 0; }
  else { if (vc_choose("opens")) { opened = true; L->generation_ = vc_nondet_u64("generation"); vc_assume(L->generation_ != g0); L->count_ = vc_choose("stays_open") ? 0 : vc_nondet_u64("count"); } // (reset afterwards)
    else { size_t c = vc_nondet_u64("count"); vc_assume(cn == 0 ? c == 0 : c >= 1 && c <= cn); L->count_ = c; } }
  cn = L->count_; gn = L->generation_; if (nacq < 2) nacq++;
}
static int dec; static bool want_zero; // the operation lowers the count by dec in its first critical section
static int nrel; static void rel(void*) {
  if (nrel == 0 && dec) { vc_assert(c0 > 0, "C14.never_below_zero"); vc_assert(L->count_ == c0 - 1, "C14.lowered_by_exactly_one"); if (c0 == 1) { opened = true; vc_assert(all, "C14.opening_wakes_every_waiter"); vc_assert(L->generation_ != g0, "C14.opening_is_recorded"); vc_cover("opens"); } else vc_assert(L->generation_ == g0, "C14.opening_is_recorded"); }
  else vc_assert(L->count_ == cn && L->generation_ == gn, "C14.count_unchanged");
  cn = L->count_; gn = L->generation_; if (nrel < 2) nrel++;
}
static void notified(pthread_cond_t* c, bool a) { if (c == &L->cond_.cond && a) all = true; }
static void waits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(!opened, "C14.open_latch_never_blocks"); }
static boost::mutex dummy;
static void env(int d) { dec = d; L = new boost::latch(3); vc_monitor(L->mutex_.native_handle(), acq, rel, 0); vc_env.notify_hook = notified; vc_env.wait_hook = waits; vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_late = FARNS * 3; if (vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
static void rejected() { vc_assert(nacq > 0 && c0 == 0 && L->count_ == 0 && L->generation_ == g0, "C14.below_zero_rejected_unchanged"); vc_cover("rejected"); vc_end(); }
static void fin() { vc_assert(nacq > 0 && nrel == nacq && !vc_held(L->mutex_.native_handle()), "C14.lock_released"); vc_cover("end"); }
#define INTR catch (boost::thread_interrupted&) { vc_cover("interrupted"); vc_end(); }
ENTRY(wait) { env(0); try { L->wait(); } INTR vc_assert(opened, "C14.returns_only_open"); vc_cover("opened"); fin(); }
template <class F> static void timed(F f) { env(0); boost::cv_status s; try { s = f(); } INTR if (s == boost::cv_status::no_timeout) { vc_assert(opened, "C14.returns_only_open"); vc_cover("opened"); } else { vc_assert(!opened, "C14.timeout_only_closed"); vc_cover("timeout"); } fin(); }
ENTRY(wait_for) { timed([] { return L->wait_for(bc::nanoseconds(vc_choose("far") ? FARNS - NOW : -1000)); }); } ENTRY(wait_until_steady) { timed([] { return L->wait_until(bc::steady_clock::time_point(bc::nanoseconds(vc_choose("far") ? FARNS : NOW - 1000))); }); } ENTRY(wait_until_system) { timed([] { return L->wait_until(bc::system_clock::time_point(bc::nanoseconds(vc_choose("far") ? FARNS : NOW - 1000))); }); }
ENTRY(try_wait) { env(0); bool r = L->try_wait(); vc_assert(r == (c0 == 0), "C14.try_wait_exact"); vc_assert(vc_env.waits == 0, "C14.try_does_not_block"); vc_cover(r ? "open" : "closed"); fin(); }
ENTRY(count_down) { env(1); on_assert = rejected; if (vc_choose("signal")) L->signal(); else L->count_down(); vc_assert(c0 > 0, "C14.below_zero_rejected_unchanged"); vc_assert(vc_env.waits == 0, "C14.count_down_does_not_block"); fin(); }
ENTRY(try_count_down) { env(1); on_assert = 0; struct G { static void a(void*) { acq(0); dec = c0 > 0; } }; vc_env.mon[0].acq = G::a; bool r = L->try_count_down(); vc_assert(r == (c0 <= 1), "C14.try_count_down_result"); vc_assert(vc_env.waits == 0, "C14.count_down_does_not_block"); fin(); }
ENTRY(count_down_and_wait) { env(1); on_assert = rejected; try { if (vc_choose("sync")) L->sync(); else L->count_down_and_wait(); } INTR vc_assert(c0 > 0, "C14.below_zero_rejected_unchanged"); vc_assert(opened, "C14.returns_only_open"); fin(); }
ENTRY(ctor_reset) { size_t n = vc_nondet_u64("n"); boost::latch l(n); vc_assert(l.count_ == n, "C14.constructed_count"); vc_assert(l.try_wait() == (n == 0), "C14.try_wait_exact"); size_t k = vc_nondet_u64("n"); l.reset(k); vc_assert(l.count_ == k && l.try_wait() == (k == 0), "C14.reset_sets_count"); vc_cover("end"); }
// ------------------------------------------------ latch: every interleaving of waiters and counters
static boost::latch* sl; static int total, downs, left_; static int wform;
static void waiter(void*) { switch (wform) { case 0: sl->wait(); break; case 1: { boost::cv_status s = sl->wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))); if (s == boost::cv_status::timeout) { left_++; return; } break; } } vc_assert(downs == total, "C14.returns_only_open"); vc_assert(sl->try_wait(), "C14.stays_open"); left_++; }
static void counter(void*) { downs++; sl->count_down(); }
static void both(void*) { downs++; sl->count_down_and_wait(); vc_assert(downs == total, "C14.returns_only_open"); }
static void go() { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C14.every_waiter_woken"); vc_cover("end"); }
static void s0(int n) { total = n; sl = new boost::latch(n); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = 1; }
ENTRY(sched_1w1c) { s0(1); vc_thread(waiter, 0); vc_thread(counter, 0); go(); } ENTRY(sched_2w1c) { s0(1); vc_thread(waiter, 0); vc_thread(waiter, 0); vc_thread(counter, 0); go(); } ENTRY(sched_2w2c) { s0(2); vc_thread(waiter, 0); vc_thread(waiter, 0); vc_thread(counter, 0); vc_thread(counter, 0); go(); }
ENTRY(sched_timed) { wform = 1; s0(1); vc_sched.timeouts = 1; vc_thread(waiter, 0); vc_thread(waiter, 0); vc_thread(counter, 0); go(); }
ENTRY(sched_all_wait2) { s0(2); vc_thread(both, 0); vc_thread(both, 0); go(); } ENTRY(sched_all_wait3) { s0(3); vc_thread(both, 0); vc_thread(both, 0); vc_thread(both, 0); go(); } ENTRY(sched_wait_and_both) { s0(2); vc_thread(waiter, 0); vc_thread(both, 0); vc_thread(counter, 0); go(); }
// ------------------------------------------------ completion_latch: the function runs, and waiters leave, only once the count is zero
static boost::completion_latch* cl; static int ran, out;
static void fn() { ran++; vc_assert(downs == total, "C14.completion_only_at_zero"); vc_assert(ran <= 1, "C14.completion_once"); } struct Fn { void operator()() { fn(); } };
static void cwaiter(void* f) { switch ((long)f) { case 0: cl->wait(); vc_assert(downs == total, "C14.completion_latch_releases_only_at_zero"); break; case 1: { boost::cv_status s = cl->wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))); if (s == boost::cv_status::no_timeout) vc_assert(downs == total, "C14.completion_latch_releases_only_at_zero"); break; } default: { bool r = cl->try_wait(); if (r) vc_assert(downs == total, "C14.completion_latch_releases_only_at_zero"); } } out++; }
static void ccounter(void*) { downs++; cl->count_down(); } static void cboth(void*) { downs++; cl->count_down_and_wait(); vc_assert(downs == total, "C14.completion_latch_releases_only_at_zero"); out++; }
static void cs(int n) { total = n; int k = 0; while (k < 2 && !vc_choose("kind")) k++; cl = k == 0 ? new boost::completion_latch(n, fn) : k == 1 ? new boost::completion_latch(n, Fn()) : new boost::completion_latch(n); if (k == 2) { boost::completion_latch::completion_function o = cl->then(fn); } vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = 1; }
static void csafe() { vc_run(); vc_assert(ran <= 1 && (ran == 0 || downs == total), "C14.completion_once"); vc_cover("end"); } // a waiter that comes after the release, or a lone count_down_and_wait, may stay blocked
static void cgo() { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C14.completion_latch_completes"); vc_assert(ran == 1, "C14.completion_once"); vc_cover("end"); }
ENTRY(csched_1w1c) { cs(1); vc_thread(cwaiter, 0); vc_thread(ccounter, 0); cgo(); } ENTRY(csched_1w2c) { cs(2); vc_thread(cwaiter, 0); vc_thread(ccounter, 0); vc_thread(ccounter, 0); cgo(); } ENTRY(csched_timed) { cs(1); vc_thread(cwaiter, (void*)1); vc_thread(ccounter, 0); cgo(); } ENTRY(csched_try) { cs(1); vc_thread(cwaiter, (void*)2); vc_thread(ccounter, 0); cgo(); } ENTRY(csched_both) { cs(2); vc_thread(cboth, 0); vc_thread(ccounter, 0); csafe(); } ENTRY(csched_2w1c) { cs(1); vc_thread(cwaiter, 0); vc_thread(cwaiter, 0); vc_thread(ccounter, 0); csafe(); }
