// C21, second part: executors over their real queues. Construction that fails half-way, and every interleaving of submitters, workers,
// closers and destruction for a few threads and tasks (bounded).
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
typedef boost::executors::work W; typedef bc::steady_clock CK; typedef boost::sync_queue_is_closed closed_x; typedef boost::basic_thread_pool Pool; typedef boost::loop_executor Loop; typedef boost::serial_executor Ser; typedef boost::inline_executor Inl; typedef boost::thread_executor Thx; typedef boost::scheduled_thread_pool Stp;
static const int64_t NOW = 5000000000LL;
// ---------------------------------------------------------------- a constructor that cannot start all its threads leaves none behind
static void* (*pb[6])(void*); static void* pa[6]; static int nb, nrun, ended; static bool started[6];
static void body() { vc_assert(nrun < nb, "C21.never_waits_for_what_nobody_runs"); int o = vc_self, k = nrun++; vc_self = 3 + k; pb[k](pa[k]); vc_self = o; ended++; }
static int on_create(void* (*f)(void*), void* a) { pb[nb] = f; pa[nb] = a; nb++; return 0; }
static void cwaits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(vc_self < 3, "C21.abandoned_workers_end"); body(); }
static void at_entry(Pool&) {} struct AtE { void operator()(Pool&) {} };
template <class F> static void cfail(F f, int n) { vc_self = 1; bd::get_or_make_current_thread_data(); vc_env.create_hook = on_create; vc_env.wait_hook = cwaits; vc_env.create_err = 1 << 4; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; bool thrown = false; try { f(); } catch (boost::thread_resource_error&) { thrown = true; }
  if (thrown) { vc_assert(ended == nb, "C21.failed_construction_leaves_no_worker"); vc_cover("failed"); } else { vc_assert(nb == n, "C21.one_thread_each"); } vc_cover("end"); }
ENTRY(b_pool_ctor) { cfail([] { new Pool(3); }, 3); } ENTRY(b_pool_ctor_function) { cfail([] { new Pool(3, at_entry); }, 3); } ENTRY(b_pool_ctor_functor) { cfail([] { new Pool(3, AtE()); }, 3); } ENTRY(b_scheduled_pool_ctor) { cfail([] { new Stp(3); }, 3); }
// ---------------------------------------------------------------- scheduled tasks over the real queue: never early, in order of time
static int64_t t[3], ran[3]; static int nr, steps; static Stp* stp; template <int I> static void timed() { vc_assert(vc_env.clk[1] >= t[I], "C21.never_before_its_time"); vc_assert(ran[I] == 0, "C21.run_at_most_once"); ran[I] = 1; nr++; for (int j = 0; j < 3; j++) if (!ran[j] && j < I) vc_assert(t[j] >= t[I], "C21.earliest_first"); }
static void twaits(pthread_cond_t*, pthread_mutex_t*) { if (vc_self < 3) { body(); return; } int64_t c = vc_range64("later", 0, 9000000000LL); vc_assume(c >= vc_env.clk[1]); vc_env.clk[1] = c; if (++steps >= 4) { int o = vc_self; vc_self = 2; stp->close(); vc_self = o; vc_env.clk[1] = 9000000001LL; } }
ENTRY(b_scheduled) { vc_self = 1; bd::get_or_make_current_thread_data(); vc_env.create_hook = on_create; vc_env.wait_hook = twaits; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; stp = new Stp(1); for (int i = 0; i < 2; i++) t[i] = vc_range64("time", 0, 9000000000LL); t[2] = 9000000000LL; stp->submit_at(W(timed<0>), CK::time_point(bc::nanoseconds(t[0]))); stp->submit_at(W(timed<1>), CK::time_point(bc::nanoseconds(t[1]))); ran[2] = 1;
  stp->~Stp(); vc_assert(ended == 1, "C21.destruction_waits_for_the_workers"); for (int i = 0; i < 2; i++) vc_assert(ran[i] == 1 || t[i] > NOW, "C21.no_task_is_lost"); vc_cover("end"); }
// ---------------------------------------------------------------- every interleaving
static void* (*tb[6])(void*); static void* ta[6]; static int tn, live, running; static int runs[8], accepted, refused, last; static bool order, nolap; static Pool* P; static Loop* LP; static Ser* S; static Thx* T; static Inl* I_; static bool up, sub2, gone;
static void t_thread(void* k) { live++; tb[(long)k](ta[(long)k]); live--; } static int s_create(void* (*f)(void*), void* a) { tb[tn] = f; ta[tn] = a; vc_thread(t_thread, (void*)(long)tn); tn++; return 0; }
template <int I> static void task(); static void enter(int i) { vc_assert(!gone, "C21.destruction_waits_for_the_workers"); vc_assert(runs[i]++ == 0, "C21.run_at_most_once"); if (order) { vc_assert(i > last, "C21.in_submission_order"); last = i; } if (nolap) vc_assert(running++ == 0, "C21.serial_tasks_never_overlap"); } static void leave() { if (nolap) running--; }
template <class X, class F> static void put(X& x, F f) { try { x.submit(f); accepted++; } catch (closed_x&) { refused++; } }
template <int I> static void task() { enter(I); if (I == 1 && sub2) { if (P) put(*P, task<5>); if (LP) put(*LP, task<5>); } if (T) T->closed(); vc_yield_point(); leave(); }
static void s0() { vc_env.create_hook = s_create; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; last = 0; vc_sched_start(); vc_sched.preempt = 2; vc_sched.lazy = 1; }
static int nruns() { int n = 0; for (int i = 0; i < 8; i++) n += runs[i]; return n; } static void done(int n) { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C21.nobody_is_left_waiting"); vc_assert(nruns() == accepted, "C21.accepted_exactly_once"); vc_assert(accepted + refused == n, "C21.refused_only_when_closed"); vc_assert(live == 0, "C21.workers_end"); vc_cover("end"); }
static void o_pool(void* n) { { Pool p((long)n); P = &p; put(p, task<1>); put(p, task<2>); } gone = true; vc_assert(nruns() == accepted, "C21.destruction_waits_for_the_workers"); }
ENTRY(sched_pool1) { s0(); vc_thread(o_pool, (void*)1); order = true; done(2); } ENTRY(sched_pool2) { s0(); vc_thread(o_pool, (void*)2); done(2); }
static void submitter(void*) { if (P) { put(*P, task<1>); put(*P, task<2>); } if (LP) { put(*LP, task<1>); put(*LP, task<2>); } } static void closer(void*) { if (P) P->close(); if (LP) LP->close(); } static void o_race(void* n) { P = new Pool((long)n); vc_thread(submitter, 0); vc_thread(closer, 0); }
ENTRY(sched_pool_close) { s0(); vc_thread(o_race, (void*)1); done(2); } static void o_self(void*) { P = new Pool(1); put(*P, task<1>); P->close(); P->join(); vc_assert(nruns() == accepted, "C21.join_waits"); } ENTRY(sched_pool_task_submits) { s0(); sub2 = true; vc_thread(o_self, 0); vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C21.nobody_is_left_waiting"); vc_assert(nruns() == accepted && accepted + refused == 2, "C21.accepted_exactly_once"); vc_cover("end"); }
static void looper(void*) { LP->loop(); } ENTRY(sched_loop) { LP = new Loop; s0(); order = true; vc_thread(looper, 0); vc_thread(submitter, 0); vc_thread(closer, 0); done(2); } ENTRY(sched_loop_two) { LP = new Loop; s0(); vc_thread(looper, 0); vc_thread(looper, 0); vc_thread(submitter, 0); vc_thread(closer, 0); vc_sched.preempt = 1; done(2); }
static void o_ser(void*) { I_ = new Inl; { Ser s(*I_); put(s, task<1>); put(s, task<2>); } gone = true; vc_assert(nruns() == accepted, "C21.destruction_waits_for_the_workers"); } ENTRY(sched_serial) { s0(); order = nolap = true; vc_thread(o_ser, 0); done(2); }
static void o_serp(void*) { { Pool p(2); { Ser s(p); put(s, task<1>); put(s, task<2>); } vc_assert(nruns() == accepted, "C21.destruction_waits_for_the_workers"); } gone = true; } ENTRY(sched_serial_on_pool) { s0(); vc_sched.preempt = 1; order = nolap = true; vc_thread(o_serp, 0); done(2); }
static void o_thr(void*) { { Thx x; T = &x; put(x, task<1>); put(x, task<2>); } gone = true; vc_assert(nruns() == accepted, "C21.destruction_waits_for_the_workers"); } ENTRY(sched_thread) { s0(); vc_thread(o_thr, 0); done(2); }
