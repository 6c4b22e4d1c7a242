// C16: packaged_task and async. Thread-modular contracts (other threads may run the task or wait for it), then every interleaving of small groups.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/work.hpp>
#endif
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL;
struct Boom { int k; };
struct VT { int n; VT() : n(0) {} explicit VT(int i) : n(i) {} VT(VT&& o) noexcept : n(o.n) { o.n = -1; } VT& operator=(VT&& o) noexcept { n = o.n; o.n = -1; return *this; } VT(const VT&) = delete; VT& operator=(const VT&) = delete; };
struct CT { int n; CT() : n(0) {} explicit CT(int i) : n(i) {} };
static int refs[4]; static int runs, runwho; static bool boom; static pthread_mutex_t* stm; static int live; static int arg_;
template <class R> struct Mk; template <> struct Mk<int> { static int mk(int v) { return v; } static int of(int v) { return v; } static int get(boost::future<int>& f) { return f.get(); } }; template <> struct Mk<VT> { static VT mk(int v) { return VT(v); } static int of(const VT& v) { return v.n; } static int get(boost::future<VT>& f) { return f.get().n; } }; template <> struct Mk<CT> { static CT mk(int v) { return CT(v); } static int get(boost::future<CT>& f) { return f.get().n; } }; template <> struct Mk<int&> { static int& mk(int v) { return refs[v]; } static int get(boost::future<int&>& f) { return &f.get() - refs; } }; template <> struct Mk<void> { static void mk(int) {} static int get(boost::future<void>& f) { f.get(); return 3; } };
static void (*inrun)(); static void ran() { runs++; runwho = vc_self; if (stm) vc_assert(!vc_held(stm), "C16.callable_runs_unlocked"); if (inrun) inrun(); if (boom) throw Boom{7}; }
template <class R> struct Fn { int k; Fn() : k(3) { live++; } Fn(const Fn& o) : k(o.k) { live++; } Fn(Fn&& o) noexcept : k(o.k) { o.k = -1; live++; } Fn& operator=(const Fn& o) { k = o.k; return *this; } ~Fn() { live--; } R operator()() { vc_assert(k == 3, "C16.runs_the_callable_given"); ran(); return Mk<R>::mk(3); } };
template <class R> static R fptr() { ran(); return Mk<R>::mk(3); }
#if BOOST_THREAD_VERSION >= 4
#define SIG(R) R()
#else
#define SIG(R) R
#endif
static int pick(const char* n, int k) { int i = 0; while (i < k - 1 && !vc_choose(n)) i++; return i; }
template <class R> struct PT { typedef boost::packaged_task<SIG(R)> T; };
template <class R> static typename PT<R>::T mk() { typedef typename PT<R>::T T; if (vc_choose("function_pointer")) return T(fptr<R>); if (vc_choose("rvalue")) return T(Fn<R>()); Fn<R> f; return T(f); }
// ---------------------------------------------------------------- one operation of a packaged_task; other threads may run it as well
enum { IDLE, RUNNING, READY }; // by whom: other threads
template <class R> struct W { typedef bd::shared_state<R> S; static S* st; static bool* started; static int g; static bool mine, exc, act, woke, want_broken; static int nacq; static boost::exception_ptr gx; static bool was; static int mineg;
  static void other_done() { if (vc_choose("value")) put(); else { gx = boost::copy_exception(Boom{9}); st->exception = gx; } st->done = true; woke = true; g = READY; }
  static void put();
  static void acq(void*) { if (act && vc_self == 1 && !mine) { if (g == IDLE && vc_choose("another_thread_runs_it")) { *started = true; g = RUNNING; } if (g == RUNNING && vc_choose("it_finishes")) other_done(); } was = *started; if (!st->done) woke = false; }
  static void rel(void*) { if (*started && !was) { vc_assert(g == IDLE && !mine, "C16.started_once"); mine = true; g = RUNNING; } vc_assert(*started == (g != IDLE), "C16.started_once"); if (st->done && g != READY) { vc_assert(mine, "C16.only_the_runner_sets_the_result"); g = READY; } vc_assert(st->done == (g == READY), "C16.ready_once"); }
  static void notified(pthread_cond_t* c, bool all) { if (all && c == &st->waiters.cond) woke = true; }
  static void env(S* s, bool* b) { st = s; started = b; g = IDLE; mine = false; act = true; stm = s->mutex.native_handle(); vc_self = 1; bd::get_or_make_current_thread_data(); int k = pick("state", 3); if (k > 0) { *b = true; g = RUNNING; if (k == 2) other_done(); } vc_monitor(stm, acq, rel, 0); vc_env.notify_hook = notified; }
};
#define D(t, n) template <class T> t W<T>::n
D(typename W<T>::S*, st); D(bool*, started); D(int, g); D(bool, mine); D(bool, exc); D(bool, act); D(bool, woke); D(bool, want_broken); D(int, nacq); D(boost::exception_ptr, gx); D(bool, was); D(int, mineg);
template <> void W<int>::put() { st->result = 5; } template <> void W<VT>::put() { st->result = VT(5); } template <> void W<int&>::put() { st->result = &refs[1]; } template <> void W<void>::put() {} template <> void W<CT>::put() { st->result = CT(5); }
template <class R> static void outcome(boost::future<R>& f, bool x) { vc_assert(f.is_ready() && f.has_exception() == x && f.has_value() == !x, "C16.outcome_delivered"); int v = 0, e = 0; try { v = Mk<R>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(x ? e == 7 : v == 3, "C16.outcome_delivered"); }
template <class R> static void outcome2(boost::future<R>& f, bool x) { int v = 0, e = 0; try { v = Mk<R>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(x ? e == 7 : v == 3, "C16.outcome_delivered"); }
template <class R> static void operate(int op) { typedef W<R> w; live = 0; { typename PT<R>::T t = mk<R>(); boost::future<R> f = t.get_future(); vc_assert(t.valid() && f.valid() && runs == 0, "C16.not_run_by_construction"); w::env(f.future_.get(), &t.task->started); boom = vc_choose("throws"); int x = 0; bd::thread_data_base* td = bd::get_current_thread_data(); 
  if (op == 0) { try { t(); } catch (boost::task_already_started&) { x = 1; } } else if (op == 1) { try { t.make_ready_at_thread_exit(); } catch (boost::task_already_started&) { x = 1; } catch (boost::promise_already_satisfied&) { x = 2; } } else if (op == 2) { typename PT<R>::T gone(boost::move(t)); vc_assert(!t.valid() && gone.valid(), "C16.moves_the_task"); } else { typename PT<R>::T e; e.swap(t); vc_assert(!t.valid() && e.valid(), "C16.moves_the_task"); if (vc_choose("assign_over")) { e = mk<R>(); vc_assert(e.valid(), "C16.moves_the_task"); } }
  w::act = false; vc_assert(!vc_held(stm), "C16.lock_released"); vc_assert(vc_env.waits == 0, "C16.running_does_not_block");
  if (op < 2) { vc_assert(x ? !w::mine && w::g != IDLE : w::mine, x ? "C16.rejected_only_if_started" : "C16.second_run_rejected"); vc_assert(runs == (x ? 0 : 1), "C16.run_exactly_once"); if (!x) vc_assert(runwho == 1, "C16.runs_on_the_invoking_thread"); if (x == 2) vc_assert(w::g == READY, "C16.rejected_only_if_started"); } else vc_assert(runs == 0, "C16.not_run_by_destruction");
  if (op == 0 && !x) { vc_assert(w::g == READY && w::woke, "C16.ready_and_waiters_woken"); outcome(f, boom); }
  if (op == 1 && !x) { vc_assert(w::g == RUNNING && !f.is_ready(), "C16.not_ready_before_the_thread_ends"); vc_assert(td->async_states_.size() == 1 && td->async_states_[0] == f.future_, "C16.ready_when_the_thread_ends"); w::was = true; td->async_states_[0]->notify_deferred(); vc_assert(w::woke, "C16.ready_and_waiters_woken"); outcome(f, boom); } else vc_assert(td->async_states_.empty(), "C16.second_run_rejected");
  if (op >= 2) { if (w::mine) { vc_assert(w::g == READY && w::woke, "C16.broken_promise"); bool bp = false; try { Mk<R>::get(f); } catch (boost::broken_promise&) { bp = true; } vc_assert(bp, "C16.broken_promise"); vc_cover("broken"); } else vc_assert(w::g != IDLE, "C16.broken_promise"); } w::mine = w::mine; if (x) vc_cover("rejected"); } vc_cover("end"); }
#define OPS(R, N) ENTRY(run_##N) { operate<R>(0); } ENTRY(run_at_thread_exit_##N) { operate<R>(1); } ENTRY(destroy_##N) { operate<R>(2); } ENTRY(swap_assign_##N) { operate<R>(3); }
OPS(int, int) OPS(VT, obj) OPS(int&, ref) OPS(void, void)
template <class E, class F> static bool throws_(F f) { try { f(); } catch (E&) { return true; } return false; }
template <class T> static void nocb(T&) {} template <class T> static void runcb(T& x) { x(); }
template <class R> static void misuse() { typedef typename PT<R>::T T; vc_self = 1; int how = pick("how", 3); T t; if (how == 1) { T a = mk<R>(); T b(boost::move(a)); t = boost::move(b); T c; c = boost::move(t); vc_assert(c.valid() && !a.valid() && !b.valid(), "C16.moves_the_task"); c(); vc_assert(runs == 1, "C16.run_exactly_once"); } if (how == 2) { T a = mk<R>(); boost::future<R> f = a.get_future(); vc_assert(throws_<boost::future_already_retrieved>([&] { a.get_future(); }), "C16.future_retrieved_once"); T b(boost::move(a)); vc_assert(throws_<boost::future_already_retrieved>([&] { b.get_future(); }), "C16.future_retrieved_once"); b(); vc_assert(f.is_ready(), "C16.outcome_delivered"); vc_assert(throws_<boost::task_already_started>([&] { b(); }) && runs == 1, "C16.second_run_rejected"); t = T(); }
  vc_assert(!t.valid(), "C16.empty_is_not_valid"); vc_assert(throws_<boost::task_moved>([&] { t(); }), "C16.misuse_throws"); vc_assert(throws_<boost::task_moved>([&] { t.make_ready_at_thread_exit(); }), "C16.misuse_throws"); vc_assert(throws_<boost::task_moved>([&] { t.get_future(); }), "C16.misuse_throws"); vc_assert(throws_<boost::task_moved>([&] { t.set_wait_callback(nocb<T>); }), "C16.misuse_throws"); vc_assert(throws_<boost::future_error>([&] { t.reset(); }), "C16.misuse_throws"); vc_cover("end"); }
ENTRY(misuse_int) { misuse<int>(); } ENTRY(misuse_obj) { misuse<VT>(); } ENTRY(misuse_ref) { misuse<int&>(); } ENTRY(misuse_void) { misuse<void>(); }
ENTRY(wait_callback) { vc_self = 1; typedef PT<int>::T T; T t = mk<int>(); boom = vc_choose("throws"); boost::future<int> f = t.get_future(); stm = f.future_->mutex.native_handle(); t.set_wait_callback(runcb<T>); if (vc_choose("first_wait")) f.wait(); outcome2(f, boom); vc_assert(runs == 1, "C16.run_exactly_once"); vc_cover("end"); }
ENTRY(callable_released) { vc_self = 1; live = 0; { PT<int>::T t((Fn<int>())); int n = live; vc_assert(n == 1, "C16.one_copy_kept"); boom = vc_choose("throws"); if (vc_choose("run")) t(); } vc_assert(live == 0, "C16.callable_destroyed"); vc_cover("end"); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
static int a1, a2; static int two(int a, VT b) { a1 = a; a2 = b.n; ran(); return 3; } ENTRY(task_arguments) { vc_self = 1; boost::packaged_task<int(int, VT)> t(two); boost::future<int> f = t.get_future(); boom = vc_choose("throws"); int n = vc_i32("a"); if (vc_choose("at_exit")) { t.make_ready_at_thread_exit(n, VT(8)); vc_assert(!f.is_ready(), "C16.not_ready_before_the_thread_ends"); bd::get_current_thread_data()->async_states_[0]->notify_deferred(); } else t(n, VT(8)); vc_assert(runs == 1 && a1 == n && a2 == 8, "C16.arguments_passed"); outcome(f, boom); vc_cover("end"); }
#endif
// ---------------------------------------------------------------- async: on a new thread, started at any moment
static int when_; static void* (*pb)(void*); static void* pa; static bool body_done; static void body() { vc_assert(pb != 0, "C16.never_waits_for_a_thread_that_was_not_started"); int o = vc_self; vc_self = 2; pb(pa); vc_self = o; body_done = true; }
static int on_create(void* (*f)(void*), void* a) { pb = f; pa = a; if (when_ == 0) body(); return 0; }
static void maybe_body() { if (!body_done && pb) body(); }
static void waits(pthread_cond_t*, pthread_mutex_t* m) { if (!body_done) body(); else vc_assert(false, "C16.ready_future_never_blocks"); }
static void aenv(bool fail) { vc_self = 1; vc_env.create_hook = on_create; vc_env.create_err = fail ? 1 << 4 : 0; vc_env.wait_hook = waits; when_ = pick("thread_runs", 3); vc_env.clk_fixed = 2; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_late = FARNS * 3; }
template <class R> static void fin_async(boost::future<R>& f) { if (when_ == 1) { vc_assert(!f.is_ready(), "C16.ready_only_with_the_outcome"); body(); } if (when_ == 2 && vc_choose("wait_first")) { f.wait(); } if (f.is_ready() || when_ == 2) outcome2(f, boom); vc_assert(runs == 1 && runwho == 2, "C16.run_exactly_once_on_its_thread"); vc_cover("end"); }
template <class R> static void async_() { aenv(true); boom = vc_choose("throws"); live = 0; { boost::future<R> f; bool failed = false; try { int k = pick("form", 5); if (k == 0) f = boost::async(boost::launch::async, fptr<R>); else if (k == 1) f = boost::async(Fn<R>()); else if (k == 2) f = boost::async(boost::launch::any, Fn<R>()); else if (k == 3) { Fn<R> fn; f = boost::async(boost::launch::async, fn); } else f = boost::async(fptr<R>); } catch (boost::thread_resource_error&) { failed = true; } if (failed) { vc_assert(runs == 0 && !f.valid() && vc_env.ncreated == 0, "C16.failed_async_does_not_run"); vc_cover("failed"); vc_cover("end"); vc_end(); } vc_assert(f.valid() && vc_env.ncreated == 1, "C16.async_starts_one_thread"); vc_assert(runs == (when_ == 0), "C16.run_exactly_once_on_its_thread"); fin_async(f); } }
ENTRY(async_int) { async_<int>(); } ENTRY(async_obj) { async_<VT>(); } ENTRY(async_ref) { async_<int&>(); } ENTRY(async_void) { async_<void>(); }
ENTRY(async_future_dropped) { aenv(false); boom = vc_choose("throws"); { boost::future<int> f = boost::async(boost::launch::async, fptr<int>); bool d = runs == 1; if (vc_choose("drop")) { boost::future<int> g(boost::move(f)); } } if (!body_done) body(); vc_assert(runs == 1 && runwho == 2, "C16.run_exactly_once_on_its_thread"); vc_cover("end"); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
static int three(int a, VT b, int& c) { vc_assert(a == 4 && b.n == 8 && &c == &refs[1], "C16.arguments_passed"); ran(); return 3; } ENTRY(async_arguments) { aenv(false); boom = vc_choose("throws"); boost::future<int> f = vc_choose("policy") ? boost::async(boost::launch::async, three, 4, VT(8), boost::ref(refs[1])) : boost::async(three, 4, VT(8), boost::ref(refs[1])); fin_async(f); }
// ---------------------------------------------------------------- deferred
template <class R> static void deferred_() { vc_self = 1; bd::get_or_make_current_thread_data(); boom = vc_choose("throws"); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; live = 0; { boost::future<R> f = vc_choose("function_pointer") ? boost::async(boost::launch::deferred, fptr<R>) : boost::async(boost::launch::deferred, Fn<R>()); vc_assert(f.valid() && runs == 0 && vc_env.ncreated == 0, "C16.deferred_not_started"); stm = f.future_->mutex.native_handle();
  vc_assert(!f.is_ready() && !f.has_value() && !f.has_exception(), "C16.deferred_not_started"); bool sh = vc_choose("shared"); boost::shared_future<R> s, s2; int tw = pick("timed_wait_first", 4); if (sh) { s = f.share(); s2 = s; } boost::future_status r = boost::future_status::deferred; if (tw == 1) r = sh ? s.wait_for(bc::nanoseconds(1)) : f.wait_for(bc::nanoseconds(1)); else if (tw == 2) r = sh ? s.wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))) : f.wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))); else if (tw == 3) r = sh ? s.wait_until(bc::system_clock::time_point(bc::nanoseconds(NOW))) : f.wait_until(bc::system_clock::time_point(bc::nanoseconds(NOW))); vc_assert(r == boost::future_status::deferred && runs == 0, "C16.timed_wait_reports_deferred"); vc_assert(vc_env.waits == 0, "C16.timed_wait_reports_deferred");
  vc_self = 2; bd::get_or_make_current_thread_data(); int how = pick("how", 4); if (how == 0) { if (sh) s.wait(); else f.wait(); vc_assert(runs == 1, "C16.first_waiter_runs_it"); } else if (how == 1) { boost::exception_ptr e = sh ? s.get_exception_ptr() : f.get_exception_ptr(); vc_assert(!!e == boom && runs == 1, "C16.first_waiter_runs_it"); } else if (how == 3) { vc_cover("never_waited"); } 
  if (how != 3) { vc_self = how == 2 ? 2 : 3; bd::get_or_make_current_thread_data(); if (sh) { bool e = false; try { s2.get(); } catch (Boom& b) { e = b.k == 7; } vc_assert(e == boom, "C16.outcome_delivered"); vc_assert(s.is_ready() && s.wait_for(bc::nanoseconds(1)) == boost::future_status::ready, "C16.outcome_delivered"); try { s.get(); } catch (Boom&) {} } else { if (how != 2) vc_assert(f.wait_for(bc::nanoseconds(1)) == boost::future_status::ready, "C16.outcome_delivered"); outcome2(f, boom); } vc_assert(runs == 1 && runwho == 2, "C16.run_once_on_the_first_waiter"); } } vc_self = 1; stm = 0; vc_assert(live == 0, "C16.callable_destroyed"); vc_assert(runs <= 1, "C16.run_exactly_once"); vc_cover("end"); }
ENTRY(deferred_int) { deferred_<int>(); } ENTRY(deferred_obj) { deferred_<CT>(); } ENTRY(deferred_ref) { deferred_<int&>(); } ENTRY(deferred_void) { deferred_<void>(); }
#endif
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
// ---------------------------------------------------------------- async on an executor: any class with submit; it may refuse
struct Ex { boost::executors::work* w; int n; bool refuse; Ex() : w(0), n(0), refuse(false) {} template <class C> void submit(BOOST_THREAD_FWD_REF(C) c) { if (refuse) boost::throw_exception(boost::sync_queue_is_closed()); vc_assert(n == 0, "C16.submitted_once"); n++; w = new boost::executors::work(boost::forward<C>(c)); if (when_ == 0) run(); } void run() { int o = vc_self; vc_self = 2; (*w)(); vc_self = o; delete w; w = 0; body_done = true; } void close() {} bool closed() { return refuse; } bool try_executing_one() { return false; } };
static Ex* ex; static void exwaits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(!body_done, "C16.ready_future_never_blocks"); ex->run(); }
template <class R> static void exec_() { vc_self = 1; ex = new Ex; ex->refuse = vc_choose("closed"); when_ = pick("runs", 3); vc_env.wait_hook = exwaits; boom = vc_choose("throws"); boost::future<R> f; bool failed = false; try { if (vc_choose("function_pointer")) f = boost::async(*ex, fptr<R>); else f = boost::async(*ex, Fn<R>()); } catch (boost::sync_queue_is_closed&) { failed = true; } vc_assert(failed == ex->refuse, "C16.refusal_propagates"); if (failed) { vc_assert(runs == 0 && !f.valid(), "C16.failed_async_does_not_run"); vc_cover("refused"); vc_cover("end"); return; } vc_assert(f.valid() && runs == (when_ == 0), "C16.runs_only_on_the_executor"); if (when_ == 1) { vc_assert(!f.is_ready(), "C16.ready_only_with_the_outcome"); ex->run(); } if (when_ < 2) outcome(f, boom); else outcome2(f, boom); vc_assert(runs == 1 && runwho == 2, "C16.run_exactly_once_on_its_thread"); vc_cover("end"); }
ENTRY(executor_int) { exec_<int>(); } ENTRY(executor_obj) { exec_<VT>(); } ENTRY(executor_ref) { exec_<int&>(); } ENTRY(executor_void) { exec_<void>(); }
#endif
// ---------------------------------------------------------------- every interleaving
static PT<int>::T* pt; static boost::shared_future<int>* sf; static int rejected, gots, timedr;
static void s_run(void*) { try { (*pt)(); } catch (boost::task_already_started&) { rejected++; } } static void s_get(void*) { boost::shared_future<int> f(*sf); int v = 0; try { v = f.get(); vc_assert(v == 3, "C16.outcome_delivered"); } catch (Boom&) { v = 7; } catch (boost::broken_promise&) { v = 9; } vc_assert(v == 9 || runs == 1, "C16.run_exactly_once"); gots = gots * 10 + v; } static void s_destroy(void*) { delete pt; pt = 0; } static void s_timed(void*) { boost::shared_future<int> f(*sf); boost::future_status r = f.wait_until(bc::steady_clock::time_point(bc::nanoseconds(FARNS))); timedr = r == boost::future_status::ready ? 1 : r == boost::future_status::timeout ? 2 : 3; if (timedr == 1) vc_assert(f.is_ready(), "C16.outcome_delivered"); }
static void sched() { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.timeouts = 1; } static void s0() { boom = vc_choose("throws"); pt = new PT<int>::T(fptr<int>); sf = new boost::shared_future<int>(pt->get_future().share()); sched(); } static void done() { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C16.every_waiter_woken"); vc_cover("end"); }
ENTRY(sched_2run_get) { s0(); vc_thread(s_run, 0); vc_thread(s_run, 0); vc_thread(s_get, 0); done(); vc_assert(runs == 1 && rejected == 1 && gots == (boom ? 7 : 3), "C16.run_exactly_once"); }
ENTRY(sched_run_2get) { s0(); vc_thread(s_run, 0); vc_thread(s_get, 0); vc_thread(s_get, 0); done(); vc_assert(runs == 1 && gots == (boom ? 77 : 33), "C16.run_exactly_once"); }
ENTRY(sched_destroy_get) { s0(); vc_thread(s_destroy, 0); vc_thread(s_get, 0); vc_thread(s_timed, 0); done(); vc_assert(runs == 0 && gots == 9, "C16.broken_promise"); }
#ifdef BOOST_THREAD_PROVIDES_VARIADIC_THREAD
static void d0() { boom = vc_choose("throws"); sf = new boost::shared_future<int>(boost::async(boost::launch::deferred, fptr<int>).share()); stm = sf->future_->mutex.native_handle(); sched(); }
ENTRY(sched_deferred_2get) { d0(); vc_thread(s_get, 0); vc_thread(s_get, 0); done(); vc_assert(runs == 1 && gots == (boom ? 77 : 33), "C16.run_exactly_once"); }
ENTRY(sched_deferred_get_timed) { d0(); vc_thread(s_get, 0); vc_thread(s_timed, 0); vc_thread(s_get, 0); done(); vc_assert(runs == 1, "C16.run_exactly_once"); if (timedr == 3) vc_cover("deferred"); }
#endif
static void* (*tb)(void*); static void* ta; static void s_thread(void*) { tb(ta); } static int s_create(void* (*f)(void*), void* a) { tb = f; ta = a; vc_thread(s_thread, 0); return 0; }
static boost::shared_future<int> mkasync() { return boost::async(boost::launch::async, fptr<int>).share(); } static void s_async(void*) { boost::shared_future<int> f = mkasync(); int v = 0; try { v = f.get(); } catch (Boom&) { v = 7; } vc_assert(v == (boom ? 7 : 3), "C16.outcome_delivered"); gots = v; }
ENTRY(sched_async) { boom = vc_choose("throws"); vc_env.create_hook = s_create; sched(); vc_thread(s_async, 0); done(); vc_assert(runs == 1 && runwho == 2 && gots, "C16.run_exactly_once_on_its_thread"); }
static void s_async_drop(void*) { boost::async(boost::launch::async, fptr<int>); } ENTRY(sched_async_dropped) { boom = vc_choose("throws"); vc_env.create_hook = s_create; sched(); vc_thread(s_async_drop, 0); done(); vc_assert(runs == 1 && runwho == 2, "C16.run_exactly_once_on_its_thread"); }
