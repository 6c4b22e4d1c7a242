// C17: continuations (then, under every launch policy and on executors), unwrapping, when_all and when_any.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/future.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
#include <boost/thread/executors/work.hpp>
#include <boost/thread/executors/executor.hpp>
#endif
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static const int64_t NOW = 5000000000LL, FARNS = 1000000000000000LL;
struct Boom { int k; };
struct VT { int n; VT() : n(0) {} explicit VT(int i) : n(i) {} VT(VT&& o) noexcept : n(o.n) { o.n = -1; } VT& operator=(VT&& o) noexcept { n = o.n; o.n = -1; return *this; } VT(const VT&) = delete; VT& operator=(const VT&) = delete; };
struct CT { int n; CT() : n(0) {} explicit CT(int i) : n(i) {} };
static int refs[4]; static bool boom, aboom; static pthread_mutex_t *am, *om; static int live, runs[4], who[4];
template <class R> struct Mk; template <> struct Mk<int> { static int mk(int v) { return v; } static int of(int v) { return v; } template <class F> static int get(F& f) { return f.get(); } static void set(boost::promise<int>& p) { p.set_value(5); } }; template <> struct Mk<VT> { static VT mk(int v) { return VT(v); } template <class F> static int get(F& f) { return f.get().n; } static void set(boost::promise<VT>& p) { p.set_value(VT(5)); } }; template <> struct Mk<CT> { static CT mk(int v) { return CT(v); } template <class F> static int get(F& f) { return f.get().n; } static void set(boost::promise<CT>& p) { p.set_value(CT(5)); } }; template <> struct Mk<int&> { static int& mk(int v) { return refs[v]; } template <class F> static int get(F& f) { return &f.get() - refs == 3 ? 3 : 5; } static void set(boost::promise<int&>& p) { p.set_value(refs[1]); } }; template <> struct Mk<void> { static void mk(int) {} template <class F> static int get(F& f) { f.get(); return 0; } static void set(boost::promise<void>& p) { p.set_value(); } };
template <class R> static int val(int v) { return boost::is_void<R>::value ? 0 : v; }
static int pick(const char* n, int k) { int i = 0; while (i < k - 1 && !vc_choose(n)) i++; return i; }
static void ran(int id) { runs[id]++; who[id] = vc_self; if (am) vc_assert(!vc_held(am), "C17.continuation_runs_unlocked"); if (om) vc_assert(!vc_held(om), "C17.continuation_runs_unlocked"); }
// the continuation: checks the antecedent it is given, then returns 3 or throws
template <class F, class A, class R> struct K { int k, id; explicit K(int i = 0) : k(11), id(i) { live++; } K(const K& o) : k(o.k), id(o.id) { live++; } K(K&& o) noexcept : k(o.k), id(o.id) { o.k = -1; live++; } K& operator=(const K& o) { k = o.k; id = o.id; return *this; } ~K() { live--; } typedef R result_type;
  R operator()(F f) { vc_assert(k == 11, "C17.runs_the_function_given"); ran(id); vc_assert(f.valid() && f.is_ready(), "C17.antecedent_is_ready"); int v = -1, e = 0; try { v = Mk<A>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(aboom ? e == 9 && v == -1 : e == 0 && v == val<A>(5), "C17.receives_its_antecedent"); if (boom) throw Boom{7}; return Mk<R>::mk(3); } };
template <class R> static void outcome(boost::future<R>& f, bool x) { int v = -1, e = 0; try { v = Mk<R>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(x ? e == 7 : v == val<R>(3), "C17.outcome_delivered"); }
// ---- environment: threads started by continuations, executors, and the thread that makes the antecedent ready
static int when_; static void* (*pb[3])(void*); static void* pa[3]; static int nb, nrun; static void body() { vc_assert(nrun < nb, "C17.never_waits_for_what_nobody_runs"); int o = vc_self; vc_self = 3 + nrun; int k = nrun++; pb[k](pa[k]); vc_self = o; }
static int on_create(void* (*f)(void*), void* a) { vc_assert(nb < 3, "C17.one_thread_each"); pb[nb] = f; pa[nb] = a; nb++; if (when_ == 0) body(); return 0; }
static void (*makeready)(); static bool isready; static void mkready() { int o = vc_self; vc_self = 2; isready = true; makeready(); vc_self = o; }
static void waits(pthread_cond_t*, pthread_mutex_t*) { if (om) vc_assert(!vc_held(om), "C17.waits_for_the_antecedent_unlocked"); if (am) vc_assert(!vc_held(am), "C17.waits_for_the_antecedent_unlocked"); if (nrun < nb) body(); else { vc_assert(!isready && makeready, "C17.never_waits_for_what_nobody_runs"); mkready(); } }
template <class A> struct P { static boost::promise<A>* p; static void ready() { if (aboom) p->set_exception(boost::copy_exception(Boom{9})); else Mk<A>::set(*p); } }; template <class A> boost::promise<A>* P<A>::p;
static void env(bool fail) { vc_self = 1; bd::get_or_make_current_thread_data(); vc_env.create_hook = on_create; vc_env.create_err = fail ? 1 << 4 : 0; vc_env.wait_hook = waits; when_ = pick("thread_runs", 2); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; boom = vc_choose("throws"); aboom = vc_choose("antecedent_throws"); }
template <class A> static boost::future<A> ante() { P<A>::p = new boost::promise<A>; boost::future<A> f = P<A>::p->get_future(); makeready = P<A>::ready; am = f.future_->mutex.native_handle(); if (vc_choose("ready_before")) mkready(); return boost::move(f); }
enum { ASYNC, DEFERRED, SYNC, NOPOL };
template <class F, class C> static auto attach(F& f, int pol, C c) -> decltype(f.then(boost::move(c))) { switch (pol) { case ASYNC: return f.then(boost::launch::async, boost::move(c)); case DEFERRED: return f.then(boost::launch::deferred, boost::move(c)); case SYNC: return f.then(boost::launch::sync, boost::move(c)); default: return f.then(boost::move(c)); } }
// ---------------------------------------------------------------- one continuation under one policy, attached before or after readiness
template <class F, class A, class R> static void one_(int pol, bool shared) { env(true); live = 0; { boost::future<A> f0 = ante<A>(); F f(boost::move(f0)); bool before = isready; boost::future<R> g = attach(f, pol, K<F, A, R>()); bool fin = false; vc_assert(g.valid() && f.valid() == shared && !vc_held(am), "C17.antecedent_consumed"); om = g.future_->mutex.native_handle();
  if (!before) vc_assert(runs[0] == 0 && nb == 0 && !g.is_ready(), "C17.not_before_the_antecedent_is_ready");
  if (!before && pol != DEFERRED && vc_choose("made_ready_now")) mkready();
  bool failed = (pol == ASYNC || pol == NOPOL) && isready && nb == 0; if (failed) vc_cover("no_thread");
  if (isready && pol == SYNC) { vc_assert(runs[0] == 1 && g.is_ready(), "C17.runs_when_ready"); vc_assert(who[0] == (before ? 1 : 2), "C17.runs_when_ready"); }
  if (isready && (pol == ASYNC || pol == NOPOL) && !failed) { vc_assert(runs[0] == (when_ == 0) && g.is_ready() == (when_ == 0), "C17.runs_when_ready"); }
  if (pol == DEFERRED) { vc_assert(runs[0] == 0, "C17.deferred_waits_for_a_waiter"); if (vc_choose("timed")) vc_assert(g.wait_for(bc::nanoseconds(1)) == boost::future_status::deferred && runs[0] == 0, "C17.deferred_waits_for_a_waiter"); vc_self = 6; bd::get_or_make_current_thread_data(); }
  int how = pick("wait_first", 3); if (how == 1) g.wait(); if (how == 2) { boost::exception_ptr e = g.get_exception_ptr(); }
  failed = failed || ((pol == ASYNC || pol == NOPOL) && isready && nb == 0); if (failed) { bool ok = false; vc_assert(runs[0] == 0, "C17.outcome_delivered"); try { Mk<R>::get(g); } catch (boost::thread_resource_error&) { ok = true; } catch (...) {} vc_assert(ok, "C17.failure_is_the_outcome"); } else {
  int v = -1, e = 0; bool res = false; try { v = Mk<R>::get(g); } catch (Boom& b) { e = b.k; } catch (boost::thread_resource_error&) { res = true; } vc_assert(isready, "C17.not_before_the_antecedent_is_ready"); if (res) vc_assert(nb == 0 && (pol == ASYNC || pol == NOPOL), "C17.failure_is_the_outcome"); else { vc_assert(boom ? e == 7 : v == val<R>(3), "C17.outcome_delivered"); vc_assert(runs[0] == 1, "C17.run_exactly_once"); vc_assert(who[0] == (pol == DEFERRED ? 6 : pol == SYNC ? (before ? 1 : 2) : 3), "C17.runs_where_the_policy_says"); } }
  am = om = 0; if (shared) { int v = -1, e = 0; try { v = Mk<A>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(aboom ? e == 9 : v == val<A>(5), "C17.antecedent_keeps_its_result"); } while (nrun < nb) body(); vc_self = 1; delete P<A>::p; } vc_assert(live == 0, "C17.function_destroyed"); vc_cover("end"); }
#define POL(N, F, A, R, S) ENTRY(then_async_##N) { one_<F, A, R>(ASYNC, S); } ENTRY(then_deferred_##N) { one_<F, A, R>(DEFERRED, S); } ENTRY(then_sync_##N) { one_<F, A, R>(SYNC, S); } ENTRY(then_nopolicy_##N) { one_<F, A, R>(NOPOL, S); }
POL(int, boost::future<int>, int, int, false) POL(obj_void, boost::future<VT>, VT, void, false) POL(void_obj, boost::future<void>, void, VT, false) POL(shared_int, boost::shared_future<int>, int, int, true) POL(shared_void, boost::shared_future<void>, void, void, true) POL(ref, boost::future<int&>, int&, int, false) POL(shared_obj, boost::shared_future<CT>, CT, CT, true)
// ---------------------------------------------------------------- the policy is inherited from the antecedent
ENTRY(then_inherits_deferred) { env(false); aboom = false; when_ = 1; static int ar; struct S { static int f() { ar++; return 5; } }; ar = 0; boost::future<int> f = boost::async(boost::launch::deferred, S::f); bool inh = vc_choose("inherit"); boost::future<int> g = inh ? f.then(boost::launch::inherit, K<boost::future<int>, int, int>()) : f.then(K<boost::future<int>, int, int>()); vc_assert(ar == 0 && runs[0] == 0 && nb == 0 && !f.valid(), "C17.deferred_waits_for_a_waiter"); vc_assert(g.wait_for(bc::nanoseconds(1)) == boost::future_status::deferred, "C17.deferred_waits_for_a_waiter"); outcome(g, boom); vc_assert(ar == 1 && runs[0] == 1 && who[0] == 1 && nb == 0, "C17.runs_where_the_policy_says"); vc_cover("end"); }
ENTRY(then_inherits_async) { env(false); when_ = 1; boost::future<int> f = ante<int>(); boost::future<int> g0 = f.then(boost::launch::async, K<boost::future<int>, int, int>(0)); if (!isready) mkready(); body(); boom = vc_choose("second_throws"); aboom = false; bool ex = false; struct S { static int f(boost::future<int> x) { runs[1]++; try { vc_assert(x.get() == 3, "C17.receives_its_antecedent"); } catch (Boom& b) { vc_assert(b.k == 7, "C17.receives_its_antecedent"); } return 3; } }; boost::future<int> h = vc_choose("inherit") ? g0.then(boost::launch::inherit, S::f) : g0.then(S::f); vc_assert(nb == 2 && runs[1] == 0 && !g0.valid(), "C17.runs_where_the_policy_says"); outcome(h, false); vc_assert(runs[1] == 1 && runs[0] == 1, "C17.run_exactly_once"); vc_cover("end"); }
// ---------------------------------------------------------------- invalid futures
ENTRY(invalid) { vc_self = 1; boost::future<int> f; boost::shared_future<int> s; int t = 0; int pol = pick("policy", 4); try { if (vc_choose("shared")) attach(s, pol, K<boost::shared_future<int>, int, int>()); else attach(f, pol, K<boost::future<int>, int, int>()); } catch (boost::future_uninitialized&) { t = 1; } vc_assert(t == 1 && runs[0] == 0 && live == 0, "C17.invalid_future_rejected"); vc_cover("end"); }
// ---------------------------------------------------------------- several continuations on one shared future; one may fail to start
template <int POLA, int POLB> static void many_() { env(true); boom = false; when_ = 1; boost::shared_future<int> f = ante<int>().share(); typedef K<boost::shared_future<int>, int, int> KK; boost::future<int> g[3]; if (isready) { g[0] = attach(f, POLA, KK(0)); g[1] = attach(f, POLB, KK(1)); g[2] = attach(f, POLA, KK(2)); } else { g[0] = attach(f, POLA, KK(0)); g[1] = attach(f, POLB, KK(1)); vc_assert(runs[0] + runs[1] + nb == 0, "C17.not_before_the_antecedent_is_ready"); bool thrown = false; try { mkready(); } catch (...) { thrown = true; } vc_assert(!thrown, "C17.making_ready_does_not_fail"); vc_self = 1; g[2] = attach(f, POLA, KK(2)); }
  vc_env.create_err = 0; int bad = 0, v = 0; for (int i = 0; i < 3; i++) { bool r = false; try { v = g[i].get(); } catch (boost::thread_resource_error&) { r = true; bad++; } vc_assert(runs[i] == !r, "C17.each_runs_exactly_once"); if (!r) vc_assert(v == 3, "C17.outcome_delivered"); } if (bad) vc_cover("some_failed"); am = 0; v = 0; try { v = f.get(); } catch (Boom& b) { v = b.k; } vc_assert(v == (aboom ? 9 : 5), "C17.antecedent_keeps_its_result"); vc_cover("end"); }
ENTRY(many_async_async) { many_<ASYNC, ASYNC>(); } ENTRY(many_async_sync) { many_<ASYNC, SYNC>(); } ENTRY(many_sync_deferred) { many_<SYNC, DEFERRED>(); }
ENTRY(task_result_kept) { env(true); aboom = false; when_ = 1; struct S { static int f() { return 5; } }; boost::packaged_task<int()> t(S::f); boost::shared_future<int> f = t.get_future().share(); boost::future<int> g = attach(f, ASYNC, K<boost::shared_future<int>, int, int>()); bool thrown = false; try { t(); } catch (...) { thrown = true; } vc_assert(!thrown, "C17.making_ready_does_not_fail"); vc_assert(f.has_value() && f.get() == 5, "C17.antecedent_keeps_its_result"); bool r = false; try { outcome(g, boom); } catch (boost::thread_resource_error&) { r = true; } vc_assert(r == (nb == 0), "C17.failure_is_the_outcome"); vc_cover("end"); }
ENTRY(broken_promise_runs_it) { env(false); aboom = false; when_ = 0; struct S { static int f(boost::future<int> x) { runs[0]++; bool b = false; try { x.get(); } catch (boost::broken_promise&) { b = true; } vc_assert(b, "C17.receives_its_antecedent"); return 3; } }; boost::promise<int>* p = new boost::promise<int>; boost::future<int> f = p->get_future(); boost::future<int> g = vc_choose("sync") ? f.then(boost::launch::sync, S::f) : f.then(S::f); delete p; outcome(g, false); vc_assert(runs[0] == 1, "C17.run_exactly_once"); vc_cover("end"); }
// chain: each step runs after the previous one
ENTRY(chain) { env(false); boost::future<int> f = ante<int>(); bool bm = boom; int pa1 = pick("first", 3), pb1 = pick("second", 3); struct S { static int f(boost::future<int> x) { runs[1]++; vc_assert(runs[0] == 1 && x.is_ready(), "C17.antecedent_is_ready"); int v = 0; try { v = x.get(); } catch (Boom& b) { v = b.k; } vc_assert(v == (boom ? 7 : 3), "C17.receives_its_antecedent"); return 3; } }; boost::future<int> a = attach(f, pa1, K<boost::future<int>, int, int>()); boost::future<int> b = attach(a, pb1, S::f); if (pa1 == DEFERRED && pb1 != DEFERRED) { vc_cover("end"); vc_end(); } outcome(b, false); vc_assert(runs[0] == 1 && runs[1] == 1 && isready, "C17.run_exactly_once"); while (nrun < nb) body(); vc_cover("end"); }
ENTRY(fallback) { env(false); boost::future<int> f = ante<int>(); boost::future<int> g = vc_choose("move") ? f.fallback_to(3) : [&] { const int k = 3; return f.fallback_to(k); }(); int v = g.get(); vc_assert(v == (aboom ? 3 : 5), "C17.outcome_delivered"); vc_cover("end"); }
// an interrupted waiter does not lose the continuation
ENTRY(deferred_interrupted) { env(false); boost::future<int> f = ante<int>(); boost::future<int> g = attach(f, DEFERRED, K<boost::future<int>, int, int>()); om = g.future_->mutex.native_handle(); bd::thread_data_base* td = bd::get_or_make_current_thread_data(); if (vc_choose("interrupt")) { td->interrupt_enabled = true; td->interrupt_requested = true; } bool i = false; try { g.wait(); } catch (boost::thread_interrupted&) { i = true; vc_assert(runs[0] == 0, "C17.run_exactly_once"); vc_cover("interrupted"); } vc_assert(!vc_held(om) && !vc_held(am), "C17.continuation_runs_unlocked"); vc_self = 6; bd::get_or_make_current_thread_data(); outcome(g, boom); vc_assert(runs[0] == 1 && who[0] == (i ? 6 : 1), "C17.run_exactly_once"); vc_cover("end"); }
#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
// ---------------------------------------------------------------- on an executor, directly and inherited
struct Ex { boost::executors::work* w[3]; int n, d; bool refuse; Ex() : n(0), d(0), refuse(false) {} template <class C> void submit(BOOST_THREAD_FWD_REF(C) c) { if (refuse) boost::throw_exception(boost::sync_queue_is_closed()); vc_assert(n < 3, "C17.submitted_once"); w[n++] = new boost::executors::work(boost::forward<C>(c)); if (when_ == 0) run(); } void run() { vc_assert(d < n, "C17.never_waits_for_what_nobody_runs"); int o = vc_self; vc_self = 7; int k = d++; (*w[k])(); vc_self = o; delete w[k]; } void submit(boost::executors::work& c) { submit(boost::move(c)); } void close() {} bool closed() { return refuse; } bool try_executing_one() { return false; } };
static Ex* ex; static void exwaits(pthread_cond_t*, pthread_mutex_t*) { if (ex->d < ex->n) ex->run(); else { vc_assert(!isready, "C17.never_waits_for_what_nobody_runs"); mkready(); } }
template <class F, class A, class R> static void exec_(bool shared) { env(false); ex = new Ex; vc_env.wait_hook = exwaits; ex->refuse = vc_choose("closed"); live = 0; { boost::future<A> f0 = ante<A>(); F f(boost::move(f0)); boost::future<R> g = f.then(*ex, K<F, A, R>()); vc_assert(g.valid() && f.valid() == shared && nb == 0, "C17.antecedent_consumed"); om = g.future_->mutex.native_handle(); if (!isready) { vc_assert(runs[0] == 0 && ex->n == 0, "C17.not_before_the_antecedent_is_ready"); if (vc_choose("made_ready_now")) mkready(); } if (vc_choose("wait")) g.wait(); bool r = false; try { outcome(g, boom); } catch (boost::sync_queue_is_closed&) { r = true; } vc_assert(r == ex->refuse && isready, "C17.failure_is_the_outcome"); vc_assert(runs[0] == !r && (r || who[0] == 7), "C17.runs_where_the_policy_says"); am = om = 0; delete P<A>::p; if (shared) { int v = -1, e = 0; try { v = Mk<A>::get(f); } catch (Boom& b) { e = b.k; } vc_assert(aboom ? e == 9 : v == val<A>(5), "C17.antecedent_keeps_its_result"); } } vc_assert(live == 0, "C17.function_destroyed"); vc_cover("end"); }
ENTRY(executor_int) { exec_<boost::future<int>, int, int>(false); } ENTRY(executor_obj_void) { exec_<boost::future<VT>, VT, void>(false); } ENTRY(executor_void_obj) { exec_<boost::future<void>, void, VT>(false); } ENTRY(executor_shared) { exec_<boost::shared_future<int>, int, int>(true); }
struct S3 { static int f(boost::future<int> x) { who[1] = vc_self; runs[1]++; try { x.get(); } catch (Boom&) {} return 3; } static int g(boost::future<int> x) { who[2] = vc_self; runs[2]++; vc_assert(x.get() == 3, "C17.receives_its_antecedent"); return 3; } static int sf(boost::shared_future<int> x) { who[1] = vc_self; runs[1]++; return 3; } };
ENTRY(executor_inherited) { env(false); ex = new Ex; vc_env.wait_hook = exwaits; boost::future<int> f = ante<int>(); boost::future<int> a = f.then(*ex, K<boost::future<int>, int, int>()); int how = pick("policy", 3); bool early = vc_choose("early"); if (!early) a.wait(); boost::future<int> b = how == 0 ? a.then(S3::f) : how == 1 ? a.then(boost::launch::inherit, S3::f) : a.then(boost::launch::executor, S3::f); if (!early) b.wait(); boost::future<int> c = b.then(S3::g); outcome(c, false); vc_assert(runs[0] == 1 && runs[1] == 1 && runs[2] == 1 && who[0] == 7 && who[1] == 7 && who[2] == 7 && nb == 0, "C17.runs_where_the_policy_says"); vc_cover("end"); }
ENTRY(executor_inherited_shared) { env(false); ex = new Ex; vc_env.wait_hook = exwaits; boost::future<int> f = ante<int>(); boost::shared_future<int> a = f.then(*ex, K<boost::future<int>, int, int>()).share(); int how = pick("policy", 3); if (!vc_choose("early")) a.wait(); boost::future<int> b = how == 0 ? a.then(S3::sf) : how == 1 ? a.then(boost::launch::inherit, S3::sf) : a.then(boost::launch::executor, S3::sf); a = boost::shared_future<int>(); b.wait(); boost::future<int> c = b.then(S3::g); outcome(c, false); vc_assert(runs[0] == 1 && runs[1] == 1 && runs[2] == 1 && who[1] == 7 && who[2] == 7 && nb == 0, "C17.runs_where_the_policy_says"); vc_cover("end"); }
#endif
// ---------------------------------------------------------------- unwrapping
template <class R> static void unwrap_() { env(false); makeready = 0; boost::promise<boost::future<R> > po; boost::promise<R>* pi = P<R>::p = new boost::promise<R>; boost::future<boost::future<R> > o = po.get_future(); int inner = pick("inner", 3); /* 0 valid, 1 invalid, 2 outer holds an exception */ bool iready = inner == 0 && vc_choose("inner_first"), ob = vc_choose("outer_first"); vc_self = 2; if (iready) P<R>::ready(); 
  struct L { static void so(boost::promise<boost::future<R> >& po, int inner, boost::promise<R>* pi) { if (inner == 2) po.set_exception(boost::copy_exception(Boom{8})); else { boost::future<R> x; if (inner == 0) x = pi->get_future(); po.set_value(boost::move(x)); } } }; if (ob) L::so(po, inner, pi); vc_self = 1; boost::future<R> u; if (vc_choose("constructor")) u = boost::future<R>(boost::move(o)); else u = o.unwrap(); vc_assert(!o.valid() && u.valid(), "C17.antecedent_consumed"); vc_self = 2; if (!ob) { vc_assert(!u.is_ready(), "C17.not_before_the_antecedent_is_ready"); L::so(po, inner, pi); } if (inner == 0 && !iready) { vc_assert(!u.is_ready(), "C17.not_before_the_antecedent_is_ready"); P<R>::ready(); } vc_self = 1; vc_assert(u.is_ready(), "C17.ready_when_the_inner_is"); int v = -1, e = 0; try { v = Mk<R>::get(u); } catch (Boom& b) { e = b.k; } catch (boost::future_uninitialized&) { e = 6; } vc_assert(inner == 2 ? e == 8 : inner == 1 ? e == 6 : aboom ? e == 9 : v == val<R>(5) && e == 0, "C17.outcome_delivered"); vc_cover("end"); }
ENTRY(unwrap_int) { unwrap_<int>(); } ENTRY(unwrap_obj) { unwrap_<VT>(); } ENTRY(unwrap_void) { unwrap_<void>(); }
ENTRY(unwrap_then) { env(false); boost::promise<boost::future<int> > po; boost::future<boost::future<int> > o = po.get_future(); boost::future<int> f = ante<int>(); struct S { static int f(boost::future<boost::future<int> > x) { runs[0]++; boost::future<int> y = x.get(); return 3; } }; bool b = vc_choose("before"); if (b) po.set_value(boost::move(f)); int pol = pick("policy", 4); boost::future<int> g = attach(o, pol, S::f); vc_assert(!o.valid(), "C17.antecedent_consumed"); if (!b) { vc_assert(runs[0] == 0, "C17.not_before_the_antecedent_is_ready"); po.set_value(boost::move(f)); } outcome(g, false); vc_assert(runs[0] == 1, "C17.run_exactly_once"); vc_cover("end"); }
// ---------------------------------------------------------------- when_all, when_any
static boost::promise<int>* wp[2]; static int wst[2]; static int dr; static int dfun() { dr++; return 5; } static void wset(int i) { int o = vc_self; vc_self = 2; wst[i] = 1; if (vc_choose("input_throws")) wp[i]->set_exception(boost::copy_exception(Boom{9})); else wp[i]->set_value(5); vc_self = o; }
static boost::future<int> win(int i) { int k = pick("input", 3); wst[i] = 0; if (k == 2) { wst[i] = 2; return boost::async(boost::launch::deferred, dfun); } wp[i] = new boost::promise<int>; boost::future<int> f = wp[i]->get_future(); if (k == 1) wset(i); return boost::move(f); }
static void wwaits(pthread_cond_t*, pthread_mutex_t*) { if (vc_self == 1 && nrun < nb) body(); else { int i = wst[0] == 0 && (wst[1] != 0 || vc_choose("first")) ? 0 : 1; vc_assert(wst[i] == 0, "C17.never_waits_for_what_nobody_runs"); wset(i); } }
static void checkin(boost::future<int>& f, bool all) { vc_assert(f.valid(), "C17.inputs_returned"); if (all) vc_assert(f.is_ready(), "C17.after_all_are_ready"); if (f.is_ready()) { int v = 0; try { v = f.get(); } catch (Boom& b) { v = b.k; } vc_assert(v == 5 || v == 9, "C17.inputs_returned"); } }
template <bool ALL, bool TUPLE> static void when__() { env(true); boom = false; when_ = vc_choose("late"); vc_env.wait_hook = wwaits; typedef boost::future<int> F; F f[2]; f[0] = win(0); f[1] = win(1); F *a = &f[0], *b = &f[1]; bool failed = false;
  if (TUPLE) { typedef boost::csbl::tuple<F, F> T; boost::future<T> g; try { g = ALL ? boost::when_all(boost::move(f[0]), boost::move(f[1])) : boost::when_any(boost::move(f[0]), boost::move(f[1])); } catch (boost::thread_resource_error&) { failed = true; } if (failed) { vc_cover("failed"); vc_assert(nb == 0, "C17.failure_is_reported"); vc_cover("end"); vc_end(); } vc_assert(!f[0].valid() && !f[1].valid() && nb <= 1, "C17.antecedent_consumed"); if (g.is_ready()) vc_assert(ALL ? wst[0] && wst[1] : wst[0] || wst[1], "C17.after_all_are_ready"); T r = g.get(); bool r0 = boost::csbl::get<0>(r).is_ready(), r1 = boost::csbl::get<1>(r).is_ready(); vc_assert(ALL ? r0 && r1 : r0 || r1, "C17.after_one_is_ready"); checkin(boost::csbl::get<0>(r), ALL); checkin(boost::csbl::get<1>(r), ALL); }
  else { typedef boost::csbl::vector<F> T; boost::future<T> g; try { g = ALL ? boost::when_all((F*)0 == a ? T().begin() : std::vector<F>::iterator(a), std::vector<F>::iterator(b + 1)) : boost::when_any(std::vector<F>::iterator(a), std::vector<F>::iterator(b + 1)); } catch (boost::thread_resource_error&) { failed = true; } if (failed) { vc_cover("failed"); vc_assert(nb == 0, "C17.failure_is_reported"); vc_cover("end"); vc_end(); } vc_assert(!f[0].valid() && !f[1].valid() && nb <= 1, "C17.antecedent_consumed"); if (g.is_ready()) vc_assert(ALL ? wst[0] && wst[1] : wst[0] || wst[1], "C17.after_all_are_ready"); T r = g.get(); vc_assert(r.size() == 2, "C17.inputs_returned"); bool r0 = r[0].is_ready(), r1 = r[1].is_ready(); vc_assert(ALL ? r0 && r1 : r0 || r1, "C17.after_one_is_ready"); checkin(r[0], ALL); checkin(r[1], ALL); }
  vc_assert(dr <= (wst[0] == 2) + (wst[1] == 2), "C17.run_exactly_once"); if (ALL) vc_assert(dr == (wst[0] == 2) + (wst[1] == 2), "C17.run_exactly_once"); while (nrun < nb) body(); vc_cover("end"); }
ENTRY(b_when_all_tuple) { when__<true, true>(); } ENTRY(b_when_any_tuple) { when__<false, true>(); } ENTRY(b_when_all_range) { when__<true, false>(); } ENTRY(b_when_any_range) { when__<false, false>(); }
ENTRY(when_empty) { vc_self = 1; std::vector<boost::future<int> > v; bool all = vc_choose("all"); boost::future<boost::csbl::vector<boost::future<int> > > g = all ? boost::when_all(v.begin(), v.end()) : boost::when_any(v.begin(), v.end()); vc_assert(g.is_ready() && g.get().empty(), "C17.inputs_returned"); boost::future<boost::csbl::tuple<> > t = all ? boost::when_all() : boost::when_any(); vc_assert(t.is_ready(), "C17.inputs_returned"); vc_cover("end"); }
// ---------------------------------------------------------------- every interleaving of attaching and becoming ready
static boost::promise<int>* sp; static boost::future<int>* sf; static boost::shared_future<int>* ss; static boost::future<int>* sg; static int spol, got; 
static void t_set(void*) { if (aboom) sp->set_exception(boost::copy_exception(Boom{9})); else sp->set_value(5); } static void t_break(void*) { delete sp; } static void sched() { vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; } static void* (*tb[2])(void*); static void* ta[2]; static int tn; static void t_thread(void* k) { tb[(long)k](ta[(long)k]); } static int s_create(void* (*f)(void*), void* a) { tb[tn] = f; ta[tn] = a; vc_thread(t_thread, (void*)(long)tn); tn++; return 0; }
static void fin() { vc_run(); for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C17.everyone_finishes"); vc_cover("end"); }
static void s0() { boom = vc_choose("throws"); aboom = vc_choose("antecedent_throws"); vc_env.create_hook = s_create; sp = new boost::promise<int>; sf = new boost::future<int>(sp->get_future()); am = sf->future_->mutex.native_handle(); }
static void t_attach(void*) { boost::future<int> g = attach(*sf, spol, K<boost::future<int>, int, int>()); vc_assert(!sf->valid(), "C17.antecedent_consumed"); outcome(g, boom); got++; } static void t_attach_sh(void* k) { boost::shared_future<int> f(*ss); boost::future<int> g = attach(f, spol, K<boost::shared_future<int>, int, int>((int)(long)k)); outcome(g, boom); vc_assert(runs[(long)k] == 1, "C17.run_exactly_once"); got++; }
template <int POL> static void s_attach() { s0(); spol = POL; sched(); vc_thread(t_attach, 0); vc_thread(t_set, 0); fin(); vc_assert(runs[0] == 1 && got == 1, "C17.run_exactly_once"); }
ENTRY(sched_async) { s_attach<ASYNC>(); } ENTRY(sched_sync) { s_attach<SYNC>(); } ENTRY(sched_deferred) { s_attach<DEFERRED>(); }
template <int POL> static void s_attach2() { s0(); vc_assume(!boom && !aboom); spol = POL; ss = new boost::shared_future<int>(sf->share()); sched(); vc_sched.preempt = 2; vc_thread(t_attach_sh, (void*)0); vc_thread(t_attach_sh, (void*)1); vc_thread(t_set, 0); fin(); vc_assert(got == 2 && runs[0] == 1 && runs[1] == 1, "C17.run_exactly_once"); }
ENTRY(sched_2sync) { s_attach2<SYNC>(); } ENTRY(sched_2deferred) { s_attach2<DEFERRED>(); }
static boost::shared_future<int>* sd; static void t_get(void*) { boost::shared_future<int> f(*sd); int v = 0; try { v = f.get(); } catch (Boom& b) { v = b.k; } vc_assert(v == (boom ? 7 : 3), "C17.outcome_delivered"); got++; }
ENTRY(sched_deferred_2get) { s0(); boost::future<int> g = attach(*sf, DEFERRED, K<boost::future<int>, int, int>()); om = g.future_->mutex.native_handle(); sd = new boost::shared_future<int>(g.share()); sched(); vc_thread(t_get, 0); vc_thread(t_get, 0); vc_thread(t_set, 0); fin(); vc_assert(got == 2 && runs[0] == 1, "C17.run_exactly_once"); }
static void t_get_i(void*) { boost::shared_future<int> f(*sd); bd::thread_data_base* td = bd::get_or_make_current_thread_data(); { td->interrupt_enabled = true; td->interrupt_requested = true; } try { f.wait(); } catch (boost::thread_interrupted&) { vc_cover("interrupted"); } }
ENTRY(sched_deferred_interrupted) { s0(); vc_assume(!boom && !aboom); boost::future<int> g = attach(*sf, DEFERRED, K<boost::future<int>, int, int>()); sd = new boost::shared_future<int>(g.share()); sched(); vc_thread(t_get, 0); vc_thread(t_get_i, 0); vc_thread(t_set, 0); fin(); vc_assert(got == 1 && runs[0] == 1, "C17.run_exactly_once"); }
static boost::promise<boost::future<int> >* so; static void t_set_o(void*) { so->set_value(boost::move(*sf)); } static void t_unwrap(void*) { boost::future<boost::future<int> > o = so->get_future(); boost::future<int> u = o.unwrap(); int v = 0; try { v = u.get(); } catch (Boom& b) { v = b.k; } vc_assert(v == (aboom ? 9 : 5), "C17.outcome_delivered"); got++; }
ENTRY(sched_unwrap) { s0(); am = 0; so = new boost::promise<boost::future<int> >; sched(); vc_thread(t_unwrap, 0); vc_thread(t_set, 0); vc_thread(t_set_o, 0); fin(); vc_assert(got == 1, "C17.run_exactly_once"); }
