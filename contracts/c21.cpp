// C21: executors. The real executors and the real sync_queue / sync_timed_queue run over abstract containers of any length, shared
// with any number of other submitters, workers and closers; worker loops are proved for any number of tasks.
#include "vc_boost.h"
#include <boost/thread/thread.hpp>
#include <boost/thread/pthread/thread_data.hpp>
#include <boost/thread/csbl/devector.hpp>
#include <boost/thread/executors/work.hpp>
#include <vector>
#include <algorithm>
namespace bc = boost::chrono; namespace bd = boost::detail; namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
typedef boost::executors::work W; typedef bc::steady_clock CK; typedef CK::time_point TP;
static const int64_t NOW = 5000000000LL, BIG = 1000000000000000LL; static TP tp_(int64_t t) { return TP(bc::nanoseconds(t)); } static int64_t ns(TP t) { return t.time_since_epoch().count(); }
// ---------------------------------------------------------------- the one task handed out by the containers
static pthread_mutex_t* qm; static bool qfree, tintr; static void held() { if (!qfree) vc_assert(vc_held(qm), "C21.queue_touched_under_its_lock"); }
static int cur, runner; static int64_t due; static W* master; static void (*resubmit_)(); static bool may_intr; // cur: 1 handed out and not yet run
static void task() { vc_assert(cur == 1, "C21.run_at_most_once"); vc_assert(!qm || !vc_held(qm), "C21.task_runs_unlocked"); if (runner) vc_assert(vc_self == runner, "C21.task_runs_where_it_should"); vc_assert(vc_env.clk[1] >= due, "C21.never_before_its_time"); cur = 0; due = 0; vc_env.clk[1] = NOW; vc_cover("task_run");
  if (resubmit_ && vc_choose("task_submits")) resubmit_(); if (may_intr && vc_choose("task_is_interrupted")) { tintr = true; throw boost::thread_interrupted(); } }
static W* slot; static void fresh() { *slot = *master; }
static int npush; static W* pushed; static int64_t pushed_at; static void keep(W&& w) { if (npush < 2) npush++; if (pushed) *pushed = (W&&)w; }
struct GW { typedef W value_type; typedef size_t size_type; typedef W& reference; typedef const W& const_reference; mutable size_t n; bool local;
  GW() : n(0), local(false) {} GW(GW&& o) : n(o.n), local(true) { held(); o.n = 0; fresh(); cur = 0; }
  bool empty() const { if (local) n = vc_range64("left", 0, BIG); else held(); return n == 0; } size_t size() const { held(); return n; }
  W& front() { if (!local) held(); vc_assert(n > 0 && cur != 1, "C21.run_before_the_next"); if (local) cur = 1; return *slot; }
  void pop_front() { if (local) { vc_assert(n > 0 && cur == 0, "C21.run_before_the_next"); n--; fresh(); return; } held(); vc_assert(n > 0 && cur != 1, "C21.run_before_the_next"); n--; cur = 1; fresh(); }
  void push_back(const W& w) { held(); n++; W c(w); keep((W&&)c); } void push_back(W&& w) { held(); n++; keep((W&&)w); } };
namespace boost { namespace csbl { template <> class devector<W> : public ::GW { public: devector() {} devector(devector&& o) : ::GW((::GW&&)o) {} }; } }
namespace boost { namespace concurrent { namespace detail { template <class T, class Clock, class TimePoint> struct scheduled_type; } } }
typedef boost::concurrent::detail::scheduled_type<W, CK, TP> ST; template <class T> struct TopOf { static T* p; static int64_t at(T& t) { return ns(t.time); } static W& w(T& t) { return t.data; } }; template <class T> T* TopOf<T>::p;
struct GIt { bool end; typedef std::random_access_iterator_tag iterator_category; typedef ST value_type; typedef long difference_type; typedef ST* pointer; typedef ST& reference; };
namespace std { template <> class vector<ST> { public: typedef ST value_type; typedef size_t size_type; typedef ST& reference; typedef const ST& const_reference; typedef GIt iterator; size_t n; bool popped;
  vector() : n(0), popped(false) {} bool empty() const { held(); return n == 0; } size_t size() const { held(); return n; } ST& front() const { held(); vc_assert(n > 0 && cur != 1, "C21.run_before_the_next"); return *TopOf<ST>::p; } ST& back() const { held(); return *TopOf<ST>::p; }
  template <class T> void put(T& t) { held(); n++; if (npush < 2) npush++; pushed_at = TopOf<T>::at(t); if (pushed) *pushed = (W&&)TopOf<T>::w(t); } void push_back(const ST& x) { tput(x); } void push_back(ST&& x) { put(x); } template <class T> void tput(const T& t) { T c(t); put(c); }
  template <class T = ST> void pop_back() { held(); vc_assert(n > 0 && cur != 1, "C21.run_before_the_next"); n--; cur = 1; } GIt begin() { return GIt{false}; } GIt end() { return GIt{true}; } };
  template <> inline void push_heap(GIt, GIt, std::less<ST>) { held(); } template <> inline void pop_heap(GIt, GIt, std::less<ST>) { held(); } }
#include <boost/thread/executors/basic_thread_pool.hpp>
#include <boost/thread/executors/loop_executor.hpp>
#include <boost/thread/executors/serial_executor.hpp>
#include <boost/thread/executors/inline_executor.hpp>
#include <boost/thread/executors/thread_executor.hpp>
#include <boost/thread/executors/executor_adaptor.hpp>
#include <boost/thread/executors/generic_executor_ref.hpp>
#include <boost/thread/executors/scheduler.hpp>
#include <boost/thread/executors/scheduled_thread_pool.hpp>
#include <boost/thread/executors/scheduling_adaptor.hpp>
typedef boost::sync_queue_is_closed closed_x; typedef boost::basic_thread_pool Pool; typedef boost::loop_executor Loop; typedef boost::serial_executor Ser; typedef boost::inline_executor Inl; typedef boost::thread_executor Thx;
// ---------------------------------------------------------------- environment
static bool *qc, c0, rc, seen; static size_t *qn; static bool e0; static ST* top; static void* (*pb[4])(void*); static void* pa[4]; static int nb, nrun, ended; static bool intr_ok; static bd::thread_data_base* worker;
static void acq(void*) { vc_env.sleeps = vc_env.waits = 0; bool c = rc || vc_choose("closed"); seen = true; *qc = c0 = c; rc = c; *qn = vc_range64("length", 0, BIG); e0 = false; due = 0; if (top) { top->data = *master; due = vc_range64("due", 0, BIG); top->time = tp_(due); vc_env.clk[1] = vc_range64("now", 0, BIG); } }
static void rel(void*) { rc = *qc; e0 = vc_fork(*qn == 0); *qn = 0; }
static void body() { vc_assert(nrun < nb, "C21.never_waits_for_what_nobody_runs"); int o = vc_self, k = nrun++; vc_self = 3 + k; worker = 0; pb[k](pa[k]); vc_self = o; ended++; }
static int on_create(void* (*f)(void*), void* a) { vc_assert(nb < 4, "C21.one_thread_each"); pb[nb] = f; pa[nb] = a; nb++; return 0; }
static void waits(pthread_cond_t*, pthread_mutex_t* m) { if (vc_self >= 3 || !nb) { vc_assert(!vc_held(qm) && !rc, "C21.waits_only_while_open"); if (!top) vc_assert(e0, "C21.waits_only_while_empty"); vc_assert(cur != 1, "C21.no_task_is_lost"); if (top) vc_env.clk[1] = vc_range64("now", 0, BIG); if (intr_ok) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); if (!t->interrupt_requested) t->interrupt_requested = vc_choose("interrupt"); } } else body(); }
static void init() { vc_self = 1; bd::get_or_make_current_thread_data(); master = new W(task); slot = new W; fresh(); vc_env.create_hook = on_create; vc_env.wait_hook = waits; vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = NOW; vc_env.clk_hi_s = 4000000000LL; }
template <class X> static void watch(X& q) { qm = q.mtx_.native_handle(); qc = &q.closed_; qn = &q.data_.n; vc_monitor(qm, acq, rel, 0); }
template <class X> static void watch_t(X& q) { qm = q.mtx_.native_handle(); qc = &q.closed_; qn = &q.data_._elements.n; top = new ST(W(task), tp_(0)); TopOf<ST>::p = top; vc_monitor(qm, acq, rel, 0); }
static bool drained() { return rc && e0; }
static bool notdue() { return rc && (e0 || vc_env.clk[1] < due); }
static void over() { vc_assert(cur != 1, "C21.no_task_is_lost"); vc_assert(!vc_held(qm), "C21.lock_released"); }
static void fin() { over(); vc_cover("end"); }
// ---------------------------------------------------------------- basic_thread_pool: the worker loop, under each constructor
static Pool* pool; static int entries; static void pool_sub() { try { pool->submit(task); } catch (closed_x&) {} } static void at_entry(Pool& p) { vc_assert(&p == pool || !pool, "C21.entry_function_gets_its_pool"); vc_assert(vc_self >= 3 && !entries && !seen, "C21.entry_function_first"); entries++; } struct AtE { int k; void operator()(Pool& p) { vc_assert(k == 5, "C21.entry_function_kept"); at_entry(p); } };
static Pool* mkpool(int form) { qfree = true; void* m = operator new(sizeof(Pool)); Pool* p = form == 0 ? new (m) Pool(1) : form == 1 ? new (m) Pool(1, at_entry) : new (m) Pool(1, AtE{5}); qfree = false; return p; }
static void pool_worker(int form, bool in) { init(); pool = mkpool(form); vc_assert(nb == 1, "C21.one_thread_each"); watch(pool->work_queue); runner = 3; resubmit_ = pool_sub; intr_ok = may_intr = in; body(); vc_assert(drained() || (in && (tintr || !rc)), "C21.worker_stops_only_when_closed_and_drained"); vc_assert(entries == (form != 0), "C21.entry_function_first"); fin(); }
ENTRY(pool_worker) { pool_worker(0, false); } ENTRY(pool_worker_entry_function) { pool_worker(1, false); } ENTRY(pool_worker_entry_rvalue) { pool_worker(3, false); } ENTRY(pool_worker_interrupted) { pool_worker(0, true); }
ENTRY(pool_destroy) { init(); pool = mkpool(0); watch(pool->work_queue); if (vc_choose("joined_before")) { try { pool->close(); vc_assert(rc, "C21.close_closes"); pool->join(); vc_assert(ended == 1, "C21.join_waits"); vc_cover("end"); vc_end(); } catch (boost::thread_interrupted&) { vc_end(); } } runner = 3; pool->~Pool(); vc_assert(ended == 1 && vc_env.njoined == 1, "C21.destruction_waits_for_the_workers"); vc_cover("end"); }
static bool pr, prn; static bool prv() { return pr = vc_choose("pred"); } struct Pd { bool operator()() const { vc_assert(cur == 0, "C21.run_before_the_next"); return prv(); } };
template <class X> static void driven(X& x, int k) { runner = 1; bool r; switch (k) { case 0: r = x.try_executing_one(); vc_assert(cur == 0, "C21.no_task_is_lost"); if (r) vc_cover("one"); else { vc_assert(e0, "C21.false_only_when_nothing_is_queued"); vc_cover("none"); } break; case 1: r = x.reschedule_until(Pd()); vc_assert(r ? pr : e0, "C21.reschedules_until_the_predicate"); if (r) vc_cover("pred"); break; } fin(); }
ENTRY(pool_try) { init(); qfree = true; pool = new Pool(0); qfree = false; watch(pool->work_queue); driven(*pool, 0); } ENTRY(pool_reschedule) { init(); qfree = true; pool = new Pool(0); qfree = false; watch(pool->work_queue); driven(*pool, 1); } ENTRY(pool_schedule_or_yield) { init(); qfree = true; pool = new Pool(0); qfree = false; watch(pool->work_queue); runner = 1; pool->schedule_one_or_yield(); fin(); }
// ---------------------------------------------------------------- loop_executor
static Loop* lp; static void lp_sub() { try { lp->submit(task); } catch (closed_x&) {} } static void mkloop() { init(); qfree = true; lp = new Loop; qfree = false; watch(lp->work_queue); resubmit_ = lp_sub; }
ENTRY(loop) { mkloop(); runner = 1; lp->loop(); vc_assert(drained(), "C21.worker_stops_only_when_closed_and_drained"); fin(); } ENTRY(loop_try) { mkloop(); driven(*lp, 0); } ENTRY(loop_reschedule) { mkloop(); driven(*lp, 1); } ENTRY(loop_run_queued) { mkloop(); runner = 1; lp->run_queued_closures(); vc_assert(cur == 0, "C21.no_task_is_lost"); fin(); } ENTRY(loop_destroy) { mkloop(); lp->~Loop(); vc_assert(rc, "C21.destruction_closes"); vc_assert(cur == 0, "C21.run_at_most_once"); vc_cover("end"); }
template <class X> static void openclose(X& x) { if (vc_choose("ask")) { bool r = x.closed(); vc_assert(seen && r == c0, "C21.closed_exact"); } else { x.close(); vc_assert(seen && rc, "C21.close_closes"); } fin(); }
ENTRY(loop_close) { mkloop(); openclose(*lp); } ENTRY(pool_close) { init(); qfree = true; pool = new Pool(0); qfree = false; watch(pool->work_queue); openclose(*pool); }
// ---------------------------------------------------------------- serial_executor over any executor (runs the task at once, or later on another thread)
struct Under { bool have, c; W* w; int subs; void submit(W&& x) { subs = 1; vc_assert(!have, "C21.serial_tasks_never_overlap"); *w = (W&&)x; have = true; if (vc_choose("runs_at_once")) run(); } void run() { int o = vc_self; vc_self = 6; have = false; W x((W&&)*w); *w = W(); x(); vc_self = o; } bool closed() { return c; } void close() { c = true; } bool try_executing_one() { return false; } template <class F> void submit(F&& f) { W x((F&&)f); submit((W&&)x); } };
static Under* un; static Ser* ser; static void swaits(pthread_cond_t*, pthread_mutex_t* m) { if (un->have) un->run(); else if (vc_self < 3) body(); else vc_assert(false, "C21.never_waits_for_what_nobody_runs"); } static void ser_sub() { try { ser->submit(task); } catch (closed_x&) {} }
static void mkser() { init(); un = new Under(); un->w = new W; qfree = true; ser = new Ser(*un); qfree = false; vc_assert(nb == 1, "C21.one_thread_each"); watch(ser->work_queue); vc_env.wait_hook = swaits; resubmit_ = ser_sub; runner = 6; }
ENTRY(serial_worker) { mkser(); body(); vc_assert(drained() && !un->have, "C21.worker_stops_only_when_closed_and_drained"); fin(); } ENTRY(serial_destroy) { mkser(); resubmit_ = 0; ser->~Ser(); vc_assert(ended == 1 && vc_env.njoined == 1, "C21.destruction_waits_for_the_workers"); vc_cover("end"); }
ENTRY(serial_try) { mkser(); nrun = nb; bool r = ser->try_executing_one(); vc_assert(cur == 0, "C21.no_task_is_lost"); vc_assert(r || e0, "C21.false_only_when_nothing_is_queued"); if (r) vc_cover("one"); fin(); } ENTRY(serial_close) { mkser(); openclose(*ser); }
// ---------------------------------------------------------------- submission: every form of closure, every executor, open or closed
static int fruns, flive, fwho; struct L { int k; explicit L(int i) : k(i) { flive++; } L(const L& o) : k(o.k) { flive++; } L(L&& o) noexcept : k(o.k) { o.k = -1; flive++; } ~L() { flive--; } void operator()() { vc_assert(k == 11, "C21.runs_the_closure_given"); fruns++; fwho = vc_self; vc_assert(!qm || !vc_held(qm), "C21.task_runs_unlocked"); } };
struct M : L { explicit M(int i) : L(i) {} M(M&& o) noexcept : L((L&&)o) {} M(const M&) = delete; }; static void fp() { fruns++; fwho = vc_self; vc_assert(!qm || !vc_held(qm), "C21.task_runs_unlocked"); }
template <class X> static bool sub(X& x, int form) { try { switch (form) { case 0: x.submit(fp); break; case 1: { L f(11); bool ok = true; try { x.submit(f); } catch (closed_x&) { ok = false; } vc_assert(f.k == 11, "C21.lvalue_closure_untouched"); if (!ok) throw closed_x(); break; } case 2: x.submit(M(11)); break; case 3: { W w((L(11))); x.submit(boost::move(w)); break; } } } catch (closed_x&) { return false; } return true; }
static int pickf() { int f = 0; while (f < 3 && !vc_choose("form")) f++; return f; }
template <class X> static void submits(X& x) { resubmit_ = 0; pushed = new W; int f = pickf(); bool r = sub(x, f); vc_assert(fruns == 0, "C21.runs_only_when_driven"); vc_assert(seen, "C21.lock_taken");
  if (r) { vc_assert(!c0 && npush == 1, "C21.accepted_exactly_once"); (*pushed)(); vc_assert(fruns == 1, "C21.runs_the_closure_given"); vc_cover("accepted"); } else { vc_assert(c0 && npush == 0, "C21.refused_only_when_closed"); vc_cover("refused"); } delete pushed; vc_assert(flive == 0, "C21.closure_destroyed"); fin(); }
static Pool* pool0() { init(); qfree = true; pool = new Pool(0); qfree = false; watch(pool->work_queue); return pool; }
ENTRY(pool_submit) { submits(*pool0()); } ENTRY(loop_submit) { mkloop(); submits(*lp); } ENTRY(serial_submit) { mkser(); submits(*ser); }
ENTRY(adaptor_submit) { init(); qfree = true; boost::executor_adaptor<Loop>* a = new boost::executor_adaptor<Loop>; qfree = false; watch(a->underlying_executor().work_queue); if (vc_choose("as_base")) submits((boost::executor&)*a); else submits(*a); }
ENTRY(ref_submit) { mkloop(); boost::generic_executor_ref g(*lp); submits(g); } ENTRY(executor_ref_submit) { mkloop(); boost::executor_ref<Loop> g(*lp); submits((boost::executor&)g); }
ENTRY(ref_driven) { mkloop(); boost::generic_executor_ref g(*lp); driven(g, vc_choose("one") ? 0 : 1); } ENTRY(ref_close) { mkloop(); boost::generic_executor_ref g(*lp); openclose(g); } ENTRY(adaptor_driven) { init(); qfree = true; boost::executor_adaptor<Loop>* a = new boost::executor_adaptor<Loop>; qfree = false; watch(a->underlying_executor().work_queue); driven(*a, vc_choose("one") ? 0 : 1); } ENTRY(adaptor_close) { init(); qfree = true; boost::executor_adaptor<Loop>* a = new boost::executor_adaptor<Loop>; qfree = false; watch(a->underlying_executor().work_queue); openclose(*a); }
// ---------------------------------------------------------------- inline_executor, thread_executor
static bool* ec; static void eacq(void*) { bool c = vc_nondet_bool("closed"); if (seen) vc_assume(c | !rc); seen = true; *ec = c0 = c; } static void erel(void*) { rc = *ec; }
template <class X> static void ewatch(X& x) { qm = x.mtx_.native_handle(); ec = &x.closed_; vc_monitor(qm, eacq, erel, 0); }
ENTRY(inline_submit) { init(); Inl x; ewatch(x); bool r = sub(x, pickf()); if (r) { vc_assert(!c0 && fruns == 1 && fwho == 1, "C21.runs_exactly_once"); vc_cover("accepted"); } else { vc_assert(c0 && fruns == 0, "C21.refused_only_when_closed"); vc_cover("refused"); } vc_assert(flive == 0, "C21.closure_destroyed"); vc_cover("end"); } ENTRY(inline_close) { init(); Inl x; ewatch(x); openclose(x); } ENTRY(thread_close) { init(); Thx x; ewatch(x); openclose(x); }
ENTRY(inline_rest) { init(); Inl x; vc_assert(!x.closed() && !x.try_executing_one() && !x.reschedule_until(Pd()), "C21.inline_queues_nothing"); Thx y; vc_assert(!y.closed() && !y.try_executing_one() && !y.reschedule_until(Pd()), "C21.inline_queues_nothing"); vc_cover("end"); }
ENTRY(thread_submit) { init(); Thx* x = new Thx; ewatch(*x); vc_env.create_err = 1 << 4; bool r = false, failed = false; try { r = sub(*x, pickf()); } catch (boost::thread_resource_error&) { failed = true; } vc_assert(seen, "C21.lock_taken"); if (r) { vc_assert(!c0 && fruns == 0 && nb == 1, "C21.accepted_exactly_once"); vc_cover("accepted"); } else if (failed) { vc_assert(!c0 && nb == 0, "C21.refused_only_when_closed"); vc_cover("failed"); } else { vc_assert(c0 && nb == 0, "C21.refused_only_when_closed"); vc_cover("refused"); }
  if (r && vc_choose("runs_now")) { body(); vc_assert(fruns == 1, "C21.runs_exactly_once"); } x->~Thx(); vc_assert(fruns == (r ? 1 : 0) && ended == fruns && vc_env.njoined == fruns, "C21.destruction_waits_for_the_workers"); if (r) vc_assert(fwho == 3, "C21.task_runs_where_it_should"); vc_assert(flive == 0, "C21.closure_destroyed"); vc_cover("end"); }
// ---------------------------------------------------------------- scheduled executors
typedef boost::executors::scheduler<> Sch; typedef boost::scheduled_thread_pool Stp; typedef boost::scheduling_adaptor<Inl> Sad; static Inl* inl;
static Sch* sch() { init(); qfree = true; Sch* s = new Sch; qfree = false; watch_t(s->_workq); return s; } static Stp* stp() { init(); qfree = true; Stp* s = new Stp(1); qfree = false; watch_t(s->_workq); return s; } static Sad* sad() { init(); inl = new Inl; qfree = true; Sad* s = new Sad(*inl); qfree = false; watch_t(s->_workq); vc_assert(&s->underlying_executor() == inl, "C21.underlying_executor"); return s; }
static void sworker(bool in) { vc_assert(nb == 1, "C21.one_thread_each"); runner = 3; intr_ok = may_intr = in; body(); vc_assert(notdue() || (in && (tintr || !rc)), "C21.worker_stops_only_when_closed_and_nothing_is_due"); fin(); }
ENTRY(scheduler_worker) { sch(); sworker(false); } ENTRY(scheduler_worker_interrupted) { sch(); sworker(true); } ENTRY(scheduled_pool_worker) { stp(); sworker(false); } ENTRY(scheduling_adaptor_worker) { sad(); sworker(false); }
template <class X> static void sdestroy(X* x) { runner = 3; x->~X(); vc_assert(ended == 1 && vc_env.njoined == 1 && rc, "C21.destruction_waits_for_the_workers"); vc_cover("end"); }
ENTRY(scheduler_destroy) { sdestroy(sch()); } ENTRY(scheduled_pool_destroy) { sdestroy(stp()); } ENTRY(scheduling_adaptor_destroy) { sdestroy(sad()); }
template <class X> static void sclose(X* x) { if (vc_choose("ask")) { bool r = x->closed(); vc_assert(seen && r == c0, "C21.closed_exact"); } else { x->close(); vc_assert(rc, "C21.close_closes"); } vc_cover("end"); } ENTRY(scheduler_close) { sclose(sch()); } ENTRY(scheduled_pool_close) { sclose(stp()); }
static int64_t t0; static void tacq(void* p) { int64_t c = vc_env.clk[1]; acq(p); vc_env.clk[1] = c; } // time stands still while something is submitted
template <class X> static void ssubmit(X* x) { vc_env.mon[0].acq = tacq; pushed = new W; t0 = vc_range64("time", -BIG, BIG); bool after = vc_choose("after"), fn = vc_choose("function"), r = true; try { if (after) { if (fn) x->submit_after(W(fp), bc::nanoseconds(t0)); else x->submit_after(L(11), bc::nanoseconds(t0)); t0 += NOW; } else { if (fn) x->submit_at(W(fp), tp_(t0)); else x->submit_at(M(11), tp_(t0)); } } catch (closed_x&) { r = false; }
  vc_assert(fruns == 0 && seen, "C21.runs_only_when_driven"); if (r) { vc_assert(!c0 && npush == 1, "C21.accepted_exactly_once"); vc_assert(pushed_at == t0, "C21.scheduled_for_its_time"); (*pushed)(); vc_assert(fruns == 1, "C21.runs_the_closure_given"); vc_cover("accepted"); } else { vc_assert(c0 && npush == 0, "C21.refused_only_when_closed"); vc_cover("refused"); } vc_cover("end"); }
ENTRY(scheduler_submit) { ssubmit(sch()); } ENTRY(scheduled_pool_submit) { ssubmit(stp()); } ENTRY(scheduling_adaptor_submit) { ssubmit(sad()); }
// executors made from a scheduler: at, after, on
struct Ex { bool c; int subs; bool closed() { return c; } void close() { c = true; } template <class F> void submit(F&& f) { if (c) throw closed_x(); subs++; f(); } };
ENTRY(scheduler_executors) { Sch* s = sch(); vc_env.mon[0].acq = tacq; pushed = new W; Ex ex = Ex(); Ex* e = &ex; t0 = vc_range64("time", -BIG, BIG); int how = 0; while (how < 4 && !vc_choose("how")) how++; bool after = how == 1 || how == 3, on = how >= 2, cl = vc_choose("closed_before"); if (on) ex.c = vc_choose("underlying_closed"); bool exc = ex.c, r = true, lv = vc_choose("lvalue"); L f(11); bc::nanoseconds d(t0); if (after) t0 += NOW;
#define GO(x) { auto a = x; vc_assert(&a.underlying_scheduler() == s, "C21.underlying_executor"); if (cl) { a.close(); vc_assert(a.closed(), "C21.close_closes"); } if (lv) a.submit(f); else a.submit(L(11)); }
  try { switch (how) { case 0: GO(s->at(tp_(t0))) break; case 1: GO(s->after(d)) break; case 2: GO(s->on(ex).at(tp_(t0))) break; case 3: GO(s->on(ex).after(d)) break; default: GO(s->at(tp_(t0)).on(ex)) } } catch (closed_x&) { r = false; }
  vc_assert(fruns == 0 && f.k == 11, "C21.lvalue_closure_untouched"); if (r) { vc_assert(!cl && !exc && !c0 && npush == 1, "C21.accepted_exactly_once"); vc_assert(pushed_at == t0, "C21.scheduled_for_its_time"); (*pushed)(); vc_assert(fruns == 1 && ex.subs == (on ? 1 : 0), "C21.runs_the_closure_given"); vc_cover("accepted"); } else { vc_assert((cl || exc || c0) && npush == 0, "C21.refused_only_when_closed"); vc_cover("refused"); } vc_cover("end"); }
