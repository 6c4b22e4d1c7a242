// C20: sync_priority_queue / sync_timed_queue. The vector behind the heap is an abstract multiset of any size, and the two standard
// heap algorithms are replaced by their contracts (explicit specialisations for its iterators); the rest is the real code.
#include "q_elem.h"
#include <vector>
#include <algorithm>
#include <boost/thread/concurrent_queues/queue_op_status.hpp>
// abstract heap vector of T: what is known is the element at the front; PEND: one more element sits behind a valid heap; POPPED: the top was moved behind the rest
enum { HEAP, PEND, POPPED };
template <class T> struct GV; template <class T> struct GIt { GV<T>* v; bool end; typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef long difference_type; typedef T* pointer; typedef T& reference; };
static char sl[2][64]; template <class T> T* gslot(int k) { return (T*)sl[k]; } // the two materialised elements (0 front, 1 back)
template <class T> struct GV {
  typedef T value_type; typedef size_t size_type; typedef T& reference; typedef const T& const_reference; typedef GIt<T> iterator;
  size_t n; int state, npush, npop;
  GV() : n(0), state(HEAP), npush(0), npop(0) {}
  GV(GV&& o) : n(o.n), state(o.state), npush(0), npop(0) { qheld(); o.n = 0; }
  bool empty() const { qheld(); return n == 0; } size_t size() const { qheld(); return n; }
  T& front() const { qheld(); vc_assert(n > 0, "C20.front_of_nonempty"); vc_assert(state == HEAP, "C20.front_of_a_heap"); return *gslot<T>(0); }
  T& back() const { qheld(); vc_assert(n > 0 && state != HEAP, "C20.back_is_the_moved_element"); return *gslot<T>(state == POPPED ? 0 : 1); }
  void push_back(const T& x) { qheld(); vc_assert(state == HEAP, "C20.heap_before_push"); new (gslot<T>(1)) T(x); n++; npush++; state = PEND; }
  void push_back(T&& x) { qheld(); vc_assert(state == HEAP, "C20.heap_before_push"); new (gslot<T>(1)) T((T&&)x); n++; npush++; state = PEND; }
  void pop_back() { qheld(); vc_assert(n > 0, "C20.pop_of_nonempty"); vc_assert(state == POPPED, "C20.only_the_top_is_removed"); n--; npop++; state = HEAP; }
  GIt<T> begin() { return GIt<T>{this, false}; } GIt<T> end() { return GIt<T>{this, true}; }
};
static int cmptag; // the comparator object handed to the constructor must be the one the heap algorithms get
struct Cmp { int tag; explicit Cmp(int t = 0) : tag(t) {} bool operator()(const E& a, const E& b) const { return a.v < b.v; } }; struct CmpG : Cmp { explicit CmpG(int t = 0) : Cmp(t) {} bool operator()(const E& a, const E& b) const { return a.v > b.v; } };
#define HEAPOPS(T, C, TAG) namespace std { \
  template <> inline void push_heap(GIt<T> b, GIt<T> e, C c) { qheld(); vc_assert(b.v == e.v && !b.end && e.end && b.v->state == PEND, "C20.push_heap_of_a_heap_and_one_element"); TAG; if (b.v->n == 1 || c(*gslot<T>(0), *gslot<T>(1))) __builtin_memcpy(sl[0], sl[1], sizeof(T)); b.v->state = HEAP; } \
  template <> inline void push_heap(GIt<T>, GIt<T>) { vc_assert(false, "C20.uses_its_comparator"); } template <> inline void pop_heap(GIt<T>, GIt<T>) { vc_assert(false, "C20.uses_its_comparator"); } \
  template <> inline void pop_heap(GIt<T> b, GIt<T> e, C c) { qheld(); vc_assert(b.v == e.v && !b.end && e.end && b.v->state == HEAP && b.v->n > 0, "C20.pop_heap_of_a_nonempty_heap"); TAG; b.v->state = POPPED; } }
typedef boost::queue_op_status st;
#ifdef TIMED
namespace boost { namespace concurrent { namespace detail { template <class T, class Clock, class TimePoint> struct scheduled_type; } } }
#ifdef SYSCLK
typedef bc::system_clock CK; enum { W = 0 };
#else
typedef bc::steady_clock CK; enum { W = 1 };
#endif
typedef boost::concurrent::detail::scheduled_type<E, CK, CK::time_point> ST;
namespace std { template <> struct vector<ST> : GV<ST> {}; }
#endif
#include <boost/thread/concurrent_queues/sync_priority_queue.hpp>
#ifdef TIMED
#include <boost/thread/concurrent_queues/sync_timed_queue.hpp>
HEAPOPS(ST, std::less<ST>, )
typedef boost::sync_timed_queue<E, CK> Q; typedef ST EL;
static int64_t ns(CK::time_point t) { return t.time_since_epoch().count(); } static CK::time_point tp_(int64_t t) { return CK::time_point(CK::duration(t)); }
#else
#ifdef GREATER
typedef CmpG CP;
#else
typedef Cmp CP;
#endif
HEAPOPS(E, CP, vc_assert(c.tag == cmptag, "C20.uses_its_comparator"))
typedef boost::sync_priority_queue<E, GV<E>, CP> Q; typedef E EL; enum { W = 1 };
#endif

static const int64_t BIG = 1000000000000000LL, HI = 4000000000000000000LL;
static long rv(const char* n) { return (long)vc_range64(n, -70, BIG); } // never MOVED
static bool noint, jumps; static Q* q; static size_t n0, rn; static bool c0, rc, closing; static long h0, w0; static int64_t due0, wdue0, tacq, tsl; static int nacq, wpush, wpop; static bool timedw;
#ifdef TIMED
static E& val(EL& e) { return e.data; } static void settime(EL& e, int64_t t) { e.time = tp_(t); }
static bool lessq(EL& a, EL& b) { return std::less<ST>()(a, b); } static GV<EL>& el() { return q->data_._elements; }
#else
static E& val(EL& e) { return e; } static void settime(EL&, int64_t) {} static bool lessq(EL& a, EL& b) { return CP()(a, b); } static GV<EL>& el() { return q->data_._elements; }
#endif
static char wit[64]; static EL& witness() { return *(EL*)wit; }
static bool due(int64_t t) { (void)t;
#ifdef TIMED
  return n0 > 0 && due0 <= t;
#else
  return n0 > 0;
#endif
}
static void acq(void*) {
  GV<EL>& g = el(); size_t n = vc_range64("length", 0, BIG); bool c = vc_nondet_bool("closed"); if (nacq) vc_assume(c | !rc); g.n = n0 = n; q->closed_ = c0 = c; g.state = HEAP; g.npush = g.npop = 0;
  EL& t = *gslot<EL>(0); val(t).v = h0 = rv("top"); settime(t, due0 = vc_range64("due", 0, HI)); EL& x = witness(); val(x).v = w0 = rv("other"); settime(x, wdue0 = vc_range64("other_due", 0, HI));
  vc_assume((n <= 1) | !lessq(t, x)); // heap: nothing queued outranks the top
  tacq = vc_clock_read(W);  nacq = 1; timedw = false; }
static void rel(void*) { GV<EL>& g = el(); rn = g.n; rc = q->closed_;  vc_assert(g.state == HEAP, "C20.heap_at_release"); vc_assert(g.npush <= wpush && g.npop <= wpop && g.n == n0 + g.npush - g.npop, "C20.one_element_per_operation"); vc_assert(rc == c0 || (closing && rc), "C20.only_close_closes"); }
static void untouched() { vc_assert(el().npush == 0 && el().npop == 0 && val(*gslot<EL>(0)).v == h0, "C20.refused_or_failed_changes_nothing"); }
static void forget(); static void waits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(wpop == 1, "C20.only_pulls_wait"); untouched(); vc_assert(!rc, "C20.waits_only_while_open"); if (!jumps) vc_assert(!due(tacq), "C20.waits_only_while_nothing_can_be_delivered");
#ifdef TIMED
  if (vc_fork(n0 > 0)) {
#ifdef SYSCLK
    vc_assert(timedw && (jumps || tsl <= vc_env.clk[1] + 100000000LL), "C20.waits_no_longer_than_the_earliest_due_time");
#else
    vc_assert(timedw && tsl <= due0, "C20.waits_no_longer_than_the_earliest_due_time");
#endif
  }
#endif
  forget(); }
static void on_timed(pthread_cond_t*, const timespec* ts) { timedw = true; tsl = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
static bool exact; static int on_wait(pthread_cond_t* c, bool timed) { int64_t l = tsl; tsl = 0; if (!timed || !vc_choose("etimedout")) return 0; if (!exact) return ETIMEDOUT; int64_t t = vc_clock_read(VCn(c)->clock == CLOCK_MONOTONIC); vc_assume(t >= l); return ETIMEDOUT; }
static Q* mk() { qctor = true; cmptag = 0; Q* r = new Q; qctor = false; return r; }
static void env(int pu, int po) { q = mk(); qmtx = q->mtx_.native_handle(); wpush = pu; wpop = po; vc_env.clk_hi_s = 4000000000LL; vc_env.clk_ns = 1; vc_env.timed_hook = on_timed; vc_env.wait_result = on_wait; vc_monitor(qmtx, acq, rel, 0); vc_env.wait_hook = waits; vc_env.tryfail_ok = 1;
  if (!noint && vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
static void fin() { vc_assert(!vc_held(qmtx), "C20.lock_released"); vc_cover("end"); }
static int64_t dlv; static int dlw; static void setdl(int64_t d, int w) { dlv = d; dlw = w; }
static int64_t untilns() { int64_t d = vc_range64("deadline", 0, HI); setdl(d, W); return d; }
static bc::nanoseconds dur() { int64_t d = vc_range64("duration", -BIG, BIG); struct timespec x; clock_gettime(CLOCK_MONOTONIC, &x); setdl(vc_env.clk[1] + d, 1); return bc::nanoseconds(d); }
enum { PULL, PULLV, TRY, NB, WAIT, UNTIL, FOR };
static int dopull(int k, E& x) { switch (k) { case PULL: q->pull(x); return 0; case PULLV: { E e(q->pull()); x.v = e.v; return 0; } case TRY: return (int)q->try_pull(x); case NB: return (int)q->nonblocking_pull(x); case WAIT: return (int)q->wait_pull(x);
#ifdef TIMED
  case UNTIL: return (int)q->pull_until(tp_(untilns()), x);
#else
  case UNTIL: return (int)q->pull_until(bc::steady_clock::time_point(bc::nanoseconds(untilns())), x);
#endif
  default: return (int)q->pull_for(dur(), x); } }
static void forget() { vc_env.clk[0] = vc_env.clk[1] = vc_env.clk_init[0] = vc_env.clk_init[1] = 0; n0 = rn = 0; h0 = w0 = due0 = wdue0 = tacq = 0; el().n = 0; val(*gslot<EL>(0)).v = val(witness()).v = 0; settime(*gslot<EL>(0), 0); settime(witness(), 0); }
#ifdef SYSCLK
// contract of sync_queue_base::wait_until_not_empty_or_closed_until (proved by entry wait_contract below), used for the timed pulls of this clock
template <class C> static st c_wait(int64_t tp, int w) {
  vc_assert(vc_held(qmtx), "C20.waits_with_the_lock_held"); if (vc_fork(n0 > 0)) return st::success; if (vc_fork(c0)) return st::closed; bool waited = vc_choose("waits");
  if (waited) { bd::thread_data_base* t = bd::get_current_thread_data(); if (t && t->interrupt_enabled && vc_choose("interrupted")) { rel(0); forget(); acq(0); throw boost::thread_interrupted(); } vc_env.waits = 1; rel(0); forget(); acq(0); if (vc_fork(n0 > 0)) return st::success; if (vc_fork(c0)) return st::closed; }
  int64_t t = vc_clock_read(w); vc_assume(t >= tp); return st::timeout; }
static st c_wait_sys(void*, boost::unique_lock<boost::mutex>*, bc::system_clock::time_point const* tp) { return c_wait<int>(tp->time_since_epoch().count(), 0); } static st c_wait_mono(void*, boost::unique_lock<boost::mutex>*, bc::steady_clock::time_point const* tp) { return c_wait<int>(tp->time_since_epoch().count(), 1); }
#endif
static void pull_c(int k) {
  env(0, 1); bool may_wait = k != TRY && k != NB, thr = k == PULL || k == PULLV, dl = k == UNTIL || k == FOR; E x(0); x.v = -75; int r = -1; exact = W == 1; // (waits on another clock do not rely on the result of the primitive)
  try { r = dopull(k, x); } catch (boost::thread_interrupted&) { vc_assert(may_wait, "C20.try_forms_are_not_interruption_points"); untouched(); vc_assert(x.v == -75, "C20.no_element_no_change"); vc_assert(!vc_held(qmtx), "C20.lock_released"); vc_cover("interrupted"); vc_end(); }
  catch (boost::sync_queue_is_closed&) { vc_assert(thr, "C20.status_not_exception"); r = (int)st::closed; thr = false; }
  if (r == (int)st::busy) { vc_assert(k == NB && !nacq, "C20.busy_only_when_lock_is_taken"); untouched(); vc_assert(x.v == -75, "C20.no_element_no_change"); vc_cover("busy"); vc_end(); }
  vc_assert(nacq > 0, "C20.lock_taken");
  if (r == (int)st::success) { vc_assert(n0 > 0, "C20.no_element_out_of_nothing"); vc_assert(el().npop == 1, "C20.pulled_exactly_once"); vc_assert(x.v == h0, "C20.delivers_the_top_element");
#ifdef TIMED
    vc_assert(jumps || vc_env.clk_init[W] && vc_env.clk[W] >= due0, "C20.never_delivered_early"); if (vc_fork(n0 > 1)) vc_assert(due0 <= wdue0, "C20.delivers_the_earliest_due_element");
#elif defined GREATER
    if (vc_fork(n0 > 1)) vc_assert(h0 <= w0, "C20.no_queued_element_outranks_the_delivered_one");
#else
    if (vc_fork(n0 > 1)) vc_assert(h0 >= w0, "C20.no_queued_element_outranks_the_delivered_one");
#endif
    vc_cover("pulled"); }
  else { untouched(); vc_assert(x.v == -75, "C20.no_element_no_change"); if (!jumps) vc_assert(!due(tacq), "C20.deliverable_element_is_delivered");
    if (r == (int)st::closed) { vc_assert(c0 && !thr, "C20.closed_only_when_closed"); vc_cover("closed"); }
    else { vc_assert(!c0, "C20.closed_is_reported"); if (dl) { vc_assert(jumps || (vc_env.clk_init[dlw] && vc_env.clk[dlw] >= dlv), "C20.gives_up_only_after_the_deadline"); vc_assert(r == (int)(n0 ? st::not_ready : st::timeout), "C20.status"); vc_cover("timeout"); }
      else { vc_assert(!may_wait, "C20.waits_until_it_can_deliver"); vc_assert(r == (int)(n0 ? st::not_ready : st::empty), "C20.status"); vc_cover("none"); } } }
  if (!may_wait) vc_assert(vc_env.waits == 0, "C20.try_forms_do_not_block"); fin();
}
#ifdef SYSCLK
template <class TP> static void wait_contract(TP tp, int w) { env(0, 1); exact = w == 1; boost::unique_lock<boost::mutex> lk(q->mtx_); st r; bool entry_waits = n0 == 0 && !c0;
  try { r = q->wait_until_not_empty_or_closed_until(lk, tp); } catch (boost::thread_interrupted&) { vc_assert(vc_held(qmtx), "C20.lock_held_after_waiting"); vc_cover("interrupted"); vc_end(); }
  vc_assert(vc_held(qmtx), "C20.lock_held_after_waiting"); if (!entry_waits) vc_assert(vc_env.waits == 0, "C20.waits_only_while_nothing_can_be_delivered"); untouched();
  if (r == st::success) vc_assert(n0 > 0, "C20.wait_contract"); else if (r == st::closed) vc_assert(n0 == 0 && c0, "C20.wait_contract"); else vc_assert(r == st::timeout && n0 == 0 && !c0 && vc_env.clk_init[dlw] && vc_env.clk[dlw] >= dlv, "C20.gives_up_only_after_the_deadline"); vc_cover("end"); }
ENTRY(wait_contract_system) { wait_contract(tp_(untilns()), 0); } ENTRY(wait_contract_steady) { int64_t d = vc_range64("deadline", 0, HI); setdl(d, 1); wait_contract(bc::steady_clock::time_point(bc::nanoseconds(d)), 1); }
ENTRY(pull_until) { vc_contract("wait_until_not_empty_or_closed_until<boost::chrono::system_clock", (void*)c_wait_sys); noint = true; pull_c(UNTIL); } ENTRY(pull_for) { vc_contract("wait_until_not_empty_or_closed_until<boost::chrono::steady_clock", (void*)c_wait_mono); noint = true; pull_c(FOR); }
ENTRY(jump_pull) { noint = jumps = true; vc_env.clock_jumps = 1; pull_c(PULL); } ENTRY(jump_pull_until) { vc_contract("wait_until_not_empty_or_closed_until<boost::chrono::system_clock", (void*)c_wait_sys); noint = jumps = true; vc_env.clock_jumps = 1; pull_c(UNTIL); } ENTRY(jump_pull_for) { vc_contract("wait_until_not_empty_or_closed_until<boost::chrono::steady_clock", (void*)c_wait_mono); noint = jumps = true; vc_env.clock_jumps = 1; pull_c(FOR); }
#else
ENTRY(pull_until) { pull_c(UNTIL); } ENTRY(pull_for) { pull_c(FOR); }
#endif
ENTRY(pull) { pull_c(PULL); } ENTRY(pull_value) { pull_c(PULLV); } ENTRY(try_pull) { pull_c(TRY); } ENTRY(nonblocking_pull) { pull_c(NB); } ENTRY(wait_pull) { pull_c(WAIT); }
#ifdef TIMED
static int64_t pd; static bool prel; static CK::time_point at() { return tp_(pd = vc_range64("due_time", 0, HI)); } static CK::duration in() { prel = true; return CK::duration(pd = vc_range64("delay", -BIG, BIG)); }
enum { NPUSH = 4 };
static int dopush(int k, bool rv, E& x) { const E& c = x; switch (k) { case 0: if (rv) q->push(boost::move(x), at()); else q->push(c, at()); return 0; case 1: return (int)(rv ? q->try_push(boost::move(x), at()) : q->try_push(c, at())); case 2: if (rv) q->push(boost::move(x), in()); else q->push(c, in()); return 0; default: return (int)(rv ? q->try_push(boost::move(x), in()) : q->try_push(c, in())); } }
#else
static int dopush(int k, bool rv, E& x) { const E& c = x; switch (k) { case 0: if (rv) q->push(boost::move(x)); else q->push(c); return 0; default: return (int)(rv ? q->try_push(boost::move(x)) : q->try_push(c)); } }
#endif
static void push_c(int k, bool mv) {
  env(1, 0); elem_throws = true; long V = rv("value"); E x(0); x.v = V; int r = -1; bool thr = k == 0 || k == 2; { struct timespec t; clock_gettime(W ? CLOCK_MONOTONIC : CLOCK_REALTIME, &t); } int64_t t0 = vc_env.clk[W]; (void)t0;
  try { r = dopush(k, mv, x); } catch (boost::sync_queue_is_closed&) { vc_assert(thr, "C20.status_not_exception"); r = (int)st::closed; }
  catch (ElemThrow&) { if (nacq) { vc_assert(!c0, "C20.closed_queue_accepts_nothing"); untouched(); } vc_assert(!vc_held(qmtx), "C20.lock_released"); vc_cover("throws"); vc_cover("end"); vc_end(); }
  vc_assert(nacq > 0, "C20.lock_taken");
  if (r == (int)st::closed) { vc_assert(c0, "C20.refused_only_when_closed"); untouched();
#ifndef TIMED
    vc_assert(x.v == V, "C20.refused_element_untouched");
#else
    if (!mv) vc_assert(x.v == V, "C20.refused_element_untouched");
#endif
    vc_cover("closed"); }
  else { vc_assert(r == (int)st::success, "C20.status"); vc_assert(!c0, "C20.closed_queue_accepts_nothing"); EL& e = *gslot<EL>(1); vc_assert(el().npush == 1 && val(e).v == V, "C20.pushed_exactly_once"); if (!mv) vc_assert(x.v == V, "C20.copied_element_untouched");
#ifdef TIMED
    if (prel) { int64_t t = ns(e.time) - pd; vc_assert(t >= t0 && t <= vc_env.clk[W], "C20.due_after_the_given_delay"); } else vc_assert(ns(e.time) == pd, "C20.due_at_the_given_time");
#endif
    vc_cover("pushed"); }
  vc_assert(vc_env.waits == 0, "C20.push_does_not_block"); fin();
}
#define PU(name, k) ENTRY(name) { push_c(k, false); } ENTRY(name##_move) { push_c(k, true); }
PU(push, 0) PU(try_push, 1)
#ifdef TIMED
PU(push_delay, 2) PU(try_push_delay, 3)
#endif
ENTRY(observers) { env(0, 0); int k = 0; while (k < 3 && !vc_choose("which")) k++; switch (k) { case 0: { bool r = q->empty(); vc_assert(r == (n0 == 0), "C20.empty_exact"); break; } case 1: { size_t r = q->size(); vc_assert(r == n0, "C20.size_exact"); break; } case 2: { bool r = q->closed(); vc_assert(r == c0, "C20.closed_exact"); break; } default: vc_assert(!q->full(), "C20.never_full"); } untouched(); vc_assert(vc_env.waits == 0, "C20.observers_do_not_block"); vc_cover("end"); }
ENTRY(close) { env(0, 0); closing = true; q->close(); vc_assert(nacq && rc, "C20.close_closes"); untouched(); fin(); }
ENTRY(ctor_dtor) { q = mk(); vc_assert(el().n == 0 && !q->closed_, "C20.starts_empty_and_open"); qmtx = q->mtx_.native_handle(); delete q; vc_cover("end"); }
// ---------------------------------------------------------------- wake-ups: any state, any waiter, any operation of another thread
#ifdef TIMED
#define SC_TIMEOUTS 0 // (a waiter whose element becomes due by the passing of time wakes itself: its timed wait ends then at the latest)
#endif
#include "scen.h"
struct WC { enum { WPULL, WPULLV, WWAIT, WFOR, NW, PUSH = NW, PUSH_M, TPUSH, TPUSH_M,
#ifdef TIMED
  DPUSH, DPUSH_M, DTPUSH, DTPUSH_M,
#endif
  CLOSE, TPULL, NPULL, NR };
  static bool timed(int op) { return op == WFOR; } static int pre(int) { return 0; } static int waitmode(int) { return 0; }
  static void init() { q = mk(); qmtx = q->mtx_.native_handle(); }
  static void havoc() { GV<EL>& g = el(); g.n = vc_range64("length", 0, BIG); g.state = HEAP; q->closed_ = vc_nondet_bool("closed"); EL& t = *gslot<EL>(0); val(t).v = 1; settime(t, vc_range64("due", 0, 2 * SC_FAR)); }
  static bool run(int op, int far) { E x(3); const E& c = x; int64_t d = SC_FAR * far; (void)d; try { switch (op) { case WPULL: q->pull(x); return true; case WPULLV: x.v = q->pull().v; return true; case WWAIT: q->wait_pull(x); return true; case WFOR: { st r = q->pull_for(bc::nanoseconds(d), x); return r == st::success || r == st::closed; }
#ifdef TIMED
    case PUSH: q->push(c, tp_(newdue())); break; case PUSH_M: q->push(boost::move(x), tp_(newdue())); break; case TPUSH: q->try_push(c, tp_(newdue())); break; case TPUSH_M: q->try_push(boost::move(x), tp_(newdue())); break;
    case DPUSH: q->push(c, CK::duration(newdue() - SC_NOW)); break; case DPUSH_M: q->push(boost::move(x), CK::duration(newdue() - SC_NOW)); break; case DTPUSH: q->try_push(c, CK::duration(newdue() - SC_NOW)); break; case DTPUSH_M: q->try_push(boost::move(x), CK::duration(newdue() - SC_NOW)); break;
#else
    case PUSH: q->push(c); break; case PUSH_M: q->push(boost::move(x)); break; case TPUSH: q->try_push(c); break; case TPUSH_M: q->try_push(boost::move(x)); break;
#endif
    case CLOSE: q->close(); break; case TPULL: q->try_pull(x); break; case NPULL: q->nonblocking_pull(x); break; } } catch (boost::sync_queue_is_closed&) {} return true; }
  static int64_t lastdue; static int64_t newdue() { return lastdue = vc_range64("new_due", 0, 2 * SC_FAR); } };
int64_t WC::lastdue;
#define WK(name, op) ENTRY(wake_##name) { Sc<WC>::go(WC::op, "C20.waiting_pull_is_woken"); }
WK(pull, WPULL) WK(pull_value, WPULLV) WK(wait_pull, WWAIT) WK(pull_for, WFOR)

#if defined TIMED && !defined SYSCLK
// an element due before the time a waiting pull sleeps until: the pull is woken by the push, not only when its sleep ends (waits on the system clock poll)
static int64_t sl_until[8]; static void on_sleep(pthread_cond_t*, const timespec* ts) { sl_until[vc_self] = (int64_t)ts->tv_sec * 1000000000LL + ts->tv_nsec; }
static void earlier(int wop) { WC::init(); vc_sched_start(); vc_env.clk_fixed = 1; vc_env.clk[0] = vc_env.clk[1] = SC_NOW; vc_env.timed_hook = on_sleep; Sc<WC>::nT = 0; int r = WC::PUSH; while (r < WC::CLOSE - 1 && !vc_choose("next_r")) r++;
  int w = Sc<WC>::spawn(wop, 2); WC::havoc(); if (!Sc<WC>::blocked(w)) vc_end(); WC::havoc(); sl_until[w] = 0; if (!Sc<WC>::blocked(w)) vc_end(); vc_sched.t[w].notified = 0; size_t n1 = el().n; bool timed = sl_until[w] != 0; int64_t until = sl_until[w];
  int x = Sc<WC>::spawn(r, 0); vc_step(x); if (el().n == n1 || WC::lastdue <= SC_NOW) vc_end(); vc_cover("pushed"); if (Sc<WC>::notified(w)) { vc_cover("end"); vc_end(); } vc_assert(timed && until <= WC::lastdue, "C20.push_of_an_earlier_element_wakes"); vc_cover("end"); }
ENTRY(earlier_pull) { earlier(WC::WPULL); } ENTRY(earlier_pull_value) { earlier(WC::WPULLV); } ENTRY(earlier_wait_pull) { earlier(WC::WWAIT); } ENTRY(earlier_pull_for) { earlier(WC::WFOR); }
#endif
