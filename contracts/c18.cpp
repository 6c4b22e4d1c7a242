// C18: sync_queue / sync_deque. Thread-modular contracts over an abstract container of any length and any other threads; wake-ups
// for every waiter/operation pair in any state; every interleaving of small groups over the real container; views and adaptors.
#include "q_elem.h"
#ifdef DEQUE
#include <boost/thread/concurrent_queues/sync_deque.hpp>
#include <boost/thread/concurrent_queues/deque_views.hpp>
#include <boost/thread/concurrent_queues/deque_adaptor.hpp>
#define QT sync_deque
#define P(x) x##push_back
#define L(x) x##pull_front
#define VIEW(x) boost::deque_##x##_view
#define ADAPT boost::deque_adaptor
#define QB boost::deque_base
#else
#include <boost/thread/concurrent_queues/sync_queue.hpp>
#include <boost/thread/concurrent_queues/queue_views.hpp>
#include <boost/thread/concurrent_queues/queue_adaptor.hpp>
#define QT sync_queue
#define P(x) x##push
#define L(x) x##pull
#define VIEW(x) boost::queue_##x##_view
#define ADAPT boost::queue_adaptor
#define QB boost::queue_base
#endif
typedef boost::queue_op_status st; typedef boost::QT<E, GQ> Q;
static Q* q; static size_t n0; static bool c0; static long h0; static int nacq, nrel; static bool closing, relbad; static int want_push, want_pop; static size_t rn; static bool rc;
static void acq(void*) {
  Q& Z = *q; size_t n = vc_nondet_u64("length"); vc_assume(n < (1ULL << 62)); bool c = vc_nondet_bool("closed"); if (nacq) vc_assume(c | !rc);
  Z.data_.n = n0 = n; Z.closed_ = c0 = c; Z.data_.head = h0 = (long)vc_nondet_u64("front_id"); vc_assume(h0 != MOVED); Z.data_.mat = false; Z.data_.npush = Z.data_.npop = 0; if (nacq < 2) nacq++;
}
static void rel(void*) { Q& Z = *q; GQ& d = Z.data_; rn = d.n; rc = Z.closed_; if (nrel < 2) nrel++;
  vc_assert(d.npush <= want_push && d.npop <= want_pop, "C18.one_element_per_operation"); vc_assert(d.n == n0 + d.npush - d.npop || d.ntouch, "C18.length_exact");
  vc_assert(rc == c0 || (closing && rc), "C18.only_close_closes"); }
static void waits(pthread_cond_t*, pthread_mutex_t*) { vc_assert(want_pop == 1, "C18.only_pulls_wait"); vc_assert(rn == 0, "C18.waits_only_while_empty"); vc_assert(!rc, "C18.waits_only_while_open"); vc_assert(q->data_.npush + q->data_.npop == 0, "C18.one_element_per_operation"); }
static void env(int pu, int po) { qctor = true; q = new Q; qctor = false; qmtx = q->mtx_.native_handle(); want_push = pu; want_pop = po; elem_throws = pu != 0; vc_monitor(qmtx, acq, rel, 0); vc_env.wait_hook = waits; vc_env.tryfail_ok = 1;
  if (vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
static void fin() { vc_assert(!vc_held(qmtx) && (nacq == nrel || nacq == 2), "C18.lock_released"); vc_cover("end"); }
static const char* none; static void untouched() { vc_assert(q->data_.npush == 0 && q->data_.npop == 0, "C18.refused_or_failed_changes_nothing"); }
// push family: k 0 push, 1 try_push, 2 nonblocking_push, 3 wait_push, 4 <<; rv: by move
static int dopush(int k, bool rv, E& x) { switch (k) {
  case 0: if (rv) q->P()(boost::move(x)); else q->P()((const E&)x); return 0;
  case 1: return (int)(rv ? q->P(try_)(boost::move(x)) : q->P(try_)((const E&)x)); case 2: return (int)(rv ? q->P(nonblocking_)(boost::move(x)) : q->P(nonblocking_)((const E&)x));
  case 3: return (int)(rv ? q->P(wait_)(boost::move(x)) : q->P(wait_)((const E&)x)); default: if (rv) *q << boost::move(x); else *q << (const E&)x; return 0; } }
static void push_c(int k, bool rv) {
  env(1, 0); long V = (long)vc_nondet_u64("value"); vc_assume(V != MOVED); E x(V); int r = -1;
  try { r = dopush(k, rv, x); } catch (boost::sync_queue_is_closed&) { vc_assert((k == 0 || k == 4) && nacq && c0, "C18.refused_only_when_closed"); untouched(); vc_assert(x.v == V, "C18.refused_element_untouched"); vc_cover("closed"); fin(); vc_end(); }
  catch (ElemThrow&) { untouched(); vc_assert(!c0, "C18.closed_queue_never_touches_element"); vc_cover("throws"); fin(); vc_end(); }
  if (r == (int)st::busy) { vc_assert(k == 2 && !nacq, "C18.busy_only_when_lock_is_taken"); untouched(); vc_assert(x.v == V, "C18.refused_element_untouched"); vc_cover("busy"); vc_end(); }
  vc_assert(nacq > 0, "C18.lock_taken");
  if (r == (int)st::closed) { vc_assert(c0 && k != 0 && k != 4, "C18.refused_only_when_closed"); untouched(); vc_assert(x.v == V, "C18.refused_element_untouched"); vc_cover("closed"); }
  else { vc_assert(r == (int)st::success, "C18.status"); vc_assert(!c0, "C18.closed_queue_accepts_nothing"); vc_assert(q->data_.npush == 1 && q->data_.pushed == V, "C18.pushed_exactly_once_at_the_back"); if (!rv) vc_assert(x.v == V, "C18.copied_element_untouched"); vc_cover("pushed"); }
  vc_assert(vc_env.waits == 0, "C18.push_does_not_block"); fin();
}
#define PU(name, k) ENTRY(name) { push_c(k, false); } ENTRY(name##_move) { push_c(k, true); }
PU(push, 0) PU(try_push, 1) PU(nonblocking_push, 2) PU(wait_push, 3) PU(push_op, 4)
// pull family: 0 pull(x), 1 pull(), 2 try_pull, 3 nonblocking_pull, 4 wait_pull, 5 >>
static int dopull(int k, E& x) { switch (k) { case 0: q->L()(x); return 0; case 1: { E e(q->L()()); x.v = e.v; return 0; } case 2: return (int)q->L(try_)(x); case 3: return (int)q->L(nonblocking_)(x); case 4: return (int)q->L(wait_)(x); default: *q >> x; return 0; } }
static void pull_c(int k, bool thr) {
  env(0, 1); elem_throws = thr; bool may_wait = k == 0 || k == 1 || k == 4 || k == 5; E x(-5); int r = -1;
  try { r = dopull(k, x); } catch (boost::thread_interrupted&) { vc_assert(may_wait, "C18.try_forms_are_not_interruption_points"); untouched(); vc_assert(x.v == -5, "C18.interrupted_pull_takes_nothing"); vc_cover("interrupted"); vc_assert(!vc_held(qmtx), "C18.lock_released"); vc_end(); }
  catch (boost::sync_queue_is_closed&) { vc_assert((k == 0 || k == 1 || k == 5) && nacq && c0 && n0 == 0, "C18.closed_only_when_closed_and_empty"); untouched(); vc_cover("closed"); fin(); vc_end(); }
  catch (ElemThrow&) { untouched(); vc_cover("throws"); fin(); vc_end(); }
  if (r == (int)st::busy) { vc_assert(k == 3 && !nacq, "C18.busy_only_when_lock_is_taken"); untouched(); vc_assert(x.v == -5, "C18.no_element_no_change"); vc_cover("busy"); vc_end(); }
  vc_assert(nacq > 0, "C18.lock_taken");
  if (r == (int)st::closed) { vc_assert(c0 && n0 == 0 && (k == 2 || k == 3 || k == 4), "C18.closed_only_when_closed_and_empty"); untouched(); vc_assert(x.v == -5, "C18.no_element_no_change"); vc_cover("closed"); }
  else if (r == (int)st::empty) { vc_assert(!c0 && n0 == 0 && (k == 2 || k == 3), "C18.empty_only_when_open_and_empty"); untouched(); vc_assert(x.v == -5, "C18.no_element_no_change"); vc_cover("empty"); }
  else { vc_assert(r == (int)st::success, "C18.status"); vc_assert(n0 > 0, "C18.no_element_out_of_nothing"); vc_assert(q->data_.npop == 1, "C18.pulled_exactly_once"); vc_assert(x.v == h0, "C18.delivers_the_front_element"); vc_cover("pulled"); }
  if (!may_wait) vc_assert(vc_env.waits == 0, "C18.try_forms_do_not_block"); fin();
}
#define PL(name, k) ENTRY(name) { pull_c(k, false); }
PL(pull, 0) PL(pull_value, 1) PL(try_pull, 2) PL(nonblocking_pull, 3) PL(wait_pull, 4) PL(pull_op, 5) // an element whose move throws stays queued (value-returning pull requires nothrow moves)
#define PT(name, k) ENTRY(name##_throwing) { pull_c(k, true); }
PT(pull, 0) PT(try_pull, 2) PT(nonblocking_pull, 3) PT(wait_pull, 4)
ENTRY(observers) { env(0, 0); int k = 0; while (k < 3 && !vc_choose("which")) k++; switch (k) { case 0: { bool r = q->empty(); vc_assert(r == (n0 == 0), "C18.empty_exact"); break; } case 1: { size_t r = q->size(); vc_assert(r == n0, "C18.size_exact"); break; } case 2: { bool r = q->closed(); vc_assert(r == c0, "C18.closed_exact"); break; } default: vc_assert(!q->full(), "C18.never_full"); } untouched(); vc_assert(vc_env.waits == 0, "C18.observers_do_not_block"); vc_cover("end"); }
ENTRY(close) { env(0, 0); closing = true; q->close(); vc_assert(nacq && rc, "C18.close_closes"); untouched(); fin(); }
ENTRY(ctor) { qctor = true; q = new Q; vc_assert(q->data_.n == 0 && !q->closed_, "C18.starts_empty_and_open"); vc_cover("end"); }
ENTRY(underlying_queue) { env(0, 0); GQ g(q->underlying_queue()); vc_assert(g.n == n0 && g.head == h0, "C18.underlying_queue_hands_over_every_element"); fin(); }
// ---------------------------------------------------------------- wake-ups: any state, any waiter, any operation of another thread
#include "scen.h"
struct WC { enum { PULL, PULLV, WAIT_PULL, NW, PUSH = NW, PUSH_M, TRY, TRY_M, NB, NB_M, WP, WP_M, CLOSE, TRY_PULL, NR };
  static bool timed(int) { return false; } static int pre(int) { return 0; } static int waitmode(int) { return 0; }
  static void init() { qctor = true; q = new Q; qctor = false; qmtx = q->mtx_.native_handle(); }
  static void havoc() { size_t n = vc_nondet_u64("length"); vc_assume(n < (1ULL << 62)); q->data_.n = n; q->data_.mat = false; q->data_.head = 1; q->closed_ = vc_nondet_bool("closed"); }
  static bool run(int op, int) { E x(3); try { switch (op) { case PULL: q->L()(x); return true; case PULLV: x.v = q->L()().v; return true; case WAIT_PULL: q->L(wait_)(x); return true;
    case PUSH: q->P()((const E&)x); break; case PUSH_M: q->P()(boost::move(x)); break; case TRY: q->P(try_)((const E&)x); break; case TRY_M: q->P(try_)(boost::move(x)); break; case NB: q->P(nonblocking_)((const E&)x); break; case NB_M: q->P(nonblocking_)(boost::move(x)); break;
    case WP: q->P(wait_)((const E&)x); break; case WP_M: q->P(wait_)(boost::move(x)); break; case CLOSE: q->close(); break; case TRY_PULL: q->L(try_)(x); break; } } catch (boost::sync_queue_is_closed&) {} return true; } };
ENTRY(wake_pull) { Sc<WC>::go(WC::PULL, "C18.waiting_pull_is_woken"); } ENTRY(wake_pull_value) { Sc<WC>::go(WC::PULLV, "C18.waiting_pull_is_woken"); } ENTRY(wake_wait_pull) { Sc<WC>::go(WC::WAIT_PULL, "C18.waiting_pull_is_woken"); }
// ---------------------------------------------------------------- the default container: exactly a queue, for every content and length
typedef boost::csbl::devector<int> DV;
static DV* dv(int*& a, size_t& f, size_t& n) { DV* d = new DV; n = vc_nondet_u64("size"); f = vc_nondet_u64("front_index"); vc_assume(n < (1 << 20) && f <= n && (n == 0 || f < n) ); vc_assume(n != 0 || f == 0); size_t cap = vc_nondet_u64("capacity"); vc_assume(cap > n && cap < (1 << 21)); a = (int*)vc_array_new(4, cap, "elements");
  d->data_._M_impl._M_start = a; d->data_._M_impl._M_finish = a + n; d->data_._M_impl._M_end_of_storage = a + cap; d->front_index_ = f; return d; }
ENTRY(devector_size) { int* a; size_t f, n; DV* d = dv(a, f, n); vc_assert(d->size() == n - f, "C18.container_size_exact"); vc_assert(d->empty() == (n == f), "C18.container_size_exact"); vc_cover("end"); }
static void ends(int k) { int* a; size_t f, n; DV* d = dv(a, f, n); vc_assume(n > f); const DV* c = d; int* p = k == 0 ? &d->front() : k == 1 ? &d->back() : k == 2 ? (int*)&c->front() : (int*)&c->back(); vc_assert(p == (k % 2 ? a + (n - 1) : a + f), "C18.container_ends"); vc_cover("end"); }
ENTRY(devector_front) { ends(0); } ENTRY(devector_back) { ends(1); } ENTRY(devector_front_const) { ends(2); } ENTRY(devector_back_const) { ends(3); }
ENTRY(devector_pop) { int* a; size_t f, n; DV* d = dv(a, f, n); vc_assume(n > f); size_t k = vc_nondet_u64("k"); vc_assume(k < n - f - 1); int v = a[f + 1 + k]; d->pop_front(); vc_assert(d->size() == n - f - 1 && d->empty() == (n == f + 1), "C18.container_pop"); vc_assert(d->data_[d->front_index_ + k] == v, "C18.container_pop_keeps_the_rest"); vc_assert(d->front_index_ < d->data_.size(), "C18.container_invariant"); vc_cover("end"); }
ENTRY(devector_pop_last) { int* a; size_t f, n; DV* d = dv(a, f, n); vc_assume(n == f + 1); d->pop_front(); vc_assert(d->empty() && d->size() == 0 && d->front_index_ == 0 && d->data_.size() == 0, "C18.container_pop"); vc_cover("end"); }
ENTRY(devector_push) { int* a; size_t f, n; DV* d = dv(a, f, n); size_t k = vc_nondet_u64("k"); vc_assume(k < n - f); int v = a[f + k]; int x = vc_i32("x"); if (vc_choose("rv")) d->push_back(boost::move(x)); else { const int y = x; d->push_back(y); } vc_assert(d->size() == n - f + 1 && !d->empty() && d->back() == x, "C18.container_push"); vc_assert(d->data_[d->front_index_ + k] == v, "C18.container_push_keeps_the_rest"); vc_cover("end"); }
ENTRY(devector_push_empty) { int* a; size_t f, n; DV* d = dv(a, f, n); vc_assume(n == f); int x = vc_i32("x"); d->push_back(x); vc_assert(d->size() == 1 && !d->empty() && d->back() == x && d->front() == x, "C18.container_push"); vc_cover("end"); }
ENTRY(devector_move) { int* a; size_t f, n; DV* d = dv(a, f, n); size_t k = vc_nondet_u64("k"); bool ne = n > f; if (vc_fork(ne)) vc_assume(k < n - f); else k = 0; int v = ne ? a[f + k] : 0; DV* e; if (vc_choose("assign")) { e = new DV; *e = boost::move(*d); } else e = new DV(boost::move(*d));
  vc_assert(e->size() == n - f && e->empty() == !ne, "C18.container_move"); if (ne) vc_assert(e->data_[e->front_index_ + k] == v, "C18.container_move_keeps_the_rest"); vc_assert(d->empty() && d->size() == 0, "C18.container_moved_from_is_empty"); vc_cover("end"); }
// ---------------------------------------------------------------- every interleaving, real container
typedef boost::QT<long> RQ; static RQ* r; static long got[8]; static int by[8]; static int ngot, sent, nclosed, cform;
static void producer(void* p) { long b = (long)p; for (int i = 0; i < (b >= 10 ? b / 10 : 1); i++) { long v = b % 10 * 100 + i; try { r->P()(v); sent++; } catch (boost::sync_queue_is_closed&) { nclosed++; } } }
static void take(long v) { for (int i = 0; i < ngot; i++) { vc_assert(got[i] != v, "C18.delivered_at_most_once"); if (got[i] / 100 == v / 100 && by[i] == vc_self) vc_assert(got[i] < v, "C18.fifo_per_producer"); } by[ngot] = vc_self; got[ngot++] = v; }
static void consumer(void* p) { for (long i = 0; i < (long)p; i++) { long v = -1; if (cform == 1) { try { v = r->L()(); } catch (boost::sync_queue_is_closed&) { return; } } else if (cform == 2) { st s; do { s = r->L(try_)(v); if (s == st::empty) return; } while (s == st::empty); if (s == st::closed) return; } else if (r->L(wait_)(v) == st::closed) return; vc_assert(v >= 0, "C18.no_element_out_of_nothing"); take(v); } }
static void closer(void*) { r->close(); }
static void s0(int f = 0) { cform = f; r = new RQ; vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = 1; }
static void go(bool drained) { vc_run(); vc_self = 7; for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C18.waiting_pull_is_woken"); vc_assert((size_t)(sent - ngot) == r->size(), "C18.nothing_lost"); if (drained) vc_assert(sent == ngot, "C18.nothing_lost"); vc_cover("end"); }
ENTRY(sched_1p1c) { s0(); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)2); go(true); } ENTRY(sched_2p1c) { s0(1); vc_thread(producer, (void*)21); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)3); go(true); }
ENTRY(sched_1p2c) { s0(); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)1); vc_thread(consumer, (void*)1); go(true); } ENTRY(sched_2p2c) { s0(); vc_thread(producer, (void*)11); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)1); vc_thread(consumer, (void*)1); go(true); }
ENTRY(sched_close) { s0(); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)9); vc_thread(closer, 0); go(true); } ENTRY(sched_close2c) { s0(1); vc_thread(producer, (void*)11); vc_thread(consumer, (void*)9); vc_thread(consumer, (void*)9); vc_thread(closer, 0); go(true); } ENTRY(sched_try) { s0(2); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)2); vc_thread(consumer, (void*)2); vc_thread(closer, 0); go(false); }
// ---------------------------------------------------------------- views and adaptors: every operation reaches the same operation of the queue
struct Rec { int op; const void* arg; bool rv; int ret; int calls; }; static Rec rec;
struct MQ { typedef E value_type; typedef size_t size_type; 
#define M(n, o) void n(const E& x) { note(o, &x, false); } void n(E&& x) { note(o, &x, true); }
#define S(n, o) st n(const E& x) { note(o, &x, false); return res(); } st n(E&& x) { note(o, &x, true); return res(); }
  static void note(int o, const void* a, bool rv) { rec.op = o; rec.arg = a; rec.rv = rv; rec.calls++; } static st res() { int r = vc_range("status", 0, 7); rec.ret = r; return (st)(boost::queue_op_status)(boost::concurrent::queue_op_status)r; }
  bool empty() const { note(1, 0, false); return rec.ret = vc_nondet_bool("r"); } bool full() const { note(2, 0, false); return rec.ret = vc_nondet_bool("r"); } size_t size() const { note(3, 0, false); return rec.ret = vc_range("r", 0, 1000000); } bool closed() const { note(4, 0, false); return rec.ret = vc_nondet_bool("r"); } void close() { note(5, 0, false); }
  M(P(), 10) S(P(try_), 11) S(P(nonblocking_), 12) S(P(wait_), 13) void L()(E& x) { note(20, &x, false); } E L()() { note(21, 0, false); return E(4711); } st L(try_)(E& x) { note(22, &x, false); return res(); } st L(nonblocking_)(E& x) { note(23, &x, false); return res(); } st L(wait_)(E& x) { note(24, &x, false); return res(); }
  M(push_front, 30) S(try_push_front, 31) S(nonblocking_push_front, 32) S(wait_push_front, 33) void pull_back(E& x) { note(40, &x, false); } E pull_back() { note(41, 0, false); return E(4731); } st try_pull_back(E& x) { note(42, &x, false); return res(); } st nonblocking_pull_back(E& x) { note(43, &x, false); return res(); } st wait_pull_back(E& x) { note(44, &x, false); return res(); } };
#define T(cond) vc_assert(cond, "C18.view_forwards_exactly")
static void chk(int op, const void* a, bool rv) { T(rec.calls == 1 && rec.op == op && rec.arg == a && rec.rv == rv); rec.calls = 0; }
template <class V> static void obs(V& v, int& k) { if (vc_choose("observers")) { T(v.empty() == rec.ret); chk(1, 0, false); T(v.full() == rec.ret); chk(2, 0, false); T((int)v.size() == rec.ret); chk(3, 0, false); T(v.closed() == rec.ret); chk(4, 0, false); v.close(); chk(5, 0, false); vc_cover("end"); vc_end(); } }
#define PUSHES(name, N) template <class V> static void name(V& v, int b) { E x(1); v.N()((const E&)x); chk(b, &x, false); v.N()(boost::move(x)); chk(b, &x, true); \
  T((int)v.N(try_)((const E&)x) == rec.ret); chk(b + 1, &x, false); T((int)v.N(try_)(boost::move(x)) == rec.ret); chk(b + 1, &x, true); T((int)v.N(nonblocking_)((const E&)x) == rec.ret); chk(b + 2, &x, false); T((int)v.N(nonblocking_)(boost::move(x)) == rec.ret); chk(b + 2, &x, true); T((int)v.N(wait_)((const E&)x) == rec.ret); chk(b + 3, &x, false); T((int)v.N(wait_)(boost::move(x)) == rec.ret); chk(b + 3, &x, true); T(x.v == 1); }
#define PULLS(name, N) template <class V> static void name(V& v, int b) { E x(1); v.N()(x); chk(b, &x, false); T(v.N()().v == 4711 + b - 20); chk(b + 1, 0, false); T((int)v.N(try_)(x) == rec.ret); chk(b + 2, &x, false); T((int)v.N(nonblocking_)(x) == rec.ret); chk(b + 3, &x, false); T((int)v.N(wait_)(x) == rec.ret); chk(b + 4, &x, false); }
#define VP(x) x##push
#define VL(x) x##pull
PUSHES(apushes, P) PULLS(apulls, L) PUSHES(vpushes, VP) PULLS(vpulls, VL)
ENTRY(view_back) { MQ m; VIEW(back)<MQ> v(m); int k; obs(v, k); vpushes(v, 10); vc_cover("end"); } ENTRY(view_front) { MQ m; VIEW(front)<MQ> v(m); int k; obs(v, k); vpulls(v, 20); vc_cover("end"); }
ENTRY(adaptor) { ADAPT<MQ> a; QB<E>& v = a; int k; obs(v, k); if (vc_choose("push")) apushes(v, 10); else apulls(v, 20); vc_cover("end"); }
#ifdef DEQUE
ENTRY(view_other_ends) { MQ m; VIEW(back)<MQ> b(m); VIEW(front)<MQ> f(m); if (vc_choose("back")) vpulls(b, 40); else vpushes(f, 30); vc_cover("end"); }
#endif
// element types that can only be copied or only be moved select other adaptors
struct Mo { long v; Mo(long x = 0) : v(x) {} Mo(Mo&& o) : v(o.v) {} Mo& operator=(Mo&& o) { v = o.v; return *this; } Mo(const Mo&) = delete; Mo& operator=(const Mo&) = delete; };
template <class X> struct SQ { typedef X value_type; typedef size_t size_type; static void note(int o, const void* a, bool rv) { MQ::note(o, a, rv); } static st res() { return MQ::res(); }
  bool empty() const { note(1, 0, false); return rec.ret = vc_nondet_bool("r"); } bool full() const { note(2, 0, false); return rec.ret = vc_nondet_bool("r"); } size_t size() const { note(3, 0, false); return rec.ret = vc_range("r", 0, 1000000); } bool closed() const { note(4, 0, false); return rec.ret = vc_nondet_bool("r"); } void close() { note(5, 0, false); }
#define M1(n, o) template <class Y> void n(Y&& x) { note(o, &x, !std::is_lvalue_reference<Y>::value); }
#define S1(n, o) template <class Y> st n(Y&& x) { note(o, &x, !std::is_lvalue_reference<Y>::value); return res(); }
  M1(P(), 10) S1(P(try_), 11) S1(P(nonblocking_), 12) S1(P(wait_), 13) void L()(X& x) { note(20, &x, false); } X L()() { note(21, 0, false); return X(4711); } st L(try_)(X& x) { note(22, &x, false); return res(); } st L(nonblocking_)(X& x) { note(23, &x, false); return res(); } st L(wait_)(X& x) { note(24, &x, false); return res(); } };
ENTRY(adaptor_movable_only) { ADAPT<SQ<Mo> > v; QB<Mo>& b = v; int k; obs(b, k); Mo x(1); if (vc_choose("push")) { b.P()(boost::move(x)); chk(10, &x, true); T((int)b.P(try_)(boost::move(x)) == rec.ret); chk(11, &x, true); T((int)b.P(nonblocking_)(boost::move(x)) == rec.ret); chk(12, &x, true); T((int)b.P(wait_)(boost::move(x)) == rec.ret); chk(13, &x, true); }
  else { b.L()(x); chk(20, &x, false); T(b.L()().v == 4711); chk(21, 0, false); T((int)b.L(try_)(x) == rec.ret); chk(22, &x, false); T((int)b.L(nonblocking_)(x) == rec.ret); chk(23, &x, false); T((int)b.L(wait_)(x) == rec.ret); chk(24, &x, false); } vc_cover("end"); }
