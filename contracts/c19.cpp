// C19: sync_bounded_queue as a ring of any capacity. The ring is a symbolic array of symbolic length; every operation is checked
// from every position of the ring and any number of other threads against the abstract FIFO sequence.
#include "q_elem.h"
#include <boost/thread/concurrent_queues/sync_bounded_queue.hpp>
typedef boost::queue_op_status st; typedef boost::sync_bounded_queue<E> Q;
static Q* q; static size_t C, n0, k0; static bool c0, rc; static long f0, s0v; static size_t in0, out0; static int nacq, nrel, npush, npop; static bool closing; static size_t rn;
static size_t ix(const char* n) { return (size_t)vc_range64(n, 0, (1 << 20) - 1); }
static size_t sz() { return q->in_ >= q->out_ ? q->in_ - q->out_ : q->in_ + C - q->out_; }
static long& el(size_t k) { size_t i = q->out_ + k; if (vc_fork(i >= C)) i -= C; return q->data_[i].v; }
static void acq(void*) {
  Q& Z = *q; Z.in_ = in0 = ix("in"); Z.out_ = out0 = ix("out"); vc_assume(in0 < C && out0 < C); bool c = vc_nondet_bool("closed"); if (nacq) vc_assume(c | !rc); Z.closed_ = c0 = c;
  Z.waiting_empty_ = vc_nondet_u64("waiting_empty"); Z.waiting_full_ = vc_nondet_u64("waiting_full"); vc_assume((Z.waiting_empty_ < (1u << 30)) & (Z.waiting_full_ < (1u << 30))); n0 = sz(); if (nacq < 2) nacq++;
}
static void rel(void*) { Q& Z = *q; if (nrel < 2) nrel++; rc = Z.closed_; rn = sz();
  vc_assert(Z.in_ < C && Z.out_ < C && Z.capacity_ == C, "C19.ring_invariant"); vc_assert(rn <= C - 1, "C19.never_exceeds_capacity"); vc_assert(rc == c0 || (closing && rc), "C19.only_close_closes"); }
static int kind; // 1 push, 2 pull
static void waits(pthread_cond_t* c, pthread_mutex_t*) { vc_assert(kind != 0, "C19.only_waiting_operations_wait"); vc_assert(rn == n0 && !rc, "C19.waits_only_while_open"); vc_assert(kind == 1 ? n0 == C - 1 : n0 == 0, "C19.waits_only_while_it_cannot_proceed"); k0 = n0 = rn = in0 = out0 = q->in_ = q->out_ = q->waiting_empty_ = q->waiting_full_ = 0; f0 = s0v = 0; /* others take over: arbitrary again at the next acquisition */ }
static void env(int k) { q = new Q(1); kind = k; C = vc_range64("slots", 2, (1 << 20) - 1); vc_assume(C >= 2 && C < (1u << 20)); q->capacity_ = C; q->data_ = (E*)vc_array_new(sizeof(E), C, "elements"); qmtx = q->mtx_.native_handle(); vc_monitor(qmtx, acq, rel, 0); vc_env.wait_hook = waits; vc_env.tryfail_ok = 1;
  if (vc_choose("interruptible")) { bd::thread_data_base* t = bd::get_or_make_current_thread_data(); t->interrupt_enabled = true; t->interrupt_requested = vc_choose("interrupt"); } }
static void fin() { vc_assert(!vc_held(qmtx) && nacq == nrel, "C19.lock_released"); vc_cover("end"); }
static void same(const char* id) { vc_assert(q->in_ == in0 && q->out_ == out0 && q->closed_ == c0, id); }
enum { OK, CLOSED, FULL, EMPTY, BUSY };
static int S(st s) { return s == st::success ? OK : s == st::closed ? CLOSED : s == st::full ? FULL : s == st::empty ? EMPTY : s == st::busy ? BUSY : 9; } static int B(bool b, int f) { return b ? OK : nacq ? f : BUSY; }
static int dopush(int k, bool rv, E& x) { const E& c = x; switch (k) {
  case 0: if (rv) q->push_back(boost::move(x)); else q->push_back(c); return OK; case 1: return S(rv ? q->try_push_back(boost::move(x)) : q->try_push_back(c)); case 2: return S(rv ? q->nonblocking_push_back(boost::move(x)) : q->nonblocking_push_back(c)); case 3: return S(rv ? q->wait_push_back(boost::move(x)) : q->wait_push_back(c));
  case 4: if (rv) *q << boost::move(x); else *q << c; return OK; case 5: if (rv) q->push(boost::move(x)); else q->push(c); return OK; case 6: return B(rv ? q->try_push(boost::move(x)) : q->try_push(c), FULL); default: return B(rv ? q->try_push(boost::no_block, boost::move(x)) : q->try_push(boost::no_block, c), FULL); } }
// the content of the ring is havocked once, at the start: it is arbitrary at every position, and only the last critical section touches it
static void content() { k0 = ix("k"); if (kind == 1) { if (vc_fork(n0 > 0)) { vc_assume(k0 < n0); f0 = el(k0); } } else { if (vc_fork(n0 > 0)) { f0 = el(0); if (vc_fork(n0 > 1)) { vc_assume(k0 < n0 - 1); s0v = el(k0 + 1); } } } }
static void acqc(void* p) { acq(p); content(); }
static void push_c(int k, bool rv) {
  env(1); elem_throws = true; vc_env.mon[0].acq = acqc; bool may_wait = k == 0 || k == 3 || k == 4 || k == 5, throws = k == 0 || k >= 4; long V = (long)vc_nondet_u64("value"); vc_assume(V != MOVED); E x(0); x.v = V; int r;
  try { r = dopush(k, rv, x); } catch (boost::sync_queue_is_closed&) { vc_assert(throws, "C19.status_not_exception"); r = CLOSED; } catch (boost::thread_interrupted&) { vc_assert(may_wait, "C19.try_forms_are_not_interruption_points"); vc_assert(x.v == V, "C19.refused_element_untouched"); vc_assert(!vc_held(qmtx), "C19.lock_released"); vc_cover("interrupted"); vc_end(); }
  catch (ElemThrow&) { vc_assert(!c0 && n0 < C - 1, "C19.refusing_queue_never_touches_element"); same("C19.failed_push_changes_nothing"); vc_cover("throws"); fin(); vc_end(); }
  if (r == BUSY) { vc_assert((k == 2 || k == 7) && !nacq, "C19.busy_only_when_lock_is_taken"); vc_assert(x.v == V, "C19.refused_element_untouched"); vc_cover("busy"); vc_end(); }
  vc_assert(nacq > 0, "C19.lock_taken");
  if (r == CLOSED) { vc_assert(c0, "C19.closed_only_when_closed"); same("C19.refused_push_changes_nothing"); vc_assert(x.v == V, "C19.refused_element_untouched"); vc_cover("closed"); }
  else if (r == FULL) { vc_assert(!may_wait && !c0 && n0 == C - 1, "C19.full_only_when_full"); same("C19.refused_push_changes_nothing"); vc_assert(x.v == V, "C19.refused_element_untouched"); vc_cover("full"); }
  else { vc_assert(r == OK, "C19.status"); vc_assert(!c0, "C19.closed_queue_accepts_nothing"); vc_assert(n0 < C - 1, "C19.full_queue_accepts_nothing"); vc_assert(sz() == n0 + 1, "C19.one_element_added"); vc_assert(el(n0) == V, "C19.pushed_at_the_back"); if (vc_fork(n0 > 0)) vc_assert(el(k0) == f0, "C19.other_elements_keep_value_and_order"); if (!rv) vc_assert(x.v == V, "C19.copied_element_untouched"); vc_cover("pushed"); }
  if (!may_wait) vc_assert(vc_env.waits == 0, "C19.try_forms_do_not_block"); fin();
}
#define PU(name, k) ENTRY(name) { push_c(k, false); } ENTRY(name##_move) { push_c(k, true); }
PU(push_back, 0) PU(try_push_back, 1) PU(nonblocking_push_back, 2) PU(wait_push_back, 3) PU(push_op, 4) PU(push, 5) PU(try_push, 6) PU(try_push_noblock, 7)
static int P(boost::shared_ptr<E> p, E& x) { if (p) { x.v = p->v; return OK; } return EMPTY; }
static int dopull(int k, E& x) { switch (k) { case 0: q->pull_front(x); return OK; case 1: { E e(q->pull_front()); x.v = e.v; return OK; } case 2: return S(q->try_pull_front(x)); case 3: return S(q->nonblocking_pull_front(x)); case 4: return S(q->wait_pull_front(x)); case 5: *q >> x; return OK;
  case 6: q->pull(x); return OK; case 7: { E e(q->pull()); x.v = e.v; return OK; } case 8: return P(q->ptr_pull(), x); case 9: return B(q->try_pull(x), EMPTY); case 10: return B(q->try_pull(boost::no_block, x), EMPTY); default: return P(q->try_pull(), x); } }
static void pull_c(int k, bool thr) {
  env(2); vc_env.mon[0].acq = acqc; elem_throws = thr; bool may_wait = k == 0 || k == 1 || (k >= 4 && k <= 8), throws = k == 0 || k == 1 || k >= 5, ptr = k == 8 || k == 11; E x(0); x.v = -5; int r;
  try { r = dopull(k, x); } catch (boost::sync_queue_is_closed&) { vc_assert(throws, "C19.status_not_exception"); r = CLOSED; } catch (boost::thread_interrupted&) { vc_assert(may_wait, "C19.try_forms_are_not_interruption_points"); vc_assert(x.v == -5, "C19.interrupted_pull_takes_nothing"); vc_assert(!vc_held(qmtx), "C19.lock_released"); vc_cover("interrupted"); vc_end(); }
  catch (ElemThrow&) { same("C19.failed_pull_keeps_the_element"); vc_cover("throws"); fin(); vc_end(); }
  if (r == BUSY) { vc_assert((k == 3 || k == 10) && !nacq, "C19.busy_only_when_lock_is_taken"); vc_assert(x.v == -5, "C19.no_element_no_change"); vc_cover("busy"); vc_end(); }
  vc_assert(nacq > 0, "C19.lock_taken");
  if (r == CLOSED) { vc_assert(c0 && n0 == 0, "C19.closed_only_when_closed_and_empty"); same("C19.refused_pull_changes_nothing"); vc_assert(x.v == -5, "C19.no_element_no_change"); vc_cover("closed"); }
  else if (r == EMPTY) { vc_assert(!may_wait && !c0 && n0 == 0, "C19.empty_only_when_open_and_empty"); same("C19.refused_pull_changes_nothing"); vc_assert(x.v == -5, "C19.no_element_no_change"); vc_cover("empty"); }
  else { vc_assert(r == OK, "C19.status"); vc_assert(n0 > 0, "C19.no_element_out_of_nothing"); vc_assert(sz() == n0 - 1, "C19.one_element_removed"); vc_assert(x.v == f0, "C19.delivers_the_front_element"); if (vc_fork(n0 > 1)) vc_assert(el(k0) == s0v, "C19.other_elements_keep_value_and_order"); vc_cover("pulled"); }
  if (!may_wait) vc_assert(vc_env.waits == 0, "C19.try_forms_do_not_block"); fin();
}
#define PL(name, k) ENTRY(name) { pull_c(k, false); }
PL(pull_front, 0) PL(pull_front_value, 1) PL(try_pull_front, 2) PL(nonblocking_pull_front, 3) PL(wait_pull_front, 4) PL(pull_op, 5) PL(pull, 6) PL(pull_value, 7) PL(ptr_pull, 8) PL(try_pull, 9) PL(try_pull_noblock, 10) PL(try_pull_ptr, 11)
#define PT(name, k) ENTRY(name##_throwing) { pull_c(k, true); }
PT(pull_front, 0) PT(try_pull_front, 2) PT(nonblocking_pull_front, 3) PT(wait_pull_front, 4) PT(pull, 6) PT(ptr_pull, 8) PT(try_pull, 9) PT(try_pull_ptr, 11)
ENTRY(size) { env(0); size_t r = q->size(); vc_assert(r == n0, "C19.size_exact"); same("C19.observers_change_nothing"); fin(); }
ENTRY(observers) { env(0); int k = 0; while (k < 3 && !vc_choose("which")) k++; switch (k) { case 0: { bool r = q->empty(); vc_assert(r == (n0 == 0), "C19.empty_exact"); break; } case 1: { bool r = q->full(); vc_assert(r == (n0 == C - 1), "C19.full_exact"); break; } case 2: { bool r = q->closed(); vc_assert(r == c0, "C19.closed_exact"); break; } default: { size_t r = q->capacity(); vc_assert(r == C - 1, "C19.capacity_exact"); } } same("C19.observers_change_nothing"); fin(); }
ENTRY(close) { env(0); closing = true; q->close(); vc_assert(nacq && rc && rn == n0, "C19.close_closes"); vc_assert(q->in_ == in0 && q->out_ == out0, "C19.close_keeps_the_elements"); fin(); }
ENTRY(ctor) { size_t n = 1; while (n < 5 && !vc_choose("capacity")) n++; boost::sync_bounded_queue<long> b(n); vc_assert(b.capacity() == n && b.size() == 0 && b.empty() && !b.full() && !b.closed(), "C19.starts_empty_and_open"); vc_assert(b.capacity_ == n + 1 && b.in_ == 0 && b.out_ == 0, "C19.ring_invariant"); vc_cover("end"); }
// ---------------------------------------------------------------- wake-ups: any state, any waiter, any operation of another thread
#include "scen.h"
struct WC { enum { PUSH, PUSH_M, WPUSH, WPUSH_M, PULL, PULLV, WPULL, PPULL, NW, TPUSH = NW, TPUSH_M, NPUSH, OTPUSH, TPULL, NPULL, OTPULL, OPPULL, CLOSE, NR };
  static bool timed(int) { return false; } static int pre(int) { return 0; } static int waitmode(int op) { return op <= WPUSH_M ? 1 : 2; }
  static void init() { q = new Q(1); C = vc_range64("slots", 2, (1 << 20) - 1); vc_assume(C >= 2 && C < (1u << 20)); q->capacity_ = C; q->data_ = (E*)vc_array_new(sizeof(E), C, "elements"); qmtx = q->mtx_.native_handle(); }
  static void havoc() { q->in_ = ix("in"); q->out_ = ix("out"); vc_assume(q->in_ < C && q->out_ < C); q->closed_ = vc_nondet_bool("closed"); size_t a = vc_nondet_u64("waiting_full"), b = vc_nondet_u64("waiting_empty"); vc_assume(a < (1u << 30) && b < (1u << 30)); vc_assume(a >= (size_t)Sc<WC>::cnt(1) && b >= (size_t)Sc<WC>::cnt(2)); q->waiting_full_ = a; q->waiting_empty_ = b; } // each waiter not yet owed a notification is counted
  static bool run(int op, int) { E x(3); const E& c = x; try { switch (op) { case PUSH: q->push_back(c); break; case PUSH_M: q->push_back(boost::move(x)); break; case WPUSH: q->wait_push_back(c); break; case WPUSH_M: q->wait_push_back(boost::move(x)); break; case PULL: q->pull_front(x); break; case PULLV: x.v = q->pull_front().v; break; case WPULL: q->wait_pull_front(x); break; case PPULL: q->ptr_pull(); break;
    case TPUSH: q->try_push_back(c); break; case TPUSH_M: q->try_push_back(boost::move(x)); break; case NPUSH: q->nonblocking_push_back(c); break; case OTPUSH: q->try_push(c); break; case TPULL: q->try_pull_front(x); break; case NPULL: q->nonblocking_pull_front(x); break; case OTPULL: q->try_pull(x); break; case OPPULL: q->try_pull(); break; case CLOSE: q->close(); break; } } catch (boost::sync_queue_is_closed&) {} return true; } };
#define WK(name, op) ENTRY(wake_##name) { Sc<WC>::go(WC::op, "C19.blocked_operation_able_to_proceed_is_woken"); }
WK(push_back, PUSH) WK(push_back_move, PUSH_M) WK(wait_push_back, WPUSH) WK(wait_push_back_move, WPUSH_M) WK(pull_front, PULL) WK(pull_front_value, PULLV) WK(wait_pull_front, WPULL) WK(ptr_pull, PPULL)
// ---------------------------------------------------------------- every interleaving
typedef boost::sync_bounded_queue<long> RQ; static RQ* r; static long got[8]; static int by[8]; static int ngot, sent, form;
static void producer(void* p) { long b = (long)p; for (int i = 0; i < b / 10; i++) { long v = b % 10 * 100 + i; if (form == 1) { try { r->push_back(v); sent++; } catch (boost::sync_queue_is_closed&) { return; } } else { st s = r->wait_push_back(v); if (s == st::closed) return; vc_assert(s == st::success, "C19.status"); sent++; } } }
static void take(long v) { for (int i = 0; i < ngot; i++) { vc_assert(got[i] != v, "C19.delivered_at_most_once"); if (got[i] / 100 == v / 100 && by[i] == vc_self) vc_assert(got[i] < v, "C19.fifo_per_producer"); } by[ngot] = vc_self; got[ngot++] = v; }
static void consumer(void* p) { for (long i = 0; i < (long)p; i++) { long v = -1; if (form == 1) { try { r->pull_front(v); } catch (boost::sync_queue_is_closed&) { return; } } else if (r->wait_pull_front(v) == st::closed) return; vc_assert(v >= 0, "C19.no_element_out_of_nothing"); take(v); } }
static void closer(void*) { r->close(); }
static void s0(int cap, int f = 0, int filled = 0) { form = f; r = new RQ(cap); for (int i = 0; i < filled; i++) { r->push_back(900 + i); sent++; } vc_sched_start(); vc_sched.preempt = -1; vc_sched.lazy = 1; vc_sched.spurious = 1; }
static void go(bool drained) { vc_run(); vc_self = 7; for (int i = 1; i <= vc_sched.n; i++) vc_assert(vc_done(i), "C19.blocked_operation_able_to_proceed_is_woken"); vc_assert((size_t)(sent - ngot) == r->size(), "C19.nothing_lost"); if (drained) vc_assert(sent == ngot, "C19.nothing_lost"); vc_cover("end"); }
ENTRY(sched_1p1c) { s0(1); vc_thread(producer, (void*)31); vc_thread(consumer, (void*)3); go(true); } ENTRY(sched_1p1c_cap2) { s0(2, 1); vc_thread(producer, (void*)41); vc_thread(consumer, (void*)4); go(true); } ENTRY(sched_2p1c) { s0(1, 1); vc_thread(producer, (void*)11); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)2); go(true); }
ENTRY(sched_1p2c) { s0(1); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)1); vc_thread(consumer, (void*)1); go(true); } ENTRY(sched_2p2c) { s0(1); vc_sched.spurious = 0; vc_thread(producer, (void*)11); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)1); vc_thread(consumer, (void*)1); go(true); }
ENTRY(sched_close_pull) { s0(1); vc_sched.spurious = 0; vc_thread(producer, (void*)11); vc_thread(consumer, (void*)9); vc_thread(consumer, (void*)9); vc_thread(closer, 0); go(true); } ENTRY(sched_close_push) { s0(1); vc_thread(producer, (void*)21); vc_thread(producer, (void*)22); vc_thread(closer, 0); go(false); } ENTRY(sched_close) { s0(1, 1); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)9); vc_thread(closer, 0); go(false); }
// several blocked at once while several slots (elements) become available before any of them runs
ENTRY(sched_2p_full) { s0(2, 0, 2); vc_thread(producer, (void*)11); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)2); go(false); } ENTRY(sched_2c_empty) { s0(2, 1); vc_thread(producer, (void*)21); vc_thread(consumer, (void*)1); vc_thread(consumer, (void*)1); go(true); }
ENTRY(sched_close_2p_full) { s0(2, 1, 2); vc_sched.spurious = 0; vc_thread(producer, (void*)11); vc_thread(producer, (void*)12); vc_thread(consumer, (void*)1); vc_thread(closer, 0); go(false); }
